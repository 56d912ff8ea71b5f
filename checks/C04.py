"""Windows of sequences, real roots, dates and paths"""
import datetime
import itertools
import math
import os
import shutil

import vf


def main(ck):
    from Patro.Common import IterTools
    from Patro.Common.Math import Root, Functions
    from Patro.Common.Datetime import ensure_date, ensure_datetime
    from Patro.Common import Path as paths
    rng = ck.rng

    # Windows of sequences
    inputs = []
    for size in range(0, ck.pick(7, 10)):
        for n in range(0, 5):
            for closed in (False, True):
                if size == 0 and closed:
                    continue
                inputs.append({'s': list(range(10, 10 + size)), 'n': n, 'closed': closed})
    for _ in range(ck.pick(60, 600)):
        inputs.append({'s': [rng.randrange(3) for _ in range(rng.randrange(1, 12))], 'n': rng.randrange(1, 6), 'closed': rng.random() < .5})
    res = ck.tlc('Helpers', inputs=inputs, init='WInit', next='WNext', invariants=('Shift', 'Starts', 'Lasts', 'WEmit'), workers=1)
    for row in res.rows:
        inp = inputs[row['i'] - 1]
        want = [tuple(x) for x in row['out']]
        s, n = inp['s'], inp['n']
        cases = []
        for make in (list, tuple):
            if inp['closed']:
                cases.append(('closed_multiwise_index_iterator', lambda: [tuple(s[j] for j in x) for x in
                                                                          IterTools.closed_multiwise_index_iterator(len(s), n)]))
                if n == 2:
                    cases.append(('closed_pairwise', lambda make=make: list(IterTools.closed_pairwise(make(s)))))
                if n == 1:
                    cases.append(('closed_iterator', lambda make=make: [(x,) for x in IterTools.closed_iterator(make(s))][:-1]))
                    cases.append(('closed_iterator', lambda make=make: [(x,) for x in IterTools.closed_iterator(make(s))][1:-1] +
                                  [(x,) for x in IterTools.closed_iterator(make(s))][-1:], want[1:] + want[:1]))
            else:
                cases.append(('multiwise', lambda make=make: list(IterTools.multiwise(make(s), n))))
                cases.append(('multiwise of an iterator', lambda: list(IterTools.multiwise(iter(s), n))))
                if n == 2 and s:
                    cases.append(('pairwise', lambda make=make: list(IterTools.pairwise(make(s)))))
                    cases.append(('multiwise', lambda make=make: list(IterTools.multiwise(make(s)))))
        for case in cases:
            got = vf.outcome(case[1])
            expected = case[2] if len(case) > 2 else want
            ck.traces += 1
            if got[0] != 'ok' or got[1] != expected:
                ck.violation('{} of {} by {}: {} instead of {}'.format(case[0], s, n, got[1:], expected), inp)
    ck.note('windows', len(inputs))
    ck.exhaustive.append('windows of up to four items of sequences of distinct items, up to {} items'.format(ck.pick(6, 9)))

    # Real roots
    small = range(-4, 5)
    complex_factors = [[1, p, q] for p in (-2, 0, 1, 2) for q in (2, 3, 5) if p * p < 4 * q]
    inputs = []
    for lead in (1, -2, 3):
        inputs += [{'lead': lead, 'factors': [[1, -r]]} for r in small]
        inputs += [{'lead': lead, 'factors': [[1, -r], [1, -s]]} for r in small for s in small if r <= s]
        inputs += [{'lead': lead, 'factors': [f]} for f in complex_factors]
    inputs += [{'lead': lead, 'factors': [[1, -r] for r in c]} for lead in (1, -2) for c in
               (itertools.combinations_with_replacement(small, 3) if ck.thorough else
                [sorted(rng.choice(small) for _ in range(3)) for _ in range(25)])]
    for _ in range(ck.pick(15, 60)):
        inputs.append({'lead': rng.choice((1, -1, 2, 4)), 'factors': [[1, rng.choice(small)], rng.choice(complex_factors)]})
    for _ in range(ck.pick(25, 150)):
        degree, factors = 0, []
        while degree < 5:
            if degree <= 3 and rng.random() < .4:
                factors.append(rng.choice(complex_factors))
                degree += 2
            else:
                factors.append([1, -rng.choice([r for r in small if [1, -r] not in factors])])
                degree += 1
        inputs.append({'lead': rng.choice((1, -1, 2, 4)), 'factors': factors})
    res = ck.tlc('Helpers', inputs=inputs, init='RInitial', next='RStep', invariants=('NoRoot', 'RootsAre', 'REmit'), workers=1)

    def found(r):
        if r is None:
            return []
        return list(r) if isinstance(r, (list, tuple)) else [r]
    for row in res.rows:
        c, want = row['coefs'], row['roots']
        cases = []
        if len(c) <= 3:
            cases.append((Root.quadratic_root, [0] * (3 - len(c)) + c))
            cases.append((Root.cubic_root, [0] * (4 - len(c)) + c))
        if len(c) == 4:
            cases.append((Root.cubic_root, c))
        if len(c) == 6:
            cases.append((Root.fifth_root, c))
            if c[0] == 1:
                cases.append((Root.fifth_root_normalised, c[1:]))
        for function, arguments in cases:
            got = vf.outcome(lambda: sorted(map(float, found(function(*arguments)))))
            ck.traces += 1
            ok = got[0] == 'ok' and all(any(abs(x - r) < 1e-6 for r in want) for x in got[1]) and \
                all(any(abs(x - r) < 1e-6 for x in got[1]) for r in want)
            if not ok:
                ck.violation('{}{} gives {} instead of {}'.format(function.__name__, tuple(arguments), got[1:], want), arguments)
    ck.note('polynomials', len(inputs))

    # Dates
    inputs = [{'d': [y, m, d]} for y in (1900, 2000, 2023, 2024, 1970) for m in range(0, 14) for d in (0, 1, 28, 29, 30, 31, 32)]
    for _ in range(ck.pick(100, 1000)):
        inputs.append({'d': [rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 32), rng.randrange(0, 25),
                             rng.randrange(0, 61), rng.randrange(0, 60), rng.randrange(0, 1000)]})
    res = ck.tlc('Helpers', inputs=inputs, init='DInit', next='DNext', invariants=('DEmit',), workers=1)
    for row in res.rows:
        d = inputs[row['i'] - 1]['d']
        if len(d) == 3:
            text = '{:04}-{:02}-{:02}'.format(*d)
            function, make = ensure_date, lambda: datetime.date(*d)
        else:
            text = '{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}Z'.format(*d)
            function, make = ensure_datetime, lambda: datetime.datetime(*d[:6], d[6] * 1000)
        got = vf.outcome(lambda: function(text))
        ck.traces += 1
        if row['ok']:
            value = make()
            same = vf.outcome(lambda: function(value))
            if got != ('ok', value) or type(got[1]) is not type(value) or same != ('ok', value):
                ck.violation('the date {} is read as {}, its value gives {}'.format(text, got[1:], same[1:]), d)
        elif got[:2] != ('err', 'ValueError') and got[0] == 'ok':
            ck.violation('the date {} is accepted: {}'.format(text, got[1:]), d)
    ck.note('dates', len(inputs))

    # Paths
    home = os.path.join(ck.tmp, 'home', 'me')
    cwd = os.getcwd()
    split = lambda p: [x for x in p.split('/') if x]
    inputs = []
    for n in range(0, 4):
        for parts in itertools.product(('a', '..', '.', ''), repeat=n):
            for start in ('root', 'home', 'cwd'):
                inputs.append({'from': start, 'home': split(home), 'cwd': split(cwd), 'parts': list(parts)})
    res = ck.tlc('Helpers', inputs=inputs, init='PInit', next='PNext', invariants=('Clean', 'PEmit'), workers=1)
    saved = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        for row in res.rows:
            inp = inputs[row['i'] - 1]
            text = '/'.join(inp['parts'])
            if inp['from'] == 'root':
                text = '/' + text
                if text.startswith('//') and not text.startswith('///'):
                    continue   # two slashes at the beginning are special
            elif inp['from'] == 'home':
                text = '~/' + text
            elif text.startswith('/'):
                continue
            got = vf.outcome(lambda: paths.to_absolute_path(text))
            ck.traces += 1
            if got != ('ok', '/' + '/'.join(row['path'])):
                ck.violation('the absolute path of {} is {} instead of /{}'.format(text, got[1:], '/'.join(row['path'])), inp)
                continue
            for step, parent in enumerate(row['parents'], 1):
                got2 = vf.outcome(lambda: paths.parent_directory_of(got[1], step))
                if got2 != ('ok', '/' + '/'.join(parent)):
                    ck.violation('the parent number {} of {} is {}'.format(step, got[1], got2[1:]), inp)
            if paths.parent_directory_of(got[1]) != '/' + '/'.join(row['parents'][0]):
                ck.violation('the parent of {}'.format(got[1]), inp)
    finally:
        if saved is None:
            os.environ.pop('HOME')
        else:
            os.environ['HOME'] = saved
    ck.note('paths', len(inputs))

    # Search of a file
    inputs = []
    for _ in range(ck.pick(60, 400)):
        names = ('a', 'b', 'cc')
        tree = set()
        for _ in range(rng.randrange(0, 7)):
            tree.add(tuple(rng.choice(names) for _ in range(rng.randrange(1, 4))) + (rng.choice(('f', 'g', 'F')),))
        dirs = [[rng.choice(names) for _ in range(rng.randrange(1, 3))] for _ in range(rng.randrange(1, 4))]
        inputs.append({'tree': [list(x) for x in sorted(tree)], 'name': rng.choice(('f', 'g')), 'dirs': dirs})
    res = ck.tlc('Helpers', inputs=inputs, init='SInit', next='SNext', invariants=('FirstDir', 'SEmit'), workers=1)
    for row in res.rows:
        inp = inputs[row['i'] - 1]
        root = os.path.join(ck.tmp, 'tree')
        for f in inp['tree']:
            os.makedirs(os.path.join(root, *f[:-1]), exist_ok=True)
            open(os.path.join(root, *f), 'w').close()
        directories = [os.path.join(root, *d) for d in inp['dirs']]
        forms = [directories, tuple(directories)] + ([directories[0]] if len(directories) == 1 else [])
        for form in forms:
            got = vf.outcome(lambda: paths.find(inp['name'], form))
            ck.traces += 1
            allowed = [os.path.join(root, *inp['tree'][n - 1]) for n in row['found']]
            if allowed and (got[0] != 'ok' or got[1] not in allowed) or not allowed and got[0] == 'ok':
                ck.violation('search of {} in {}: {} instead of one of {}'.format(inp['name'], form, got[1:], allowed), inp)
        shutil.rmtree(root, ignore_errors=True)
    ck.note('searches', len(inputs))

    # Functions of a number
    for x in (-3.7, -3.2, -1.5, -1, -.25, 0., .2, 1, 1.2, 2.75, 3):
        for name, want in (('sign', -1 if x < 0 else 1), ('ceil_int', math.ceil(x)), ('trignometric_clamp', min(1, max(-1, x))),
                           ('is_in_trignometric_range', -1 <= x <= 1)):
            got = vf.outcome(lambda: getattr(Functions, name)(x))
            if got != ('ok', want):
                ck.violation('{}({}) is {}'.format(name, x, got[1:]))
        for y in (-3.7, 0, 1, 1.2, 5):
            if Functions.cmp(x, y) != (-1 if x < y else 1 if x > y else 0) or not vf.close(Functions.middle(x, y), (x + y) / 2):
                ck.violation('cmp or middle of {} {}'.format(x, y))
            for e in (.25, 1, 5):
                if abs(abs(x - y) - e) > 1e-6 and Functions.epsilon_float(x, y, e) != (abs(x - y) < e):
                    ck.violation('epsilon_float of {} {} {}'.format(x, y, e))
    for x, want in ((-3.7, -4), (-.2, 0), (.4, 0), (.6, 1), (2.9, 3), (3, 3)):
        if Functions.rint(x) != want:
            ck.violation('rint({}) is {}'.format(x, Functions.rint(x)))
    ck.samples.append(inputs[0])
