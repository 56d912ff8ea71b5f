"""Measurement sets"""
import math
import os
import string

import vf


OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
PREC = {'add': 1, 'sub': 1, 'mul': 2, 'div': 2, 'neg': 3, 'sq': 4, 'num': 9, 'ref': 9}


def num_text(v, rng=None):
    n, d = v
    if d == 1:
        return str(n)
    # decimal when exact
    if d in (2, 4, 8, 16, 5, 10, 20, 100) and (rng is None or rng.random() < .7):
        return repr(n / d)
    return '({}/{})'.format(n, d)


def render(e, rng=None, ref=lambda n: n, func=None):
    """Text of an expression, with random spaces and redundant parentheses"""
    def sp():
        return ' ' if rng is not None and rng.random() < .4 else ''

    def go(e, level):
        k = e['k']
        if k == 'num':
            text = num_text(e['v'], rng)
            if text.startswith('-') and level > 0:
                text = '(' + text + ')'
            return text
        if k == 'ref':
            return ref(e['n'])
        if k in ('line', 'angle', 'cur'):
            return func(e)
        p = PREC[k]
        if k == 'neg':
            text = '-' + go(e['a'], 3)
        elif k == 'sq':
            text = go(e['a'], 5) + '**2'
        elif k in ('add', 'mul'):
            text = go(e['a'], p) + sp() + OPS[k] + sp() + go(e['b'], p + (0 if rng is None or rng.random() < .5 else 1))
        else:
            text = go(e['a'], p) + sp() + OPS[k] + sp() + go(e['b'], p + 1)
        if p < level or (rng is not None and rng.random() < .1):
            text = '(' + sp() + text + sp() + ')'
        return text
    return go(e, 0)


def num(n, d=1):
    g = math.gcd(n, d)
    return {'k': 'num', 'v': [n // g, d // g]}


def random_expr(rng, names, depth, monotone):
    """monotone: no cancellation is possible"""
    p = rng.random()
    if depth == 0 or p < .25:
        if names and rng.random() < .6:
            return {'k': 'ref', 'n': rng.choice(names)}
        return num(rng.randrange(1, 20), rng.choice((1, 1, 2, 4, 5, 3)))
    if p < .5:
        return {'k': 'add', 'a': random_expr(rng, names, depth - 1, monotone),
                'b': random_expr(rng, names, depth - 1, monotone)}
    if p < .65:
        return {'k': 'mul', 'a': random_expr(rng, names, depth - 1, monotone), 'b': num(rng.randrange(1, 6), rng.choice((1, 2)))}
    if p < .8:
        return {'k': 'div', 'a': random_expr(rng, names, depth - 1, monotone), 'b': num(rng.randrange(1, 6))}
    if p < .9:
        b = num(rng.randrange(1, 9)) if monotone else random_expr(rng, names, depth - 1, monotone)
        return {'k': 'sub', 'a': random_expr(rng, names, depth - 1, monotone), 'b': b}
    if monotone:
        return random_expr(rng, names, depth - 1, monotone)
    return {'k': 'neg', 'a': random_expr(rng, names, depth - 1, monotone)}


def refs(e):
    if e['k'] == 'ref':
        return {e['n']}
    out = set()
    for k in 'ab':
        if k in e:
            out |= refs(e[k])
    return out


TEXTS = ['', 'Waist', 'Côté: gauche', 'a # b', '- x', "it's \"quoted\"", 'line 1\nline 2', '[1, 2]', '{a: b}', '  padded  ',
         'yes', 'null', '1.5', '日本', 'back\\slash', 'x' * 200, 'tab\there', '%d @ & * ! |', '~', 'true', "'", '"', ':', '? k']


def random_set(rng, n, monotone, shuffle=True):
    names = rng.sample(['height', 'waist_circ', 'hip_circ', 'bust_arc_f', 'arm_length', 'neck', 'leg_a', 'leg_b', 'leg_ab',
                        'm1', 'm10', 'm2', 'Zed', 'aaa', 'N', 'E', 'beta', 'S', 're', 'I', 'series', 'e', 'y', 'no', 'null', 'été', 'a_very_long_measurement_name_indeed', 'x9_'], n)
    order = names[:]
    defs = []
    for k, name in enumerate(names):
        # acyclic by construction
        available = order[:k]
        p = rng.random()
        if p < .3 or not available:
            e = num(rng.randrange(-50 if not monotone else 1, 400), rng.choice((1, 1, 2, 4, 10, 3)))
        else:
            e = random_expr(rng, available[-4:], rng.choice((1, 1, 2)), monotone)
        defs.append({'n': name, 'e': e})
    if shuffle:
        rng.shuffle(defs)
    return defs


def to_value(rng, e, text=True):
    """number or text given to the code"""
    if e['k'] == 'num' and not text:
        n, d = e['v']
        if d == 1 and rng.random() < .5:
            return n
        if d in (1, 2, 4, 10):
            return n / d
    return render(e, rng)


def main(ck):
    from Patro.Measurement import MeasurementSet

    rng = ck.rng

    # 1. exhaustive model
    res = ck.tlc('Measurements', {'Depth': 3}, init='MInit', next='MNext', view='View',
                 invariants=('UniqueNames', 'OrderFree', 'AskedDefined'), action_constraint='EmitStep')
    ck.exhaustive.append('every history of additions (27 definitions of 3 names, in every order) and questions')
    ck.note('transitions of the specification', len(res.rows))
    graph = vf.Graph(res.rows, [[[], []]])

    def replay(steps, what):
        ms = MeasurementSet()
        objects = {}
        for j, (a, state) in enumerate(steps):
            if a[0] == 'add':
                got = vf.outcome(ms.add, a[1], to_value(rng, a[2], rng.random() < .6))
                if (got[0] == 'ok') != (a[3] == 'ok'):
                    return 'step {} {}: {}'.format(j, a, got)
                if got[0] == 'ok':
                    if got[1].name != a[1]:
                        return 'step {} {}: wrong object'.format(j, a)
                    objects[a[1]] = got[1]
            else:
                kind = rng.randrange(4)
                if kind == 0:
                    got = vf.outcome(lambda: float(ms[a[1]]))
                elif kind == 1:
                    got = vf.outcome(lambda: ms[a[1]].value)
                elif kind == 2:
                    got = vf.outcome(lambda: getattr(ms, a[1]).value)
                else:
                    got = vf.outcome(lambda: float(objects[a[1]]))
                if a[2] == 'error':
                    if got[0] == 'ok':
                        return 'step {} {}: got the value {}'.format(j, a, got[1])
                elif got[0] != 'ok' or not vf.close(got[1], vf.rat(a[2]), 1e-12):
                    return 'step {} {}: {}'.format(j, a, got)
            names = [d['n'] for d in state[0]]
            if [m.name for m in ms] != names:
                return 'step {} {}: names {}'.format(j, a, [m.name for m in ms])
            if [m.name for m in ms.sorted_iter()] != sorted(names):
                return 'step {} {}: sorted names {}'.format(j, a, [m.name for m in ms.sorted_iter()])
            for n in names:
                if ms[n] is not objects[n] or getattr(ms, n) is not objects[n]:
                    return 'step {} {}: lookup of {}'.format(j, a, n)
            for n in ('waist', 'hip', 'bust_arc', 'a-b', 'nothing'):
                if n not in names and (vf.outcome(lambda: ms[n])[0] == 'ok' or hasattr(ms, n)):
                    return 'step {} {}: {} is not absent'.format(j, a, n)
        return None

    for s0, steps in graph.behaviours(rng, walks=ck.pick(150, 1500), length=14, max_transitions=ck.pick(500, 5000)):
        ck.traces += 1
        message = replay(steps, 'model')
        if message:
            ck.violation(message, [x[0] for x in steps])
            if ck.full:
                return

    # 2. larger random sets, values given by the specification after each addition
    sets = []
    for k in range(ck.pick(120, 1200)):
        sets.append(random_set(rng, rng.randrange(2, 9), monotone=True))
    complete = len(sets)
    for k in range(ck.pick(120, 1200)):
        sets.append(random_set(rng, rng.randrange(2, 12), monotone=False))
    # long chains in adverse orders
    for k in range(ck.pick(4, 30)):
        n = rng.randrange(5, 14)
        chain = [{'n': 'c%d' % j, 'e': num(3) if j == 0 else {'k': 'add', 'a': {'k': 'ref', 'n': 'c%d' % (j - 1)}, 'b': num(1, 2)}}
                 for j in range(n)]
        if k % 2:
            chain.reverse()
        else:
            rng.shuffle(chain)
        sets.append(chain)
    res = ck.tlc('Measurements', {'Depth': 0}, init='CInit', next='CNext', constraint='EmitSet', inputs=sets)
    expected = {row['i'] - 1: row['v'] for row in res.rows}
    for i, defs in enumerate(sets):
        ck.traces += 1
        ms = MeasurementSet()
        partial = i < complete or i >= 2 * complete    # values are asked before the set is complete
        texts = []
        bad = None
        for k, d in enumerate(defs):
            full_name, description = (rng.choice(TEXTS), rng.choice(TEXTS)) if rng.random() < .6 else ('', '')
            value = to_value(rng, d['e'], rng.random() < .7)
            texts.append((d['n'], value))
            m = ms.add(d['n'], value, full_name, description) if rng.random() < .5 else \
                ms.add(name=d['n'], value=value, full_name=full_name, description=description)
            if (m.full_name, m.description) != (full_name, description):
                bad = 'texts of {}: {!r}'.format(d['n'], (m.full_name, m.description))
            if partial or k == len(defs) - 1:
                ask = list(range(k + 1))
                rng.shuffle(ask)
                if k < len(defs) - 1:
                    ask = ask[:2]
                for j in ask:
                    v = expected[i][k][j]
                    got = vf.outcome(lambda: float(ms[defs[j]['n']]))
                    if v[1] == 0:
                        if k == len(defs) - 1 and not partial:
                            continue   # division by zero
                        if got[0] == 'ok':
                            bad = 'after {}: {} has the value {} but depends on a missing measurement'.format(
                                texts, defs[j]['n'], got[1])
                    elif got[0] != 'ok' or not vf.close(got[1], vf.rat(v), 1e-12):
                        bad = 'after {}: {} = {} expected {}'.format(texts, defs[j]['n'], got, v)
            if bad:
                break
        if not bad:
            # every second set is saved and loaded again
            path = os.path.join(ck.tmp, 'set.yaml')
            ms.save_as_yaml(path)
            ms2 = MeasurementSet()
            ms2.load_yaml(path)
            if {m.name for m in ms2} != {d['n'] for d in defs} or len(list(ms2)) != len(defs):
                bad = 'names after load: {}'.format([m.name for m in ms2])
            else:
                for m in ms:
                    m2 = ms2[m.name]
                    if (m.full_name, m.description) != (m2.full_name, m2.description):
                        bad = 'texts after load: {!r} {!r}'.format((m.full_name, m.description), (m2.full_name, m2.description))
                    v, v2 = vf.outcome(lambda: m.value), vf.outcome(lambda: m2.value)
                    if v[0] != v2[0] or (v[0] == 'ok' and not vf.close(v[1], v2[1], 1e-13)):
                        bad = '{} after load: {} was {}'.format(m.name, v2, v)
                # a second round trip gives the same file
                path2 = os.path.join(ck.tmp, 'set2.yaml')
                ms2.save_as_yaml(path2)
                ms3 = MeasurementSet()
                ms3.load_yaml(path2)
                for m in ms:
                    v, v2 = vf.outcome(lambda: m.value), vf.outcome(lambda: ms3[m.name].value)
                    if v[0] != v2[0] or (v[0] == 'ok' and not vf.close(v[1], v2[1], 1e-13)):
                        bad = '{} after two loads: {} was {}'.format(m.name, v2, v)
            ck.note('yaml round trips')
        if bad:
            ck.violation(bad, {'definitions': texts})
            if ck.full:
                return

    # 3. names
    for text, name in (('a b', 'a_b'), ('a  b c', 'a__b_c'), ('abc', 'abc'), ('A1_', 'A1_')):
        ms = MeasurementSet()
        m = ms.add(text, 1)
        if m.name != name or ms[name] is not m:
            ck.violation('name of {!r}: {!r}'.format(text, m.name))
        if vf.outcome(ms.add, name, 2)[0] == 'ok' or float(ms[name]) != 1 or len(list(ms)) != 1:
            ck.violation('{!r} and {!r} are both accepted'.format(text, name))
        ck.traces += 1
    for text in ('a-b', 'a.b', 'a+b', '@a', 'a:b', 'a\nb', 'a/b', '(a)', 'a$', "a'", '#'):
        ms = MeasurementSet()
        if vf.outcome(ms.add, text, 1)[0] == 'ok' or len(list(ms)):
            ck.violation('the name {!r} is accepted'.format(text))
        ck.traces += 1
    # 4. plain numbers keep their value
    for v in [0, 1, -7, 12345678, .1, 1/3, 1e-9, 123456.789, 2.5e10, 98.76543210123]:
        ms = MeasurementSet()
        m = ms.add('x', v)
        n = ms.add('y', repr(v))
        z = ms.add('z', 'x + 0')
        if float(m) != float(v) or not vf.close(float(n), float(v), 1e-14) or not vf.close(float(z), float(v), 1e-14):
            ck.violation('value of {!r}: {} {} {}'.format(v, float(m), float(n), float(z)))
        ms.unit = 'cm'
        ms.pattern_making_system = '998'
        if (ms.unit, ms.pattern_making_system) != ('cm', '998'):
            ck.violation('unit')
        ck.traces += 1
    ck.samples.append(sets[0])
    ck.assumptions.append('the names are not names of sympy functions or constants; nothing cancels in an expression which '
                          'refers to a missing measurement')
