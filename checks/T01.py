"""Yarns, fibers, and data bases"""
import os
import subprocess
import sys

import vf

NAMES = ['Cotton', 'Linen', 'Silk', 'cotton', 'Wool 2', 'été', 'M-5']
CHILD = '''
import sys
from Patro.TextileTechnology.Fiber import FiberDatabase
db = FiberDatabase()
db.load(sys.argv[1])
print(ascii([y for x in db for y in (x.name, x.source)]))
'''


def rv(x):
    return x[0] / x[1]


def main(ck):
    import yaml
    from Patro.TextileTechnology import Yarn as yarn_module
    from Patro.TextileTechnology.Yarn import Yarn, TwistType
    from Patro.TextileTechnology.Database import Database
    from Patro.TextileTechnology.Fiber import Fiber, FiberDatabase, FiberType
    from Patro.TextileTechnology.Seam import AstmSeam, AstmSeamClass
    from Patro.TextileTechnology.StitchType import StitchType
    rng = ck.rng

    # Yarn numbers
    inputs = []
    for _ in range(ck.pick(150, 1500)):
        unit, ops = 'tex', []
        for _ in range(rng.randrange(1, 9)):
            unit = rng.choice(('den', 'nm')) if unit == 'tex' else 'tex'
            ops.append(unit)
        inputs.append({'tex': [rng.choice((1, 2, 5, 9, 10, 25, 30, 40, 1000)), 1] if rng.random() < .7 else [rng.choice((1, 3, 5, 7)), 2], 'ops': ops})
    res = ck.tlc('Textile', inputs=inputs, init='YInit', next='YNext', invariants=('Same', 'YEmit'), workers=1)
    for row in res.rows:
        inp = inputs[row['i'] - 1]
        value, unit = rv(inp['tex']), 'tex'
        for name, expected in row['out'][1:]:
            got = vf.outcome(lambda: getattr(yarn_module, '{}2{}'.format(unit, name))(value))
            ck.traces += 1
            if got[0] != 'ok' or not vf.close(got[1], rv(expected)):
                ck.violation('{} {} is {} {} instead of {}'.format(value, unit, got[1:], name, rv(expected)), inp)
                break
            value, unit = got[1], name
        twist = rng.choice((None, TwistType.S, TwistType.Z))
        tex = rng.choice((rv(inp['tex']), str(rv(inp['tex']))))

        def make():
            yarn = Yarn('cotton', 'red', tex, twist) if twist or rng.random() < .5 else Yarn('cotton', 'red', tex)
            return yarn.fiber, yarn.color, yarn.twist_type, yarn.tex, yarn.denier, yarn.nm
        got = vf.outcome(make)
        want = [rv(inp['tex']), rv(row['den']), rv(row['nm'])]
        if got[0] != 'ok' or got[1][:3] != ('cotton', 'red', twist) or not all(map(vf.close, got[1][3:], want)):
            ck.violation('a yarn of {} tex and twist {} is {} instead of {}'.format(tex, twist, got[1:], want), inp)
    ck.note('yarns', len(inputs))

    # Data bases
    class Item:
        def __init__(self, name, number):
            self.name = name
            self.number = number

    inputs = [{'ops': [[rng.choice(('add', 'add', 'get')), rng.choice(NAMES)] for _ in range(rng.randrange(0, 14))]} for _ in range(ck.pick(300, 3000))]
    res = ck.tlc('Textile', inputs=inputs, init='BInit', next='BNext', invariants=('OneOfEachName', 'FirstKept', 'BEmit'), workers=1)
    for row in res.rows:
        ops = inputs[row['i'] - 1]['ops']

        def history():
            db = Database()
            out = []
            for n, (op, name) in enumerate(ops):
                if op == 'add':
                    db.add(Item(name, n + 1))
                    out.append(len(db))
                else:
                    try:
                        out.append(db[name].number)
                    except KeyError:
                        out.append(0)
            return out, [[x.name, x.number] for x in db], [db[x.name] is x for x in db]
        got = vf.outcome(history)
        ck.traces += 1
        if got[0] != 'ok' or got[1][:2] != (list(row['out']), [list(x) for x in row['db']]) or not all(got[1][2]):
            ck.violation('data base {}: {} instead of {} {}'.format(ops, got[1:], row['out'], row['db']), ops)
    ck.note('histories of data bases', len(inputs))

    # Files of fibers, the one of Patro included
    own = yaml.safe_load(open(os.path.join(vf.REPO, 'Patro/TextileTechnology/data/fiber.yaml'), encoding='utf8'))
    own = {'plant': list(own['Natural Fibres']['Plant Fibres']), 'animal': list(own['Natural Fibres']['Animal Fibres']),
           'synthetic': list(own['Synthetic Fibres'])}
    inputs = [{'files': [own]}, {'files': [own, own]}]
    for _ in range(ck.pick(100, 1000)):
        files = []
        for _ in range(rng.randrange(1, 4)):
            files.append({s: rng.sample(NAMES, rng.randrange(0, 4)) for s in ('plant', 'animal', 'synthetic')})
        inputs.append({'files': files})
    res = ck.tlc('Textile', inputs=inputs, init='FInit', next='FNext', invariants=('OneOfEachName', 'Whole', 'FEmit'), workers=1)
    for row in res.rows:
        files = inputs[row['i'] - 1]['files']

        def load():
            db = FiberDatabase()
            for n, f in enumerate(files):
                if f is own:
                    db.load()
                    continue
                source = lambda s, x: '{} {} {}'.format(s, n, x)
                path = os.path.join(ck.tmp, 'fiber.yaml')
                with open(path, 'w', encoding='utf8') as fh:
                    yaml.safe_dump({
                        'Natural Fibres': {'Plant Fibres': {x: {'source': source('plant', x)} for x in f['plant']},
                                           'Animal Fibres': {x: {'source': source('animal', x)} for x in f['animal']}},
                        'Synthetic Fibres': {x: None for x in f['synthetic']},
                    }, fh, sort_keys=False, allow_unicode=rng.random() < .5)
                db.load(path)
            return [[x.name, x.fiber_type.name] for x in db], [(x.name, x.source) for x in db if x.fiber_type is not FiberType.Synthetic]
        got = vf.outcome(load)
        ck.traces += 1
        want = [x[:2] for x in row['db']]
        if got[0] != 'ok' or got[1][0] != want:
            ck.violation('files of fibers {} give {} instead of {}'.format(files, got[1:], want), files)
            continue
        for name, source in got[1][1]:
            # the source given by the first file which has this fiber
            n, section = next((n, s) for n, f in enumerate(files) for s in ('plant', 'animal', 'synthetic') if name in f[s])
            if files[n] is not own and source != '{} {} {}'.format(section, n, name):
                ck.violation('the fiber {} of {} has the source {}'.format(name, files, source), files)
    ck.note('files of fibers', len(inputs))
    # The locale of the user does not matter
    path = os.path.join(ck.tmp, 'locale.yaml')
    with open(path, 'w', encoding='utf8') as fh:
        fh.write('Natural Fibres: {Plant Fibres: {coton \u00e9cru: {source: \u6f22}}, Animal Fibres: {}}\nSynthetic Fibres: {}\n')
    env = dict(os.environ, LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONPATH=vf.REPO)
    child = subprocess.run([sys.executable, '-c', CHILD, path], env=env, capture_output=True, text=True, cwd=ck.tmp)
    if child.returncode or child.stdout.strip() != ascii(['coton \u00e9cru', '\u6f22']):
        ck.violation('a file of fibers read under the C locale is {} {}'.format(child.stdout, child.stderr[-300:]), {'locale': 'C'})
    ck.traces += 1
    for name in 'SS', 'LS', 'EF':
        for kind in 'a', 'bd':
            for rows in 1, 2, 12:
                got = vf.outcome(lambda: AstmSeam(AstmSeamClass(name), kind, rows).name)
                if got != ('ok', '{}{}-{}'.format(name, kind, rows)):
                    ck.violation('the seam {} {} {} is named {}'.format(name, kind, rows, got[1:]))
    stitch = StitchType('301', 'Lock', '1', 2, '0')
    if (stitch.number, stitch.name, stitch.number_of_needles, stitch.number_of_threads, stitch.number_of_loops) != (301, 'Lock', 1, 2, 0):
        ck.violation('attributes of a stitch type')
    ck.samples.append(inputs[-1])
