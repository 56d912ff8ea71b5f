"""Expressions of the calculator"""
from fractions import Fraction

import vf
from M01 import num, random_expr, random_set, refs, render
from geo import rv

POINTS = ['A', 'A1', 'A10', 'Ap', 'B', 'AB', 'Line', 'Spl', 'x', 'A2']
NAMES = {'height': 'height', 'waist': 'waist', 'waist_arc': 'waist_arc', 'hip_Line_A': 'hip_Line_A', 'A_B': 'A_B',
         'C_tour': '@tour', 'C_tour_2': '@tour_2', 'C_t': '@t', 'my_CurrentLength': 'my_CurrentLength', 'Z9': 'Z9',
         'bust_Spl_A_B': 'bust_Spl_A_B', 'C_Line_A_B': '@Line_A_B', 'm': 'm'}


class Point:
    def __init__(self, name, vector):
        self.name = name
        self.vector = vector

    def __repr__(self):
        return self.name


def main(ck):
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Pattern.Calculator import Calculator, Expression

    rng = ck.rng
    pythagorean = [(3, 4), (4, 3), (5, 12), (6, 8), (8, 6), (0, 5), (7, 0), (8, 15), (2, 0), (0, 3)]

    def func(e):
        return {'line': 'Line_{}_{}', 'angle': 'AngleLine_{}_{}', 'cur': 'CurrentLength'}[e['k']].format(e.get('p'), e.get('q'))

    def ref(n):
        """a custom measurement is known under its two names"""
        return NAMES[n] if rng.random() < .8 else n

    def leaf(points):
        t = rng.random()
        if len(points) > 1 and t < .45:
            p, q = rng.sample(points, 2)
            return {'k': rng.choice(('line', 'line', 'angle')), 'p': p, 'q': q}
        if t < .55:
            return {'k': 'cur'}
        if t < .85:
            return {'k': 'ref', 'n': rng.choice(list(NAMES))}
        return num(rng.randrange(1, 20), rng.choice((1, 1, 2, 4, 5)))

    def expr(points, depth):
        t = rng.random()
        if depth == 0 or t < .15:
            return leaf(points)
        if t < .25:
            return {'k': rng.choice(('neg', 'sq')), 'a': leaf(points)}
        return {'k': rng.choice(('add', 'sub', 'mul', 'div')), 'a': expr(points, depth - 1), 'b': expr(points, depth - 1)}

    def measurements():
        names = rng.sample(list(NAMES), rng.randrange(0, 6))
        out = []
        for j, name in enumerate(names):
            if j and rng.random() < .4:
                e = {'k': rng.choice(('add', 'mul')), 'a': {'k': 'ref', 'n': rng.choice(names[:j])}, 'b': num(rng.randrange(1, 6), rng.choice((1, 2)))}
            else:
                e = num(rng.randrange(1, 30), rng.choice((1, 1, 2, 4)))
            out.append({'n': name, 'e': e})
        if rng.random() < .3:
            rng.shuffle(out)
        return out

    def vector():
        dx, dy = rng.choice(pythagorean)
        return rv(rng.choice((1, -1)) * dx, rng.choice((1, -1)) * dy)

    def position(points, previous):
        """at a pythagorean distance of another point, often"""
        if previous and rng.random() < .8:
            x, y = rng.choice(previous)
            (dx, _), (dy, _) = vector()
            return (x + dx, y + dy)
        return (rng.randrange(-5, 6), rng.randrange(-5, 6))

    def make():
        names = rng.sample(POINTS, rng.randrange(2, 5))
        exprs = [expr(names, rng.choice((0, 1, 1, 2, 2))) for _ in range(rng.randrange(1, 5))]
        ops = []
        where = {}
        segment = False
        # like a sketch: points and expressions in turn
        pending = list(names)
        dirty = set()
        for _ in range(rng.randrange(4, 14)):
            t = rng.random()
            if pending and t < .5 or not where:
                n = pending.pop() if pending else names[0]
                where[n] = position(names, list(where.values()))
                ops.append(['point', n, rv(*where[n])])
            elif t < .6:
                n = rng.choice(list(where))
                where[n] = position(names, [p for m, p in where.items() if m != n])
                ops.append(['point', n, rv(*where[n])])
                dirty = set(range(len(exprs)))
            elif t < .7:
                ops.append(['segment', vector() if rng.random() < .8 else rv(0, 0)])
                dirty = set(range(len(exprs)))
            else:
                j = rng.randrange(len(exprs))
                if j in dirty:
                    ops.append(['dirty', j + 1])
                    dirty.discard(j)
                ops.append(['ask', j + 1])
                if rng.random() < .2:
                    ops.append(['ask', j + 1])
        for n in pending:
            where[n] = position(names, list(where.values()))
            ops.append(['point', n, rv(*where[n])])
        ops.append(['segment', vector()])
        for j in range(len(exprs)):
            ops += [['dirty', j + 1], ['ask', j + 1]]
        return {'ms': measurements(), 'exprs': exprs, 'ops': ops}

    cases = [make() for _ in range(ck.pick(1500, 15000))]

    # every expression of one operation on the atoms
    atoms = [num(3, 2), {'k': 'ref', 'n': 'waist'}, {'k': 'ref', 'n': 'C_tour'}, {'k': 'ref', 'n': 'Z9'}, {'k': 'cur'},
             {'k': 'line', 'p': 'A', 'q': 'A1'}, {'k': 'line', 'p': 'A', 'q': 'A10'}, {'k': 'line', 'p': 'Ap', 'q': 'A'},
             {'k': 'angle', 'p': 'A', 'q': 'A1'}, {'k': 'angle', 'p': 'A10', 'q': 'A1'}]
    exprs = atoms + [{'k': k, 'a': a} for k in ('neg', 'sq') for a in atoms] + \
        [{'k': k, 'a': a, 'b': b} for k in ('add', 'sub', 'mul', 'div') for a in atoms for b in atoms]
    ck.exhaustive.append('every expression of one operation on ten atoms')
    place = [['point', 'A', rv(0, 0)], ['point', 'A1', rv(4, 0)], ['point', 'A10', rv(4, 3)], ['point', 'Ap', rv(0, 12)], ['segment', rv(5, 12)]]
    ms = [{'n': 'waist', 'e': num(7, 2)}, {'n': 'C_tour', 'e': {'k': 'add', 'a': {'k': 'ref', 'n': 'waist'}, 'b': num(1, 4)}}]
    for s in range(0, len(exprs), 20):
        part = exprs[s:s + 20]
        cases.append({'ms': ms, 'exprs': part, 'ops': place + [['ask', j + 1] for j in range(len(part))]})

    def defined(case):
        """the values are small enough"""
        return True

    rows = ck.tlc('Calculator', {'Depth': 0}, init='CalcInit', next='CalcNext', invariants=('CalcLaws',), constraint='CalcEmit', inputs=cases, jobs=8).rows
    expected = {}
    for row in rows:
        expected[row['i'] - 1, row['k']] = row

    for i, case in enumerate(cases):
        ms = ValentinaMeasurements()
        for d in case['ms']:
            value = render(d['e'], rng, lambda n: NAMES[n])
            ms.add(NAMES[d['n']], value)
        calculator = Calculator(ms)
        texts = [render(e, rng, ref, func) for e in case['exprs']]
        expressions = []
        for e, text in zip(case['exprs'], texts):
            n, d = e['v'] if e['k'] == 'num' else (0, 0)
            value = n / d if d and rng.random() < .5 else text
            expressions.append(Expression(value, calculator))
            x = expressions[-1]
            number = vf.outcome(float, str(value))
            if bool(x.is_float()) != (number[0] == 'ok') or str(x) != str(value) or x.expression != str(value):
                ck.violation('expression {!r}: is a number {}, text {!r}'.format(value, x.is_float(), str(x)), {'expression': str(value)})
        points = {}
        text = ''

        def fail(what, k):
            ck.violation('{} after {} of {}, measurements {}: {}'.format(
                text, case['ops'][:k], {n: list(p.vector) for n, p in points.items()},
                {d['n']: render(d['e']) for d in case['ms']}, what), {'case': case, 'text': text})

        for k, op in enumerate(case['ops'], 1):
            if op[0] == 'point':
                v = Vector2D(op[2][0][0], op[2][1][0])
                if op[1] in points:
                    points[op[1]].vector = v
                else:
                    points[op[1]] = Point(op[1], v)
                    calculator.add_point(points[op[1]])
            elif op[0] == 'segment':
                if op[1] == rv(0, 0):
                    calculator.unset_current_segment()
                else:
                    calculator.set_current_segment(Vector2D(op[1][0][0], op[1][1][0]))
            elif op[0] == 'dirty':
                expressions[op[1] - 1].set_dirty()
            else:
                row = expected[i, k]
                expression = expressions[op[1] - 1]
                text = texts[op[1] - 1]
                ck.note('evaluations')
                o = vf.outcome(lambda: expression.value)
                if row['v'] == [0, 0]:
                    # undefined, or not a multiple of 45 degrees or an irrational length
                    atoms_ = [e for e in walk(case['exprs'][op[1] - 1])]
                    known = all(e['k'] not in ('line', 'angle', 'div') for e in atoms_)
                    unknown = not {p for e in atoms_ if e['k'] in ('line', 'angle') for p in (e['p'], e['q'])} <= set(points)
                    if (known or unknown) and o[0] == 'ok' and o[1] is not None:
                        fail('an undefined expression has the value {}'.format(o[1]), k)
                        break
                    continue
                if o[0] != 'ok' or not vf.close(o[1], vf.rat(row['v'])):
                    fail('value {} instead of {}'.format(o[1:] if o[0] != 'ok' else o[1], vf.rat(row['v'])), k)
                    break
                deps = expression.dependencies
                if {p.name for p in deps} != set(row['deps']) or any(p is not points[p.name] for p in deps):
                    fail('dependencies {} instead of {}'.format(deps, row['deps']), k)
                    break
        ck.traces += 1
        if ck.full:
            return
    ck.samples += [{'texts': [render(e, None, lambda n: NAMES[n], func) for e in case['exprs']], 'ops': case['ops']} for case in cases[:3]]
    ck.assumptions.append('Lengths are rational and angles multiples of 45 degrees; the functions of the splines are not implemented by the calculator.')


def walk(e):
    yield e
    for k in 'ab':
        if k in e:
            yield from walk(e[k])
