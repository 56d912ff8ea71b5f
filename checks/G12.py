"""Arrow heads"""
from fractions import Fraction
import itertools
import math

import vf
from geo import rat, rv, same, same_points, text, xy


def main(ck):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead
    from Patro.GeometryEngine.Vector import Vector2D
    rng = ck.rng

    units = [((x, 1), (y, 1)) for x, y in ((1, 0), (0, 1), (-1, 0), (0, -1))] + [
        ((sx * a, d), (sy * b, d)) for a, b, d in ((3, 4, 5), (4, 3, 5), (5, 12, 13)) for sx in (1, -1) for sy in (1, -1)]
    sides = list(itertools.product((True, False), repeat=2))

    def case(u, length, width, offset, depth, side, p):
        length, width, offset, depth = [[f.numerator, f.denominator] for f in (Fraction(*q) for q in (length, width, offset, depth))]
        return {'p': rv(*p), 'u': rv(*u), 'length': length, 'width': width, 'offset': offset, 'depth': depth,
                'left': side[0], 'right': side[1]}
    cases = []
    for u in units[:8]:
        for length, width, offset, depth in itertools.product(((2, 1), (3, 1)), ((1, 1), (1, 2)), ((0, 1), (1, 2), (-1, 2)), ((0, 1), (1, 4))):
            for side in sides:
                cases.append(case(u, length, width, offset, depth, side, (rng.randrange(-3, 4), rng.randrange(-3, 4))))
    ck.exhaustive.append('heads in eight directions, of two lengths and widths, three offsets, two depths, with any sides')
    for _ in range(ck.pick(500, 6000)):
        q = lambda a, b: (rng.randrange(a, b), rng.choice((1, 2)))
        cases.append(case(rng.choice(units), q(1, 8), q(1, 6), rng.choice(((0, 1), q(-4, 5))), rng.choice(((0, 1), (1, 2), (-1, 4), (1, 1))),
                          rng.choice(sides), (q(-5, 6), q(-5, 6))))
    res = ck.tlc('Arrow', inputs=cases, invariants=('Laws', 'Emit'), jobs=8)

    def make(c, curvy):
        k = rng.choice((1, .5, 3, 10))
        x, y = xy(c['u'])
        point, direction = Vector2D(*xy(c['p'])), Vector2D(k * x, k * y)
        args = [rat(c['length']), rat(c['width'])] + ([rat(c['depth'])] if curvy else [])
        kwargs = {}
        if rat(c['offset']) or rng.random() < .5:
            kwargs['axial_offset'] = rat(c['offset'])
        for name in ('left', 'right'):
            if not c[name] or rng.random() < .5:
                kwargs[name + '_side'] = c[name]
        head = (TriangularCurvyHead if curvy else TriangularHead)(point, direction, *args, **kwargs)
        return head, point, direction, Vector2D(k * x, k * y)

    def check(row, c, curvy):
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        head, point, direction, saved = make(c, curvy)
        expect('arguments', (direction - saved).magnitude == 0 and same(point, c['p']))

        def points():
            both = c['left'] and c['right']
            expect('sides', (head.left_side, head.right_side, head.both_side, head.only_left, head.only_right) ==
                   (c['left'], c['right'], both, c['left'] and not both, c['right'] and not both))
            for name, key, has in (('left_point', 'left', c['left']), ('right_point', 'right', c['right']), ('back_tip_point', 'back', True),
                                   ('offseted_back_tip_point', 'notch', True)):
                p = getattr(head, name)
                expect(name, (p is None) == (not has) and (p is None or same(p, row[key])), p)
            if curvy:
                for name, key, has in (('left_curved_point', 'lcontrol', c['left']), ('right_curved_point', 'rcontrol', c['right'])):
                    p = getattr(head, name)
                    expect(name, (p is None) == (not has) and (p is None or same(p, row[key])), p)
                expect('depth', head.curve_depth == rat(c['depth']))
            expect('tip', same(head.tip_point, c['p']) and same(head.anchor_point, c['p']))
            expect('direction', same(head.direction, c['u']), head.direction)
            expect('numbers', (head.length, head.width, head.axial_offset, head.has_axial_offset) ==
                   (rat(c['length']), rat(c['width']), rat(c['offset']), c['offset'][0] != 0))
            expect('angle', vf.close(math.tan(math.radians(head.angle / 2)), rat(c['width']) / rat(c['length'])), head.angle)

        def contour():
            drawn = row['drawn']
            if curvy:
                drawn = [o for o in drawn if o['control'] or o['from'] != o['to']]
                parts = []
                for part in head:
                    g = part.geometry
                    P = list(g.points)
                    if len(P) == 2 and (P[0] - P[1]).magnitude < 1e-9:
                        continue
                    parts.append((type(g), P))
                expect('number of parts', len(parts) == len(drawn), parts)
                for (cls, P), o in zip(parts, drawn):
                    curve = bool(o['control'])
                    expect('part', cls is (QuadraticBezier2D if curve else Segment2D) and
                           same_points(P, [o['from']] + o['control'] + [o['to']]), (cls.__name__, [text(p) for p in P], o))
                expect('closed', head.is_closed)
            else:
                expect('corners', same_points(head.points, [o['from'] for o in drawn]), [text(p) for p in head.points])
                expect('edges', all(same_points(e.points, [o['from'], o['to']]) for e, o in zip(head.edges, drawn)))
                expect('closed', head.is_closed)
                if head.is_simple:
                    expect('area', vf.close(head.area, rat(row['area2']) / 2), head.area)
        for query in rng.sample((points, contour), 2):
            query()
        return bad

    for row in res.rows:
        c = cases[row['i'] - 1]
        for curvy in (False, True):
            ck.traces += 1
            ck.note('curved' if curvy else 'straight')
            if row['refused']:
                o = vf.outcome(make, c, curvy)
                bad = [] if o[:2] == ('err', 'ValueError') else ['a head without side gives {}'.format(o[1:])]
                ck.note('refused')
            else:
                o = vf.outcome(check, row, c, curvy)
                bad = o[1] if o[0] == 'ok' else [str(o[1:])]
            if bad:
                ck.violation('{} head {}: {}'.format('curved' if curvy else 'straight', c, '; '.join(bad[:4])), row)
                if ck.full:
                    return
    ck.samples.append(cases[-1])
