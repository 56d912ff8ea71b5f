"""Bezier curves"""
import itertools
import math

import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    def dist(a, b):
        return math.hypot(a[0] - b[0], a[1] - b[1])

    def polygon_length(points):
        points = [xy(p) for p in points]
        return sum(dist(a, b) for a, b in zip(points, points[1:]))

    def bounds(pieces):
        """Lower bound, upper bound and estimate of the length"""
        lower = sum(dist(xy(p[0]), xy(p[-1])) for p in pieces)
        upper = sum(polygon_length(p) for p in pieces)
        n = len(pieces[0]) - 1
        return lower, upper, (2 * lower + (n - 1) * upper) / (n + 1)

    def check(case, row):
        points = case['p']
        n = len(points)
        cls = QuadraticBezier2D if n == 3 else CubicBezier2D
        curve = cls(*(V(p) for p in points))
        t, u = rat(case['t']), rat(case['u'])
        bad = []
        flat = [xy(p) for p in points]
        size = max(1, max(abs(c) for p in flat for c in p))

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))

        def shapes():
            expect('point_at_t', same(curve.point_at_t(t), row['at']), text(curve.point_at_t(t)))
            expect('ends', same(curve.point_at_t(0), points[0]) and same(curve.point_at_t(1), points[-1]) and
                   same(curve.start_point, points[0]) and same(curve.end_point, points[-1]))
            left, right = curve.split_at_t(t)
            expect('split_at_t left', type(left) is cls and same_points(left.points, row['left']), left)
            expect('split_at_t right', type(right) is cls and same_points(right.points, row['right']), right)
            for a, b in ((t, u), (u, t)):
                x = curve.split_at_two_t(a, b)
                expect('split_at_two_t', type(x) is cls and same_points(x.points, row['between']), x)
            x = curve.split_at_two_t(0, t)
            expect('split_at_two_t(0, t)', same_points(x.points, row['left']), x)
            x = curve.split_at_two_t(t, 1)
            expect('split_at_two_t(t, 1)', same_points(x.points, row['right']), x)
            expect('split_at_two_t(t, t)', same(curve.split_at_two_t(t, t), row['at']))
            tangent = curve.tangent_at(t)
            x, y = xy(row['tangent'])
            expect('tangent_at', vf.close(tangent.cross(Vector2D(x, y)), 0, 1e-7 * size) and
                   (tangent.dot(Vector2D(x, y)) > 0 or (abs(x) + abs(y) < 1e-9 and tangent.magnitude < 1e-7)), text(tangent))
            for i, j, name in ((0, 1, '0'), (n - 2, n - 1, '1')):
                d = Vector2D(flat[j][0] - flat[i][0], flat[j][1] - flat[i][1])
                if d and hasattr(curve, 'tangent' + name):
                    v = getattr(curve, 'tangent' + name)
                    expect('tangent' + name, vf.close(v.magnitude, 1) and vf.close(v.cross(d), 0) and v.dot(d) > 0, text(v))
                    if hasattr(curve, 'normal' + name):
                        w = getattr(curve, 'normal' + name)
                        expect('normal' + name, vf.close(w.dot(v), 0) and vf.close(v.cross(w), 1), text(w))
            r = curve.reverse()
            expect('reverse', type(r) is cls and same_points(r.points, points[::-1]) and same(r.point_at_t(1 - t), row['at']), r)
            if n == 3:
                x = curve.to_cubic()
                expect('to_cubic', type(x) is CubicBezier2D and same_points(x.points, row['elevated']), x)
            else:
                expect('area', vf.close(curve.area, rat(row['area']), 1e-8 * size), curve.area)
                q = curve.mid_point_quadratic_approximation()
                expect('mid_point_quadratic_approximation', type(q) is QuadraticBezier2D and same(q.p0, points[0]) and
                       same(q.p2, points[-1]) and same(q.point_at_t(.5), row['middle']), q)
                for flatness in (.1, 1., 4.):
                    if curve.is_flat_enough(flatness):
                        # the curve stays near its chord
                        a, b = flat[0], flat[-1]
                        for k, p in enumerate(row['points']):
                            x, y = xy(p)
                            s = k / 16
                            expect('is_flat_enough({})'.format(flatness), min(dist((x, y), (a[0] + m * (b[0] - a[0]), a[1] + m * (b[1] - a[1])))
                                   for m in [i / 200 for i in range(201)]) <= flatness + 1e-2 * size, s)
                if all(dist(flat[i], [flat[0][k] + (flat[3][k] - flat[0][k]) * i / 3 for k in (0, 1)]) < 1e-12 for i in (1, 2)):
                    expect('is_flat_enough', curve.is_flat_enough(1e-6), 'segment')

        def lengths():
            lower, upper, estimate = bounds(row['pieces'])
            length = curve.length
            # the quadrature is less accurate for a curve which turns back
            hodograph = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(flat, flat[1:])]
            weights = [[(1 - k / 32) ** (n - 2 - j) * (k / 32) ** j * (2 if (n, j) == (4, 1) else 1) for j in range(n - 1)] for k in range(33)]
            slowest = min(math.hypot(*(sum(w * d[axis] for w, d in zip(ws, hodograph)) for axis in (0, 1))) for ws in weights)
            slack = (2e-3 if slowest > .1 * upper / (n - 1) else 1e-2) * max(length, 1)
            expect('length', lower - slack <= length <= upper + slack and abs(length - estimate) <= .02 * upper + slack,
                   '{} in [{}, {}]'.format(length, lower, upper))
            if n == 3:
                expect('length', lower - 1e-6 * size <= length <= upper + 1e-6 * size, '{} in [{}, {}]'.format(length, lower, upper))
            left, right = curve.split_at_t(t)
            a, b = left.length, right.length
            expect('length of the parts', abs(a + b - length) <= slack, (a, b, length))
            got = curve.length_at_t(t)
            expect('length_at_t', vf.close(got, a, 1e-7) and vf.close(curve.length_at_t(t, cache=True), a, 1e-7) and
                   vf.close(curve.length_at_t(t, cache=True), a, 1e-7), (got, a))
            # the length of an inscribed polygon
            chord, last = dist(flat[0], flat[-1]), 0
            for dt in (1, .5, .25, .0625, 1 / 64):
                got = curve.interpolated_length(dt)
                expect('interpolated_length({})'.format(dt), last - 1e-9 * size <= got <= upper + 1e-9 * size, (got, last, upper))
                expect('interpolated_length(1)', dt < 1 or vf.close(got, chord), got)
                last = got
            expect('interpolated_length', abs(last - estimate) <= .02 * upper + slack, (last, estimate))
            if 0 < chord < 4:
                got = curve.interpolated_length()
                expect('interpolated_length', abs(got - estimate) <= .02 * upper + slack + .2, (got, estimate))
            expect('length_at_t(0)', curve.length_at_t(0) == 0)
            expect('reversed length', abs(curve.reverse().length - length) <= slack)
            if n == 3 and length > 1e-3:
                s = curve.t_at_length(a)
                expect('t_at_length', 0 <= s <= 1 and abs(curve.length_at_t(s) - a) <= 1e-5, (s, t))
                expect('t_at_length ends', curve.t_at_length(0) == 0 and curve.t_at_length(length) == 1)
                expect('t_at_length out', vf.outcome(curve.t_at_length, length + 1)[0] == 'err' and
                       vf.outcome(curve.t_at_length, -1)[0] == 'err')

        def line():
            l = Line2D(V(case['line'][0]), V(case['line'][1]))
            signs = row['sides']
            roots = curve.intersect_line(l)
            if roots is None:
                roots = []
            elif not isinstance(roots, (list, tuple)):
                roots = [roots]
            real = []
            for x in roots:
                x = complex(x)
                if abs(x.imag) < 1e-9:
                    real.append(x.real)
            if any(signs):
                # a root of the curve is on the line
                for x in real:
                    if 0 <= x <= 1:
                        d = l.distance_to_line(curve.point_at_t(x))
                        expect('intersect_line: not on the line', abs(d) < 1e-4 * size, (x, d))
                # the line is crossed between two points of opposite sides
                for k in range(16):
                    if signs[k] * signs[k + 1] < 0:
                        expect('intersect_line: missed', any(k / 16 - 1e-6 <= x <= (k + 1) / 16 + 1e-6 for x in real), (k / 16, roots))
                for k in range(1, 16):
                    if signs[k] == 0 and signs[k - 1] * signs[k + 1] < 0:
                        expect('intersect_line: missed', any(abs(k / 16 - x) <= 1e-3 for x in real), (k / 16, roots))
                if len(real) == n - 1:
                    inside = sum(0 <= x <= 1 for x in real)
                else:
                    inside = None
            d = curve.non_parametric_curve(l)
            expect('non_parametric_curve', type(d) is cls and all(
                vf.close(p.x, k / (n - 1)) and vf.close(p.y, l.distance_to_line(V(q)))
                for k, (p, q) in enumerate(zip(d.points, points))), d)
            if dist(flat[0], flat[-1]) > 1e-9:
                base, d_min, d_max = curve.fat_line()
                expect('fat_line', vf.close(base.distance_to_line(V(points[0])), 0, 1e-7) and
                       vf.close(base.distance_to_line(V(points[-1])), 0, 1e-7) and d_min <= 0 <= d_max, base)
                control = [base.distance_to_line(V(p)) for p in points]
                expect('fat_line too large', d_min >= min(control) - 1e-9 and d_max <= max(control) + 1e-9, (d_min, d_max, control))
                for p in row['points']:
                    x = base.distance_to_line(V(p))
                    expect('fat_line', d_min - 1e-7 <= x <= d_max + 1e-7, (x, d_min, d_max))

        def closest():
            q = V(case['line'][0])
            p = curve.closest_point(q)
            d = curve.distance_to_point(q)
            expect('distance_to_point', vf.close(d, (p - q).magnitude), d)
            for k, x in enumerate(row['points']):
                expect('closest_point', d <= dist(xy(x), tuple(q)) + 1e-6 * size, (d, k / 16))
            # the point is on the curve
            near = sorted(range(17), key=lambda k: dist(xy(row['points'][k]), tuple(p)))
            for k in near:
                best = min(dist(tuple(curve.point_at_t(min(1, max(0, (k + m / 200) / 16)))), tuple(p)) for m in range(-210, 211))
                if best <= .02 * size:
                    break
            expect('closest_point is not on the curve', best <= .02 * size, (text(p), best))

        queries = [shapes, lengths, line]
        if case['closest']:
            queries.append(closest)
        rng.shuffle(queries)
        for query in queries:
            query()
        expect('points', same_points(curve.points, points), list(curve.points))
        return bad

    cases = []

    def add(p, closest, den=1):
        t = rng.randrange(1, 8)
        u = rng.randrange(t + 1, 9)
        v = (0, 0)
        while v == (0, 0):
            v = (rng.randrange(-4, 5), rng.randrange(-4, 5))
        q = (rng.randrange(-8, 9), rng.randrange(-8, 9))
        if rng.random() < .3:
            q = rng.choice(p)
        cases.append({'p': [rv((x, den), (y, den)) for x, y in p], 't': [t, 8], 'u': [u, 8], 'line': [rv((q[0], den), (q[1], den)), rv(*v)],
                      'closest': closest})

    grid = list(itertools.product(range(3), repeat=2))
    quadratics = list(itertools.product(grid, repeat=3))
    if not ck.thorough:
        quadratics = rng.sample(quadratics, 300)
    else:
        ck.exhaustive.append('all the quadratic curves with control points in the grid [0, 2]^2')
    for p in quadratics:
        if len(set(p)) > 1:
            add(p, True)
    for k in range(ck.pick(1000, 10000)):
        n = rng.choice((3, 4, 4))
        p = [(rng.randrange(-6, 7), rng.randrange(-6, 7)) for _ in range(n)]
        den = 1
        kind = rng.random()
        if kind < .1:
            # aligned
            v = (rng.randrange(-3, 4), rng.randrange(-3, 4))
            m = sorted(rng.sample(range(-2, 3), n)) if rng.random() < .5 else [rng.randrange(-2, 3) for _ in range(n)]
            p = [(p[0][0] + x * v[0], p[0][1] + x * v[1]) for x in m]
        elif kind < .2:
            p[rng.randrange(n)] = p[rng.randrange(n)]
        elif kind < .3 and n == 4:
            # elevated quadratic
            a, b, c = p[:3]
            p = [tuple(3 * x for x in a), tuple(x + 2 * y for x, y in zip(a, b)), tuple(x + 2 * y for x, y in zip(c, b)), tuple(3 * x for x in c)]
            den = 3
        elif kind < .35:
            # equally spaced: a segment
            a, v = p[0], p[1]
            p = [(a[0] + x * v[0], a[1] + x * v[1]) for x in range(n)]
        if len(set(p)) == 1:
            continue
        add(p, n == 3 or rng.random() < ck.pick(.25, .5), den)
    rows = ck.tlc('Bezier', init='CaseInit', invariants=('Laws',), constraint='Emit', inputs=cases, jobs=8).rows
    for row in rows:
        case = cases[row['i'] - 1]
        o = vf.outcome(check, case, row)
        bad = o[1] if o[0] == 'ok' else [str(o[1:])]
        ck.traces += 1
        ck.note('degree {}'.format(len(case['p']) - 1))
        ck.note('closest', case['closest'])
        if bad:
            ck.violation('{} t={} u={} line={}: {}'.format([xy(p) for p in case['p']], rat(case['t']), rat(case['u']),
                                                          [xy(p) for p in case['line']], '; '.join(bad[:4])), case)
            if ck.full:
                return
    ck.samples.append(cases[-1])
