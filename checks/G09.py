"""Splines"""
import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Spline import BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    def plain(case, row):
        points = case['p']
        d = case['degree']
        cls, bezier = ((QuadraticUniformSpline2D, QuadraticBezier2D), (CubicUniformSpline2D, CubicBezier2D))[d - 2]
        s = cls(*(V(p) for p in points))
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        t = rat(case['t'])
        expect('point_at_t', same(s.point_at_t(t), row['at']), text(s.point_at_t(t)))
        expect('point_at_t ends', same(s.point_at_t(0), row['start']) and same(s.point_at_t(1), row['end']))
        b = s.to_bezier()
        expect('to_bezier', type(b) is bezier and same_points(b.points, row['bezier']), b)
        if d == 3:
            x = b.to_spline()
            expect('to_spline', type(x) is cls and same_points(x.points, points), x)
            x = bezier(*(V(p) for p in points))
            y = x.to_spline()
            expect('to_spline', type(y) is cls and same(y.point_at_t(t), [(int(round(c * 2**30)), 2**30) for c in x.point_at_t(t)], 1e-7), y)
        expect('reverse', same(s.reverse().point_at_t(1 - t), row['at']))
        expect('points', same_points(s.points, points))
        return bad

    def bspline(case, row):
        points = case['p']
        d = case['degree']
        knots = [rat(k) for k in row['knots']]
        n = len(points)
        uniform = not case['knots']
        vectors = [V(p) for p in points]
        s = BSpline2D(vectors, d) if uniform else BSpline2D(vectors, d, knots=list(knots))
        if not uniform and rng.random() < .3:
            s = BSpline2D(tuple(vectors), d, False, knots)
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))

        def same_knots(x, expected):
            return len(x) == len(expected) and all(vf.close(a, rat(b)) for a, b in zip(x, expected))
        expect('degree', s.degree == d and s.order == d + 1 and s.number_of_points == n and not s.is_closed and s.uniform == uniform)
        expect('knots', same_knots(s.knots, row['knots']), s.knots)
        expect('knot range', vf.close(s.start_knot, knots[0]) and vf.close(s.end_knot, knots[-1]), (s.start_knot, s.end_knot))
        if uniform:
            expect('number_of_spans', s.number_of_spans == n - d, s.number_of_spans)
            expect('uniform_knots', same_knots(BSpline2D.uniform_knots(d, n), row['knots']))
            expect('check_for_unifom_knots', BSpline2D.check_for_unifom_knots(d, n, knots))
        t, u = rat(case['t']), rat(case['u'])
        for naive in (False, True):
            p = s.point_at_t(t, naive=naive) if rng.random() < .8 or naive else s.point_at_t(t)
            expect('point_at_t naive={}'.format(naive), same(p, row['at']), text(p))
        expect('point_at_t ends', same(s.point_at_t(s.start_knot), row['start']) and same(s.point_at_t(s.end_knot), row['end']),
               (text(s.point_at_t(s.start_knot)), text(s.point_at_t(s.end_knot))))
        expect('basis_function', all(vf.close(s.basis_function(k, d, t), rat(b)) for k, b in enumerate(row['basis'])))
        # the last span is closed
        for x in (t, knots[-1]):
            l = s.span(x)
            expect('span', knots[l] <= x < knots[l + 1] or knots[l] < x == knots[l + 1] == knots[-1], l)
        expect('knot_multiplicity', s.knot_multiplicity(u) == row['mult'] and s.knot_multiplicity(knots[0]) == d + 1 and
               s.knot_multiplicity(knots[0] - 1) == 0, s.knot_multiplicity(u))
        for x in (knots[0] - .5, knots[-1] + .5):
            expect('out of range', vf.outcome(s.span, x)[0] == 'err')
        x = s.insert_knot(u)
        expect('insert_knot', same_points(x.points, row['inserted']), [text(p) for p in x.points])
        expect('insert_knot knots', same_knots(x.knots, row['newknots']), x.knots)
        expect('insert_knot shape', same(x.point_at_t(t), row['at']) and x.degree == d, text(x.point_at_t(t)))
        expect('insert_knot at the knot', same(x.point_at_t(u), row['uat']), text(x.point_at_t(u)))
        if case['t'] != case['u'] and t < knots[-1]:
            y = x.insert_knot(t)
            expect('two insert_knot', same(y.point_at_t(t), row['at']) and same(y.point_at_t(u), row['uat']))
        y = x.clone()
        expect('clone of a refined spline', same_knots(y.knots, row['newknots']) and same(y.point_at_t(t), row['at']))
        for y in (s.clone(), s.reverse().reverse()):
            expect('clone', same_points(y.points, points) and same_knots(y.knots, row['knots']) and same(y.point_at_t(t), row['at']))
        if row['mult'] == 0:
            expect('reverse', same(s.reverse().point_at_t(knots[0] + knots[-1] - u), row['uat']),
                   text(s.reverse().point_at_t(knots[0] + knots[-1] - u)))
        if uniform and d in (2, 3):
            bezier = s.to_bezier()
            cls = (QuadraticBezier2D, CubicBezier2D)[d - 2]
            expect('to_bezier', len(bezier) == len(row['bezier']) and all(
                type(b) is cls and same_points(b.points, e) for b, e in zip(bezier, row['bezier'])), bezier)
        if uniform:
            form = s.to_bezier_form()
            expect('to_bezier_form', same(form.point_at_t(t), row['at']) and same(form.point_at_t(u), row['uat']), form)
        # the spline is left unchanged
        expect('spline', same_points(s.points, points) and same_knots(s.knots, row['knots']) and all(
            same(a, b) for a, b in zip(vectors, points)))
        expect('invalid', vf.outcome(BSpline2D, vectors, n)[0] == 'err' and
               vf.outcome(BSpline2D, vectors, d, knots=list(reversed(knots)))[0] == 'err')
        return bad

    cases = []
    for _ in range(ck.pick(900, 9000)):
        kind = rng.choice(('plain', 'bspline', 'bspline', 'bspline'))
        d = rng.choice((2, 3)) if kind == 'plain' else rng.choice((1, 2, 2, 3, 3, 4))
        n = d + 1 if kind == 'plain' else rng.randrange(d + 1, d + (6 if d < 4 else 4))
        p = [rv(rng.randrange(-4, 5), rng.randrange(-4, 5)) for _ in range(n)]
        knots = []
        if kind == 'plain':
            t, u = [rng.randrange(0, 8), 8], [1, 2]
            sup = 1
        elif rng.random() < .6:
            sup = n - d
            m = 6 if d < 3 else 4 if d == 3 else 2
            t = [rng.randrange(0, sup * m), m]
            m = 3 if d < 3 else 2
            u = [rng.randrange(1, sup * m), m]
        else:
            # clamped, not uniform
            inner = sorted(rng.choice((1, 2, 3, 4)) for _ in range(n - d - 1))
            if any(inner.count(k) > d for k in inner):
                continue
            sup = rng.choice((4, 5, 6)) if d < 3 else 4
            if d > 3 or sup in inner:
                continue
            knots = [[k, 1] for k in [0] * (d + 1) + inner + [sup] * (d + 1)]
            t = [rng.randrange(0, sup * 2), 2]
            u = [rng.randrange(1, sup * 2), 2]
            shift = rng.choice((0, 0, -3, 2, 5))
        if kind == 'bspline':
            values = [k[0] for k in knots] if knots else list(range(1, n - d))
            if u[0] % u[1] == 0 and values.count(u[0] // u[1]) >= d:
                continue
        g = {}
        from math import gcd
        t = [x // gcd(*t) for x in t]
        u = [x // gcd(*u) for x in u]
        if knots:
            # the knots start anywhere
            knots, t, u = [[k[0] + shift, 1] for k in knots], [t[0] + shift * t[1], t[1]], [u[0] + shift * u[1], u[1]]
        cases.append({'kind': kind, 'p': p, 'degree': d, 't': t, 'u': u, 'knots': knots})
    rows = ck.tlc('Splines', init='CaseInit', invariants=('Laws',), constraint='Emit', inputs=cases, jobs=8).rows
    for row in rows:
        case = cases[row['i'] - 1]
        o = vf.outcome(plain if case['kind'] == 'plain' else bspline, case, row)
        bad = o[1] if o[0] == 'ok' else [str(o[1:])]
        ck.traces += 1
        ck.note('{} degree {}'.format(case['kind'], case['degree']))
        if bad:
            ck.violation('{} degree {} {} knots {} t={} u={}: {}'.format(
                case['kind'], case['degree'], [xy(p) for p in case['p']], [rat(k) for k in case['knots']], rat(case['t']), rat(case['u']),
                '; '.join(bad[:4])), case)
            if ck.full:
                return
    ck.samples.append(cases[-1])
