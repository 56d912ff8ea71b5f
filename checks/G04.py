"""Contract of the primitives defined by points"""
import math

import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    import numpy as np
    from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
    from Patro.GeometryEngine.Polygon import Polygon2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Spline import BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    ################################################################################################

    T = (0., .3, .5, 1.)
    P = Vector2D(.7, -1.3)

    def edges(x):
        return [tuple(e.points) for e in x.edges]

    def at(x):
        return [x.point_at_t(t) for t in T]

    # name -> (number of points or None, constructor, closed, derived values)
    CLASSES = {
        'Segment2D': (2, lambda p: Segment2D(*p), False, {
            'length': lambda x: x.length, 'center': lambda x: x.center, 'vector': lambda x: x.vector,
            'point_at_t': at, 'distance': lambda x: x.distance_to_point(P), 'cross_product': lambda x: x.cross_product}),
        'Rectangle2D': (2, lambda p: Rectangle2D(*p), True, {
            'area': lambda x: x.area, 'perimeter': lambda x: x.perimeter, 'edges': edges, 'diagonal': lambda x: x.diagonal,
            'inside': lambda x: x.is_point_inside(P), 'polygon': lambda x: list(x.to_polygon().points)}),
        'Triangle2D': (3, lambda p: Triangle2D(*p), True, {
            'area': lambda x: x.area, 'perimeter': lambda x: x.perimeter, 'edges': edges,
            'bisector': lambda x: [x.bisector_vector0, x.bisector_vector1, x.bisector_vector2],
            'kind': lambda x: [x.is_equilateral, x.is_scalene, x.is_isosceles], 'inside': lambda x: x.is_point_inside(P)}),
        'Polygon2D': (None, lambda p: Polygon2D(*p), True, {
            'simple': lambda x: x.is_simple, 'convex': lambda x: x.is_convex, 'area': lambda x: x.area,
            'clockwise': lambda x: x.is_simple and x.is_clockwise, 'perimeter': lambda x: x.perimeter, 'edges': edges,
            'barycenter': lambda x: x.is_simple and x.barycenter, 'point_barycenter': lambda x: x.point_barycenter,
            'axis': lambda x: x.is_simple and [x.major_axis, x.minor_axis, x.major_axis_angle, x.axis_ratio],
            'inside': lambda x: x.is_point_inside(P)}),
        'Polyline2D': (None, lambda p: Polyline2D(*p), False, {
            'length': lambda x: x.length, 'edges': edges, 'distance': lambda x: x.distance_to_point(P)}),
        'QuadraticBezier2D': (3, lambda p: QuadraticBezier2D(*p), False, {
            'length': lambda x: x.length, 'point_at_t': at, 'tangents': lambda x: [x.tangent0, x.tangent1, x.normal0, x.normal1],
            'length_at_t': lambda x: [x.length_at_t(t, cache=True) for t in T],
            'middle': lambda x: x.t_at_length(x.length / 2), 'to_cubic': lambda x: list(x.to_cubic().points)}),
        'CubicBezier2D': (4, lambda p: CubicBezier2D(*p), False, {
            'length': lambda x: x.length, 'point_at_t': at, 'tangents': lambda x: [x.tangent_at(t) for t in T],
            'length_at_t': lambda x: [x.length_at_t(t, cache=True) for t in T],
            'area': lambda x: x.area, 'to_spline': lambda x: list(x.to_spline().points)}),
        'QuadraticUniformSpline2D': (3, lambda p: QuadraticUniformSpline2D(*p), False, {
            'point_at_t': at, 'to_bezier': lambda x: list(x.to_bezier().points)}),
        'CubicUniformSpline2D': (4, lambda p: CubicUniformSpline2D(*p), False, {
            'point_at_t': at, 'to_bezier': lambda x: list(x.to_bezier().points)}),
        'BSpline2D': (None, lambda p: BSpline2D(p, 2), False, {
            'point_at_t': lambda x: [x.point_at_t(t * x.end_knot) for t in T],
            'to_bezier': lambda x: [list(b.points) for b in x.to_bezier()], 'knots': lambda x: list(x.knots)}),
    }

    # decided by the sign of a rounded value, compared when the coordinates are exact
    PREDICATES = ('kind', 'simple', 'convex', 'clockwise', 'inside', 'area', 'barycenter', 'axis')

    def near(a, b):
        if isinstance(a, Vector2D) and isinstance(b, Vector2D):
            return all(vf.close(u, v, 1e-7) for u, v in zip(a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(near(u, v) for u, v in zip(a, b))
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or a is None or b is None:
            return a is b or (a is not None and b is not None and bool(a) == bool(b))
        return vf.close(a, b, 1e-6)

    def derived(x, name):
        values = {}
        for key, f in CLASSES[name][3].items():
            o = vf.outcome(f, x)
            values[key] = o[1] if o[0] == 'ok' else o
        return values

    cache = {}

    def reference(name, points):
        """Values of a fresh primitive"""
        key = (name, vf.freeze(points))
        if key not in cache:
            if len(cache) > 20000:
                cache.clear()
            o = vf.outcome(CLASSES[name][1], [V(p) for p in points])
            cache[key] = derived(o[1], name) if o[0] == 'ok' else None
        return cache[key]

    # the values which are expensive are compared from time to time
    def project(x, name, points, deep):
        bad = []
        n = len(points)
        cls, closed = name, CLASSES[name][2]

        def expect(what, good, got=None):
            if not good:
                bad.append('{} {}'.format(what, got))
        expect('class', type(x).__name__ == name, type(x))
        got = list(x.points)
        expect('points', same_points(got, points), [text(p) for p in got])
        if bad:
            return bad
        # did the rotations keep the exact coordinates
        exact = all(float(c) == d for p, q in zip(got, points) for c, d in zip(p, xy(q)))
        expect('number_of_points', len(x) == n and x.number_of_points == n, len(x))
        expect('ends', same(x.start_point, points[0]) and same(x.end_point, points[-1]))
        expect('reversed_points', same_points(x.reversed_points, points[::-1]), [text(p) for p in x.reversed_points])
        array = x.point_array
        expect('point_array', np.shape(array) == (2, n) and all(same(array[:, i], points[i]) for i in range(n)), array)
        box = x.bounding_box
        inf, sup = ([min(xy(p)[k] for p in points) for k in (0, 1)], [max(xy(p)[k] for p in points) for k in (0, 1)])
        expect('bounding_box', all(vf.close(a, b) for a, b in zip((box.x.inf, box.y.inf, box.x.sup, box.y.sup), inf + sup)), box)
        expect('kind', x.is_reversible and x.dimension == 2 and bool(x.is_closed) == closed and not x.is_infinite)
        if name == 'Polygon2D' or name == 'Triangle2D':
            expect('closed_points', same_points(x.closed_points, points + points[:1]))
            expect('closed_pairwise_points', [tuple(map(text, p)) for p in x.closed_pairwise_points] ==
                   [(text(got[i]), text(got[(i + 1) % n])) for i in range(n)])
            array = x.closed_point_array
            expect('closed_point_array', np.shape(array) == (2, n + 1) and
                   all(same(array[:, i], points[i % n]) for i in range(n + 1)), array)
        if hasattr(x, 'iter_from_second_point') and name != 'Rectangle2D':
            expect('iter_from_second_point', same_points(x.iter_from_second_point(), points[1:]))
        fresh = vf.outcome(CLASSES[name][1], [V(p) for p in points])
        if fresh[0] == 'ok':
            if exact:
                expect('==', x == fresh[1] and not x != fresh[1])
            expect('is_point_close', x.is_point_close(fresh[1]))
            moved = vf.outcome(CLASSES[name][1], [V(p) + Vector2D(0, 1) for p in points])
            if moved[0] == 'ok':
                expect('!=', not (x == moved[1]) and not x.is_point_close(moved[1]))
        if n != len(set(vf.freeze(p) for p in points)):
            return bad
        if deep:
            values = reference(name, points)
            if values is not None:
                for key, value in derived(x, name).items():
                    if key in PREDICATES and not exact:
                        continue
                    expect(key, near(value, values[key]), (value, 'expected', values[key]))
        return bad

    def angle(k):
        return 90 * k + rng.choice((0, 0, 360, -360))

    def apply(x, op, clone):
        name = op[0]
        if not clone and rng.random() < .5: # by default, in place
            if name in ('mirror', 'x_mirror', 'y_mirror'):
                return getattr(x, name)()
            if name == 'rotate':
                return x.rotate(angle(op[1]))
            if name == 'scale':
                return x.scale(rat(op[1][0]), rat(op[1][1]))
            if name == 'translate':
                return x.transform(AffineTransformation2D.Translation(V(op[1])))
        if name == 'rotate':
            if rng.random() < .3:
                return x.transform(Transformation2D.Rotation(angle(op[1])), clone=clone)
            return x.rotate(angle(op[1]), clone=clone)
        if name == 'scale':
            k, l = rat(op[1][0]), rat(op[1][1])
            if k == l and rng.random() < .5:
                return x.scale(k, clone=clone)
            return x.scale(k, l, clone=clone)
        if name == 'translate':
            return x.transform(AffineTransformation2D.Translation(V(op[1])), clone=clone)
        if name == 'identity':
            return x.transform(rng.choice((Transformation2D.Identity(), AffineTransformation2D.Identity())), clone=clone)
        return getattr(x, name)(clone=clone)

    def execute(x, y, a):
        """Return the new registers and what is wrong with the result"""
        name = a[0]
        if name == 'inplace':
            r = apply(x, a[1], False)
            return x, y, [] if r is x or r is None else ['an in place transformation returned another object']
        if name == 'cloned':
            r = apply(x, a[1], True)
            return x, r, [] if r is not x else ['a transformation of a clone returned the object']
        if name == 'clone':
            r = x.clone()
            return x, r, [] if r is not x else ['clone returned the object']
        if name == 'reverse':
            r = x.reverse()
            return x, r, [] if r is not x else ['reverse returned the object']
        if name == 'set':
            v = V(a[2])
            setattr(x, 'p{}'.format(a[1] - 1), v)
            # the primitive has its own point
            v += Vector2D(5, 7)
            return x, y, []
        if name == 'swap':
            return y, x, []

    def replay(name, points, steps, row):
        vectors = [V(p) for p in points]
        o = vf.outcome(CLASSES[name][1], vectors)
        if o[0] == 'err':
            ck.violation('{} {} cannot be made: {}'.format(name, [xy(p) for p in points], o), row)
            return
        x = y = o[1]
        # the primitive has its own points
        for v in vectors:
            v *= 3
            v += Vector2D(1, 1)
        y = x.clone()
        if rng.random() < .5:
            # fill the caches
            derived(x, name), derived(y, name)
        for k, (a, (p, q)) in enumerate(steps):
            if name == 'Triangle2D' and a[0] in ('clone', 'cloned', 'reverse', 'inplace', 'set'):
                if flat(p) or flat(q):
                    return
            o = vf.outcome(execute, x, y, a)
            if o[0] == 'err':
                ck.violation('{} {} after {}: {}'.format(name, [xy(p) for p in points], [b for b, _ in steps[:k + 1]], o[1:]), row)
                return
            x, y, bad = o[1]
            deep = k == len(steps) - 1 or rng.random() < .2
            for z, expected, register in ((x, p, 'x'), (y, q, 'y')):
                if not bad:
                    bad = ['{}: {}'.format(register, b) for b in project(z, name, expected, deep)]
            if x is y:
                bad.append('shared')
            if bad:
                ck.violation('{} {} after {}: {}'.format(name, [xy(p) for p in points], [b for b, _ in steps[:k + 1]], '; '.join(bad)), row)
                return

    def flat(p):
        (a, b), (c, d), (e, f) = (xy(x) for x in p)
        return abs((c - a) * (f - b) - (d - b) * (e - a)) < 1e-9

    ################################################################################################

    def of(n):
        """Classes for a number of points, and are their points settable"""
        for name, (m, *_) in CLASSES.items():
            if m == n or (m is None and n >= 3) or (name == 'Polyline2D' and n == 2):
                yield name, m is not None

    # 1. all the behaviours up to a bound
    for start, n in ((1, 2), (2, 3), (3, 4), (4, 5)):
        for fixed in (True, False):
            names = [name for name, settable in of(n) if settable == fixed]
            if not names:
                continue
            res = ck.tlc('Primitive', {'Start': start, 'Limit': 6, 'MaxSteps': ck.pick(2, 3), 'Fixed': fixed}, invariants=('Laws',),
                         constraint='Bounded', action_constraint='EmitStep', view='View', inputs=[])
            graph = vf.Graph(res.rows)
            ck.exhaustive.append('the transitions of {} ({} points) up to {} operations'.format(', '.join(names), n, ck.pick(2, 3)))
            for s, steps in graph.behaviours(rng, walks=ck.pick(20, 200), length=3, max_transitions=ck.pick(400, 4000)):
                for name in names:
                    replay(name, s[0], steps, {'class': name, 'points': s[0], 'steps': steps})
                    ck.traces += 1
                    ck.note(name)
                if ck.full:
                    return

    # 2. random programs
    programs = []
    for _ in range(ck.pick(250, 4000)):
        n = rng.choice((2, 3, 3, 4, 4, 5, 6, 7))
        names = list(of(n))
        fixed = n <= 4 and rng.random() < .7
        names = [name for name, settable in names if settable == fixed]
        if not names:
            continue
        den = rng.choice((1, 1, 2))
        points = []
        while len(points) < n:
            p = rv((rng.randrange(-5, 6), den), (rng.randrange(-5, 6), den))
            if p not in points:
                points.append(p)
        name = rng.choice(names)
        if name == 'Triangle2D' and flat(points):
            continue
        ops = []
        scale = 0
        for _ in range(rng.randrange(4, 14)):
            p = rng.random()
            if p < .65:
                kind = rng.choice(('rotate', 'rotate', 'mirror', 'x_mirror', 'y_mirror', 'scale', 'translate', 'translate', 'identity'))
                if kind == 'rotate':
                    op = [kind, rng.randrange(1, 4)]
                elif kind == 'scale':
                    if scale > 2:
                        continue
                    scale += 1
                    op = [kind, rng.choice(([[2, 1], [2, 1]], [[1, 1], [1, 2]], [[3, 1], [3, 1]], [[-1, 1], [2, 1]], [[-1, 2], [-1, 2]]))]
                elif kind == 'translate':
                    op = [kind, rv((rng.randrange(-5, 6), 2), rng.randrange(-5, 6))]
                else:
                    op = [kind]
                ops.append([rng.choice(('inplace', 'inplace', 'cloned')), op])
            elif p < .9 or not fixed:
                ops.append([rng.choice(('clone', 'reverse', 'swap', 'swap'))])
            else:
                ops.append(['set', rng.randrange(1, n + 1), rv(rng.randrange(-5, 6), rng.randrange(-5, 6))])
        programs.append({'name': name, 'points': points, 'ops': ops})
    res = ck.tlc('Primitive', {'Start': 1, 'Limit': 6, 'MaxSteps': 3, 'Fixed': False}, init='PInit', next='PNext', invariants=('Laws',),
                 constraint='EmitProgram', inputs=programs)
    states = {}
    for row in res.rows:
        states[row['prog'], row['step']] = (row['x'], row['y'])
    for i, program in enumerate(programs, 1):
        steps = [(a, states[i, k]) for k, a in enumerate(program['ops'], 1)]
        replay(program['name'], program['points'], steps, program)
        ck.traces += 1
        ck.note('programs')
        if ck.full:
            return
    ck.samples.append(programs[0])
