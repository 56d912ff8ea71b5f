"""Triangles, rectangles and polylines"""
import itertools
import math

import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    from Patro.GeometryEngine.Polygon import Polygon2D
    from Patro.GeometryEngine.Polyline import Polyline2D
    from Patro.GeometryEngine.Rectangle import Rectangle2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Triangle import Triangle2D, triangle_orientation
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    def check(row):
        c = row['c']
        points = c['p']
        vectors = [V(p) for p in points]
        q = V(c['q'])
        n = len(points)
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))

        def edges(x, corners, closed=True):
            got = list(x.edges)
            m = len(corners)
            expect('edges', len(got) == (m if closed else m - 1) and all(
                isinstance(e, Segment2D) and same(e.p0, corners[i]) and same(e.p1, corners[(i + 1) % m])
                for i, e in enumerate(got)), got)

        def path(x, corners, closed=True):
            p = x.to_path()
            m = len(corners)
            got = [tuple(part.geometry.points) for part in p]
            expect('to_path', p.is_closed == closed and len(got) == (m if closed else m - 1) and all(
                same(a, corners[i]) and same(b, corners[(i + 1) % m]) for i, (a, b) in enumerate(got)), got)

        if c['kind'] == 'triangle':
            expect('triangle_orientation', triangle_orientation(*vectors) == row['o'], triangle_orientation(*vectors))
            if row['flat']:
                expect('flat triangle', vf.outcome(Triangle2D, *vectors)[0] == 'err')
                return bad
            t = Triangle2D(*vectors)
            l = [math.sqrt(rat(x)) for x in row['edges']]
            queries = [
                lambda: expect('area', vf.close(t.area, rat(row['area'])), t.area),
                lambda: expect('perimeter', vf.close(t.perimeter, sum(l)), t.perimeter),
                lambda: expect('is_isosceles', bool(t.is_isosceles) == row['isosceles'], t.is_isosceles),
                lambda: expect('is_scalene', bool(t.is_scalene) == row['scalene'], t.is_scalene),
                lambda: expect('is_equilateral', not t.is_equilateral, t.is_equilateral),
                lambda: row['right'] or expect('is_obtuse', bool(t.is_obtuse) == row['obtuse'], t.is_obtuse),
                lambda: row['right'] or expect('is_acute', bool(t.is_acute) == row['acute'], t.is_acute),
                lambda: expect('is_point_inside', bool(t.is_point_inside(q)) == row['inside'], text(q)),
                lambda: edges(t, points),
                lambda: path(t, points),
                lambda: expect('is_closed', t.is_closed and len(t) == 3),
                lambda: expect('to_polygon', isinstance(t.to_polygon(), Polygon2D) and same_points(t.to_polygon().points, points)),
            ]
            # bisectors: same angle with both sides, toward the inside
            for i in range(3):
                def bisector(i=i):
                    u, v = vectors[(i + 1) % 3] - vectors[i], vectors[(i + 2) % 3] - vectors[i]
                    b = getattr(t, 'bisector_vector{}'.format(i))
                    line = getattr(t, 'bisector_line{}'.format(i))
                    expect('bisector_vector{}'.format(i), vf.close(b.dot(u) / u.magnitude, b.dot(v) / v.magnitude) and b.dot(u) > 0
                           - u.magnitude and vf.close(b.cross(u) / u.magnitude, -b.cross(v) / v.magnitude) and
                           b.dot(u / u.magnitude + v / v.magnitude) > 0, text(b))
                    expect('bisector_line{}'.format(i), same(line.p, points[i]) and vf.close(line.v.cross(b), 0), text(line.p))
                queries.append(bisector)
            rng.shuffle(queries)
            for query in queries:
                query()
            expect('points', same_points(t.points, points))
        elif c['kind'] == 'rectangle':
            r = Rectangle2D(*vectors)
            corners = row['corners']
            expect('corners', same(r.p01, corners[1]) and same(r.p10, corners[3]), (text(r.p01), text(r.p10)))
            expect('area', vf.close(r.area, rat(row['area'])), r.area)
            expect('perimeter', vf.close(r.perimeter, rat(row['perimeter'])), r.perimeter)
            expect('diagonal', same(r.diagonal, row['diagonal']), text(r.diagonal))
            expect('is_point_inside', bool(r.is_point_inside(q)) == row['inside'], text(q))
            edges(r, corners)
            path(r, corners)
            expect('closed_points', same_points(r.closed_points, corners + corners[:1]))
            expect('closed_pairwise_points', all(same(a, corners[i]) and same(b, corners[(i + 1) % 4])
                                                 for i, (a, b) in enumerate(r.closed_pairwise_points)))
            expect('to_polygon', same_points(r.to_polygon().points, corners))
            expect('is_closed', r.is_closed)
            x = Rectangle2D.from_point_and_offset(vectors[0], vectors[1])
            expect('from_point_and_offset', same_points(x.points, [points[0], row['offset']]), list(x.points))
            x = Rectangle2D.from_point_and_radius(vectors[0], vectors[1])
            expect('from_point_and_radius', same_points(x.points, row['radius']), list(x.points))
            expect('points', same_points(r.points, points))
        else:
            p = Polyline2D(*vectors)
            l = [math.sqrt(rat(x)) for x in row['edges']]
            if rng.random() < .5:
                edges(p, points, False)
            expect('length', vf.close(p.length, sum(l)), p.length)
            d = p.distance_to_point(q)
            expect('distance_to_point', d >= 0 and vf.close(d * d, rat(row['dist2'])), d)
            edges(p, points, False)
            expect('length', vf.close(p.length, sum(l)), p.length)
            b = p.bounding_box
            expect('bounding_box', all(vf.close(u, rat(v)) for u, v in zip((b.x.inf, b.y.inf, b.x.sup, b.y.sup), row['box'])), b)
            expect('is_closed', not p.is_closed and len(p) == n)
            path(p, points, False)
            expect('one point', vf.outcome(Polyline2D, vectors[0])[0] == 'err')
            if n > 2 and all(points[i] != points[i - 1] for i in range(n)):
                path(Polygon2D(*vectors), points)
            size = rng.randrange(1, n + 2)
            if size <= n:
                expect('iter_on_nuplets', [[xy(v) for v in points[i:i + size]] for i in range(n - size + 1)] ==
                       [[tuple(v) for v in window] for window in p.iter_on_nuplets(size)], size)
            else:
                expect('iter_on_nuplets', vf.outcome(lambda: list(p.iter_on_nuplets(size)))[:2] == ('err', 'ValueError'), size)
            x = p.reverse()
            expect('reverse', vf.close(x.length, sum(l)) and same_points(x.points, points[::-1]))
        expect('arguments', all(same(u, v) for u, v in zip(vectors + [q], points + [c['q']])))
        return bad

    cases = []
    grid = list(itertools.product(range(3), repeat=2))
    for p in itertools.product(grid, repeat=3):
        if not ck.thorough and rng.random() > .6:
            continue
        cases.append({'kind': 'triangle', 'p': [rv(*x) for x in p], 'q': rv((rng.randrange(7), 2), (rng.randrange(7), 3))})
    if ck.thorough:
        ck.exhaustive.append('all the triangles of the grid [0, 2]^2, flat or not')
    for p in itertools.product(grid, repeat=2):
        for q in rng.sample(grid, 3):
            cases.append({'kind': 'rectangle', 'p': [rv(*x) for x in p], 'q': rv(*q)})
    ck.exhaustive.append('all the rectangles of the grid [0, 2]^2')
    for _ in range(ck.pick(2000, 20000)):
        kind = rng.choice(('triangle', 'triangle', 'rectangle', 'polyline', 'polyline'))
        k = rng.choice((3, 4, 7))
        n = {'triangle': 3, 'rectangle': 2}.get(kind) or rng.randrange(2, 8)
        den = rng.choice((1, 1, 2))
        p = [(rng.randrange(-k, k + 1), rng.randrange(-k, k + 1)) for _ in range(n)]
        q = (rng.randrange(-k, k + 1), rng.randrange(-k, k + 1))
        if kind == 'triangle' and rng.random() < .4:
            # isosceles, right or flat
            a, b, how = p[0], p[1], rng.randrange(3)
            v = (b[0] - a[0], b[1] - a[1])
            m = rng.randrange(-3, 4)
            p[2] = ((a[0] - v[1], a[1] + v[0]) if how == 0 else (a[0] - m * v[1], a[1] + m * v[0]) if how == 1 else
                    (a[0] + m * v[0], a[1] + m * v[1]))
        if rng.random() < .3:
            i = rng.randrange(n - 1)
            s = rng.randrange(-1, 4)
            p[i], p[i + 1] = tuple(2 * x for x in p[i]), tuple(2 * x for x in p[i + 1])
            q = tuple(a + s * (b - a) // 2 for a, b in zip(p[i], p[i + 1]))
        if kind == 'polyline' and any(p[i] == p[i + 1] for i in range(n - 1)):
            continue
        cases.append({'kind': kind, 'p': [rv((x, den), (y, den)) for x, y in p], 'q': rv((q[0], den), (q[1], den))})
    rows = ck.tlc('Shapes', init='CaseInit', invariants=('Laws',), constraint='Emit', inputs=cases, jobs=8).rows
    for row in rows:
        o = vf.outcome(check, row)
        bad = o[1] if o[0] == 'ok' else [str(o[1:])]
        ck.traces += 1
        ck.note(row['c']['kind'])
        if bad:
            ck.violation('{} {} {}: {}'.format(row['c']['kind'], [xy(p) for p in row['c']['p']], xy(row['c']['q']), '; '.join(bad)), row)
            if ck.full:
                return
    ck.samples.append(rows[-1])
