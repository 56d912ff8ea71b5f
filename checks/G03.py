"""Lines and segments"""
import math

import vf
from geo import rat, xy, same, ssq, rv, text


def main(ck):
    from Patro.GeometryEngine.Line import Line2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    def check_segments(row):
        p0, p1, p2, p3 = (V(p) for p in row['p'])
        s, r = Segment2D(p0, p1), Segment2D(p2, p3)
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        got = s.intersect_with(r)
        expect('intersect_with', bool(got) == row['meet'], got)
        if not row['meet']:
            # the rounding of a translation is much smaller than the gap
            for _ in range(60 if row['parallel'] and abs((p1 - p0).cross(p2 - p0)) < 1e-9 else 1):
                offset = Vector2D(rng.uniform(-10, 10), rng.uniform(-10, 10))
                a, b, c, d = (p + offset for p in (p0, p1, p2, p3))
                if a != b and c != d:
                    for x, y in ((Segment2D(a, b), Segment2D(c, d)), (Segment2D(c, d), Segment2D(a, b))):
                        expect('intersect_with after the translation {}'.format(text(offset)), not x.intersect_with(y))
        point, inside = s.intersection(r)
        if row['parallel']:
            expect('intersection', point is None and not inside, (point, inside))
        else:
            expect('intersection', same(point, row['point']) and bool(inside) == row['inside'], (text(point), inside))
        v = s.share_vertex_with(r)
        expect('share_vertex_with', (v is None) == (not row['share']) and
               (v is None or any(same(v, x) for x in row['share'])), v)
        expect('cross', vf.close(s.cross(r), rat(row['cross'])), s.cross(r))
        expect('length', vf.close(s.length ** 2, rat(row['length2'])), s.length)
        expect('center', same(s.center, row['center']), text(s.center))
        side = rat(row['side'])
        expect('side_of', vf.close(s.side_of(p2), side), s.side_of(p2))
        expect('left_of', bool(s.left_of(p2)) == (side > 0))
        expect('right_of', bool(s.right_of(p2)) == (side < 0))
        expect('is_collinear', bool(s.is_collinear(p2)) == (side == 0))
        expect('contain_point', bool(s.contain_point(p2)) == row['contain'], s.contain_point(p2))
        d = s.distance_to_point(p2)
        expect('distance_to_point', d >= 0 and vf.close(d ** 2, rat(row['dist2'])), d)
        for t in (s.interpolate(1/3), s.point_at_t(1/3), s.to_line().point_at_t(1/3)):
            expect('point at 1/3', same(t, row['t']), text(t))
        expect('ends', same(s.interpolate(0), row['p'][0]) and same(s.interpolate(1), row['p'][1]) and
               same(s.start_point, row['p'][0]) and same(s.end_point, row['p'][1]))
        expect('vector', same(s.vector, [[row['p'][1][k][0] * row['p'][0][k][1] - row['p'][0][k][0] * row['p'][1][k][1],
                                          row['p'][1][k][1] * row['p'][0][k][1]] for k in (0, 1)]), text(s.vector))
        expect('operands', all(same(x, y) for x, y in zip((p0, p1, p2, p3), row['p'])))
        return bad

    def check_lines(row):
        p, v, q, w = (V(x) for x in row['p'])
        l, m = Line2D(p, v), Line2D(q, w)
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        magnitude = math.sqrt(rat(row['v2']))
        expect('is_parallel', bool(l.is_parallel(m)) == row['parallel'])
        expect('is_orthogonal', bool(l.is_orthogonal(m)) == row['orthogonal'])
        st = l.intersection_abscissae(m)
        point = l.intersection(m)
        if row['parallel']:
            expect('intersection', st[0] is None and st[1] is None and point is None, (st, point))
        else:
            expect('intersection_abscissae', vf.close(st[0], rat(row['st'][0])) and vf.close(st[1], rat(row['st'][1])), st)
            expect('intersection', same(point, row['point']), text(point))
        expect('projected_point', same(l.projected_point(q), row['foot']), text(l.projected_point(q)))
        expect('projected_abscissa', vf.close(ssq(l.projected_abscissa(q)), rat(row['abscissa'])), l.projected_abscissa(q))
        expect('distance_to_line', vf.close(ssq(l.distance_to_line(q)), rat(row['distance'])), l.distance_to_line(q))
        got = l.distance_and_abscissa_to_line(q)
        expect('distance_and_abscissa_to_line', vf.close(ssq(got[0]), rat(row['distance'])) and
               vf.close(ssq(got[1]), rat(row['abscissa'])), got)
        if row['p'][1][0][0]:
            expect('get_y_from_x', vf.close(l.get_y_from_x(q.x), rat(row['y'])), l.get_y_from_x(q.x))
        if row['p'][1][1][0]:
            expect('get_x_from_y', vf.close(l.get_x_from_y(q.y), rat(row['x'])), l.get_x_from_y(q.y))
        for x in (l.interpolate(1.5), l.point_at_s(1.5), l.point_at_t(1.5)):
            expect('interpolate', same(x, row['at']), text(x))
        expect('compute_distance_between_abscissae', vf.close(l.compute_distance_between_abscissae(3, 1), 2 * magnitude)
               and vf.close(l.compute_distance_between_abscissae(-1, 1.5), 2.5 * magnitude))
        got = l.compute_distance([0, 2, 1])
        expect('compute_distance', len(got) == 2 and vf.close(got[0], 2 * magnitude) and vf.close(got[1], magnitude), got)
        # derived lines
        for name, x, through, direction in (
                ('parallel_line_at', l.parallel_line_at(q), q, v),
                ('orthogonal_line_at', l.orthogonal_line_at(q), q, v.normal),
                ('orthogonal_line_at_abscissa', l.orthogonal_line_at_abscissa(1.5), l.interpolate(1.5), v.normal)):
            expect(name, vf.close(x.distance_to_line(through), 0) and vf.close(x.v.cross(direction), 0) and bool(x.v), text(x.p))
        for shift in (2., -.5):
            x = l.shifted_parallel_line(shift)
            expect('shifted_parallel_line', vf.close(x.v.cross(v), 0) and vf.close(l.distance_to_line(x.p), shift) and
                   vf.close(l.distance_to_line(x.interpolate(2)), shift), (text(x.p), text(x.v)))
        # a point of the line at a given distance of another point
        distance = math.sqrt(abs(rat(row['distance']))) + 1
        for reverse in (False, True):
            x = l.triangle_projected_point(q, distance, reverse)
            along = (x - V(row['foot'])).dot(v)
            expect('triangle_projected_point', vf.close(l.distance_to_line(x), 0) and vf.close((x - q).magnitude, distance)
                   and (along < 0) == reverse, text(x))
        # construction, copy
        x = Line2D.from_two_points(p, p + v)
        expect('from_two_points', vf.close(x.distance_to_line(p), 0) and vf.close(x.v.cross(v), 0) and x.v.dot(v) > 0)
        expect('infinite', x.is_infinite and x.bounding_box is None and not x.is_closed)
        x = l.clone()
        x.p += Vector2D(1, 2)
        x.v *= 2
        expect('clone', same(x.p, [[row['p'][0][0][0] + row['p'][0][0][1], row['p'][0][0][1]],
                                   [row['p'][0][1][0] + 2 * row['p'][0][1][1], row['p'][0][1][1]]]))
        expect('operands', all(same(x, y) for x, y in zip((p, v, q, w), row['p'])) and
               same(l.p, row['p'][0]) and same(l.v, row['p'][1]))
        return bad

    rows = []
    n = ck.pick(2, 3)
    res = ck.tlc('Lines', {'N': n}, init='SegInit', invariants=('SegmentLaws',), constraint='Emit', inputs=[], workers=ck.pick(1, 4))
    rows += res.rows
    res = ck.tlc('Lines', {'N': 2}, init='LineInit', invariants=('LineLaws',), constraint='Emit', inputs=[])
    rows += res.rows
    ck.exhaustive.append('all the pairs of segments of the grid [0, {}]; all the pairs of lines with directions in [-2, 2]'.format(n))
    cases = []
    for _ in range(ck.pick(1500, 15000)):
        k = 12
        den = rng.choice((1, 1, 2))
        kind = rng.choice(('segments', 'line'))

        def point():
            return [rng.randrange(-k, k + 1), rng.randrange(-k, k + 1)]
        a, b, c, d = (point() for _ in range(4))
        p = rng.random()
        if kind == 'segments':
            if p < .25:
                # an end on the other segment
                m, s = rng.choice(((1, 2), (1, 3), (2, 3), (1, 1), (0, 1), (2, 1), (-1, 1)))
                a = [x * s for x in [rng.randrange(-3, 4), rng.randrange(-3, 4)]]
                b = [x * s for x in [rng.randrange(-3, 4), rng.randrange(-3, 4)]]
                c = [a[i] + m * (b[i] - a[i]) // s for i in (0, 1)]
            elif p < .4:
                # parallel
                m = rng.choice((-1, 1))
                d = [c[i] + m * (b[i] - a[i]) for i in (0, 1)]
            elif p < .5:
                # collinear
                v = [rng.randrange(-3, 4), rng.randrange(-3, 4)]
                b, c, d = ([a[i] + m * v[i] for i in (0, 1)] for m in rng.sample(range(-3, 4), 3))
            if a == b or c == d:
                continue
        else:
            if p < .2:
                d = [rng.choice((-1, 1)) * x for x in b]
            elif p < .4:
                d = [-b[1], b[0]]
            if b == [0, 0] or d == [0, 0]:
                continue
        cases.append({'kind': kind, 'p': [rv((x, den), (y, den)) for x, y in (a, b, c, d)]})
    res = ck.tlc('Lines', {'N': 0}, init='CaseInit', invariants=('SegmentLaws', 'LineLaws'), constraint='Emit', inputs=cases)
    rows += res.rows
    for row in rows:
        bad = check_segments(row) if row['kind'] == 'segments' else check_lines(row)
        ck.traces += 1
        ck.note(row['kind'])
        if bad:
            ck.violation('{} {}: {}'.format(row['kind'], [xy(p) for p in row['p']], '; '.join(bad)), row)
            if ck.full:
                return
    ck.samples.append(rows[0])
