"""Convex hull"""
import itertools

import vf
from geo import xy, same, rv, text


def main(ck):
    from Patro.GeometryEngine.Polygon import Polygon2D, convex_hull
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng

    cases = []
    grid = list(itertools.product(range(3), repeat=2))
    for size in range(1, 10):
        subsets = list(itertools.combinations(grid, size))
        if not ck.thorough and len(subsets) > 90:
            subsets = rng.sample(subsets, 90)
        for s in subsets:
            for _ in range(ck.pick(2, 10)):
                cases.append(rng.sample(s, len(s)))
    if ck.thorough:
        ck.exhaustive.append('all the sets of points of the grid [0, 2]^2, in several orders')
    else:
        ck.exhaustive.append('all the sets of at most 2 or at least 7 points of the grid [0, 2]^2')
    for _ in range(ck.pick(1000, 8000)):
        n = rng.randrange(3, 11)
        k = rng.choice((2, 4, 10, 60))
        points = [(rng.randrange(-k, k + 1), rng.randrange(-k, k + 1)) for _ in range(n)]
        p = rng.random()
        if p < .3:
            # duplicates and aligned points
            points += [rng.choice(points) for _ in range(rng.randrange(1, 3))]
            for _ in range(rng.randrange(1, 4)):
                a, b = rng.sample(points, 2)
                points.append((2 * b[0] - a[0], 2 * b[1] - a[1]) if max(map(abs, a + b)) < 100 else a)
        elif p < .4:
            v = rng.choice(((1, 0), (0, 1), (1, 1), (-1, 2), (3, -2), (1, 3)))
            a = points[0]
            points = [(a[0] + m * v[0], a[1] + m * v[1]) for m in rng.sample(range(-6, 7), rng.randrange(2, 7))]
        elif p < .55:
            # nearly aligned points
            a = [rng.randrange(-1500, 1500) for _ in range(2)]
            b = [rng.randrange(-1500, 1500) for _ in range(2)]
            points = [tuple(a), tuple(b)] + [tuple(x + m * (y - x) // 8 + rng.choice((-1, 0, 0, 1)) for x, y in zip(a, b))
                                             for m in rng.sample(range(-4, 12), rng.randrange(2, 7))]
            points += [(rng.randrange(-1500, 1500), rng.randrange(-1500, 1500))] if rng.random() < .7 else []
        points = points[:12]
        rng.shuffle(points)
        cases.append(points)
    rows = ck.tlc('Hull', init='CaseInit', invariants=('Laws',), constraint='Emit', jobs=8,
                  inputs=[[rv(*p) for p in s] for s in cases]).rows
    expected = {row['i']: row['hull'] for row in rows}

    def verify(points, got, hull, what):
        """got: corners of the hull, in order, possibly with other points of its edges"""
        corners = [xy(p) for p in hull]
        given = {(float(x), float(y)) for x, y in points}
        values = [tuple(float(c) for c in p) for p in got]
        if not set(values) <= given or len(set(values)) != len(values):
            return '{} has points which are not given, or twice the same: {}'.format(what, values)
        if [v for v in values if v in corners] != corners:
            return '{} is {} expected {}'.format(what, values, corners)
        k = -1
        for v in values:
            if v in corners:
                k += 1
                last = 0
            else:
                a, b = corners[k], corners[(k + 1) % len(corners)]
                cross = (b[0] - a[0]) * (v[1] - a[1]) - (b[1] - a[1]) * (v[0] - a[0])
                dot = (b[0] - a[0]) * (v[0] - a[0]) + (b[1] - a[1]) * (v[1] - a[1])
                if cross or not last < dot < (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2:
                    return '{} has a misplaced point {}: {} expected {}'.format(what, v, values, corners)
                last = dot

    def moved(points, hull):
        """The hull of the points turned by any angle: aligned points are there or not, by the rounding"""
        angle, offset = rng.uniform(-180, 180), Vector2D(rng.uniform(-9, 9), rng.uniform(-9, 9))
        corners = [Vector2D(*xy(p)).rotate(angle) + offset for p in hull]
        got = list(convex_hull([Vector2D(*p).rotate(angle) + offset for p in points], as_polygon=False))
        text_got = [text(p) for p in got]
        found = []
        for p in got:
            near = [k for k, q in enumerate(corners) if (p - q).magnitude < 1e-9]
            if near:
                found += near if found[-1:] != near else []
            elif not any(abs((b - a).cross(p - a)) < 1e-9 * max(1, (b - a).magnitude) and -1e-9 < (p - a).dot(b - a) < (b - a).magnitude_square
                         for a, b in zip(corners, corners[1:] + corners[:1])):
                return 'hull of the points turned by {} and moved by {}: {} is not on it'.format(angle, text(offset), text(p))
        if len(found) > 1 and found[0] == found[-1]:
            found.pop()
        k = found.index(0) if 0 in found else 0
        if found[k:] + found[:k] != list(range(len(corners))):
            return 'hull of the points turned by {} and moved by {}: {} expected {}'.format(angle, text(offset), text_got, [text(p) for p in corners])

    for i, points in enumerate(cases, 1):
        hull = expected[i]
        vectors = [Vector2D(*p) for p in points]
        bad = None
        as_list = list(convex_hull(vectors, as_polygon=False))
        bad = verify(points, as_list, hull, 'convex_hull')
        got = convex_hull(vectors)
        if not bad:
            bad = verify(points, got.points if isinstance(got, Polygon2D) else got, hull, 'convex_hull')
        if not bad and len(hull) >= 3:
            if not isinstance(got, Polygon2D):
                bad = 'convex_hull is not a polygon'
            else:
                fresh = Polygon2D(*(Vector2D(p) for p in got.points))
                for polygon in (got, fresh):
                    if not (polygon.is_simple and polygon.is_convex and polygon.is_counterclockwise and not polygon.is_clockwise):
                        bad = 'the hull {} is not a convex counterclockwise polygon'.format(got)
                if not bad and not vf.close(got.area, fresh.area):
                    bad = 'area of the hull {}'.format(got.area)
                # the hull of the hull is itself
                again = convex_hull(list(got.points), as_polygon=False)
                if not bad:
                    bad = verify(points, again, hull, 'hull of the hull')
        if not bad and [tuple(float(c) for c in v) for v in vectors] != [tuple(map(float, p)) for p in points]:
            bad = 'convex_hull modified its points'
        if not bad and len(hull) >= 3 and max(abs(c) for p in points for c in p) < 200 and rng.random() < .5:
            bad = moved(points, hull)
            ck.note('moved')
        if not bad and len(points) >= 3 and len(hull) >= 3:
            polygon = Polygon2D(*vectors)
            if rng.random() < .5:
                convex = polygon.is_convex
            corners = {xy(p) for p in hull}
            got = {tuple(float(c) for c in p) for p in polygon.convex_hull().points}
            if not corners <= got or not got <= {(float(x), float(y)) for x, y in points}:
                bad = 'convex hull of a polygon {} expected {}'.format(got, corners)
        ck.traces += 1
        ck.note('corners {}'.format(min(len(hull), 6)))
        if bad:
            ck.violation('{}: {}'.format(points, bad), {'points': points, 'hull': hull})
            if ck.full:
                return
    ck.samples.append({'points': cases[-1], 'hull': expected[len(cases)]})
