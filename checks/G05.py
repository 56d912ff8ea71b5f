"""Polygons"""
import itertools
import math

import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon, is_three_point_ccw, is_three_point_cw, is_three_point_collinear
    from Patro.GeometryEngine.Triangle import Triangle2D
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    def check(row):
        points = row['p']
        n = len(points)
        polygon = Polygon2D(*(V(p) for p in points))
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))

        def is_simple():
            expect('is_simple', bool(polygon.is_simple) == row['simple'], polygon.is_simple)

        def is_convex():
            expect('is_convex', bool(polygon.is_convex) == row['convex'], polygon.is_convex)

        def is_concave():
            expect('is_concave', bool(polygon.is_concave) != row['convex'], polygon.is_concave)

        def area():
            got = polygon.area
            expect('area', vf.close(got, rat(row['area'])) if row['simple'] else got is None, got)

        def orientation():
            if row['simple']:
                expect('is_clockwise', bool(polygon.is_clockwise) == row['clockwise'], polygon.is_clockwise)
                expect('is_counterclockwise', bool(polygon.is_counterclockwise) != row['clockwise'], polygon.is_counterclockwise)
            else:
                expect('is_clockwise', polygon.is_clockwise is None, polygon.is_clockwise)

        def barycenter():
            if row['simple']:
                expect('barycenter', same(polygon.barycenter, row['barycenter']), text(polygon.barycenter))

        def point_barycenter():
            expect('point_barycenter', same(polygon.point_barycenter, row['points']), text(polygon.point_barycenter))

        def perimeter():
            got = polygon.perimeter
            expect('perimeter', vf.close(got, sum(math.sqrt(rat(x)) for x in row['edges'])), got)

        def edges():
            got = [tuple(e.points) for e in polygon.edges]
            expect('edges', len(got) == n == polygon.number_of_edges and all(
                same(got[i][0], points[i]) and same(got[i][1], points[(i + 1) % n]) for i in range(n)), got)

        def inside():
            for p, where in zip(row['at'], row['inside']):
                if where != 'boundary':
                    expect('is_point_inside', bool(polygon.is_point_inside(V(p))) == (where == 'in'), xy(p))

        def moments():
            if not row['simple']:
                return
            xx, yy, x_y = (rat(m) for m in row['moments'])
            major, minor = polygon.major_axis, polygon.minor_axis
            k, l = major ** 2 / 16, minor ** 2 / 16
            expect('axis', major >= minor - 1e-9 and vf.close(k + l, xx + yy) and vf.close(k * l, xx * yy - x_y ** 2, 1e-6),
                   (major, minor))
            # the major axis is an eigenvector of the moments
            angle = math.radians(polygon.major_axis_angle)
            x, y = math.cos(angle), math.sin(angle)
            expect('major_axis_angle', vf.close(xx * x + x_y * y, k * x, 1e-6) and vf.close(x_y * x + yy * y, k * y, 1e-6),
                   polygon.major_axis_angle)
            if minor > 1e-6:
                expect('axis_ratio', vf.close(polygon.axis_ratio, major / minor), polygon.axis_ratio)
            # the first question asked
            for name in ('major_axis', 'minor_axis', 'axis_ratio', 'major_axis_angle'):
                if minor > 1e-6 or name != 'axis_ratio':
                    got = getattr(Polygon2D(*(V(p) for p in points)), name)
                    expect('{} of a new polygon'.format(name), vf.close(got, getattr(polygon, name)), got)

        def triangle():
            expect('is_triangle', bool(polygon.is_triangle) == (n == 3))
            if n == 3 and row['simple']:
                t = polygon.to_triangle()
                expect('to_triangle', isinstance(t, Triangle2D) and same_points(t.points, points))
            elif n != 3:
                expect('to_triangle', vf.outcome(polygon.to_triangle)[0] == 'err')

        def simplify():
            if row['simple']:
                got = polygon.simplify(1e-9)
                expect('simplify', isinstance(got, Polygon2D) and same_points(got.points, [points[i - 1] for i in row['corners']]), got)

        def turns():
            a, b, c = (V(p) for p in rng.sample(points, 3))
            turn = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
            if abs(turn) < 1e-9:
                return
            expect('is_three_point_ccw', is_three_point_ccw(a, b, c) == (turn > 0) and is_three_point_cw(a, b, c) == (turn < 0) and
                   not is_three_point_collinear(a, b, c), (a, b, c))

        def unchanged():
            expect('points', same_points(polygon.points, points))

        # the answers don't depend on the order of the questions
        queries = [is_simple, is_convex, is_concave, area, orientation, barycenter, point_barycenter, perimeter, edges, inside,
                   moments, triangle, simplify, turns, unchanged]
        rng.shuffle(queries)
        for query in queries + rng.sample(queries, 3):
            query()
        if row['simple'] and not bad and rng.random() < .4:
            motion(row, Polygon2D(*(V(p) for p in points)) if rng.random() < .3 else polygon.clone() if rng.random() < .5 else polygon, expect)
        elif row['simple'] and not bad:
            b = row['barycenter']
            polygon.recenter()
            expect('recenter', all(vf.close(u, x - y) for p, q in zip(polygon.points, points)
                                   for u, x, y in zip(p, xy(q), xy(b))), [text(p) for p in polygon.points])
            expect('recenter barycenter', all(vf.close(c, 0) for c in polygon.barycenter) and vf.close(polygon.area, rat(row['area'])),
                   text(polygon.barycenter))
        return bad

    def motion(row, polygon, expect):
        """The answers follow a rotation by any angle, a symmetry, a translation, whatever was asked before"""
        a, dx, dy = rng.uniform(-180, 180), rng.uniform(-9, 9), rng.uniform(-9, 9)
        mirror = rng.choice((None, 'x_mirror', 'y_mirror'))
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))

        def image(p):
            x, y = xy(p)
            x, y = x * (-1 if mirror == 'x_mirror' else 1), y * (-1 if mirror == 'y_mirror' else 1)
            return c * x - s * y + dx, s * x + c * y + dy
        if mirror:
            polygon = getattr(polygon, mirror)()
        polygon = polygon.rotate(a).transform(AffineTransformation2D.Translation(Vector2D(dx, dy)))

        def near(p, q):
            return all(vf.close(u, v, 1e-7) for u, v in zip(p, image(q)))
        ck.note('moved')
        n = len(row['p'])
        questions = [
            ('is_simple', lambda: bool(polygon.is_simple)),
            ('area', lambda: vf.close(polygon.area, rat(row['area']), 1e-7)),
            ('is_clockwise', lambda: bool(polygon.is_clockwise) == (row['clockwise'] != bool(mirror))),
            ('is_counterclockwise', lambda: bool(polygon.is_counterclockwise) == (row['clockwise'] == bool(mirror))),
            ('barycenter', lambda: near(polygon.barycenter, row['barycenter'])),
            ('point_barycenter', lambda: near(polygon.point_barycenter, row['points'])),
            ('points', lambda: len(list(polygon.points)) == n and all(near(p, q) for p, q in zip(polygon.points, row['p']))),
            ('perimeter', lambda: vf.close(polygon.perimeter, sum(math.sqrt(rat(x)) for x in row['edges']), 1e-7)),
            ('axes', lambda: vf.close((polygon.major_axis / 4) ** 2 + (polygon.minor_axis / 4) ** 2,
                                      sum(x * x + y * y for x, y in map(image, row['p'])) / n, 1e-7)),
            ('inside', lambda: all(bool(polygon.is_point_inside(Vector2D(*image(p)))) == (where == 'in')
                                   for p, where in zip(row['at'], row['inside']) if where != 'boundary')),
        ]
        if len(row['corners']) == n: # else they are decided by the rounding
            questions += [('is_convex', lambda: bool(polygon.is_convex) == row['convex']),
                          ('is_concave', lambda: bool(polygon.is_concave) != row['convex']),
                          ('simplify', lambda: len(list(polygon.simplify(1e-9).points)) == n)]
        rng.shuffle(questions)
        for name, question in questions:
            expect('{} after {}, rotation {}, translation {}'.format(name, mirror, a, (dx, dy)), question(), [text(p) for p in polygon.points])

    def run(rows):
        for row in rows:
            o = vf.outcome(check, row)
            bad = o[1] if o[0] == 'ok' else [str(o[1:])]
            ck.traces += 1
            ck.note('simple' if row['simple'] else 'not simple')
            ck.note('convex', row['convex'])
            if bad:
                ck.violation('polygon {}: {}'.format([xy(p) for p in row['p']], '; '.join(bad)), row)
                if ck.full:
                    return

    grid_cases = []
    probes = [rv(x, y) for x, y in (((1, 2), (1, 2)), ((3, 2), (1, 3)), (1, (3, 2)), ((5, 3), 1), (1, 1), ((-1, 2), 1))]
    for size, grid in ck.pick(((3, 2), (4, 2)), ((3, 3), (4, 2), (5, 2))):
        vertices = list(itertools.product(range(grid + 1), repeat=2))
        grid_cases += [{'p': [rv(*v) for v in p], 'at': probes} for p in itertools.permutations(vertices, size)]
        ck.exhaustive.append('the polygons with {} distinct vertices of the grid [0, {}]'.format(size, grid))
    ck.samples.append(grid_cases[-1])
    cases = []
    for _ in range(ck.pick(1200, 12000)):
        n = rng.choice((3, 4, 5, 5, 6, 7, 8, 9))
        k = rng.choice((2, 4, 10))
        points = []
        while len(points) < n and k:
            p = (rng.randrange(-k, k + 1), rng.randrange(-k, k + 1))
            if p not in points:
                points.append(p)
        kind = rng.random()
        if kind < .75:
            # star shaped: simple in general
            cx, cy = (sum(c) / n + rng.random() / 7 for c in zip(*points))
            points.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
            if kind < .2:
                # vertices on the edges
                for _ in range(rng.randrange(1, 3)):
                    i = rng.randrange(len(points))
                    a, b = points[i - 1], points[i]
                    points.insert(i, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
            if rng.random() < .5:
                points.reverse()
            i = rng.randrange(len(points))
            points = points[i:] + points[:i]
        p = [rv((int(x * 4), 4), (int(y * 4), 4)) for x, y in points]
        at = [rv((rng.randrange(-2 * k, 2 * k + 1), 2), (rng.randrange(-2 * k, 2 * k + 1), 2)) for _ in range(5)]
        # aligned with vertices
        at += [rv((rng.randrange(-2 * k - 1, 2 * k + 2), 2), (int(rng.choice(points)[1] * 4), 4)) for _ in range(4)]
        at += [rv((int(rng.choice(points)[0] * 4), 4), (rng.randrange(-2 * k - 1, 2 * k + 2), 2)) for _ in range(2)]
        cases.append({'p': p, 'at': at})
    res = ck.tlc('Polygons', init='CaseInit', invariants=('Laws',), constraint='Emit',
                 inputs=grid_cases + cases, jobs=8)
    run(res.rows)
    ck.samples.append(res.rows[0])

    # regular polygons
    for _ in range(ck.pick(60, 400)):
        n = rng.randrange(3, 25)
        c = Vector2D(rng.randrange(-5, 6), rng.randrange(-5, 6))
        r = rng.choice((.5, 1, 3, 7.25))
        angle = rng.choice((0, 30, 45, 90, 200, -13))
        x = RegularPolygon(c, r, n, angle)
        bad = []
        ps = list(x.points)
        for i, p in enumerate(ps):
            a = math.radians(angle + 360 * i / n)
            if not (vf.close(p.x, c.x + r * math.cos(a)) and vf.close(p.y, c.y + r * math.sin(a))):
                bad.append('vertex {} {}'.format(i, text(p)))
        circle = x.circumcircle
        if not (len(ps) == n == x.number_of_edges and vf.close(x.edge_angle * n, 360) and vf.close(x.radius, r)
                and vf.close(circle.radius, r) and all(vf.close(u, v) for u, v in zip(circle.center, c))):
            bad.append('size')
        if not (all(vf.close(u, v) for u, v in zip(x.center, c)) and vf.close(x.angle, angle)):
            bad.append('center {} angle {}'.format(text(x.center), x.angle))
        if not vf.close(x.area, n * r * r * math.sin(2 * math.pi / n) / 2) or not vf.close(x.perimeter, 2 * n * r * math.sin(math.pi / n)):
            bad.append('area {} perimeter {}'.format(x.area, x.perimeter))
        if not x.is_simple or not x.is_counterclockwise:
            bad.append('kind')
        if not all(vf.close(u, v) for u, v in zip(x.barycenter, c)):
            bad.append('barycenter {}'.format(text(x.barycenter)))
        ck.traces += 1
        ck.note('regular')
        if bad:
            ck.violation('regular polygon {} {} {} {}: {}'.format(text(c), r, n, angle, '; '.join(bad)))

    # regular polygons which are cloned, reversed and mapped by similarities
    directions = [rv(a, b) for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1))] + \
                 [rv((sx * a, h), (sy * b, h)) for a, b, h in ((3, 4, 5), (4, 3, 5), (5, 12, 13)) for sx in (1, -1) for sy in (1, -1)]
    programs = []
    for _ in range(ck.pick(200, 3000)):
        ops = []
        turns = scale = 0
        for _ in range(rng.randrange(2, 9)):
            if rng.random() < .6:
                kind = rng.choice(('rotate', 'rotate', 'mirror', 'x_mirror', 'y_mirror', 'scale', 'translate', 'translate', 'identity'))
                op = [kind]
                if kind == 'rotate':
                    op.append(rng.choice(directions if turns < 1 else directions[:4]))
                    turns += op[1] not in directions[:4]
                elif kind == 'scale':
                    scale += 1
                    op.append(list(rng.choice(((2, 1), (1, 2), (-1, 1), (3, 1), (-1, 2)) if scale < 3 else ((-1, 1),))))
                elif kind == 'translate':
                    op.append(rv(rng.randrange(-5, 6), rng.randrange(-5, 6)))
                ops.append([rng.choice(('inplace', 'inplace', 'cloned')), op])
            else:
                ops.append([rng.choice(('clone', 'reverse', 'recenter', 'swap', 'swap'))])
        programs.append({'center': rv(rng.randrange(-5, 6), rng.randrange(-5, 6)), 'radius': list(rng.choice(((1, 2), (1, 1), (3, 1), (29, 4)))),
                         'd': rng.choice(directions), 'n': rng.choice((3, 3, 4, 4, 5, 6, 7, 12, 23)), 'ops': ops})
    res = ck.tlc('Regular', init='RInit', next='RNext', invariants=('Laws',), constraint='Emit', inputs=programs)
    states = {(row['prog'], row['step']): (row['x'], row['y']) for row in res.rows}

    def degrees(d):
        x, y = xy(d)
        return math.degrees(math.atan2(y, x))

    def apply(x, op, clone):
        kwargs = {'clone': True} if clone else {}
        if op[0] == 'rotate':
            return x.rotate(degrees(op[1]) + rng.choice((0, 360)), **kwargs)
        if op[0] == 'scale':
            return x.scale(rat(op[1]), **kwargs)
        if op[0] == 'translate':
            return x.transform(AffineTransformation2D.Translation(Vector2D(*xy(op[1]))), **kwargs)
        if op[0] == 'identity':
            return x.transform(Transformation2D.Identity(), **kwargs)
        return getattr(x, op[0])(**kwargs)

    def read(x, p, n):
        """What is wrong with the polygon"""
        r = rat(p['radius'])
        cx, cy = xy(p['center'])
        bad = []
        points = list(x.points)
        wanted = []
        for i in range(n):
            a = math.radians(degrees(p['d']) + 360 * (p['m'] + p['sense'] * i) / n)
            wanted.append((cx + r * math.cos(a), cy + r * math.sin(a)))
        if len(points) != n or not all(vf.close(u, v, 1e-8) for q, w in zip(points, wanted) for u, v in zip(q, w)):
            bad.append('vertices {} expected {}'.format([text(q) for q in points], wanted))
        if type(x) is not RegularPolygon or x.number_of_edges != n or not vf.close(x.edge_angle * n, 360):
            bad.append('kind {}'.format(x))
            return bad
        for name, u, v in [('center', x.center, p['center']), ('center of the circumcircle', x.circumcircle.center, p['center'])]:
            if not same(u, v, 1e-8):
                bad.append('{} {} expected {}'.format(name, text(u), xy(v)))
        turned = (x.angle - degrees(p['d']) - 360 * p['m'] / n + 180) % 360 - 180
        values = {'radius': (x.radius, r), 'radius of the circumcircle': (x.circumcircle.radius, r), 'angle': (turned, 0),
                  'area': (x.area, n * r * r * math.sin(2 * math.pi / n) / 2), 'perimeter': (x.perimeter, 2 * n * r * math.sin(math.pi / n)),
                  'sense': (bool(x.is_counterclockwise), p['sense'] == 1)}
        bad += ['{} {} expected {}'.format(key, *value) for key, value in values.items() if not vf.close(*value, 1e-7)]
        return bad

    def replay(i, program):
        n = program['n']
        x = RegularPolygon(Vector2D(*xy(program['center'])), rat(program['radius']), n, degrees(program['d']) + rng.choice((0, 360)))
        y = x.clone()
        for k, a in enumerate(program['ops'], 1):
            if rng.random() < .4:
                read(x, states[i, k - 1][0], n) # fill the caches
            new = None
            if a[0] == 'inplace':
                apply(x, a[1], False)
            elif a[0] == 'cloned':
                new = y = apply(x, a[1], True)
            elif a[0] == 'swap':
                x, y = y, x
            elif a[0] == 'recenter':
                x.recenter()
            else:
                new = y = getattr(x, a[0])()
            bad = ['returned the polygon'] if new is x else []
            for z, p in ((x, states[i, k][0]), (y, states[i, k][1])):
                bad += read(z, p, n)
            if bad:
                return 'after {}: {}'.format(program['ops'][:k], '; '.join(bad))

    for i, program in enumerate(programs, 1):
        o = vf.outcome(replay, i, program)
        bad = o[1] if o[0] == 'ok' else '{} {}'.format(program['ops'], o)
        if bad:
            ck.violation('regular polygon {} {}'.format({key: program[key] for key in ('center', 'radius', 'd', 'n')}, bad), program)
        ck.traces += 1
        ck.note('regular programs')
        if ck.full:
            return
