"""Geometric objects added to a scene"""
import math
import os

import painters
import pathgen
import vf
from geo import rat, xy


def main(ck):
    os.environ['QT_QPA_PLATFORM'] = 'offscreen'
    os.environ.setdefault('XDG_RUNTIME_DIR', ck.tmp)
    from IntervalArithmetic import Interval2D
    from QtShim.QtGui import QGuiApplication
    from Patro.GeometryEngine import Bezier, Conic, Line, Polygon, Polyline, Rectangle, Segment, Spline, Triangle
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter
    application = QGuiApplication.instance() or QGuiApplication(['vf'])

    rng = ck.rng
    tools = pathgen.tools(rng)
    V, degrees, point, nonzero, directions = tools.V, tools.degrees, tools.point, tools.nonzero, tools.directions
    styles = [GraphicPathStyle(stroke_color=color, line_width=1) for color in ('red', 'blue', 'black')]
    classes = {'segment': Segment.Segment2D, 'quadratic': Bezier.QuadraticBezier2D, 'cubic': Bezier.CubicBezier2D, 'polyline': Polyline.Polyline2D,
               'polygon': Polygon.Polygon2D, 'triangle': Triangle.Triangle2D, 'rectangle': Rectangle.Rectangle2D}

    def domain(g):
        if not g['d0']:
            return None
        start = degrees(g['d0']) + rng.choice((0, 0, 360, -360))
        span = (degrees(g['d1']) - start) % 360
        if g['t'] == 'circle' and rng.random() < .5:
            return Conic.AngularDomain(start % 360, (start + span) % 360)
        # an arc of an ellipse may be clockwise, its domain is decreasing
        return Conic.AngularDomain(start + span, start) if g.get('rev') else Conic.AngularDomain(start, start + span)

    def build(g):
        if g['t'] in classes:
            return classes[g['t']](*(V(p) for p in g['pts']))
        if g['t'] == 'line':
            return Line.Line2D(V(g['pts'][0]), V(g['pts'][1]))
        if g['t'] == 'circle':
            return Conic.Circle2D(V(g['center']), rat(g['a']), domain(g))
        if g['t'] == 'ellipse':
            return Conic.Ellipse2D(V(g['center']), rat(g['a']), rat(g['b']), degrees(g['rot']), domain(g))
        if g['t'] == 'spline':
            return Spline.BSpline2D([V(p) for p in g['pts']], g['degree'])
        if g['t'] == 'chain':
            return [V(p) for p in g['pts']]
        path = Path2D(V(g['p0']))
        for op in g['ops']:
            o = vf.outcome(tools.run, path, op)
            if o[0] == 'ok':
                path = o[1]
        return path

    def add(scene, g, op):
        thing = build(g)
        style = styles[op['style']]
        if g['t'] == 'chain':
            got = scene.bezier_path(thing, g['degree'], style, user_data=thing)
        elif g['t'] == 'path' and (g['whole'] or rng.random() < .5):
            got = scene.add_path(thing, style, user_data=thing, as_segments=not g['whole'])
        elif g['t'] == 'spline' and rng.random() < .5:
            got = scene.add_spline(thing, style)
        else:
            got = scene.add_geometry(thing, style)
        return thing, got if isinstance(got, list) else [got]

    ################################################################################################

    def near(p, q, tol=1e-6):
        return abs(p.x - q[0]) < tol and abs(p.y - q[1]) < tol

    def all_near(P, Q):
        P = list(P)
        return len(P) == len(Q) and all(near(p, xy(q)) for p, q in zip(P, Q))

    def on_ellipse(e, p):
        """the distance, more or less"""
        cx, cy = xy(e['center'])
        c, s = xy(e['rot'])
        a, b = rat(e['a']), rat(e['b'])
        x, y = p.x - cx, p.y - cy
        return abs(math.hypot((c * x + s * y) / a, (c * y - s * x) / b) - 1)

    def arc_problem(item, want):
        e = want['e']
        a, b = rat(e['a']), rat(e['b'])
        if want['t'] == 'circle':
            radii, angle = (item.radius, item.radius), 0
        else:
            radii, angle = (item.radius_x, item.radius_y), item.angle
        if not near(item.casted_position, xy(e['center'])) or abs(radii[0] - a) > 1e-6 or abs(radii[1] - b) > 1e-6:
            return 'has the center {} and the radii {}'.format(item.casted_position, radii)
        if abs((angle - degrees(e['rot']) + 90) % 180 - 90) > 1e-6 and (want['t'] == 'ellipse' and a != b or want['ends']):
            return 'has the angle {}'.format(angle)
        span = item.stop_angle - item.start_angle
        if not want['ends']:
            return None if item.is_closed and span == 360 else 'is an arc'
        if not 0 < span < 360 or item.is_closed:
            return 'goes from {} to {}'.format(item.start_angle, item.stop_angle)
        for t, end in zip((item.start_angle, item.stop_angle), want['ends']):
            t = math.radians(t)
            x, y = radii[0] * math.cos(t), radii[1] * math.sin(t)
            c, s = math.cos(math.radians(angle)), math.sin(math.radians(angle))
            p = item.casted_position
            ex, ey = xy(end)
            if math.hypot(p.x + c * x - s * y - ex, p.y + s * x + c * y - ey) > 1e-5:
                return 'ends at {} instead of {}'.format((p.x + c * x - s * y, p.y + s * x + c * y), (ex, ey))
        return None

    def path_problem(item, want):
        here = item.casted_position
        segments = list(item)
        start = want['sub'][0] if want['sub'] else None
        if start is not None:
            first = xy(start['ends'][1 if start['rev'] else 0]) if start['e'] else xy(start['pts'][0])
        else:
            first = xy(want['pts'][0])
        if not near(here, first):
            return 'begins at {} instead of {}'.format(here, first)
        n = 0
        cast = current[0].cast_position
        for sub in want['sub']:
            if n >= len(segments):
                return 'has {} parts, the next is {}'.format(n, sub)
            if sub['e']:
                end = xy(sub['ends'][0 if sub['rev'] else 1])
                angles = []
                while n < len(segments) and type(segments[n]).__name__ == 'CubicSegment':
                    p = [here] + [cast(q) for q in segments[n].positions]
                    n += 1
                    for t in (.25, .5, .75, 1):
                        q = p[0] * (1 - t)**3 + p[1] * (3 * t * (1 - t)**2) + p[2] * (3 * t**2 * (1 - t)) + p[3] * t**3
                        if on_ellipse(sub['e'], q) > 2e-3:
                            return 'is out of the arc at {}'.format(q)
                        angles.append(q)
                    here = p[3]
                    if near(here, end, 1e-5):
                        break
                if not near(here, end, 1e-5):
                    return 'has not an arc to {} but to {}'.format(end, here)
                # the way, by the area swept from the center
                cx, cy = xy(sub['e']['center'])
                if angles and len(angles) > 1:
                    u, v = angles[0], angles[1]
                    if ((u.x - cx) * (v.y - cy) - (u.y - cy) * (v.x - cx) < 0) != sub['rev']:
                        return 'goes the wrong way on an arc to {}'.format(end)
                turn = sum(math.degrees(math.atan2((u.x - cx) * (v.y - cy) - (u.y - cy) * (v.x - cx), (u.x - cx) * (v.x - cx) + (u.y - cy) * (v.y - cy)))
                           for u, v in zip(angles, angles[1:]))
                if abs(turn) >= 360:
                    return 'goes around an arc to {}'.format(end)
                continue
            name = {2: 'LinearSegment', 3: 'QuadraticSegment', 4: 'CubicSegment'}[len(sub['pts'])]
            segment = segments[n]
            n += 1
            positions = segment.positions if name != 'LinearSegment' else [segment.position]
            if type(segment).__name__ != name or not all_near([cast(p) for p in positions], sub['pts'][1:]):
                return 'has the part {} {} instead of {}'.format(type(segment).__name__, [str(p) for p in positions], sub)
            here = cast(positions[-1])
        if n != len(segments) or item.is_closed != want['closed']:
            return 'has {} parts instead of {}, closed {}'.format(len(segments), n, item.is_closed)
        # the path of the item
        path = item.geometry
        parts = [part.geometry for part in path]
        here = item.casted_position
        for segment, part in zip(segments, parts):
            positions = [here] + [cast(p) for p in (segment.positions if type(segment).__name__ != 'LinearSegment' else [segment.position])]
            points = list(part.points)
            if len(points) != len(positions) or not all(near(p, q) for p, q in zip(points, positions)):
                return 'has the geometry {} instead of {}'.format(points, positions)
            here = positions[-1]
        if not n <= len(parts) <= n + want['closed'] or path.is_closed != want['closed']:
            return 'has a geometry of {} parts instead of {}, closed {}'.format(len(parts), n, path.is_closed)
        return None

    names = {'segment': 'SegmentItem', 'quadratic': 'QuadraticBezierItem', 'cubic': 'CubicBezierItem', 'polyline': 'PolylineItem', 'polygon': 'PolygonItem',
             'rectangle': 'RectangleItem', 'circle': 'CircleItem', 'ellipse': 'EllipseItem', 'path': 'PathItem'}
    current = [None]

    def item_problem(item, want, op, thing):
        if type(item).__name__ != names[want['t']]:
            return 'is a {}'.format(type(item).__name__)
        if item.path_style is not styles[op['style']]:
            return 'has another style'
        if item.user_data is not thing:
            return 'belongs to {}'.format(item.user_data)
        if want['t'] in ('circle', 'ellipse'):
            return arc_problem(item, want)
        if want['t'] == 'path':
            return path_problem(item, want)
        if not all_near(item.casted_positions, want['pts']):
            return 'has the points {}'.format([str(p) for p in item.casted_positions])
        if not all_near(item.get_geometry().points, want['pts']):
            return 'has the geometry {}'.format(item.get_geometry())
        return None

    def scene_problem(scene, row, ops, things):
        items = list(scene)
        if len(items) != len(row['items']):
            return 'has {} items instead of {}: {}'.format(len(items), len(row['items']), [(type(x).__name__) for x in items])
        for item, want in zip(items, row['items']):
            problem = item_problem(item, want, ops[want['own'] - 1], things[want['own']])
            if problem:
                return 'has an item which {} instead of {}'.format(problem, want)
        return None

    def box_problem(scene):
        """the scene can be indexed, by boxes which hold the ends of the items"""
        if any(type(item).__name__ == 'PathItem' and not list(item) for item in scene):
            return None                  # an empty path has no box
        scene.update_rtree()
        for item in scene:
            box = item.bounding_box
            if type(item).__name__ in ('CircleItem', 'EllipseItem'):
                geometry = item.get_geometry()
                points = [geometry.point_at_angle(t) for t in (item.start_angle, (item.start_angle + item.stop_angle) / 2, item.stop_angle)]
            elif type(item).__name__ == 'PathItem':
                points = [item.casted_position] + [scene.cast_position(p) for s in item for p in (s.positions[-1:] if hasattr(s, 'positions') else [s.position])]
            else:
                points = [item.casted_positions[0], item.casted_positions[-1]]
            for p in points:
                if not (box.x.inf - 1e-6 <= p.x <= box.x.sup + 1e-6 and box.y.inf - 1e-6 <= p.y <= box.y.sup + 1e-6):
                    return 'has a {} whose point {} is out of its box {}'.format(type(item).__name__, p, box)
        return None

    def picture_problem(scene, row):
        """the ends of the marks on a picture of Qt"""
        # a segment of zero length is a dot
        if any(want['t'] == 'rectangle' or want['t'] == 'segment' and want['pts'][0] == want['pts'][1] for want in row['items']):
            return None
        ck.note('pictures')
        scene.bounding_box = Interval2D((-20, 20), (-20, 20))
        file = os.path.join(ck.tmp, 'picture.svg')
        QtPainter(scene).to_svg(file, scale=10)
        marks = painters.read_svg(file)[1]
        if len(marks) != len(row['items']):
            return 'is drawn with {} marks instead of {}'.format(len(marks), len(row['items']))
        for mark, want in zip(marks, row['items']):
            if want['t'] == 'path':
                subs = want['sub']
                if not subs:
                    continue
                ends = [(s['ends'][1 if s['rev'] else 0], s['ends'][0 if s['rev'] else 1]) if s['e'] else (s['pts'][0], s['pts'][-1]) for s in (subs[0], subs[-1])]
                ends = [ends[0][0], ends[1][1]]
            elif want['e']:
                ends = want['ends']
            elif want['t'] == 'polygon':
                ends = [want['pts'][0], want['pts'][0]]
            else:
                ends = [want['pts'][0], want['pts'][-1]]
            if not ends:
                continue
            got = [[c[-2] / 10, -c[-1] / 10] for c in (mark['cmds'][0], mark['cmds'][-1])]
            size = max(rat(want['e']['a']), rat(want['e']['b'])) if want['e'] else 0
            if any(math.dist(p, xy(q)) > 1e-3 + size * 3e-3 for p, q in zip(got, ends)):
                return 'is drawn from {} instead of {}'.format(got, [xy(p) for p in ends])
            if want['e']:
                cx, cy = xy(want['e']['center'])
                # counterclockwise: half of the arc is on the left of the chord, more or less
                points = [[c[-2] / 10 - cx, -c[-1] / 10 - cy] for c in mark['cmds']]
                cross = sum(u[0] * v[1] - u[1] * v[0] for u, v in zip(points, points[1:]))
                turn = sum(math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]) for u, v in zip(points, points[1:]))
                if cross < 0 or not 0 < turn < 2 * math.pi:
                    return 'is drawn on the wrong side of an arc {}'.format(want)
        return None

    def replay(case, rows):
        x, y = xy(case['offset'])
        scene = current[0] = GraphicScene(AffineTransformation2D.Translation(V(case['offset'])) if x or y or rng.random() < .5 else None)
        things, added = {}, {}
        for n, op in enumerate(case['ops'], 1):
            row = rows.get(n)
            op.setdefault('style', n % 3)
            if op['o'] == 'add':
                if row and row['res'] == 'undefined':
                    ck.note('undefined corner')
                    return
                ck.note(op['g']['t'])
                o = vf.outcome(add, scene, op['g'], op)
                if row and row['res'] == 'refused':
                    problem = None if o[0] == 'err' and o[1] in ('NotImplementedError', 'ValueError') else 'is not refused: {}'.format(o)
                elif o[0] != 'ok':
                    problem = 'is refused: {}'.format(o)
                else:
                    problem = None
                    things[n], added[n] = o[1]
                    if problem is None and row and [id(x) for x in added[n]] != [id(x) for x in scene if x.user_data is things[n]]:
                        problem = 'returns other items than those of the scene'
                if problem:
                    return 'an object {} {}'.format(op['g'], problem)
            elif op['o'] == 'move':
                thing = things.get(op['n'])
                if thing is not None and not isinstance(thing, list):
                    thing.apply_transformation(AffineTransformation2D.Translation(V(op['by'])))
            else:
                for item in added.pop(op['n'], ()):
                    scene.remove_item(item)
            if row:
                problem = vf.outcome(scene_problem, scene, row, case['ops'], things)
                problem = problem[1] if problem[0] == 'ok' else 'fails {}'.format(problem)
                if problem:
                    return 'a scene {}'.format(problem)
        problem = vf.outcome(box_problem, scene)
        problem = problem[1] if problem[0] == 'ok' else 'cannot be indexed {}'.format(problem)
        if not problem and row and rng.random() < .3:
            problem = vf.outcome(picture_problem, scene, row)
            problem = problem[1] if problem[0] == 'ok' else 'cannot be drawn {}'.format(problem)
        return 'a scene {}'.format(problem) if problem else None

    def check(case, rows):
        problem = replay(case, rows)
        ck.traces += 1
        if problem:
            ck.violation(problem, {'case': case, 'expected': rows})

    ################################################################################################

    def arc():
        if rng.random() < .3:
            return [], []
        d0 = rng.choice(directions)
        return d0, rng.choice([d for d in directions if d != d0])

    def thing():
        t = rng.random()
        if t < .3:
            g = None
            while g is None:
                g = tools.make(rng.choice(('lines', 'mixed')))
                while g['ops'] and g['ops'][-1][0] == 'clone':
                    g['ops'].pop()
                if not g['ops'] or all(o[0] in ('close', 'transform', 'clone', 'move') for o in g['ops']) or any(o[0] == 'move' for o in g['ops'][1:]):
                    g = None
            return {'t': 'path', 'whole': rng.random() < .4, **g}
        if t < .4:
            d = rng.choice((2, 3))
            return {'t': 'spline', 'degree': d, 'pts': [point() for _ in range(d + 1 + rng.randrange(4))]}
        if t < .5:
            return {'t': 'chain', 'degree': rng.choice((1, 2, 3, 3, 2, 4)), 'pts': [nonzero() for _ in range(rng.choice((1, 2, 3, 4, 5, 7)))]}
        if t < .7:
            d0, d1 = arc()
            g = {'t': rng.choice(('circle', 'ellipse')), 'center': point(), 'a': [rng.randrange(1, 8), 2], 'b': [rng.randrange(1, 8), 2], 'rot': rng.choice(directions), 'd0': d0, 'd1': d1}
            g['rev'] = g['t'] == 'ellipse' and rng.random() < .5
            return g
        t = rng.choice(list(classes) + ['line'])
        n = {'segment': 2, 'line': 2, 'rectangle': 2, 'quadratic': 3, 'cubic': 4, 'triangle': 3}.get(t) or rng.randrange(3, 6)
        while True:
            pts = [point() for _ in range(n)]
            if len(set(map(str, pts))) == n and (t != 'rectangle' or pts[0][0] != pts[1][0] and pts[0][1] != pts[1][1]):
                return {'t': t, 'pts': pts}

    def make():
        case = {'offset': rng.choice(([[0, 1], [0, 1]], [[3, 1], [-1, 2]])), 'ops': []}
        for n in range(1, rng.randrange(2, 7)):
            free = [m for m, op in enumerate(case['ops'], 1) if op['o'] == 'add']
            if free and rng.random() < .25:
                case['ops'].append({'o': rng.choice(('move', 'remove')), 'n': rng.choice(free), 'by': nonzero()})
            else:
                case['ops'].append({'o': 'add', 'g': thing(), 'style': rng.randrange(3)})
        return case

    # 1. every history of a bounded model
    depth = ck.pick(3, 4)
    res = ck.tlc('Added', {'Depth': depth}, init='ModelInit', next='ModelNext', invariants=('AddedLaws', 'EmitAll'), properties=('Apart',),
                 inputs=[{}], workers=8, timeout=ck.pick(300, 800), heap='8g')
    rows = {vf.freeze(row['h']): row for row in res.rows}
    ck.note('histories of the bounded model', len(rows))
    longest = [h for h, row in rows.items() if len(row['h']) == depth]
    ck.exhaustive.append('bounded model: histories of {} operations on a few objects'.format(depth))
    for h in rng.sample(longest, min(len(longest), ck.pick(1200, 12000))):
        ops = rows[h]['h']
        check({'offset': [[0, 1], [0, 1]], 'ops': [dict(op) for op in ops]}, {n: rows[vf.freeze(ops[:n])] for n in range(1, depth + 1)})
        if ck.full:
            return

    # 2. random histories
    cases = [make() for _ in range(ck.pick(1500, 15000))]
    res = ck.tlc('Added', {'Depth': 0}, init='AddedInit', next='AddedNext', invariants=('AddedLaws', 'EmitAll'), properties=('Apart',), inputs=cases, jobs=8)
    outs = {}
    for row in res.rows:
        outs.setdefault(row['i'], {})[row['k']] = row
    for j, case in enumerate(cases, 1):
        check(case, outs[j])
        if ck.full:
            return
    ck.samples += cases[:2]
    del application
