"""DXF files read as geometric objects"""
import math
import os

import pathgen
import vf
from geo import rat, xy


def main(ck):
    import ezdxf
    from Patro.FileFormat.Dxf.Importer import DxfImporter
    from Patro.FileFormat.Dxf.Polyline import Polyline
    from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Spline import BSpline2D
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene

    rng = ck.rng
    tools = pathgen.tools(rng)
    degrees, point, nonzero, directions = tools.degrees, tools.point, tools.nonzero, tools.directions
    style = GraphicPathStyle(stroke_color='red', line_width=1)

    def write(entities, file):
        document = ezdxf.new(rng.choice(('R2000', 'R2004', 'R2010', 'R2018')), units=rng.choice((0, 4, 6)))
        space = document.modelspace()
        z = rng.choice((0, 0, 3))
        for e in entities:
            t = e['t']
            attributes = {'layer': rng.choice(('0', 'A')), 'color': rng.randrange(1, 8)}
            if e.get('below'):
                attributes['extrusion'] = (0, 0, -1)
            place = lambda p: (*xy(p), z)
            if t in ('ARC', 'ELLIPSE') and e['d0']:
                a0 = degrees(e['d0']) % 360
                a1 = degrees(e['d1']) % 360
                if a1 <= a0 and rng.random() < .5:
                    a1 += 360
            if t == 'LINE':
                space.add_line(*(place(p) for p in e['pts']), attributes)
            elif t == 'CIRCLE':
                space.add_circle(place(e['center']), rat(e['a']), attributes)
            elif t == 'ARC':
                space.add_arc(place(e['center']), rat(e['a']), a0, a1, dxfattribs=attributes)
            elif t == 'ELLIPSE':
                x, y = xy(e['rot'])
                a = rat(e['a'])
                axis = (a * x, a * y)
                if e['d0']:
                    space.add_ellipse(place(e['center']), axis, rat(e['ratio']), math.radians(a0), math.radians(a1), attributes)
                elif rng.random() < .5:
                    space.add_ellipse(place(e['center']), axis, rat(e['ratio']), dxfattribs=attributes)
                else:
                    space.add_ellipse(place(e['center']), axis, rat(e['ratio']), 0, 2 * math.pi, attributes)
            elif t == 'LWPOLYLINE':
                points = [(*xy(p), rat(b)) for p, b in zip(e['pts'], e['bulges'])]
                if rng.random() < .5:
                    space.add_lwpolyline(points, format='xyb', close=e['closed'], dxfattribs=attributes)
                else:
                    space.add_lwpolyline([(x, y, .5, .25, b) for x, y, b in points], close=e['closed'], dxfattribs=attributes)
            elif t == 'SPLINE':
                points = [place(p) for p in e['pts']]
                spline = space.add_open_spline(points, e['degree'], dxfattribs=attributes)
                if e['knots']:
                    spline.knots = [rat(x) for x in e['knots']]
                spline.closed = e['closed']
            elif t == 'TEXT':
                space.add_text('text', dxfattribs=attributes)
            elif t == 'POINT':
                space.add_point((1, 2), attributes)
            elif t == 'INSERT':
                block = document.blocks.new('B{}'.format(len(document.blocks)))
                block.add_line((0, 0), (1, 1))
                space.add_blockref(block.name, (1, 2))
        if rng.random() < .3:
            # the sheet is not the drawing
            document.layout('Layout1').add_line((0, 0), (1, 1))
        document.saveas(file, fmt='bin' if rng.random() < .2 else 'asc')

    ################################################################################################

    def near(p, q, tol=1e-6):
        return math.dist((p.x, p.y), q) < tol

    def conic_problem(x, want):
        cls = {'circle': Circle2D, 'ellipse': Ellipse2D}[want['t']]
        if not isinstance(x, cls):
            return 'is a {}'.format(type(x).__name__)
        e = want['e']
        (cx, cy), (c, s), a, b = xy(e['center']), xy(e['rot']), rat(e['a']), rat(e['b'])
        if not near(x.center, (cx, cy)):
            return 'has the center {}'.format(x.center)
        if want['t'] == 'circle' and abs(x.radius - a) > 1e-6:
            return 'has the radius {}'.format(x.radius)

        def residual(p):
            u, v = p.x - cx, p.y - cy
            return math.hypot((c * u + s * v) / a, (c * v - s * u) / b) - 1

        for t in range(0, 360, 30):
            if abs(residual(x.point_at_angle(t))) > 1e-6:
                return 'goes by {}'.format(x.point_at_angle(t))
        domain = x.domain
        if not want['ends']:
            return None if domain is None or domain.is_closed else 'is an arc {}'.format(domain)
        if domain is None:
            return 'is not an arc'
        stop = domain.stop + (360 if domain.stop < domain.start else 0)
        if not 0 < stop - domain.start < 360:
            return 'is an arc {}'.format(domain)
        if want['t'] == 'ellipse' and domain.stop < domain.start:
            return 'is clockwise: {}'.format(domain)
        for p, q in zip((x.point_at_angle(domain.start), x.point_at_angle(stop)), want['ends']):
            if not near(p, xy(q)):
                return 'has the end {} instead of {}'.format(p, xy(q))
        return None

    def arc_problem(x, part):
        if not isinstance(x, Circle2D):
            return 'is a {}'.format(type(x).__name__)
        if not near(x.center, xy(part['center'])) or not vf.close(x.radius, math.sqrt(rat(part['r2'])), 1e-6):
            return 'has the center {} and the radius {}'.format(x.center, x.radius)
        start, stop = x.domain.start, x.domain.stop
        if stop < start:
            stop += 360
        got = [x.point_at_angle(t) for t in (start, (start + stop) / 2, stop)]
        pts = part['pts'] if part['b'][0] > 0 else part['pts'][::-1]
        if not all(near(p, xy(q)) for p, q in zip(got, pts)) or not 0 < stop - start < 360:
            return 'goes by {}'.format([str(p) for p in got])
        return None

    def vertex_problem(want):
        """the same polyline, vertex by vertex"""
        parts = want['parts']
        p = Polyline(closed=want['closed'])
        for part in parts:
            p.add(Vector2D(*xy(part['pts'][0])), bulge=rat(part['b']))
        if not want['closed']:
            p.add(Vector2D(*xy(parts[-1]['pts'][-1])))
        n = len(p)
        for k, (vertex, part) in enumerate(zip(p, parts)):
            a, z = xy(part['pts'][0]), xy(part['pts'][-1])
            before = p[k - 1] if k or want['closed'] else None
            if not near(vertex.point, a) or not near(vertex.next.point, z) or vertex.prev is not before:
                return 'has a vertex from {} to {}'.format(vertex.prev, vertex.next)
            chord = Vector2D(*z) - Vector2D(*a)
            if not near(vertex.segment_vector, (chord.x, chord.y)) or abs(vertex.demi_chord - chord.magnitude / 2) > 1e-6:
                return 'has the chord {} {}'.format(vertex.segment_vector, vertex.demi_chord)
            if part['t'] == 'segment':
                if (vertex.sagitta, vertex.bulge_radius, vertex.sagitta_dual) != (0, 0, 0):
                    return 'has a radius on the side {}'.format(part)
                continue
            # at the left of the chord
            middle = Vector2D(*((u + v) / 2 for u, v in zip(a, z)))
            left = chord.normal / chord.magnitude
            far, center = ((Vector2D(*xy(q)) - middle).dot(left) for q in (part['pts'][1], part['center']))
            sign = 1 if part['b'][0] > 0 else -1
            if abs(vertex.sagitta + far) > 1e-6 or abs(vertex.sagitta_dual - center) > 1e-6 or \
               abs(vertex.bulge_radius - sign * math.sqrt(rat(part['r2']))) > 1e-6:
                return 'has the sagitta {} {} and the radius {} on {}'.format(vertex.sagitta, vertex.sagitta_dual, vertex.bulge_radius, part)
        if not want['closed'] and (p[n - 1].next is not None or not p.is_last_index(n - 1)):
            return 'goes on after its last vertex'
        return None

    def problem_of(x, want):
        if want['t'] == 'segment':
            if not isinstance(x, Segment2D) or not (near(x.p0, xy(want['pts'][0])) and near(x.p1, xy(want['pts'][1]))):
                return 'is {}'.format(x)
            return None
        if want['t'] in ('circle', 'ellipse'):
            return conic_problem(x, want)
        if want['t'] == 'polyline':
            x = list(x)
            if len(x) != len(want['parts']):
                return 'has {} parts'.format(len(x))
            problem = vertex_problem(want)
            if problem:
                return problem
            for got, part in zip(x, want['parts']):
                problem = problem_of(got, part) if part['t'] == 'segment' else arc_problem(got, part)
                if problem:
                    return 'has a part which {} instead of {}'.format(problem, part)
            return None
        # spline
        if not isinstance(x, BSpline2D) or bool(x.is_closed) != want['closed']:
            return 'is {}'.format(x)
        if len(list(x.points)) != len(want['pts']) or not all(near(p, xy(q)) for p, q in zip(x.points, want['pts'])):
            return 'has the points {}'.format(list(x.points))
        # each part begins, goes on and ends at the knots
        knots = sorted(set(x.knots))
        if len(knots) != len(want['parts']) + 1:
            return 'has the knots {}'.format(x.knots)
        for t0, t1, part in zip(knots, knots[1:], want['parts']):
            for t in (0, .25, .5, .75) if t1 < knots[-1] else (0, .25, .5, .75, 1):
                p = x.point_at_t(t0 * (1 - t) + t1 * t)
                if not near(p, casteljau([xy(q) for q in part], t)):
                    return 'goes by {} instead of {}'.format(p, casteljau([xy(q) for q in part], t))
        if want['uniform']:
            curves = list(x.to_bezier())
            if len(curves) != len(want['parts']):
                return 'has {} curves'.format(len(curves))
            for curve, part in zip(curves, want['parts']):
                points = list(curve.points)
                if len(points) != len(part) or not all(near(p, xy(q)) for p, q in zip(points, part)):
                    return 'has the curve {} instead of {}'.format(curve, part)
        return None

    def casteljau(points, t):
        while len(points) > 1:
            points = [[a * (1 - t) + b * t for a, b in zip(p, q)] for p, q in zip(points, points[1:])]
        return points[0]

    def flat(x):
        return [x] if not isinstance(x, list) else [z for y in x for z in flat(y)]

    def scene_problem(importer, items):
        """the arcs added to a scene are counterclockwise and less than a turn"""
        scene = GraphicScene()
        for x, want in zip(importer, items):
            for y, part in zip(flat(x), want['parts'] if want['t'] == 'polyline' else [want]):
                if part.get('t') == 'spline' and not part['uniform']:
                    continue
                item = scene.add_geometry(y, style)
                if type(item).__name__ not in ('CircleItem', 'EllipseItem'):
                    continue
                ends = part['ends'] if 'ends' in part else [part['pts'][0], part['pts'][2]][::1 if part['b'][0] > 0 else -1]
                span = item.stop_angle - item.start_angle
                if not ends:
                    if span != 360:
                        return 'gives an arc {} {}'.format(item.start_angle, item.stop_angle)
                    continue
                if not 0 < span < 360:
                    return 'gives the arc {} {} for {}'.format(item.start_angle, item.stop_angle, part)
                geometry = item.get_geometry()
                for t, q in zip((item.start_angle, item.stop_angle), ends):
                    if not near(geometry.point_at_angle(t), xy(q)):
                        return 'gives an arc which ends at {} instead of {}'.format(geometry.point_at_angle(t), xy(q))
        return None

    def replay(entities, items):
        file = os.path.join(ck.tmp, 'file.dxf')
        write(entities, file)
        importer = DxfImporter(file)
        got = list(importer)
        if len(importer) != len(items) or len(got) != len(items):
            return 'gives {} objects instead of {}'.format(len(got), len(items))
        for n, (x, want) in enumerate(zip(got, items)):
            if importer[n] is not x:
                return 'has another object at {}'.format(n)
            problem = problem_of(x, want)
            if problem:
                return 'gives an object which {} instead of {}'.format(problem, want)
        return scene_problem(importer, items)

    def check(entities, items):
        for e in entities:
            ck.note(e['t'])
        o = vf.outcome(replay, entities, items)
        ck.traces += 1
        problem = o[1] if o[0] == 'ok' else 'cannot be read: {}'.format(o)
        if problem:
            ck.violation('a file {}'.format(problem), {'entities': entities, 'expected': items})

    ################################################################################################

    bulges = [[0, 1], [0, 1], [0, 1], [1, 1], [-1, 1], [1, 2], [-1, 2], [2, 1], [-3, 1], [3, 4], [-1, 4], [1, 10]]

    def entity():
        e = entity_()
        if e['t'] in ('CIRCLE', 'ARC', 'ELLIPSE', 'LWPOLYLINE'):
            e['below'] = rng.random() < .2
        return e

    def entity_():
        t = rng.choice(('LINE', 'CIRCLE', 'ARC', 'ARC', 'ELLIPSE', 'ELLIPSE', 'LWPOLYLINE', 'LWPOLYLINE', 'LWPOLYLINE', 'SPLINE', 'SPLINE', 'TEXT', 'POINT', 'INSERT'))
        e = {'t': t}
        if t == 'LINE':
            e['pts'] = [point(), point()]
        elif t in ('CIRCLE', 'ARC', 'ELLIPSE'):
            d0, d1 = rng.sample(directions, 2)
            e.update(center=point(), a=[rng.randrange(1, 8), 2], d0=d0, d1=d1)
            if t == 'CIRCLE' or t == 'ELLIPSE' and rng.random() < .4:
                e.update(d0=[], d1=[])
            if t == 'ELLIPSE':
                e.update(ratio=rng.choice(([1, 2], [3, 4], [1, 3], [1, 1])), rot=rng.choice(directions))
        elif t == 'LWPOLYLINE':
            pts = [point()]
            while len(pts) < rng.randrange(2, 7):
                p = point()
                if p not in pts:
                    pts.append(p)
            e.update(pts=pts, bulges=[rng.choice(bulges) for _ in pts], closed=rng.random() < .5)
            if rng.random() < .15:
                # a vertex twice
                n = rng.randrange(len(pts))
                pts.insert(n, pts[n])
                e['bulges'].insert(n, [0, 1])
        elif t == 'SPLINE':
            d = rng.choice((2, 3, 3))
            n = d + 1 + rng.randrange(4)
            e.update(degree=d, pts=[point() for _ in range(n)], closed=False, knots=[])
            if rng.random() < .6:
                # any knots, clamped
                inner = sorted(rng.choice(range(1, 7)) for _ in range(n - d - 1))
                while any(inner.count(x) > d for x in inner):
                    inner = sorted(rng.choice(range(1, 7)) for _ in range(n - d - 1))
                e['knots'] = [[x, 1] for x in [0] * (d + 1) + inner + [7] * (d + 1)]
            if rng.random() < .2:
                e['pts'][-1] = e['pts'][0]
                e['closed'] = True
        return e

    # 1. every file of a bounded model
    depth = ck.pick(2, 3)
    res = ck.tlc('DxfFile', {'Depth': ck.pick(1, 2)}, init='ModelInit', next='ModelNext', invariants=('DxfLaws', 'EmitEnd'), properties=('Kept',), inputs=[{}], workers=8,
                 timeout=ck.pick(300, 800), heap='8g')
    rows = list(res.rows)
    ck.note('files of the bounded model', len(rows))
    ck.exhaustive.append('bounded model: files of {} of the entities of a list'.format(ck.pick(1, 2)))
    for row in rows if len(rows) < 1000 else rng.sample(rows, ck.pick(300, 3000)):
        check(row['h'], row['items'])
        if ck.full:
            return

    # 2. random files
    cases = [{'entities': [entity() for _ in range(rng.randrange(1, 9))]} for _ in range(ck.pick(400, 4000))]
    res = ck.tlc('DxfFile', {'Depth': depth}, init='DxfInit', next='DxfNext', invariants=('DxfLaws', 'EmitEnd'), properties=('Kept',), inputs=cases, jobs=8)
    outs = {row['i']: row for row in res.rows}
    for j, case in enumerate(cases, 1):
        check(case['entities'], outs[j]['items'])
        if ck.full:
            return
    ck.samples += cases[:2]
