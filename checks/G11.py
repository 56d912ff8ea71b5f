"""Circles, ellipses and angular domains"""
import math

import vf
from geo import rat, xy, same, rv, r, text


def main(ck):
    from Patro.GeometryEngine.Bezier import CubicBezier2D
    from Patro.GeometryEngine.Conic import AngularDomain, Circle2D, Ellipse2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng
    pythagoras = ((3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13))
    axes = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    simple = [[[x, 1], [y, 1]] for x, y in axes] + [
        [[sx * a, h], [sy * b, h]] for a, b, h in pythagoras[:2] for sx in (1, -1) for sy in (1, -1)]
    directions = simple + [[[sx * a, h], [sy * b, h]] for a, b, h in pythagoras[2:] for sx in (1, -1) for sy in (1, -1)]

    def V(p):
        return Vector2D(*xy(p))

    def degrees(d):
        x, y = xy(d)
        return math.degrees(math.atan2(y, x))

    def turn(a, b):
        """Angle to turn counterclockwise from a to b"""
        return (degrees(b) - degrees(a)) % 360

    def residual(e, p):
        """of a float point, with the frame of the specification"""
        cx, cy = xy(e['center'])
        c, s = xy(e['rot'])
        x, y = float(p[0]) - cx, float(p[1]) - cy
        return ((c * x + s * y) / rat(e['a'])) ** 2 + ((-s * x + c * y) / rat(e['b'])) ** 2 - 1

    def check_line(expect, shape, e, case, obs, exact):
        a, b = (V(p) for p in obs['ends'])
        points = shape.intersect_segment(Segment2D(a, b))
        if obs['n'] == 1 and not exact:
            return
        if obs['n'] == 0:
            expect('intersect_segment', not points, points)
            return
        expect('intersect_segment', points is not None and len(points) == obs['n'], points)
        p, q = points[0], points[-1]
        for x in points:
            expect('intersect_segment: not on the line', abs((b - a).cross(x - a)) < 1e-6, text(x))
            expect('intersect_segment: not on the conic', abs(residual(e, x)) < 1e-6, text(x))
        expect('intersect_segment: middle', same((p + q) / 2, obs['middle'], 1e-7), text((p + q) / 2))
        expect('intersect_segment: chord', vf.close((p - q).magnitude_square, rat(obs['chord2']), 1e-6), (text(p), text(q)))

    def check_circle(case, row, expect):
        e = case['e']
        radius = rat(e['a'])
        diameter = rng.random() < .2
        plain = Circle2D(V(e['center']), radius * 2, diameter=True) if diameter else Circle2D(V(e['center']), radius)
        start = degrees(case['d0'])
        span = turn(case['d0'], case['d1'])
        kind = rng.randrange(3)
        if kind == 0:
            domain = AngularDomain(start, start + span)
        elif kind == 1: # both angles in the same turn
            domain = AngularDomain(start % 360, (start + span) % 360)
        else:
            domain = AngularDomain(math.radians(start), math.radians(start + span), degrees=False)
        if span > 1e-9 and rng.random() < .2:
            arc = Circle2D(V(e['center']), radius, start_angle=start, distance=radius * math.radians(span))
        else:
            arc = Circle2D(V(e['center']), radius, domain)
        if rng.random() < .4:
            plain, arc = remade(plain), remade(arc)
        angle = degrees(case['q']) + rng.choice((0, 360, -360))
        for x in (plain, arc):
            expect('point_at_angle', same(x.point_at_angle(angle), row['at']), text(x.point_at_angle(angle)))
            expect('point_at_distance', same(x.point_at_distance(math.radians(angle) * radius), row['at']))
            tangent = x.tangent_at_angle(angle)
            expect('tangent_at_angle', same(tangent.p, row['at']) and vf.close(tangent.v.cross(V(row['tangent'])), 0) and
                   tangent.v.dot(V(row['tangent'])) > 0, text(tangent.v))
            got = x.angle_for_point(V(row['point']))
            expect('angle_for_point', min(d := (got - angle) % 360, 360 - d) < 1e-9 and 0 <= got <= 360, got)
            if row['inside']:
                expect('is_point_inside', bool(x.is_point_inside(V(case['p']))) == (row['inside'] < 0), xy(case['p']))
            expect('radius', vf.close(x.radius, radius) and vf.close(x.diameter, 2 * radius) and same(x.center, e['center']))
            d = rat(case['k']) - radius
            expect('signed_distance_to_point', vf.close(x.signed_distance_to_point(V(row['point'])), d))
            expect('eccentricity', x.eccentricity == 0)
        expect('closed', plain.is_closed and plain.start_point is None and plain.stop_point is None and not arc.is_closed)
        expect('perimeter', vf.close(plain.perimeter, 2 * math.pi * radius) and vf.close(plain.area, math.pi * radius ** 2))
        expect('perimeter of an arc', vf.close(arc.perimeter, math.radians(span) * radius, 1e-7), arc.perimeter)
        expect('large arc', not row['large'] or arc.perimeter > math.pi * radius)
        b = plain.bounding_box
        cx, cy = xy(e['center'])
        expect('bounding_box', all(vf.close(u, v) for u, v in zip(b.bounding_box, (cx - radius, cy - radius, cx + radius, cy + radius))), b)
        expect('bounding_box of an arc', all(vf.close(u, rat(v)) for u, v in zip(arc.bounding_box.bounding_box, row['box'])), (arc.bounding_box, row['box']))
        expect('start and stop', same(arc.start_point, row['ends'][0]) and same(arc.stop_point, row['ends'][1]),
               (text(arc.start_point), text(arc.stop_point)))
        expect('distance_to_point', vf.close(plain.distance_to_point(V(row['point'])), rat(row['distance'])))
        if case['q'] not in (case['d0'], case['d1']):
            expect('domain', bool(arc.domain.is_inside(angle)) == row['inarc'], (arc.domain, angle))
        d = rat(row['distance']) if row['inarc'] else math.sqrt(rat(row['ends2']))
        expect('distance_to_point of an arc', vf.close(arc.distance_to_point(V(row['point'])), d), arc.distance_to_point(V(row['point'])))
        expect('distance of the center', vf.close(arc.distance_to_point(V(e['center'])), radius))
        check_line(expect, plain, e, case, row['line'], True)
        o = row['circles']
        other = Circle2D(V(case['center2']), rat(case['radius2']))
        for first, second in ((plain, other), (other, plain)):
            points = first.intersect_circle(second)
            if o['n'] == 1 and not o['exact']:
                continue
            if o['n'] == 0:
                expect('intersect_circle', not points, points)
                continue
            expect('intersect_circle', points is not None and len(points) == o['n'], points)
            p, q = points[0], points[-1]
            expect('intersect_circle: middle', same((p + q) / 2, o['middle'], 1e-7), (text(p), text(q)))
            expect('intersect_circle: chord', vf.close((p - q).magnitude_square, rat(o['chord2']), 1e-6), (text(p), text(q)))
            for x in points:
                expect('intersect_circle: not on the circles', vf.close((x - first.center).magnitude, first.radius, 1e-7) and
                       vf.close((x - second.center).magnitude, second.radius, 1e-7), text(x))
        # by default a domain is the whole turn
        expect('default domain', vf.close(Circle2D(V(e['center']), radius, AngularDomain()).perimeter, 2 * math.pi * radius) and
               AngularDomain().is_closed and AngularDomain().is_inside(angle))
        # independence of a clone
        clone = arc.clone()
        clone.domain.start = arc.domain.start + 10
        clone.center = Vector2D(9, 9)
        clone.radius = 2 * radius
        expect('clone', same(arc.start_point, row['ends'][0]) and same(arc.center, e['center']) and vf.close(arc.radius, radius))
        expect('clone is changed', vf.close(clone.radius, 2 * radius) and
               vf.close((clone.start_point - clone.center).magnitude, 2 * radius))

    def remade(shape):
        """The same shape, made with other values which are read, then set one by one"""
        names = ('radius',) if isinstance(shape, Circle2D) else ('radius_x', 'radius_y', 'angle')
        domain = shape.domain
        scales = [rng.choice((.5, 1, 2, 3)) for _ in names]
        other = type(shape)(shape.center + Vector2D(rng.randrange(-3, 4), rng.randrange(-3, 4)),
                            *[getattr(shape, x) * k for x, k in zip(names, scales)],
                            domain=None if domain is None else AngularDomain(domain.start - rng.choice((0, 45)), domain.stop + rng.choice((0, 30))))

        def read():
            p = Vector2D(1, 2)
            for f in (lambda: other.bounding_box, lambda: other.perimeter, lambda: other.area, lambda: other.point_at_angle(33),
                      lambda: other.start_point, lambda: other.is_point_inside(p), lambda: other.distance_to_point(p), lambda: other.matrix(),
                      lambda: other.major_vector, lambda: other.eccentricity, lambda: other.to_bezier(), lambda: other.tangent_at_angle(3),
                      lambda: (other.domain.span, other.domain.length, other.domain.is_closed, other.domain.is_inside(3), other.domain.start_radians)):
                if rng.random() < .7:
                    vf.outcome(f)
        edits = [('center', shape.center)] + [(x, getattr(shape, x)) for x in names]
        if domain is not None:
            edits += [('start', domain.start), ('stop', domain.stop)]
        rng.shuffle(edits)
        read()
        for name, value in edits:
            setattr(other.domain if name in ('start', 'stop') else other, name, value)
            if rng.random() < .3:
                read()
        ck.note('remade')
        return other

    def ellipse(e, domain=None, other=False):
        angle = degrees(e['rot']) + rng.choice((0, 0, 360, -360))
        x = Ellipse2D(V(e['center']), rat(e['a']), rat(e['b']), angle, domain)
        return x

    def check_bezier(expect, shape, e, points, closed, sense=1):
        curves = shape.to_bezier()
        expect('to_bezier', curves and all(isinstance(x, CubicBezier2D) for x in curves), curves)
        expect('to_bezier ends', same(curves[0].p0, points[0]) and same(curves[-1].p3, points[1]),
               (text(curves[0].p0), text(curves[-1].p3)))
        total = 0
        for x, y in zip(curves, curves[1:]):
            expect('to_bezier joint', (x.p3 - y.p0).magnitude < 1e-9, (x, y))
        cx, cy = xy(e['center'])
        c, s = xy(e['rot'])
        previous = None
        for curve in curves:
            for k in range(9):
                p = curve.point_at_t(k / 8)
                expect('to_bezier point', abs(residual(e, p)) < 1e-3, text(p))
                x, y = float(p.x) - cx, float(p.y) - cy
                angle = math.atan2((-s * x + c * y) / rat(e['b']), (c * x + s * y) / rat(e['a']))
                if previous is not None:
                    d = (angle - previous + math.pi) % (2 * math.pi) - math.pi
                    expect('to_bezier sense', d * sense > -1e-9, text(p))
                    total += d
                previous = angle
        return math.degrees(total)

    def check_ellipse(case, row, expect):
        e = case['e']
        a, b = rat(e['a']), rat(e['b'])
        start = degrees(case['d0'])
        span = turn(case['d0'], case['d1'])
        domain = AngularDomain(start, start + span)
        plain = ellipse(e)
        arc = ellipse(e, domain)
        if rng.random() < .4:
            plain, arc = remade(plain), remade(arc)
        angle = degrees(case['q']) + rng.choice((0, 360, -360))
        for x in (plain, arc):
            expect('point_at_angle', same(x.point_at_angle(angle), row['at']), text(x.point_at_angle(angle)))
            expect('radii', vf.close(x.radius_x, a) and vf.close(x.radius_y, b) and same(x.center, e['center']))
        expect('point_in_ellipse_frame', same(plain.point_in_ellipse_frame(V(case['p'])), row['frame']))
        expect('point_from_ellipse_frame', same(plain.point_from_ellipse_frame(V(row['frame'])), case['p']))
        if row['inside'] and abs(rat(row['residual'])) > 1e-9:
            expect('is_point_inside', bool(plain.is_point_inside(V(case['p']))) == (row['inside'] < 0), xy(case['p']))
        # the matrix is that of the conic
        m = plain.matrix()
        x, y = xy(case['p'])
        value = sum(u * v * m[i, j] for i, u in enumerate((x, y, 1)) for j, v in enumerate((x, y, 1)))
        expect('matrix', vf.close(value, rat(row['residual']) * a * a * b * b, 1e-7) and
               all(m[i, j] == m[j, i] for i in range(3) for j in range(3)), m)
        ex, ey = (math.sqrt(rat(u)) for u in row['extent2'])
        cx, cy = xy(e['center'])

        def bounding_box():
            box = plain.bounding_box
            expect('bounding_box', all(vf.close(u, v) for u, v in zip(box.bounding_box, (cx - ex, cy - ey, cx + ex, cy + ey))), box)
        bounding_box()
        expect('eccentricity', vf.close(plain.eccentricity ** 2, 1 - (min(a, b) / max(a, b)) ** 2))
        major, minor = plain.major_vector, plain.minor_vector
        expect('axes', vf.close(major.magnitude, max(a, b)) and vf.close(minor.magnitude, min(a, b)) and
               vf.close(major.dot(minor), 0), (text(major), text(minor)))
        for v in (major, minor):
            expect('axes on the ellipse', abs(residual(e, (cx + v.x, cy + v.y))) < 1e-9, text(v))
        if row['known']:
            p = V(row['offset'])
            d = math.sqrt(rat(row['offset2']))
            expect('distance_to_point', vf.close(plain.distance_to_point(p), d, 1e-7), (text(p), plain.distance_to_point(p), d))
            got, q = plain.distance_to_point(p, return_point=True)
            expect('closest point', vf.close(got, d, 1e-7) and same(q, row['at'], 1e-6), (text(p), text(q)))
        p = V(row['axis'])
        d = math.sqrt(rat(row['axis2']))
        got, q = plain.distance_to_point(p, return_point=True)
        expect('distance_to_point of the axis', vf.close(got, d, 1e-7) and abs(residual(e, q)) < 1e-6 and
               vf.close((p - q).magnitude, d, 1e-6), (text(p), got, d, text(q)))
        expect('distance of the center', vf.close(plain.distance_to_point(V(e['center'])), min(a, b)))

        def check_distance(name, shape, p, d, on=None):
            """of a point of the plane, to an arc which goes the one way or the other"""
            if rng.random() < .5:
                shape = shape.clone()
                shape.domain = AngularDomain(start + span, start)
            got, q = shape.distance_to_point(p, return_point=True)
            expect(name, vf.close(got, d, 1e-7) and vf.close(shape.distance_to_point(p), d, 1e-7) and abs(residual(e, q)) < 1e-6 and
                   vf.close((p - q).magnitude, d, 1e-6) and (on is None or same(q, on, 1e-6)), (text(p), got, d, text(q)))
        check_distance('distance_to_point of an arc, from the axis', arc, V(row['axis']), math.sqrt(rat(row['axisarc2'])))
        if row['known'] and row['inarc'] and case['q'] not in (case['d0'], case['d1']):
            check_distance('distance_to_point of an arc', arc, V(row['offset']), math.sqrt(rat(row['offset2'])), row['at'])
        whole = ellipse(e, AngularDomain(start, start + 360))
        expect('distance_to_point of a whole turn', vf.close(whole.distance_to_point(V(row['axis'])), math.sqrt(rat(row['axis2'])), 1e-7))
        check_line(expect, plain, e, case, row['line'], False)
        expect('start and stop', same(arc.start_point, row['ends'][0]) and same(arc.stop_point, row['ends'][1]))
        box = arc.bounding_box.bounding_box
        if row['box']:
            expect('bounding_box of an arc', all(vf.close(u, rat(v)) for u, v in zip(box, row['box'])), box)
        for k in range(9):
            p = arc.point_at_angle(start + span * k / 8)
            expect('bounding_box of an arc', box[0] - 1e-9 <= p.x <= box[2] + 1e-9 and box[1] - 1e-9 <= p.y <= box[3] + 1e-9, (box, text(p)))
        expect('closed', plain.is_closed and plain.start_point is None and not arc.is_closed)
        if span > 1:
            got = check_bezier(expect, arc, e, row['ends'], False)
            expect('to_bezier span', abs(got - span) < 1e-3, (got, span))
        first = plain.point_at_angle(0)
        first = [[int(round(u * 2**20)), 2**20] for u in first]
        curves = plain.to_bezier()
        expect('to_bezier closed', (curves[0].p0 - curves[-1].p3).magnitude < 1e-9)
        got = check_bezier(expect, plain, e, [[[float(curves[0].p0.x), 1], [float(curves[0].p0.y), 1]]] * 2, True)
        expect('to_bezier closed span', abs(got - 360) < 1e-3, got)
        # independence of a clone, fresh derived quantities
        clone = arc.clone()
        clone.domain.stop = arc.domain.stop + 10
        clone.angle = plain.angle + 30
        clone.radius_x = 3 * a
        clone.center = Vector2D(9, 9)
        expect('clone', same(arc.stop_point, row['ends'][1]) and same(arc.point_at_angle(angle), row['at']))
        plain.center = V(e['center']) + Vector2D(2, -3)
        cx, cy = cx + 2, cy - 3
        bounding_box()
        plain.radius_x = plain.radius_y = a + b
        ex = ey = a + b
        bounding_box()

    def check_svg(case, row, expect):
        e = case['e']
        a, b = rat(e['a']), rat(e['b'])
        shrink = case['shrink'] if row['opposite'] else 1
        if row['opposite'] and shrink == 1:
            return # rounding decides which radii are large enough
        large = bool(row['large']) if not row['opposite'] else rng.random() < .5
        rx, ry = a * shrink * rng.choice((1, -1)), b * shrink * rng.choice((1, -1))
        sweep = case['sweep']
        arc = Ellipse2D.svg_arc(V(row['p1']), V(row['p2']), rx, ry, degrees(e['rot']) + rng.choice((0, 360, -180)), large, sweep)
        expect('svg_arc', isinstance(arc, Ellipse2D) and same(arc.center, e['center'], 1e-6), text(arc.center))
        expect('svg_arc radii', vf.close(arc.radius_x, a, 1e-7) and vf.close(arc.radius_y, b, 1e-7), (arc.radius_x, arc.radius_y))
        expect('svg_arc ends', same(arc.start_point, row['p1'], 1e-6) and same(arc.stop_point, row['p2'], 1e-6),
               (text(arc.start_point), text(arc.stop_point)))
        span = turn(case['d0'], case['d1']) * (1 if sweep else -1)
        expect('svg_arc span', vf.close(arc.domain.stop - arc.domain.start, span, 1e-6), arc.domain)
        got = check_bezier(expect, arc, e, (row['p1'], row['p2']), False, 1 if sweep else -1) if shrink == 1 else span
        expect('to_bezier span', abs(got - span) < 1e-3, (got, span))
        flat = Ellipse2D.svg_arc(V(row['p1']), V(row['p2']), *rng.choice(((0, ry), (rx, 0), (0, 0))), 10, large, sweep)
        expect('svg_arc without radius', isinstance(flat, Segment2D) and same(flat.p0, row['p1']) and same(flat.p1, row['p2']), flat)

    def transformation(op):
        affine = rng.random() < .5
        cls = AffineTransformation2D if affine else Transformation2D
        if op[0] == 'rotate':
            return cls.Rotation(degrees(op[1]))
        if op[0] == 'scale':
            return cls.Scale(rat(op[1]), rat(op[1]))
        if op[0] == 'translate':
            return AffineTransformation2D.Translation(V(op[1]))
        sx, sy = {'mirror': (-1, -1), 'x_mirror': (-1, 1), 'y_mirror': (1, -1)}[op[0]]
        return cls.Scale(sx, sy)

    def check_move(case, row, expect):
        e = case['e']
        start = degrees(row['d0'])
        domain = AngularDomain(start, start + turn(row['d0'], row['d1']))
        a, b = rat(e['a']), rat(e['b'])
        round_ = e['a'] == e['b'] and e['rot'] == [[1, 1], [0, 1]]
        shape = Circle2D(V(e['center']), a, domain) if round_ else ellipse(e, domain)
        original = shape.clone()
        shape.bounding_box
        shape.apply_transformation(transformation(case['op']))
        k = abs(rat(case['op'][1])) if case['op'][0] == 'scale' else 1
        expect('center', same(shape.center, row['center']), text(shape.center))
        expect('radii', vf.close(shape.radius, k * a) if round_ else
               vf.close(shape.radius_x, k * a) and vf.close(shape.radius_y, k * b), shape)
        ends = shape.start_point, shape.stop_point
        expect('ends', any(same(p, x) and same(q, y) for p, q in (ends, ends[::-1]) for x, y in (row['ends'],)),
               [text(p) for p in ends])
        d = shape.domain
        middle = shape.point_at_angle((d.start + d.stop) / 2)
        expect('middle', same(middle, row['middle']), text(middle))
        opposite = shape.point_at_angle((d.start + d.stop) / 2 + 180)
        expect('opposite', same(opposite, row['opposite']), text(opposite))
        expect('span', vf.close(abs(d.stop - d.start), domain.span), d)
        for x, y in ((original.start_point, shape), (original.center, shape)):
            expect('original', x is not None and original.domain.span == domain.span)
        if round_:
            for p, inside in ((row['middle'], True), (row['opposite'], False)):
                expect('arc', bool(d.is_inside(shape.angle_for_point(V(p)))) == inside, d)
        else:
            # shear is refused and changes nothing
            before = repr(shape), repr(shape.domain)
            expect('shear', vf.outcome(shape.apply_transformation, Transformation2D.Scale(2, 3))[0] == 'err' and
                   (repr(shape), repr(shape.domain)) == before)

    def check_domain(case, row, expect):
        start, stop = case['start'], case['stop']
        d = AngularDomain(start, stop)
        expect('start, stop', d.start == start and d.stop == stop and vf.close(d.start_radians, math.radians(start)) and
               vf.close(d.stop_radians, math.radians(stop)))
        expect('is_null', bool(d.is_null) == (start == stop))
        expect('span', d.span == abs(stop - start))
        expect('is_closed', bool(d.is_closed) == row['closed'] and bool(d.is_over_closed) == row['over'])
        expect('sense', bool(d.is_counterclockwise) == (start <= stop) and bool(d.is_clockwise) == (stop < start))
        expect('length', vf.close(d.length, math.radians(row['length'])), d.length)
        for x, inside in zip(case['at'], row['inside']):
            expect('is_inside', bool(d.is_inside(x)) == inside, x)
        other = AngularDomain(math.radians(start), math.radians(stop), degrees=False)
        expect('radians', vf.close(other.start, start) and vf.close(other.stop, stop))
        clone = d.clone()
        clone.start += 1
        expect('clone', d.start == start and clone.stop == stop)

    checks = {'circle': check_circle, 'ellipse': check_ellipse, 'svg': check_svg, 'move': check_move, 'domain': check_domain}

    ################################################################################################

    def point(k=6, d=1):
        return rv(*((rng.randrange(-k, k + 1), d) if d > 1 else rng.randrange(-k, k + 1) for _ in range(2)))

    def line(a, b):
        """in the frame of the conic"""
        while True:
            if rng.random() < .3: # tangent
                s = rng.choice((-1, 1))
                if rng.random() < .5:
                    p = [[s * a, rng.randrange(-4, 5)], [s * a, rng.randrange(-4, 5)]]
                else:
                    p = [[rng.randrange(-4, 5), s * b], [rng.randrange(-4, 5), s * b]]
            else:
                p = [[rng.randrange(-4, 5) for _ in range(2)] for _ in range(2)]
            if p[0] != p[1]:
                return [rv(*x) for x in p]

    one = [[1, 1], [0, 1]]

    def make(kind):
        center = (rng.randrange(-3, 4), rng.randrange(-3, 4))
        case = {'kind': kind}
        if kind == 'domain':
            k = rng.choice((30, 45, 1))
            case['start'], case['stop'] = (rng.randrange(-500, 800) // k * k for _ in range(2))
            case['at'] = [rng.randrange(-800, 800) // k * k for _ in range(6)] + [case['start'], case['start'] + 360, case['start'] - 720]
            return case
        a = rng.randrange(1, 5)
        if kind == 'circle':
            case['e'] = {'center': rv(*center), 'a': [a, 1], 'b': [a, 1], 'rot': one}
            case.update(d0=rng.choice(simple), d1=rng.choice(simple), q=rng.choice(simple),
                        k=list(r((rng.randrange(1, 15), 2))), p=point(12, 2), line=line(a, a))
            while case['d0'] == case['d1']:
                case['d1'] = rng.choice(simple)
            if rng.random() < .3:
                case['q'] = rng.choice((case['d0'], case['d1']))
            b = rng.randrange(1, 5)
            if rng.random() < .5: # tangent
                v = rng.choice(((1, 0), (0, 1), (-1, 0), (0, -1)))
                k = rng.choice((a + b, abs(a - b)))
                c2 = (center[0] + v[0] * k, center[1] + v[1] * k)
            else:
                c2 = (rng.randrange(-5, 6), rng.randrange(-5, 6))
            case.update(center2=rv(*c2), radius2=[b, 1])
            return case
        b = rng.randrange(1, 5)
        rot = rng.choice(simple)
        if kind == 'move' and rng.random() < .4:
            b, rot = a, one
        case['e'] = {'center': rv(*center), 'a': [a, 1], 'b': [b, 1], 'rot': rot}
        if kind == 'ellipse':
            case.update(d0=rng.choice(simple), d1=rng.choice(simple), q=rng.choice(simple),
                        k=list(rng.choice(((-1, 4), (-1, 8), (-1, 2), (1, 8), (1, 2), (1, 1), (2, 1)))),
                        p=point(6), line=line(a, b))
            while case['d0'] == case['d1']:
                case['d1'] = rng.choice(simple)
        elif kind == 'svg':
            case.update(d0=rng.choice(directions), d1=rng.choice(directions), sweep=rng.random() < .5, shrink=1)
            while case['d0'] == case['d1']:
                case['d1'] = rng.choice(directions)
            if rng.random() < .2:
                case['d1'] = [[-x[0], x[1]] for x in case['d0']]
                case['shrink'] = rng.choice((.9, .5, .1))
        else:
            h = rng.choice([d for d in directions if d[1][0] > 0])
            case.update(m=rng.choice(simple), h=h)
            op = rng.choice((('rotate', rng.choice(simple)), ('mirror',), ('x_mirror',), ('y_mirror',),
                             ('scale', list(rng.choice(((2, 1), (1, 2), (3, 1), (-1, 1), (-2, 1))))), ('translate', point())))
            case['op'] = list(op)
        return case

    cases = []
    n = ck.pick(500, 6000)
    for kind in checks:
        cases += [make(kind) for _ in range(n)]
    inputs = [{k: v for k, v in c.items() if k != 'shrink'} for c in cases]
    rows = ck.tlc('Conics', init='CaseInit', invariants=('Laws',), constraint='Emit', inputs=inputs, jobs=8).rows
    for row in rows:
        case = cases[row['i'] - 1]
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        o = vf.outcome(checks[case['kind']], case, row, expect)
        if o[0] != 'ok':
            bad.append(str(o[1:]))
        ck.traces += 1
        ck.note(case['kind'])
        if bad:
            ck.violation('{} {}: {}'.format(case['kind'], {k: v for k, v in case.items() if k != 'kind'}, '; '.join(bad[:4])),
                         {'case': case, 'expected': row})
            if ck.full:
                return
    ck.samples += cases[:2]
    ck.assumptions.append('A circular arc is counterclockwise from start to stop; an elliptic arc made from an SVG arc follows its sweep.')
