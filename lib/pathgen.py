"""Random paths and their commands on the real objects"""
import math
from types import SimpleNamespace

from geo import rat, rv, xy


def tools(rng):
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
    from Patro.GeometryEngine.Vector import Vector2D

    axes = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    directions = [[[x, 1], [y, 1]] for x, y in axes] + [
        [[sx * a, 5], [sy * b, 5]] for a, b in ((3, 4), (4, 3)) for sx in (1, -1) for sy in (1, -1)]

    def V(p):
        return Vector2D(*xy(p))

    def degrees(d):
        x, y = xy(d)
        return math.degrees(math.atan2(y, x))

    def turn(a, b):
        return (degrees(b) - degrees(a)) % 360

    ################################################################################################

    def transformation(op):
        cls = AffineTransformation2D if op[0] == 'translate' or rng.random() < .5 else Transformation2D
        name = op[0]
        if name == 'rotate':
            return cls.Rotation(degrees(op[1]))
        if name == 'mirror':
            return Transformation2D.Parity()
        if name == 'x_mirror':
            return Transformation2D.XReflection()
        if name == 'y_mirror':
            return Transformation2D.YReflection()
        if name == 'scale':
            k = rat(op[1])
            return cls.Scale(k, k)
        if name == 'translate':
            return AffineTransformation2D.Translation(V(op[1]))
        a = [rat(x) for x in op[1]]
        return Transformation2D(a)

    def transform(path, op):
        clone = rng.random() < .3
        if op[0] in ('mirror', 'x_mirror', 'y_mirror') and rng.random() < .5:
            res = getattr(path, op[0])(clone=clone)
        elif op[0] == 'rotate' and rng.random() < .5:
            res = path.rotate(degrees(op[1]), clone=clone)
        elif op[0] == 'scale' and rng.random() < .5:
            res = path.scale(rat(op[1]), clone=clone)
        else:
            res = path.transform(transformation(op), clone=clone)
        return res

    def radius(r):
        r = rat(r)
        return r * rng.choice((1, 1, -1)) if r else rng.choice((None, None, 0))

    def run(path, op):
        """Return the current path"""
        name, args = op[0], op[1:]
        if name == 'line':
            v, absolute, r = args
            v = V(v)
            if not absolute and not v.y and rng.random() < .5:
                path.horizontal_to(v.x, radius(r))
            elif not absolute and not v.x and rng.random() < .5:
                path.vertical_to(v.y, radius(r))
            else:
                path.line_to(v, radius(r), absolute=absolute)
        elif name == 'compass':
            direction, length, r = args
            length = rat(length) * (math.sqrt(2) if '_' in direction else 1)
            getattr(path, direction + '_to')(length, radius(r))
        elif name in ('absolute_x', 'absolute_y'):
            x, r = rat(args[0]), radius(args[1])
            axis = 'horizontal' if name == 'absolute_x' else 'vertical'
            if rng.random() < .5:
                getattr(path, 'absolute_{}_to'.format(axis))(x, r)
            else:
                getattr(path, axis + '_to')(x, r, absolute=True)
        elif name == 'quadratic':
            path.quadratic_to(V(args[0]), V(args[1]), absolute=args[2])
        elif name == 'cubic':
            path.cubic_to(V(args[0]), V(args[1]), V(args[2]), absolute=args[3])
        elif name == 'arc':
            a, b, rot, d0, d1, sweep, absolute = args
            p, q = (d0, d1) if sweep else (d1, d0)
            (px, py), (qx, qy) = xy(p), xy(q)
            a, b = rat(a), rat(b)
            offset = Vector2D(a * (qx - px), b * (qy - py)).rotate(degrees(rot))
            if absolute:
                offset = offset + (path.stop_segment.stop_point if len(path) else path.p0)
            path.arc_to(offset, a, b, degrees(rot), turn(d0, d1) > 180, sweep, absolute=absolute)
        elif name == 'close':
            r, start = radius(args[0]), rat(args[1])
            if start:
                path.close(r, start)
            else:
                path.close(r) if rng.random() < .5 else path.close(r, None)
        elif name == 'move':
            path.move_to(V(args[0]))
        elif name == 'transform':
            return transform(path, args[0])
        elif name == 'clone':
            return path.clone()
        elif name == 'rounded':
            w, h, r = (rat(x) for x in args)
            if w == h == 2 * r and rng.random() < .7:
                return Path2D.circle(path.p0, r)
            return Path2D.rounded_rectangle(path.p0, w, h, r)
        return path

    def point(n=5):
        return rv(rng.randrange(-n, n + 1), rng.randrange(-n, n + 1))

    def nonzero(n=5):
        while True:
            p = point(n)
            if p != rv(0, 0):
                return p

    zero = [0, 1]

    def make(kind):
        """kind: lines (with corners), mixed"""
        case = {'p0': point(4)}
        ops = []
        lines = kind == 'lines'
        corners = lines and rng.random() < .8
        arcs = False
        linear = True # only lines, no corner
        n = rng.randrange(1, 6)
        if lines and rng.random() < .15:
            w, h = rng.randrange(2, 7), rng.randrange(2, 7)
            r = [1, rng.choice((1, 2))]
            if rng.random() < .3:
                w = h = 2
                r = [1, 1]
            ops.append(['rounded', [w, 1], [h, 1], r])
            n = 0
            linear = False
        elif rng.random() < .15:
            ops.append(['move', point(4)])
        last = None # direction of the last part when it is a line
        first = None

        def r(direction):
            nonlocal linear
            if not corners or last is None or rng.random() < .3:
                if corners and last is None and rng.random() < .1:
                    linear = False
                    return [1, 2] # refused
                return zero
            cross = last[0] * direction[1] - last[1] * direction[0]
            if not cross:
                return zero
            linear = False
            return [1, rng.choice((1, 2, 4))]
        closed = False
        for _ in range(n):
            t = rng.random()
            if lines or t < .4:
                s = rng.random()
                if s < .5: # pythagorean
                    d = rng.choice(directions)
                    k = rng.choice((5, 5, 10)) if d[0][1] == 5 else rng.randrange(1, 6)
                    v = [d[0][0] * k // d[0][1], d[1][0] * k // d[1][1]]
                    x = r(v)
                    ops.append(['line', rv(*v), False, x])
                elif s < .7 and not corners:
                    ops.append(['line', nonzero(), rng.random() < .5, zero])
                    v = None
                elif s < .85 or corners:
                    name = rng.choice(('north', 'south', 'east', 'west', 'horizontal', 'vertical') if corners else
                                      ('north_east', 'north_west', 'south_east', 'south_west', 'north', 'horizontal', 'west'))
                    k = rng.randrange(1, 6) * rng.choice((1, 1, 1, -1))
                    v = {'north': (0, k), 'south': (0, -k), 'east': (k, 0), 'west': (-k, 0), 'horizontal': (k, 0),
                         'vertical': (0, k)}.get(name)
                    ops.append(['compass', name, [k, 1], r(v) if v else zero])
                else:
                    ops.append([rng.choice(('absolute_x', 'absolute_y')), [rng.randrange(-6, 7), 1], zero])
                    v = None
                if not corners:
                    v = None
                if ops[-1][-1] != zero and last is None: # refused
                    continue
                last = v
                first = first or (ops[-1], v)
            elif t < .6:
                ops.append(['quadratic', point(), nonzero(), rng.random() < .5])
                last = None
            elif t < .8:
                ops.append(['cubic', point(), point(), nonzero(), rng.random() < .5])
                last = None
            else:
                d0 = rng.choice(directions)
                d1 = rng.choice([d for d in directions if d != d0 and xy(d) != tuple(-x for x in xy(d0))])
                ops.append(['arc', [rng.randrange(1, 5), 1], [rng.randrange(1, 5), 1], rng.choice(directions), d0, d1,
                            rng.random() < .5, rng.random() < .5])
                last = None
                arcs = True
        if ops[0][0] != 'rounded' and rng.random() < .6 and any(o[0] != 'move' for o in ops):
            # the corners of the closure are defined when its sides are pythagorean, the specification decides
            start = zero
            if corners and rng.random() < .7:
                start = [1, 2]
                linear = False
            ops.append(['close', [1, 2] if corners and last and rng.random() < .6 else zero, start])
            linear = linear and ops[-1][1] == zero
            if rng.random() < .2:
                ops.append(['line', nonzero(), False, zero]) # ignored
        for _ in range(rng.randrange(0, 3)):
            t = rng.random()
            if t < .3:
                ops.append(['clone'])
            elif t < .5 and linear and not arcs:
                while True:
                    m = [rng.randrange(-2, 3) for _ in range(4)]
                    if m[0] * m[3] - m[1] * m[2]:
                        break
                ops.append(['transform', ['affine', [[x, 1] for x in m]]])
                linear = False # only once, and no similarity check of the type
                break
            else:
                ops.append(['transform', list(rng.choice((
                    ('rotate', rng.choice(directions)), ('mirror',), ('x_mirror',), ('y_mirror',),
                    ('scale', list(rng.choice(((2, 1), (1, 2), (-1, 1), (-2, 1))))), ('translate', point()))))])
        if ops[-1][0] != 'close' and rng.random() < .3 and not any(o[0] in ('close', 'rounded') for o in ops):
            ops.append(['line', nonzero(), rng.random() < .5, zero]) # draw after a transformation
        case['ops'] = ops
        return case

    return SimpleNamespace(**{name: value for name, value in locals().items() if name in (
        'V', 'degrees', 'turn', 'transform', 'run', 'point', 'nonzero', 'zero', 'make', 'directions')})
