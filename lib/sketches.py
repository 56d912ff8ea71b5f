"""Random parametric sketches: cases for Sketch.tla and the calls which build them in the code.

The generator follows the positions with exact rationals only to choose operations which are defined and small enough for
the 32 bit integers of TLC; the expected results come from the specification.
"""
import math
from fractions import Fraction as F

from M01 import num, render

AXES = [(1, 0), (0, 1), (-1, 0), (0, -1)]
TRIPLES = [(3, 4, 5), (4, 3, 5)]
POINTS = ['A', 'A1', 'A10', 'Ap', 'B', 'AB', 'Line', 'Spl', 'x', 'A2', 'B1', 'C', 'D', 'E', 'Hc', 'Ip', 'Kpp']
MEASUREMENTS = {'waist': 'waist', 'waist_arc': 'waist_arc', 'C_tour': '@tour', 'C_tour_2': '@tour_2', 'a_Line_A': 'a_Line_A', 'turn': 'turn'}


def root(x):
    """exact square root or None"""
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return F(a, b) if a * a == x.numerator and b * b == x.denominator else None


def rational(x):
    return [x.numerator, x.denominator]


def small(x):
    return abs(x) <= 30 and 10 % x.denominator == 0


class Generator:

    def __init__(self, rng, contact=True, styles=None, colors=None, refused=.04, names=None):
        self.rng = rng
        self.contact = contact
        self.styles = styles
        self.colors = colors
        self.refused = refused
        self.names = names or POINTS

    def generate(self, n, ms=None):
        rng = self.rng
        self.at = {}   # usable points
        self.all = []  # names
        self.free = rng.sample(self.names, len(self.names))
        self.ms = dict(ms or {})
        for name in rng.sample(list(MEASUREMENTS), rng.randrange(0, 4)) if ms is None else ():
            self.ms[name] = F(rng.choice((90, 180, -90))) if name == 'turn' else F(rng.randrange(1, 25), rng.choice((1, 1, 2, 5)))
        ops = []
        while len(ops) < n:
            op = None
            if self.contact and len(self.at) > 2 and rng.random() < .1:
                # few lines and circles meet at rational points
                for _ in range(60):
                    op = self.operation('contact')
                    if op is not None:
                        break
            if op is None:
                op = self.operation()
            if op is not None:
                op['label'] = [rng.choice((0, 0, 1, -1, .5, 0.132292, -2.25)), rng.choice((0, 0, 1, .25, 0.264583, -1.5))]
                if self.styles:
                    if op['t'] in ('along', 'end', 'normal'):
                        op['style'] = rng.choice([None] + self.styles)
                        op['color'] = rng.choice([None] + self.colors)
                    elif op['t'] in ('line', 'spline'):
                        op['style'] = rng.choice(self.styles) if op['t'] == 'line' else None
                        op['color'] = rng.choice(self.colors)
                ops.append(op)
        return {'ms': [{'n': k, 'v': rational(v)} for k, v in self.ms.items()], 'ops': ops}

    ##############################################

    def pairs(self):
        out = []
        for p, (x0, y0) in self.at.items():
            for q, (x1, y1) in self.at.items():
                d = root((x1 - x0)**2 + (y1 - y0)**2)
                if d:
                    out.append((p, q, d))
        return out

    def length(self, pairs, cur=None, positive=False):
        """(expression, value)"""
        rng = self.rng
        for _ in range(20):
            t = rng.random()
            atoms = []
            for _ in range(2):
                s = rng.random()
                if cur is not None and s < .4:
                    atoms.append(({'k': 'cur'}, cur))
                elif pairs and s < .6:
                    p, q, d = rng.choice(pairs)
                    atoms.append(({'k': 'line', 'p': p, 'q': q}, d))
                elif self.ms and s < .8:
                    n = rng.choice(list(self.ms))
                    atoms.append(({'k': 'ref', 'n': n}, self.ms[n]))
                else:
                    v = F(rng.randrange(-4, 16), rng.choice((1, 1, 2, 5)))
                    atoms.append((num(v.numerator, v.denominator), v))
            (a, x), (b, y) = atoms
            if t < .45:
                e, v = a, x
            elif t < .6:
                e, v = {'k': 'add', 'a': a, 'b': b}, x + y
            elif t < .75:
                e, v = {'k': 'sub', 'a': a, 'b': b}, x - y
            elif t < .85:
                k = rng.choice((2, 2, 5))
                e, v = {'k': 'div', 'a': a, 'b': num(k)}, x / k
            elif t < .95:
                e, v = {'k': 'mul', 'a': a, 'b': num(3, 2)}, x * F(3, 2)
            else:
                e, v = {'k': 'neg', 'a': a}, -x
            if small(v) and (not positive or v > 0):
                return e, v
        return num(2), F(2)

    def angle(self, pairs, simple=False):
        """(expression, unit vector)"""
        rng = self.rng
        t = rng.random()
        if t < .4 or simple:
            k = rng.randrange(-2, 6)
            e, v = num(90 * k), AXES[k % 4]
        elif t < .6:
            a, b, d = rng.choice(TRIPLES)
            c, s = F(rng.choice((a, -a)), d), F(rng.choice((b, -b)), d)
            e, v = {'k': 'dir', 'd': [rational(c), rational(s)]}, (c, s)
        elif t < .8 and pairs:
            p, q, d = rng.choice(pairs)
            e, v = {'k': 'angle', 'p': p, 'q': q}, tuple((b - a) / d for a, b in zip(self.at[p], self.at[q]))
        elif t < .9 and 'turn' in self.ms:
            e, v = {'k': 'ref', 'n': 'turn'}, AXES[int(self.ms['turn'] / 90) % 4]
        else:
            k = rng.randrange(1, 4)
            a, (c, s) = self.angle(pairs, True)
            c1, s1 = AXES[k]
            if rng.random() < .5:
                e, v = {'k': 'add', 'a': a, 'b': num(90 * k)}, (c * c1 - s * s1, s * c1 + c * s1)
            else:
                e, v = {'k': 'neg', 'a': a}, (c, -s)
        return e, (F(v[0]), F(v[1]))

    def place(self, op, x, y):
        if not (small(x) and small(y)):
            return None
        op['name'] = self.new()
        self.at[op['name']] = (x, y)
        return op

    def new(self):
        name = self.free.pop()
        self.all.append(name)
        return name

    def operation(self, kind=None):
        rng = self.rng
        if not self.free:
            return {'t': 'line', 'p': self.all[0], 'q': self.all[1]} if len(self.at) > 1 else None
        pairs = self.pairs()
        if not self.at or kind is None and rng.random() < .1:
            ex, x = self.length(pairs)
            ey, y = self.length(pairs)
            return self.place({'t': 'single', 'x': ex, 'y': ey}, x, y)
        if kind is None and rng.random() < self.refused:
            return {'t': 'poi', 'name': 'no' + str(rng.randrange(100)), 'p': rng.choice(list(self.at)), 'q': 'unknown'}
        kind = kind or rng.choice(('along', 'along', 'end', 'end', 'normal', 'poi', 'intersect', 'contact', 'line', 'spline'))
        if kind == 'end':
            p = rng.choice(list(self.at))
            a, (c, s) = self.angle(pairs)
            e, l = self.length(pairs)
            x, y = self.at[p]
            return self.place({'t': 'end', 'p': p, 'angle': a, 'len': e}, x + c * l, y + s * l)
        if kind == 'poi':
            p, q = rng.choice(list(self.at)), rng.choice(list(self.at))
            return self.place({'t': 'poi', 'p': p, 'q': q}, self.at[p][0], self.at[q][1])
        if not pairs:
            return None
        p, q, d = rng.choice(pairs)
        (x0, y0), (x1, y1) = self.at[p], self.at[q]
        dx, dy = (x1 - x0), (y1 - y0)
        if kind == 'along':
            e, l = self.length(pairs, d)
            return self.place({'t': 'along', 'p': p, 'q': q, 'len': e}, x0 + dx / d * l, y0 + dy / d * l)
        if kind == 'normal':
            e, l = self.length(pairs, d)
            a, (c, s) = self.angle(pairs)
            nx, ny = -dy / d, dx / d
            return self.place({'t': 'normal', 'p': p, 'q': q, 'angle': a, 'len': e},
                              x0 + (nx * c - ny * s) * l, y0 + (nx * s + ny * c) * l)
        if kind == 'line':
            return {'t': 'line', 'p': p, 'q': q}
        if kind == 'spline':
            a1, (c1, s1) = self.angle(pairs)
            l1, v1 = self.length(pairs)
            a2, (c2, s2) = self.angle(pairs)
            l2, v2 = self.length(pairs)
            if not all(small(v) or abs(v) < 60 for v in (x0 + c1 * v1, y0 + s1 * v1, x1 + c2 * v2, y1 + s2 * v2)):
                return None
            return {'t': 'spline', 'p': p, 'q': q, 'a1': a1, 'l1': l1, 'a2': a2, 'l2': l2}
        if kind == 'intersect':
            # any two different points make a line
            names = list(self.at)
            p, q, u, v = (rng.choice(names) for _ in range(4))
            if self.at[p] == self.at[q] or self.at[u] == self.at[v]:
                return None
            (x0, y0), (x1, y1), (x2, y2), (x3, y3) = (self.at[n] for n in (p, q, u, v))
            k = (x1 - x0) * (y3 - y2) - (y1 - y0) * (x3 - x2)
            op = {'t': 'intersect', 'p': p, 'q': q, 'u': u, 'v': v}
            if not k:
                # parallel in floating point arithmetic too
                if any(z.denominator > 2 for z in (x0, y0, x1, y1, x2, y2, x3, y3)) or rng.random() < .5:
                    return None
                op['name'] = self.new()
                return op
            t = ((x2 - x0) * (y3 - y2) - (y2 - y0) * (x3 - x2)) / k
            return self.place(op, x0 + t * (x1 - x0), y0 + t * (y1 - y0))
        if kind == 'contact' and self.contact:
            center = rng.choice(list(self.at))
            xc, yc = self.at[center]
            e, r = self.length(pairs, positive=True)
            if any(z.denominator > 1 or abs(z) > 15 for z in (x0, y0, x1, y1, xc, yc)) or r.denominator > 2 or r > 20:
                return None
            wx, wy = x0 - xc, y0 - yc
            a, b, k = dx * dx + dy * dy, dx * wx + dy * wy, wx * wx + wy * wy - r * r
            delta = b * b - a * k
            op = {'t': 'contact', 'p': p, 'q': q, 'center': center, 'radius': e}
            if delta < 0:
                op['name'] = self.new()
                return op
            s = root(delta)
            if not s:
                # the contact of a tangent is not known with accuracy
                return None
            ts = {(-b + s) / a, (-b - s) / a}
            if ts & {F(0), F(1)}:
                return None
            inside = [t for t in ts if 0 <= t <= 1] or list(ts)
            hits = [(x0 + t * dx, y0 + t * dy) for t in inside]
            if not all(small(x) and small(y) for x, y in hits):
                return None
            op['name'] = self.new()
            if len(hits) == 1:
                self.at[op['name']] = hits[0]
            return op


####################################################################################################

KIND = {'single': 'SinglePoint', 'along': 'AlongLinePoint', 'end': 'EndLinePoint', 'intersect': 'LineIntersectPoint',
        'normal': 'NormalPoint', 'contact': 'PointOfContact', 'poi': 'PointOfIntersection', 'line': 'Line',
        'spline': 'SimpleInteractiveSpline'}


class Builder:
    """Calls of the API for the operations of a case"""

    def __init__(self, rng):
        self.rng = rng

    def text(self, e):
        """text or number given to the code for an expression"""
        rng = self.rng

        def func(e):
            return {'line': 'Line_{}_{}', 'angle': 'AngleLine_{}_{}', 'cur': 'CurrentLength'}[e['k']].format(e.get('p'), e.get('q'))

        def ref(n):
            return MEASUREMENTS[n] if rng.random() < .8 else n

        def degrees(e):
            if e['k'] == 'dir':
                (c, d), (s, f) = e['d']
                x = math.degrees(math.atan2(s / f, c / d))
                return {'k': 'float', 'x': x}
            return {k: degrees(v) if k in 'ab' and isinstance(v, dict) else v for k, v in e.items()}
        e = degrees(e)
        if e['k'] == 'float':
            return e['x'] if rng.random() < .5 else repr(e['x'])
        if e['k'] == 'num' and rng.random() < .5:
            n, d = e['v']
            return n if d == 1 else n / d
        return render(e, rng, ref, func)

    def arguments(self, op, reference, Vector2D):
        kwargs = {}
        t = op['t']
        if 'name' in op:
            kwargs['name'] = op['name']
            kwargs['label_offset'] = Vector2D(*op['label'])
        if t == 'single':
            kwargs['x'], kwargs['y'] = self.text(op['x']), self.text(op['y'])
        elif t == 'end':
            kwargs['base_point'] = reference(op['p'])
        elif t == 'intersect':
            for k, n in (('point1_line1', 'p'), ('point2_line1', 'q'), ('point1_line2', 'u'), ('point2_line2', 'v')):
                kwargs[k] = reference(op[n])
        else:
            kwargs['first_point'], kwargs['second_point'] = reference(op['p']), reference(op['q'])
        if t == 'contact':
            kwargs['center'] = reference(op['center'])
            kwargs['radius'] = self.text(op['radius'])
        if t in ('end', 'normal'):
            kwargs['angle'] = self.text(op['angle'])
        if t in ('along', 'end', 'normal'):
            kwargs['length'] = self.text(op['len'])
        if t == 'spline':
            for a, b in (('angle1', 'a1'), ('length1', 'l1'), ('angle2', 'a2'), ('length2', 'l2')):
                kwargs[a] = self.text(op[b])
        return kwargs


def expected(rows, n):
    """rows of Sketch.tla -> for each case, the list of what each operation gives"""
    out = [{} for _ in range(n)]
    for row in rows:
        out[row['i'] - 1][row['k']] = row['out']
    return [[d[k] for k in sorted(d) if k] for d in out]


def positions(case, ms):
    """the points of a case with other measurements, or None if an operation is not exact"""
    at = {}

    def length(p, q):
        d = root((at[q][0] - at[p][0])**2 + (at[q][1] - at[p][1])**2)
        if not d:
            raise ValueError
        return d

    def value(e, cur=None):
        k = e['k']
        if k == 'num':
            return F(*e['v'])
        if k == 'ref':
            return ms[e['n']]
        if k == 'line':
            return length(e['p'], e['q'])
        if k == 'cur':
            return cur
        a = value(e['a'], cur)
        if k == 'neg':
            return -a
        b = value(e['b'], cur)
        v = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[k]()
        return v

    def direction(e):
        k = e['k']
        if k == 'dir':
            return tuple(F(*x) for x in e['d'])
        if k in ('num', 'ref'):
            return AXES[int(value(e) / 90) % 4]
        if k == 'angle':
            d = length(e['p'], e['q'])
            return tuple((b - a) / d for a, b in zip(at[e['p']], at[e['q']]))
        c, s = direction(e['a'])
        if k == 'neg':
            return c, -s
        x, y = direction(e['b'])
        if k == 'sub':
            y = -y
        return c * x - s * y, s * x + c * y

    try:
        for op in case['ops']:
            t = op['t']
            if t == 'single':
                x, y = value(op['x']), value(op['y'])
            elif t == 'poi':
                x, y = at[op['p']][0], at[op['q']][1]
            elif t == 'end':
                (c, s), l = direction(op['angle']), value(op['len'])
                x, y = at[op['p']][0] + c * l, at[op['p']][1] + s * l
            elif t in ('line', 'spline'):
                if at[op['p']] == at[op['q']]:
                    return None
                if t == 'spline':
                    for n, a, l in (('p', 'a1', 'l1'), ('q', 'a2', 'l2')):
                        (c, s), l = direction(op[a]), value(op[l])
                        if not all(abs(v) < 60 and 100 % v.denominator == 0 for v in (at[op[n]][0] + c * l, at[op[n]][1] + s * l)):
                            return None
                continue
            elif t in ('along', 'normal'):
                (x, y), d = at[op['p']], length(op['p'], op['q'])
                u, v = ((b - a) / d for a, b in zip(at[op['p']], at[op['q']]))
                if t == 'normal':
                    c, s = direction(op['angle'])
                    u, v = -v, u
                    u, v = u * c - v * s, u * s + v * c
                l = value(op['len'], d)
                x, y = x + u * l, y + v * l
            else:
                return None
            if not small(x) or not small(y):
                return None
            at[op['name']] = (x, y)
    except (ValueError, ZeroDivisionError):
        return None
    return at
