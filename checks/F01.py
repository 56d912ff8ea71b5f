"""SVG path data and transforms: the texts are read and written according to the grammar of SVG"""
import math
import re
from fractions import Fraction

from lxml import etree

import pathgen
import vf
from geo import rat, xy, same, same_points, text


def fraction(x):
    x = Fraction(x)
    return [x.numerator, x.denominator]


def main(ck):
    from Patro.FileFormat.Svg import SvgFormat
    from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
    from Patro.GeometryEngine.Conic import Ellipse2D
    from Patro.GeometryEngine.Path import Path2D
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Vector import Vector2D

    read_path = SvgFormat.PathDataAttribute.from_xml
    write_path = SvgFormat.PathDataAttribute.to_xml
    read_transform = SvgFormat.TransformAttribute.from_xml
    write_transform = SvgFormat.TransformAttribute.to_xml
    rng = ck.rng

    ################################################################################################
    #
    # Writers of the grammar
    #

    def number(x):
        """A text for a decimal number x (Fraction)"""
        n, digits = abs(x), 0
        while (n * 10 ** digits).denominator != 1:
            digits += 1
        m = int(n * 10 ** digits)
        t = str(m)
        if digits:
            t = t.rjust(digits + 1, '0')
            t = t[:-digits] + '.' + t[-digits:]
        style = rng.random()
        if style < .15 and m < 1000:    # exponent
            e = rng.choice((1, 2, -1))
            if e > 0:
                shift = digits + e
                t = str(m).rjust(shift + 1, '0')
                t = t[:-shift] + '.' + t[-shift:]
            else:
                t = str(m * 10) if not digits else str(m) if digits == 1 else None
                if digits == 0:
                    e = -1
                elif digits == 1:
                    e = -1
                else:
                    t, e = str(m), -digits
            t += rng.choice('eE') + (rng.choice(('', '+')) if e > 0 else '-') + rng.choice(('', '', '0')) + str(abs(e))
        elif style < .3 and '.' in t and len(t) < 5:
            t += '0'
        elif style < .4 and '.' not in t:
            t = '0' + t
        if rng.random() < .4 and t.startswith('0.'):
            t = t[1:]
        if x < 0:
            t = '-' + t
        elif rng.random() < .1:
            t = '+' + t
        return t

    def spaces(style, least=0):
        if style == 'plain':
            return ' ' * least
        if style == 'compact':
            return ' ' * least
        return ''.join(rng.choice('   \n\t\r') for _ in range(rng.randrange(least, 3)))

    def separator(before, after, style):
        """Between two numbers"""
        if style == 'compact':
            fits = after[0] in '+-' or (after[0] == '.' and ('.' in before or 'e' in before.lower()))
            if fits and before[-1] != '.':
                return ''
        t = rng.random()
        if t < .4:
            return spaces(style) + ',' + spaces(style)
        return spaces(style, 1)

    arity = dict(m=2, l=2, h=1, v=1, c=6, q=4, a=7, z=0)

    def path_text(ops):
        """Text of a list of instructions"""
        style = rng.choice(('plain', 'plain', 'compact', 'compact', 'spaces'))
        res = spaces(style)
        last = None     # letter in force
        before = None   # last number
        for letter, args in ops:
            if not (last == letter and letter not in 'zZ' and rng.random() < .7):
                res += spaces(style) + letter
                if args:
                    res += spaces(style, 1 if style == 'plain' and rng.random() < .5 else 0)
                before = None
            for j, x in enumerate(args):
                flag = letter in 'aA' and j in (3, 4)
                t = str(int(x)) if flag else number(x)
                if before is not None:
                    if style == 'compact' and letter in 'aA' and j in (4, 5) and rng.random() < .7:
                        pass # after a flag
                    else:
                        s = separator(before, t, style)
                        if not s and flag:
                            s = ' '
                        res += s
                res += t
                before = t
            last = {'m': 'l', 'M': 'L'}.get(letter, letter)
        return res + spaces(style)

    def transform_text(ops):
        style = rng.choice(('plain', 'plain', 'compact', 'spaces'))
        items = []
        for name, args in ops:
            t = name + spaces(style) + '(' + spaces(style)
            for j, x in enumerate(args):
                n = number(x)
                if j:
                    t += separator(before, n, style)
                t += n
                before = n
            items.append(t + spaces(style) + ')')
        res = items[0] if items else ''
        for t in items[1:]:
            res += (spaces(style, 1) if rng.random() < .6 else spaces(style) + ',' + spaces(style)) + t
        return spaces(style) + res + spaces(style)

    ################################################################################################
    #
    # Generators
    #

    units = [Fraction(x) for x in ('3/5', '4/5', '0', '1')]
    directions = [(a * s, b * t) for a, b in ((units[0], units[1]), (units[1], units[0])) for s in (1, -1) for t in (1, -1)]
    directions += [(Fraction(x), Fraction(y)) for x, y in ((1, 0), (0, 1), (-1, 0), (0, -1))]
    # pairs of directions such that the center of the arc is rational
    pairs = [(p, q) for p in directions for q in directions if p != q]

    def coordinate():
        t = rng.random()
        if t < .5:
            return Fraction(rng.randrange(-12, 13))
        return Fraction(rng.randrange(-60, 60), rng.choice((2, 4, 5, 10, 10, 20)))

    def isqrt(x):
        r = math.isqrt(x.numerator), math.isqrt(x.denominator)
        return r[0] ** 2 == x.numerator and r[1] ** 2 == x.denominator

    def arc(here, absolute):
        k = rng.randrange(4)
        angle = rng.choice((0, 0, 90, 180, 270, -90, 360)) if k else 0
        cs = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}[angle % 360]
        large, sweep = rng.randrange(2), rng.randrange(2)
        if k == 0: # the radii are too small, or null
            rx, ry = (Fraction(rng.randrange(0, 3)) for _ in range(2))
            n = rng.choice((1, 2, 3)) * 2
            if rx and ry:
                dx, dy = rng.choice(((rx * n, 0), (0, ry * n), (-rx * n, 0), (rx * n * Fraction(3, 5), ry * n * Fraction(4, 5))))
            else:
                dx, dy = Fraction(rng.randrange(1, 5)), Fraction(rng.randrange(-4, 5))
        else:
            p, q = rng.choice(pairs)
            rx, ry = (Fraction(rng.randrange(1, 6)) for _ in range(2))
            dx, dy = rx * (q[0] - p[0]), ry * (q[1] - p[1])
        dx, dy = cs[0] * dx - cs[1] * dy, cs[1] * dx + cs[0] * dy
        if rng.random() < .1:
            rx = -rx
        if absolute:
            dx, dy = dx + here[0], dy + here[1]
        return [rx, ry, Fraction(angle), Fraction(large), Fraction(sweep), Fraction(dx), Fraction(dy)]

    def instructions(n, letters):
        p = (coordinate(), coordinate())
        ops = [(rng.choice('Mm'), list(p))]
        here = p
        force = None
        for _ in range(n):
            letter = force or rng.choice(letters)
            force = letter if rng.random() < .4 else None
            kind = letter.lower()
            absolute = kind != letter
            if kind == 'a':
                args = arc(here, absolute)
            else:
                args = [coordinate() for _ in range(arity[kind])]
            ops.append((letter, args))
            x, y = here
            base = (0, 0) if absolute else here
            if kind == 'h':
                here = (base[0] + args[0], y)
            elif kind == 'v':
                here = (x, base[1] + args[0])
            else:
                here = (base[0] + args[-2], base[1] + args[-1])
        if n and rng.random() < .4:
            ops.append((rng.choice('zZ'), []))
        return ops

    def abstract(ops):
        return [[letter, [fraction(x) for x in args]] for letter, args in ops]

    def path_case():
        t = rng.random()
        if t < .02:
            return {'t': spaces('spaces'), 'ops': [], 'valid': True}
        ops = instructions(rng.randrange(0, 7), rng.choice(('lLhHvVqQcCaA', 'lLhHvV', 'aA', 'cqCQ', 'lL')))
        case = {'t': path_text(ops), 'ops': abstract(ops), 'valid': True}
        if t < .1: # malformed
            kind = rng.randrange(6)
            d = case['t']
            if kind == 0:
                d = d.strip() + rng.choice(('L', ' b 1 1', ' 4', 'l 5', ' L 1,,2', ' #', ' h 1 x', ' c 1 2 3', ' l 1.2e 3', ' l 1 -', ' Q 1 2 3 4 5'))
                if ops[-1][0] in 'zZ':
                    d = case['t'] + ' 4'
                elif ops[-1][0] in 'hHvV' and d.endswith(' 4'):
                    d += ' K'
            elif kind == 1:
                d = d.replace('M', 'L').replace('m', 'l')
            elif kind == 2:
                d = '5 ' + d
            elif kind == 3:
                d = d.strip()[1:]
            elif kind == 4:
                d = 'M 1 2 A 1 1 0 2 0 4 5'
            else:
                d = d.strip() + ','
            case = {'t': d, 'ops': [], 'valid': False}
        return case

    def transform(exact=False):
        name = rng.choice(('matrix', 'translate', 'scale', 'rotate') if not exact else ('matrix',))
        if name == 'matrix':
            args = [Fraction(rng.randrange(-9, 10), rng.choice((1, 1, 2))) for _ in range(6)]
        elif name == 'translate':
            args = [coordinate() for _ in range(rng.choice((1, 2, 2)))]
        elif name == 'scale':
            args = [Fraction(rng.choice((-4, -2, -1, 1, 2, 4, 6)), 2) for _ in range(rng.choice((1, 2)))]
        else:
            args = [Fraction(rng.choice((0, 90, -90, 180, 270, 450, 360)))]
            if rng.random() < .5:
                args += [Fraction(rng.randrange(-9, 10)) for _ in range(2)]
        return name, args

    def transform_case():
        ops = [transform() for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4)))]
        case = {'t': transform_text(ops), 'ops': abstract(ops), 'valid': True}
        if rng.random() < .08:
            d = case['t'].strip()
            d = rng.choice((d + ' translate(1 2', d + 'foo(1)', d + ' rotate(a)', d + ' matrix(1 2 3 4 5)', d + ' scale()', d + ' 12',
                            d + ' scale 2', d + ' translate(1,2,3)', d + ' )', d + ' translate(1 2 L)', 'rotate(10) x' + d))
            case = {'t': d, 'ops': [], 'valid': False}
        return case

    ################################################################################################

    def chars(cases):
        for case in cases:
            case['d'] = list(case['t'])
        return cases

    def run(cases, name, get, check):
        keys = ('d', 'ops', 'valid')
        inputs = [{key: case[key] for key in keys} for case in chars(cases)]
        if name == 'path':
            rows = ck.tlc('SvgPath', init='SvgInit', next='SvgNext', invariants=('Meaning', 'Arity', 'PathLaws'), properties=('Prefix',),
                          constraint='SvgEmit', inputs=inputs, jobs=8).rows
        else:
            rows = ck.tlc('SvgTransform', init='TransformInit', next='TransformNext', invariants=('AsMeant', 'Order'),
                          constraint='Emit', inputs=inputs, jobs=8).rows
        for row in rows:
            case = cases[row['i'] - 1]
            bad = []

            def expect(what, good, got=None):
                if not good:
                    bad.append('{} {}'.format(what, got))
            o = vf.outcome(get, case, row, expect)
            if row['ok']:
                if o[0] != 'ok':
                    bad.append(str(o[1:]))
                else:
                    o = vf.outcome(check, o[1], row, expect)
                    if o[0] != 'ok':
                        bad.append(str(o[1:]))
            elif o[0] == 'ok':
                bad.append('accepted')
            else:
                ck.note('refused ' + name)
            ck.traces += 1
            if bad:
                ck.violation('{} {!r}: {}'.format(name, case['t'], '; '.join(bad[:3])), {'case': case['t'], 'expected': row})
                if ck.full:
                    return

    # the text is given to the attribute or to the element
    def get_path(case, row, expect):
        if rng.random() < .3 and row['ok']:
            element = etree.Element('path')
            element.set('d', case['t'])
            element = etree.fromstring(etree.tostring(element))
            item = SvgFormat.Path(element)
            ck.note('element')
            return item.path_data
        return read_path(case['t'])

    def geometry(g):
        """Observation of a part: kind, values"""
        if isinstance(g, Segment2D):
            return 'line'
        if isinstance(g, QuadraticBezier2D):
            return 'quadratic'
        if isinstance(g, CubicBezier2D):
            return 'cubic'
        if isinstance(g, Ellipse2D):
            return 'arc'
        return type(g).__name__

    def degrees(d):
        x, y = xy(d)
        return math.degrees(math.atan2(y, x))

    def check_parts(path, row, expect):
        expected = row['path']
        expect('exists', (path is not None) == row['drawn'])
        if path is None:
            return
        expect('start', same(path.p0, expected['p0']), text(path.p0))
        parts = list(path)
        expect('number of parts', len(parts) == expected['n'], len(parts))
        for j, (part, o) in enumerate(zip(parts, expected['parts'])):
            g = part.geometry
            expect('kind of the part {}'.format(j), geometry(g) == o['t'], g)
            expect('start {}'.format(j), same(part.start_point, o['start'], 1e-9), text(part.start_point))
            expect('stop {}'.format(j), same(part.stop_point, o['stop'], 1e-9), text(part.stop_point))
            if o['t'] in ('quadratic', 'cubic'):
                expect('points {}'.format(j), same_points(g.points, o['points'], 1e-9), [text(p) for p in g.points])
            elif o['t'] == 'line':
                expect('line {}'.format(j), same_points(g.points, [o['start'], o['stop']], 1e-9))
            elif o['t'] == 'arc':
                e = o['e']
                expect('arc {}'.format(j), same(g.center, e['center'], 1e-6) and vf.close(g.radius_x, rat(e['a']), 1e-6) and
                       vf.close(g.radius_y, rat(e['b']), 1e-6), (text(g.center), g.radius_x, g.radius_y))
                expect('ends of arc {}'.format(j), same(g.start_point, o['start'], 1e-6) and same(g.stop_point, o['stop'], 1e-6), g)
                span = (degrees(o['d1']) - degrees(o['d0'])) % 360 * (1 if o['sweep'] else -1)
                expect('span of arc {}'.format(j), vf.close(g.domain.stop - g.domain.start, span, 1e-5), g.domain)
        expect('closed', bool(path.is_closed) == expected['closed'])

    def check_path(path, row, expect):
        for o in row['path']['parts']:
            ck.note(o['t'])
        check_parts(path, row, expect)
        if path is not None and rng.random() < .4:
            # written and read again
            ck.note('written')
            data = write_path(path)
            again = read_path(data)
            check_parts(again, row, lambda what, good, got=None: expect('written {!r}: {}'.format(data, what), good, got))
            element = SvgFormat.Path(path_data=path).to_xml()
            expect('element', element.get('d') == data)

    n = ck.pick(1200, 12000)
    cases = [path_case() for _ in range(n)]
    run(cases, 'path', get_path, check_path)
    ck.samples += [case['t'] for case in cases[:4]]
    if ck.full:
        return

    ################################################################################################

    def entries(t):
        a = t.array
        return [float(a[i, j]) for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (1, 2))]

    def get_transform(case, row, expect):
        if rng.random() < .3 and row['ok']:
            tag = rng.choice(('g', 'path', 'rect', 'circle', 'line', 'polyline'))
            element = etree.Element(tag)
            element.set('transform', case['t'])
            element = etree.fromstring(etree.tostring(element))
            cls = dict(g=SvgFormat.Group, path=SvgFormat.Path, rect=SvgFormat.Rect, circle=SvgFormat.Circle, line=SvgFormat.Line,
                       polyline=SvgFormat.Polyline)[tag]
            ck.note('transform of an element')
            return cls(element).transform
        return read_transform(case['t'])

    def expected_entries(row):
        return [rat(x) for x in row['map']['m'] + row['map']['t']]

    def check_transform(t, row, expect):
        ck.note('transform')
        good = [vf.close(x, y) for x, y in zip(entries(t), expected_entries(row))]
        expect('map', all(good), t)
        expect('image', same(t * Vector2D(3, -2), row['image']), t)
        data = write_transform(t)
        expect('written', all(vf.close(x, y) for x, y in zip(entries(read_transform(data)), expected_entries(row))), data)

    cases = [transform_case() for _ in range(n)]
    run(cases, 'transform', get_transform, check_transform)
    ck.samples += [case['t'] for case in cases[:3]]
    if ck.full:
        return

    ################################################################################################
    #
    # What the code writes is read by the specification
    #

    numbers = re.compile(r'[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?')

    def short(t):
        """The rounding errors are not for the specification"""
        def f(m):
            x = m.group()
            if len(x) < 8 and 'e' not in x.lower():
                return x
            return '{:.4f}'.format(float(x)) if abs(float(x)) < 1e4 else '?'
        return numbers.sub(f, t)

    cases = []
    for _ in range(n // 5):
        m = [Fraction(rng.randrange(-40, 41), rng.choice((1, 2, 4))) for _ in range(6)]
        a, b, c, d, e, f = (float(x) for x in m)
        t = AffineTransformation2D([a, c, e, b, d, f, 0, 0, 1])
        element = SvgFormat.Group(transform=t).to_xml()
        cases.append({'t': short(element.get('transform')), 'ops': [['matrix', [fraction(x) for x in m]]], 'valid': True, 'm': m})
    chars(cases)
    inputs = [{key: case[key] for key in ('d', 'ops', 'valid')} for case in cases]
    # AsMeant is not imposed: the text belongs to the code
    rows = ck.tlc('SvgTransform', init='TransformInit', next='TransformNext', invariants=('Order',), constraint='Emit', inputs=inputs, jobs=8).rows
    for row in rows:
        case = cases[row['i'] - 1]
        ck.traces += 1
        ck.note('text of a transform')
        a, b, c, d, e, f = case['m']
        if not row['ok'] or [Fraction(*x) for x in row['map']['m'] + row['map']['t']] != [a, c, b, d, e, f]:
            ck.violation('the matrix {} is written {!r}'.format([str(x) for x in case['m']], case['t']), {'case': case['t'], 'read': row})
            if ck.full:
                return

    # paths: the text is an equivalent drawing
    quarters = 'lLhHvVqQcC'
    sources = []
    for _ in range(n // 3):
        ops = instructions(rng.randrange(1, 5), quarters)
        # quarters are exact
        ops = [(letter, [Fraction(round(x * 4), 4) for x in args]) for letter, args in ops]
        if rng.random() < .4:
            ops = [o for o in ops if o[0] not in 'zZ']
            # an arc at the end
            here = [0, 0]
            ops.append(('a', arc((0, 0), False)))
            if not ops[-1][1][0] or not ops[-1][1][1] or any(x * 4 != int(x * 4) for x in ops[-1][1]):
                ops.pop()
        sources.append(ops)
    cases = []
    for ops in sources:
        path = read_path(' '.join(letter + ' ' + ' '.join(str(float(x)) if not (letter in 'aA' and j in (3, 4)) else str(int(x))
                                                         for j, x in enumerate(args)) for letter, args in ops))
        data = write_path(path)
        if short(data) != data:
            ck.note('rounded')
        cases.append({'t': short(data), 'ops': abstract(ops), 'valid': True})
    meant = [{'d': list(path_text(ops)), 'ops': abstract(ops), 'valid': True} for ops in sources]
    chars(cases)
    inputs = [{key: case[key] for key in ('d', 'ops', 'valid')} for case in cases]
    args = dict(init='SvgInit', next='SvgNext', invariants=('PathLaws',), constraint='SvgEmit', jobs=8)
    written = {row['i']: row for row in ck.tlc('SvgPath', inputs=inputs, **args).rows}
    source = {row['i']: row for row in ck.tlc('SvgPath', inputs=meant, **args).rows}
    for i, row in sorted(source.items()):
        other = written[i]
        a, b = dict(row['path']), dict(other['path'])
        a.pop('k'), b.pop('k')
        ck.traces += 1
        ck.note('text of a path')
        if not other['ok'] or a != b:
            ck.violation('the path {} is written {!r}'.format(cases[i - 1]['ops'], cases[i - 1]['t']), {'case': cases[i - 1]['t'], 'expected': row, 'read': other})
            if ck.full:
                return
    ################################################################################################
    #
    # Paths of the geometry, with rounded corners, are written and read again: the same parts
    #

    tools = pathgen.tools(rng)

    def drawn():
        while True:
            g = tools.make(rng.choice(('lines', 'lines', 'mixed')))
            if g['ops'] and not any(o[0] == 'move' for o in g['ops'][1:]) and any(o[0] not in ('close', 'transform', 'clone', 'move') for o in g['ops']):
                return {'t': 'path', 'whole': True, **g}

    def build(g):
        path = Path2D(tools.V(g['p0']))
        for op in g['ops']:
            o = vf.outcome(tools.run, path, op)
            if o[0] == 'ok':
                path = o[1]
        return path

    def zero(p, q):
        return math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6

    def parts_of(path):
        out = []
        for part in path:
            g = part.geometry
            kind = geometry(g)
            if kind == 'arc':
                start, stop = g.domain.start, g.domain.stop
                m = math.radians((start + stop) / 2)
                turn = math.radians(g.angle)
                x, y = g.radius_x * math.cos(m), g.radius_y * math.sin(m)
                middle = (g.center.x + x * math.cos(turn) - y * math.sin(turn), g.center.y + x * math.sin(turn) + y * math.cos(turn))
                pts = [part.start_point, part.stop_point]
                out.append((kind, [(p.x, p.y) for p in pts] + [middle, (g.center.x, g.center.y)]))
            else:
                out.append((kind, [(p.x, p.y) for p in g.points]))
        return [x for x in out if x[0] != 'line' or not zero(*x[1])]

    def parts_expected(row):
        out = []
        for m in row['items'][0]['sub']:
            if not m['e']:
                out.append(({2: 'line', 3: 'quadratic', 4: 'cubic'}[len(m['pts'])], [xy(p) for p in m['pts']]))
                continue
            e = m['e']
            (cx, cy), (c, s), a, b = xy(e['center']), xy(e['rot']), rat(e['a']), rat(e['b'])

            def angle(p):
                x, y = p[0] - cx, p[1] - cy
                return math.atan2((c * y - s * x) / b, (c * x + s * y) / a)
            p, q = (xy(x) for x in m['ends'])
            t = angle(p) + ((angle(q) - angle(p)) % (2 * math.pi)) / 2
            x, y = a * math.cos(t), b * math.sin(t)
            middle = (cx + c * x - s * y, cy + s * x + c * y)
            out.append(('arc', ([q, p] if m['rev'] else [p, q]) + [middle, (cx, cy)]))
        return [x for x in out if x[0] != 'line' or not zero(*x[1])]

    cases = [{'offset': [[0, 1], [0, 1]], 'ops': [{'o': 'add', 'g': drawn()}]} for _ in range(n // 2)]
    res = ck.tlc('Added', {'Depth': 0}, init='AddedInit', next='AddedNext', invariants=('AddedLaws', 'EmitEnd'), inputs=cases, jobs=8)
    for row in res.rows:
        if row['res'] != 'ok' or not row['items']:
            continue
        case = cases[row['i'] - 1]['ops'][0]['g']
        expected = parts_expected(row)
        o = vf.outcome(lambda: write_path(build(case)))
        ck.traces += 1
        ck.note('path of the geometry')
        data = o[1]
        if o[0] == 'ok':
            o = vf.outcome(lambda: parts_of(read_path(data)))
        got = o[1]
        closed = row['items'][0]['closed']

        def like(other):
            return all(a[0] == b[0] and len(a[1]) == len(b[1]) and all(math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-5 for p, q in zip(a[1], b[1]))
                       for a, b in zip(got, other))
        # a closed path can begin anywhere
        turns = range(len(expected)) if closed and expected else (0,)
        good = o[0] == 'ok' and len(got) == len(expected) and ('Z' in data.upper()) == closed and any(
            like(expected[k:] + expected[:k]) for k in turns)
        if not good:
            ck.violation('the path {} is written {!r}, which is read {} instead of {}'.format(case, data, got, expected), {'case': case, 'expected': row})
            if ck.full:
                return
    ck.assumptions.append('Path data: a single sub-path, no smooth curve (S, T) and no zero-length arc; the arcs are rotated by quarter turns. '
                          'Transforms: rotations by quarter turns, no skew.')
