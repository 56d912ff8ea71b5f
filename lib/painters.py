"""Scenes of the Painter specification: how they are made, drawn by the code, and read back"""
import base64
import math
import os
import re
import zlib

import vf

NAMES = ['', 'A', 'B', 'C1']
TRANSFORMATIONS = {
    'identity': [1, 0, 0, 1, 0, 0], 'move': [1, 0, 0, 1, 3, -2], 'scale': [2, 0, 0, 2, 0, 0], 'turn': [0, -1, 1, 0, 0, 0], 'half': [-1, 0, 0, -1, 1, 0],
}
COUNT = {'segment': 2, 'rectangle': 2, 'circle': 1, 'ellipse': 1, 'text': 1, 'cubic': 4, 'quadratic': 3, 'polyline': 4, 'polygon': 4, 'image': 2, 'path': 1}
DASHES = ['SolidLine', 'SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine', 'NoPen']
CAPS = {'FlatCap': 'butt', 'SquareCap': 'square', 'RoundCap': 'round'}
JOINS = {'MiterJoin': 'miter', 'BevelJoin': 'bevel', 'RoundJoin': 'round', 'SvgMiterJoin': 'miter'}
# tolerance of the coordinates of a format, length of a dash (against a dot)
TOLERANCE = {'svg': 1e-6, 'pdf': 1e-4, 'dxf': 1e-6, 'tex': .0051, 'mpl': 1e-9}
LONG = {'svg': 2, 'pdf': 2, 'dxf': .2, 'tex': 3, 'mpl': 2}
ROUND = {'circle', 'ellipse'}


def q(x):
    """a number as a rational of the specification, quarters are exact"""
    n = round(4 * x)
    g = math.gcd(n, 4) or 1
    return [n // g, 4 // g]


class Generator:
    """random histories of a scene"""

    def __init__(self, rng, colours, kinds, screen=False):
        self.rng, self.colours, self.kinds, self.screen = rng, colours, kinds, screen

    def vector(self):
        return [q(self.rng.randrange(-12, 25) / 4), q(self.rng.randrange(-12, 25) / 4)]

    def position(self):
        if self.rng.random() < .3:
            return {'n': self.rng.choice(NAMES[1:]), 'v': [[0, 1], [0, 1]]}
        return {'n': '', 'v': self.vector()}

    def colour(self, none=.15):
        rng = self.rng
        if rng.random() < none:
            return [], ''
        if rng.random() < .5:
            name = rng.choice(self.colours)
            return None, name
        rgb = [rng.randrange(256) for _ in range(3)]
        return rgb, '#%02x%02x%02x' % tuple(rgb)

    def item(self, n):
        rng = self.rng
        kind = rng.choice(self.kinds)
        count = COUNT[kind]
        if kind in ('polyline', 'polygon'):
            count = rng.randrange(3 if kind == 'polygon' else 2, 6)
        pos = []
        while len(pos) < count:
            p = self.position()
            if p not in pos:
                pos.append(p)
        if kind == 'image':
            a, b = ([rng.randrange(-3, 3), rng.randrange(-3, 3)] for _ in range(2))
            pos = [{'n': '', 'v': [[x, 1] for x in a]}, {'n': '', 'v': [[a[0] + rng.randrange(1, 4), 1], [a[1] + rng.randrange(1, 4), 1]]}]
        rgb, text = self.colour()
        style = {'c': rgb, 'ctext': text, 'w': q(rng.choice([.25, .5, 1, 1, 1.5, 2, 3])), 'wform': rng.choice(['float', 'str', 'unit']),
                 'dash': rng.choice(DASHES), 'a': [1, 1], 'f': [], 'ftext': '', 'fa': [1, 1], 'ctl': [], 'ctltext': '',
                 'cap': rng.choice(list(CAPS)), 'join': rng.choice(list(JOINS))}
        x = {'k': n, 'kind': kind, 'pos': pos, 'style': style, 'z': 0, 'vis': True, 'sel': False, 'rx': [1, 1], 'ry': [1, 1], 'cs': [[1, 1], [0, 1]],
             'a0': 0, 'a1': 4, 'segs': [], 'close': False, 'txt': ''}
        if self.screen:
            style['a'] = rng.choice([[1, 1], [1, 1], [1, 2], [1, 4]])
            if kind in ROUND or kind in ('polygon', 'path'):
                style['f'], style['ftext'] = self.colour(.5)
                style['fa'] = rng.choice([[1, 1], [1, 2], [1, 4]])
            if kind == 'cubic' and rng.random() < .4:
                style['ctl'], style['ctltext'] = self.colour(0)
        if kind == 'text':
            x['txt'] = ''.join(rng.choice('abcXYZ 019é<&>(') for _ in range(rng.randrange(1, 8))).strip() or 'T'
        if kind in ROUND:
            x['rx'] = q(rng.choice([.5, 1, 1.5, 2, 3]))
            x['ry'] = x['rx'] if kind == 'circle' else q(rng.choice([.5, 1, 1.5, 2, 3]))
            if kind == 'ellipse':
                x['cs'] = rng.choice([[[1, 1], [0, 1]], [[0, 1], [1, 1]], [[3, 5], [4, 5]], [[4, 5], [-3, 5]], [[-5, 13], [12, 13]], [[-1, 1], [0, 1]]])
            if self.screen and rng.random() < .5:
                x['a0'] = rng.randrange(0, 4)
                x['a1'] = rng.choice([a for a in range(0, 5) if a != x['a0'] and (a - x['a0']) % 4])
        if kind == 'path':
            last = pos[0]
            for _ in range(rng.randrange(1, 5)):
                s = rng.choice('LLQC')
                places = []
                while len(places) < {'L': 1, 'Q': 2, 'C': 3}[s]:
                    p = self.position()
                    if p not in places and p != last:
                        places.append(p)
                last = places[-1]
                x['segs'].append({'k': s, 'pos': places})
            x['close'] = rng.random() < .5
        return x

    def history(self, draw, n):
        """draw() is a drawing"""
        rng = self.rng
        ops = [{'o': 'coord', 'n': name, 'v': self.vector()} for name in NAMES[1:]]
        alive, made = [], 0
        for _ in range(n):
            o = rng.choice(('add', 'add', 'add', 'add', 'add', 'z', 'z', 'vis', 'coord', 'remove', 'draw') + (('sel', 'sel') if self.screen else ()))
            if o == 'add':
                made += 1
                alive.append(made)
                ops.append({'o': o, 'x': self.item(made)})
            elif o == 'coord':
                ops.append({'o': o, 'n': rng.choice(NAMES[1:]), 'v': self.vector()})
            elif o == 'draw':
                ops.append(draw())
            elif alive:
                op = {'o': o, 'k': rng.choice(alive)}
                if o == 'z':
                    op['z'] = rng.randrange(-2, 3)
                elif o == 'vis':
                    op['v'] = rng.random() < .5
                elif o == 'sel':
                    op['v'] = rng.random() < .7
                elif o == 'remove':
                    alive.remove(op['k'])
                ops.append(op)
        return ops + [draw()]

    def case(self, draw, n, names=None, sides=(5, 10, 20)):
        rng = self.rng
        x0, y0 = rng.randrange(-6, 4), rng.randrange(-6, 4)
        case = {'box': [x0, y0, x0 + rng.choice(sides), y0 + rng.choice(sides)], 'ops': self.history(draw, n)}
        kinds = {op['x']['kind'] for op in case['ops'] if op['o'] == 'add'}
        names = names or list(TRANSFORMATIONS)
        if self.screen and (kinds & ROUND):
            names = [t for t in names if t in ('identity', 'move')]   # a radius is not transformed
        if 'image' in kinds:
            names = [t for t in names if t in ('identity', 'move', 'scale')]
        case['tname'] = rng.choice(names)
        case['t'] = [[x, 1] for x in TRANSFORMATIONS[case['tname']]]
        return case


class World:
    """the objects of the code"""

    def __init__(self, scene_class=None):
        from Patro.GeometryEngine.Transformation import AffineTransformation2D
        from Patro.GeometryEngine.Vector import Vector2D
        from Patro.GraphicEngine.GraphicScene import GraphicItem
        from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicBezierStyle, GraphicPathStyle
        from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
        from Patro.GraphicEngine.GraphicScene.TypographyUnit import PointUnit
        from Patro.GraphicStyle import Colors, StrokeStyle, CapStyle, JoinStyle
        from IntervalArithmetic import Interval2D
        self.__dict__.update({name: value for name, value in locals().items() if name != 'self'})

    def rgb(self, name):
        colour = self.Colors[name]
        return [colour.red, colour.green, colour.blue]

    def resolve(self, cases):
        """the specification knows the colours by their components"""
        for case in cases:
            for op in case['ops']:
                if op['o'] == 'add':
                    style = op['x']['style']
                    for key, text in (('c', 'ctext'), ('f', 'ftext'), ('ctl', 'ctltext')):
                        if style[key] is None:
                            style[key] = self.rgb(style[text])

    def transformation(self, name):
        A, V = self.AffineTransformation2D, self.Vector2D
        return {'identity': A.Identity, 'move': lambda: A.Translation(V(3, -2)), 'scale': lambda: A.Scale(2, 2), 'turn': lambda: A.Rotation(90),
                'half': lambda: A.Translation(V(1, 0)) * A.Rotation(180)}[name]()

    def new_scene(self, case, cls=None):
        if cls is None:
            scene = self.GraphicScene(self.transformation(case['tname']))
        else:
            scene = cls()
        x0, y0, x1, y1 = case['box']
        scene.bounding_box = self.Interval2D((x0, x1), (y0, y1))
        return scene

    def vector(self, p):
        return self.Vector2D(*(vf.rat(x) for x in p))

    def pos(self, p):
        return p['n'] or self.vector(p['v'])

    def style(self, s):
        w = vf.rat(s['w'])
        width = {'float': w, 'str': str(w), 'unit': self.PointUnit(w)}[s['wform']]
        kwargs = dict(stroke_color=s['ctext'] or None, line_width=width, stroke_style=self.StrokeStyle[s['dash']], stroke_alpha=vf.rat(s['a']),
                      fill_color=s['ftext'] or None, fill_alpha=vf.rat(s['fa']), cap_style=self.CapStyle[s['cap']], join_style=self.JoinStyle[s['join']])
        if s['ctltext']:
            return self.GraphicBezierStyle(show_control=True, control_color=s['ctltext'], **kwargs)
        return self.GraphicPathStyle(**kwargs)

    def add(self, scene, x):
        kind = x['kind']
        places = [self.pos(p) for p in x['pos']]
        style = self.style(x['style'])
        key = 'item {}'.format(x['k'])
        if kind == 'text':
            return scene.text(*places, x['txt'], self.Font('Times', 10 + x['k'] % 3 / 2), user_data=key)
        if kind == 'image':
            import numpy
            return scene.image(*places, numpy.zeros((4, 6, 3), dtype=numpy.uint8), user_data=key)
        if kind in ('polyline', 'polygon'):
            return getattr(scene, kind)(places, style, user_data=key)
        if kind in ROUND:
            angles = {} if abs(x['a1'] - x['a0']) >= 4 and x['a0'] == 0 else dict(start_angle=90 * x['a0'], stop_angle=90 * x['a1'])
            if kind == 'circle':
                return scene.circle(*places, vf.rat(x['rx']), style, user_data=key, **angles)
            angle = math.degrees(math.atan2(vf.rat(x['cs'][1]), vf.rat(x['cs'][0])))
            return scene.ellipse(*places, vf.rat(x['rx']), vf.rat(x['ry']), angle, style, user_data=key, **angles)
        if kind == 'path':
            item = scene.add_item(self.GraphicItem.PathItem, places[0], style, user_data=key)
            for s in x['segs']:
                {'L': item.line_to, 'Q': item.quadratic_to, 'C': item.cubic_to}[s['k']](*(self.pos(p) for p in s['pos']))
            if x['close']:
                item.close()
            return item
        method = {'cubic': 'cubic_bezier', 'quadratic': 'quadratic_bezier'}.get(kind, kind)
        return getattr(scene, method)(*places, style, user_data=key)

    def edit(self, scene, items, op):
        o = op['o']
        if o == 'coord':
            scene.add_coordinate(op['n'], self.vector(op['v']))
        elif o == 'add':
            items[op['x']['k']] = self.add(scene, op['x'])
        elif o == 'remove':
            scene.remove_item(items.pop(op['k']))
        elif o == 'z':
            items[op['k']].z_value = op['z']
        elif o == 'vis':
            items[op['k']].visible = op['v']
        elif o == 'sel':
            items[op['k']].selected = op['v']


####################################################################################################
#
# A page: a list of [kind, [command, ...], style, text], where a command is [letter, x, y, ...]
#

NUMBER = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


def colour(text):
    """'none', a name of CSS or '#rrggbb' -> components"""
    if text is None or text in ('none', ''):
        return []
    from matplotlib.colors import to_rgb
    return [round(255 * x) for x in to_rgb(text)]


def dash_of(pattern, long):
    """kind of a dash pattern: on, off, on, off...; a dash is longer than *long*"""
    if not pattern:
        return 'SolidLine'
    marks = ''.join('-' if x > long else '.' for x in pattern[::2])
    return {'-': 'DashLine', '.': 'DotLine', '-.': 'DashDotLine', '-..': 'DashDotDotLine'}.get(marks, marks)


def make(kind, cmds, stroke=None, fill=None, text='', r=()):
    return {'kind': kind, 'cmds': cmds, 'stroke': stroke, 'fill': fill, 'txt': text, 'r': list(r)}


def path_commands(d):
    """M, L, H, V, C, Q, Z of SVG, absolute or relative -> absolute M, L, C"""
    out, x, y, x0, y0 = [], 0, 0, 0, 0
    for letter, body in re.findall(r'([MLHVCQZmlhvcqz])([^MLHVCQZmlhvcqz]*)', d):
        values = numbers(body)
        rel = letter.islower()
        letter = letter.upper()
        if letter == 'Z':
            out.append(['L', x0, y0])
            x, y = x0, y0
            continue
        n = {'M': 2, 'L': 2, 'H': 1, 'V': 1, 'C': 6, 'Q': 4}[letter]
        if not values or len(values) % n:
            raise ValueError(d)
        for k in range(0, len(values), n):
            v = values[k:k + n]
            if letter == 'H':
                v = [v[0] + (x if rel else 0), y]
            elif letter == 'V':
                v = [x, v[0] + (y if rel else 0)]
            elif rel:
                v = [a + (y if m % 2 else x) for m, a in enumerate(v)]
            if letter == 'Q':
                v = [(x + 2 * v[0]) / 3, (y + 2 * v[1]) / 3, (v[2] + 2 * v[0]) / 3, (v[3] + 2 * v[1]) / 3, v[2], v[3]]
            name = 'C' if len(v) == 6 else ('M' if letter == 'M' and k == 0 else 'L')
            out.append([name] + v)
            x, y = v[-2:]
            if name == 'M':
                x0, y0 = x, y
    return out


def points_commands(values):
    pairs = list(zip(values[::2], values[1::2]))
    return [['L' if n else 'M', *p] for n, p in enumerate(pairs)]


def local(element):
    return element.tag.rsplit('}', 1)[-1] if isinstance(element.tag, str) else None


def read_svg(path):
    """(attributes of the root, page) of a SVG file: presentation attributes are inherited, transformations are composed"""
    from lxml import etree
    root = etree.parse(str(path)).getroot()
    page = []

    def compose(m, text):
        for name, body in re.findall(r'(\w+)\s*\(([^)]*)\)', text or ''):
            v = numbers(body)
            if name == 'translate':
                v = [1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0]
            elif name == 'scale':
                v = [v[0], 0, 0, v[-1], 0, 0]
            elif name != 'matrix':
                raise ValueError(text)
            m = [m[0] * v[0] + m[2] * v[1], m[1] * v[0] + m[3] * v[1], m[0] * v[2] + m[2] * v[3], m[1] * v[2] + m[3] * v[3],
                 m[0] * v[4] + m[2] * v[5] + m[4], m[1] * v[4] + m[3] * v[5] + m[5]]
        return m

    def visit(element, state, m):
        tag = local(element)
        if tag is None or tag in ('title', 'desc', 'style', 'defs'):
            return
        a = dict(element.attrib)
        state = {**state, **{k: v for k, v in a.items() if k not in ('transform', 'd', 'points')}}
        for pair in a.get('style', '').split(';'):
            if ':' in pair:
                key, value = pair.split(':', 1)
                state[key.strip()] = value.strip()
        if tag != 'svg':
            m = compose(m, a.get('transform'))
        if tag in ('svg', 'g'):
            for child in element:
                visit(child, {k: v for k, v in state.items() if k not in ('x', 'y', 'width', 'height')}, m)
            return

        def f(name):
            return float(a.get(name, 0))

        def at(x, y):
            return [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]]

        pattern = numbers(state.get('stroke-dasharray', '') or '')
        width = float(re.sub('[a-z]+$', '', state.get('stroke-width', '1')))
        stroke = {'c': colour(state.get('stroke', 'none')), 'w': width, 'dash': pattern, 'a': float(state.get('stroke-opacity', 1)),
                  'cap': state.get('stroke-linecap', 'butt'), 'join': state.get('stroke-linejoin', 'miter')}
        fill = {'c': colour(state.get('fill', 'black')), 'a': float(state.get('fill-opacity', 1))}
        r = ()
        if tag == 'line':
            kind, cmds, fill = 'path', [['M', f('x1'), f('y1')], ['L', f('x2'), f('y2')]], None
        elif tag in ('polyline', 'polygon'):
            kind, cmds = 'path', points_commands(numbers(a['points']))
            if tag == 'polygon':
                cmds.append(['L'] + cmds[0][1:])
        elif tag == 'path':
            kind, cmds = 'path', path_commands(a['d'])
        elif tag in ('circle', 'ellipse'):
            kind, cmds = 'round', [['M', f('cx'), f('cy')]]
            # the axes of the ellipse
            radii = [f('r'), f('r')] if tag == 'circle' else [f('rx'), f('ry')]
            r = [m[0] * radii[0], m[1] * radii[0], m[2] * radii[1], m[3] * radii[1]]
        elif tag == 'text':
            kind, cmds = 'text', [['M', f('x'), f('y')]]
        elif tag == 'image':
            kind, cmds = 'image', [['M', f('x'), f('y')], ['L', f('x') + f('width'), f('y') + f('height')]]
        else:
            raise ValueError('element ' + tag)
        cmds = [[cmd[0]] + sum((at(*cmd[n:n + 2]) for n in range(1, len(cmd), 2)), []) for cmd in cmds]
        prim = make(kind, cmds, stroke, fill, ''.join(element.itertext()).strip() if tag == 'text' else '', r)
        prim['font'] = state.get('font-size'), state.get('font-family')
        page.append(prim)

    visit(root, {}, [1, 0, 0, 1, 0, 0])
    return dict(root.attrib), page


def pdf_streams(data):
    for part in data.split(b'endobj'):
        m = re.search(rb'0 obj\s*<<(.*?)>>\s*stream\r?\n(.*)endstream', part, re.S)
        if not m:
            continue
        head, body = m.groups()
        for name in re.findall(rb'/(ASCII85Decode|FlateDecode|A85|Fl)\b', head):
            if name in (b'ASCII85Decode', b'A85'):
                body = body.strip()
                body = base64.a85decode(b'<~' + body if not body.startswith(b'<~') else body, adobe=True)
            else:
                body = zlib.decompress(body)
        if b'/Subtype' not in head:
            yield body


def pdf_tokens(data):
    text = data.decode('latin-1')
    n = 0
    while n < len(text):
        ch = text[n]
        if ch.isspace():
            n += 1
        elif ch == '(':
            out, depth, n = '', 1, n + 1
            while depth:
                ch = text[n]
                if ch == '\\':
                    octal = re.match(r'[0-7]{1,3}', text[n + 1:n + 4])
                    if octal:
                        out += chr(int(octal.group(), 8))
                        n += 1 + len(octal.group())
                        continue
                    out += {'n': '\n', 'r': '\r', 't': '\t'}.get(text[n + 1], text[n + 1])
                    n += 2
                    continue
                depth += (ch == '(') - (ch == ')')
                if depth:
                    out += ch
                n += 1
            yield ('s', out.encode('latin-1').decode('cp1252'))
        elif ch in '[]':
            yield ('o', ch)
            n += 1
        elif text[n:n + 2] in ('<<', '>>'):
            n += 2
        else:
            m = re.match(r'[^\s\[\]()<>]+', text[n:])
            word = m.group()
            n += len(word)
            try:
                yield ('n', float(word))
            except ValueError:
                yield ('o', word)


def read_pdf(path):
    """(sizes of the pages, page) of a PDF file of one page, in points"""
    data = open(str(path), 'rb').read()
    boxes = [numbers(m.decode()) for m in re.findall(rb'/MediaBox\s*\[([^\]]*)\]', data)]
    page = []
    state = {'m': [1, 0, 0, 1, 0, 0], 'stroke': [0, 0, 0], 'fill': [0, 0, 0], 'w': 1, 'dash': []}
    stack, args, cmds, array = [], [], [], None
    tm = [1, 0, 0, 1, 0, 0]

    def mul(a, b):
        """a then b"""
        return [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
                a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5]]

    def at(values, m=None):
        m = m or state['m']
        return sum(([m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]] for x, y in zip(values[::2], values[1::2])), [])

    def paint(stroke, fill):
        s = {'c': list(state['stroke']), 'w': state['w'] * math.sqrt(abs(state['m'][0] * state['m'][3] - state['m'][1] * state['m'][2])), 'dash': state['dash'], 'a': 1} if stroke else None
        page.append(make('path', list(cmds), s, {'c': list(state['fill']), 'a': 1} if fill else None))
        cmds.clear()

    for body in pdf_streams(data):
        for kind, value in pdf_tokens(body):
            if kind != 'o':
                (args if array is None else array).append(value)
                continue
            if value == '[':
                array = []
                continue
            if value == ']':
                args.append(array)
                array = None
                continue
            if value.startswith('/'):
                args.append(value)
                continue
            if value == 'q':
                stack.append(dict(state))
            elif value == 'Q':
                state = stack.pop()
            elif value == 'cm':
                state['m'] = mul(args, state['m'])
            elif value == 'w':
                state['w'] = args[0]
            elif value == 'd':
                state['dash'] = args[0]
            elif value in ('RG', 'rg'):
                state['stroke' if value == 'RG' else 'fill'] = [round(255 * x) for x in args]
            elif value in ('G', 'g'):
                state['stroke' if value == 'G' else 'fill'] = [round(255 * args[0])] * 3
            elif value in ('m', 'l', 'c'):
                cmds.append([value.upper()] + at(args))
            elif value == 'h':
                cmds.append(['L'] + cmds[0][1:])
            elif value in ('S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*'):
                if value in 'sb':
                    cmds.append(['L'] + cmds[0][1:])
                paint(value[0] in 'SsBb', value[0] in 'fFBb')
            elif value == 'n':
                cmds.clear()
            elif value == 'BT':
                tm = [1, 0, 0, 1, 0, 0]
            elif value == 'Tm':
                tm = args
            elif value == 'Td':
                tm = mul([1, 0, 0, 1, *args], tm)
            elif value == 'Tj':
                page.append(make('text', [['M'] + at([0, 0], mul(tm, state['m']))], text=args[0]))
            elif value not in ('ET', 'Tf', 'TL', 'T*', 'gs', 'j', 'J', 'M', 'BMC', 'EMC', 'BDC', 'Tr', 'i'):
                raise ValueError('operator ' + value)
            args = []
    # a dot is a filled shape
    for prim in page:
        if prim['kind'] == 'path' and prim['fill']:
            xs = [v for cmd in prim['cmds'] for v in cmd[-2:-1]]
            ys = [v for cmd in prim['cmds'] for v in cmd[-1:]]
            prim['kind'] = 'dot'
            prim['cmds'] = [['M', (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2]]
    return boxes, page


def read_dxf(path):
    import ezdxf
    document = ezdxf.readfile(str(path))
    errors = [str(x.message) for x in document.audit().errors]
    page = []
    for entity in document.modelspace():
        kind, dxf = entity.dxftype(), entity.dxf
        stroke = None
        if kind in ('LINE', 'SPLINE', 'LWPOLYLINE'):
            name = dxf.get('linetype', 'BYLAYER').upper()
            if name not in ('BYLAYER', 'BYBLOCK') and name not in document.linetypes:
                errors.append('undefined line type ' + name)
            rgb = entity.rgb if dxf.hasattr('true_color') else None
            if name in ('CONTINUOUS', 'BYLAYER', 'BYBLOCK'):
                dash = []
            elif name == 'PHANTOM':
                dash, rgb = 'phantom', ()
            else:
                dash = list(document.linetypes.get(name).simplified_line_pattern())
            if dxf.get('invisible', 0):
                continue
            if rgb is None:
                rgb = ezdxf.colors.aci2rgb(dxf.color) if 0 < dxf.get('color', 256) < 256 else (0, 0, 0)
            stroke = {'c': list(rgb), 'w': None, 'dash': dash, 'a': 1}
        if kind == 'LINE':
            page.append(make('path', [['M', *dxf.start.vec2], ['L', *dxf.end.vec2]], stroke))
        elif kind == 'SPLINE':
            points = [p[:2] for p in entity.control_points]
            knots = list(entity.knots)
            flat = dxf.degree == 3 and len(points) == 4 and (not knots or (len(set(knots[:4])) == 1 and len(set(knots[4:])) == 1 and len(knots) == 8))
            if not flat:
                errors.append('spline {} {} {}'.format(dxf.degree, points, knots))
            page.append(make('path', [['M', *points[0]], ['C'] + [float(v) for p in points[1:] for v in p]], stroke))
        elif kind == 'TEXT':
            page.append(make('text', [['M', *entity.get_placement()[1].vec2]], text=dxf.text))
        else:
            page.append(make(kind, []))
    return errors, page


def read_tex(path):
    """list of figures (options, clip, label, page) of a TeX file"""
    text = re.sub(r'(?<!\\)%.*', '', open(str(path), encoding='utf8').read())
    figures = []
    for options, body in re.findall(r'\\begin\{tikzpicture\}\[(.*?)\](.*?)\\end\{tikzpicture\}', text, re.S):
        names, page, clip, label = {}, [], None, None

        def at(where):
            where = where.strip()
            if where in names:
                return names[where]
            x, y = where.split(',')
            return [float(x), float(y)]

        def split(options):
            """options separated by commas, out of braces"""
            out, depth = [''], 0
            for ch in options:
                depth += (ch == '{') - (ch == '}')
                if ch == ',' and not depth:
                    out.append('')
                else:
                    out[-1] += ch
            return [x.strip() for x in out if x.strip()]

        def style(options):
            s = {'c': [0, 0, 0], 'w': .4, 'dash': [], 'a': 1}
            none = False
            for option in split(options):
                key, _, value = option.partition('=')
                key, value = key.strip(), value.strip()
                if key == 'line width':
                    m = re.fullmatch(r'([\d.]+)\s*(pt)?', value)
                    s['w'] = float(m.group(1))
                elif key == 'dash pattern':
                    s['dash'] = [float(x) for x in re.findall(r'(?:on|off)\s*([\d.]+)\s*mm', value)]
                elif key == 'draw' and value == 'none':
                    none = True
                elif key in ('color', 'draw') and value:
                    m = re.fullmatch(r'\{?\s*rgb\s*,\s*255\s*:\s*red\s*,\s*(\d+)\s*;\s*green\s*,\s*(\d+)\s*;\s*blue\s*,\s*(\d+)\s*\}?', value)
                    s['c'] = [int(x) for x in m.groups()] if m else xcolor(value)
                elif key == 'solid':
                    pass
                elif not value:
                    s['c'] = xcolor(key)
                else:
                    raise ValueError('option ' + option)
            return None if none else s

        for statement in body.split(';\n'):
            statement = re.sub(r'\\(?:fontsize\{[^}]*\}\{[^}]*\}\\selectfont|color\{[^}]*\})', '', statement).strip()
            if not statement:
                continue
            m = re.fullmatch(r'\\coordinate\s*\((.*?)\)\s*at\s*\((.*?)\)', statement)
            if m:
                names[m.group(1)] = at(m.group(2))
                continue
            m = re.fullmatch(r'\\draw\s*\[clip\](.*?)-- *cycle', statement, re.S)
            if m:
                clip = [at(p) for p in re.findall(r'\(([^)]*)\)', m.group(1))]
                continue
            m = re.fullmatch(r'\\draw\s*\[\s*\]\s*\((.*?)\)\s*node\[(.*?)\]\s*\{(.*)\}', statement, re.S)
            if m:
                if clip is None and 'south west' in m.group(2):
                    label = m.group(3), at(m.group(1))
                else:
                    page.append(make('text', [['M'] + at(m.group(1))], text=m.group(3)))
                continue
            m = re.fullmatch(r'\\fill\s*\[(.*?)\]\s*\((.*?)\)\s*circle\s*\((.*?)\)', statement)
            if m:
                page.append(make('dot', [['M'] + at(m.group(2))], fill={'c': xcolor(m.group(1)), 'a': 1}))
                continue
            m = re.fullmatch(r'\\draw\s*\[(.*)\]\s*(\(.*\))', statement, re.S)
            options2, route = m.groups()
            cmds = []
            places = [at(p) for p in re.findall(r'\(([^)]*)\)', route)]
            if 'controls' in route:
                cmds = [['M'] + places[0], ['C'] + places[1] + places[2] + places[3]]
            else:
                cmds = [['L' if n else 'M'] + p for n, p in enumerate(places)]
            page.append(make('path', cmds, style(options2)))
        figures.append((options, clip, label, page))
    return text, figures


def xcolor(name):
    base = {'black': [0, 0, 0], 'white': [255] * 3, 'red': [255, 0, 0], 'green': [0, 255, 0], 'blue': [0, 0, 255], 'gray': [128] * 3,
            'yellow': [255, 255, 0], 'cyan': [0, 255, 255], 'magenta': [255, 0, 255]}
    if name not in base:
        raise ValueError('undefined colour of TeX: ' + name)
    return base[name]


def read_mpl(figure):
    axes = figure.axes[0]
    from matplotlib import patches, text
    page = []
    todo = [x for x in axes.get_children() if x.get_visible() and x not in axes.spines.values() and x is not axes.patch]
    for artist in sorted(todo, key=lambda x: x.get_zorder()):
        if isinstance(artist, patches.Circle):
            page.append(make('dot', [['M', *artist.center]], fill={'c': [round(255 * x) for x in artist.get_facecolor()[:3]], 'a': artist.get_facecolor()[3]}))
        elif isinstance(artist, patches.PathPatch):
            cmds, codes, vertices = [], list(artist.get_path().codes), [list(map(float, v)) for v in artist.get_path().vertices]
            n = 0
            while n < len(codes):
                size = {1: 1, 2: 1, 4: 3}[int(codes[n])]
                cmds.append([{1: 'M', 2: 'L', 4: 'C'}[int(codes[n])]] + sum(vertices[n:n + size], []))
                n += size
            edge = artist.get_edgecolor()
            dash = artist.get_linestyle()
            if isinstance(dash, str):
                dash = {'solid': [], '-': [], 'dashed': [6, 3], '--': [6, 3], 'dotted': [1, 2], ':': [1, 2], 'dashdot': [6, 3, 1, 3], '-.': [6, 3, 1, 3]}.get(dash, dash)
            else:
                dash = list(dash[1] or [])
            stroke = {'c': [round(255 * x) for x in edge[:3]] if edge[3] else [], 'w': artist.get_linewidth(), 'dash': dash, 'a': edge[3]}
            face = artist.get_facecolor()
            page.append(make('path', cmds, stroke, {'c': [round(255 * x) for x in face[:3]], 'a': face[3]} if face[3] else None))
        elif isinstance(artist, text.Text) and artist.get_text():
            page.append(make('text', [['M', *artist.get_position()]], text=artist.get_text()))
    return page


####################################################################################################

def expected(page):
    """the page of the specification, as those which are read"""
    out = []
    for prim in page:
        cmds = [[cmd['o']] + [vf.rat(v) for p in cmd['p'] for v in p] for cmd in prim['cmds']]
        s, f = prim['stroke'], prim['fill']
        stroke = {'c': s['c'], 'w': vf.rat(s['w']), 'dash': s['dash'], 'a': vf.rat(s['a']), 'cap': s['cap'], 'join': s['join']} if s['dash'] else None
        fill = {'c': f['c'], 'a': vf.rat(f['a'])} if f['c'] else None
        out.append({'own': prim['own'], 'kind': prim['kind'], 'cmds': cmds, 'stroke': stroke, 'fill': fill, 'txt': prim['txt'], 'r': [vf.rat(x) for x in prim['r']]})
    return out


def tidy(cmds):
    """without lines of no length"""
    out = []
    for cmd in cmds:
        if cmd[0] == 'L' and out and all(abs(a - b) < 1e-9 for a, b in zip(cmd[1:], out[-1][-2:])):
            continue
        out.append(cmd)
    return out


def seen(prim):
    """is it visible"""
    if prim['kind'] in ('path', 'arc', 'round'):
        s, f = prim['stroke'], prim['fill']
        return bool(s and (s['c'] or s['dash'] == 'phantom') and s['a']) or bool(f and f['c'] and f['a'])
    return True


def same_cmds(a, b, tol):
    a, b = tidy(a), tidy(b)
    return len(a) == len(b) and all(x[0] == y[0] and len(x) == len(y) and all(abs(u - v) <= tol * max(1, abs(v)) for u, v in zip(x[1:], y[1:])) for x, y in zip(a, b))


def same_stroke(got, want, long, tol=1e-3):
    """long: the length of a dash, for a width"""
    if want is None:
        return got is None or not got['c']
    if got is None or got['c'] != want['c']:
        return False
    if want['dash'] == 'phantom' or got['dash'] == 'phantom':
        return got['dash'] == want['dash']
    if got['w'] is not None and abs(got['w'] - want['w']) > tol:
        return False
    if isinstance(got['dash'], str):
        return False
    return dash_of(got['dash'], long(want['w'])) == want['dash'] and abs(got['a'] - want['a']) < .01


def write_tex(painter):
    """a TeX painter has no method to write its document"""
    from Patro.GraphicEngine.TeX.Document import Document
    document, = [x for x in vars(painter).values() if isinstance(x, Document)]
    document.write()


def mark_problem(b, g, w):
    """what is wrong in a mark of a file of format *b*, against the one of the specification"""
    if b == 'svg' and g['kind'] == 'round':
        g['kind'], g['stroke'] = 'dot', None if not g['stroke']['c'] else g['stroke']
    if g['kind'] != w['kind']:
        return 'has a {} instead of a {} (item {})'.format(g['kind'], w['kind'], w['own'])
    if not same_cmds(g['cmds'], w['cmds'], TOLERANCE[b]):
        return 'has {} instead of {} (item {})'.format(g['cmds'], w['cmds'], w['own'])
    if w['kind'] == 'text':
        if g['txt'] != w['txt']:
            return 'has the text {} instead of {}'.format(g['txt'], w['txt'])
        return None
    if w['kind'] == 'dot':
        if g['stroke'] or (g['fill'] or {}).get('c') != [0, 0, 0]:
            return 'has a dot drawn as {}'.format(g)
        return None
    if g['fill'] and g['fill']['c']:
        return 'has a filled line: {}'.format(g)
    if not same_stroke(g['stroke'], w['stroke'], lambda width: LONG[b]):
        return 'has the style {} instead of {} (item {})'.format(g['stroke'], w['stroke'], w['own'])
    return None
