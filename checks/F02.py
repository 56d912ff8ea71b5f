"""SVG documents: inheritance of the states, values of the elements, writing"""
import itertools
import os
from fractions import Fraction

from lxml import etree

import vf
from geo import rat, same, same_points, text

NS = 'http://www.w3.org/2000/svg'


def fraction(x):
    x = Fraction(x)
    return [x.numerator, x.denominator]


# state -> name in the file
ATTRIBUTES = ('fill', 'stroke', 'stroke_width', 'stroke_linecap', 'stroke_linejoin', 'stroke_miterlimit', 'stroke_dasharray')
GROUP_ATTRIBUTES = ATTRIBUTES + ('font_size', 'font_family')
STYLES = ('fill', 'stroke', 'stroke_width', 'stroke_linecap', 'stroke_linejoin', 'stroke_miterlimit', 'fill_opacity', 'stroke_opacity', 'fill_rule',
          'font_size', 'visibility', 'font_size_adjust')
COLORS = ('red', '#112233', 'none', 'inherit', 'blue', '#abc', 'rgb(1, 2, 3)')
VALUES = dict(
    fill=COLORS, stroke=COLORS, stroke_width=('2', '0.5', '3.25', 'inherit', '10'), stroke_linecap=('butt', 'round', 'square', 'inherit'),
    stroke_linejoin=('miter', 'round', 'bevel', 'inherit'), stroke_miterlimit=('4', '1.5', 'inherit', '0'),
    stroke_dasharray=('5,3', '5 3', '1.5, 2 ,3', '  4', '2.5'),
    fill_opacity=('0.5', '1', '0', 'inherit', '5e-1'), font_size_adjust=('0.5', 'none'), stroke_opacity=('0.25', '1'), fill_rule=('nonzero', 'evenodd', 'inherit'),
    font_size=('12px', '10', 'inherit', 'small'), font_family=('Verdana', 'inherit', 'Times New Roman'), visibility=('visible', 'hidden', 'inherit'),
)
LENGTHS = ('2px', '3.5mm', '1in', '50%', '12.5%', '.5em', '0.25pt')
KINDS = ('circle', 'ellipse', 'line', 'polyline', 'polygon', 'rect', 'path')
FLOATS = dict(circle=('cx', 'cy', 'r'), ellipse=('cx', 'cy', 'rx', 'ry'), line=('x1', 'y1', 'x2', 'y2'), rect=('x', 'y', 'rx', 'ry'))


def main(ck):
    from Patro.Common.Xml.Objectivity import BoolAttribute
    from Patro.FileFormat.Svg import SvgFormat
    from Patro.FileFormat.Svg.SvgFile import SvgFile, SvgFileInternal, SvgFileWriter
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GraphicEngine.Painter.Paper import PaperSize

    rng = ck.rng
    classes = dict(circle=SvgFormat.Circle, ellipse=SvgFormat.Ellipse, line=SvgFormat.Line, polyline=SvgFormat.Polyline,
                   polygon=SvgFormat.Polygon, rect=SvgFormat.Rect, path=SvgFormat.Path)

    class Reader(SvgFileInternal):

        def __init__(self, path, data=None):
            self.events = []
            super().__init__(path, data)

        def on_group(self, group):
            super().on_group(group)
            self.events.append(('group', group, None))

        def on_graphic_item(self, item):
            super().on_graphic_item(item)
            self.events.append(('item', item, self._dispatcher.state.clone().merge(item)))

    ################################################################################################

    def number():
        return rng.choice((str(rng.randrange(-20, 21)), '{:.1f}'.format(rng.uniform(-9, 9)), '{:.3f}'.format(rng.uniform(-9, 9)), '1e1'))

    def transform():
        """(text, map)"""
        name = rng.choice(('translate', 'scale', 'rotate', 'matrix'))
        if name == 'translate':
            x, y = rng.randrange(-9, 10), rng.randrange(-9, 10)
            return 'translate({},{})'.format(x, y), (1, 0, 0, 1, x, y)
        if name == 'scale':
            x, y = rng.choice((1, 2, -1)), rng.choice((1, 2, -1, 3))
            return 'scale({},{})'.format(x, y), (x, 0, 0, y, 0, 0)
        if name == 'rotate':
            a = rng.choice((90, -90, 180))
            c, s = {90: (0, 1), -90: (0, -1), 180: (-1, 0)}[a]
            return 'rotate({})'.format(a), (c, -s, s, c, 0, 0)
        a, b, c, d, e, f = (rng.randrange(-2, 3) for _ in range(6))
        return 'matrix({},{},{},{},{},{})'.format(a, b, c, d, e, f), (a, c, b, d, e, f)

    def rational(m):
        m = [fraction(x) for x in m]
        return [m[:4], m[4:]]

    def geometry(kind):
        """Attributes of an element"""
        res = {}
        for name in FLOATS.get(kind, ()):
            if rng.random() < .9:
                res[name] = number()
        if kind in ('polyline', 'polygon'):
            res['points'] = ' '.join(number() + ',' + number() for _ in range(rng.randrange(2, 5)))
        elif kind == 'path':
            res['d'] = 'M {} {} l {} {}'.format(*(number() for _ in range(4)))
        elif kind == 'rect':
            res['width'], res['height'] = str(rng.randrange(1, 20)), str(rng.randrange(1, 20))
        return res

    counter = itertools.count()

    def element(event, small=False):
        e = {'event': event, 'id': 'i{}'.format(next(counter)), 'attributes': [], 'style': [], 'transform': []}
        if event == 'item':
            e['kind'] = rng.choice(KINDS)
            e['geometry'] = geometry(e['kind'])
        names = GROUP_ATTRIBUTES if event == 'open' else ATTRIBUTES
        for name in rng.sample(names, rng.choice((0, 0, 1, 2, 3))):
            values = VALUES[name]
            if name == 'stroke_width' and rng.random() < .3:
                values = LENGTHS
            e['attributes'].append([name, rng.choice(values)])
        if rng.random() < .4:
            for name in rng.sample(STYLES, rng.choice((1, 1, 2, 3))):
                e['style'].append([name, rng.choice(VALUES[name])])
        if rng.random() < .5:
            e['transform'] = [transform() for _ in range(rng.choice((1, 1, 2)))]
        return e

    def document(events):
        case = {'events': [], 'view': []}
        if rng.random() < .8:
            case['view'] = [fraction(Fraction(rng.randrange(-9, 10), 2)) for _ in range(2)] + [fraction(Fraction(rng.randrange(1, 99), 2)) for _ in range(2)]
        case['events'] = events
        return case

    def random_events():
        events, depth = [], 0
        for _ in range(rng.randrange(1, 14)):
            t = rng.random()
            if t < .3 and depth < 5:
                events.append(element('open'))
                depth += 1
            elif t < .5 and depth:
                events.append({'event': 'close'})
                depth -= 1
            elif t < .85:
                events.append(element('item'))
            else:
                events.append({'event': 'skip'})
        return events + [{'event': 'close'}] * depth

    ################################################################################################

    def style_text(style):
        if not style:
            return None
        pad = rng.choice(('', ' '))
        return (';' + pad).join('{}:{}{}'.format(name.replace('_', '-'), pad, value) for name, value in style) + rng.choice(('', ';', '; '))

    def attributes(e):
        res = dict(e.get('geometry', {}))
        if e['id'] is not None:
            res['id'] = e['id']
        for name, value in e['attributes']:
            res[name.replace('_', '-')] = value
        style = style_text(e['style'])
        if style is not None:
            res['style'] = style
        if e['transform']:
            res['transform'] = ' '.join(t for t, m in e['transform'])
        items = list(res.items())
        rng.shuffle(items)
        return items

    def quote(value):
        return value.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')

    def xml(case):
        prefix = rng.choice(('', '', '', 's:'))
        root = '<{0}svg xmlns{1}="{2}" version="1.1"'.format(prefix, ':s' if prefix else '', NS)
        if case['view']:
            x = ['{:g}'.format(rat(v)) for v in case['view']]
            root += ' viewBox="{}"'.format(rng.choice((' ', ',', ', ', '  ')).join(x))
        for name in ('width', 'height'):
            if case[name] is not None:
                root += ' {}="{}"'.format(name, case[name])
        lines = [root + '>']
        skips = ('<!-- {} -->'.format('a comment'), '<{0}title>A title</{0}title>'.format(prefix), '<?pi data?>', '<{0}desc/>'.format(prefix),
                 '<{0}defs><{0}rect id="no" width="1" height="1"/><{0}g id="no"/></{0}defs>'.format(prefix), '<{0}text x="1">Text</{0}text>'.format(prefix),
                 'some text')
        for e in case['events']:
            if e['event'] == 'close':
                lines.append('</{}g>'.format(prefix))
            elif e['event'] == 'skip':
                lines.append(rng.choice(skips))
            else:
                tag = prefix + ('g' if e['event'] == 'open' else e['kind'])
                line = '<' + tag + ''.join(' {}="{}"'.format(name, quote(value)) for name, value in attributes(e))
                lines.append(line + ('>' if e['event'] == 'open' else rng.choice(('/>', '></{}>'.format(tag)))))
        return '\n'.join(lines + ['</{}svg>'.format(prefix)])

    ################################################################################################

    def abstract(case):
        events = []
        for e in case['events']:
            if e['event'] in ('open', 'item'):
                events.append([e['event'], e['id'], e['attributes'], e['style'], [rational(m) for t, m in e['transform']]])
            else:
                events.append([e['event']])
        return {'events': events, 'view': case['view']}

    def length(value, expected):
        """Is it the length of the file?"""
        if expected.endswith('%'):
            return vf.close(value, float(expected[:-1]) / 100)
        unit = expected.lstrip('0123456789.')
        return vf.close(value, float(expected[:len(expected) - len(unit)])) and (not unit or value.unit == unit)

    def same_value(name, value, expected):
        if expected == 'default':
            default = getattr(SvgFormat.PresentationAttributes, name)
            return value == default
        if expected == 'none':
            return value is None
        if name == 'stroke_dasharray':
            return [float(x) for x in value] == [float(x) for x in expected.replace(',', ' ').split()]
        if expected in LENGTHS and name == 'stroke_width':
            return length(value, expected)
        try:
            number = float(expected)
            return isinstance(value, (int, float)) and vf.close(value, number)
        except ValueError:
            return value == expected

    def entries(t):
        a = t.array
        return [float(a[i, j]) for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (1, 2))]

    def check_item(item, e, expect):
        kind = e['kind']
        expect('class', type(item) is classes[kind], type(item).__name__)
        for name in FLOATS.get(kind, ()):
            value = e['geometry'].get(name)
            got = getattr(item, name)
            expect(name, got is None if value is None else vf.close(got, float(value)), got)
        for name in ('points', 'width', 'height'):
            if name in e['geometry']:
                expect(name, getattr(item, name) == e['geometry'][name], getattr(item, name))
        if kind == 'path':
            d = e['geometry']['d'].split()
            path = item.path_data
            expect('path', vf.close(path.p0.x, float(d[1])) and vf.close(path.p0.y, float(d[2])) and len(path) == 1, path)

    def check_document(reader, case, row, expect):
        out = row['out']
        by_id = {e['id']: e for e in case['events'] if 'id' in e}
        expect('events', [(kind, x.id) for kind, x, state in reader.events] == [(o['event'], o['id']) for o in out],
               [(kind, x.id) for kind, x, state in reader.events])
        for (kind, x, state), o in zip(reader.events, out):
            e = by_id.get(x.id)
            if e is None:
                continue
            given = dict(e['attributes'])
            for name in GROUP_ATTRIBUTES if kind == 'group' else ATTRIBUTES:
                value = getattr(x, name)
                g = given.get(name)
                good = value is None if g is None else value == g if isinstance(value, str) else same_value(name, value, g)
                expect('{} {}'.format(x.id, name), good, value)
            if kind == 'item':
                check_item(x, e, lambda what, good, got=None: expect('{} {}'.format(x.id, what), good, got))
                s = o['state']
                for name, value in s['values'].items():
                    ck.note('given' if value != 'default' else 'default')
                    expect('{} state {}'.format(x.id, name), same_value(name, getattr(state, name), value), getattr(state, name))
                expect('{} transform'.format(x.id), all(vf.close(a, rat(b)) for a, b in zip(entries(state.transform), s['map']['m'] + s['map']['t'])),
                       state.transform)
        if row['box']:
            b = reader.view_box
            expect('view box', all(vf.close(x, rat(y)) for x, y in zip((b.x.inf, b.y.inf, b.x.sup, b.y.sup), row['box'])), b)
        else:
            expect('no view box', reader.view_box is None)
        expect('size', (reader.width, reader.height) == (case['width'], case['height']), (reader.width, reader.height))

    ################################################################################################

    def read(case):
        data = case['xml']
        t = rng.random()
        if t < .3:
            path = os.path.join(ck.tmp, 'a.svg')
            with open(path, 'w', encoding='utf8') as fh:
                fh.write('<?xml version="1.0" encoding="UTF-8"?>\n' + data)
            if t < .05:
                SvgFile(path)
            return Reader(path)
        if t < .6:
            return Reader(None, data.encode('utf8'))
        return Reader('a.svg', '\n' + data)

    def write(case):
        """Write a list of elements in a group"""
        tree = []
        transformation = None
        for e in case['events']:
            if e['event'] == 'open':
                x = e['transform'][0][1]
                transformation = AffineTransformation2D([x[0], x[1], x[4], x[2], x[3], x[5], 0, 0, 1])
            elif e['event'] == 'item':
                kwargs = {}
                for name, value in e['geometry'].items():
                    if name == 'd':
                        name = 'path_data'
                    elif name in ('x', 'y', 'cx', 'cy', 'r', 'rx', 'ry', 'x1', 'y1', 'x2', 'y2') and rng.random() < .5:
                        value = float(value)
                    kwargs[name] = value
                kwargs['id'] = e['id']
                for name, value in e['attributes']:
                    if name == 'stroke_dasharray' and rng.random() < .5:
                        value = [float(x) for x in value.replace(',', ' ').split()]
                    kwargs[name] = value
                style = style_text(e['style'])
                if style is not None:
                    kwargs['style'] = style
                if e['transform']:
                    kwargs['transform'] = ' '.join(t for t, m in e['transform'])
                item = classes[e['kind']](**kwargs)
                if rng.random() < .3: # the names of the attributes in Python
                    item = classes[e['kind']](etree.fromstring(item.to_xml_string()))
                tree.append(item)
        path = os.path.join(ck.tmp, 'w.svg')
        SvgFileWriter(path, case['paper'], tree, transformation)
        reader = Reader(path)
        if transformation is not None:
            # the group of the transformation has no identifier
            kind, group, state = reader.events[0]
            group.id = case['events'][0]['id']
        return reader

    cases = []
    for n in range(ck.pick(500, 6000)):
        case = document(random_events())
        case['kind'] = 'read'
        cases.append(case)
    # every tree of five events
    small = 0
    for shape in itertools.product(('open', 'close', 'item', 'skip'), repeat=ck.pick(5, 6)):
        depth = 0
        for s in shape:
            depth += {'open': 1, 'close': -1}.get(s, 0)
            if depth < 0:
                break
        if depth < 0 or (not ck.thorough and rng.random() < .5 and 'close' not in shape):
            continue
        small += 1
        events = [element(s) if s in ('open', 'item') else {'event': s} for s in shape] + [{'event': 'close'}] * depth
        case = document(events)
        case['kind'] = 'read'
        cases.append(case)
    ck.note('small trees', small)
    ck.exhaustive.append('trees of {} events'.format(ck.pick('(sampled) five', 'six')))
    for n in range(ck.pick(200, 2000)):
        paper = PaperSize(rng.choice(('A4', 'A3', 'a0', 'B5')), rng.choice(('portrait', 'landscape')), rng.randrange(0, 30))
        events = [element('item') for _ in range(rng.randrange(0, 5))]
        if rng.random() < .6:
            group = {'event': 'open', 'id': 'group', 'attributes': [], 'style': [], 'transform': [transform()]}
            events = [group] + events + [{'event': 'close'}]
        size = ['{:.3f}'.format(x) for x in (paper.width, paper.height)]
        cases.append({'kind': 'write', 'events': events, 'paper': paper, 'width': size[0] + 'mm', 'height': size[1] + 'mm',
                      'view': [[0, 1], [0, 1]] + [fraction(Fraction(x)) for x in size]})
    for case in cases:
        if case['kind'] == 'read':
            for name in ('width', 'height'):
                case[name] = rng.choice((None, '100', '120.5mm', '100%'))
            case['xml'] = xml(case)
    rows = ck.tlc('SvgDoc', init='DocInit', next='DocNext', invariants=('Balanced', 'Inheritance'), properties=('Frozen',), constraint='Emit',
                  inputs=[abstract(case) for case in cases], jobs=8).rows
    for row in rows:
        case = cases[row['i'] - 1]
        bad = []

        def expect(what, good, got=None):
            if not good:
                bad.append('{} {}'.format(what, got))
        o = vf.outcome(read if case['kind'] == 'read' else write, case)
        if o[0] == 'ok':
            o = vf.outcome(check_document, o[1], case, row, expect)
        if o[0] != 'ok':
            bad.append(str(o[1:]))
        ck.traces += 1
        ck.note(case['kind'])
        if bad:
            ck.violation('{} {}: {}'.format(case['kind'], case.get('xml') or case['events'], '; '.join(bad[:4])),
                         {'case': case.get('xml') or str(case['events']), 'expected': row})
            if ck.full:
                return
    ck.samples += [case['xml'] for case in cases[:2]]

    ################################################################################################
    #
    # Rectangles are paths
    #

    rectangles = []
    for _ in range(ck.pick(100, 1500)):
        x, y, w, h, r = (rng.randrange(-9, 9), rng.randrange(-9, 9), rng.randrange(3, 12), rng.randrange(3, 12), rng.choice((0, 0, .5, 1)))
        a = {'width': str(w), 'height': '{:.1f}'.format(h)}
        if x or rng.random() < .3:
            a['x'] = str(x)
        if y or rng.random() < .3:
            a['y'] = str(y)
        which = rng.randrange(3)
        if r or rng.random() < .3:
            if which != 1:
                a['rx'] = str(r)
            if which != 0:
                a['ry'] = str(r)
        if r:
            ops = [['rounded', [w, 1], [h, 1], fraction(Fraction(r))]]
        else:
            zero = [0, 1]
            ops = [['line', [[w, 1], zero], False, zero], ['line', [zero, [h, 1]], False, zero], ['line', [[-w, 1], zero], False, zero],
                   ['close', zero, zero]]
        rectangles.append({'a': a, 'p0': [[x, 1], [y, 1]], 'ops': ops})
    rows = ck.tlc('Paths', init='PathInit', next='PathNext', invariants=('PathLaws',), constraint='PathEmit',
                  inputs=[{'p0': x['p0'], 'ops': x['ops']} for x in rectangles], jobs=8).rows

    def check_rectangle(a, row):
        bad = []
        element = etree.Element('rect')
        for name, value in a.items():
            element.set(name, value)
        path = SvgFormat.Rect(element).geometry
        if not same(path.p0, row['p0']) or not path.is_closed or len(path) != row['n']:
            bad.append('path {}'.format(path))
        for part, o in zip(path, row['parts']):
            if not (same(part.start_point, o['start']) and same(part.stop_point, o['stop']) and same_points(part.points, o['straight'], 1e-8)):
                bad.append('side {}'.format([text(p) for p in part.points]))
            if (part.radius is not None) != o['rounded']:
                bad.append('corner {}'.format(part.radius))
            elif o['rounded'] and not (vf.close(part.radius, rat(o['corner'][0]['r'])) and same(part.bulge_center, o['corner'][0]['center'], 1e-8)):
                bad.append('corner {}'.format(part.bulge_center))
        return bad
    for row in rows:
        case = rectangles[row['i'] - 1]
        if row['k'] != len(case['ops']):
            continue
        ck.traces += 1
        ck.note('rectangle')
        o = vf.outcome(check_rectangle, case['a'], row)
        bad = o[1] if o[0] == 'ok' else [str(o[1:])]
        if bad:
            ck.violation('rectangle {}: {}'.format(case['a'], '; '.join(bad[:3])), {'case': case, 'expected': row})
            if ck.full:
                return

    ################################################################################################
    #
    # Texts and styles: what is written is what is read
    #

    for _ in range(ck.pick(100, 1000)):
        content = rng.choice(('', 'Text', 'a < b & c', ' spaces ', 'é "quoted"'))
        x, y = number(), number()
        cls = rng.choice((SvgFormat.Text, SvgFormat.Style))
        kwargs = dict(text=content)
        if cls is SvgFormat.Text:
            kwargs.update(x=float(x), y=y, font_size='12px', id='t', _class='normal', fill='red')
        ck.traces += 1
        ck.note('text')

        def trip():
            element = etree.fromstring(cls(**kwargs).to_xml_string())
            good = (element.text or '') == content
            other = cls(element)
            good = good and other.text == content
            if cls is SvgFormat.Text:
                good = good and vf.close(other.x, float(x)) and vf.close(other.y, float(y)) and other.fill == 'red'
                good = good and element.get('font-size') == '12px' and element.get('class') == 'normal'
            return good
        o = vf.outcome(trip)
        if o != ('ok', True):
            ck.violation('{} {}: {}'.format(cls.__name__, kwargs, o), {'case': kwargs})
            if ck.full:
                return
    for value, expected in ((True, True), (False, False), ('true', True), ('false', False), ('1', True), ('0', False)):
        o = vf.outcome(BoolAttribute.from_xml, value)
        if o != ('ok', expected) or BoolAttribute.to_xml(expected) != str(expected).lower():
            ck.violation('boolean {!r}: {}'.format(value, o))
    ck.assumptions.append('No opacity nor transform in a style, no nested svg element; the dashes are given by attributes; the radii of a rectangle are the same and '
                          'fit in it; the coordinates have no unit.')
