"""Detail scene of a sketch"""
import contextlib
import io

import sketches
import vf
from geo import box, same_points, xy

COLORS = ['black', 'red', 'blue', 'deeppink']
TYPES = {'circle': 'CircleItem', 'segment': 'SegmentItem', 'text': 'TextItem', 'cubic': 'CubicBezierItem'}
LABELS = [(0, 1), (0, 1), (1, 1), (-1, 1), (1, 2), (-9, 4), (1, 4)]


def main(ck):
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.GraphicScene import GraphicItem
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
    from Patro.GraphicStyle import Colors, StrokeStyle
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Pattern.Pattern import Pattern
    from Patro.Pattern.SketchStyle import DetailSketchStyle

    rng = ck.rng
    styles = ['SolidLine', 'DashLine', 'DotLine', 'NoPen', 'DashDotLine']
    generator = sketches.Generator(rng, styles=styles, colors=COLORS, refused=0)
    builder = sketches.Builder(rng)
    default = GraphicPathStyle()

    class Scene(GraphicScene):
        pass

    def make():
        case = generator.generate(rng.randrange(1, 11))
        case['ops'] = [op for op in case['ops'] if 'name' not in op or op['name'] in generator.at]
        for op in case['ops']:
            if 'name' in op:
                op['lab'] = [list(rng.choice(LABELS)), list(rng.choice(LABELS))]
                op['label'] = [a / b for a, b in op['lab']]
                if op['t'] not in ('along', 'end', 'normal') or rng.random() < .2:
                    # no line
                    op['style'] = op['color'] = None
            op['ls'], op['lc'] = op.get('style') or '', op.get('color') or ''
        names = [op['name'] for op in case['ops'] if 'name' in op]
        case['moves'] = [{'n': rng.choice(names), 'v': [[rng.randrange(-20, 20), 1], [rng.randrange(-20, 20), 1]]} for _ in range(rng.randrange(3))]
        if rng.random() < .5:
            case['st'] = {'label': '2', 'line': '3', 'construction': '1.5', 'size': '0.2', 'color': 'black', 'font': '16'}
        else:
            case['st'] = {'label': rng.choice(('.5', '4')), 'line': rng.choice(('1', '2.5')), 'construction': rng.choice(('.25', '7')),
                          'size': rng.choice(('.1', '3')), 'color': rng.choice(COLORS), 'font': rng.choice(('8', '12'))}
        return case

    def style_of(case):
        st = case['st']
        if st['size'] == '0.2':
            return None if rng.random() < .5 else DetailSketchStyle()
        values = {'label_line_width': float(st['label']), 'line_width': float(st['line']), 'construction_line_width': float(st['construction']),
                  'point_size': float(st['size']), 'point_color': st['color'], 'font_size': float(st['font'])}
        if rng.random() < .5:
            return DetailSketchStyle(**values)
        style = DetailSketchStyle(font_size=values.pop('font_size'))
        for k, v in values.items():
            setattr(style, k, v)
        return style

    def observe(case, scene, row, operations, expect):
        items = list(scene)
        drawing = row['drawing']
        expect('number of items', len(items) == len(drawing), ([type(x).__name__ for x in items], [x['kind'] for x in drawing]))
        if len(items) != len(drawing):
            return
        # the items of an operation are together, in any order
        j = 0
        while j < len(drawing):
            n = j
            while n < len(drawing) and drawing[n]['op'] == drawing[j]['op']:
                n += 1
            operation = operations[drawing[j]['op'] - 1]
            mine = items[j:n]
            expect('data of the items', all(x.user_data is operation for x in mine))
            owned = scene.item_for_user_data(operation)
            expect('items of the operation', owned is not None and len(owned) == n - j and all(any(x is y for y in mine) for x in owned), owned)
            left = list(mine)
            for want in drawing[j:n]:
                bads = []
                for item in left:
                    bad = compare(case, item, want, operation)
                    if not bad:
                        left.remove(item)
                        break
                    bads.append(bad)
                else:
                    expect('item {}'.format(want), False, bads)
            j = n
        points = dict((a, b) for a, b in row['pts'])
        expect('coordinates', sorted(x.name for x in scene.coordinates) == sorted(points), [x.name for x in scene.coordinates])
        for name, p in points.items():
            expect('coordinate ' + name, same_points([scene.cast_position(name)], [p]), scene.cast_position(name))

    def compare(case, item, want, operation):
        st = case['st']
        if type(item) is not getattr(GraphicItem, TYPES[want['kind']]):
            return 'type {}'.format(type(item).__name__)
        if not same_points(item.casted_positions, want['pts']):
            return 'at {} instead of {}'.format(item.casted_positions, want['pts'])
        if want['kind'] == 'text':
            if item.text != operation.name or float(item.font.point_size) != float(st['font']):
                return 'text {} {}'.format(item.text, item.font.point_size)
            return None
        style = item.path_style
        ws = want['style']
        if want['kind'] == 'circle':
            if not (item.radius == float(st['size']) and item.is_closed and style.fill_color == Colors.ensure_color(st['color'])):
                return 'circle {} {}'.format(item.radius, style.fill_color)
        elif style.fill_color is not None:
            return 'filled'
        if style.line_width_as_float != float(ws['width']):
            return 'line width {}'.format(style.line_width)
        if style.stroke_style != (StrokeStyle[ws['line']] if ws['line'] else default.stroke_style):
            return 'line {}'.format(style.stroke_style)
        if style.stroke_color != (Colors.ensure_color(ws['color']) if ws['color'] else default.stroke_color):
            return 'colour {}'.format(style.stroke_color)
        return None

    def replay(case, rows):
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{}: {}'.format(name, got))
        with contextlib.redirect_stdout(io.StringIO()):
            ms = ValentinaMeasurements()
            for m in case['ms']:
                ms.add(sketches.MEASUREMENTS[m['n']], repr(m['v'][0] / m['v'][1]))
            sketch = Pattern(ms, 'cm').add_scope('piece').sketch
            objects, operations = {}, []
            each = rng.random() < .2
            for k, op in enumerate(case['ops']):
                kwargs = builder.arguments(op, lambda n: rng.choice((n, objects[n], objects[n].id)), Vector2D)
                if op['ls']:
                    kwargs['line_style'] = StrokeStyle[op['ls']]
                if op['lc']:
                    kwargs['line_color'] = op['lc']
                operation = getattr(sketch, sketches.KIND[op['t']])(**kwargs)
                operations.append(operation)
                if 'name' in op:
                    objects[op['name']] = operation
                if each:
                    sketch.eval()
                    observe(case, sketch.detail_scene(style=style_of(case)), rows[k + 1], operations, expect)
            sketch.eval()
            cls = rng.choice((GraphicScene, Scene))
            n = len(case['ops'])
            scene = sketch.detail_scene(scene_cls=cls, style=style_of(case))
            expect('class of the scene', type(scene) is cls)
            observe(case, scene, rows[n], operations, expect)
            points = [xy(p) for op in case['ops'] for p in op['_g']]
            b = box(scene.bounding_box)
            e = (min(p[0] for p in points), min(p[1] for p in points), max(p[0] for p in points), max(p[1] for p in points))
            expect('bounding box', all(vf.close(x, y) for x, y in zip(b, e)), (b, e))
            other = sketch.detail_scene(style=style_of(case))
            for j, move in enumerate(case['moves']):
                scene.add_coordinate(move['n'], Vector2D(*xy(move['v'])))
                observe(case, scene, rows[n + 1 + j], operations, expect)
            # another scene of the sketch is independent
            observe(case, other, rows[n], operations, expect)
        if bad:
            ck.violation('drawing of {}: {}'.format([{k: v for k, v in op.items() if k != '_g'} for op in case['ops']], '; '.join(bad[:3])), {'case': case})

    cases = [make() for _ in range(ck.pick(250, 3000))]
    cases = [c for c in cases if c['ops']]
    rows = ck.tlc('Detail', {'Depth': 0}, init='DrawInit', next='DrawNext', invariants=('DrawLaws',), properties=('Grows',), constraint='EmitDrawing',
                  inputs=[strip(c) for c in cases], jobs=8).rows
    outs = [{} for _ in cases]
    for row in rows:
        outs[row['i'] - 1][row['k']] = row
    for case, out in zip(cases, outs):
        last = out[len(case['ops'])]['drawing']
        for j, op in enumerate(case['ops']):
            marks = [x for x in last if x['op'] == j + 1]
            op['_g'] = [marks[0]['pts'][0]] if 'name' in op else marks[0]['pts']
        replay(case, out)
        ck.traces += 1
        for op in case['ops']:
            ck.note(op['t'])
        if ck.full:
            return
    ck.samples += [str(c)[:600] for c in cases[:2]]
    ck.assumptions.append('Sketches whose points all have one solution.')


def strip(case):
    ops = [{k: v for k, v in op.items() if k not in ('label', 'style', 'color')} for op in case['ops']]
    return {'ms': case['ms'], 'ops': ops, 'moves': case['moves'], 'st': case['st']}
