"""Drawing a scene by Qt: to a SVG picture, in a window"""
import copy
import os
import sys

import painters
import vf
from F03 import complete
from painters import expected, same_cmds, same_stroke, seen

TOLERANCE = 2e-5   # numbers of six digits


def main(ck):
    os.environ['QT_QPA_PLATFORM'] = 'offscreen'
    os.environ.setdefault('XDG_RUNTIME_DIR', ck.tmp)
    from QtShim.QtCore import QRectF, QSize
    from QtShim.QtGui import QGuiApplication, QPainter
    from QtShim.QtSvg import QSvgGenerator
    application = QGuiApplication.instance() or QGuiApplication(['vf'])
    from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtQuickPaintedSceneItem, QtScene

    rng = ck.rng
    world = painters.World()
    names = sorted(world.Colors.iter_names())
    kinds = ['segment', 'cubic', 'text', 'circle', 'polyline', 'polygon', 'ellipse', 'quadratic', 'path', 'image']

    def same_fill(got, want):
        if not want or not want['a']:
            return not got or not got['c'] or not got['a']
        return got and got['c'] == want['c'] and abs(got['a'] - want['a']) < .01

    def compare(got, want, items, dpi):
        got, want = [p for p in got if seen(p)], [p for p in want if seen(p)]
        if len(got) != len(want):
            return 'has {} marks instead of {}: {} instead of {}'.format(len(got), len(want), [p['kind'] for p in got], [(p['own'], p['kind']) for p in want])
        for g, w in zip(got, want):
            where = '(item {})'.format(w['own'])
            if w['kind'] == 'arc' and g['kind'] == 'path':
                # the points where it crosses the axes
                g['kind'] = 'arc'
                g['cmds'] = [['L' if n else 'M'] + cmd[-2:] for n, cmd in enumerate(g['cmds'])]
                g['fill'] = g['fill'] if g['fill'] and g['fill']['c'] else None
            if g['kind'] != w['kind']:
                return 'has a {} instead of a {} {}'.format(g['kind'], w['kind'], where)
            if w['kind'] == 'image':
                xs, ys = ([sorted(cmd[n] for cmd in p['cmds']) for p in (g, w)] for n in (1, 2))
                if any(abs(a - b) > TOLERANCE * max(1, abs(b)) for x in (xs, ys) for a, b in zip(*x)) or g['cmds'][0][1] > g['cmds'][1][1] or g['cmds'][0][2] > g['cmds'][1][2]:
                    return 'has an image in {} instead of {} {}'.format(g['cmds'], w['cmds'], where)
                continue
            if not same_cmds(g['cmds'], w['cmds'], TOLERANCE * (5 if w['kind'] in ('arc', 'round') else 1) if w['kind'] != 'text' else .02):
                return 'has {} instead of {} {}'.format(g['cmds'], w['cmds'], where)
            if w['kind'] == 'text':
                size = items[w['own']].font.point_size * dpi / 72
                if g['txt'] != w['txt'] or g['fill']['c'] != [0, 0, 0] or abs(float(g['font'][0]) - size) > 1e-3 * size or g['font'][1] != 'Times':
                    return 'has the text {} in {} {} instead of {} {}'.format(g['txt'], g['font'], g['fill'], w['txt'], where)
                continue
            if w['kind'] == 'round':
                # the axes: turned, they are those of the item
                item = items[w['own']]
                axes = g['r']
                if len(w['r']) != 2 or any(abs((axes[2 * n] ** 2 + axes[2 * n + 1] ** 2) ** .5 - w['r'][n]) > 1e-4 * max(1, w['r'][n]) for n in (0, 1)):
                    return 'has the radii {} instead of {} {}'.format(axes, w['r'], where)
                if hasattr(item, 'angle') and hasattr(item, 'radius_x'):
                    # y is downward
                    import math
                    c, s = math.cos(math.radians(item.angle)), math.sin(math.radians(item.angle))
                    if abs(axes[0] * -s - axes[1] * c) > 1e-3 * max(1, w['r'][0]) or abs(axes[2] * c - axes[3] * s) > 1e-3 * max(1, w['r'][1]):
                        return 'has the axes {} instead of an angle of {} {}'.format(axes, item.angle, where)
            if not same_fill(g['fill'], w['fill']):
                return 'is filled by {} instead of {} {}'.format(g['fill'], w['fill'], where)
            if not same_stroke(g['stroke'], w['stroke'], lambda width: 2 * (width if width >= .5 else 1)):
                return 'has the style {} instead of {} {}'.format(g['stroke'], w['stroke'], where)
            if w['stroke'] and (g['stroke']['cap'] != painters.CAPS[w['stroke']['cap']] or g['stroke']['join'] != painters.JOINS[w['stroke']['join']]):
                return 'has the ends {} instead of {} {}'.format(g['stroke'], w['stroke'], where)
        return None

    def check_grid(page, grid, size):
        """the lines of the grid are before the items"""
        def lines(rows):
            out = set()
            for a, b in rows:
                line = tuple(sorted((round(a[0], 2), round(a[1], 2)) if isinstance(a[0], float) else tuple(round(vf.rat(v), 2) for v in a) for a in (a, b)))
                out.add(line)
            return out

        def inner(lines):
            # a line on the edge of the window may be lost
            return {line for line in lines if not any(line[0][n] == line[1][n] and min(abs(line[0][n]), abs(line[0][n] - size[n])) < .02 for n in (0, 1))}

        def near(a, b):
            return all(any(all(abs(u - v) < .02 for p, r in zip(x, y) for u, v in zip(p, r)) for y in b) for x in a)

        n = 0
        for name, width in (('thick', .75), ('thin', .25)):
            want = lines(grid[name])
            rows = []
            while n < len(page) and page[n]['kind'] == 'path' and page[n]['stroke'] and abs(page[n]['stroke']['w'] - width) < 1e-6 and len(rows) < len(want) + 4:
                cmds = page[n]['cmds']
                if len(cmds) != 2 or page[n]['stroke']['c'] != [0, 0, 0] or page[n]['stroke']['dash']:
                    break
                line = lines([(tuple(map(float, cmds[0][1:])), tuple(map(float, cmds[1][1:])))])
                if not near(line, want) and not near(line, {x for x in lines(grid['thin'])}) and inner(line):
                    break
                rows += line
                n += 1
            if not near(inner(set(rows)), want) or not near(inner(want), set(rows)):
                return n, 'has the {} grid {} instead of {}'.format(name, sorted(rows)[:40], sorted(want)[:40])
        return n, None

    def draw(scene, items, op, row):
        path = os.path.join(ck.tmp, 'picture.svg')
        want = expected(row['page'])
        if op['b'] == 'qt':
            scale = vf.rat(op['scale'])
            kwargs = {} if scale == 10 and op['dpi'] == 100 else dict(scale=scale, dpi=op['dpi'], title='T', description='D')
            QtPainter(scene).to_svg(path, **kwargs)
            attributes, page = painters.read_svg(path)
            box = scene.bounding_box
            view = [box.x.inf * scale, -box.y.sup * scale, box.x.length * scale, box.y.length * scale]
            got = painters.numbers(attributes['viewBox'])
            if len(got) != 4 or any(abs(a - b) > 1e-4 * max(1, abs(b)) for a, b in zip(got, view)):
                return 'has the view box {} instead of {}'.format(got, view)
            # a pixel of the size is an integer
            for name, n in (('width', 2), ('height', 3)):
                mm = painters.numbers(attributes[name])[0]
                if abs(mm / 25.4 * op['dpi'] - view[n]) > 1:
                    return 'has the {} {} instead of {} pixels'.format(name, attributes[name], view[n])
            return compare(page, want, items, op['dpi'])
        window = QtQuickPaintedSceneItem()
        steps = [lambda: setattr(window, 'scene', scene), lambda: window.geometryChanged(QRectF(0, 0, *op['size']), QRectF())]
        for step in (steps if op['first'] else steps[::-1]):
            step()
        generator = QSvgGenerator()
        generator.setFileName(path)
        generator.setSize(QSize(*op['size']))
        generator.setViewBox(QRectF(0, 0, *op['size']))
        painter = QPainter()
        painter.begin(generator)
        failures = []
        # it is called by Qt, which has no exception
        hook, sys.excepthook = sys.excepthook, lambda *args: failures.append(args[1])
        try:
            window.paint(painter)
        finally:
            painter.end()
            sys.excepthook = hook
        if failures:
            raise failures[0]
        page = painters.read_svg(path)[1]
        n, problem = check_grid(page, row['grid'], op['size'])
        return problem or compare(page[n:], want, items, 72)

    def replay(case, rows, cls=None):
        scene, items = world.new_scene(case, cls), {}
        history = []
        rows = iter(rows)
        for op in case['ops']:
            history.append(op)
            if op['o'] != 'draw':
                world.edit(scene, items, op)
                continue
            row = next(rows)
            ck.note('{} {}'.format(op['b'], row['res']))
            got = vf.outcome(draw, scene, items, op, row)
            if row['res'] == 'refused':
                problem = None if got[0] == 'err' and got[1] == 'NotImplementedError' else 'is not refused: {}'.format(got)
            else:
                problem = got[1] if got[0] == 'ok' else 'fails: {}'.format(got)
            if problem:
                ck.violation('a {} picture {}'.format(op['b'], problem), {'case': {**case, 'ops': history}, 'expected': row})
                return
        ck.traces += 1

    laws = ('Ordered', 'Whole1', 'Refused', 'Similar', 'Inside', 'Grid')

    # 1. every history of a bounded model
    depth = ck.pick(4, 5)
    res = ck.tlc('Painter', {'Depth': depth}, init='ModelInit', next='ModelNext', invariants=laws + ('EmitModel',), properties=('Untouched', 'Progress'),
                 inputs=[{}], workers=8, timeout=ck.pick(300, 800), heap='8g')
    rows = {vf.freeze(row['h']): row for row in res.rows}
    ck.note('histories of the bounded model', len(rows))
    pictures = [h for h, row in rows.items() if row['h'][-1]['b'] == 'qt' and all(op['o'] != 'draw' or op['b'] == 'qt' for op in row['h'])]
    A, V = world.AffineTransformation2D, world.Vector2D
    known = world.transformation
    world.transformation = lambda name: known(name) if name else A.Translation(V(1, 0)) * A.Rotation(90)
    for h in rng.sample(pictures, min(len(pictures), ck.pick(500, 6000))):
        ops = copy.deepcopy(rows[h]['h'])
        wanted = []
        for n, op in enumerate(ops):
            if op['o'] == 'draw':
                op['dpi'] = 100
                wanted.append(rows[vf.freeze(rows[h]['h'][:n + 1])])
            if op['o'] == 'add':
                complete(op['x'])
        replay({'box': [0, 0, 4, 4], 'tname': None, 'ops': ops}, wanted)
        if ck.full:
            return
    ck.exhaustive.append('bounded model: histories of {} operations on three items and a coordinate, drawn by seven back-ends'.format(depth))

    # 2. random scenes
    def picture():
        return {'o': 'draw', 'b': 'qt', 'scale': rng.choice([[10, 1], [10, 1], [3, 2], [25, 1]]), 'dpi': rng.choice([100, 72]), 'size': [100, 100]}

    def view():
        if rng.random() < .2:
            return {**picture(), 'dpi': 100}
        return {'o': 'draw', 'b': 'quick', 'scale': [1, 1], 'size': [51 * rng.choice([2, 4, 8, 3, 6]) for _ in 'xy'], 'first': rng.random() < .5}

    generator = painters.Generator(rng, names, kinds, screen=True)
    odd = painters.Generator(rng, names, kinds + ['rectangle'], screen=True)
    for what, drawing, cls, n in (('pictures', picture, None, ck.pick(800, 10000)), ('windows', view, QtScene, ck.pick(500, 6000))):
        cases = [(odd if rng.random() < .1 else generator).case(drawing, rng.randrange(4, 16), **({'names': ['identity'], 'sides': [5, 10, 20, 120, 150]} if cls else {})) for _ in range(n)]
        world.resolve(cases)
        res = ck.tlc('Painter', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=laws + ('Emit',), properties=('Untouched', 'Progress'), inputs=cases, jobs=8)
        outs = {}
        for row in res.rows:
            outs.setdefault(row['i'], {})[row['k']] = row
        for j, case in enumerate(cases, 1):
            replay(case, [outs[j][k] for k in sorted(outs[j])], cls)
            if ck.full:
                return
        ck.note('random scenes for ' + what, len(cases))
        ck.samples.append({'case': cases[0]})
    ck.assumptions += ['Qt runs without a screen: a window is painted on a SVG picture', 'the bounding box of a scene is given by the user, as the library does']
    del application
