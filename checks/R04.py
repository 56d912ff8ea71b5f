"""View of a scene in a window"""
import os

import vf


def main(ck):
    os.environ['QT_QPA_PLATFORM'] = 'offscreen'
    os.environ.setdefault('XDG_RUNTIME_DIR', ck.tmp)
    import warnings
    warnings.simplefilter('ignore')
    from IntervalArithmetic import Interval2D
    from QtShim.QtCore import QPointF, QRectF
    from QtShim.QtGui import QGuiApplication
    application = QGuiApplication.instance() or QGuiApplication(['vf'])
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
    from Patro.GraphicEngine.Painter.QtPainter import QtQuickPaintedSceneItem, QtScene, ViewportArea

    rng = ck.rng
    style = GraphicPathStyle()

    class Size:

        def __init__(self, w, h):
            self.w, self.h = w, h

        def width(self):
            return self.w

        def height(self):
            return self.h

    def make_scene(op):
        scene = QtScene()
        x0, y0, x1, y1 = op['box']
        scene.bounding_box = Interval2D((x0, x1), (y0, y1))
        items = [scene.segment(Vector2D(*s[:2]), Vector2D(*s[2:]), style, user_data=j) for j, s in enumerate(op['items'], 1)]
        return scene, items

    def floats(p):
        return [vf.rat(x) for x in p]

    def pair(p):
        try:
            return [p.x(), p.y()]
        except (AttributeError, TypeError):
            return [float(x) for x in p]

    def same(a, b):
        return len(a) == len(b) and all(vf.close(x, vf.rat(y)) for x, y in zip(a, b))

    class Window:
        """the item of the Qt Quick scene"""

        def __init__(self):
            self.item = QtQuickPaintedSceneItem()
            self.scene, self.items = None, []

        @property
        def view(self):
            return self.item

        def apply(self, op):
            item, o = self.item, op['o']
            if o == 'size':
                return vf.outcome(item.geometryChanged, QRectF(0, 0, *op['v']), QRectF())
            if o == 'scene':
                self.scene, self.items = make_scene(op)
                return vf.outcome(setattr, item, 'scene', self.scene)
            if o == 'fit':
                return vf.outcome(item.fit_scene)
            if o == 'zoomc':
                return vf.outcome(lambda: item.zoom_at_center(item.zoom * vf.rat(op['z'])))
            p = QPointF(*floats(op['p']))
            if o == 'zoom':
                return vf.outcome(lambda: item.zoom_at(p, item.zoom * vf.rat(op['z'])))
            if o == 'pan':
                return vf.outcome(item.pan, p)
            if o == 'select':
                if op['n'] == 10:
                    return vf.outcome(item.item_at, p)
                return vf.outcome(item.item_at, p, op['n'])
            return vf.outcome(self.look, op)

        def look(self, op):
            item = self.item
            x, y = floats(op['p'])
            a = [float(z) for z in item.format_coordinate(QPointF(x, y)).split(',')]
            return a, pair(item.scene_to_viewport(Vector2D(x, y))), item.length_scene_to_viewport(x), item.length_viewport_to_scene(x)

        precision = 6e-4   # of the text of a position

        def state(self):
            return self.item.zoom, None, self.item.scene_area

        def selected(self):
            return [j for j, x in enumerate(self.items, 1) if x.selected]

    class Area(Window):
        """the viewport, alone"""

        precision = 1e-7

        def __init__(self):
            self.item = ViewportArea()
            self.scene, self.items = None, []

        def apply(self, op):
            item, o = self.item, op['o']
            if o == 'size':
                return vf.outcome(setattr, item, 'viewport_size', Size(*op['v']))
            if o == 'scene':
                self.scene, self.items = make_scene(op)
                return vf.outcome(lambda: (setattr(item, 'scene', self.scene), item.fit_scene()))
            if o == 'fit':
                return vf.outcome(item.fit_scene)
            if o == 'zoomc':
                return vf.outcome(lambda: item.zoom_at(item.center, item.scale_px_by_mm * vf.rat(op['z'])))
            if o == 'select':
                # the selection is not a matter of the viewport
                return None
            p = QPointF(*floats(op['p']))
            if o == 'zoom':
                return vf.outcome(lambda: item.zoom_at(item.viewport_to_scene(p), item.scale_px_by_mm * vf.rat(op['z'])))
            if o == 'pan':
                return vf.outcome(lambda: item.zoom_at(item.center + item.pan_delta_to_scene(p), item.scale_px_by_mm))
            return vf.outcome(self.look, op)

        def look(self, op):
            item = self.item
            x, y = floats(op['p'])
            return pair(item.viewport_to_scene(QPointF(x, y))), pair(item.scene_to_viewport(Vector2D(x, y))), item.length_scene_to_viewport(x), item.length_viewport_to_scene(x)

        def state(self):
            if not vf.close(self.item.scale_px_by_mm * self.item.scale_mm_by_px, 1):
                return 0, None, None
            return self.item.scale_px_by_mm, self.item.center, self.item.area

        def selected(self):
            return None

    def judge(driver, op, got, row):
        out, see = row['out'], row['see']
        bad = []
        if got is not None:
            if got[0] != 'ok':
                return ['gives {}'.format(got)]
            if op['o'] == 'look' and out['x']:
                a, b, d, e = out['x']
                tol = driver.precision
                x = got[1]
                if any(abs(u - vf.rat(v)) > tol for u, v in zip(x[0], a)) or not same(x[1], b) or not vf.close(x[2], vf.rat(d)) or not vf.close(x[3], vf.rat(e)):
                    bad.append('sees {} instead of {}'.format(x, [floats(a), floats(b), vf.rat(d), vf.rat(e)]))
            if op['o'] == 'select' and driver.selected() != sorted(see['selected']):
                bad.append('selects {} instead of {}'.format(driver.selected(), see['selected']))
        if see['shown']:
            scale, center, area = driver.state()
            if not vf.close(scale, vf.rat(see['scale'])):
                bad.append('scale {} instead of {}'.format(scale, see['scale']))
            if center is not None and not same(list(center), see['center']):
                bad.append('center {} instead of {}'.format(list(center), see['center']))
            edges = None if area is None else (area.x.inf, area.y.inf, area.x.sup, area.y.sup)
            if edges is None or not same(edges, see['area']):
                bad.append('area {} instead of {}'.format(edges, floats(see['area'])))
        return bad

    def replay(cls, ops, outs):
        driver = cls()
        history = []
        for op, row in zip(ops, outs):
            if row['out']['res'] == 'skip':
                continue
            history.append(op)
            bad = judge(driver, op, driver.apply(op), row)
            if bad:
                ck.violation('{}: after {}, {}'.format(cls.__doc__, history, '; '.join(bad)), {'history': history, 'expected': row})
                return
        ck.traces += 1

    # 1. every history of a bounded model
    depth = ck.pick(5, 6)
    laws = ('Laws', 'Fitted', 'Prompt')
    res = ck.tlc('Viewport', {'Depth': depth}, init='ModelInit', next='ModelNext', invariants=laws + ('EmitHistory',), inputs=[{}], workers=8,
                 timeout=ck.pick(200, 800))
    rows = {vf.freeze(row['t']): row for row in res.rows}
    ck.note('histories of the bounded model', len(rows))
    longest = [h for h in rows if len(h) == depth]
    for h in rng.sample(longest, min(len(longest), ck.pick(1500, 20000))):
        prefixes = [rows[h[:n]] for n in range(1, depth + 1)]
        replay(rng.choice((Window, Area)), rows[h]['t'], prefixes)
        if ck.full:
            return
    ck.exhaustive.append('bounded model: {} operations, two windows, two scenes'.format(depth))

    # 2. random histories
    def pixel():
        return [rng.choice([0, 25, 50, 100, 75, 150, 200]), 1]

    def size():
        return {'o': 'size', 'v': [51 * rng.choice([1, 2, 4, 8, 3, 6]), 51 * rng.choice([1, 2, 4, 8, 3, 6])]}

    def scene():
        x0, y0 = rng.randint(-20, 20), rng.randint(-20, 20)
        w, h = rng.choice([(10, 20), (20, 10), (5, 10), (40, 20), (10, 10), (20, 5), (0, 10), (20, 0)])
        items = []
        for _ in range(rng.randint(1, 4)):
            x, y, n = x0 + rng.randint(0, 10), y0 + rng.randint(0, 10), rng.randint(1, 9)
            items.append([x, y, x + n, y] if rng.random() < .5 else [x, y, x, y + n])
        return {'o': 'scene', 'box': [x0, y0, x0 + w, y0 + h], 'items': items}

    def history():
        ops = [scene(), size()]
        rng.shuffle(ops)
        zooms = 0
        if rng.random() < .3:
            ops.insert(1, {'o': 'fit'})
        for _ in range(rng.randint(2, 6)):
            r = rng.random()
            if .2 <= r < .45:
                zooms += 1
                if zooms > 2:
                    continue
            if r < .08:
                ops.append(size())
            elif r < .14:
                ops.append(scene())
            elif r < .2:
                ops.append({'o': 'fit'})
            elif r < .35:
                ops.append({'o': 'zoom', 'p': [pixel(), pixel()], 'z': rng.choice([[2, 1], [1, 2], [1, 1]])})
            elif r < .45:
                ops.append({'o': 'zoomc', 'z': rng.choice([[2, 1], [1, 2], [4, 1]])})
            elif r < .6:
                ops.append({'o': 'pan', 'p': [[rng.choice([-1, 1]) * pixel()[0], 1], [rng.choice([-1, 1]) * pixel()[0], 1]]})
            elif r < .8:
                ops.append({'o': 'look', 'p': [pixel(), pixel()]})
            else:
                ops.append({'o': 'select', 'p': [pixel(), pixel()], 'n': rng.choice([10, 10, 3, 25])})
        return ops

    cases = [{'ops': history()} for _ in range(ck.pick(2500, 30000))]
    res = ck.tlc('Viewport', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=laws + ('Emit',), inputs=cases, jobs=8, drop=True)
    outs = {}
    for row in res.rows:
        outs.setdefault(row['i'], {})[row['k']] = row
    for j, case in enumerate(cases, 1):
        if j not in outs:
            continue
        rows = [outs[j][n] for n in range(1, len(case['ops']) + 1)]
        for cls in (Window, Area):
            replay(cls, case['ops'], rows)
        if ck.full:
            return
    ck.note('random histories', len(cases))
    ck.samples.append({'history': cases[0]['ops']})
    ck.assumptions += ['Qt runs without a screen (offscreen)', 'the bounding box of a scene is given by the user, as the library does']
    del application
