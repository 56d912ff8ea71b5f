"""Graphic scene"""
from functools import partial
import math

import vf
from geo import box, same_points

TRANSFORMATIONS = {'none': [1, 0, 0, 1, 0, 0], 'identity': [1, 0, 0, 1, 0, 0], 'move': [1, 0, 0, 1, 3, -2], 'turn': [0, -1, 1, 0, 0, 0],
                   'scale': [2, 0, 0, 3, 0, 0], 'half': [-1, 0, 0, -1, 1, 0]}
COUNT = {'segment': 2, 'rectangle': 2, 'circle': 1, 'text': 1, 'cubic': 4, 'quadratic': 3, 'polyline': 4, 'polygon': 3, 'image': 2, 'ellipse': 1, 'path': 2}
ROUND = 'circle', 'ellipse'


class Data:
    """data of the user, which are equal and have the same hash but are not the same"""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


def main(ck):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.GraphicScene.GraphicItem import PathItem
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene

    rng = ck.rng
    style = GraphicPathStyle()

    def transformation(name):
        if name == 'move':
            from Patro.GeometryEngine.Transformation import AffineTransformation2D as A
            return A.Translation(Vector2D(3, -2))
        if name == 'turn':
            return AffineTransformation2D.Rotation(90)
        if name == 'scale':
            return AffineTransformation2D.Scale(2, 3)
        if name == 'half':
            return AffineTransformation2D.Translation(Vector2D(1, 0)) * AffineTransformation2D.Rotation(180)
        return AffineTransformation2D.Identity()

    class Driver:

        def __init__(self, t):
            if t == 'none':
                self.scene = GraphicScene()
            else:
                self.scene = GraphicScene(transformation(t))
            self.items = {}
            self.data = {d: Data() for d in 'uvw'}

        def apply(self, op):
            scene = self.scene
            o = op['o']
            if o == 'coord':
                return vf.outcome(scene.add_coordinate, op['n'], Vector2D(*op['v']))
            if o == 'uncoord':
                return vf.outcome(scene.remove_coordinate, op['n'])
            if o == 'add':
                positions = [p['n'] or Vector2D(*p['v']) for p in op['pos']]
                kind = op['kind']
                data = self.data[op['data']] if op['data'] else None
                method = partial(scene.add_item, PathItem) if kind == 'path' else getattr(scene, {'cubic': 'cubic_bezier', 'quadratic': 'quadratic_bezier'}.get(kind, kind))
                args = [positions] if kind in ('polyline', 'polygon') else positions
                if kind == 'text':
                    args += ['text', Font('', 12)]
                elif kind == 'image':
                    args.append(None)
                elif kind == 'circle':
                    args += [op['r'], style]
                elif kind == 'ellipse':
                    args += [op['r'], op['s'], 0, style]
                elif kind == 'path':
                    args = [positions[0], style]
                else:
                    args.append(style)
                if rng.random() < .5:
                    got = vf.outcome(method, *args, user_data=data)
                else:
                    got = vf.outcome(method, *args, data)
                if got[0] == 'ok':
                    self.items[op['k']] = got[1]
                    if kind == 'path':
                        got[1].line_to(positions[1])
                return got
            if o == 'unselect':
                return vf.outcome(scene.unselect_items)
            if o == 'update':
                return vf.outcome(scene.update_rtree)
            if o == 'query':
                return vf.outcome(lambda: scene.item_in_bounding_box(tuple(x / 10 for x in op['q'])))
            if o == 'at':
                return vf.outcome(lambda: scene.item_at(Vector2D(*(x / 10 for x in op['p'])), 1.3))
            item = self.items.get(op['k'])
            if o == 'remove':
                return vf.outcome(scene.remove_item, item)
            if o == 'z':
                item.z_value = op['z']
            elif o == 'vis':
                item.visible = op['b']
            elif o == 'sel':
                item.selected = op['b']
            elif o == 'line':
                item.line_to(op['p']['n'] or Vector2D(*op['p']['v']))
            elif o == 'close':
                item.close()
            elif o == 'dirty':
                item.dirty = True
            elif o == 'ask':
                return vf.outcome(lambda: (item.geometry, item.bounding_box))
            return ('ok', None)

        def name(self, item):
            return next((k for k, v in self.items.items() if v is item), None)

        def names(self, items):
            return [self.name(x) for x in items or ()]

        def judge(self, op, got, out):
            """problem of the result of an operation"""
            if (got[0] == 'ok') != (out['res'] == 'ok'):
                return 'gives {}'.format(got)
            if got[0] != 'ok':
                return None
            o, x = op['o'], out['x']
            if o == 'query' and sorted(map(str, self.names(got[1]))) != sorted(map(str, x)):
                return 'finds {} instead of {}'.format(self.names(got[1]), x)
            if o == 'at':
                found = [(self.name(item), d) for d, item in got[1]]
                if [d for _, d in found] != sorted(d for _, d in found):
                    return 'is not sorted: {}'.format(found)
                want = {n: abs(math.sqrt(a / b) / 10 - r) for n, (a, b), r in x['near']}
                p = [v / 10 for v in op['p']]
                for n, points, *radii in x['curves']:
                    d = self.distance(points, radii, p)
                    if d < 1.3 - 1e-6 or n in dict(found) and d < 1.3 + 1e-6:
                        want[n] = d
                found = dict(found)
                if set(found) != set(want) or any(not vf.close(found[n], want[n], 1e-6) for n in want):
                    return 'finds {} instead of {}'.format(found, want)
            if o == 'ask':
                geometry, bounding_box = got[1]
                kind = self.kinds[op['k']]
                if kind == 'path':
                    points = [geometry.p0] + [part.stop_point for part in geometry]
                    if self.items[op['k']].is_closed:
                        points.pop()
                else:
                    points = [geometry.center] if kind in ROUND else list(geometry.points)
                if kind == 'text':
                    points = points[:1]
                if not same_points(points, [[[a, 1], [b, 1]] for a, b in x]):
                    return 'has the points {} instead of {}'.format(points, x)
                r, s = self.radii[op['k']]
                want = (min(p[0] for p in x) - r, min(p[1] for p in x) - s, max(p[0] for p in x) + r, max(p[1] for p in x) + s)
                if any(not vf.close(a, b) for a, b in zip(box(bounding_box), want)):
                    return 'has the bounding box {} instead of {}'.format(box(bounding_box), want)
            return None

        def distance(self, points, radii, p):
            """of a point to a curve of control points, or to an ellipse"""
            def at(t):
                if len(points) == 1:
                    (x, y), (a, b) = points[0], radii
                    x, y = x + a * math.cos(2 * math.pi * t), y + b * math.sin(2 * math.pi * t)
                else:
                    q = points
                    while len(q) > 1:
                        q = [((1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1]) for a, b in zip(q, q[1:])]
                    x, y = q[0]
                return math.hypot(x - p[0], y - p[1])
            low, high, n = 0, 1, 200
            while high - low > 1e-9:
                ts = [low + (high - low) * j / n for j in range(n + 1)]
                best = min(range(n + 1), key=lambda j: at(ts[j]))
                low, high, n = ts[max(best - 1, 0)], ts[min(best + 1, n)], 10
            return at((low + high) / 2)

        def see(self, see):
            scene = self.scene
            bad = []
            if self.names(scene) != see['order'] or len(scene) != len(see['order']) or scene.number_of_items != len(see['order']):
                bad.append('items {} instead of {}'.format(self.names(scene), see['order']))
            if self.names(scene.z_value_iter()) != see['stacked']:
                bad.append('stacking {} instead of {}'.format(self.names(scene.z_value_iter()), see['stacked']))
            if sorted(self.names(scene.selected_items)) != sorted(see['selected']):
                bad.append('selection {} instead of {}'.format(self.names(scene.selected_items), see['selected']))
            for d, want in see['owned'].items():
                got = self.names(scene.item_for_user_data(self.data[d]))
                if sorted(map(str, got)) != sorted(map(str, want)):
                    bad.append('items of {}: {} instead of {}'.format(d, got, want))
            coords = see['coords'] or {}
            if sorted(x.name for x in scene.coordinates) != sorted(coords):
                bad.append('coordinates {}'.format([x.name for x in scene.coordinates]))
            for n, (x, y) in coords.items():
                p = scene.cast_position(n)
                if not (vf.close(p.x, x) and vf.close(p.y, y)) or scene.coordinate(n).name != n:
                    bad.append('coordinate {} at {}'.format(n, p))
            return bad

    def replay(t, ops, outs):
        driver = Driver(t)
        driver.kinds = {op['k']: op['kind'] for op in ops if op['o'] == 'add'}
        driver.radii = {op['k']: (op['r'], op['s']) for op in ops if op['o'] == 'add'}
        history = []
        for op, row in zip(ops, outs):
            out = row['out']
            if out['res'] == 'skip':
                continue
            history.append(op)
            got = driver.apply(op)
            bad = [x for x in (driver.judge(op, got, out),) if x] + driver.see(row['see'])
            if bad:
                ck.violation('scene transformed by {}: after {}, {}'.format(t, history, '; '.join(bad)), {'history': history, 'expected': row})
                return False
        return True

    # 1. every history of a bounded model
    res = ck.tlc('Scene', {'Depth': ck.pick(5, 6)}, init='ModelInit', next='ModelNext', view='View', invariants=('Laws',),
                 properties=('Stable', 'Frozen'), action_constraint='EmitStep', inputs=[{'t': []}], workers=1, timeout=ck.pick(200, 800))
    rows = {vf.freeze(row['t']): row for row in res.rows}
    histories = list(rows)
    ck.note('transitions of the bounded model', len(histories))
    longest = [h for h in histories if len(h) == ck.pick(5, 6)]
    for h in rng.sample(longest, min(len(longest), ck.pick(4000, 60000))):
        prefixes = [h[:n] for n in range(1, len(h) + 1)]
        ops = rows[h]['t']
        if any(p not in rows for p in prefixes):
            raise vf.MachineryError('a history misses a prefix')
        replay('none', ops, [rows[p] for p in prefixes])
        ck.traces += 1
        if ck.full:
            return
    ck.exhaustive.append('bounded model: states reached by {} operations on two items and a coordinate'.format(ck.pick(5, 6)))

    # 2. random histories
    names = ['A', 'B', 'A1', '']

    def position():
        if rng.random() < .4:
            return {'n': rng.choice(names[:3]), 'v': [0, 0]}
        return {'n': '', 'v': [rng.randrange(-3, 7), rng.randrange(-3, 7)]}

    def history(n):
        ops, made = [], 0
        for name in names[:3]:
            if rng.random() < .8:
                ops.append({'o': 'coord', 'n': name, 'v': [rng.randrange(-3, 7), rng.randrange(-3, 7)]})
        while len(ops) < n:
            o = rng.choice(('coord', 'coord', 'uncoord', 'add', 'add', 'add', 'add', 'remove', 'z', 'z', 'vis', 'sel', 'unselect', 'dirty', 'dirty', 'ask', 'ask',
                            'line', 'line', 'close', 'update', 'update', 'update', 'query', 'query', 'at', 'at'))
            if o == 'coord':
                ops.append({'o': o, 'n': rng.choice(names[:3]), 'v': [rng.randrange(-3, 7), rng.randrange(-3, 7)]})
            elif o == 'uncoord':
                if rng.random() < .4:
                    ops.append({'o': o, 'n': rng.choice(names[:3])})
            elif o == 'add':
                made += 1
                kind = rng.choice(list(COUNT))
                ops.append({'o': o, 'k': made, 'kind': kind, 'pos': [position() for _ in range(COUNT[kind])],
                            'r': rng.randrange(1, 4) if kind in ROUND else 0, 's': rng.randrange(1, 4) if kind == 'ellipse' else 0, 'data': rng.choice(('u', 'v', 'w', ''))})
                if kind == 'circle':
                    ops[-1]['s'] = ops[-1]['r']
                if kind not in ROUND and kind != 'text':
                    # no item reduced to a point, nor repeated points
                    points = [p['n'] or str(p['v']) for p in ops[-1]['pos']]
                    if len(set(points)) < len(points):
                        ops.pop()
                        made -= 1
            elif o in ('unselect', 'update'):
                ops.append({'o': o})
            elif o == 'query':
                x, y = (5 + 10 * rng.randrange(-6, 8) for _ in range(2))
                ops.append({'o': o, 'q': [x, y, x + 10 * rng.randrange(0, 6), y + 10 * rng.randrange(0, 6)]})
            elif o == 'at':
                ops.append({'o': o, 'p': [5 * rng.randrange(-10, 16), 5 * rng.randrange(-10, 16)]})
            elif made:
                op = {'o': o, 'k': rng.randrange(1, made + 1)}
                if o == 'line':
                    op['p'] = position()
                elif o == 'z':
                    op['z'] = rng.randrange(-2, 3)
                elif o in ('vis', 'sel'):
                    op['b'] = rng.random() < (.3 if o == 'vis' else .6)
                ops.append(op)
        return ops
    cases = [{'t': rng.choice(list(TRANSFORMATIONS)), 'ops': history(rng.randrange(8, 40))} for _ in range(ck.pick(400, 5000))]
    rows = ck.tlc('Scene', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=('Laws',), properties=('Stable', 'Frozen'), constraint='Emit',
                  inputs=[{'t': TRANSFORMATIONS[c['t']], 'ops': c['ops']} for c in cases], jobs=8).rows
    outs = [{} for _ in cases]
    for row in rows:
        outs[row['i'] - 1][row['k']] = row
    for case, out in zip(cases, outs):
        replay(case['t'], case['ops'], [out[k] for k in sorted(out) if k])
        ck.traces += 1
        for op in case['ops']:
            ck.note(op['o'])
        if ck.full:
            return
    ck.samples += [str(c)[:600] for c in cases[:2]]
