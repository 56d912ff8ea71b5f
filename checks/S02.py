"""Sketches: evaluation, dependencies, scopes"""
import contextlib
import io

import sketches
import vf
from geo import box, same, same_points, xy


def vf_items(x):
    """a function of the specification on integers"""
    return [(int(k), v) for k, v in x.items()] if isinstance(x, dict) else list(enumerate(x))


def main(ck):
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicStyle import Colors, StrokeStyle
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Pattern.Pattern import Pattern

    rng = ck.rng
    styles = [StrokeStyle.SolidLine, StrokeStyle.DashLine, StrokeStyle.DotLine, StrokeStyle.NoPen]
    colors = [Colors.black, Colors.red, Colors['blue']]

    def measurements(case):
        ms = ValentinaMeasurements()
        for m in case['ms']:
            ms.add(sketches.MEASUREMENTS[m['n']], repr(m['v'][0] / m['v'][1]))
        return ms

    def kinds(op):
        return sketches.KIND[op['t']]

    def add(builder, sketch, op, objects):
        """('ok', operation) or ('err', ...)"""
        def reference(name):
            if name not in objects:
                return name
            return rng.choice((name, objects[name], objects[name].id))
        kwargs = builder.arguments(op, reference, Vector2D)
        if op.get('style') is not None:
            kwargs['line_style'] = op['style']
        if op.get('color') is not None:
            kwargs['line_color'] = op['color']
        return vf.outcome(getattr(sketch, kinds(op)), **kwargs)

    def observe(sketch, op, operation, out, objects, boxes, expect):
        """compare an evaluated operation with what the specification gives"""
        what = '{} {}'.format(op['t'], op.get('name', ''))
        if 'name' in op:
            if out['g']:
                expect(what + ' is at', same(operation.vector, out['g'][0]), (operation.vector, xy(out['g'][0])))
                expect(what + ' geometry', same(operation.geometry(), out['g'][0]), operation.geometry())
            elif not out['some']:
                expect(what + ' does not exist', operation.vector is None, operation.vector)
            else:
                expect(what + ' is one of', any(same(operation.vector, p) for p in out['some']), (operation.vector, out['some']))
        else:
            geometry = operation.geometry()
            expect(what + ' geometry', same_points(geometry.points, out['g']), list(geometry.points))
            if op['t'] == 'spline':
                expect(what + ' control points', same_points([operation.control_point1, operation.control_point2], out['g'][1:3]))
        deps = [x.name for x in operation.dependencies]
        expect(what + ' dependencies', sorted(deps) == sorted(out['deps']), (deps, out['deps']))
        expect(what + ' dependencies are operations of the sketch', all(objects[x.name] is x for x in operation.dependencies if x.name in objects))
        node = [node for node in sketch.calculator.dag if node.data is operation]
        expect(what + ' in the graph', len(node) == 1)
        if node:
            names = [x.data.name for x in node[0].ancestor]
            expect(what + ' ancestors in the graph', sorted(names) == sorted(out['deps']), names)

    def replay(case, outs, mode, expect, scope, builder):
        """generator: one step for each operation"""
        sketch = scope.sketch
        objects = {}
        added = []
        for op, out in zip(case['ops'], outs):
            o = add(builder, sketch, op, objects)
            expect('{} accepted'.format(op), (o[0] == 'ok') == out['ok'], o)
            if o[0] == 'ok' and out['ok']:
                operation = o[1]
                added.append((op, operation, out))
                if 'name' in op:
                    objects[op['name']] = operation
                    expect('name', operation.name == op['name'] and tuple(operation.label_offset) == tuple(op['label']))
                    expect('lookup by name', sketch.get_operation(op['name']) is operation)
                expect('lookup by id', sketch.has_operation_id(operation.id) and sketch.get_operation(operation.id) is operation)
            expect('operations', list(sketch.operations) == [x[1] for x in added], sketch.operations)
            if mode == 'each':
                sketch.eval()
                for a in added:
                    observe(sketch, *(a[0], a[1], a[2]), objects, None, expect)
            yield
        for _ in range(2 if mode == 'twice' else 1):
            sketch.eval()
        for a in added:
            observe(sketch, *a, objects, None, expect)
        for a in added:
            if a[0]['t'] == 'end' or rng.random() < .3:
                # an id belongs to one operation only
                o = vf.outcome(sketch.SinglePoint, 'dup', 0, 0, Vector2D(0, 0), id=a[1].id)
                expect('duplicated id', o[0] == 'err', o)
                break
        expect('operations', list(sketch.operations) == [x[1] for x in added], sketch.operations)
        # bounding box
        if added and all(out['g'] for op, operation, out in added):
            points = [xy(p) for op, operation, out in added for p in out['g']]
            b = box(sketch.bounding_box)
            e = (min(p[0] for p in points), min(p[1] for p in points), max(p[0] for p in points), max(p[1] for p in points))
            expect('bounding box', all(vf.close(x, y) for x, y in zip(b, e)), (b, e))
        # the Python code of the operations
        if mode == 'python':
            other = scope._vf_other.sketch
            names = {'Vector2D': Vector2D, 'StrokeStyle': StrokeStyle, 'sketch': other}
            for name in sketches.KIND.values():
                names[name] = (lambda name: lambda sketch, *args, **kwargs: getattr(sketch, name)(*args, **kwargs))(name)
            copies = []
            for op, operation, out in added:
                code = operation.to_python()
                o = vf.outcome(eval, code, names)
                expect('{} can be executed'.format(code), o[0] == 'ok', o)
                if o[0] != 'ok':
                    return
                copies.append((op, o[1], out))
            other.eval()
            objects = {op['name']: operation for op, operation, out in copies if 'name' in op}
            for (op, operation, out), (_, original, _) in zip(copies, added):
                observe(other, op, operation, out, objects, None, lambda name, *args: expect('python code ' + original.to_python() + ': ' + name, *args))
                if 'name' in op:
                    expect('copied label offset', operation.label_offset == original.label_offset)
                if hasattr(original, 'line_style'):
                    expect('copied style', operation.line_style == original.line_style, operation.line_style)
                    a, b = operation.line_color, original.line_color
                    expect('copied color', (a is None) == (b is None) and (a is None or Colors.ensure_color(a) == b), operation.line_color)

    def run(cases, outs, modes, what):
        """a few sketches of the same pattern are built together"""
        pattern = None
        for group in range(0, len(cases), 2):
            part = list(range(group, min(group + 2, len(cases))))
            bads = []
            with contextlib.redirect_stdout(io.StringIO()):
                ms = measurements(cases[part[0]])
                pattern = Pattern(ms, 'cm')
                runs = []
                for j in part:
                    bad = []
                    bads.append((j, bad))
                    # the sketches of a pattern share the measurements
                    scope_pattern = pattern if cases[j]['ms'] == cases[part[0]]['ms'] else Pattern(measurements(cases[j]), 'cm')
                    scope = scope_pattern.add_scope('piece {}'.format(j))
                    mode = modes(j)
                    if mode == 'python':
                        scope._vf_other = scope_pattern.add_scope('copy')

                    def expect(name, good, got=None, bad=bad):
                        if not good:
                            bad.append('{}: {}'.format(name, got))
                    runs.append((replay(cases[j], outs[j], mode, expect, scope, sketches.Builder(rng)), bad))
                # interleaved
                pending = list(runs)
                while pending:
                    r = rng.choice(pending)
                    try:
                        next(r[0])
                    except StopIteration:
                        pending.remove(r)
                    except Exception as exception:
                        r[1].append(repr(exception))
                        pending.remove(r)
            for j, bad in bads:
                ck.traces += 1
                if bad:
                    ck.violation('{} {}: {}'.format(what, describe(cases[j]), '; '.join(bad[:4])[:1500]), {'case': str(cases[j]), 'expected': outs[j]})
            if ck.full:
                return

    def describe(case):
        b = sketches.Builder(rng)
        out = []
        for op in case['ops']:
            out.append(kinds(op) + str({k: str(v) for k, v in b.arguments(op, lambda n: n, lambda *v: v).items() if k != 'label_offset'}))
        return '{} with {}'.format('; '.join(out)[:1500], {m['n']: m['v'] for m in case['ms']})

    # 1. every sketch of a bounded model
    rows = ck.tlc('Sketch', {'Depth': ck.pick(2, 3)}, init='ModelInit', next='ModelNext', invariants=('Laws',), properties=('Still',),
                  action_constraint='EmitStep', workers=1).rows
    ck.note('sketches of the bounded model', len(rows))
    ck.exhaustive.append('bounded model: two points and {} operations of any kind'.format(ck.pick(2, 3)))
    outs_of = {}
    for row in rows:
        if row['a'] != ['refused']:
            outs_of[vf.freeze(row['t'])] = row['out']
    rows = [row for row in rows if row['a'] != ['refused'] and len(row['t']) == ck.pick(4, 5)]
    rows = rng.sample(rows, min(len(rows), ck.pick(1500, 20000)))
    first = {'ok': True, 'some': [[[1, 2], [0, 1]]], 'g': [[[1, 2], [0, 1]]], 'deps': []}
    second = {'ok': True, 'some': [[[9, 2], [3, 1]]], 'g': [[[9, 2], [3, 1]]], 'deps': ['A']}
    cases, outs = [], []
    for row in rows:
        ops = row['t']
        case = {'ms': [], 'ops': [dict(op, label=[0, 0]) for op in ops]}
        out = [first, second] + [outs_of[vf.freeze(ops[:k])] for k in range(3, len(ops) + 1)]
        if any('Nowhere' in str(op) for op in ops):
            continue
        cases.append(case)
        outs.append(out)
    run(cases, outs, lambda j: 'end', 'bounded model')

    # 2. random sketches
    generator = sketches.Generator(rng, styles=styles, colors=colors)
    n = ck.pick(700, 8000)
    cases = [generator.generate(rng.randrange(2, 13)) for _ in range(n)]
    for j in range(1, n, 2):
        if rng.random() < .3:
            # two pieces of a pattern with the same measurements
            generator.ms = None
            cases[j] = same_measurements(generator, cases[j - 1], rng)
    inputs = [{'ms': c['ms'], 'ops': [{k: v for k, v in op.items() if k not in ('label', 'style', 'color')} for op in c['ops']]} for c in cases]
    rows = ck.tlc('Sketch', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=('Laws',), properties=('Still',), constraint='Emit',
                  inputs=inputs, jobs=8).rows
    outs = sketches.expected(rows, n)
    chosen = [rng.choice(('end', 'end', 'each', 'twice', 'python', 'python')) for _ in cases]
    run(cases, outs, lambda j: chosen[j], 'random')
    for case in cases:
        for op in case['ops']:
            ck.note(op['t'])
    ck.samples += [describe(case) for case in cases[:3]]

    # 3. the scopes of a pattern, some of which have the same name
    names = ['a', 'b', 'front', 'Pi\u00e8ce']
    ck.tlc('Pieces', {'Names': {'a', 'b'}, 'Bound': 5}, init='ModelInit', next='ModelNext', invariants=('Ordered', 'FirstOne'), properties=('OneRemoved',), inputs=[[]])
    histories = []
    for _ in range(ck.pick(150, 1500)):
        ops = []
        for _ in range(rng.randrange(1, 12)):
            t = rng.random()
            ops.append({'o': 'add', 'n': rng.randrange(4)} if t < .6 else {'o': 'remove', 'n': rng.randrange(4)} if t < .85 else
                       {'o': 'rename', 'j': rng.randrange(1, 5), 'n': rng.randrange(4)})
        histories.append(ops)
    rows = {(row['i'] - 1, row['k']): row for row in ck.tlc('Pieces', {'Names': set(range(4)), 'Bound': 0}, init='CaseInit', next='CaseNext',
                                                            invariants=('Ordered', 'FirstOne', 'Emit'), properties=('OneRemoved',), inputs=histories).rows}
    for i, ops in enumerate(histories):
        pattern, made = Pattern(None, 'cm'), [None]
        for k, op in enumerate(ops, 1):
            row = rows[i, k]
            pieces, found = [(names[x['name']], x['key']) for x in row['pieces']], dict(vf_items(row['found']))

            def step():
                if op['o'] == 'add':
                    made.append(pattern.add_scope(names[op['n']]))
                elif op['o'] == 'remove':
                    pattern.remove_scope(names[op['n']])
                elif op['j'] <= len(list(pattern.scopes)):
                    pattern.scope(op['j'] - 1).name = names[op['n']]
                scopes = list(pattern.scopes)
                return (pattern.scope_names() == [x[0] for x in pieces] and [x.name for x in scopes] == [x[0] for x in pieces]
                        and all(a is made[x[1]] for a, x in zip(scopes, pieces)) and len(scopes) == len(pieces)
                        and all(pattern.scope(j) is a for j, a in enumerate(scopes))
                        and all(pattern.scope(names[n]) is made[found[n]] for n in range(4))
                        and all(a.unit == 'cm' for a in scopes) and len({id(a.sketch) for a in scopes}) == len(scopes))
            got = vf.outcome(step)
            if got != ('ok', True):
                ck.violation('pieces of a pattern: {} {} instead of {}'.format(got, pattern.scope_names(), pieces), ops[:k])
                break
        ck.traces += 1
    ck.assumptions.append('The lines have rational lengths; a point which has no solution is not used by another operation.')


def same_measurements(generator, case, rng):
    for _ in range(50):
        other = generator.generate(rng.randrange(2, 9))
        used = set(str(other['ops']).split("'"))
        if not used & set(sketches.MEASUREMENTS):
            other['ms'] = case['ms']
            return other
    return other
