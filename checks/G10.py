"""Paths: commands, rounded corners, transformations"""
import math

import pathgen
import vf
from geo import rat, xy, same, same_points, rv, text


def main(ck):
    from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
    from Patro.GeometryEngine.Conic import Ellipse2D
    from Patro.GeometryEngine.Path import (
        ArcSegment, CubicBezierSegment, LinearSegment, Path2D, PathSegment, QuadraticBezierSegment)
    from Patro.GeometryEngine.Segment import Segment2D
    from Patro.GeometryEngine.Vector import Vector2D

    rng = ck.rng
    tools = pathgen.tools(rng)
    V, turn, run, zero, make = tools.V, tools.turn, tools.run, tools.zero, tools.make

    ################################################################################################

    def observe(path, row, expect):
        expect('p0', same(path.p0, row['p0']), text(path.p0))
        expect('is_closed', bool(path.is_closed) == row['closed'])
        parts = list(path)
        expect('number of parts', len(parts) == len(path) == row['n'], len(path))
        if len(parts) != row['n']:
            return
        for j, (part, o) in enumerate(zip(parts, row['parts'])):
            expect('index', path[j] is part and part.index == j and part.path is path)
            expect('start', same(part.start_point, o['start'], 1e-8), (j, text(part.start_point)))
            expect('stop', same(part.stop_point, o['stop'], 1e-8), (j, text(part.stop_point)))
            g = part.geometry
            if o['t'] == 'line':
                expect('class', isinstance(part, LinearSegment) and isinstance(g, Segment2D), g)
                expect('straight part', same_points(part.points, o['straight'], 1e-8), (j, [text(p) for p in part.points]))
                expect('geometry', same_points(g.points, o['straight'], 1e-8), (j, g))
                expect('is rounded', (part.radius is not None) == o['rounded'], (j, part.radius))
                if o['rounded'] and part.radius is not None:
                    ck.note('corner')
                    n, = o['corner']
                    expect('radius', vf.close(part.radius, rat(n['r'])), (j, part.radius))
                    expect('corner', same(part.bulge_center, n['center'], 1e-8) and
                           same(part.bulge_start_point, n['from'], 1e-8) and
                           same(part.bulge_stop_point, n['to'], 1e-8), (j, text(part.bulge_center)))
                    arc = part.bulge_geometry
                    first, last = (n['from'], n['to']) if n['left'] else (n['to'], n['from'])
                    expect('arc of the corner', same(arc.center, n['center'], 1e-8) and vf.close(arc.radius, rat(n['r'])) and
                           same(arc.start_point, first, 1e-8) and same(arc.stop_point, last, 1e-8) and
                           0 < arc.domain.stop - arc.domain.start < 180, (j, arc))
            elif o['t'] == 'quadratic':
                expect('quadratic', isinstance(part, QuadraticBezierSegment) and isinstance(g, QuadraticBezier2D) and
                       same_points(part.points, o['points'], 1e-8) and same_points(g.points, o['points'], 1e-8), g)
            elif o['t'] == 'cubic':
                expect('cubic', isinstance(part, CubicBezierSegment) and isinstance(g, CubicBezier2D) and
                       same_points(part.points, o['points'], 1e-8) and same_points(g.points, o['points'], 1e-8), g)
            else:
                e = o['e']
                expect('arc', isinstance(part, ArcSegment) and isinstance(g, Ellipse2D), g)
                expect('arc ellipse', same(g.center, e['center'], 1e-6) and vf.close(g.radius_x, rat(e['a']), 1e-7) and
                       vf.close(g.radius_y, rat(e['b']), 1e-7), (j, g))
                expect('arc ends', same(g.start_point, o['start'], 1e-6) and same(g.stop_point, o['stop'], 1e-6), (j, g))
                span = turn(o['d0'], o['d1']) * (1 if o['sweep'] else -1)
                expect('arc span', vf.close(g.domain.stop - g.domain.start, span, 1e-6), (j, g.domain))
        box = path.bounding_box if row['parts'] else None
        if box is not None:
            b = box.bounding_box
            if row['box']:
                ck.note('box')
                expect('bounding_box', all(vf.close(u, rat(v), 1e-7) for u, v in zip(b, row['box'])), (b, row['box']))
            for o in row['parts']:
                x, y = xy(o['stop'])
                expect('bounding_box', b[0] - 1e-7 <= x <= b[2] + 1e-7 and b[1] - 1e-7 <= y <= b[3] + 1e-7 or
                       any(q['t'] == 'line' and q['rounded'] for q in row['parts']), b)

        if parts:
            expect('part', parts[-1].prev_part is (parts[-2] if len(parts) > 1 else path[-1] if row['closed'] else None), parts[-1].prev_part)
            for part, other in zip(parts, parts[1:]):
                expect('part', other.prev_part is part and part.next_part is other, (part, other))
            if rng.random() < .25:
                p = Vector2D(rng.randrange(-30, 31) / 3, rng.randrange(-30, 31) / 3)
                want = min(distance(part, o, p) for part, o in zip(parts, row['parts']))
                got = path.distance_to_point(p)
                expect('distance_to_point', vf.close(got, want, 1e-7), (text(p), got, want))

    def distance(part, o, p):
        """of a point to a part as it is specified; the curves are those of other properties"""
        if o['t'] != 'line':
            return part.geometry.distance_to_point(p)
        x, y = p.x, p.y
        (ax, ay), (bx, by) = map(xy, o['straight'])
        ux, uy, wx, wy = bx - ax, by - ay, x - ax, y - ay
        t = min(1, max(0, (ux * wx + uy * wy) / (ux * ux + uy * uy))) if ux or uy else 0
        d = math.hypot(wx - t * ux, wy - t * uy)
        if o['rounded']:
            n, = o['corner']
            (cx, cy), (fx, fy), (gx, gy) = xy(n['center']), xy(n['from']), xy(n['to'])
            r, s = rat(n['r']), 1 if n['left'] else -1
            # between the directions of both ends, the corner is less than half a turn
            if s * ((fx - cx) * (y - cy) - (fy - cy) * (x - cx)) >= 0 and s * ((x - cx) * (gy - cy) - (y - cy) * (gx - cx)) >= 0:
                d = min(d, abs(math.hypot(x - cx, y - cy) - r))
            else:
                d = min(d, math.hypot(x - fx, y - fy), math.hypot(x - gx, y - gy))
        return d

    def replay(case, rows, expect):
        path = Path2D(V(case['p0']))
        others = []    # paths which must not change any more
        for k, row in enumerate(rows):
            if k:
                op = case['ops'][k - 1]
                before = path
                o = vf.outcome(run, path, op)
                expect('{} {}'.format(k, op[0]), (o[0] == 'ok') == row['done'], o[1:])
                if o[0] == 'ok':
                    path = o[1]
                    if path is not before and row['done']:
                        others.append((before, rows[k - 1]))
                        if op[0] == 'clone' and rng.random() < .5: # go on with the original
                            others[-1] = (path, row)
                            path = before
                        elif op[0] == 'rounded':
                            others.pop()
            if not row['defined']:
                ck.note('undefined corner')
                return
            if k == len(rows) - 1 or rng.random() < .6:
                observe(path, row, lambda name, good, got=None: expect('{} {}'.format(k, name), good, got))
        for other, row in others:
            observe(other, row, lambda name, good, got=None: expect('other path: ' + name, good, got))

    ################################################################################################

    def drawing(case):
        """the commands of a case which draw parts, when they all can be edited"""
        ops = [op for op in case['ops'] if op[0] != 'clone']
        names = [op[0] for op in ops]
        if 'close' in names:
            ops = ops[:names.index('close') + 1] if names.index('close') == len(names) - 1 else []
        return ops if all(op[0] in ('line', 'compass', 'absolute_x', 'absolute_y', 'quadratic', 'cubic', 'arc', 'close') for op in ops) else []

    def edited(case, row, expect):
        """the path of other commands, whose parts are then changed one after the other"""
        ops = drawing(case)
        some = lambda: Vector2D(rng.randrange(-20, 21) / 3, rng.randrange(-20, 21) / 3 + .1)
        path = Path2D(some())
        edits = [('p0', lambda: path.move_to(V(case['p0'])) if rng.random() < .5 else setattr(path, 'p0', V(case['p0'])))]

        def edit(name, j, attribute, value):
            edits.append((name, lambda: setattr(path[j], attribute, value)))
        for j, op in enumerate(ops):
            name = op[0]
            before = j and ops[j - 1][0] in ('line', 'compass', 'absolute_x', 'absolute_y')
            if name in ('line', 'compass', 'absolute_x', 'absolute_y', 'close'):
                r = rat(op[1] if name == 'close' else op[-1]) or None
                # a radius is kept, changed, added or removed
                other = rng.choice((r, r, None, .25)) if before else None
                if r != other:
                    edit('radius', j, 'radius', r)
            if name == 'line':
                path.line_to(some(), other, absolute=op[2])
                edit(name, j, 'point', V(op[1]))
            elif name == 'compass':
                getattr(path, op[1] + '_to')(rng.choice((1.5, -2, 4)), other)
                edit(name, j, 'length', rat(op[2]) * (math.sqrt(2) if '_' in op[1] else 1))
            elif name in ('absolute_x', 'absolute_y'):
                axis = 'horizontal' if name == 'absolute_x' else 'vertical'
                getattr(path, 'absolute_{}_to'.format(axis))(rng.randrange(-9, 10) / 2 + .1, other)
                edit(name, j, name[-1], rat(op[1]))
            elif name == 'close':
                start = rat(op[2])
                path.close(other, start + .5 if start else None)
                if start:
                    edit('start radius', 0, 'radius', start)
            else:
                # the points of a curve, the end of an arc
                count = {'quadratic': 2, 'cubic': 3, 'arc': 1}[name]
                if name == 'arc':
                    a, b, rot, d0, d1, sweep, absolute = op[1:]
                    if absolute:
                        return False
                    p, q = (xy(d0), xy(d1)) if sweep else (xy(d1), xy(d0))
                    end = Vector2D(rat(a) * (q[0] - p[0]), rat(b) * (q[1] - p[1])).rotate(tools.degrees(rot))
                    path.arc_to(end * .9, rat(a), rat(b), tools.degrees(rot), turn(d0, d1) > 180, sweep)
                    edit(name, j, 'point', end)
                else:
                    getattr(path, name + '_to')(*[some() for _ in range(count)], absolute=op[-1])
                    for m in range(count):
                        edit(name, j, 'point{}'.format(m + 1), V(op[1 + m]))
        rng.shuffle(edits)
        for name, change in edits:
            if rng.random() < .5:
                # what is read now must not be kept
                vf.outcome(lambda: (path.bounding_box, [part.geometry for part in path], path.distance_to_point(some())))
            got = vf.outcome(change)
            expect('edit ' + name, got[0] == 'ok', got[1:])
        observe(path, row, lambda name, good, got=None: expect('edited path: ' + name, good, got))
        return True

    n = ck.pick(600, 6000)
    cases = [make(kind) for kind in ('lines', 'mixed') for _ in range(n)]
    # every short sequence of a small alphabet
    alphabet = [['compass', 'horizontal', [2, 1], zero], ['compass', 'vertical', [2, 1], [1, 2]], ['compass', 'west', [3, 1], [1, 2]],
                ['absolute_x', [1, 1], zero], ['close', zero, zero], ['transform', ['rotate', [[0, 1], [1, 1]]]],
                ['quadratic', rv(1, 1), rv(2, 0), False], ['clone'], ['line', rv(3, 4), True, zero]]
    small = [[a, b, d, e] for a in alphabet for b in alphabet for d in alphabet for e in alphabet
             if a[0] != 'close']
    if not ck.thorough:
        small = rng.sample(small, 600)
    else:
        ck.exhaustive.append('all sequences of 4 commands of a small alphabet')
    cases += [{'p0': rv(0, 1), 'ops': s} for s in small]

    def empty_close(ops):
        """closing an empty path is not a drawing"""
        for o in ops:
            if o[0] == 'close':
                return True
            if o[0] not in ('transform', 'clone', 'move') and not (o[-1] == [1, 2]):
                return False
        return False
    cases = [case for case in cases if not empty_close(case['ops'])]

    rows = ck.tlc('Paths', init='PathInit', next='PathNext', invariants=('PathLaws',), properties=('Growth',), constraint='PathEmit',
                  inputs=cases, jobs=8).rows
    by_case = {}
    for row in rows:
        by_case.setdefault(row['i'], {})[row['k']] = row
    for i, states in sorted(by_case.items()):
        case = cases[i - 1]
        bad = []

        def expect(name, good, got=None):
            if not good:
                bad.append('{} {}'.format(name, got))
        o = vf.outcome(replay, case, [states[k] for k in sorted(states)], expect)
        if o[0] != 'ok':
            bad.append(str(o[1:]))
        ops = drawing(case)
        if ops and len(ops) == len(case['ops']):
            rows = [states[k] for k in sorted(states)]
            if len(rows) == len(ops) + 1 and rows[-1]['defined'] and all(row['done'] for row in rows):
                o = vf.outcome(edited, case, rows[-1], expect)
                if o[0] != 'ok':
                    bad.append(str(o[1:]))
                elif o[1]:
                    ck.note('edited')
                    ck.traces += 1
        ck.traces += 1
        for op in case['ops']:
            ck.note(op[0])
        if bad:
            ck.violation('{}: {}'.format(case, '; '.join(bad[:4])), {'case': case, 'expected': [states[k] for k in sorted(states)]})
            if ck.full:
                return
    ck.samples += cases[:2]
    ck.assumptions.append('A corner is rounded between two lines which are not parallel.')
