"""Vector algebra"""
import math

import vf
from geo import rat, xy, same, ssq, rv, text


def main(ck):
    import numpy as np
    from Patro.GeometryEngine.Vector import Vector2D, Vector2DInt, NormalisedVector2D, HomogeneousVector2D

    rng = ck.rng

    def V(p):
        return Vector2D(*xy(p))

    INTEGER = {
        'add': lambda v, w: v + w, 'sub': lambda v, w: v - w, 'neg': lambda v, w: -v, 'pos': lambda v, w: +v, 'abs': lambda v, w: abs(v),
    }

    def integers(v, wanted):
        return type(v) is Vector2DInt and [v.x, v.y] == wanted == list(v) == v.to_int_list() and all(int(x) == x for x in v) and \
            isinstance(v.x, int) and isinstance(v.y, int) and v == Vector2DInt(wanted) and not v != Vector2DInt(*wanted) and \
            v != Vector2DInt(wanted[0], wanted[1] + 1) and bool(v) == any(wanted) and len(v) == 2

    # 1. the register machine: every transition is replayed
    res = ck.tlc('Vector', {'N': 2, 'Limit': 4}, init='MInit', next='MNext', invariants=('Laws',), view='View',
                 action_constraint='EmitStep', inputs=[])
    rows = res.rows
    ck.exhaustive.append('all the {} transitions of the vector register'.format(len(rows)))
    if not ck.thorough:
        rows = rng.sample(rows, min(len(rows), 40000))
    for row in rows:
        u, (name, arg), t = row['s'], row['a'], row['t']
        v = V(u)
        before = [float(x) for x in v]
        inplace = None
        w = None
        if name in ('add', 'sub', 'middle'):
            w = V(arg)
            other = [float(x) for x in w]
        if name == 'add':
            result = v + w
            inplace = v.clone()
            inplace += w
        elif name == 'sub':
            result = v - w
            inplace = v.clone()
            inplace -= w
        elif name == 'middle':
            result = Vector2D.middle(v, w)
        elif name == 'mul':
            result = v * rat(arg)
            if not same(rat(arg) * v, t):
                ck.violation('{} * {} = {}'.format(rat(arg), text(v), text(rat(arg) * v)), row)
            inplace = v.clone()
            inplace *= rat(arg)
        elif name == 'div':
            result = v / rat(arg)
            inplace = v.clone()
            inplace /= rat(arg)
        elif name == 'scale':
            result = v.scale(rat(arg[0]), rat(arg[1]))
        elif name == 'divide':
            result = v.divide(rat(arg[0]), rat(arg[1]))
        elif name == 'neg':
            result = -v
        elif name == 'pos':
            result = +v
        elif name == 'abs':
            result = abs(v)
        elif name == 'rotate':
            result = v.rotate(90 * arg)
            for r in (v.rotate(-90 * arg, counter_clockwise=False), v.rotate(90 * (4 - arg), False), v.rotate(90 * arg - 360)):
                if not same(r, t):
                    ck.violation('rotation of {} by {} quarter turns: {} expected {}'.format(text(v), arg, text(r), xy(t)), row)
        else:
            result = getattr(v, name)
        for x, how in ((result, 'new'), (inplace, 'in place')):
            if x is None:
                continue
            if not same(x, t) or type(x) is not Vector2D:
                ck.violation('{} {} {} ({}) = {} {} expected {}'.format(text(v), name, arg, how, type(x).__name__, text(x), xy(t)), row)
        if [float(x) for x in v] != before or (w is not None and [float(x) for x in w] != other):
            ck.violation('{} modified its operands: {} was {}'.format(name, text(v), before), row)
        # the result is independent of the operand
        if result is v:
            ck.violation('{} returned its operand'.format(name), row)
        else:
            result.x = 1000.5
            if [float(x) for x in v] != before:
                ck.violation('the result of {} shares its coordinates with its operand'.format(name), row)
        # the same transition between vectors of integers
        if name in INTEGER and all(x[1] == 1 for p in (u, t) + ((arg,) if w is not None else ()) for x in p):
            v = Vector2DInt(*[x[0] for x in u])
            w = Vector2DInt(*[x[0] for x in arg]) if w is not None else None
            result = INTEGER[name](v, w)
            inplace = None
            if w is not None:
                inplace = v.clone()
                if name == 'add':
                    inplace += w
                else:
                    inplace -= w
            for x in (result, inplace):
                if x is not None and not integers(x, [y[0] for y in t]):
                    ck.violation('{} {} {} = {} expected {}'.format(v, name, w, x, xy(t)), row)
            if not integers(v, [x[0] for x in u]) or (w is not None and not integers(w, [x[0] for x in arg])):
                ck.violation('{} modified its operands of integers: {} {}'.format(name, v, w), row)
            result.x = 1000
            if result is v or not integers(v, [x[0] for x in u]):
                ck.violation('the result of {} shares its coordinates with its operand of integers'.format(name), row)
            ck.note('integer')
        ck.traces += 1
        if ck.full:
            return

    # 2. relations
    n = ck.pick(3, 5)
    res = ck.tlc('Vector', {'N': n, 'Limit': 4}, init='GInit', next='RNext', invariants=('Pythagoras', 'Rounded'),
                 constraint='EmitRelation', inputs=[])
    ck.exhaustive.append('all the pairs of vectors of the grid [-{0}, {0}]'.format(n))
    rows = res.rows
    pairs = []
    for _ in range(ck.pick(600, 6000)):
        k = rng.choice((5, 10, 12))
        d = rng.choice((1, 1, 2, 4, 8))
        a = (rng.randrange(-k, k + 1), rng.randrange(-k, k + 1))
        p = rng.random()
        if p < .2:
            m = rng.choice((-2, -1, 1, 2))
            b = (a[0] * m, a[1] * m)
        elif p < .4:
            m = rng.choice((-1, 1))
            b = (-a[1] * m, a[0] * m)
        elif p < .5:
            b = (a[0] + rng.choice((-1, 0, 1)), a[1] + rng.choice((-1, 0, 1)))
        else:
            b = (rng.randrange(-k, k + 1), rng.randrange(-k, k + 1))
        pairs.append([rv((a[0], d), (a[1], d)), rv((b[0], d), (b[1], d))])
    # 32 bits integers
    pairs = [p for p in pairs if max(abs(c[0]) for v in p for c in v) <= 12]
    res = ck.tlc('Vector', {'N': 0, 'Limit': 4}, init='RInit', next='RNext', invariants=('Rounded',),
                 constraint='EmitRelation', inputs=pairs)
    rows = rows + res.rows
    for row in rows:
        u, w = V(row['u']), V(row['w'])
        bad = []

        def expect(name, got, wanted, tol=1e-9):
            if not vf.close(got, wanted, tol):
                bad.append('{}: {} expected {}'.format(name, got, wanted))
        expect('dot', u.dot(w), rat(row['dot']))
        expect('cross', u.cross(w), rat(row['cross']))
        expect('perp_dot', u.perp_dot(w), rat(row['cross']))
        expect('magnitude_square', u.magnitude_square, rat(row['sq']))
        expect('magnitude', u.magnitude ** 2, rat(row['sq']))
        for name, got, wanted in (('==', u == w, row['equal']), ('!=', u != w, not row['equal']),
                                  ('is_parallel', u.is_parallel(w), row['parallel']),
                                  ('is_orthogonal', u.is_orthogonal(w), row['orthogonal']),
                                  ('bool', bool(u), not row['zero']),
                                  ('almost_equal', u.almost_equal(w), row['equal'])):
            if bool(got) != wanted:
                bad.append('{}: {}'.format(name, got))
        got = u.is_parallel(w, return_cross=True)
        if bool(got[0]) != row['parallel'] or not vf.close(got[1], rat(row['cross'])):
            bad.append('is_parallel with cross {}'.format(got))
        if w:
            expect('projection_on', ssq(u.projection_on(w)), rat(row['proj']))
            expect('deviation_with', ssq(u.deviation_with(w)), rat(row['dev']))
            if u:
                expect('cos_with', ssq(u.cos_with(w)), rat(row['cos']))
                expect('sin_with', ssq(u.sin_with(w)), rat(row['sin']))
                for function in (u.angle_with, u.orientation_with):
                    a = function(w)
                    if not -180 <= a <= 180:
                        bad.append('angle_with {}'.format(a))
                    expect('cos angle_with', ssq(math.cos(math.radians(a))), rat(row['cos']), 1e-7)
                    expect('sin angle_with', ssq(math.sin(math.radians(a))), rat(row['sin']), 1e-7)
        if u:
            o = u.orientation
            m = u.magnitude
            if not -180 <= o <= 180 or not vf.close(m * math.cos(math.radians(o)), u.x, 1e-9) \
               or not vf.close(m * math.sin(math.radians(o)), u.y, 1e-9):
                bad.append('orientation {}'.format(o))
            if not same(Vector2D.from_polar(m, o), row['u']):
                bad.append('from_polar {}'.format(text(Vector2D.from_polar(m, o))))
            if not same(Vector2D.from_ellipse(m, m, o), row['u']) \
               or not same(Vector2D.from_ellipse(2 * m, 3 * m, o), [[2 * row['u'][0][0], row['u'][0][1]], [3 * row['u'][1][0], row['u'][1][1]]]):
                bad.append('from_ellipse')
            for nv in (u.to_normalised(), u.clone().normalise(), Vector2D.from_angle(o)):
                if not vf.close(nv.magnitude, 1) or not vf.close(nv.cross(u), 0) or nv.dot(u) <= 0:
                    bad.append('normalised {}'.format(text(nv)))
            unit = u.to_normalised()
            for scaled in (unit * 3, 3 * unit, -2 * unit):
                if not vf.close(scaled.magnitude, 3 if scaled.dot(u) > 0 else 2) or not vf.close(scaled.cross(u), 0):
                    bad.append('scaled normalised {}'.format(text(scaled)))
            if not isinstance(unit, NormalisedVector2D) or not vf.close(unit.magnitude, 1) or not same(u, row['u']):
                bad.append('to_normalised modified')
        else:
            if vf.outcome(lambda: u.orientation)[0] == 'ok':
                bad.append('a null vector has an orientation')
        # constructions and conversions
        for v in (Vector2D((u.x, u.y)), Vector2D([u.x, u.y]), Vector2D(u), u.clone(), Vector2D(np.array([u.x, u.y])),
                  Vector2D(*u), Vector2D.from_coordinates((u.x, u.y), (w.x, w.y))[0],
                  Vector2D.from_list([(w.x, w.y), (u.x, u.y)])[1], HomogeneousVector2D(u).to_vector()):
            if not v == u or v is u or len(v) != 2 or (v[0], v[1]) != (u.x, u.y) or [float(x) for x in v] != [u.x, u.y]:
                bad.append('construction {}'.format(text(v)))
            v.x, v[1] = v.x + 1, v.y + 2
            if not same(u, row['u']) or [v.x, v.y] != [u.x + 1, u.y + 2]:
                bad.append('a copy is not independent')
        b = u.bounding_box
        if (b.x.inf, b.x.sup, b.y.inf, b.y.sup) != (u.x, u.x, u.y, u.y):
            bad.append('bounding box {}'.format(b))
        if row['u'][0][1] == 1 and row['u'][1][1] == 1 and u.to_int_list() != [row['u'][0][0], row['u'][1][0]]:
            bad.append('to_int_list')
        near = u.rint()
        if not (near.x in row['near'][0] and near.y in row['near'][1]) or not integers(near, [near.x, near.y]) or not same(u, row['u']):
            bad.append('rint {}'.format(near))
        b = near.bounding_box
        if (b.x.inf, b.x.sup, b.y.inf, b.y.sup) != (near.x, near.x, near.y, near.y):
            bad.append('bounding box {}'.format(b))
        if not same(Vector2D(near), [[near.x, 1], [near.y, 1]]):
            bad.append('vector of integers {}'.format(near))
        if not same(Vector2D.middle(u, w), row['mid']):
            bad.append('middle')
        if bad:
            ck.violation('{} and {}: {}'.format(text(u), text(w), '; '.join(bad)), row)
            if ck.full:
                return
        ck.traces += 1
    for args in ((1, 2, 3), ((1, 2, 3),), (1,), ()):
        if vf.outcome(Vector2D, *args)[0] == 'ok':
            ck.violation('Vector2D{} is accepted'.format(args))
    ck.note('relations', len(rows))
    ck.samples.append(rows[0])
