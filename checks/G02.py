"""Transformations"""
import math

import vf
from geo import rat, xy, same, text


def main(ck):
    from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D, TransformationType
    from Patro.GeometryEngine.Vector import Vector2D, HomogeneousVector2D

    rng = ck.rng
    POINTS = ((0, 0), (1, 0), (0, 1), (2, -3))

    def angle(cs):
        return math.degrees(math.atan2(rat(cs[1]), rat(cs[0])))

    def build(cls, name, arg):
        affine = cls is AffineTransformation2D
        if name == 'rotation':
            return cls.Rotation(angle(arg) + rng.choice((0, 360, -360)))
        if name == 'scale':
            k, l = rat(arg[0]), rat(arg[1])
            if not affine:
                if (k, l) == (-1, -1) and rng.random() < .5:
                    return cls.Parity()
                if (k, l) == (-1, 1) and rng.random() < .5:
                    return cls.XReflection()
                if (k, l) == (1, -1) and rng.random() < .5:
                    return cls.YReflection()
                if k == l and rng.random() < .5:
                    return cls.Scale(k)
            return cls.Scale(k, l)
        if name == 'identity':
            return cls.Identity()
        if name == 'translation':
            return cls.Translation(Vector2D(*xy(arg)))
        if name == 'screen':
            return cls.Screen(rat(arg))
        if name == 'rotation_at':
            return cls.RotationAt(Vector2D(*xy(arg[0])), angle(arg[1]))

    def matrix(f, affine):
        a, b, c, d = (rat(x) for x in f['m'])
        e, g = (rat(x) for x in f['t'])
        return [a, b, e, c, d, g, 0, 0, 1] if affine else [a, b, c, d]

    def check(t, o, affine, what):
        bad = []
        wanted = matrix(o['map'], affine)
        got = t.to_list()
        if len(got) != len(wanted) or not all(vf.close(x, y) for x, y in zip(got, wanted)):
            bad.append('matrix {} expected {}'.format(got, wanted))
        for p, q in zip(POINTS, o['image']):
            v = Vector2D(p)
            r = t * v
            if not same(r, q) or (v.x, v.y) != p:
                bad.append('image of {}: {} expected {}'.format(p, text(r), xy(q)))
            if affine:
                r = t * HomogeneousVector2D(Vector2D(p))
                if not same((r.x, r.y), q):
                    bad.append('image of the homogeneous vector {}: {} expected {}'.format(p, text(r), xy(q)))
        # what the type announces is true
        kind = t.type
        T = TransformationType
        truth = {T.Identity: o['identity'], T.Scale: o['homothety'], T.Rotation: o['rotation'],
                 T.Translation: o['translation'], T.Parity: o['homothety'] and o['isometry'],
                 T.XParity: o['diagonal'] and o['isometry'], T.YParity: o['diagonal'] and o['isometry'],
                 T.Shear: o['diagonal'], T.Generic: True}
        if not truth[kind]:
            bad.append('is announced as {} which is false'.format(kind.name))
        if t.is_identity and not o['identity']:
            bad.append('is announced as the identity')
        # a length is multiplied by the factor of the similarity, or refused
        got = vf.outcome(lambda: t * 3)
        if got[0] == 'ok':
            if not o['similarity'] or not vf.close(got[1] ** 2, 9 * rat(o['factor2'])):
                bad.append('scales the length 3 to {}'.format(got[1]))
            ck.note('scaled lengths')
        elif kind in (T.Identity, T.Scale, T.Rotation, T.Parity, T.XParity, T.YParity):
            bad.append('refuses to scale a length: {}'.format(got))
        if bad:
            ck.violation('{}: {}'.format(what, '; '.join(bad)), what)

    for cls in (Transformation2D, AffineTransformation2D):
        affine = cls is AffineTransformation2D
        depth = ck.pick(3, 3) if not affine else ck.pick(2, 3)
        res = ck.tlc('Transformation', {'Depth': depth, 'Linear': not affine}, view='View', invariants=('Law', 'Midpoints'),
                     constraint='EmitState', action_constraint='EmitStep')
        obs = {vf.freeze(row['obs']['map']): row['obs'] for row in res.rows if 'obs' in row}
        steps = [row for row in res.rows if 's' in row]
        graph = vf.Graph(steps)
        ck.exhaustive.append('all the compositions of {} {} maps'.format(depth, cls.__name__))
        for s0, path in graph.behaviours(rng, walks=ck.pick(200, 3000), length=depth, max_transitions=ck.pick(6000, 60000)):
            t = cls.Identity()
            history = []
            for (how, name, arg), state in path:
                x = build(cls, name, arg)
                before = x.to_list()
                if how == 'after':
                    u = t
                    t = cls(t) if rng.random() < .3 else t
                    keep = u.to_list()
                    t *= x
                    if t is not u and u.to_list() != keep:
                        ck.violation('a copied transformation is modified: {}'.format(history), history)
                else:
                    keep = t.to_list()
                    u = t * x
                    if t.to_list() != keep:
                        ck.violation('a product modifies its operand: {}'.format(history), history)
                    t = u
                history.append((how, name, arg))
                if x.to_list() != before:
                    ck.violation('a product modifies its operand: {}'.format(history), history)
            check(t, obs[vf.freeze(state)], affine, (cls.__name__, history))
            # built again from its coefficients, the type is computed from the matrix
            if rng.random() < .3 and (not affine or rng.random() < .5):
                check(cls(t.to_list()), obs[vf.freeze(state)], affine, (cls.__name__, 'list', history))
                check(cls(t.array), obs[vf.freeze(state)], affine, (cls.__name__, 'array', history))
            ck.traces += 1
            if ck.full:
                return
    # completeness of the types: pure transformations scale a length
    for k in (2, -3, .5, 1, -1):
        for t in (Transformation2D.Scale(k), Transformation2D.Scale(k, k), AffineTransformation2D.Scale(k, k),
                  Transformation2D.Scale(k) * Transformation2D.Scale(1)):
            if not vf.close(t * 5, abs(k) * 5):
                ck.violation('Scale({}) * 5 = {}'.format(k, t * 5))
        ck.traces += 1
    for cls in (Transformation2D, AffineTransformation2D):
        for t in (cls.Rotation(30), cls.Rotation(30) * cls.Rotation(60), cls.Identity()):
            if not vf.close(t * 5, 5):
                ck.violation('a rotation scales a length to {}'.format(t * 5))
        for t in (cls.Scale(2, 3), cls.Scale(2, -2) * cls.Scale(1, 3)):
            if vf.outcome(lambda: t * 5)[0] == 'ok':
                ck.violation('a sheared frame scales a length')
        if not cls.Identity().is_identity or cls.Rotation(90).is_identity or cls.Scale(2, 2).is_identity:
            ck.violation('is_identity')
        n = len(cls.Identity().to_list())
        for bad in ([1.] * (n - 1), [1.] * (n + 1)):
            if vf.outcome(cls, bad)[0] == 'ok':
                ck.violation('a transformation with {} coefficients is accepted'.format(len(bad)))
    t = AffineTransformation2D([1, 2, 3, 4, 5, 6, 0, 0, 1])
    if t.matrix_part.tolist() != [[1, 2], [4, 5]] or list(t.translation_part) != [3, 6] or t.dimension != 2 or t.size != 3:
        ck.violation('parts of an affine transformation')
    ck.samples.append(steps[0])
