"""Helpers of the geometry checks: exact values of the specification <-> floats of the code"""
import math

import vf


def rat(x):
    return x[0] / x[1]


def xy(p):
    """Rational vector of the specification -> (x, y) floats"""
    return rat(p[0]), rat(p[1])


def rv(x, y):
    """Integers or (n, d) -> rational vector for the specification"""
    return [list(r(x)), list(r(y))]


def r(x):
    if isinstance(x, (tuple, list)):
        n, d = x
        if d < 0:
            n, d = -n, -d
        g = math.gcd(n, d)
        return (n // g, d // g)
    return (x, 1)


def same(v, p, tol=1e-9):
    """Is the vector of the code the point of the specification?"""
    try:
        a = [float(x) for x in v]
    except TypeError:
        return False
    b = xy(p)
    return len(a) == 2 and vf.close(a[0], b[0], tol) and vf.close(a[1], b[1], tol)


def same_points(points, expected, tol=1e-9):
    points = list(points)
    return len(points) == len(expected) and all(same(a, b, tol) for a, b in zip(points, expected))


def ssq(x):
    """signed square"""
    return math.copysign(x * x, x) if x else 0.


def box(interval):
    return (interval.x.inf, interval.y.inf, interval.x.sup, interval.y.sup)


def text(v):
    try:
        return '({:g}, {:g})'.format(*(float(x) for x in v))
    except Exception:
        return repr(v)
