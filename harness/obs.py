"""Observation of numbers with uncertainties: everything that they report."""
import math
from uncertainties import UFloat
import uncertainties.core as core

FORMATS = ['', '.1u', '.3f', 'e', '.2uS', 'P', 'L', '%', '12.3e', 'g']


def is_variable(o):
    return isinstance(o, core.Variable)


def observe(o, index, rich=True):
    """What a number reports. 'index' maps the id of variables to names."""
    if not isinstance(o, UFloat):
        return ('plain', type(o).__name__, repr(o))
    d = o.derivatives
    e = o.error_components()
    out = [type(o).__name__, repr(o.nominal_value), repr(float(o.std_dev)),
           tuple(sorted((str(index.get(id(v), '?')), repr(float(x)))
                        for v, x in d.items())),
           tuple(sorted((str(index.get(id(v), '?')), repr(float(x)))
                        for v, x in e.items()))]
    if is_variable(o):
        out.append(o.tag)
    if rich:
        out.append(repr(o))
        out.append(str(o))
    return tuple(out)


def numbers_close(a, b, tol):
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol
    return a == b


def values(o, index):
    "Numerical observation: (nominal, std_dev, derivatives, components)."
    return (o.nominal_value, float(o.std_dev),
            {index.get(id(v), '?'): float(x) for v, x in o.derivatives.items()},
            {index.get(id(v), '?'): float(x)
             for v, x in o.error_components().items()})


def same_values(a, b, rel=1e-12, scale=None):
    """Equality of numerical observations up to the order of floating-point
    sums. Returns None or a description of the difference."""
    if not numbers_close(a[0], b[0], 0.):
        return 'nominal values %r and %r' % (a[0], b[0])
    if set(a[2]) != set(b[2]):
        return 'dependence on %r and %r' % (sorted(map(str, a[2])),
                                            sorted(map(str, b[2])))
    for k in a[2]:
        s = scale.get(k, 0.) if scale else max(abs(a[2][k]), abs(b[2][k]))
        if not numbers_close(a[2][k], b[2][k], rel*s):
            return 'derivative w.r.t. %s: %r and %r' % (k, a[2][k], b[2][k])
    if not scale:
        for k in a[3]:
            s = max(abs(a[3][k]), abs(b[3][k]))
            if not numbers_close(a[3][k], b[3][k], rel*s):
                return 'component of %s: %r and %r' % (k, a[3][k], b[3][k])
    if not scale and not numbers_close(
            a[1], b[1], rel*max(abs(a[1]), abs(b[1]))):
        return 'standard deviations %r and %r' % (a[1], b[1])
    return None
