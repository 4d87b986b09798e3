"""Independent, high-precision partial derivatives of the supported operations.

partials(name, args) returns a list, one entry per argument:
  (value, slack): partial derivative (mpf) and *relative* tolerance factor due
  to the conditioning of the derivative with respect to the argument;
  None: the function is not differentiable there with respect to that argument.
It returns None when the function itself is not defined there.
The formulas are checked against numerical differentiation by the self-test.
"""
from fractions import Fraction
import math
import mpmath
from mpmath import mpf, mp

PREC = 160
mp.prec = PREC
EPS = 2.0**-52
INF = float('inf')


def _pow(x, y):
    out = []
    if x > 0:
        return [(y*mpmath.power(x, y)/x, 0), (mpmath.log(x)*mpmath.power(x, y), 0)]
    yint = y == mpmath.floor(y)
    if x < 0:
        if not yint:
            return None
        return [(y*mpmath.power(x, y)/x, 0), None]
    # x == 0
    if y == 0:
        return [(mpf(0), 0), None]
    if y < 0:
        return None
    if yint:
        return [(mpf(1) if y == 1 else mpf(0), 0), (mpf(0), 0)]
    return [None, (mpf(0), 0)]


def _mod(x, y):
    if y == 0:
        return None
    q = Fraction(float(x))/Fraction(float(y))
    f = q.numerator//q.denominator
    if q.denominator == 1:
        return [None, None]
    return [(mpf(1), 0), (-mpf(f), 0)]


def _fmod(x, y):
    if y == 0:
        return None
    q = Fraction(float(x))/Fraction(float(y))
    t = abs(q.numerator)//q.denominator
    if q.denominator == 1:
        return [None, None]
    return [(mpf(1), 0), (-mpf(t if q > 0 else -t), 0)]


def _floordiv(x, y):
    if y == 0:
        return None
    q = Fraction(float(x))/Fraction(float(y))
    return [None, None] if q.denominator == 1 else [(mpf(0), 0), (mpf(0), 0)]


def _hypot(*c):
    h = mpmath.sqrt(sum(x*x for x in c))
    if h == 0:
        return [None]*len(c)
    return [(x/h, 0) for x in c]


def _atan2(y, x):
    d = x*x + y*y
    if d == 0 or (y == 0 and x < 0):
        return [None, None]
    return [(x/d, 0), (-y/d, 0)]


def _log(x, b=None):
    if x <= 0:
        return None
    if b is None:
        return [(1/x, 0)]
    if b <= 0 or b == 1:
        return None
    lb = mpmath.log(b)
    return [(1/(x*lb), 0), (-mpmath.log(x)/(b*lb*lb), 0)]


def _one(f):
    return lambda x: (lambda r: None if r is None else [r])(f(x))


def _inverse_trig(x, sign):
    if not -1 <= x <= 1:
        return None
    if abs(x) == 1:
        return 'nd'
    d = 1 - x*x
    return (sign/mpmath.sqrt(d), 4*x*x/d)


def _nd(f):
    "Handles 'nd' (not differentiable) markers."
    def g(x):
        r = f(x)
        if r is None:
            return None
        return [None] if r == 'nd' else [r]
    return g


def _is_int(x):
    return x == mpmath.floor(x)


def _gamma(x):
    if x <= 0 and _is_int(x):
        return None
    return (mpmath.gamma(x)*mpmath.digamma(x), 0)


def _lgamma(x):
    if x <= 0 and _is_int(x):
        return None
    return (mpmath.digamma(x), 0)


TABLE = {
    'add': lambda x, y: [(mpf(1), 0), (mpf(1), 0)],
    'sub': lambda x, y: [(mpf(1), 0), (mpf(-1), 0)],
    'mul': lambda x, y: [(y, 0), (x, 0)],
    'truediv': lambda x, y: None if y == 0 else [(1/y, 0), (-x/(y*y), 0)],
    'floordiv': _floordiv,
    'mod': _mod,
    'pow': _pow,
    'neg': _nd(lambda x: (mpf(-1), 0)),
    'pos': _nd(lambda x: (mpf(1), 0)),
    'abs': _nd(lambda x: 'nd' if x == 0 else (mpmath.sign(x), 0)),
    'trunc': _nd(lambda x: 'nd' if _is_int(x) and x != 0 else (mpf(0), 0)),
    'acos': _nd(lambda x: _inverse_trig(x, -1)),
    'asin': _nd(lambda x: _inverse_trig(x, 1)),
    'acosh': _nd(lambda x: None if x < 1 else 'nd' if x == 1 else
                 (1/mpmath.sqrt((x - 1)*(x + 1)), 0)),
    'asinh': _nd(lambda x: (1/mpmath.sqrt(1 + x*x), 0)),
    'atan': _nd(lambda x: (1/(1 + x*x), 0)),
    'atan2': _atan2,
    'atanh': _nd(lambda x: None if abs(x) >= 1 else
                 (1/(1 - x*x), 8*x*x/(1 - x*x))),
    'copysign': lambda x, y: [
        None if x == 0 else (mpmath.sign(x)*(1 if y >= 0 else -1), 0),
        None if y == 0 else (mpf(0), 0)],
    'cos': _nd(lambda x: (-mpmath.sin(x), 0)),
    'cosh': _nd(lambda x: (mpmath.sinh(x), 0)),
    'degrees': _nd(lambda x: (180/mpmath.pi, 0)),
    'erf': _nd(lambda x: (2/mpmath.sqrt(mpmath.pi)*mpmath.exp(-x*x), 0)),
    'erfc': _nd(lambda x: (-2/mpmath.sqrt(mpmath.pi)*mpmath.exp(-x*x), 0)),
    'exp': _nd(lambda x: (mpmath.exp(x), 0)),
    'expm1': _nd(lambda x: (mpmath.exp(x), 0)),
    'fabs': _nd(lambda x: 'nd' if x == 0 else (mpmath.sign(x), 0)),
    'fmod': _fmod,
    'gamma': _nd(_gamma),
    'hypot': _hypot,
    'lgamma': _nd(_lgamma),
    'log': _log,
    'log10': _nd(lambda x: None if x <= 0 else (1/(x*mpmath.log(10)), 0)),
    'log1p': _nd(lambda x: None if x <= -1 else (1/(1 + x), 2/(1 + x))),
    'radians': _nd(lambda x: (mpmath.pi/180, 0)),
    'sin': _nd(lambda x: (mpmath.cos(x), 0)),
    'sinh': _nd(lambda x: (mpmath.cosh(x), 0)),
    'sqrt': _nd(lambda x: None if x < 0 else 'nd' if x == 0 else
                (1/(2*mpmath.sqrt(x)), 0)),
    'tan': _nd(lambda x: (1/mpmath.cos(x)**2, 0)),
    'tanh': _nd(lambda x: (1/mpmath.cosh(x)**2, 0)),
}
TABLE['fpow'] = _pow

# The functions themselves, for the self-test:
VALUE = {
    'add': lambda x, y: x + y, 'sub': lambda x, y: x - y,
    'mul': lambda x, y: x*y, 'truediv': lambda x, y: x/y,
    'floordiv': lambda x, y: mpmath.floor(x/y),
    'mod': lambda x, y: x - y*mpmath.floor(x/y),
    'pow': lambda x, y: mpmath.power(x, y).real if x > 0 or _is_int(y)
        else mpmath.power(x, y),
    'neg': lambda x: -x, 'pos': lambda x: x, 'abs': abs,
    'trunc': lambda x: mpmath.sign(x)*mpmath.floor(abs(x)),
    'acos': mpmath.acos, 'asin': mpmath.asin, 'acosh': mpmath.acosh,
    'asinh': mpmath.asinh, 'atan': mpmath.atan,
    'atan2': lambda y, x: mpmath.atan2(y, x), 'atanh': mpmath.atanh,
    'copysign': lambda x, y: abs(x)*(1 if y >= 0 else -1),
    'cos': mpmath.cos, 'cosh': mpmath.cosh, 'degrees': mpmath.degrees,
    'erf': mpmath.erf, 'erfc': mpmath.erfc, 'exp': mpmath.exp,
    'expm1': mpmath.expm1, 'fabs': abs,
    'fmod': lambda x, y: x - y*(lambda q: mpmath.sign(q)*mpmath.floor(abs(q)))(x/y),
    'gamma': mpmath.gamma, 'hypot': lambda *c: mpmath.sqrt(sum(x*x for x in c)),
    'lgamma': lambda x: mpmath.log(abs(mpmath.gamma(x))),
    'log': lambda x, b=None: mpmath.log(x) if b is None else
        mpmath.log(x)/mpmath.log(b),
    'log10': mpmath.log10, 'log1p': lambda x: mpmath.log(1 + x),
    'radians': mpmath.radians, 'sin': mpmath.sin, 'sinh': mpmath.sinh,
    'sqrt': mpmath.sqrt, 'tan': mpmath.tan, 'tanh': mpmath.tanh,
}
NUMERICAL = {'fmod', 'gamma', 'lgamma'}  # numerically differentiated


def partials(name, args):
    args = [float(a) for a in args]
    if any(math.isnan(a) or math.isinf(a) for a in args):
        return None
    if name == 'copysign':  # (mpmath has no signed zero)
        args[1] = math.copysign(max(abs(args[1]), 1e-300), args[1])
        res = TABLE[name](*map(mpf, args))
        return [res[0], res[1] if abs(args[1]) > 1e-300 else None]
    return TABLE[name](*map(mpf, args))


def numerical(name, args):
    """False if numerical differentiation is meaningful at this point, otherwise
    the absolute tolerances to be used, for each argument."""
    args = [float(a) for a in args]
    if name == 'fmod':
        x, y = args
        q = abs(x/y)
        frac = q - math.floor(q)
        if q > 1e5 or not .01 < frac < .99 or abs(x) > 1e290 or \
                abs(x) < 1e-280 or abs(y) > 1e290 or abs(y) < 1e-280:
            return None
        return [1e-6, 1e-6*(1 + q)]
    (x,) = args
    if abs(x) < 1e-6 or not -1000 < x < 1e15:
        return None
    if x < 0.05 and abs(x - round(x)) < .02 and round(x) != 0:
        return None
    try:
        v = getattr(math, name)(x)
        d = abs(float(partials(name, args)[0][0]))
    except (OverflowError, ValueError):
        return None
    if v == 0 and name == 'gamma' or abs(v) < 1e-280 or d > 1e300:
        if not (name == 'lgamma' and d < 1e300):
            return None
    return [1e-5*d + 1e-6*abs(v/x) + (1e-6/abs(x) if name == 'lgamma' else 0)]
