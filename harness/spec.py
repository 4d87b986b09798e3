"""Independent list of the operations that the package documents as supported."""
import math, operator, random
from uncertainties import ufloat, UFloat
import uncertainties.core as core

BINOPS = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'truediv': operator.truediv, 'floordiv': operator.floordiv,
    'mod': operator.mod, 'pow': operator.pow}
IOPS = {k: getattr(operator, 'i' + k) for k in BINOPS}
UNOPS = {'neg': operator.neg, 'pos': operator.pos, 'abs': operator.abs}

# math functions, with their (uncertain) argument counts:
FUNCS1 = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh',
          'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'gamma', 'lgamma',
          'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan',
          'tanh']
FUNCS2 = ['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow']
LOCALLY_CONSTANT = ['ceil', 'floor', 'isinf', 'isnan', 'trunc']
SPECIAL_FUNCS = ['modf', 'ldexp', 'frexp', 'fsum', 'factorial']
ALL_UMATH = sorted(set(FUNCS1 + FUNCS2 + LOCALLY_CONSTANT + SPECIAL_FUNCS))

# Where each function is interesting:
DOMAINS = {
    'acos': (-1, 1), 'asin': (-1, 1), 'atanh': (-1, 1), 'acosh': (1, 20),
    'log': (0, 20), 'log10': (0, 20), 'log1p': (-1, 20), 'sqrt': (0, 20),
    'exp': (-20, 20), 'expm1': (-5, 20), 'cosh': (-20, 20), 'sinh': (-20, 20),
    'gamma': (-10, 30), 'lgamma': (-10, 50), 'tan': (-10, 10),
    'erf': (-4, 4), 'erfc': (-4, 6), 'tanh': (-5, 5)}


def in_domain(rng, name):
    lo, hi = DOMAINS.get(name, (-20, 20))
    k = rng.random()
    if k < .1:
        return float(rng.choice([lo, hi, 0, 1, -1, .5, lo + 1e-9, hi - 1e-9]))
    if k < .3:
        return rng.uniform(lo, lo + (hi - lo)*10**rng.uniform(-12, 0))
    if k < .4:
        return rng.choice([-1, 1])*10**rng.uniform(-12, 0)
    return rng.uniform(lo, hi)


def make_uncertain(rng, value, std, depth=1):
    """A number with uncertainty of exactly this nominal value, either a
    variable or the result of value-preserving operations."""
    v = ufloat(value, std)
    k = rng.random()
    if k < .5 or not depth:
        return v
    if k < .65:
        return +v
    if k < .8:
        return -(-v)
    if k < .9:
        return v*1
    return 1.0*v


class Raised(object):
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'raised %s(%s)' % (type(self.exc).__name__, self.exc)


def attempt(f, /, *args, **kw):
    """Result of f, or a Raised object."""
    try:
        return f(*args, **kw)
    except Exception as e:
        return Raised(e)
