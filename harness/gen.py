"""Generators of hostile values."""
import math, random, sys, types, struct

INF, NAN = float('inf'), float('nan')
MAXF, MINN, DENORM = sys.float_info.max, sys.float_info.min, 5e-324

SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 10.0, 0.1, INF, -INF,
           NAN, DENORM, -DENORM, MINN, MAXF, -MAXF, 1e154, 1e155, 1e-162, 1e-170,
           1e200, -1e200, 1e-200, 1 + 2**-52, 1 - 2**-53, 2.0**53, 2.0**53 + 2,
           709.0, 710.0, -745.0, 171.0, 172.0, math.pi, math.pi/2, math.e,
           1e16, 1e22, 1e-5, 123456789.0, 4.0, -3.0, 1.5, -1.5, 2.5, 1e100]


def ulp_neighbours(x):
    return [x, math.nextafter(x, INF), math.nextafter(x, -INF)]


_mined = None


def mined_constants():
    """Numeric constants of the code under test and their neighbours."""
    global _mined
    if _mined is None:
        vals = set()
        strs = set()
        seen = set()

        def walk(code):
            if code in seen:
                return
            seen.add(code)
            for c in code.co_consts:
                add(c)

        def add(c):
            if isinstance(c, types.CodeType):
                walk(c)
            elif isinstance(c, bool) or c is None:
                pass
            elif isinstance(c, (int, float)):
                try:
                    vals.add(float(c))
                except OverflowError:
                    pass
            elif isinstance(c, str) and len(c) < 24:
                strs.add(c)
            elif isinstance(c, (tuple, frozenset)):
                for x in c:
                    add(x)
        import uncertainties.core as core, uncertainties.umath_core as um
        import os
        for mod in (core, um):
            with open(mod.__file__, encoding='utf-8') as f:
                walk(compile(f.read(), mod.__file__, 'exec'))
        vals = sorted(v for v in vals if v == v)
        _mined = (vals, sorted(strs))
    return _mined


def mined_value(rng):
    vals = mined_constants()[0]
    v = rng.choice(vals)
    k = rng.random()
    if k < .3:
        return v
    if k < .5:
        return rng.choice(ulp_neighbours(v)) if not math.isinf(v) else v
    if k < .7:
        return v + rng.choice([-1., 1., -.5, .5, 1e-9, -1e-9])
    if k < .8:
        return -v
    return v*rng.choice([.1, .01, 10., .5, 2., 1e-3, 1e3, 1.0000001, .9999999])


def any_float(rng):
    "Any float, special ones being frequent."
    k = rng.random()
    if k < .22:
        return rng.choice(SPECIAL)
    if k < .34:
        return float(rng.randint(-20, 20))
    if k < .55:
        return rng.uniform(-10, 10)
    if k < .7:
        return rng.choice([-1, 1])*10**rng.uniform(-20, 20)
    if k < .8:
        return rng.choice([-1, 1])*10**rng.uniform(-308, 308)
    if k < .9:
        return mined_value(rng)
    if k < .95:
        return round(rng.uniform(-100, 100), rng.randint(0, 4))
    return struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]


def finite_float(rng):
    while True:
        x = any_float(rng)
        if not (math.isinf(x) or math.isnan(x)):
            return x


def moderate(rng):
    "Ordinary magnitudes."
    k = rng.random()
    if k < .15:
        return float(rng.randint(-9, 9))
    if k < .3:
        return round(rng.uniform(-9, 9), rng.randint(0, 3))
    if k < .8:
        return rng.uniform(-5, 5)
    return rng.choice([-1, 1])*10**rng.uniform(-4, 4)


def any_std(rng):
    k = rng.random()
    if k < .12:
        return 0.0
    if k < .17:
        return rng.choice([INF, NAN])
    if k < .25:
        return abs(rng.choice(SPECIAL))
    if k < .3:
        return abs(finite_float(rng))
    return 10**rng.uniform(-6, 3)


def finite_std(rng, zero=.1):
    if rng.random() < zero:
        return 0.0
    return 10**rng.uniform(-6, 3)


def same_float(a, b):
    "Bit-for-bit equality (all NaNs being equal)."
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def close(a, b, rel=1e-9, abs_=0.0):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rel*max(abs(a), abs(b)) + abs_


class StrSub(str):
    pass


class FloatSub(float):
    "A user-defined float subclass."


def plain_scalar(rng, value=None, numpy=None, big_ints=False):
    """A plain number of a random type, near 'value' (default: any float)."""
    x = any_float(rng) if value is None else value
    kinds = ['float', 'float', 'int', 'bool', 'sub']
    if numpy is not None:
        kinds += ['f64', 'f32', 'i64', 'i32', 'nbool', 'f16', 'u8']
    k = rng.choice(kinds)
    if k in ('int', 'i64', 'i32') and not (abs(x) < 1e15):
        k = 'float'
    if k == 'int':
        if big_ints and rng.random() < .1:
            return rng.choice([10**20, -10**25, 2**70, 10**300, 10**400])
        return int(x)
    if k == 'bool':
        return bool(rng.getrandbits(1))
    if k == 'sub':
        return FloatSub(x)
    if k == 'f64':
        return numpy.float64(x)
    if k == 'f32':
        return numpy.float32(x if abs(x) < 1e38 or x != x else 1.5)
    if k == 'f16':
        return numpy.float16(x if abs(x) < 6e4 or x != x else 1.5)
    if k == 'i64':
        return numpy.int64(int(x))
    if k == 'i32':
        return numpy.int32(int(x) if abs(x) < 2e9 else 7)
    if k == 'u8':
        return numpy.uint8(int(abs(x)) % 256 if abs(x) < 1e9 else 9)
    if k == 'nbool':
        return numpy.bool_(rng.getrandbits(1))
    return x
