"""C01: nominal values are exactly those of the plain float computation."""
import math, operator, struct
import numpy
from uncertainties import ufloat, UFloat, umath
import uncertainties.core as core
from .. import gen, spec
from ..spec import attempt, Raised

PROPERTY = 'C01'
LEVEL = 'exploration'
TECHNIQUE = 'runtime differential monitor: every operation also executed on plain floats, results compared bit for bit'
NOTE = 'No difference between the nominal values and the plain float computation in any executed operation; trusts CPython float arithmetic and the math module.'
RULE = ('each operation is executed on numbers with uncertainties and, as an '
        'oracle, on plain floats; distinct = (operation, operand kinds, '
        'operands) with at least one uncertain operand, or plain-only calls')
ASSUMPTIONS = [
    'Plain Python float operators and the math module are the specification.',
    'NumPy scalars count as the float of the same value.',
    'Integers beyond the float range, Fraction and Decimal operands, divmod() '
    'and round() are not supported operations.']


def bits(x):
    return 'nan' if x != x else struct.pack('>d', x).hex()


def operand(rng, value, uncertain, zoo=True):
    """(object given to the library, its float value, kind)"""
    if uncertain:
        o = spec.make_uncertain(rng, value, gen.any_std(rng))
        return o, value, type(o).__name__
    o = gen.plain_scalar(rng, value, numpy if zoo else None)
    return o, float(o), type(o).__name__


def check_same(ctx, what, res, expected, numpy_operand=False):
    """res: result with uncertainty; expected: plain result or Raised."""
    if isinstance(expected, Raised) or isinstance(expected, complex):
        ctx.count('expected_exceptions')
        if isinstance(res, Raised):
            return
        ctx.fail('%s returned a number where the plain operation raises or is '
                 'not real' % what, result=res, plain=expected)
    ctx.count('expected_values')
    ctx.check(not isinstance(res, Raised),
              '%s raised where the plain operation has a value' % what,
              result=res, plain=expected)
    ctx.check(isinstance(res, UFloat),
              '%s: the result is not a number with uncertainty' % what,
              result=res, result_type=type(res))
    n = res.nominal_value
    ctx.check(type(n) is float and gen.same_float(n, float(expected)),
              '%s: wrong nominal value' % what, nominal=n, plain=expected)
    ctx.check(gen.same_float(res.n, n), 'n differs from nominal_value')


def values(rng):
    a = gen.any_float(rng)
    k = rng.random()
    if k < .15:
        b = a
    elif k < .25:
        b = -a
    elif k < .4:
        b = float(rng.randint(-5, 5))
    else:
        b = gen.any_float(rng)
    return a, b


def binop(ctx):
    rng = ctx.rng
    for _ in range(20):
        name = rng.choice(list(spec.BINOPS))
        a, b = values(rng)
        if name == 'pow':
            k = rng.random()
            if k < .3:
                b = rng.choice([0., -0., 1., -1., 2., 3., .5, -.5, 1/3, -2., -3.,
                                2.5, 1e300, gen.INF, -gen.INF, gen.NAN, 7.])
            elif k < .4:
                a = rng.choice([0., -0., 1., -1., -2., -8.])
        if name in ('mod', 'floordiv') and rng.random() < .4:
            b = rng.choice([1., -1., .3, -.3, 3., -3., .1, 1e-3, 7.5, gen.INF,
                            -gen.INF, 0., -0.])
        which = rng.choice([(1, 1), (1, 0), (0, 1)])
        x, fx, kx = operand(rng, a, which[0])
        y, fy, ky = operand(rng, b, which[1])
        if which == (1, 1) and rng.random() < .1:
            y, fy, ky = x, fx, kx
        op = spec.BINOPS[name]
        expected = attempt(op, fx, fy)
        form = rng.choice(['infix', 'infix', 'inplace'])
        ctx.log(form, name, repr(x), repr(y))
        if form == 'inplace':
            res = attempt(spec.IOPS[name], x, y)
        else:
            res = attempt(op, x, y)
        ctx.count('evaluations')
        ctx.count('op_' + name)
        check_same(ctx, '%s(%s, %s) %s' % (name, kx, ky, form), res, expected)
        # The operands are what they were:
        for o, f in ((x, fx), (y, fy)):
            n = o.nominal_value if isinstance(o, UFloat) else float(o)
            ctx.check(gen.same_float(n, f), 'operand modified by %s' % name)
        ctx.distinct(name, kx, ky, bits(fx), bits(fy))


def dunder(ctx):
    "Explicit use of the reflected methods (same values as the operators)."
    rng = ctx.rng
    for _ in range(20):
        name = rng.choice(list(spec.BINOPS))
        a, b = values(rng)
        x = spec.make_uncertain(rng, a, gen.any_std(rng))
        y = rng.choice([b, ufloat(b, .1), -ufloat(-b, .2)])
        expected = attempt(spec.BINOPS[name], b, a)
        ctx.log('__r%s__' % name, repr(x), repr(y))
        res = attempt(getattr(x, '__r%s__' % name), y)
        ctx.count('evaluations')
        check_same(ctx, '__r%s__' % name, res, expected)
        ctx.distinct('r' + name, type(y).__name__, bits(a), bits(b))


def unary(ctx):
    rng = ctx.rng
    for _ in range(20):
        a = gen.any_float(rng)
        x = spec.make_uncertain(rng, a, gen.any_std(rng))
        name = rng.choice(list(spec.UNOPS) + ['trunc'])
        ctx.count('evaluations')
        ctx.log(name, repr(x))
        if name == 'trunc':
            f = math.trunc
            expected = attempt(math.trunc, a)
        else:
            f = spec.UNOPS[name]
            expected = f(a)
        check_same(ctx, name, attempt(f, x), expected)
        ctx.distinct(name, bits(a))


def same_plain(ctx, what, res, expected):
    "Exact same object kind and value, or same exception type."
    if isinstance(expected, Raised):
        ctx.count('expected_exceptions')
        ctx.check(isinstance(res, Raised) and
                  type(res.exc) is type(expected.exc),
                  '%s: plain call must raise like the math function' % what,
                  result=res, plain=expected)
        return
    ctx.check(not isinstance(res, Raised), '%s raised' % what, result=res,
              plain=expected)
    rs = res if isinstance(expected, tuple) else (res,)
    es = expected if isinstance(expected, tuple) else (expected,)
    ctx.check(type(res) is type(expected) and len(rs) == len(es),
              '%s: type of the plain result' % what, result=res, plain=expected)
    for r, e in zip(rs, es):
        ctx.check(type(r) is type(e), '%s: type of the plain result' % what,
                  result=res, plain=expected)
        ctx.check(gen.same_float(r, e) if isinstance(e, float) else r == e,
                  '%s: value of the plain result' % what, result=res,
                  plain=expected)


def func_args(rng, name, n):
    if rng.random() < .5:
        return [gen.any_float(rng) for _ in range(n)]
    return [spec.in_domain(rng, name) for _ in range(n)]


def func(ctx):
    rng = ctx.rng
    for _ in range(20):
        k = rng.random()
        if k < .6:
            name, n = rng.choice(spec.FUNCS1), 1
        elif k < .9:
            name, n = rng.choice(spec.FUNCS2), 2
            if name == 'hypot':
                n = rng.choice([1, 2, 2, 2, 3, 5])
        else:
            name, n = rng.choice(spec.FUNCS1 + spec.FUNCS2), rng.choice([0, 1, 2, 3])
        vals = func_args(rng, name, n)
        if name == 'pow' and n == 2 and rng.random() < .4:
            vals[1] = float(rng.choice([0, 1, 2, -1, -2, 3, .5, -.5]))
        mask = [rng.random() < .6 for _ in vals]
        if mask and not any(mask):
            mask[rng.randrange(n)] = True
        ops = [operand(rng, v, m) for v, m in zip(vals, mask)]
        args = [o[0] for o in ops]
        floats = [o[1] for o in ops]
        ctx.log(name, *[repr(a) for a in args])
        expected = attempt(getattr(math, name), *floats)
        res = attempt(getattr(umath, name), *args)
        ctx.count('evaluations')
        ctx.count('func_' + name)
        what = 'umath.%s/%d' % (name, n)
        if not args:
            same_plain(ctx, what, res, expected)
        else:
            check_same(ctx, what, res, expected)
            if isinstance(expected, Raised):
                ctx.check(type(res.exc) is type(expected.exc),
                          '%s: different exception' % what, result=res,
                          plain=expected)
        ctx.distinct(name, tuple(mask), tuple(o[2] for o in ops),
                     tuple(map(bits, floats)))


def plain(ctx):
    "Only plain numbers: the original function."
    rng = ctx.rng
    for _ in range(20):
        name = rng.choice(spec.ALL_UMATH)
        if name in spec.FUNCS2 and rng.random() < .8:
            n = 2
        elif name == 'ldexp':
            n = 2
        else:
            n = 1
        args = [gen.plain_scalar(rng, v, numpy, big_ints=True)
                for v in func_args(rng, name, n)]
        if name == 'ldexp':
            args[1] = rng.choice([0, 1, -1, 5, -1074, 1023, 2000, -5000, 2.5,
                                  rng.randint(-60, 60)])
        elif name == 'factorial':
            args = [rng.choice([0, 1, 5, 20, -1, 100, 2.5, 3.0])]
        elif name == 'fsum':
            args = [[gen.plain_scalar(rng, gen.any_float(rng), numpy)
                     for _ in range(rng.randint(0, 6))]]
            if rng.random() < .3:
                args = [tuple(args[0])]
        ctx.log(name, repr(args))
        expected = attempt(getattr(math, name), *args)
        res = attempt(getattr(umath, name), *args)
        ctx.count('evaluations')
        ctx.count('plain_' + name)
        if name in ('modf', 'ldexp', 'frexp') and isinstance(expected, Raised):
            ctx.check(isinstance(res, Raised), '%s must raise' % name,
                      result=res)
        else:
            same_plain(ctx, 'umath.%s (plain)' % name, res, expected)
        ctx.distinct('plain', name, repr(args))


def locally_constant(ctx):
    rng = ctx.rng
    for _ in range(20):
        name = rng.choice(spec.LOCALLY_CONSTANT)
        a = gen.any_float(rng)
        if rng.random() < .3:
            a = float(round(a)) if abs(a) < 1e15 else a
        x = spec.make_uncertain(rng, a, gen.any_std(rng))
        ctx.log(name, repr(x))
        ctx.count('evaluations')
        same_plain(ctx, 'umath.%s' % name, attempt(getattr(umath, name), x),
                   attempt(getattr(math, name), a))
        ctx.distinct(name, bits(a))


def special(ctx):
    rng = ctx.rng
    for _ in range(20):
        name = rng.choice(['modf', 'ldexp', 'frexp', 'fsum', 'factorial'])
        a = gen.any_float(rng)
        x = spec.make_uncertain(rng, a, gen.any_std(rng))
        ctx.count('evaluations')
        ctx.count('func_' + name)
        ctx.log(name, repr(x))
        if name in ('modf', 'frexp'):
            expected = getattr(math, name)(a)
            res = getattr(umath, name)(x)
            ctx.check(type(res) is tuple and len(res) == 2, name + ': not a pair',
                      result=res)
            check_same(ctx, name, res[0], expected[0])
            same_plain(ctx, name, res[1], expected[1])
        elif name == 'ldexp':
            i = rng.choice([0, 1, -1, 5, 10, -10, 60, -60, 1023, -1074])
            ctx.log('ldexp exponent', i)
            check_same(ctx, name, attempt(umath.ldexp, x, i),
                       attempt(math.ldexp, a, i))
        elif name == 'fsum':
            n = rng.randint(1, 8) if rng.random() < .98 else rng.randint(20, 300)
            scale = rng.random() < .4
            vals = [gen.any_float(rng) if scale else gen.moderate(rng)
                    for _ in range(n)]
            mask = [rng.random() < .5 for _ in vals]
            mask[rng.randrange(n)] = True
            ops = [operand(rng, v, m) for v, m in zip(vals, mask)]
            seq = [o[0] for o in ops]
            ctx.log('fsum', repr(seq))
            given = rng.choice([list, tuple, iter])(seq)
            check_same(ctx, name, attempt(umath.fsum, given),
                       attempt(math.fsum, [o[1] for o in ops]))
        else:
            # Not defined on numbers with uncertainty:
            ctx.check(isinstance(attempt(umath.factorial, x), Raised),
                      'factorial of a number with uncertainty')
        ctx.distinct(name, bits(a))


def program(ctx):
    """Straight-line programs: every intermediate nominal value is the one of
    the same program on floats."""
    rng = ctx.rng
    n = rng.randint(1, 4)
    floats = [gen.moderate(rng) for _ in range(n)]
    nums = [ufloat(f, gen.finite_std(rng)) for f in floats]
    for _ in range(rng.randint(3, 25)):
        i = rng.randrange(len(nums))
        j = rng.randrange(len(nums))
        if rng.random() < .6:
            name = rng.choice(list(spec.BINOPS))
            args, fargs = [nums[i], nums[j]], [floats[i], floats[j]]
            f = g = spec.BINOPS[name]
        else:
            name = rng.choice(spec.FUNCS1)
            args, fargs = [nums[i]], [floats[i]]
            f, g = getattr(umath, name), getattr(math, name)
        k = rng.random()
        if k < .2 and len(args) == 2:
            p = rng.randrange(2)
            args[p] = fargs[p] = rng.choice([2, 3, .5, -1, 10, 1.5])
        ctx.log(name, repr(fargs))
        expected = attempt(g, *fargs)
        res = attempt(f, *args)
        ctx.count('evaluations')
        if not any(isinstance(a, UFloat) for a in args):
            continue
        check_same(ctx, 'program step ' + name, res, expected)
        if isinstance(expected, float):
            nums.append(res)
            floats.append(expected)
    for x, f in zip(nums, floats):
        ctx.check(gen.same_float(x.nominal_value, f), 'nominal value changed')
    ctx.distinct('program', tuple(map(bits, floats)))


def names(ctx):
    "The documented functions exist, under their names."
    for name in spec.ALL_UMATH:
        ctx.check(callable(getattr(umath, name, None)),
                  'umath.%s is missing' % name)
        ctx.check(name in umath.__all__, 'umath.%s is not exported' % name)
        ctx.count('evaluations')
        ctx.distinct(name)


WORKLOADS = [
    ('names', names, 1, 1),
    ('binop', binop, 30000, 400000),
    ('dunder', dunder, 6000, 60000),
    ('unary', unary, 1000, 30000),
    ('func', func, 30000, 400000),
    ('plain', plain, 12000, 100000),
    ('locally_constant', locally_constant, 1000, 30000),
    ('special', special, 8000, 100000),
    ('program', program, 12000, 100000),
]
MIN = {'expected_values': 20000, 'expected_exceptions': 2000}
