"""C02: recorded derivatives are the true partial derivatives."""
import math
import mpmath
import numpy
from mpmath import mpf
from uncertainties import ufloat, UFloat, umath
from .. import gen, spec, refmath
from ..spec import attempt, Raised

PROPERTY = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor of recorded derivatives against independent '
             '160-bit analytic partial derivatives')
NOTE = ('No recorded derivative of any executed elementary operation deviates '
        'from the mathematical one beyond 1e-9 relative (plus the conditioning '
        'of the derivative itself); trusts mpmath and the reference table, which '
        'the self-test compares with numerical differentiation.')
RULE = ('distinct = (operation, positions of the uncertain operands, operands) '
        'where the operation is differentiable with respect to at least one '
        'uncertain operand and the derivative was compared')
ASSUMPTIONS = [
    'Points where the value, an operand or the derivative is outside '
    '1e-280..1e280 (or zero derivative) are excluded, as are points of '
    'non-differentiability (covered by C03).',
    'tanh: absolute accuracy 2e-15 for the derivative (float cancellation).',
    'fmod, gamma, lgamma: accuracy of numerical differentiation, away from '
    'discontinuities and poles.']
LO, HI = mpf(10)**-285, mpf(10)**285


def uncertain(rng, value, numpy_ok=True):
    """(object, variable, d object/d variable): number with uncertainty of
    exactly this nominal value."""
    std = gen.finite_std(rng)
    k = rng.random()
    if k < .45:
        v = ufloat(value, std)
        return v, v, 1.
    if k < .6:
        v = ufloat(value, std)
        return v*1, v, 1.
    if k < .75:
        v = ufloat(-value, std)
        return -v, v, -1.
    if 1e-290 < abs(value) < 1e290:
        v = ufloat(value/2, std)
        return rng.choice([lambda: v*2, lambda: 2*v, lambda: v + v])(), v, 2.
    v = ufloat(value, std)
    return +v, v, 1.


def plain(rng, value):
    return gen.plain_scalar(rng, value, numpy)


def tolerance(name, i, args, ref, slack):
    if name in refmath.NUMERICAL:
        t = refmath.numerical(name, args)
        return None if t is None else mpf(t[i])
    t = mpf(1e-9)*abs(ref) + mpf(slack)*refmath.EPS*abs(ref)
    if name == 'tanh':
        t += mpf(2e-15)
    return t


def points(rng, name, n):
    for _ in range(60):
        k = rng.random()
        if k < .35:
            vals = [gen.any_float(rng) for _ in range(n)]
        elif k < .6:
            vals = [gen.moderate(rng) for _ in range(n)]
        elif k < .7 and name in spec.BINOPS:
            vals = [gen.mined_value(rng) for _ in range(n)]
        else:
            vals = [spec.in_domain(rng, name) for _ in range(n)]
        if name == 'pow' and n == 2 and rng.random() < .5:
            vals[1] = rng.choice([0., 1., 2., -1., -2., 3., .5, -.5, 1/3, 4., -3.,
                                  7., 10., 1.5, 2.5, 100., -7.])
        if name == 'pow' and n == 2 and rng.random() < .06:
            # Huge exponents (the parity of y-1 and of y can be the same)
            k = rng.randint(-40, 40)
            y = float(rng.choice([1, -1])*(2**rng.randint(45, 56) + rng.randint(-3, 3)))
            vals = [rng.choice([1, -1, 1, 0])*(1 + k*2.**-52), y]
        if n >= 2 and rng.random() < .05:
            vals[1] = vals[0]
        if not any(math.isinf(v) or math.isnan(v) for v in vals):
            return vals
    return [1.5]*n


OPS1 = list(spec.UNOPS) + ['trunc']


def run(ctx, name, is_op, n, form, vals, mask, same):
    """Executes the operation; returns (result, variables, scales, floats)."""
    rng = ctx.rng
    objs, variables, floats = [], [], []
    for i, (v, m) in enumerate(zip(vals, mask)):
        if m:
            if same and variables and variables[0] is not None:
                objs.append(objs[0])
                variables.append(variables[0])
                floats.append(floats[0])
                continue
            o, var, scale = uncertain(rng, v)
            objs.append(o)
            variables.append((var, scale))
            floats.append(v)
        else:
            o = plain(rng, v)
            objs.append(o)
            variables.append(None)
            floats.append(float(o))
    ctx.log(form, name, *[repr(o) for o in objs])
    if is_op:
        if name == 'trunc':
            f = math.trunc
        elif n == 1:
            f = spec.UNOPS[name]
        elif form == 'inplace':
            f = spec.IOPS[name]
        elif form == 'reflected' and mask[1] and not isinstance(
                objs[0], numpy.generic):
            f = lambda x, y: getattr(y, '__r%s__' % name)(x)
        else:
            f = spec.BINOPS[name]
    else:
        f = getattr(umath, name)
    return attempt(f, *objs), variables, floats


def judge(ctx, name, key, res, variables, floats, mask):
    try:
        refs = refmath.partials(name, floats)
    except (ZeroDivisionError, OverflowError, ValueError):
        return
    if refs is None:
        return
    if isinstance(res, Raised):
        # Nominal overflow, etc.: C01
        ctx.count('not_evaluable')
        return
    if not isinstance(res, UFloat):
        ctx.fail('%s: not a number with uncertainty' % name, result=res)
    n = res.nominal_value
    if math.isinf(n) or math.isnan(n):
        return
    if n != 0 and not 1e-285 < abs(n) < 1e285:
        return
    if any(f != 0 and not 1e-150 < abs(f) < 1e150 for f in floats) and \
            name in ('pow', 'fmod', 'mod', 'log', 'gamma', 'lgamma'):
        ctx.count('extreme_skipped')
        return
    # Expected derivative with respect to each variable:
    expected = {}
    for i, (p, vs) in enumerate(zip(refs, variables)):
        if vs is None:
            continue
        var, scale = vs
        if p is None:
            expected[id(var)] = None  # Not differentiable
            continue
        ref, slack = p
        if ref != 0 and not LO < abs(ref) < HI:
            expected[id(var)] = None
            continue
        tol = tolerance(name, i, floats, ref, slack)
        if tol is None:
            expected[id(var)] = None
            continue
        if expected.get(id(var), 0) is None:
            continue
        (r, t) = expected.get(id(var), (mpf(0), mpf(0)))
        expected[id(var)] = (r + ref*scale, t + tol*abs(scale))
    derivs = res.derivatives
    names_of = {id(vs[0]): vs[0] for vs in variables if vs}
    ctx.check(set(derivs) <= set(names_of.values()),
              '%s: dependence on an unrelated variable' % name, derivs=derivs)
    compared = False
    for vid, exp in expected.items():
        if exp is None:
            ctx.count('not_differentiable_or_extreme')
            continue
        var = names_of[vid]
        ctx.check(var in derivs, '%s: the dependence on a variable is missing'
                  % name, derivatives=derivs)
        d = derivs[var]
        ref, tol = exp
        compared = True
        ctx.count('derivatives_compared')
        ctx.check(isinstance(d, float) and not math.isnan(d) and not math.isinf(d)
                  and abs(mpf(d) - ref) <= tol,
                  '%s: wrong partial derivative' % name, recorded=d,
                  reference=mpmath.nstr(ref, 20), args=floats,
                  uncertain=mask, tolerance=mpmath.nstr(tol, 3))
    if compared:
        ctx.distinct(key, tuple(mask), tuple(floats))
        # Uncertainty consistent with the derivatives of the variables:
        total = 0
        for var, d in derivs.items():
            if var.std_dev:
                total = math.hypot(total, d*var.std_dev)
        ctx.check(gen.close(float(res.std_dev), total, 1e-9, 1e-300),
                  '%s: std_dev' % name, std_dev=res.std_dev, expected=total)


def choose_mask(rng, n):
    mask = [rng.random() < .6 for _ in range(n)]
    if not any(mask):
        mask[rng.randrange(n)] = True
    return mask


def operators(ctx):
    rng = ctx.rng
    for _ in range(12):
        if rng.random() < .12:
            name, n = rng.choice(OPS1), 1
        else:
            name, n = rng.choice(list(spec.BINOPS)), 2
        vals = points(rng, name, n)
        mask = choose_mask(rng, n)
        form = rng.choice(['infix', 'infix', 'inplace', 'reflected'])
        same = rng.random() < .08 and all(mask)
        for again in range(1 + (0 in vals)):
            res, variables, floats = run(ctx, name, True, n, form, vals, mask, same)
            ctx.count('evaluations')
            ctx.count('op_' + name)
            judge(ctx, name, name, res, variables, floats, mask)
            # The same point, except for the sign of its zeros:
            vals = [-v if v == 0 else v for v in vals]


def functions(ctx):
    rng = ctx.rng
    for _ in range(12):
        if rng.random() < .6:
            name, n = rng.choice(spec.FUNCS1), 1
        else:
            name, n = rng.choice(spec.FUNCS2), 2
            if name == 'hypot':
                n = rng.choice([1, 2, 2, 3, 4, 6])
        vals = points(rng, name, n)
        mask = choose_mask(rng, n)
        same = rng.random() < .08 and all(mask)
        signs = [i for i in range(n) if vals[i] == 0]
        if not signs and rng.random() < .03:
            signs = [rng.randrange(n)]
            vals[signs[0]] = 0.
        for again in range(1 + bool(signs)):
            res, variables, floats = run(ctx, name, False, n, 'call', vals, mask, same)
            ctx.count('evaluations')
            ctx.count('func_' + name)
            judge(ctx, name, 'f_' + name, res, variables, floats, mask)
            # The same point, except for the sign of its zeros:
            vals = [-v if v == 0 else v for v in vals]


def tuples(ctx):
    "modf, frexp, ldexp, fsum."
    rng = ctx.rng
    for _ in range(12):
        name = rng.choice(['modf', 'frexp', 'ldexp', 'fsum'])
        val = gen.finite_float(rng) if rng.random() < .5 else gen.moderate(rng)
        if not 1e-280 < abs(val) < 1e280 and val != 0:
            continue
        o, var, scale = uncertain(rng, val)
        ctx.count('evaluations')
        ctx.log(name, repr(o))
        if name == 'modf':
            if val == math.floor(val):
                continue
            res, exp = umath.modf(o)[0], 1.
        elif name == 'frexp':
            res, e = umath.frexp(o)
            if math.frexp(val)[0] in (.5, -.5):
                continue
            exp = math.ldexp(1., -math.frexp(val)[1])
        elif name == 'ldexp':
            i = rng.randint(-60, 60)
            res, exp = umath.ldexp(o, i), math.ldexp(1., i)
        else:
            n = rng.randint(1, 7) if rng.random() < .98 else rng.randint(20, 300)
            seq, exp_by_var = [], {}
            for _ in range(n):
                if rng.random() < .3:
                    seq.append(plain(rng, gen.moderate(rng)))
                    continue
                if seq and rng.random() < .2 and exp_by_var:
                    u, v, s = o, var, scale
                else:
                    u, v, s = uncertain(rng, gen.moderate(rng))
                seq.append(u)
                exp_by_var[v] = exp_by_var.get(v, 0.) + s
            if not exp_by_var:
                continue
            res = umath.fsum(seq)
            ctx.check(set(res.derivatives) == set(exp_by_var), 'fsum: variables')
            for v, s in exp_by_var.items():
                ctx.count('derivatives_compared')
                ctx.check(gen.close(res.derivatives[v], s), 'fsum: derivative',
                          recorded=res.derivatives[v], expected=s)
            ctx.distinct('fsum', n, len(exp_by_var), val)
            continue
        ctx.count('derivatives_compared')
        d = res.derivatives
        ctx.check(list(d) == [var], name + ': variables', derivatives=d)
        ctx.check(gen.close(d[var], exp*scale, 1e-12), name + ': derivative',
                  recorded=d[var], expected=exp*scale, arg=val)
        ctx.check(gen.close(res.std_dev, abs(exp*scale)*var.std_dev, 1e-9),
                  name + ': std_dev')
        ctx.distinct(name, val, scale)


WORKLOADS = [
    ('operators', operators, 24000, 700000),
    ('functions', functions, 24000, 700000),
    ('tuples', tuples, 3000, 60000),
]
MIN = {'derivatives_compared': 60000}
