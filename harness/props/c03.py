"""C03: undefined derivatives give NaN; exact operands contribute nothing."""
import math
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, covariance_matrix
from .. import gen, spec, refmath
from ..spec import attempt, Raised

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor of values, error budgets and covariances at '
             'singular points along update histories')
NOTE = ('At every executed singular point and history of standard deviation '
        'updates, NaN appears exactly when a concerned operand is uncertain, '
        'and exact operands contribute exactly 0.')
RULE = ('distinct = (singular operation and point, which operands are uncertain '
        'numbers, which have zero standard deviation, downstream operations) '
        'for a point with at least one undefined derivative')
ASSUMPTIONS = ['Kinks and steps where the package documents a conventional '
               'derivative (abs, floor, %, copysign) are not singular points.']

NAN = None  # marker: undefined derivative


def singular(rng):
    """(name, function, nominal arguments, derivatives [None: undefined])"""
    k = rng.randrange(13)
    if k == 0:
        x = rng.choice([0., -0.])
        return 'sqrt', umath.sqrt, [x], [NAN]
    if k == 1:
        x = rng.choice([1., -1.])
        n = rng.choice(['asin', 'acos'])
        return n, getattr(umath, n), [x], [NAN]
    if k == 2:
        return 'acosh', umath.acosh, [1.], [NAN]
    if k == 3:
        n = rng.randint(1, 5)
        return ('hypot', umath.hypot, [rng.choice([0., -0.]) for _ in range(n)],
                [NAN]*n)
    if k == 4:
        return 'atan2', umath.atan2, [0., rng.choice([0., -0.])], [NAN, NAN]
    if k == 5:
        x = rng.choice([171.6243744, 171.624375, 171.6243755])
        return 'gamma', umath.gamma, [x], [NAN]
    # Powers:
    name, f = rng.choice([('pow', spec.BINOPS['pow']), ('umath.pow', umath.pow),
                          ('ipow', spec.IOPS['pow']),
                          ('rpow', lambda x, y: y.__rpow__(x)
                           if isinstance(y, UFloat) else x**y)])
    if k in (6, 7):  # Fractional power of 0
        y = rng.choice([.5, .25, 1/3, rng.uniform(.01, .99), 1e-3, 1.5, 2.5,
                        rng.uniform(1.01, 1.99)])
        return name, f, [rng.choice([0., -0.]), y], [NAN, 0.]
    if k in (8, 9, 10):  # Negative base
        x = rng.choice([-1., -2., -.5, -3.7, -rng.uniform(.01, 9)])
        y = float(rng.randint(-6, 6))
        return name, f, [x, y], [y*x**(y - 1) if y else 0., NAN]
    if k == 11:  # 0**0
        return name, f, [rng.choice([0., -0.]), rng.choice([0., -0.])], [0., NAN]
    # Wrapped function with an undefined derivative:
    x, y = gen.moderate(rng), gen.moderate(rng)
    g = uncertainties.wrap(lambda x, y: 2*x + 3*y,
                           [lambda x, y: float('nan'), lambda x, y: 3.])
    return 'wrapped', g, [x, y], [NAN, 3.]


def nan_or_close(a, expected):
    if expected is None:
        return math.isnan(a)
    return gen.close(float(a), expected, 1e-9, 1e-290)


def case(ctx):
    rng = ctx.rng
    name, f, vals, derivs = singular(rng)
    n = len(vals)
    mask = [rng.random() < .75 for _ in range(n)]
    if not any(mask):
        mask[rng.randrange(n)] = True
    if name == 'rpow' and not mask[1]:
        name, f = 'pow', spec.BINOPS['pow']
    objs, variables = [], []
    for v, m in zip(vals, mask):
        if m:
            std = rng.choice([0, 0., .1, 2., 10**rng.uniform(-5, 3)])
            var = ufloat(v, std)
            variables.append(var)
            objs.append(rng.choice([var, var, var*1, +var]))
        else:
            variables.append(None)
            objs.append(rng.choice([v, v, int(v) if v == int(v) and v != 0 else v,
                                    numpy.float64(v)]))
    ctx.log(name, *[repr(o) for o in objs])
    # The plain value, without any exception:
    plain_f = {'sqrt': math.sqrt, 'asin': math.asin, 'acos': math.acos,
               'acosh': math.acosh, 'hypot': math.hypot, 'atan2': math.atan2,
               'gamma': math.gamma, 'umath.pow': math.pow,
               'wrapped': lambda x, y: 2*x + 3*y}.get(name, lambda x, y: x**y)
    expected_value = plain_f(*vals)
    res = attempt(f, *objs)
    ctx.check(not isinstance(res, Raised),
              '%s raised at a point where it has a value' % name, args=vals,
              result=res, value=expected_value)
    ctx.check(isinstance(res, UFloat) and
              gen.same_float(res.nominal_value, float(expected_value)),
              '%s: value at a singular point' % name, result=res,
              value=expected_value)
    # Downstream expression, in which the singular result enters:
    other = ufloat(gen.moderate(rng) or 1., rng.choice([.3, 2.]))
    c_res, c_other = 1., 0.
    final = res
    steps = []
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(['add_other', 'scale', 'neg', 'sub_other', 'plus'])
        steps.append(k)
        if k == 'add_other':
            final, c_other = final + other, c_other + 1.
        elif k == 'sub_other':
            final, c_other = other - final, 1. - c_other
            c_res = -c_res
        elif k == 'scale':
            final, c_res, c_other = final*2.5, c_res*2.5, c_other*2.5
        elif k == 'neg':
            final, c_res, c_other = -final, -c_res, -c_other
        else:
            final = final + 1
    ctx.log('then', repr(steps))
    undefined = any(d is NAN and v is not None
                    for d, v in zip(derivs, variables))
    # History of updates and reads:
    updates = [None] + [rng.choice(['zero', 'set', 'zero_all', 'other'])
                        for _ in range(rng.randint(0, 6))]
    for up in updates:
        live = [v for v in variables if v is not None]
        if up == 'zero':
            rng.choice(live).std_dev = rng.choice([0, 0.])
        elif up == 'zero_all':
            for v in live:
                v.std_dev = 0
        elif up == 'set':
            rng.choice(live).std_dev = 10**rng.uniform(-3, 2)
        elif up == 'other':
            other.std_dev = rng.choice([0, .5, 3.])
        ctx.log('update', str(up), repr([v.std_dev for v in live]))
        for (what, obj, cr, co) in (('result', res, 1., 0.),
                                    ('downstream', final, c_res, c_other)):
            total, nan = 0., False
            ec = obj.error_components()
            for v, d in zip(variables, derivs):
                if v is None:
                    continue
                ctx.check(v in obj.derivatives, what + ': missing dependence')
                e = ec[v]
                if v.std_dev == 0:
                    ctx.count('exact_operands')
                    ctx.check(e == 0, '%s %s: an exact operand contributes to the '
                              'error budget' % (name, what), component=e,
                              derivative=obj.derivatives[v])
                elif d is NAN:
                    ctx.count('undefined_nonzero')
                    nan = True
                    ctx.check(math.isnan(e), '%s %s: the contribution of an '
                              'undefined derivative must be NaN' % (name, what),
                              component=e, args=vals)
                else:
                    ctx.check(gen.close(float(e), abs(d*cr)*v.std_dev, 1e-6, 1e-290),
                              '%s %s: component' % (name, what), component=e,
                              expected=abs(d*cr)*v.std_dev)
                    total = math.hypot(total, abs(d*cr)*v.std_dev)
            if co and other.std_dev:
                total = math.hypot(total, co*other.std_dev)
            s = obj.std_dev
            ctx.count('evaluations')
            ctx.check(math.isnan(s) if nan else
                      gen.close(float(s), total, 1e-6, 1e-290),
                      '%s %s: uncertainty' % (name, what), std_dev=s,
                      expected='nan' if nan else total, args=vals,
                      std_devs=[v.std_dev if v is not None else None
                                for v in variables])
            ctx.check(gen.same_float(res.nominal_value, float(expected_value)),
                      'nominal value changed')
        # Covariances:
        cov = covariance_matrix([final, other] + live)
        if all(v.std_dev == 0 or d is not NAN
               for v, d in zip(variables, derivs) if v is not None):
            ctx.check(all(not math.isnan(c) for row in cov for c in row),
                      '%s: exact operand with an undefined derivative gives a '
                      'NaN covariance' % name, cov=cov)
            ctx.check(gen.close(cov[0][1], c_other*other.std_dev**2, 1e-9),
                      'covariance with another quantity', cov=cov)
        for i, v in enumerate(live):
            d = derivs[[j for j in range(n) if variables[j] is v][0]]
            if v.std_dev == 0:
                ctx.check(cov[0][2 + i] == 0 and cov[2 + i][2 + i] == 0,
                          'covariance of an exact operand', cov=cov)
            elif d is NAN:
                ctx.check(math.isnan(cov[0][2 + i]),
                          'covariance with an undefined derivative', cov=cov)
    if undefined:
        ctx.distinct(name, tuple(map(repr, vals)), tuple(mask), tuple(steps),
                     tuple(v is not None and bool(v.std_dev) for v in variables))
    # Printing works:
    ctx.check(isinstance(str(final), str) and ('nan' in repr(final)) ==
              math.isnan(final.std_dev), 'printing', result=attempt(repr, final))


def same_variable(ctx):
    "The same variable in a singular and in a regular position."
    rng = ctx.rng
    v = ufloat(0, rng.choice([0., .5]))
    forms = [lambda: umath.sqrt(v) + v, lambda: v + v**.5, lambda: v**v,
             lambda: umath.pow(v, v), lambda: umath.hypot(v, v),
             lambda: umath.atan2(v, v), lambda: umath.sqrt(v*v),
             lambda: 3*v - umath.sqrt(2*v)]
    i = rng.randrange(len(forms))
    r = forms[i]()
    ctx.log('same variable', i, repr(v))
    for s in [None, .1, 0., 2.]:
        if s is not None:
            v.std_dev = s
        ctx.count('evaluations')
        sd = r.std_dev
        ctx.check(sd == 0 if v.std_dev == 0 else math.isnan(sd),
                  'singular expression %d of one variable' % i, std_dev=sd,
                  variable=v)
        ctx.check(list(r.derivatives) == [v], 'dependence')
    ctx.distinct('same', i)


def exact(ctx):
    """Exact operands contribute exactly nothing, whatever the derivative."""
    rng = ctx.rng
    for _ in range(6):
        if rng.random() < .5:
            name = rng.choice(list(spec.BINOPS))
            f = rng.choice([spec.BINOPS, spec.IOPS])[name]
            n = 2
        else:
            name = rng.choice(spec.FUNCS1)
            f, n = getattr(umath, name), 1
            if rng.random() < .3:
                name = rng.choice(spec.FUNCS2)
                f, n = getattr(umath, name), 2
        vals = [gen.any_float(rng) if rng.random() < .6 else
                spec.in_domain(rng, name) for _ in range(n)]
        objs = [ufloat(v, 0) for v in vals]
        ctx.log(name, *[repr(o) for o in objs])
        r = attempt(f, *objs)
        if isinstance(r, Raised):
            ctx.count('raised')
            continue
        ctx.count('evaluations')
        ctx.count('exact_operands')
        ctx.check(r.std_dev == 0, '%s of exact numbers is not exact' % name,
                  std_dev=r.std_dev, derivatives=r.derivatives)
        ctx.check(all(e == 0 for e in r.error_components().values()),
                  'error budget of an exact number')
        ctx.check(covariance_matrix([r])[0][0] == 0, 'variance of an exact number',
                  cov=covariance_matrix([r]))
        # Mixed with an uncertain one:
        w = ufloat(1., .25)
        t = r + w
        ctx.check(t.std_dev == .25, 'exact term', std_dev=t.std_dev)
        ctx.check(covariance_matrix([t, w])[0][1] == .0625, 'exact term (cov)')
        # Revealed later: the derivative is what determines the uncertainty
        o = rng.choice(objs)
        o.std_dev = .5
        d = r.derivatives[o]
        s = float(r.std_dev)
        ctx.check(gen.close(s, abs(d)*.5, 1e-9, 1e-290),
                  '%s: later update of an exact operand' % name, std_dev=s,
                  derivative=d)
        p = None
        try:
            p = refmath.partials(name, vals)
        except Exception:
            pass
        if p is not None and all(x is None for x in p) and name in (
                'sqrt', 'asin', 'acos', 'acosh', 'hypot'):
            ctx.check(math.isnan(s), '%s: undefined derivative' % name)
        ctx.distinct('exact', name, tuple(map(repr, vals)))


WORKLOADS = [
    ('singular', case, 100000, 3000000),
    ('same_variable', same_variable, 800, 4000),
    ('exact', exact, 20000, 600000),
]
MIN = {'undefined_nonzero': 20000, 'exact_operands': 20000}
