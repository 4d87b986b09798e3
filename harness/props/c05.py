"""C05: uncertainties, error budgets, covariances and correlations agree."""
import math
from fractions import Fraction
import numpy
import mpmath
import uncertainties
from uncertainties import ufloat, UFloat, covariance_matrix, correlation_matrix
import uncertainties.core as core
from .. import gen, spec, shadow

PROPERTY = 'C05'
LEVEL = 'exploration'
TECHNIQUE = ('recomputation of every observed uncertainty, error budget, '
             'covariance and correlation in exact rational arithmetic')
NOTE = ('Recomputed from the observed derivatives and standard deviations, over '
        'the whole float range; matrices checked for symmetry, diagonal, '
        'positive semi-definiteness and order invariance.')
RULE = ('distinct = sets of results (derivatives, standard deviations) sharing '
        'at least one variable with a non-zero uncertainty')
ASSUMPTIONS = ['Covariances are compared where every term of their sum is in '
               'the normal float range.']
EPS = 2.**-52
LOW, HIGH = Fraction(10)**-300, Fraction(10)**300


def isqrt(q):
    "Square root of a Fraction, to 30 digits (mpf)."
    with mpmath.workprec(120):
        return mpmath.sqrt(mpmath.mpf(q.numerator)/q.denominator)


def scale_value(rng, extreme):
    if extreme:
        return 10**rng.uniform(-300, 300)
    return 10**rng.uniform(-5, 5)


def results(ctx):
    "A list of results (with their variables) and whether they are ordinary."
    rng = ctx.rng
    k = rng.random()
    if k < .45:
        p = shadow.Program(ctx, rng.randint(1, 6), zero=.2)
        p.grow(rng.choice([2, 5, 12, 25]))
        objs = list(p.objs)
        rng.shuffle(objs)
        return objs[:rng.choice([1, 2, 3, 5, 8])], p.vars
    # Linear combinations with arbitrary coefficients
    extreme = k > .65
    nv = rng.choice([1, 2, 3, 5, 9, 30])
    sc = scale_value(rng, extreme)
    vs = []
    for i in range(nv):
        s = 0. if rng.random() < .15 else \
            sc*(10**rng.uniform(-3, 3)) if rng.random() < .8 else scale_value(rng, extreme)
        s = min(s, 1e307)
        vs.append(ufloat(rng.uniform(-1, 1), s))
    if extreme and rng.random() < .4:
        # Squares that overflow or underflow:
        for v in vs:
            v.std_dev = rng.choice([1e-162, 3e-170, 5e-324, 2e155, 1e200, 1e307,
                                    1e-140, 1e-141, 1e154, 4e-308]) \
                if rng.random() < .5 else v.std_dev
    out = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        r = 0.
        csc = scale_value(rng, extreme and rng.random() < .4)
        for v in rng.sample(vs, rng.randint(1, nv)):
            c = rng.choice([1, -1, 2, rng.uniform(-1, 1), csc, -csc])
            t = rng.choice([lambda: v*c, lambda: c*v])()
            r = rng.choice([lambda: r + t, lambda: t + r, lambda: t - r])()
        out.append(r)
    return out + rng.sample(vs, rng.randint(0, min(2, nv))), vs


def recompute(ctx, objs):
    """Returns (exact variance, exact std_dev...) of each result."""
    out = []
    for o in objs:
        d = o.derivatives
        e = o.error_components()
        ctx.check(set(map(id, e)) == set(map(id, d)),
                  'error budget on other variables than the derivatives')
        tot = Fraction(0)
        finite = True
        for v, x in d.items():
            ctx.check(type(x) is float or isinstance(x, numpy.floating),
                      'derivative is not a float', derivative=x)
            s = v.std_dev
            c = e[v]
            ctx.count('components')
            if s == 0:
                ctx.check(c == 0, 'component of an exact variable', got=c)
                continue
            exp = abs(float(x)*float(s))
            if math.isinf(exp) or math.isnan(exp):
                finite = False
                ctx.check(gen.same_float(float(c), exp), 'component', got=c,
                          expected=exp)
                continue
            exact = abs(Fraction(x)*Fraction(s))
            ctx.check(abs(Fraction(float(c)) - exact) <=
                      exact*Fraction(4, 2**52) + Fraction(5e-324),
                      'component of the error budget', got=c, derivative=x,
                      std_dev=s)
            tot += Fraction(float(c))**2
        got = float(o.std_dev)
        if not finite:
            if any(math.isnan(float(c)) for c in e.values()):
                ctx.check(math.isnan(got), 'uncertainty with a NaN component',
                          got=got)
            else:
                ctx.check(got == math.inf, 'uncertainty with an infinite '
                          'component', got=got)
            out.append(None)
            continue
        ref = isqrt(tot)
        n = len(d)
        if ref > 1.79e308:
            out.append(None)
            continue
        ctx.check(abs(mpmath.mpf(got) - ref) <= ref*(n + 6)*EPS + 2e-323*(n + 1),
                  'standard deviation is not the root of the sum of squared '
                  'components', got=got, expected=ref,
                  components=[repr(c) for c in e.values()])
        ctx.check(core.std_dev(o) == got and o.s == got, 'std_dev accessors')
        out.append(tot)
    return out


def exact_cov(a, b):
    "(exact covariance, sum of absolute terms, all terms are in range)"
    tot = mag = Fraction(0)
    ok = True
    da, db = a.derivatives, b.derivatives
    for v in da:
        if v in db and v.std_dev != 0:
            f = [float(da[v]), float(v.std_dev), float(db[v])]
            if not all(map(math.isfinite, f)):
                return None
            p = Fraction(f[0])*Fraction(f[1])
            q = Fraction(f[2])*Fraction(f[1])
            for x in (p, q, p*q):
                if x and not (LOW < abs(x) < HIGH):
                    ok = False
            tot += p*q
            mag += abs(p*q)
    return (tot, mag) if ok else None


def case(ctx):
    rng = ctx.rng
    objs, vs = results(ctx)
    objs = [o for o in objs if isinstance(o, UFloat)]
    if rng.random() < .3 and vs:
        # Updates:
        for v in rng.sample(vs, rng.randint(1, len(vs))):
            for o in objs[:1]:
                o.std_dev
            v.std_dev = rng.choice([0, 1, .25, v.std_dev, 10**rng.uniform(-9, 9)])
    ctx.log('results', *[repr(o) for o in objs[:4]])
    recompute(ctx, objs)
    ctx.count('evaluations', len(objs))
    n = len(objs)
    cov = covariance_matrix(rng.choice([list, tuple])(objs))
    ctx.check(isinstance(cov, list) and len(cov) == n and
              all(isinstance(r, list) and len(r) == n for r in cov),
              'shape of the covariance matrix', cov=cov)
    comparable = True
    shared = False
    for i in range(n):
        for j in range(n):
            c = cov[i][j]
            ctx.check(isinstance(c, float), 'covariance is not a float', got=c)
            ctx.check(gen.same_float(c + 0., cov[j][i] + 0.),
                      'covariance matrix not symmetric', i=i, j=j, a=c, b=cov[j][i])
            x = exact_cov(objs[i], objs[j])
            if x is None:
                comparable = False
                continue
            ctx.count('covariances')
            if i != j and x[1]:
                shared = True
            nt = len(objs[i].derivatives) + 8
            ctx.check(abs(Fraction(c) - x[0]) <= x[1]*nt/2**52,
                      'covariance', got=c, expected=float(x[0]), i=i, j=j,
                      std_devs=(objs[i].std_dev, objs[j].std_dev))
            if i == j and x[1]:
                s = float(objs[i].std_dev)
                ctx.check(gen.close(c, s*s, 4*nt*EPS), 'diagonal of the '
                          'covariance matrix is not the variance', got=c, s=s)
    # Reordering:
    perm = list(range(n))
    rng.shuffle(perm)
    cov2 = covariance_matrix([objs[k] for k in perm])
    for i in range(n):
        for j in range(n):
            a, b = cov2[i][j], cov[perm[i]][perm[j]]
            if comparable:
                x = exact_cov(objs[perm[i]], objs[perm[j]])
                ctx.check(abs(Fraction(a) - Fraction(b)) <=
                          x[1]*(len(objs[perm[i]].derivatives) + 8)/2**50,
                          'covariance matrix depends on the order', a=a, b=b)
    # Repeated results:
    if rng.random() < .3:
        cov3 = covariance_matrix([objs[0], objs[0]])
        flat = [x + 0. for r in cov3 for x in r]
        ctx.check(all(gen.same_float(x, flat[0]) for x in flat),
                  'covariance of a result with itself', cov=cov3)
    if not comparable:
        ctx.count('partly_out_of_range')
        return
    if shared:
        ctx.distinct(tuple(tuple(map(repr, r)) for r in cov))
    stds = [math.sqrt(cov[i][i]) for i in range(n)]
    if not all(1.1e-150 < s < 1e150 for s in stds):
        return
    m = numpy.array(cov)
    s = numpy.array(stds)
    with numpy.errstate(all='ignore'):
        corr = m/s/s[:, None]
    ev = numpy.linalg.eigvalsh(corr)
    ctx.count('psd_checks')
    nvars = max([len(o.derivatives) for o in objs])
    ctx.check(ev[0] >= -1e-14*n*(nvars + 10), 'covariance matrix not positive '
              'semi-definite', eigenvalues=ev)
    got = correlation_matrix(objs)
    ctx.check(isinstance(got, numpy.ndarray) and got.shape == (n, n) and
              got.dtype == float, 'correlation matrix type')
    ctx.check(numpy.allclose(got, corr, rtol=1e-12, atol=1e-15),
              'correlation matrix is not the normalized covariance', got=got,
              expected=corr)
    ctx.check(all(abs(got[i, i] - 1) < 1e-12 for i in range(n)),
              'diagonal of the correlation matrix', got=got)
    ctx.check(numpy.all(numpy.abs(got) <= 1 + 1e-12), 'correlation out of '
              '[-1, 1]', got=got)
    ctx.check(numpy.array_equal(got, got.T) or numpy.allclose(
        got, got.T, rtol=1e-14), 'correlation matrix not symmetric')
    # Independent numbers:
    w = ufloat(1, .3)
    c = covariance_matrix([objs[0], w])
    ctx.check(c[0][1] == 0 and c[1][1] == .3*.3, 'covariance with an independent '
              'number', cov=c)
    # The variance of a sum is the sum of the covariances:
    if n >= 2:
        a, b = objs[0], objs[1]
        v = float((a + b).std_dev)**2
        scale = (stds[0] + stds[1])**2*(nvars + 10)
        ctx.check(abs(v - (cov[0][0] + cov[1][1] + 2*cov[0][1])) <= 1e-13*scale,
                  'variance of a sum', got=v, cov=cov)


def large(ctx):
    "Many results, or many variables."
    rng = ctx.rng
    n, nv = rng.choice([(rng.randint(15, 60), rng.randint(2, 8)),
                        (rng.randint(30, 120), rng.randint(2, 4)),
                        (rng.randint(2, 4), rng.randint(50, 400))])
    vs = [ufloat(rng.uniform(-1, 1), rng.choice([0, .5, 10**rng.uniform(-3, 3)]))
          for _ in range(nv)]
    d = numpy.zeros((n, nv))
    objs = []
    for i in range(n):
        if rng.random() < .1:
            k = rng.randrange(nv)
            objs.append(vs[k])
            d[i, k] = 1
            continue
        r = rng.choice([0., 1.5])
        for k in range(nv):
            if rng.random() < .8:
                d[i, k] = rng.choice([1, -1, rng.uniform(-2, 2)])
                r = r + d[i, k]*vs[k] if rng.random() < .7 else d[i, k]*vs[k] + r
        objs.append(r if isinstance(r, UFloat) else r + 0*vs[0])
    ctx.log('large', n, nv)
    ctx.count('evaluations', n)
    s = numpy.array([float(v.std_dev) for v in vs])
    ds = d*s
    ref, mag = ds @ ds.T, numpy.abs(ds) @ numpy.abs(ds).T
    for _ in range(2):
        cov = covariance_matrix(objs)
        got = numpy.array(cov)
        ctx.check(got.shape == (n, n), 'shape of the covariance matrix', got=got.shape)
        ctx.check(numpy.array_equal(got, got.T), 'covariance matrix not symmetric', n=n)
        bad = numpy.argwhere(~(numpy.abs(got - ref) <= mag*(nv + 8)*4*EPS))
        ctx.check(not len(bad), 'covariance', n=n, nv=nv, where=bad[:3],
                  got=[got[tuple(b)] for b in bad[:3]],
                  expected=[ref[tuple(b)] for b in bad[:3]])
        sd = numpy.sqrt(numpy.diag(ref))
        for i, o in enumerate(objs):
            ctx.check(abs(float(o.std_dev) - sd[i]) <= sd[i]*(nv + 8)*4*EPS,
                      'standard deviation', got=float(o.std_dev), expected=sd[i], nv=nv)
            e = o.error_components()
            ctx.check(all(abs(e.get(v, 0) - abs(ds[i, k])) <= 8*EPS*abs(ds[i, k])
                          for k, v in enumerate(vs)), 'error budget', nv=nv)
            ctx.count('components', len(e))
        ctx.count('covariances', n*n)
        keep = numpy.flatnonzero(sd)
        if len(keep):
            got = correlation_matrix([objs[i] for i in keep])
            exp = (ref/numpy.where(sd, sd, 1)/numpy.where(sd, sd, 1)[:, None])[
                numpy.ix_(keep, keep)]
            ctx.check(numpy.allclose(got, exp, rtol=1e-12, atol=1e-13*nv),
                      'correlation matrix', n=n, nv=nv)
            ctx.count('large_correlations')
        # (Other order)
        p = list(range(n))
        rng.shuffle(p)
        objs, ds = [objs[i] for i in p], ds[p]
        ref, mag = ref[numpy.ix_(p, p)], mag[numpy.ix_(p, p)]
    ctx.distinct('large', n, nv, repr(float(objs[0].std_dev)))


def std_range(ctx):
    "Standard deviation of sums over the whole float range."
    rng = ctx.rng
    for _ in range(10):
        n = rng.choice([1, 2, 3, 10])
        top = rng.choice([rng.uniform(-323, 308), rng.uniform(-165, -135),
                          rng.uniform(150, 156), rng.uniform(-324, -300),
                          rng.uniform(300, 307.5)])
        vs = []
        for i in range(n):
            e = top - rng.choice([0, 0, 1, 5, 20])*rng.random()
            s = 10**max(e, -323.3)
            vs.append(ufloat(rng.choice([0, 1, -1e100]), s))
        # (Some exact or NaN or infinite ones)
        if rng.random() < .1:
            vs.append(ufloat(1, rng.choice([0, gen.INF, gen.NAN])))
        rng.shuffle(vs)
        r = sum(vs) if rng.random() < .7 else -sum(vs)
        ctx.count('evaluations')
        recompute(ctx, [r] + vs)
        ctx.distinct('range', tuple(repr(float(v.std_dev)) for v in vs))
        ctx.log('range', repr([float(v.std_dev) for v in vs]))


def nonfinite(ctx):
    "Infinite and NaN standard deviations and derivatives."
    rng = ctx.rng
    vs = [ufloat(gen.moderate(rng), rng.choice([0, 1., gen.INF, gen.NAN, .5]))
          for _ in range(rng.randint(1, 4))]
    r = 0
    for v in vs:
        r = r + rng.choice([1, 2, -1, .5])*v
    if rng.random() < .3:
        r = r + uncertainties.umath.sqrt(ufloat(0, rng.choice([0, 1.])))
    ctx.count('evaluations')
    ctx.log('nonfinite', repr(vs))
    recompute(ctx, [r] + vs)
    cov = covariance_matrix([r] + vs)
    for i, v in enumerate(vs):
        c = cov[0][i + 1]
        if v.std_dev == 0:
            ctx.check(c == 0, 'covariance with an exact number', cov=cov)
        elif math.isnan(v.std_dev):
            ctx.check(math.isnan(c), 'covariance with a NaN uncertainty', cov=cov)
        elif math.isinf(v.std_dev):
            ctx.check(math.isinf(c), 'covariance with an infinite uncertainty',
                      cov=cov)
        else:
            ctx.check(math.isfinite(c), 'covariance', cov=cov)
    ctx.distinct('nf', tuple(repr(float(v.std_dev)) for v in vs))


WORKLOADS = [
    ('case', case, 40000, 900000),
    ('std_range', std_range, 12000, 300000),
    ('nonfinite', nonfinite, 10000, 100000),
    ('large', large, 400, 10000),
]
MIN = {'large_correlations': 200, 'components': 100000, 'covariances': 50000, 'psd_checks': 5000}
