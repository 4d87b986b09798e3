"""C19: correlated quantities."""
import copy, fractions, math
import numpy
from uncertainties import (ufloat, UFloat, correlated_values, correlated_values_norm,
                           covariance_matrix, correlation_matrix, umath)
import uncertainties.core as core
from .. import gen
from ..spec import attempt, Raised

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: covariances of the created numbers, and of functions of '
             'them, compared with the requested matrix; snapshots of the inputs')
NOTE = ('Generated covariance and correlation matrices (sizes up to 100, full rank, singular, perfect '
        'correlations, zero variances, scales over 200 decades), all array-like forms.')
RULE = 'distinct = (size, rank, kind of matrix, form of the inputs, tags)'
ASSUMPTIONS = [
    'Tolerance of 1e-14 times the size times 4 relative to the product of the standard '
    'deviations.',
    'Covariances are representable as normal floats.']


def signs(rng, n):
    return numpy.array([rng.choice([-1, 1]) for _ in range(n)])


def correlation(rng, n):
    "(correlation matrix, kind): valid up to rounding."
    k = rng.random()
    if k < .1:
        return numpy.eye(n), 'identity'
    if k < .2:
        s = signs(rng, n)
        return numpy.outer(s, s).astype(float), 'perfect'
    if k < .3:
        # Blocks of perfectly correlated values
        g = [rng.randrange(max(1, n//2)) for _ in range(n)]
        s = signs(rng, n)
        return numpy.array([[float(g[i] == g[j])*s[i]*s[j] for j in range(n)]
                            for i in range(n)]), 'blocks'
    if k < .4:
        r = rng.choice([.5, .9, .999, 1 - 1e-9, 1 - 1e-15, 1e-3, 1e-12, rng.random()])
        return numpy.full((n, n), r) + numpy.eye(n)*(1 - r), 'uniform'
    if k < .5:
        r = rng.uniform(-1, 1)
        return numpy.array([[r**abs(i - j) for j in range(n)] for i in range(n)]), 'powers'
    rank = rng.choice([n, n, n, max(1, n - 1), max(1, n//2), 1, n + 3])
    a = numpy.array([[rng.gauss(0, 1)*(rng.random() < .8) for _ in range(rank)]
                     for _ in range(n)])
    a[:, 0] += 1e-3*signs(rng, n)
    if rng.random() < .2:
        a[:, -1] *= 1e-7
        a[0, 0] = 1
    m = a @ a.T
    d = numpy.sqrt(numpy.diag(m))
    m = m/d/d[:, None]
    return (m + m.T)/2, 'rank %s' % ('full' if rank >= n else 'low' if rank > 1 else 1)


def scales(rng, n):
    k = rng.random()
    if k < .3:
        s = [1.]*n if rng.random() < .3 else [rng.uniform(.1, 10) for _ in range(n)]
        return numpy.array(s), 'similar'
    if k < .6:
        return numpy.array([10.**rng.uniform(-6, 6) for _ in range(n)]), 'mixed'
    if k < .9:
        e = rng.choice([20, 50, 100, 145])
        return numpy.array([10.**rng.uniform(-e, e) for _ in range(n)]), 'wide'
    return numpy.array([2.**rng.randint(-10, 10) for _ in range(n)]), 'powers of 2'


def form(rng, m, kinds=None):
    """The same matrix as another array-like: (object, exact float matrix, name)."""
    m = numpy.array(m)
    k = rng.choice(kinds or ['list', 'tuple', 'C', 'F', 'view', 'read-only', 'transposed',
                             'matrix', 'float32', 'object', 'Fraction', 'mixed',
                             'longdouble', 'list of arrays', 'reversed', 'numpy scalars'])
    if k == 'list':
        o = m.tolist()
    elif k == 'tuple':
        o = tuple(map(tuple, m.tolist()))
    elif k == 'F':
        o = numpy.asfortranarray(m)
    elif k == 'view':
        big = numpy.full((2*m.shape[0] + 1, 3*m.shape[1] + 2), 7.)
        big[1::2, 2::3] = m
        o = big[1::2, 2::3]
    elif k == 'read-only':
        o = m.copy()
        o.flags.writeable = False
    elif k == 'transposed':
        o = m.T.copy().T
    elif k == 'reversed':
        o = m[::-1, ::-1].copy()[::-1, ::-1]
    elif k == 'matrix':
        o = numpy.matrix(m)
    elif k == 'float32':
        with numpy.errstate(all='ignore'):
            o = m.astype('f4')
    elif k == 'object':
        o = m.astype(object)
    elif k == 'Fraction':
        o = [[fractions.Fraction(x) for x in r] for r in m.tolist()]
    elif k == 'mixed':
        o = [numpy.array(r) if rng.random() < .5 else [int(x) if x == int(x) and abs(x) < 2**50
                                                       else x for x in r] for r in m.tolist()]
    elif k == 'longdouble':
        o = m.astype(numpy.longdouble)
    elif k == 'list of arrays':
        o = list(m)
    elif k == 'numpy scalars':
        o = [[numpy.float64(x) for x in r] for r in m]
    elif k in ('bool', 'int8', 'uint8', 'int64', 'float16'):
        o = m.astype(k)
    else:
        o = m.copy()
    return o, numpy.array([[float(x) for x in r] for r in numpy.asarray(o)]).reshape(m.shape), k


def snapshot(o):
    return repr(o) if not isinstance(o, numpy.ndarray) else \
        (type(o).__name__, o.dtype.str, o.shape, o.strides, o.tobytes(), o.flags.writeable)


def nominal(rng, n):
    k = rng.random()
    v = [rng.choice([0., 1., -2., rng.uniform(-10, 10), rng.choice([1, -1]) *
                     10**rng.uniform(-30, 30), 1e300, 5e-324]) for _ in range(n)]
    if k < .05:
        v[rng.randrange(n)] = rng.choice([gen.NAN, gen.INF, -gen.INF])
    k = rng.randrange(6)
    if k == 0:
        o = tuple(v)
    elif k == 1:
        o = numpy.array(v)
    elif k == 2:
        o = [int(x) if math.isfinite(x) and abs(x) < 2**52 else x for x in v]
    elif k == 3:
        o = numpy.array([rng.randint(-9, 9) for _ in v])
    elif k == 4:
        o = [fractions.Fraction(x) if math.isfinite(x) else x for x in v]
    else:
        o = list(v)
    return o, [float(x) for x in o]


def tags(rng, n):
    k = rng.random()
    if k < .4:
        return None, [None]*n
    t = [rng.choice(['a', 'b', u'\xb5', None, '', 3, 'long tag']) for _ in range(n)]
    if k < .5 and n < 5:
        return 'abcde'[:n], list('abcde'[:n])
    return rng.choice([list, tuple])(t), t


def same(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b) or \
        (math.isnan(a) and math.isnan(b))


def tolerance(cov):
    """Rounding, and closest valid matrix (negative eigenvalues because of the
    rounding of the elements)."""
    n = len(cov)
    sd = numpy.sqrt(numpy.diag(cov))
    sd = numpy.where(sd == 0, 1, sd)
    low = numpy.linalg.eigvalsh(cov/sd/sd[:, None])[0]
    return 4e-14*max(n, 4) + 2*n*max(0, -low)*(low < -1e-13)


def judge(ctx, xs, noms, cov, given_tags, **info):
    n = len(noms)
    ctx.check(not isinstance(xs, Raised), 'creation raised', got=xs, **info)
    ctx.check(isinstance(xs, (tuple, list)) and len(xs) == n and
              all(isinstance(x, UFloat) for x in xs), 'result', got=xs, **info)
    for x, v in zip(xs, noms):
        ctx.check(type(x.nominal_value) is float and same(x.nominal_value, v),
                  'nominal value', got=x.nominal_value, expected=v, **info)
    sd = numpy.sqrt(numpy.diag(cov))
    tol = tolerance(cov)
    got = covariance_matrix(xs)
    worst = 0
    for i in range(n):
        ctx.check(abs(float(xs[i].std_dev) - sd[i]) <= tol*sd[i], 'standard deviation',
                  got=float(xs[i].std_dev), expected=sd[i], **info)
        for j in range(n):
            unit = sd[i]*sd[j]
            # (got and cov are compared in units of standard deviations)
            d = (got[i][j] - cov[i][j])
            ok = d == 0 if unit == 0 else abs(d/sd[i]/sd[j]) <= tol
            ctx.check(ok, 'covariance', i=i, j=j, got=got[i][j], expected=cov[i][j],
                      deviations=(sd[i], sd[j]), **info)
            if unit:
                worst = max(worst, abs(d/sd[i]/sd[j]))
    # Variables
    vs = []
    for x in xs:
        for v in x.derivatives:
            if not any(v is w for w in vs):
                vs.append(v)
    ctx.check(len(vs) <= n, 'number of variables', **info)
    found = [v.tag for v in vs]
    if len(vs) == n:
        key = lambda l: sorted(map(repr, l))
        ctx.check(key(found) == key(given_tags), 'tags', got=found, expected=given_tags, **info)
    else:
        ctx.check(all(t in given_tags for t in found), 'tags', got=found, **info)
    ctx.count('matrices')
    ctx.count('covariances', n*n)
    return vs


def size(rng):
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12])


def make(ctx, n, old):
    "Creates correlated values: (values, covariances, names of the forms)."
    rng = ctx.rng
    corr, kind = correlation(rng, n)
    s, scale = scales(rng, n)
    zeros = [i for i in range(n) if rng.random() < .15] if rng.random() < .3 else []
    s[zeros] = 0
    nom_in, noms = nominal(rng, n)
    tags_in, given = tags(rng, n)
    norm = rng.random() < .5
    if norm:
        for i in zeros:
            corr[i, :] = corr[:, i] = 0
            corr[i, i] = rng.choice([1., 0., .5, 1])
        mat, corr, f = form(rng, corr)
        if f == 'float32':
            with numpy.errstate(all='ignore'):
                corr = (corr + corr.T)/2
        k = rng.randrange(5)
        pairs = (list(zip(nom_in, s)) if k < 2 else tuple(zip(noms, s.tolist())) if k == 2
                 else numpy.array(list(zip(noms, s))) if k == 3 else
                 [list(p) for p in zip(nom_in, s)])
        cov = corr*s*s[:, None]
        for i in range(n):
            cov[i, i] = s[i]**2
        inputs = pairs, mat
        func, name = correlated_values_norm, 'norm'
    else:
        cov = corr*s*s[:, None]
        kinds = None if scale != 'wide' else ['list', 'tuple', 'C', 'F', 'matrix', 'view',
                                              'object', 'Fraction']
        mat, cov, f = form(rng, cov, kinds)
        inputs = nom_in, mat
        func, name = correlated_values, 'values'
    before = [snapshot(o) for o in inputs] + [repr(tags_in)]
    k = rng.randrange(3)
    ctx.log('create', name, n, kind, scale, f, repr(noms), repr(cov.tolist()), repr(tags_in))
    if tags_in is None:
        xs = attempt(func, *inputs)
    elif k:
        xs = attempt(func, *inputs, tags=tags_in)
    else:
        xs = attempt(func, *(inputs + (tags_in,)))
    after = [snapshot(o) for o in inputs] + [repr(tags_in)]
    ctx.check(before == after, 'inputs modified', before=before, after=after)
    vs = judge(ctx, xs, noms, cov, given, kind=kind, scale=scale, form=f, func=name)
    ctx.distinct(n, kind, scale, f, name, bool(zeros), tags_in is None)
    if zeros:
        ctx.count('zero_variances')
    ctx.count('form_' + f.replace(' ', '_'))
    return xs, cov, noms, vs


def creation(ctx):
    rng = ctx.rng
    for _ in range(2):
        make(ctx, size(rng), [])


def large(ctx):
    "Many values."
    rng = ctx.rng
    n = rng.choice([rng.randint(13, 40), rng.randint(30, 100)])
    make(ctx, n, [])
    ctx.count('large')


def small_types(ctx):
    "Integers, booleans, half precision."
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    k = rng.choice(['bool', 'int8', 'uint8', 'int64', 'float16', 'list', 'matrix', 'C'])
    a = numpy.array([[rng.randint(0 if k == 'uint8' else -2, 2) for _ in range(n)]
                     for _ in range(n)])
    m = a @ a.T
    if k == 'bool':
        m = numpy.array([[i == j or (rng.random() < 0) for j in range(n)] for i in range(n)])
    mat, cov, f = form(rng, m, [k])
    nom_in, noms = nominal(rng, n)
    before = snapshot(mat)
    ctx.log('small', k, repr(m.tolist()))
    xs = attempt(correlated_values, nom_in, mat)
    ctx.check(snapshot(mat) == before, 'inputs modified')
    judge(ctx, xs, noms, cov, [None]*n, form=f)
    if k in ('bool', 'int64', 'int8'):
        pairs = [(rng.randint(-5, 5), rng.randint(1, 100)) for _ in range(n)]
        o = rng.choice([pairs, tuple(pairs), numpy.array(pairs),
                        numpy.array(pairs, dtype='i1'), numpy.matrix(pairs),
                        numpy.array(pairs, dtype='f4')])
        s = numpy.array([float(p[1]) for p in pairs])
        xs = attempt(correlated_values_norm, o, numpy.eye(n, dtype=k))
        judge(ctx, xs, [float(p[0]) for p in pairs], numpy.diag(s*s), [None]*n, form='eye')
    ctx.count('small_types')
    ctx.distinct('small', n, k)


def propagation(ctx):
    "Independence of other quantities, and functions of the correlated values."
    rng = ctx.rng
    n = rng.choice([2, 3, 4, 6])
    xs, cov, noms, vs = make(ctx, n, [])
    ys, cov2, noms2, vs2 = make(ctx, n, [])
    z = ufloat(1, .5)
    ctx.check(not any(v is w for v in vs for w in vs2 + [z]), 'shared variables')
    m = covariance_matrix(list(xs) + list(ys) + [z])
    ctx.check(all(m[i][j] == 0 and m[j][i] == 0 for i in range(n)
                  for j in range(n, 2*n + 1)) and all(m[2*n][i] == 0 for i in range(2*n)),
              'correlated with other quantities', matrix=m)
    sd = numpy.sqrt(numpy.diag(cov))
    # Linear combinations, in units of the standard deviations:
    for _ in range(3):
        a = numpy.array([rng.choice([0, 1, -1, rng.uniform(-2, 2)])/(s or 1) for s in sd])
        b = numpy.array([rng.choice([0, 1, -1, rng.uniform(-2, 2)])/(s or 1) for s in sd])
        if not all(map(math.isfinite, noms)):
            break
        f = sum((c*x for c, x in zip(a.tolist(), xs)), 0.*z)
        g = sum((c*x for c, x in zip(b.tolist(), xs)), z)
        unit = numpy.array([[cov[i][j]/((sd[i]*sd[j]) or 1) for j in range(n)]
                            for i in range(n)])
        ua, ub = a*numpy.where(sd == 0, 0, sd), b*numpy.where(sd == 0, 0, sd)
        want = [[ua @ unit @ ua, ua @ unit @ ub], [ub @ unit @ ua, ub @ unit @ ub + .25]]
        got = covariance_matrix([f, g])
        tol = 1e-13*n*n*8 + n*tolerance(cov)
        for i in range(2):
            for j in range(2):
                ctx.check(abs(got[i][j] - want[i][j]) <= tol*2, 'covariance of functions',
                          got=got, expected=want)
        ctx.count('functions')
        # Non-linear function
        i, j = rng.randrange(n), rng.randrange(n)
        if 0 < sd[i] and 0 < sd[j] and 1e-9 < abs(noms[i]/sd[i]) < 1e9 and \
                1e-9 < abs(noms[j]/sd[j]) < 1e9:
            h = (xs[i]/sd[i])*(xs[j]/sd[j])
            p, q = noms[j]/sd[j], noms[i]/sd[i]
            want = p*p + q*q + 2*p*q*unit[i][j]
            size_ = p*p + q*q
            got = float(h.std_dev)**2
            ctx.check(abs(got - want) <= (1e-12*n + 2*tolerance(cov))*size_, 'standard deviation of a product',
                      got=got, expected=want)
            ctx.count('products')
    # Round trip through the correlation matrix and back
    if (sd > 0).all() and all(map(math.isfinite, noms)):
        c = correlation_matrix(xs)
        again = correlated_values_norm([(x.n, x.s) for x in xs], c)
        judge(ctx, again, noms, cov, [None]*n, form='round trip')
        again = correlated_values(noms, covariance_matrix(xs), ['t']*n)
        judge(ctx, again, noms, cov, ['t']*n, form='round trip of covariances')
        w = covariance_matrix([xs[0], again[0]])
        ctx.check(w[0][1] == 0, 'recreated values correlated with the first ones')
        ctx.count('round_trips')


def updates(ctx):
    "The underlying variables can be changed like any variable."
    rng = ctx.rng
    n = rng.choice([2, 3, 5])
    xs, cov, noms, vs = make(ctx, n, [])
    if not vs:
        return
    v = rng.choice(vs)
    before = covariance_matrix(xs)
    s = float(v.std_dev)
    v.std_dev = 2*s
    after = covariance_matrix(xs)
    for i in range(n):
        for j in range(n):
            a, b = xs[i].derivatives[v]*s, xs[j].derivatives[v]*s
            want = before[i][j] + 3*a*b
            unit = math.sqrt(after[i][i])*math.sqrt(after[j][j])
            ctx.check(abs(after[i][j] - want) <= 1e-13*n*unit or unit == 0,
                      'covariance after a change of a variable', got=after[i][j],
                      expected=want)
    ctx.count('updates')


WORKLOADS = [
    ('creation', creation, 24000, 1500000),
    ('small_types', small_types, 9000, 360000),
    ('propagation', propagation, 7500, 480000),
    ('updates', updates, 6000, 300000),
    ('large', large, 160, 6000),
]
MIN = {'large': 100, 'matrices': 20000, 'covariances': 200000, 'zero_variances': 2000, 'functions': 4000,
       'round_trips': 1000, 'updates': 1500, 'small_types': 2000, 'form_matrix': 300,
       'products': 1000}
