"""C04: composite expressions propagate correlations exactly to first order."""
import math, operator, random, functools
import numpy
from uncertainties import ufloat, UFloat, umath, covariance_matrix
from .. import gen, spec, shadow

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = ('shadow execution: forward-mode differentiation model run next to '
             'generated programs, compared at every read')
NOTE = ('Every derivative and uncertainty read in the generated programs agrees '
        'with the chain rule to 1e-8 of the sum of absolute path contributions; '
        'exact cancellations give exactly 0.')
RULE = ('distinct = generated programs (shape, operations, values) with at '
        'least 3 operations and a derivative comparison of a shared sub-expression')
ASSUMPTIONS = ['Programs stay at ordinary magnitudes and away from '
               'singularities (C02 and C03 cover the others).']


def program(ctx):
    rng = ctx.rng
    p = shadow.Program(ctx, rng.randint(1, 5))
    n = rng.choice([3, 6, 10, 15, 25, 40])
    for _ in range(n):
        i = p.step()
        if i is None:
            continue
        # Reading at random times replaces lazy forms by expanded ones:
        if rng.random() < .15:
            j = rng.randrange(len(p.objs))
            ctx.count('early_reads')
            p.check_derivatives(j, '(early read)')
        if rng.random() < .05:
            p.new_variable()
    stds = [v.std_dev for v in p.vars]
    order = list(range(len(p.objs)))
    rng.shuffle(order)
    for i in order:
        ctx.count('evaluations')
        p.check_nominal(i)
        if rng.random() < .5:
            p.check_std(i, stds)
            p.check_derivatives(i)
        else:
            p.check_derivatives(i)
            p.check_std(i, stds)
    if p.steps >= 3:
        ctx.distinct('program', tuple(s.n for s in p.shadows))


def shapes(ctx):
    "Long chains, deep and wide trees, DAGs with an exponential number of paths."
    rng = ctx.rng
    kind = rng.choice(['chain', 'inplace', 'tree', 'fibonacci', 'doubling',
                       'diamonds', 'accumulate', 'horner', 'grid', 'product'])
    n = rng.choice([5, 20, 60, 200])
    nv = rng.randint(1, 5)
    if kind in ('chain', 'inplace', 'tree', 'accumulate') and rng.random() < .3:
        # Many quantities
        nv = rng.choice([20, 70, 150, 300])
        n = rng.choice([nv//2, nv, 2*nv])
    vs = [ufloat(rng.uniform(.5, 2), gen.finite_std(rng)) for _ in range(nv)]
    S = [shadow.S(v.n, {i: 1.}, {i: 1.}) for i, v in enumerate(vs)]
    lin = shadow.linear
    objs, shs = list(vs), list(S)

    def add(a, b, sign=1):
        (x, sx), (y, sy) = a, b
        if sign == 1:
            return x + y, lin(sx.n + sy.n, [(1, sx), (1, sy)])
        return x - y, lin(sx.n - sy.n, [(1, sx), (-1, sy)])

    def mul(a, b):
        (x, sx), (y, sy) = a, b
        return x*y, lin(sx.n*sy.n, [(sy.n, sx), (sx.n, sy)])
    var = lambda: (lambda i: (vs[i], S[i]))(rng.randrange(nv))
    cur = var()
    marks = []
    if kind in ('chain', 'inplace', 'accumulate'):
        for _ in range(n):
            if kind == 'inplace':
                x, sx = cur
                y, sy = var()
                x += y
                cur = (x, lin(sx.n + sy.n, [(1, sx), (1, sy)]))
            else:
                cur = add(cur, var(), rng.choice([1, -1]))
            marks.append(cur)
    elif kind == 'tree':
        level = [var() for _ in range(n)]
        while len(level) > 1:
            nxt = []
            for i in range(0, len(level) - 1, 2):
                nxt.append(add(level[i], level[i+1], rng.choice([1, -1])))
            if len(level) % 2:
                nxt.append(level[-1])
            level = nxt
            marks.append(level[0])
        cur = level[0]
    elif kind == 'fibonacci':
        a, b = var(), var()
        for _ in range(min(n, 60)):
            a, b = b, add(a, b)
            marks.append(b)
        cur = b
    elif kind == 'doubling':
        for _ in range(min(n, 40)):
            cur = add(cur, cur)
            marks.append(cur)
    elif kind == 'diamonds':
        for _ in range(min(n, 60)):
            left, right = add(cur, var()), add(cur, var(), -1)
            cur = (left[0] + right[0],
                   lin(left[1].n + right[1].n, [(1, left[1]), (1, right[1])]))
            x, s = cur
            cur = (x*.5, lin(s.n*.5, [(.5, s)]))
            marks.append(cur)
    elif kind == 'horner':
        x = var()
        cur = (x[0]*0 + 1, lin(1., [(0., x[1])]))
        for _ in range(min(n, 30)):
            y, s = mul(cur, x)
            cur = (y*.4 + 1, lin(s.n*.4 + 1, [(.4, s)]))
            marks.append(cur)
    elif kind == 'grid':
        m = min(n, 12)
        row = [var() for _ in range(m)]
        for _ in range(m):
            for j in range(1, m):
                x, s = add(row[j-1], row[j])
                row[j] = (x*.5, lin(s.n*.5, [(.5, s)]))
            marks.append(row[-1])
        cur = row[-1]
    else:
        for _ in range(min(n, 40)):
            cur = mul(cur, var())
            if not 1e-6 < abs(cur[1].n) < 1e6:
                cur = (cur[0]/cur[1].n, lin(1., [(1/cur[1].n, cur[1])]))
            marks.append(cur)
    ctx.log(kind, n, nv)
    if rng.random() < .5:
        # The result goes on being used with its own terms (after a reading or not)
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(6)
            other = rng.choice([var(), rng.choice(marks), cur])
            if k == 0:
                cur[0].std_dev
            elif k == 1:
                cur = add(*rng.choice([(cur, other), (other, cur)]))
            elif k == 2:
                cur = add(cur, other, -1)
            elif k == 3:
                cur = (cur[0]*.5, lin(cur[1].n*.5, [(.5, cur[1])]))
            elif k == 4:
                cur = (-cur[0], lin(-cur[1].n, [(-1, cur[1])]))
            elif abs(cur[1].n) < 1e6:
                cur = mul(cur, other)
            marks.append(cur)
    p = shadow.Program(ctx, 0)
    p.vars = vs
    rng.shuffle(marks)
    for (o, s) in marks[:rng.choice([0, 0, 2, 6])] + [cur] + marks[:3]:
        p.objs.append(o)
        p.shadows.append(s)
        ctx.count('evaluations')
        p.check_derivatives(len(p.objs) - 1, '(%s)' % kind)
        p.check_std(len(p.objs) - 1, [v.std_dev for v in vs], '(%s)' % kind)
    ctx.distinct(kind, n, tuple(v.n for v in vs))


def cancellation(ctx):
    "Integer linear combinations in any order and nesting: exact results."
    rng = ctx.rng
    nv = rng.randint(1, 5)
    vs = [ufloat(float(rng.randint(-50, 50)), rng.choice([0, .5, 1, 3, .1]))
          for _ in range(nv)]
    # Terms: coefficients in Z, computed through random nested expressions.
    terms = [(v, {i: 1}) for i, v in enumerate(vs)]
    pool = list(terms)
    for _ in range(rng.randint(2, 30)):
        (x, cx), (y, cy) = rng.choice(pool), rng.choice(pool)
        k = rng.randrange(5)
        if k == 0:
            r, c = x + y, {i: cx.get(i, 0) + cy.get(i, 0) for i in {**cx, **cy}}
        elif k == 1:
            r, c = x - y, {i: cx.get(i, 0) - cy.get(i, 0) for i in {**cx, **cy}}
        elif k == 2:
            r, c = -x, {i: -a for i, a in cx.items()}
        elif k == 3:
            m = rng.choice([2, -1, 3, 0])
            r, c = rng.choice([lambda: m*x, lambda: x*m])(), \
                {i: m*a for i, a in cx.items()}
        else:
            r, c = x + rng.randint(-3, 3), cx
        if any(abs(a) > 2**40 for a in c.values()):
            continue
        pool.append((r, c))
        if rng.random() < .2:
            rng.choice(pool)[0].std_dev
    order = list(pool)
    rng.shuffle(order)
    for r, c in order:
        d = r.derivatives
        ctx.count('evaluations')
        for i, v in enumerate(vs):
            ctx.check(d.get(v, 0.) == c.get(i, 0),
                      'linear combination: coefficient', got=d.get(v),
                      expected=c.get(i, 0))
        if all(a == 0 or not vs[i].std_dev for i, a in c.items()):
            ctx.count('exact_cancellations')
            ctx.check(r.std_dev == 0, 'cancelled expression is uncertain',
                      std_dev=r.std_dev)
        # ... and subtracting the same combination, computed differently:
        recomputed = sum((a*vs[i] for i, a in sorted(
            c.items(), key=lambda _: rng.random())), 0)
        if isinstance(recomputed, UFloat):
            z = r - recomputed
            ctx.check(z.std_dev == 0, 'difference of identical computations is '
                      'uncertain', std_dev=z.std_dev)
    ctx.distinct('cancel', tuple(sorted((i, a) for _, c in pool
                                        for i, a in c.items())))


IDENTITIES = [
    ('x/x', lambda x, y, z: x/x, lambda x, y, z: x*0 + 1),
    ('x-x', lambda x, y, z: x - x, lambda x, y, z: x*0),
    ('square', lambda x, y, z: x**2, lambda x, y, z: x*x),
    ('cube', lambda x, y, z: x**3, lambda x, y, z: x*x*x),
    ('diff squares', lambda x, y, z: (x + y)*(x - y), lambda x, y, z: x*x - y*y),
    ('distributive', lambda x, y, z: x*(y + z), lambda x, y, z: x*y + x*z),
    ('assoc', lambda x, y, z: (x + y) + z, lambda x, y, z: x + (y + z)),
    ('assoc mul', lambda x, y, z: (x*y)*z, lambda x, y, z: x*(y*z)),
    ('log exp', lambda x, y, z: umath.log(umath.exp(x)), lambda x, y, z: x),
    ('pythagoras', lambda x, y, z: umath.sin(x)**2 + umath.cos(x)**2,
     lambda x, y, z: 1 + 0*x),
    ('sqrt', lambda x, y, z: umath.sqrt(x*x), lambda x, y, z: abs(x)),
    ('hypot', lambda x, y, z: umath.hypot(x, y)**2, lambda x, y, z: x*x + y*y),
    ('mod', lambda x, y, z: (x % y) + y*(x//y).n, lambda x, y, z: x),
    ('tan', lambda x, y, z: umath.tan(x), lambda x, y, z: umath.sin(x)/umath.cos(x)),
    ('pow', lambda x, y, z: abs(x)**y, lambda x, y, z: umath.exp(y*umath.log(abs(x)))),
    ('pow2', lambda x, y, z: umath.pow(abs(x), y), lambda x, y, z: abs(x)**y),
    ('division', lambda x, y, z: x/y, lambda x, y, z: x*y**-1),
    ('sinh', lambda x, y, z: umath.sinh(x),
     lambda x, y, z: (umath.exp(x) - umath.exp(-x))/2),
    ('atan2', lambda x, y, z: umath.atan2(x, abs(y)), lambda x, y, z: umath.atan(x/abs(y))),
    ('log base', lambda x, y, z: umath.log(abs(x), abs(y) + 2),
     lambda x, y, z: umath.log(abs(x))/umath.log(abs(y) + 2)),
    ('degrees', lambda x, y, z: umath.radians(umath.degrees(x)), lambda x, y, z: x),
    ('expm1', lambda x, y, z: umath.log1p(umath.expm1(x)), lambda x, y, z: x),
    ('erf', lambda x, y, z: umath.erf(x) + umath.erfc(x), lambda x, y, z: 1 + 0*x),
    ('copysign', lambda x, y, z: umath.copysign(x, x), lambda x, y, z: x),
    ('modf', lambda x, y, z: sum(umath.modf(x)), lambda x, y, z: x),
    ('frexp', lambda x, y, z: umath.ldexp(*umath.frexp(x)), lambda x, y, z: x),
    ('mean', lambda x, y, z: numpy.mean(numpy.array([x, y, z], dtype=object)),
     lambda x, y, z: (x + y + z)/3),
    ('floor', lambda x, y, z: x - x//1, lambda x, y, z: x % 1),
]


def identities(ctx):
    """Algebraically identical computations: the difference has no uncertainty,
    for independent and for dependent operands."""
    rng = ctx.rng
    name, f, g = rng.choice(IDENTITIES)
    a = [ufloat(rng.choice([-1, 1])*rng.uniform(.3, 3), gen.finite_std(rng))
         for _ in range(3)]
    k = rng.random()
    if k < .3:
        a = [a[0], a[0] + a[1], a[1] - 2*a[2]]
    elif k < .5:
        a = [a[0], a[0]*1.5, a[0] + 1]
    if any(abs(x.n) < .2 or abs(x.n - round(x.n)) < 1e-3 for x in a):
        return
    q = a[0].n/a[1].n
    if abs(q - round(q)) < 1e-3:
        return
    ctx.log(name, *[repr(x) for x in a])
    l, r = f(*a), g(*a)
    if rng.random() < .5:
        l.std_dev, r.std_dev
    diff = l - r
    scale = sum(abs(x) for o in (l, r) for x in o.derivatives.values()) + \
        sum(x.std_dev for x in a)
    ctx.count('evaluations')
    ctx.check(gen.close(l.n, r.n, 1e-9, 1e-9), 'identity %s: value' % name)
    ctx.check(abs(diff.std_dev) <= 1e-7*(scale + 1)*(1 + max(x.std_dev for x in a)),
              'identity %s: spurious uncertainty' % name, std_dev=diff.std_dev,
              operands=[repr(x) for x in a])
    if name in ('x-x', 'x/x'):
        ctx.check(diff.std_dev == 0 and l.std_dev == 0, 'identity %s' % name,
                  std_dev=l.std_dev)
    ctx.check(gen.close(float(l.std_dev), float(r.std_dev), 1e-7, 1e-7*scale),
              'identity %s: different uncertainties' % name, left=l, right=r)
    ctx.distinct('identity', name, k < .3, k < .5, a[0].n)


WORKLOADS = [
    ('program', program, 40000, 1000000),
    ('shapes', shapes, 20000, 400000),
    ('cancellation', cancellation, 20000, 500000),
    ('identities', identities, 50000, 1200000),
]
MIN = {'derivatives_compared': 50000, 'exact_cancellations': 2000}
