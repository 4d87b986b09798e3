"""C06: updates of standard deviations are validated and seen by dependents."""
import math, copy, pickle, warnings
from fractions import Fraction
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, covariance_matrix, unumpy
import uncertainties.core as core
from .. import gen, spec, shadow, obs
from ..spec import attempt, Raised

PROPERTY = 'C06'
LEVEL = 'exploration'
TECHNIQUE = ('history monitor: every read of every number along random histories '
             'of creations, computations, updates and refused updates is compared '
             'to a shadow model of the current standard deviations')
NOTE = ('Histories of up to 120 steps; all dependents and non-dependents are '
        'observed after each update.')
RULE = ('distinct = histories with at least one accepted update of a quantity on '
        'which an already evaluated result depends')
ASSUMPTIONS = ['Computed quantities stay at ordinary magnitudes.']


class Sub(core.Variable):
    "User subclass (with a __dict__)."


class SlotSub(core.Variable):
    __slots__ = ('extra',)


GOOD = [0, 0., -0., 1, 3, .5, 2.25, True, 1e-9, 1e6]


def good_value(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(GOOD)
    if k < .4:
        return rng.choice([numpy.float64(.75), numpy.float32(.5), numpy.int64(2),
                           numpy.float64(0), Fraction(1, 4), numpy.float16(1.5),
                           numpy.uint8(3)])
    return 10**rng.uniform(-4, 3)


def bad_value(rng):
    "(value, exception types)"
    return rng.choice([
        (-1, core.NegativeStdDev), (-1e-300, core.NegativeStdDev),
        (-5e-324, core.NegativeStdDev), (-gen.INF, core.NegativeStdDev),
        (numpy.float64(-2), core.NegativeStdDev), (Fraction(-1, 3), core.NegativeStdDev),
        (numpy.int64(-1), core.NegativeStdDev), (-10**30, core.NegativeStdDev),
        (-1.7976931348623157e308, core.NegativeStdDev),
        (numpy.float64(-gen.INF), core.NegativeStdDev),
        ('abc', Exception), (None, Exception), ([1], Exception), (1j, Exception),
        ('-1', Exception), ((), Exception),
        (-.001, core.NegativeStdDev)])


def set_std(rng, v, value):
    "Updates the variable, in one of the supported ways."
    k = rng.random()
    if k < .75:
        v.std_dev = value
    elif k < .9:
        setattr(v, 'std_dev', value)
    else:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                v.set_std_dev(value)
            finally:
                assert len(w) == 1, 'set_std_dev: warning'


def check_all(ctx, p, stds, indices, what):
    for i in indices:
        p.check_std(i, stds, what)


def model_cov(p, stds, i, j):
    a, b = p.shadows[i], p.shadows[j]
    tot = mag = 0.
    for v, d in a.g.items():
        if v in b.g and stds[v]:
            tot += d*b.g[v]*stds[v]**2
            mag += a.a[v]*b.a[v]*stds[v]**2
    return tot, mag


def history(ctx):
    rng = ctx.rng
    p = shadow.Program(ctx, rng.randint(1, 4), zero=.25)
    stds = [float(v.std_dev) for v in p.vars]
    evaluated = set()
    interesting = False
    for step in range(rng.choice([10, 20, 40, 80])):
        k = rng.random()
        if k < .38:
            p.step()
        elif k < .44:
            cls = rng.choice([None, None, Sub, SlotSub])
            if cls is None:
                p.new_variable()
            else:
                x, s = gen.moderate(rng), gen.finite_std(rng)
                v = cls(x, s)
                i = len(p.vars)
                p.vars.append(v)
                p.objs.append(v)
                p.shadows.append(shadow.S(x, {i: 1.}, {i: 1.}))
            stds.append(float(p.vars[-1].std_dev))
        elif k < .62:
            i = rng.randrange(len(p.objs))
            what = rng.choice(['std', 'derivs', 'components', 'str'])
            evaluated.add(i)
            if what == 'std':
                p.check_std(i, stds, '(read)')
            elif what == 'derivs':
                p.check_derivatives(i, '(read)')
            elif what == 'components':
                s = p.shadows[i]
                e = p.objs[i].error_components()
                for j, v in enumerate(p.vars):
                    if v in e:
                        exp = abs(s.g.get(j, 0.))*stds[j]
                        ctx.check(abs(e[v] - exp) <=
                                  shadow.TOL*s.a.get(j, 0.)*stds[j] + 1e-290,
                                  'error component', got=e[v], expected=exp)
            else:
                str(p.objs[i])
        elif k < .85:  # Update
            j = rng.randrange(len(p.vars))
            v = p.vars[j]
            value = good_value(rng)
            before = [(i, repr(float(p.objs[i].std_dev)))
                      for i in range(len(p.objs)) if j not in p.shadows[i].g]
            derivs_before = {i: dict(p.objs[i].derivatives)
                             for i in evaluated if j in p.shadows[i].g}
            noms = [o.nominal_value for o in p.objs]
            ctx.log('update', j, value)
            set_std(rng, v, value)
            stds[j] = float(value)
            ctx.count('updates')
            ctx.check(gen.close(float(v.std_dev), stds[j], 0.) and
                      isinstance(v.std_dev, float) and
                      float(v.s) == stds[j] and float(core.std_dev(v)) == stds[j],
                      'updated standard deviation', got=v.std_dev, set_to=value)
            if derivs_before:
                interesting = True
                ctx.count('updates_of_evaluated')
            for i, r in before:
                ctx.check(repr(float(p.objs[i].std_dev)) == r, 'an update changed a '
                          'number that does not depend on it', before=r,
                          after=p.objs[i].std_dev)
            for i, d in derivs_before.items():
                ctx.check(dict(p.objs[i].derivatives) == d or
                          any(x != x for x in d.values()),
                          'an update changed derivatives')
            for o, x in zip(p.objs, noms):
                ctx.check(gen.same_float(o.nominal_value, x), 'an update changed a '
                          'nominal value')
            sel = [i for i in range(len(p.objs)) if j in p.shadows[i].g]
            rng.shuffle(sel)
            check_all(ctx, p, stds, sel[:12], '(after an update)')
        elif k < .93:  # Refused update
            j = rng.randrange(len(p.vars))
            v = p.vars[j]
            value, exc = bad_value(rng)
            sel = [i for i in range(len(p.objs)) if j in p.shadows[i].g]
            ctx.log('refused', j, repr(value))
            try:
                set_std(rng, v, value)
            except exc:
                pass
            else:
                ctx.fail('invalid standard deviation accepted', value=value,
                         variable=repr(v.std_dev))
            ctx.count('refused')
            ctx.check(float(v.std_dev) == stds[j], 'a refused update changed the '
                      'standard deviation', got=v.std_dev, before=stds[j])
            check_all(ctx, p, stds, sel[:4], '(after a refused update)')
        elif k < .97:  # Forbidden assignments
            i = rng.randrange(len(p.objs))
            o = p.objs[i]
            name = rng.choice(['nominal_value', 'n', 'nominal_value']) \
                if obs.is_variable(o) or rng.random() < .4 else \
                rng.choice(['std_dev', 's', 'derivatives'])
            before = (o.nominal_value, float(o.std_dev))
            r = attempt(setattr, o, name, rng.choice([1., .5, o.nominal_value, 0]))
            ctx.check(isinstance(r, Raised) and isinstance(r.exc, AttributeError),
                      'assignment of .%s accepted' % name, obj=o, result=r)
            ctx.check(gen.same_float(o.nominal_value, before[0]) and
                      gen.same_float(float(o.std_dev), before[1]),
                      'a refused assignment changed the number')
            ctx.count('forbidden_assignments')
        else:  # Covariance
            i, j = rng.randrange(len(p.objs)), rng.randrange(len(p.objs))
            c = covariance_matrix([p.objs[i], p.objs[j]])[0][1]
            exp, mag = model_cov(p, stds, i, j)
            ctx.check(abs(c - exp) <= 3*shadow.TOL*mag + 1e-290, 'covariance after '
                      'updates', got=c, expected=exp)
            evaluated.update([i, j])
    ctx.count('evaluations')
    for i in range(len(p.objs)):
        p.check_std(i, stds, '(final)')
        p.check_derivatives(i, '(final)')
        p.check_nominal(i)
    if interesting:
        ctx.distinct(tuple(ctx.trace))


def creation(ctx):
    "Validation on creation, in all its forms."
    rng = ctx.rng
    makers = [
        ('ufloat', lambda s: ufloat(1.5, s)),
        ('ufloat tag', lambda s: ufloat(1.5, s, 'tag')),
        ('ufloat kw', lambda s: ufloat(nominal_value=1.5, std_dev=s)),
        ('Variable', lambda s: core.Variable(1.5, s)),
        ('subclass', lambda s: Sub(1.5, s)),
        ('slot subclass', lambda s: SlotSub(1.5, s, tag='x')),
        ('unumpy', lambda s: unumpy.uarray([1.5, 2], [s, 1])[0]),
        ('umatrix', lambda s: unumpy.umatrix([1.5, 2], [1, s])[0, 1]),
        ('obsolete tuple', lambda s: ufloat((1.5, s))),
    ]
    for _ in range(4):
        name, make = rng.choice(makers)
        ctx.count('evaluations')
        if rng.random() < .5:
            value, exc = bad_value(rng)
            if name.startswith('u') and name in ('unumpy', 'umatrix') and not \
                    isinstance(value, (int, float)):
                continue
            if value is None and name.startswith('ufloat'):
                continue
            ctx.log(name, repr(value))
            r = attempt(make, value)
            ctx.check(isinstance(r, Raised) and isinstance(r.exc, exc),
                      '%s: creation with an invalid standard deviation' % name,
                      value=value, result=r)
            ctx.count('refused')
        else:
            value = rng.choice([good_value(rng), gen.INF, gen.NAN, 5e-324, 1e308,
                                numpy.float64('inf'), 0])
            ctx.log(name, repr(value))
            v = make(value)
            ctx.check(gen.close(float(v.std_dev), float(value), 0.),
                      '%s: standard deviation' % name, got=v.std_dev, value=value)
            # Update cycle through special values:
            y = 2*v + 1
            z = -v
            for s in [rng.choice([0, gen.INF, gen.NAN, .5, 3, 0.]) for _ in range(5)]:
                if rng.random() < .3:
                    b = attempt(setattr, v, 'std_dev', bad_value(rng)[0])
                    ctx.check(isinstance(b, Raised), 'invalid update accepted')
                v.std_dev = s
                ctx.check(gen.close(float(v.std_dev), float(s), 0.), 'update',
                          got=v.std_dev, value=s)
                ctx.check(gen.close(float(y.std_dev), 2.*s, 1e-15) and
                          gen.close(float(z.std_dev), 1.*s, 0.),
                          'special standard deviation not seen by dependents',
                          got=(y.std_dev, z.std_dev), value=s)
                ctx.count('updates')
        ctx.distinct(name, repr(value))


def containers(ctx):
    """Updates seen through arrays, correlated values, copies, pickles and in
    later computations."""
    rng = ctx.rng
    n = rng.randint(2, 5)
    vs = [ufloat(rng.uniform(1, 5), rng.choice([0, .1, .5])) for _ in range(n)]
    arr = numpy.array(vs)
    m = unumpy.umatrix([[v.n for v in vs]], [[0.]*n])
    total, prod = arr.sum(), arr.prod()
    doubled = arr*2
    sq = arr**2
    dot = arr.dot(arr[::-1])
    if rng.random() < .5:
        total.std_dev, prod.std_dev, unumpy.std_devs(sq)
    shallow = copy.copy(total)
    dup = copy.copy(vs[0])
    restored = pickle.loads(pickle.dumps([total] + vs))
    deep = copy.deepcopy(prod)
    for _ in range(rng.randint(1, 6)):
        ctx.count('evaluations')
        ctx.count('updates')
        i = rng.randrange(n)
        s = good_value(rng)
        dup_s, rest_s, deep_s = (float(dup.std_dev), float(restored[0].std_dev),
                                 float(deep.std_dev))
        arr[i].std_dev = s
        S = [float(v.std_dev) for v in vs]
        N = [v.n for v in vs]
        ctx.log('update element', i, s)
        root = lambda xs: math.sqrt(sum(x*x for x in xs))
        ctx.check(gen.close(float(total.std_dev), root(S), 1e-9), 'sum of an array')
        ctx.check(gen.close(float(shallow.std_dev), root(S), 1e-9),
                  'shallow copy of a result', got=shallow.std_dev, expected=root(S))
        P = math.prod(N)
        ctx.check(gen.close(float(prod.std_dev), root(P/x*e for x, e in zip(N, S)),
                            1e-9), 'product of an array')
        ctx.check(numpy.allclose(unumpy.std_devs(doubled), 2*numpy.array(S),
                                 rtol=1e-12), 'array product')
        ctx.check(numpy.allclose(unumpy.std_devs(arr), S, rtol=0),
                  'array of variables')
        ctx.check(numpy.allclose(unumpy.std_devs(sq), 2*numpy.array(N)*S,
                                 rtol=1e-9), 'array power')
        ctx.check(gen.close(float(dot.std_dev),
                            root(2*N[n - 1 - j]*S[j] for j in range(n)), 1e-9),
                  'dot product')
        ctx.check((float(dup.std_dev), float(restored[0].std_dev),
                   float(deep.std_dev)) == (dup_s, rest_s, deep_s),
                  'an update changed an independent copy')
        # Updates of the copies do not affect the originals:
        if rng.random() < .4:
            before = [float(o.std_dev) for o in [total, prod] + vs]
            dup.std_dev = good_value(rng)
            restored[1 + rng.randrange(n)].std_dev = good_value(rng)
            for w in deep.derivatives:
                w.std_dev = good_value(rng)
            ctx.check([float(o.std_dev) for o in [total, prod] + vs] == before,
                      'an update of a copy changed the originals')
            ctx.check(gen.close(float(restored[0].std_dev),
                                root(float(v.std_dev) for v in restored[1:]), 1e-9),
                      'restored result does not follow the restored variables')
    # Correlated values:
    c = numpy.array([[1., .5], [.5, 2.]])
    a, b = uncertainties.correlated_values([1, 2], c, ['u', 'v'])
    t = a - b
    t.std_dev
    w = list(a.derivatives)[rng.randrange(2)]
    other = [v for v in a.derivatives if v is not w][0]
    s = good_value(rng)
    w.std_dev = s
    for o in (a, b, t):
        d = o.derivatives
        ctx.check(gen.close(float(o.std_dev), math.hypot(
            d[w]*float(s), d[other]*float(other.std_dev)), 1e-9, 1e-15),
            'update of the variable of a correlated value')
    ctx.distinct('containers', tuple(ctx.trace))


def setup(tier):
    warnings.simplefilter('ignore')


WORKLOADS = [
    ('history', history, 12000, 300000),
    ('creation', creation, 16000, 200000),
    ('containers', containers, 4000, 80000),
]
MIN = {'updates': 20000, 'refused': 5000, 'updates_of_evaluated': 5000}
