"""C07: observations change nothing, even when interrupted."""
import math, copy, pickle, itertools, random, sys, warnings
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, covariance_matrix, unumpy, wrap
import uncertainties.core as core
from .. import gen, spec, shadow, obs, inject
from ..spec import attempt, Raised

PROPERTY = 'C07'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('differential monitor (observed versus never observed twin programs) '
             'and exceptions injected at line and byte code events of the library, '
             'followed by a comparison with a shadow model')
NOTE = ('Short operations are interrupted at each of their line events in turn; '
        'longer ones at random line and opcode events.')
RULE = ('distinct = (kind of operation, code location interrupted) pairs and '
        'observed/unobserved twin program histories')
ASSUMPTIONS = ['Interruptions are exceptions raised between two byte codes of the '
               'Python code of the package.']


class SubCtx(object):
    "Context with its own random generator (for twin programs)."
    def __init__(self, ctx, seed, log=False):
        self.ctx, self.rng = ctx, random.Random(seed)
        self.fail, self.check, self.count = ctx.fail, ctx.check, ctx.count
        self.log = ctx.log if log else (lambda *a: None)


def build(ctx, seed, log=False, sizes=(1, 4, 2, 14)):
    sub = SubCtx(ctx, seed, log)
    p = shadow.Program(sub, sub.rng.randint(sizes[0], sizes[1]), zero=.15)
    p.grow(sub.rng.randint(sizes[2], sizes[3]))
    return p


FORMATS = ['', 'e', '.3f', '.2u', '.1uS', 'P', 'L', '.2%', '10.3g', '+.1eP', 'uS',
           '010.2f', ',', 'p', '.4SL']
UFUNCS = ['exp', 'sin', 'cos', 'sqrt', 'log', 'atan', 'erf', 'sinh', 'floor', 'isnan',
          'trunc', 'modf', 'frexp', 'fabs', 'gamma']

triple = wrap(lambda x, y=2., *a, **k: x*y + sum(a) + sum(k.values()))


def observation(rng, p):
    "(name, function of the program) for a random observation."
    n = len(p.objs)
    i = rng.randrange(n)
    if rng.random() < .5:
        i = n - 1 - rng.randrange(min(3, n))
    j = rng.randrange(n)
    fmt = rng.choice(FORMATS)
    fn = rng.choice(UFUNCS)
    proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)
    op = rng.choice(list(spec.BINOPS))
    sel = [rng.randrange(n) for _ in range(rng.randint(1, 4))]
    c = rng.choice([2, -1., .5])
    table = [
        ('nominal_value', lambda p: (p.objs[i].nominal_value, p.objs[i].n)),
        ('std_dev', lambda p: float(p.objs[i].std_dev)),
        ('s', lambda p: float(p.objs[i].s)),
        ('derivatives', lambda p: len(p.objs[i].derivatives)),
        ('error_components', lambda p: sorted(
            map(float, p.objs[i].error_components().values()))),
        ('repr', lambda p: repr(p.objs[i])),
        ('str', lambda p: str(p.objs[i])),
        ('format', lambda p: attempt_value(format, p.objs[i], fmt)),
        ('format method', lambda p: attempt_value(p.objs[i].format, fmt)),
        ('eq', lambda p: p.objs[i] == p.objs[j]),
        ('ne', lambda p: p.objs[i] != p.objs[j]),
        ('order', lambda p: (p.objs[i] < p.objs[j], p.objs[i] <= p.objs[j],
                             p.objs[i] > c, c >= p.objs[j])),
        ('bool', lambda p: bool(p.objs[i])),
        ('hash', lambda p: obs.is_variable(p.objs[i]) and hash(p.objs[i]) and None),
        ('copy', lambda p: repr(copy.copy(p.objs[i]).std_dev)),
        ('deepcopy', lambda p: repr(copy.deepcopy(p.objs[i]).std_dev)),
        ('deepcopy container', lambda p: [repr(x.n) for x in copy.deepcopy(
            {'k': [p.objs[i], p.objs[j]]})['k']]),
        ('pickle', lambda p: repr(pickle.loads(pickle.dumps(
            p.objs[i], proto)).std_dev)),
        ('pickle all', lambda p: [repr(o.n) for o in pickle.loads(pickle.dumps(
            p.objs, proto))]),
        ('covariance', lambda p: len(covariance_matrix([p.objs[k] for k in sel]))),
        ('correlation', lambda p: quiet(uncertainties.correlation_matrix,
                                        [p.objs[k] for k in sel]).shape),
        ('operand', lambda p: value_of(spec.BINOPS[op], p.objs[i], p.objs[j])),
        ('operand plain', lambda p: value_of(spec.BINOPS[op], p.objs[i], c)),
        ('reflected', lambda p: value_of(spec.BINOPS[op], c, p.objs[i])),
        ('in place', lambda p: value_of(spec.IOPS[op], p.objs[i], p.objs[j])),
        ('unary', lambda p: value_of(spec.UNOPS[rng_name], p.objs[i])),
        ('umath', lambda p: value_of(getattr(umath, fn), p.objs[i])),
        ('umath 2', lambda p: value_of(umath.atan2, p.objs[i], p.objs[j])),
        ('wrapped', lambda p: value_of(triple, p.objs[i], 3., p.objs[j],
                                       key=p.objs[i])),
        ('sum', lambda p: value_of(sum, [p.objs[k] for k in sel])),
        ('numpy', lambda p: value_of(lambda: numpy.sum(numpy.array(
            [p.objs[k] for k in sel])*2))),
        ('unumpy', lambda p: [repr(float(x)) for x in unumpy.std_devs(
            [p.objs[k] for k in sel])]),
        ('unumpy nominal', lambda p: unumpy.nominal_values(
            [p.objs[k] for k in sel]).tolist()),
        ('unumpy function', lambda p: value_of(lambda: unumpy.sin(numpy.array(
            [p.objs[k] for k in sel]))[0])),
        ('std_score', lambda p: attempt_value(p.objs[i].std_score, c)),
        ('std_score 2', lambda p: value_of(p.objs[i].std_score, p.objs[j])),
        ('sorted', lambda p: [o.n for o in sorted(p.objs[k] for k in sel)]),
        ('in', lambda p: p.objs[i] in p.objs),
        ('dir', lambda p: len(dir(p.objs[i]))),
        ('inverse', lambda p: attempt_value(lambda: repr(unumpy.ulinalg.inv(
            [[p.objs[i], 1.], [c, p.objs[j]]])[0, 0].n))),
        ('refused update', lambda p: attempt_value(
            setattr, p.objs[i], 'std_dev', -1.)),
        ('refused value', lambda p: attempt_value(
            setattr, p.objs[i], 'nominal_value', 1.)),
    ]
    rng_name = rng.choice(['neg', 'pos', 'abs'])
    name, f = rng.choice(table)
    return name, f


def quiet(f, *args):
    with numpy.errstate(all='ignore'):
        return f(*args)


def attempt_value(f, *args):
    try:
        return repr(f(*args))
    except Exception as e:
        return type(e).__name__


def value_of(f, *args, **kw):
    try:
        r = f(*args, **kw)
        return repr(getattr(r, 'nominal_value', r))
    except Exception as e:
        return type(e).__name__


def snapshot(p):
    index = {id(v): k for k, v in enumerate(p.vars)}
    return [obs.observe(o, index) for o in p.objs]


def check_program(ctx, p, stds, what, order=None):
    for i in (order or range(len(p.objs))):
        p.check_nominal(i)
        p.check_std(i, stds, what)
        p.check_derivatives(i, what)
    for v, s in zip(p.vars, stds):
        ctx.check(gen.same_float(float(v.std_dev), s), 'standard deviation of a '
                  'variable changed ' + what, got=v.std_dev, expected=s)


def twins(ctx):
    "Twin programs: one is observed all along, the other never."
    rng = ctx.rng
    seed = rng.getrandbits(60)
    sub = SubCtx(ctx, seed)
    # Construction with observations interleaved:
    p = build(ctx, seed, log=True)
    q = build(ctx, seed)
    oseed = rng.getrandbits(60)
    orng = random.Random(oseed)
    stds = [float(v.std_dev) for v in p.vars]
    first = {}
    names = []
    for _ in range(rng.choice([3, 10, 30])):
        name, f = observation(orng, p)
        names.append(name)
        ctx.log('observe', name)
        r = f(p)
        if rng.random() < .3:
            ctx.check(f(p) == r, 'repeated observation differs: ' + name,
                      first=r, second=f(p))
        ctx.count('observations')
        if rng.random() < .3:
            i = rng.randrange(len(p.objs))
            index = {id(v): k for k, v in enumerate(p.vars)}
            o = obs.observe(p.objs[i], index)
            ctx.check(first.setdefault(i, o) == o, 'what a number reports changed '
                      'between two observations', first=first[i], now=o,
                      between=names)
    snap = snapshot(p)
    for i, o in first.items():
        ctx.check(snap[i] == o, 'what a number reports changed', first=o,
                  now=snap[i], between=names)
    # The observed program goes on identically to the unobserved one:
    more = rng.getrandbits(60)
    for x in (p, q):
        x.ctx = SubCtx(ctx, more)
        x.rng = x.ctx.rng
        x.grow(4)
    ctx.check(len(p.objs) == len(q.objs), 'twin programs differ')
    index_p = {id(v): k for k, v in enumerate(p.vars)}
    index_q = {id(v): k for k, v in enumerate(q.vars)}
    order = list(range(len(q.objs)))
    rng.shuffle(order)
    for i in order:
        a = obs.values(p.objs[i], index_p)
        b = obs.values(q.objs[i], index_q)
        d = obs.same_values(a, b, 1e-11, p.shadows[i].a)
        ctx.check(d is None, 'observed and unobserved programs differ',
                  difference=d, observations=names)
        ctx.count('twin_comparisons')
    check_program(ctx, p, stds, '(observed)')
    snap2 = snapshot(p)
    ctx.check(snap2[:len(snap)] == snap, 'observation changed a number',
              before=[s for s, t in zip(snap, snap2) if s != t][:2],
              after=[t for s, t in zip(snap, snap2) if s != t][:2])
    ctx.count('evaluations')
    ctx.distinct('twins', tuple(names), seed)


def make_wrapped(rng):
    """A new wrapped function whose derivatives come from an iterable that is
    consumed progressively, with a reference."""
    n = rng.randint(2, 6)
    coefs = [rng.choice([-1, 1])*rng.uniform(.5, 3) for _ in range(n)]
    f = lambda *args, **kw: sum(c*x for c, x in zip(coefs, args)) + \
        sum(2*x for x in kw.values())
    derivs = [(lambda c: (lambda *a, **k: c))(c) for c in coefs]
    derivs = [None if rng.random() < .25 else d for d in derivs]
    it = rng.choice([lambda: derivs, lambda: iter(derivs),
                     lambda: itertools.chain(derivs, itertools.repeat(None)),
                     lambda: map(lambda x: x, derivs)])()
    return wrap(f, it), coefs


def first_calls(rng, p, g, coefs):
    "Calls of a wrapped function for the first times."
    n = len(coefs)
    calls = []
    for _ in range(rng.randint(1, 3)):
        m = rng.randint(1, n)
        calls.append([rng.randrange(len(p.objs)) if rng.random() < .7 else None
                      for _ in range(m)])

    def run(p):
        for c in calls:
            g(*[1.5 if k is None else p.objs[k] for k in c])
    return run


def verify_wrapped(ctx, p, g, coefs):
    args = [p.objs[k % len(p.objs)] for k in range(len(coefs))]
    fresh = [ufloat(1. + k, .5) for k in range(len(coefs))]
    r = g(*fresh)
    for v, c in zip(fresh, coefs):
        ctx.check(gen.close(r.derivatives[v], c, 1e-6), 'derivative of a wrapped '
                  'function after an interrupted call', got=r.derivatives[v],
                  expected=c, all=coefs)
    kw = ufloat(1., .5)
    ctx.check(gen.close(g(1., key=kw).derivatives[kw], 2., 1e-6),
              'keyword derivative after an interrupted call')


def interrupted(ctx, each):
    rng = ctx.rng
    seed, aseed = rng.getrandbits(60), rng.getrandbits(60)
    opcodes = not each or rng.random() < .2

    def prepare(log=False):
        p = build(ctx, seed, log, (1, 3, 1, 5) if each else (1, 4, 3, 16))
        arng = random.Random(aseed)
        if arng.random() < .2:
            g, coefs = make_wrapped(arng)
            return p, 'first calls', first_calls(arng, p, g, coefs), (g, coefs)
        if not each and arng.random() < .3:
            # Growing the program (computing) is interrupted too:
            s = arng.getrandbits(60)

            def grow(p):
                t = shadow.Program(SubCtx(ctx, s), 0)
                t.vars, t.objs = list(p.vars), list(p.objs)
                t.shadows = list(p.shadows)
                t.grow(6)
                return None
            return p, 'computation', grow, None
        name, f = observation(arng, p)
        return p, name, f, None

    p, name, f, w = prepare(True)
    stds = [float(v.std_dev) for v in p.vars]
    inj = inject.Injector(opcodes)
    done, ref = inj.run(f, p)
    total = inj.n
    ctx.log('interrupted', name, total)
    if not total:
        return
    if each and total <= 400:
        points = range(total)
    else:
        points = [rng.randrange(total) for _ in range(12 if each else 6)]
    for k in points:
        p, name, f, w = prepare()
        inj = inject.Injector(opcodes, k, rng.choice(
            [inject.Injected, inject.InjectedMemory]))
        done, r = inj.run(f, p)
        ctx.count('injected' if not done else 'not_reached')
        if not done:
            ctx.distinct(name, inj.where)
        # Sometimes, a second interruption:
        if rng.random() < .2:
            inject.Injector(opcodes, rng.randrange(total)).run(f, p)
        order = list(range(len(p.objs)))
        rng.shuffle(order)
        if rng.random() < .3:
            if w:
                verify_wrapped(ctx, p, *w)
        again = f(p)
        ctx.check(again == ref or ref is None,
                  '%s: different result after an interruption at %s' % (
                      name, inj.where), expected=ref, got=again)
        check_program(ctx, p, stds, '(after the interruption of %s at %s)' % (
            name, inj.where), order)
        if w:
            verify_wrapped(ctx, p, *w)
        ctx.count('evaluations')


def interrupted_each(ctx):
    interrupted(ctx, True)


def interrupted_random(ctx):
    interrupted(ctx, False)


def interrupted_update(ctx):
    "An interrupted update is either done or not; everything follows it."
    rng = ctx.rng
    p = build(ctx, rng.getrandbits(60), True)
    stds = [float(v.std_dev) for v in p.vars]
    j = rng.randrange(len(p.vars))
    new = rng.choice([0., 1., .3])
    if rng.random() < .5:
        p.check_std(len(p.objs) - 1, stds)
    inj = inject.Injector(rng.random() < .5, rng.randrange(6))
    done, r = inj.run(setattr, p.vars[j], 'std_dev', new)
    got = float(p.vars[j].std_dev)
    ctx.check(got in (stds[j], new), 'interrupted update', got=got)
    stds[j] = got
    ctx.count('injected' if not done else 'not_reached')
    ctx.count('evaluations')
    check_program(ctx, p, stds, '(after an interrupted update)')
    ctx.distinct('update', inj.where, new)


class Boom(Exception):
    pass


def user_exceptions(ctx):
    """Exceptions raised by user code (functions, derivatives) and invalid
    operations in the middle of a computation."""
    rng = ctx.rng
    p = build(ctx, rng.getrandbits(60), True)
    stds = [float(v.std_dev) for v in p.vars]
    snap = snapshot(p) if rng.random() < .5 else None
    fail_at = [rng.randrange(4)]
    where = rng.choice(['function', 'derivative', 'numerical'])

    def maybe(kind):
        if kind == where:
            fail_at[0] -= 1
            if fail_at[0] == -1:
                raise Boom()

    def f(x, y):
        maybe('function')
        if where == 'numerical':
            maybe('numerical')
        return 2*x - 3*y

    def dx(x, y):
        maybe('derivative')
        return 2.
    g = wrap(f, [dx, None])
    for _ in range(rng.randint(1, 5)):
        a, b = rng.choice(p.objs), rng.choice(p.objs)
        k = rng.randrange(5)
        if k <= 2:
            try:
                g(a, b)
            except Boom:
                ctx.count('user_exceptions')
        elif k == 3:
            r = attempt(rng.choice([
                lambda: a/0, lambda: umath.sqrt(-abs(a) - 1), lambda: a + 'x',
                lambda: umath.log(0*a), lambda: format(a, 'zz'), lambda: a < 'x',
                lambda: float(a), lambda: a**[1], lambda: umath.acos(a*0 + 2),
                lambda: pickle.loads(pickle.dumps([a, lambda: 0])),
                lambda: copy.deepcopy([a, Unfriendly()]),
                lambda: covariance_matrix([a, 3])]))
            ctx.check(isinstance(r, Raised), 'invalid operation accepted', result=r)
            ctx.count('invalid_operations')
        else:
            e = attempt(setattr, a, 'std_dev', -1)
            ctx.check(isinstance(e, Raised), 'invalid update accepted')
    if snap is not None:
        now = snapshot(p)
        ctx.check(now == snap, 'failed operations changed a number',
                  before=[s for s, t in zip(snap, now) if s != t][:2],
                  after=[t for s, t in zip(snap, now) if s != t][:2])
    fail_at[0] = 10**9
    x, y = ufloat(1, .1), ufloat(2, .1)
    d = g(x, y).derivatives
    ctx.check(gen.close(d[x], 2., 1e-6) and gen.close(d[y], -3., 1e-6),
              'wrapped function after exceptions', got=d)
    check_program(ctx, p, stds, '(after failed operations)')
    ctx.count('evaluations')
    ctx.distinct('user', tuple(ctx.trace), where)


class Unfriendly(object):
    def __deepcopy__(self, memo):
        raise Boom()


def setup(tier):
    warnings.simplefilter('ignore')
    # (Exceptions injected while a generator is being closed)
    sys.unraisablehook = lambda *a: None


WORKLOADS = [
    ('twins', twins, 6000, 150000),
    ('interrupted_each', interrupted_each, 500, 14000),
    ('interrupted_random', interrupted_random, 3000, 80000),
    ('interrupted_update', interrupted_update, 1500, 20000),
    ('user_exceptions', user_exceptions, 5000, 100000),
]
MIN = {'injected': 10000, 'observations': 20000, 'user_exceptions': 500}
