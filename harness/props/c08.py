"""C08: concurrent use of shared numbers and functions."""
import math, copy, pickle, itertools, random, re, sys, threading, warnings
import numpy
import uncertainties
from uncertainties import (ufloat, UFloat, umath, covariance_matrix, unumpy, wrap,
                           ufloat_fromstr)
import uncertainties.core as core
from .. import gen, spec, shadow, obs, sched
from .c07 import SubCtx, build, check_program

PROPERTY = 'C08'
LEVEL = 'exploration'
TECHNIQUE = ('controlled preemptive scheduler (switches at line and byte code '
             'events of the library) and free-running stress; results of every '
             'thread compared to a sequential shadow model')
NOTE = ('Random, few-preemption and switch-always schedules of 2 to 5 threads over '
        'shared unexpanded expressions and never called wrapped functions.')
RULE = ('distinct = executed interleavings (sequence of switch points) with at '
        'least one switch inside the library')
ASSUMPTIONS = ['CPython with the GIL: threads interleave between byte codes.']


def close_numbers(a, b):
    "Texts that are equal up to the last digits of their numbers."
    ra, rb = re.split(r'([0-9.]+(?:e[-+]?[0-9]+)?)', a), \
        re.split(r'([0-9.]+(?:e[-+]?[0-9]+)?)', b)
    if len(ra) != len(rb):
        return False
    for x, y in zip(ra, rb):
        if x != y:
            try:
                if not gen.close(float(x), float(y), 1e-9, 1e-12):
                    return False
            except ValueError:
                return False
    return True


def reader(p, rng, out):
    """A task that reads and computes, and stores (what, ...) in 'out', which
    check_reader() verifies afterwards."""
    steps = []
    for _ in range(rng.randint(1, 4)):
        i = rng.randrange(len(p.objs))
        if rng.random() < .6:
            i = len(p.objs) - 1 - rng.randrange(min(3, len(p.objs)))
        j = rng.randrange(len(p.objs))
        steps.append((rng.choice(
            ['std', 'std', 'derivs', 'derivs', 'comp', 'repr', 'str', 'add', 'mul',
             'cov', 'pickle', 'deepcopy', 'eq', 'exp', 'format', 'copy', 'array',
             'lt', 'nominal']), i, j))

    def run():
        for (what, i, j) in steps:
            a, b = p.objs[i], p.objs[j]
            if what == 'std':
                r = float(a.std_dev)
            elif what == 'derivs':
                r = dict(a.derivatives)
            elif what == 'comp':
                r = a.error_components()
            elif what == 'repr':
                r = repr(a)
            elif what == 'str':
                r = str(a)
            elif what == 'format':
                r = format(a, '.3ueS')
            elif what == 'add':
                r = a + b
            elif what == 'mul':
                r = a*b
            elif what == 'exp':
                r = umath.atan(a)
            elif what == 'cov':
                r = covariance_matrix([a, b])
            elif what == 'pickle':
                r = pickle.loads(pickle.dumps([a, b]))
            elif what == 'deepcopy':
                r = copy.deepcopy(a)
            elif what == 'copy':
                r = copy.copy(a)
            elif what == 'eq':
                r = (a == a, a != a, a == a + 1)
            elif what == 'lt':
                r = (a < b, a <= a, b >= a)
            elif what == 'array':
                r = unumpy.std_devs(numpy.array([a, b])*2).tolist()
            else:
                r = a.n
            out.append((what, i, j, r))
    return run


def check_reader(ctx, p, stds, out):
    for (what, i, j, r) in out:
        ctx.count('thread_results')
        s, t = p.shadows[i], p.shadows[j]
        e_std, tol = p.expected_std(i, stds)
        e_std2, tol2 = p.expected_std(j, stds)
        msg = 'concurrent %s' % what
        index = {id(v): k for k, v in enumerate(p.vars)}

        def check_derivs(d, g, a):
            for k, x in g.items():
                ctx.check(abs(d.get(p.vars[k], 0.) - x) <= shadow.TOL*a[k] + 1e-290,
                          msg + ': wrong derivative', got=d.get(p.vars[k]),
                          expected=x)
            for v in d:
                ctx.check(index.get(id(v)) in g, msg + ': spurious dependence')

        if what == 'std':
            ctx.check(abs(r - e_std) <= tol + 1e-290, msg, got=r, expected=e_std)
        elif what == 'derivs':
            check_derivs(r, s.g, s.a)
        elif what == 'comp':
            for k, x in s.g.items():
                ctx.check(abs(r.get(p.vars[k], 0.) - abs(x)*stds[k]) <=
                          shadow.TOL*s.a[k]*stds[k] + 1e-290, msg, got=r)
        elif what in ('add', 'mul', 'exp'):
            if what == 'add':
                q = shadow.linear(0., [(1., s), (1., t)])
                v = s.n + t.n
            elif what == 'mul':
                q = shadow.linear(0., [(t.n, s), (s.n, t)])
                v = s.n*t.n
            else:
                q = shadow.linear(0., [(1/(1 + s.n*s.n), s)])
                v = math.atan(s.n)
            ctx.check(gen.same_float(r.nominal_value, v), msg + ': value', got=r.n,
                      expected=v)
            check_derivs(r.derivatives, q.g, q.a)
        elif what == 'cov':
            tot = mag = 0.
            for k, x in s.g.items():
                if k in t.g:
                    tot += x*t.g[k]*stds[k]**2
                    mag += s.a[k]*t.a[k]*stds[k]**2
            ctx.check(abs(r[0][1] - tot) <= 3*shadow.TOL*mag + 1e-290, msg,
                      got=r, expected=tot)
            ctx.check(abs(r[0][0] - e_std**2) <= 3*(e_std*tol + tol**2) + 1e-290, msg,
                      got=r, expected=e_std**2)
        elif what == 'pickle':
            ctx.check(r[0].n == s.n and r[1].n == t.n and
                      abs(r[0].std_dev - e_std) <= tol + 1e-290 and
                      abs(r[1].std_dev - e_std2) <= tol2 + 1e-290, msg, got=r)
        elif what in ('deepcopy', 'copy'):
            ctx.check(r.n == s.n and abs(r.std_dev - e_std) <= tol + 1e-290, msg,
                      got=r, expected=e_std)
            if what == 'copy' and not obs.is_variable(p.objs[i]):
                check_derivs(r.derivatives, s.g, s.a)
        elif what in ('repr', 'str', 'format'):
            o = p.objs[i]
            ref = repr(o) if what == 'repr' else str(o) if what == 'str' else \
                format(o, '.3ueS')
            if what == 'repr':
                ok = close_numbers(r, ref)
            else:
                ok = r == ref or e_std <= 1e3*tol
            ctx.check(ok, msg, got=r, expected=ref)
        elif what == 'eq':
            ctx.check(r == (True, False, False), msg, got=r)
        elif what == 'lt':
            ctx.check(r == (s.n < t.n, True, t.n > s.n or
                            (t.n == s.n and r[2])), msg, got=r)
        elif what == 'array':
            ctx.check(abs(r[0] - 2*e_std) <= 2*tol + 1e-290 and
                      abs(r[1] - 2*e_std2) <= 2*tol2 + 1e-290, msg, got=r)
        else:
            ctx.check(gen.same_float(r, s.n), msg, got=r)


def strategy(rng):
    "(opcodes, switch probability, points)"
    opcodes = rng.random() < .4
    k = rng.random()
    if k < .3:
        return opcodes, rng.choice([.02, .1, .3]), None
    if k < .45:
        return opcodes, 1., None
    # A few preemptions, at random places of the beginning of the execution:
    horizon = rng.choice([60, 200, 800, 3000])
    return opcodes, 0., {rng.randrange(1, horizon) for _ in range(rng.randint(1, 4))}


def run_scheduled(ctx, tasks):
    rng = ctx.rng
    opcodes, p, points = strategy(rng)
    s = sched.Scheduler(random.Random(rng.getrandbits(60)), tasks, opcodes, p, points)
    ok = s.run()
    if not ok:
        ctx.fail('threads blocked (deadlock)', switches=s.switches, events=s.events)
    ctx.count('events', s.events)
    ctx.count('switches', s.switches)
    ctx.count('lock_waits', s.steals)
    for place in s.places:
        ctx.distinct('switch at', place[0], place[1])
    if s.switches:
        ctx.distinct('interleaving', s.signature)
    for e in s.errors:
        if e:
            ctx.fail('exception in a concurrent thread: %r' % (e[0],),
                     traceback=e[1], strategy=(opcodes, p, points))
    return s


def shared_numbers(ctx):
    rng = ctx.rng
    p = build(ctx, rng.getrandbits(60), True, (1, 4, 3, 18))
    stds = [float(v.std_dev) for v in p.vars]
    n = rng.choice([2, 2, 3, 4])
    outs = [[] for _ in range(n)]
    if rng.random() < .4:  # All the threads do the same thing
        s = rng.getrandbits(60)
        tasks = [reader(p, random.Random(s), out) for out in outs]
    else:
        tasks = [reader(p, rng, out) for out in outs]
    run_scheduled(ctx, tasks)
    ctx.count('evaluations')
    for out in outs:
        check_reader(ctx, p, stds, out)
    check_program(ctx, p, stds, '(after concurrent use)')


def long_chain(ctx):
    "Concurrent first reads of results of a long calculation."
    rng = ctx.rng
    vs = [ufloat(1. + k, .1*(k + 1)) for k in range(3)]
    n = rng.choice([10, 40, 120])
    coef = [0.]*3
    r = 0
    marks = []
    for k in range(n):
        i = rng.randrange(3)
        c = rng.choice([1., -1., 2.])
        r = r + c*vs[i] if rng.random() < .5 else c*vs[i] + r
        coef[i] += c
        if rng.random() < .15 or k == n - 1:
            marks.append((r, list(coef)))
    out = []

    def task(order):
        def run():
            for m in order:
                d = marks[m][0].derivatives
                out.append((m, [d.get(v, 0.) for v in vs],
                            float(marks[m][0].std_dev)))
        return run
    tasks = [task([rng.randrange(len(marks)) for _ in range(2)] + [len(marks) - 1])
             for _ in range(rng.choice([2, 3]))]
    run_scheduled(ctx, tasks)
    ctx.count('evaluations')
    ctx.log('chain', n)
    for m, d, s in out + [(m, [o.derivatives.get(v, 0.) for v in vs],
                           float(o.std_dev)) for m, (o, _) in enumerate(marks)]:
        ctx.check(d == marks[m][1], 'concurrent reads of a sum: derivatives', got=d,
                  expected=marks[m][1])
        exp = math.sqrt(sum((x*.1*(k + 1))**2 for k, x in enumerate(marks[m][1])))
        ctx.check(gen.close(s, exp, 1e-12, 1e-13), 'concurrent reads of a sum: '
                  'uncertainty', got=s, expected=exp)


def make_function(rng):
    n = rng.randint(1, 6)
    coefs = [float(c) for c in rng.sample(range(1, 30), n)]
    kcoefs = {k: float(c) for k, c in zip(['p', 'q'], rng.sample(range(40, 60), 2))}

    def f(*args, **kw):
        r = 0.
        for c, x in zip(coefs, args):
            r += c*x
        for k, x in kw.items():
            r += kcoefs[k]*x
        return r
    derivs = [(lambda c: (lambda *a, **k: c))(c) for c in coefs]
    derivs = [None if rng.random() < .25 else d for d in derivs]
    kd = {k: (lambda c: (lambda *a, **kw: c))(c) for k, c in kcoefs.items()
          if rng.random() < .5}

    def generator():
        for d in derivs:
            yield d
        while True:
            yield None
    it = rng.choice([lambda: derivs, lambda: iter(derivs), generator,
                     lambda: itertools.chain(derivs, itertools.repeat(None)),
                     lambda: map(lambda d: d, derivs)])()
    return wrap(f, it, rng.choice([kd, {}])), coefs, kcoefs


def first_calls(ctx):
    "Concurrent first calls of wrapped functions."
    rng = ctx.rng
    g, coefs, kcoefs = make_function(rng)
    n = rng.choice([2, 2, 3, 5])
    outs = [[] for _ in range(n)]

    def task(out, seed):
        r = random.Random(seed)
        calls = []
        for _ in range(r.randint(1, 3)):
            m = r.randint(1, len(coefs))
            calls.append((
                [ufloat(1. + r.random(), .5) if r.random() < .7 else 2.5
                 for _ in range(m)],
                {k: ufloat(1., .3) for k in kcoefs if r.random() < .3}))

        def run():
            for args, kw in calls:
                out.append((args, kw, g(*args, **kw)))
        return run
    same = rng.getrandbits(60)
    tasks = [task(out, same if rng.random() < .3 else rng.getrandbits(60))
             for out in outs]
    ctx.log('wrapped', coefs, n)
    run_scheduled(ctx, tasks)
    ctx.count('evaluations')
    again = [([ufloat(1., .1) for _ in coefs], {k: ufloat(1., .3) for k in kcoefs})]
    outs.append([(a, k, g(*a, **k)) for a, k in again])
    for out in outs:
        for args, kw, res in out:
            ctx.count('thread_results')
            plain = [getattr(a, 'nominal_value', a) for a in args]
            value = 0.
            for c, x in zip(coefs, plain):
                value += c*x
            for k, x in kw.items():
                value += kcoefs[k]*x.n
            ctx.check(gen.same_float(getattr(res, 'nominal_value', res), value),
                      'value of a concurrently called function', got=res,
                      expected=value)
            for c, a in list(zip(coefs, args)) + [(kcoefs[k], a)
                                                  for k, a in kw.items()]:
                if isinstance(a, UFloat):
                    d = res.derivatives[a]
                    ctx.check(gen.close(d, c, 1e-4), 'derivative after concurrent '
                              'first calls', got=d, expected=c, coefficients=coefs)


def other_functions(ctx):
    "Concurrent creation, parsing, formatting, wrapping and array functions."
    rng = ctx.rng
    shared = [ufloat(1.2345, .067, 'a'), ufloat(-3e5, 20.)]
    arr = numpy.array(shared)
    table = [
        lambda: repr(ufloat_fromstr('1.2(3)e5')), lambda: repr(ufloat('3.1+/-0.2')),
        lambda: '{:.2uP}'.format(shared[1]), lambda: str(shared[0]*shared[1]),
        lambda: repr(unumpy.exp(arr[:1])[0]),
        lambda: repr(umath.hypot(shared[0], 3).s),
        lambda: repr(unumpy.uarray([1, 2], [.1, .2]).sum()),
        lambda: repr(wrap(lambda x, y: x*y, [None, lambda x, y: x])(shared[0], 2.).n),
        lambda: repr(uncertainties.correlated_values([1, 2], [[1, .5], [.5, 1]])[1]),
        lambda: repr(unumpy.ulinalg.inv([[shared[0], 1.], [2., shared[1]]])[0, 0].s),
        lambda: repr(covariance_matrix(shared)),
        lambda: repr([ufloat(1, .1) == ufloat(1, .1), shared[0] == shared[0]]),
        lambda: repr(umath.fsum([shared[0], 1, shared[1]]).s),
        lambda: repr(umath.modf(shared[0])[0].s),
        lambda: repr(umath.ldexp(shared[0], 2).s),
    ]
    n = rng.choice([2, 3])
    plans = [[rng.choice(table) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    if rng.random() < .4:
        plans[1] = plans[0]
    expected = [[f() for f in plan] for plan in plans]
    s = run_scheduled(ctx, [lambda plan=plan: [f() for f in plan] for plan in plans])
    ctx.count('evaluations')
    ctx.log('others', [[f.__code__.co_firstlineno for f in plan] for plan in plans])
    for exp, got in zip(expected, s.results):
        ctx.check(all(a == b or close_numbers(a, b) for a, b in zip(exp, got)),
                  'concurrent results', got=got, expected=exp)
        ctx.count('thread_results', len(got))


def stress(ctx):
    "Free-running threads (very short switch interval), no tracing."
    rng = ctx.rng
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        p = build(ctx, rng.getrandbits(60), True, (2, 4, 10, 40))
        stds = [float(v.std_dev) for v in p.vars]
        fns = [make_function(rng) for _ in range(3)]
        n = 6
        outs = [[] for _ in range(n)]
        errors = []
        gate = threading.Event()
        tasks = [reader(p, rng, out) for out in outs]
        calls = []

        def body(i):
            gate.wait()
            try:
                for g, coefs, _ in fns:
                    args = [ufloat(1., .1) for _ in coefs]
                    calls.append((coefs, args, g(*args)))
                tasks[i]()
            except BaseException as e:
                import traceback
                errors.append((e, traceback.format_exc()[-1500:]))
        ths = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
        for t in ths:
            t.start()
        gate.set()
        for t in ths:
            t.join(60)
            if t.is_alive():
                ctx.fail('threads blocked (deadlock)')
    finally:
        sys.setswitchinterval(old)
    if errors:
        ctx.fail('exception in a concurrent thread: %r' % (errors[0][0],),
                 traceback=errors[0][1])
    ctx.count('evaluations')
    ctx.count('stress_threads', n)
    for out in outs:
        check_reader(ctx, p, stds, out)
    for coefs, args, r in calls:
        ctx.check([round(r.derivatives[a], 3) for a in args] == coefs,
                  'derivatives after concurrent first calls',
                  got=[r.derivatives[a] for a in args], expected=coefs)
    check_program(ctx, p, stds, '(after concurrent use)')


def setup(tier):
    warnings.simplefilter('ignore')


WORKLOADS = [
    ('shared_numbers', shared_numbers, 2000, 60000),
    ('long_chain', long_chain, 1200, 24000),
    ('first_calls', first_calls, 2200, 60000),
    ('other_functions', other_functions, 800, 16000),
    ('stress', stress, 500, 10000),
]
MIN = {'switches': 20000, 'thread_results': 20000}
CASE_TIMEOUT = 240
