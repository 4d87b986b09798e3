"""C09: linear cost, no recursion limit, no leak."""
import copy, gc, io, math, os, pickle, random, sys, time, tracemalloc, warnings
import weakref, signal, threading
import numpy
import uncertainties
from uncertainties import (ufloat, UFloat, umath, covariance_matrix, unumpy, wrap,
                           ufloat_fromstr)
import uncertainties.core as core
from .. import gen, spec, fw
from ..spec import attempt, Raised

PROPERTY = 'C09'
LEVEL = 'exploration'
TECHNIQUE = ('counters of executed byte code instructions and CPU time as a '
             'function of the size, crash monitor on very long chains in child '
             'processes, and monitor of live objects and memory')
NOTE = ('Instruction counts at sizes N and 4N for generated kinds of chains; '
        'chains of up to 200000 steps; live objects counted after release.')
RULE = ('distinct = (kind of chain, ways of reading it, size) measured at two '
        'sizes; (kind of use, objects) whose release was observed')
ASSUMPTIONS = ['Work in C code is observed through CPU time ratios only.']
CASE_TIMEOUT = 300


class Steps(object):
    "Number of byte code instructions executed by the package."
    TOOL = 4

    def __init__(self):
        self.n = 0
        mon = sys.monitoring
        E = mon.events
        n = [0]
        pkg = fw.PKG
        DISABLE = mon.DISABLE

        def on_instruction(code, offset):
            if not code.co_filename.startswith(pkg):
                return DISABLE
            n[0] += 1
        self._n = n
        mon.use_tool_id(self.TOOL, 'verif-steps')
        mon.register_callback(self.TOOL, E.INSTRUCTION, on_instruction)

    def run(self, f, *args):
        mon = sys.monitoring
        self._n[0] = 0
        mon.set_events(self.TOOL, mon.events.INSTRUCTION)
        try:
            r = f(*args)
        finally:
            mon.set_events(self.TOOL, 0)
        return self._n[0], r


_steps = None


def steps():
    global _steps
    if _steps is None:
        _steps = Steps()
    return _steps


# Kinds of chains: (function of (variables, size, rng) -> result)

def c_add(vs, n):
    r = 0
    for k in range(n):
        r = r + vs[k % len(vs)]
    return r


def c_iadd(vs, n):
    r = 0.
    for k in range(n):
        r += vs[k % len(vs)]
    return r


def c_radd(vs, n):
    r = vs[0]
    for k in range(n):
        r = vs[k % len(vs)] + r
    return r


def c_sub(vs, n):
    r = vs[0]*1
    for k in range(n):
        r = r - vs[k % len(vs)]
    return r


def c_sum(vs, n):
    return sum(vs[k % len(vs)] for k in range(n))


def c_fsum(vs, n):
    return umath.fsum([vs[k % len(vs)] for k in range(n)])


def c_numpy(vs, n):
    return numpy.array([vs[k % len(vs)] for k in range(n)]).sum()


def c_dot(vs, n):
    a = numpy.array([vs[k % len(vs)] for k in range(n)])
    return a.dot(a)


def c_mul(vs, n):
    # (The values remain ordinary.)
    r = vs[0]*1
    for k in range(n):
        v = vs[k % len(vs)]
        r = r*(v if r.n < 1 else 2 - v)
    return r


def c_div(vs, n):
    r = vs[0]
    for k in range(n):
        v = vs[k % len(vs)]
        r = r/(v if r.n > 1 else 2 - v)
    return r


def c_scalar(vs, n):
    r = vs[0]
    for k in range(n):
        r = 1 - r*.999
    return r


def c_math(vs, n):
    r = vs[0]
    for k in range(n):
        r = umath.sin(r) if k % 2 else umath.cos(r) + vs[k % len(vs)]
    return r


def c_double(vs, n):
    r = vs[0]
    for k in range(n):
        r = (r + r)/2
    return r


def c_fib(vs, n):
    a, b = vs[0], vs[-1]
    for k in range(n):
        a, b = b, .5*a + .5*b
    return b


def c_square(vs, n):
    r = vs[0]
    for k in range(n):
        r = (r*r + 1)/(r + 2)
    return r


def c_horner(vs, n):
    x = ufloat(.5, .01)
    r = vs[0]
    for k in range(n):
        r = r*x + vs[k % len(vs)]
    return r


def c_mixed(vs, n):
    r = vs[0]
    for k in range(n):
        v = vs[k % len(vs)]
        j = k % 6
        r = (r + v if j == 0 else r - 2*v if j == 1 else -r if j == 2 else
             umath.atan(r) if j == 3 else abs(r) + 1 if j == 4 else r**1)
    return r


def c_neg(vs, n):
    r = vs[0]
    for k in range(n):
        r = -r
    return r


def c_read_often(vs, n):
    "(Few variables: each read is cheap because the previous ones are expanded.)"
    r = vs[0]
    for k in range(n):
        r = r + vs[k % min(2, len(vs))]
        r.std_dev
    return r


def c_recurrence(vs, n):
    out = [vs[0], vs[-1]]
    for k in range(n):
        out.append(out[-1]*.3 + out[-2]*.2 + out[len(out)//2]*.1)
    return out[-1]


def c_pow(vs, n):
    r = vs[0]
    for k in range(n):
        r = r**.5 + .1
    return r


_w = wrap(lambda x, y: x*y + .1, [lambda x, y: y, lambda x, y: x])


def c_wrapped(vs, n):
    r = vs[0]
    for k in range(n):
        r = _w(r, .5) if k % 2 else _w(y=.5, x=r)
    return r


CHAINS = [c_add, c_iadd, c_radd, c_sub, c_sum, c_fsum, c_numpy, c_dot, c_mul, c_div,
          c_scalar, c_math, c_double, c_fib, c_square, c_horner, c_mixed, c_neg,
          c_read_often, c_recurrence, c_pow, c_wrapped]

# Ways of reading a result:
READS = [
    ('std_dev', lambda r, vs: r.std_dev),
    ('derivatives', lambda r, vs: len(r.derivatives)),
    ('error_components', lambda r, vs: len(r.error_components())),
    ('repr', lambda r, vs: repr(r)),
    ('str', lambda r, vs: str(r)),
    ('covariance', lambda r, vs: covariance_matrix([r, vs[0]])),
    ('equality', lambda r, vs: (r == r, r != r + 1)),
    ('difference', lambda r, vs: (r - r).std_dev),
    ('pickle', lambda r, vs: pickle.loads(pickle.dumps(r, 2)).n),
    ('deepcopy', lambda r, vs: copy.deepcopy(r).std_dev),
    ('copy', lambda r, vs: copy.copy(r).std_dev),
    ('function', lambda r, vs: umath.atan(r).std_dev),
]


def make_vars(rng, many, n):
    k = n if many else rng.choice([1, 2, 5])
    return [ufloat(1. + .5/(i + 1), .01 + .1/(i + 1)) for i in range(k)]


def linear_steps(ctx):
    rng = ctx.rng
    chain = rng.choice(CHAINS)
    name, read = rng.choice(READS)
    many = rng.random() < .6 and chain is not c_read_often
    n = rng.choice([100, 200, 400])
    s = steps()
    seed = rng.getrandbits(30)

    def measure(n):
        vs = make_vars(random.Random(seed), many, n)
        build, r = s.run(chain, vs, n)
        if not isinstance(r, UFloat):
            raise AssertionError('not a number with uncertainty')
        first, x = s.run(read, r, vs)
        second, y = s.run(read, r, vs)
        r.derivatives
        again = [s.run(lambda: r.derivatives)[0] for _ in range(2)]
        return build, first, second, again
    # (Warm-up, so that nothing depends on first calls.)
    measure(20)
    a, b = measure(n), measure(4*n)
    ctx.log(chain.__name__, name, 'many' if many else 'few', n, a, b)
    ctx.count('evaluations')
    ctx.count('instructions', a[0] + a[1] + b[0] + b[1])
    for what, i in (('building', 0), ('reading', 1), ('reading again', 2)):
        ctx.check(b[i] <= 5*a[i] + 2000, '%s a chain (%s, %s): more than linear work'
                  % (what, chain.__name__, name), size=(n, 4*n),
                  steps=(a[i], b[i]))
    per = (b[0] + b[1])/(4.*n)
    ctx.check(per < 6000, 'too many steps per operation', steps=per,
              chain=chain.__name__)
    ctx.check(max(b[3]) <= 60 and b[3][0] == b[3][1], 'a repeated read does work '
              'again', steps=b[3], chain=chain.__name__)
    if not many and name in ('std_dev', 'error_components', 'repr', 'str',
                             'derivatives', 'copy'):
        ctx.check(b[2] <= 5000 and b[2] <= 1.5*a[2] + 400, 'a repeated read redoes '
                  'the expansion', steps=(a[2], b[2]), chain=chain.__name__)
    ctx.distinct(chain.__name__, name, many, n)


def cpu(f, *args):
    gc.collect()
    gc.disable()
    try:
        t = time.thread_time()
        r = f(*args)
        return time.thread_time() - t, r
    finally:
        gc.enable()


def linear_time(ctx):
    "Work in C code (copies of dictionaries, etc.)."
    rng = ctx.rng
    chain = rng.choice(CHAINS)
    name, read = rng.choice(READS)
    many = rng.random() < .8 and chain is not c_read_often
    n = 4000

    def measure(n):
        vs = make_vars(random.Random(1), many, n)

        def job():
            return read(chain(vs, n), vs)
        return cpu(job)[0]
    ratios = []
    for attempt_ in range(6):
        a = measure(n)
        b = measure(4*n)
        ratios.append(b/max(a, 1e-4))
        # Linear: 4; quadratic: 16
        if ratios[-1] < 9:
            break
    ctx.log(chain.__name__, name, many, ratios[-1])
    ctx.count('evaluations')
    ctx.check(min(ratios) < 9, 'time more than linear in the size', ratios=ratios,
              chain=chain.__name__, read=name, seconds=(a, b))
    ctx.distinct('time', chain.__name__, name, many)


def in_child(f, timeout=200):
    """Runs f in a forked process. Returns ('ok', text), ('exception', text),
    ('signal', number) or ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                out = 'ok:' + str(f())
            except BaseException as e:
                import traceback
                out = 'exception:%s: %s %s' % (type(e).__name__, str(e)[:200],
                                               traceback.format_exc()[-700:])
            os.write(w, out.encode()[:4000])
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGALRM:
            return 'timeout', None
        return 'signal', os.WTERMSIG(status)
    kind, _, text = data.decode().partition(':')
    return kind, text


def deep(ctx):
    "Very long chains: computing, reading, copying, pickling, releasing."
    rng = ctx.rng
    chain = rng.choice([c for c in CHAINS if c not in (c_recurrence,)])
    # (The large stack of the C recursion limit would hide some crashes.)
    n = rng.choice([3000, 20000, 60000]) if ctx.tier == 'quick' else \
        rng.choice([20000, 60000, 200000])
    many = rng.random() < .4 and chain is not c_read_often
    order = [name for name, _ in READS]
    rng.shuffle(order)
    order = order[:rng.randint(1, 6)]
    proto = rng.randint(0, 5)
    small_stack = rng.random() < .3
    seed = rng.getrandbits(30)
    ctx.log(chain.__name__, n, many, order, proto, small_stack)

    def job():
        vs = make_vars(random.Random(seed), many, n)
        r = chain(vs, n)
        ref = chain(vs, n)
        s = float(ref.std_dev)
        del ref
        for name in order:
            dict(READS)[name](r, vs)
        r2 = chain(vs, n)
        q = pickle.loads(pickle.dumps({'k': [r2, vs[0], r2]}, proto))['k']
        assert q[0].n == r2.n and q[0] is q[2]
        d = copy.deepcopy(chain(vs, n))
        c = copy.copy(chain(vs, n))
        l = copy.deepcopy([chain(vs, n)])
        tol = 1e-9*s + 1e-200
        for o in (r, r2, q[0], d, c, l[0]):
            assert o.std_dev == s or abs(o.std_dev - s) <= tol or (s != s), (o.std_dev, s)
        unread = chain(vs, n)
        del unread  # (Never expanded)
        del vs, r, r2, q, d, c, l
        gc.collect()
        return s

    def in_thread():
        # Small C stack:
        old = threading.stack_size(256*1024)
        out = []

        def body():
            try:
                out.append(job())
            except BaseException as e:
                out.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        threading.stack_size(old)
        if isinstance(out[0], BaseException):
            raise out[0]
        return out[0]
    kind, text = in_child(in_thread if small_stack else job)
    ctx.count('evaluations')
    ctx.count('deep_operations', 8*n)
    if kind == 'timeout':
        raise fw.Watchdog()
    ctx.check(kind == 'ok', 'long chain of operations: %s' % kind,
              chain=chain.__name__, size=n, result=text, reads=order,
              protocol=proto)
    ctx.distinct('deep', chain.__name__, n, many, tuple(order), proto)


class Tag(object):
    "Weakly referenceable tag."


TYPES = (core.AffineScalarFunc, core.Variable, core.LinearCombination)


def live():
    gc.collect()
    return sum(1 for o in gc.get_objects() if isinstance(o, TYPES))


FORMATS = ['', '.2u', 'e', '.1uSL', 'P', '10.3f', '%', 'uS']


def uses(rng, vs):
    "Random use of variables; returns the objects kept."
    kept = list(vs)
    for _ in range(rng.randint(1, 12)):
        a, b = rng.choice(kept), rng.choice(kept)
        k = rng.randrange(30)
        if k < 6:
            kept.append(rng.choice([lambda: a + b, lambda: a*b, lambda: a - 2*b,
                                    lambda: -a, lambda: umath.atan(a),
                                    lambda: abs(a) + b, lambda: a/3])())
        elif k == 6:
            a.std_dev, b.derivatives, a.error_components()
        elif k == 7:
            repr(a), str(b), format(a, rng.choice(FORMATS))
        elif k == 8:
            covariance_matrix([a, b])
        elif k == 9:
            (a == b, a != b, a < b, a >= b, bool(a), a in kept)
        elif k == 10:
            kept.append(copy.copy(a))
        elif k == 11:
            kept.append(copy.deepcopy(a))
        elif k == 12:
            # Tags are copied too (not their references):
            pickle.loads(pickle.dumps(a + b, rng.randint(0, 5)))
        elif k == 13:
            attempt(lambda: a/0)
            attempt(lambda: umath.sqrt(-abs(a) - 1))
        elif k == 14:
            attempt(format, a, 'zzz')
        elif k == 15:
            kept.append(wrap(lambda x, y: x*y)(a, b))
        elif k == 16:
            attempt(setattr, a, 'std_dev', -1)
        elif k == 17:
            arr = numpy.array([a, b])
            kept.append((arr*2).sum())
            unumpy.nominal_values(arr), unumpy.std_devs(arr)
        elif k == 18:
            kept.append(umath.hypot(a, b))
            umath.floor(a), umath.modf(a), umath.frexp(a)
        elif k == 19:
            kept.append(umath.fsum([a, b, 1]))
        elif k == 20:
            attempt(a.std_score, 2.)
        elif k == 21:
            attempt(lambda: unumpy.ulinalg.inv([[a, 1.], [2., b]]))
            attempt(lambda: unumpy.ulinalg.pinv([[a, 1.], [2., b]]))
        elif k == 22:
            kept.append(sum([a, b, a]))
        elif k == 23:
            attempt(lambda: kept.extend(uncertainties.correlated_values(
                [1, 2], [[1, .5], [.5, 1]], ['a', 'b'])))
        elif k == 24:
            sorted([a, b])
        elif k == 25:
            kept.append(ufloat_fromstr('1.2(3)'))
            kept.append(ufloat(1, .2, 'x'))
        elif k == 26:
            attempt(lambda: unumpy.sin(numpy.array([a, b])))
            attempt(lambda: unumpy.floor(numpy.array([a, b])))
        elif k == 27:
            attempt(lambda: unumpy.matrix([[a, b], [1, 2]]).I)
        elif k == 28:
            kept.append(a % 2 if a.n else a)
            attempt(lambda: kept.append(abs(a)**b))
        else:
            hash(vs[0])
            {v: 1 for v in vs}
    return [o for o in kept if isinstance(o, UFloat)]


def release(ctx):
    rng = ctx.rng
    rng_seed = rng.getrandbits(60)
    # Caches of Python itself (regular expressions...) and first-time objects:
    uses(random.Random(rng_seed), [ufloat(1.5, .1), ufloat(-2, .3)])
    before = live()
    tags = [Tag() for _ in range(rng.randint(1, 4))]
    refs = [weakref.ref(t) for t in tags]
    vs = [ufloat(rng.uniform(-3, 3), .1, t) for t in tags]
    del tags
    ctx.log('release', len(vs))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r2 = random.Random(rng_seed)
        kept = [o for o in uses(r2, vs)]
    ctx.count('evaluations')
    ctx.count('objects_released', len(kept))
    if rng.random() < .5:
        # Results that depend on the last quantity only: the others are released
        alone = vs[-1]*2 + 1
        attempt(alone.std_score, 1)
        del kept, vs
        gc.collect()
        ctx.check(all(w() is None for w in refs[:-1]), 'quantities still referenced '
                  'by unrelated results')
        ctx.check(refs[-1]() is not None, 'variable lost')
        ctx.check([v.tag for v in alone.derivatives] == [refs[-1]()], 'variable lost')
        del alone
    else:
        del kept, vs
    after = live()
    alive = [w for w in refs if w() is not None]
    ctx.check(not alive, 'quantities are not released', alive=len(alive))
    ctx.check(after <= before, 'numbers with uncertainties are not released',
              before=before, after=after)
    ctx.distinct('release', rng_seed)


def growth(ctx):
    "Memory does not grow when the same operations are repeated on new values."
    rng = ctx.rng
    k = rng.randrange(13)
    a, b = ufloat(1.25, .25), ufloat(-2.5, .125)
    w = wrap(lambda x, **kw: x*2 + sum(kw.values()))
    w2 = wrap(lambda x, y: x*y, [None, lambda x, y: x])
    arr = numpy.array([a, b])
    i = [0]
    seed = rng.getrandbits(60)
    options = [''.join([rng.choice(['', '', '<', '>', '^', '*<', '0']),
                        rng.choice(['', '', '+', ' ']),
                        rng.choice(['', '12', '30', '1']),
                        rng.choice(['', '', '.3', '.2u', '.0', '.15']),
                        rng.choice(['', 'e', 'f', 'g', '%', 'E', 'F', 'G']),
                        rng.choice(['', 'S', 'P', 'L', 'SL', 'p', 'pS'])])
               for _ in range(8)]

    def other_uses():
        r = random.Random(seed)
        vs = [ufloat(new(), .1, 't'), ufloat(-new(), .3)]
        return uses(r, vs), uses(r, vs[::-1])

    def representations():
        x = ufloat(new(), new()/100)
        return (x.format('.2u'), x.derivatives, x.error_components(),
                attempt(x.std_score, 2.), dir(x),
                attempt(uncertainties.nominal_value, x), attempt(ufloat_fromstr, str(x)),
                attempt(ufloat_fromstr, "a%d" % i[0]), hash(x))

    def arrays():
        m = unumpy.umatrix([[new(), 2.], [3., new()]], [[.1, .2], [.3, .4]])
        u = unumpy.uarray([new(), 2.], [.1, new()])
        return (m.I, m.nominal_values, m.std_devs, unumpy.nominal_values(u), m*m, u + u,
                repr(u), str(m), unumpy.arctan2(u, u), unumpy.isnan(u),
                uncertainties.correlated_values([1, new()], [[1, .5], [.5, 1]]),
                uncertainties.correlation_matrix(list(u)))

    def new():
        i[0] += 1
        return 1. + i[0]*1e-6
    table = [
        ('arithmetic', lambda: ((a + new())*b - a/new()).std_dev),
        ('format', lambda: (str(a*new()), '{:.2uP}'.format(b*new()))),
        ('repr', lambda: repr(a*new() + b)),
        ('wrapped', lambda: (w(a*new(), k=b), w2(a, new()), w2(y=b*new(), x=2))),
        ('umath', lambda: (umath.sin(a*new()), umath.pow(a*new(), new()),
                           umath.atan2(a, new()), umath.fsum([a, new()]),
                           umath.modf(a*new()), umath.ldexp(b*new(), 2))),
        ('creation', lambda: (ufloat(new(), new(), 't'), ufloat_fromstr(
            '%r+/-%r' % (new(), new())))),
        ('copies', lambda: (copy.copy(a*new()), copy.deepcopy(b*new() + a),
                            pickle.loads(pickle.dumps(a*new())))),
        ('comparison', lambda: (a*new() == b, a < new(), covariance_matrix(
            [a*new(), b]))),
        ('arrays', lambda: (arr*new(), unumpy.sin(arr*new()), unumpy.std_devs(
            arr + new()), unumpy.ulinalg.inv([[a*new(), 1.], [2., b]]))),
        ('formats', lambda: [attempt(format, x, o) for o in options
                             for x in [ufloat(new(), new())]]),
        ('formats of arrays', lambda: (representations(), arrays())),
        ('uses', other_uses), ('uses', other_uses),
    ]
    name, f = table[k]
    n = 300 if 'arrays' not in name and name not in ('uses', 'formats') else 100
    for _ in range(400 if n == 300 else 150):
        f()
    gc.collect()
    blocks = [sys.getallocatedblocks()]
    inc = []

    def rounds(n):
        del blocks[:-1], inc[:]
        for _ in range(5):
            for _ in range(n):
                f()
            gc.collect()
            blocks.append(sys.getallocatedblocks())
            inc.append(blocks[-1] - blocks[-2])
    rounds(n)
    if min(inc) >= n/2:
        # Is it a leak, or are caches of the interpreter being filled?
        n *= 3
        rounds(n)
    ctx.log('growth', name, blocks)
    ctx.count('evaluations')
    ctx.check(min(inc) < n/2, 'memory grows with the number of operations',
              operation=name, allocated_blocks=blocks, repetitions=n)
    ctx.distinct('growth', name, seed if name in ('uses', 'formats') else None)


def setup(tier):
    warnings.simplefilter('ignore')


WORKLOADS = [
    ('linear_steps', linear_steps, 420, 4000),
    ('linear_time', linear_time, 60, 500),
    ('deep', deep, 44, 250),
    ('release', release, 700, 14000),
    ('growth', growth, 90, 900),
]
MIN = {'instructions': 10**7, 'objects_released': 1000}
