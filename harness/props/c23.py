"""C23: with and without NumPy."""
import json, math, os, struct, subprocess, sys
import uncertainties
from .. import fw, gen

PROPERTY = 'C23'
LEVEL = 'exploration'
TECHNIQUE = ('differential runtime monitor: the same generated programs are executed in '
             'interpreters with NumPy and in interpreters where it cannot be imported; the '
             'transcripts (values, types, derivatives, texts, exceptions, warnings) are '
             'compared')
NOTE = ('NumPy is made absent in three ways: no site-packages, ImportError raised by an '
        'import hook, and None in sys.modules. Numbers also travel between the two '
        'configurations through pickle.')
RULE = 'distinct = (way of removing NumPy, operations of the program)'
ASSUMPTIONS = ['Only objects from the Python standard library and from uncertainties are '
               'handled by the programs.']

WAYS = ['none', 'finder', 'site']
ARRAY_FEATURES = ['correlated_values', 'correlated_values_norm', 'correlation_matrix']
_servers = {}


def server(how):
    k = os.getpid(), how
    if k not in _servers:
        import past
        env = dict(os.environ, PYTHONHASHSEED='random', PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        _servers[k] = subprocess.Popen(
            [sys.executable] + (['-S'] if how == 'site' else []) +
            [os.path.join(fw.VERIF, 'harness', 'scalar_server.py'), how, fw.REPO,
             os.path.dirname(os.path.dirname(past.__file__))],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
    return _servers[k]


def execute(how, program):
    s = server(how)
    data = json.dumps(program).encode()
    try:
        s.stdin.write(struct.pack('<Q', len(data)) + data)
        s.stdin.flush()
        h = s.stdout.read(8)
    except BrokenPipeError:
        h = b''
    except BaseException:  # (Watchdog)
        _servers.pop((os.getpid(), how)).kill()
        raise
    if len(h) < 8:
        del _servers[os.getpid(), how]
        raise fw.Violation('the interpreter %s NumPy died or did not start'
                           % ('with' if how == 'with' else 'without'))
    return json.loads(s.stdout.read(struct.unpack('<Q', h)[0]))




class Gen(object):
    """Generator of programs (lists of lines)."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.objs = []  # Names of the numbers with uncertainties
        self.lines = []
        self.used = set()

    def real(self):
        r = self.rng
        k = r.random()
        if k < .5:
            x = r.choice([r.uniform(-10, 10), r.uniform(0, 1), float(r.randint(-5, 20))])
        elif k < .7:
            x = r.choice(gen.SPECIAL)
        elif k < .85:
            x = r.choice([-1, 1])*10**r.uniform(-30, 30)
        else:
            return str(r.choice([0, 1, 2, -3, 5, 10, True, False, 10**20, -1]))
        if x != x or math.isinf(x):
            return "float('%r')" % x
        return repr(x)

    def std(self):
        r = self.rng
        k = r.random()
        if k < .7:
            return repr(r.choice([r.uniform(0, 2), 10**r.uniform(-5, 3), .5, 1.]))
        if k < .8:
            return '0'
        if k < .9:
            return repr(10**r.uniform(-200, 200))
        return r.choice(["float('nan')", "float('inf')", '1', 'True', '5e-324', '-1', '-0.0'])

    def odd(self):
        "Unusual operands"
        return self.rng.choice(["'a'", 'None', '[1, 2]', '(1,)', '1j', '2+0j', 'Fraction(1, 3)',
                                "Decimal('1.5')", 'object()', 'range(3)', '{}', "b'1'",
                                '10**400', 'Ellipsis', 'float', 'NotImplemented'])

    def obj(self):
        return self.rng.choice(self.objs)

    def any(self):
        r = self.rng.random()
        return self.obj() if r < .6 else self.real() if r < .95 else self.odd()

    def new(self, text, what, keep=True):
        self.used.add(what)
        if keep:
            self.n += 1
            v = 'o%d' % self.n
            self.lines.append('%s = %s' % (v, text))
            self.lines.append(v)
            self.objs.append(v)
        else:
            self.lines.append(text)

    def first(self):
        self.new('ufloat(%s, %r, %r)' % (self.real(), self.rng.uniform(0, 2), 'first'),
                 'ufloat')

    def create(self):
        r = self.rng
        tag = r.choice(['', '', ", 't%d'" % self.n, ", tag='u'", ', 3', ', None'])
        text = r.choice(['1.2+/-0.3', '3.14(15)', '-2(1)', '(1.5+/-.5)e2', '2', '5+/-0',
                         '1e3', 'nan', 'inf', 'nan+/-1', '12.3(4.5)', '1(nan)', '2±1',
                         '(3.1±0.2)×10⁻³', '1.0(2)e-3', ' 3 ', '0.1(inf)', '12(3)%', 'a',
                         '', '1+/-', '(1', '1+/-2e400', '1e400', '20 +/- 3 %'])
        self.pick('create', [
            lambda: ('ufloat(%s, %s%s)' % (self.real(), self.std(), tag), True),
            lambda: ('ufloat(%s, %s%s)' % (self.real(), self.std(), tag), True),
            lambda: ('ufloat_fromstr(%r%s)' % (text, tag), True),
            lambda: ('ufloat((%s, %s)%s)' % (self.real(), self.std(), tag), True),
            lambda: ('ufloat(%r%s)' % (text, tag), True),
            lambda: ('Variable(%s, %s%s)' % (self.real(), self.std(), tag), True),
            lambda: ('AffineScalarFunc(%s, LinearCombination({}))' % self.real(), True),
            lambda: ('ufloat(%s, %s)' % (self.odd(), self.std()), False),
            lambda: ('ufloat(%s, %s)' % (self.real(), self.odd()), False)])

    def pick(self, what, options):
        i = self.rng.randrange(len(options))
        text, keep = options[i]()
        self.new(text, '%s%d' % (what, i), keep)

    def operate(self):
        r = self.rng
        op = r.choice(['+', '-', '*', '/', '**', '**', '//', '%'])
        x, y = (self.obj(), self.any()) if r.random() < .6 else (self.any(), self.obj())
        k = r.random()
        if k < .7:
            self.new('(%s) %s (%s)' % (x, op, y), op)
        elif k < .8:
            self.new('(%s)(%s)' % (r.choice(['-', '+', 'abs']), self.obj()), 'unary')
        elif k < .85:
            o = self.obj()
            self.lines.append('%s %s= %s' % (o, op, self.any()))
            self.lines.append(o)
            self.used.add('in-place')
        elif k < .9:
            self.new('divmod(%s, %s)' % (x, y), 'divmod', False)
        else:
            self.new('pow(%s, %s)' % (x, y), 'pow')

    def compare(self):
        r = self.rng
        x, y = (self.obj(), self.any()) if r.random() < .6 else (self.any(), self.obj())
        self.pick('compare', [
            lambda: ('(%s) %s (%s)' % (x, r.choice(['<', '<=', '>', '>=', '==', '!=']), y),
                     False),
            lambda: ('(%s) %s (%s)' % (x, r.choice(['<', '<=', '>', '>=', '==', '!=']), y),
                     False),
            lambda: ('bool(%s)' % self.obj(), False),
            lambda: ('hash(%s) == hash(%s)' % (x, x), False),
            lambda: ('len({%s, %s, %s})' % (self.obj(), self.obj(), self.obj()), False),
            lambda: ('sorted([%s, %s, %s])' % (self.obj(), self.any(), self.obj()), False),
            lambda: ('%s([%s, %s, %s])' % (r.choice(['min', 'max', 'sum', 'any', 'all']),
                                           self.obj(), self.any(), self.obj()), False),
            lambda: ('%s in [%s, %s]' % (self.any(), self.obj(), self.obj()), False)])

    def functions(self):
        r = self.rng
        if r.random() < .1:
            self.new('sorted(umath.__all__)', 'umath.__all__', False)
        name = r.choice(UMATH)
        k = r.random()
        if name in ('atan2', 'hypot', 'pow', 'copysign', 'fmod'):
            args = [self.any(), self.any()]
        elif name in ('log',):
            args = [self.any()] + ([self.any()] if r.random() < .5 else [])
        elif name == 'fsum':
            args = ['[%s]' % ', '.join(self.any() for _ in range(r.randint(0, 4)))]
        elif name == 'ldexp':
            args = [self.any(), r.choice(['2', '-3', '0', '30', self.obj()])]
        else:
            args = [self.any()]
        if k < .05:
            args = args[1:] if r.random() < .5 else args + [self.any()]
        text = 'umath.%s(%s)' % (name, ', '.join(args))
        self.new(text, 'umath.' + name, name not in ('frexp', 'modf'))

    def spec(self):
        r = self.rng
        return (r.choice(['']*5 + ['*>', '<', '^', '=', 'x^']) + r.choice(['', '+', ' ', '-']) +
                r.choice(['', '0']) + r.choice(['']*4 + ['1', '20', '30']) +
                r.choice(['', '', ',']) +
                r.choice(['', '', '.2', '.3', '.0', '.1']) + r.choice(['', 'u', 'u']) +
                r.choice(['', 'f', 'e', 'g', 'G', 'E', '%', 'n']) +
                r.choice(['', '', 'S', 'P', 'L', 'p', 'LS', 'PS', 'r', 'SL']))

    def text(self):
        r = self.rng
        o = self.obj()
        self.pick('text', [
            lambda: ('str(%s)' % o, False), lambda: ('repr(%s)' % o, False),
            lambda: ('print(%s)' % o, False),
            lambda: ('format(%s, %r)' % (o, self.spec()), False),
            lambda: ('format(%s, %r)' % (o, self.spec()), False),
            lambda: ('%s.format(%r)' % (o, self.spec()), False),
            lambda: ("'{:%s}'.format(%s)" % (self.spec(), o), False),
            lambda: ("'%%s %%r %%5.2f' %% (%s, %s, 3)" % (o, o), False),
            lambda: ("'%%f' %% %s" % o, False),
            lambda: ('ufloat_fromstr(str(%s))' % o, True),
            lambda: ('ufloat_fromstr(format(%s, %r))' % (o, self.spec()), True),
            lambda: ('PDG_precision(%s)' % self.std(), False)])

    def observe(self):
        r = self.rng
        o = self.obj()
        few = ', '.join(self.obj() for _ in range(r.randint(0, 4)))
        self.pick('observe', [
            lambda: ('covariance_matrix([%s])' % few, False),
            lambda: ('uncertainties.covariance_matrix([%s])' % few, False),
            lambda: ('nominal_value(%s)' % self.any(), False),
            lambda: ('std_dev(%s)' % self.any(), False),
            lambda: ('%s.std_score(%s)' % (o, self.any()), False),
            lambda: ('%s.position_in_sigmas(%s)' % (o, self.any()), False),
            lambda: ('%s.error_components()' % o, False),
            lambda: ('%s.derivatives' % o, False),
            lambda: ('%s.derivatives[%s]' % (o, self.obj()), False),
            lambda: ('isinstance(%s, UFloat)' % self.any(), False),
            lambda: ('%s.std_dev()' % o, False),
            lambda: ('(%s.n, %s.s, %s.nominal_value)' % (o, o, o), False),
            lambda: ('%s(%s)' % (r.choice(['float', 'int', 'complex', 'round', 'math.floor',
                                           'math.sin', 'math.isnan', 'cmath.exp', 'len',
                                           'Fraction', 'iter', 'math.trunc', 'math.ceil',
                                           'math.sqrt', 'operator.index']), o), False),
            lambda: ('round(%s, 2)' % o, False),
            lambda: ('sorted(a for a in dir(%s) if not a.startswith("__"))' % o, False),
            lambda: ('(%s).%s' % (o, r.choice(['real', 'imag', 'conjugate()', 'shape', 'T',
                                               'tag', 'dtype', 'sum()', 'mean()', 'sqrt()',
                                               'is_integer()', '__array_priority__',
                                               '__float__()', 'x'])), False)])

    def modify(self):
        o = self.obj()
        self.pick('modify', [
            lambda: ('%s.std_dev = %s' % (o, self.std()), False),
            lambda: ('%s.set_std_dev(%s)' % (o, self.std()), False),
            lambda: ('%s.tag = %r' % (o, self.rng.choice(['new', None, 3])), False),
            lambda: ('%s.nominal_value = 3' % o, False),
            lambda: ('%s.new_attribute = 3' % o, False),
            lambda: ('%s.std_dev = %s' % (o, self.odd()), False)])

    def duplicate(self):
        r = self.rng
        o, p = self.obj(), self.obj()
        proto = r.randint(0, 5)
        self.pick('copy', [
            lambda: ('copy.copy(%s)' % o, True), lambda: ('copy.deepcopy(%s)' % o, True),
            lambda: ('copy.deepcopy([%s, %s])' % (o, p), False),
            lambda: ('pickle.loads(pickle.dumps(%s, %d))' % (o, proto), True),
            lambda: ('pickle.loads(pickle.dumps([%s, %s, %s - %s], %d))' % (o, p, o, p, proto),
                     False),
            lambda: ('%s - copy.copy(%s)' % (o, o), True)])

    def wraps(self):
        r = self.rng
        f = r.choice(['math.sin', 'math.hypot', 'math.exp', 'math.atan2', 'math.log',
                      'abs', 'float', 'max', 'math.pow', 'sum', 'int',
                      'lambda x, y=2.: x*y + 1', 'lambda *a: sum(a)',
                      'lambda x, **k: x + sum(k[n] for n in sorted(k))',
                      'lambda x: [x, 2*x]', 'lambda x: complex(x, 1)', 'lambda x: 1/0',
                      'lambda x, y: (x > y)*1.', 'lambda x: str(x)', 'lambda x: None'])
        if f == 'sum':
            args = '[%s, %s]' % (self.any(), self.any())
        else:
            args = ', '.join(self.any() for _ in range(r.choice([1, 1, 2, 2, 3])))
        if 'k[n]' in f and r.random() < .7:
            args = '%s, a=%s, b=%s' % (self.any(), self.any(), self.any())
        derivs = r.choice(['']*4 + [', [None]', ', [None, lambda x, y: x]',
                                    ', [lambda *a: 2.]', ', [math.cos, None]',
                                    ', None', ', [lambda *a: None]', ', []',
                                    ", [lambda *a: float('nan')]", ', 3'])
        if 'k[n]' in f and r.random() < .5:
            derivs = ", [None], {'a': lambda x, **k: 1.}"
        self.new('wrap(%s%s)(%s)' % (f, derivs, args), 'wrap ' + f)

    def large_program(self):
        """
        Sums and products of many variables, long tags and texts.

        (Without covariances: the order of their terms is not defined.)
        """
        r = self.rng
        self.first()
        for _ in range(r.randint(2, 5)):
            n = r.choice([r.randint(2, 12), r.randint(9, 40), r.randint(30, 150)])
            a, b, c = (r.choice([r.uniform(.1, 2), 10**r.uniform(-3, 3)]) for _ in range(3))
            seq = ("[ufloat(%r + %r*(k %% 7), %r*(1 + k*k %% 11)%s) for k in range(%d)]"
                   % (a, b, c, r.choice(['', ", 'v%d' % k", ", 'x'*k"]), n))
            tag = ''.join(r.choice('abc é\t') for _ in range(n))
            digits = ''.join(r.choice('0123456789') for _ in range(n))
            self.pick('large', [
                lambda: ('sum(%s)' % seq, True),
                lambda: ('umath.fsum(%s)' % seq, True),
                lambda: ('functools.reduce(operator.mul, %s)' % seq, True),
                lambda: ('functools.reduce(operator.truediv, %s)' % seq, True),
                lambda: ('sum(x*y for x, y in zip(%s, %s))' % (seq, seq), True),
                lambda: ('sum(umath.sin(x)*%r for x in %s)' % (a, seq), True),
                lambda: ('functools.reduce(umath.hypot, %s)' % seq, True),
                lambda: ('wrap(lambda *a: sum(a))(*%s)' % seq, True),
                lambda: ('max(%s)' % seq, True),
                lambda: ('ufloat(%s, %r, %r)' % (self.real(), b, tag), True),
                lambda: ('ufloat_fromstr(%r, tag=%r)' % ('1.' + digits + '(2)', tag), True),
                lambda: ('ufloat_fromstr(%r)' % (digits + '.5+/-' + digits + 'e-3'), True)])
        for _ in range(r.randint(3, 8)):
            o, p = self.obj(), self.obj()
            self.pick('large use', [
                lambda: ('%s + %s' % (o, p), True), lambda: ('%s*%s' % (o, p), True),
                lambda: ('%s/%s' % (o, p), True), lambda: ('umath.exp(%s/1e3)' % o, True),
                lambda: ('%s - %s' % (o, p), True), lambda: ('%s**2' % o, True),
                lambda: ('pickle.loads(pickle.dumps(%s, %d))' % (o, r.randint(0, 5)), True),
                lambda: ('copy.deepcopy(%s)' % o, True), lambda: ('copy.copy(%s)' % o, True),
                lambda: ('(str(%s), repr(%s))' % (o, p), False),
                lambda: ("format(%s, '.%d%s')" % (o, r.randint(0, 60),
                                                  r.choice(['f', 'e', 'g', 'u', 'uS', ''])),
                         False),
                lambda: ('%s.std_score(%s)' % (o, self.real()), False),
                lambda: ('[%s %s %s, %s == %s]' % (o, r.choice('<>'), p, o, p), False),
                lambda: ('%s.error_components()' % o, False)])
        return self.lines

    def program(self, n):
        r = self.rng
        self.first()
        self.create()
        kinds = [self.create, self.operate, self.operate, self.operate, self.compare,
                 self.functions, self.functions, self.text, self.text, self.observe,
                 self.modify, self.duplicate, self.wraps]
        for _ in range(n):
            r.choice(kinds)()
        return self.lines


def setup(tier):
    global UMATH
    from uncertainties import umath
    UMATH = sorted(umath.__all__)


def compare(ctx, program, how):
    ctx.log('without NumPy', how)
    for line in program:
        ctx.log(line)
    a, b = execute('with', program), execute(how, program)
    ctx.check(len(a) == len(b) == len(program), 'length')
    for line, x, y in zip(program, a, b):
        ctx.check(x == y, 'difference between the configurations', line=line, with_numpy=x,
                  without=y)
        ctx.count('lines')
        ctx.count('exceptions' if x[0][0] == 'raised' else 'results')
        if x[0][0] in ('AffineScalarFunc', 'Variable'):
            ctx.count('numbers')
        if x[2]:
            ctx.count('with_warnings')
    return a


def programs(ctx):
    g = Gen(ctx.rng)
    program = g.program(ctx.rng.randint(3, 25))
    how = ctx.rng.choice(WAYS)
    compare(ctx, program, how)
    ctx.count('without_' + how)
    ctx.distinct(how, sorted(g.used))


def functions(ctx):
    "Long series of calls of mathematical functions and operators, on many arguments."
    g = Gen(ctx.rng)
    g.first()
    g.create()
    for _ in range(40):
        ctx.rng.choice([g.functions, g.operate, g.wraps])()
    how = ctx.rng.choice(WAYS)
    compare(ctx, g.lines, how)
    ctx.distinct(how, sorted(g.used))


def large(ctx):
    g = Gen(ctx.rng)
    lines = g.large_program()
    how = ctx.rng.choice(WAYS)
    compare(ctx, lines, how)
    ctx.count('large')
    ctx.distinct('large', how, sorted(g.used), len(lines))


def travel(ctx):
    "Numbers pickled in a configuration and restored in the other one."
    rng = ctx.rng
    g = Gen(rng)
    program = g.program(rng.randint(2, 10))
    box = '[%s]' % ', '.join(g.obj() for _ in range(rng.randint(1, 5)))
    how = rng.choice(WAYS)
    first, second = ('with', how) if rng.random() < .5 else (how, 'with')
    proto = rng.randint(0, 5)
    # (Lines that fail leave names undefined)
    names = ["_get('%s')" % n for n in box[1:-1].split(', ')]
    box = '[%s]' % ', '.join(names)
    program = program + ['def _get(name): return globals().get(name, 0)', box,
                         'base64.b64encode(pickle.dumps(%s, %d)).decode()' % (box, proto)]
    ctx.log('travel', first, second)
    for line in program:
        ctx.log(line)
    t = execute(first, program)
    here, data = t[-2][0], t[-1][0]
    if here[0] == 'raised':
        ctx.count('not_pickled')
        return
    if data[0] == 'raised':
        # (Example: the tag or an operand cannot be pickled)
        ctx.count('not_pickled')
        ctx.check('ickle' in data[2] + data[3], 'pickling', got=data)
        return
    assert data[0] == 'str', data
    back = execute(second, ['pickle.loads(base64.b64decode(%s))' % data[1]])[0][0]
    ctx.check(back == here, 'restored numbers', got=back, expected=here)
    ctx.count('travels')
    ctx.distinct('travel', first, second, sorted(g.used))


ALL = ['from uncertainties import *', 'from uncertainties.umath import *',
       'from uncertainties.core import *']


def package(ctx):
    "Contents of the package; array features."
    rng = ctx.rng
    how = rng.choice(WAYS)
    ctx.log('package', how)
    common = ['import uncertainties.umath', 'import uncertainties.core',
              'from uncertainties import umath, ufloat, UFloat, covariance_matrix, wrap, '
              'nominal_value, std_dev, ufloat_fromstr',
              'from uncertainties import umath_core', 'import uncertainties.lib1to2',
              'importlib.import_module("uncertainties.lib1to2.fixes.fix_ufloat")',
              'sorted(umath.__all__)', 'sorted(umath.many_scalars_to_scalar_funcs)',
              'uncertainties.__version__', 'uncertainties.__doc__', 'umath.__doc__',
              'sorted(n for n in vars(UFloat) if n not in ["__dict__"])',
              'sorted(n for n in dir(umath) if not n.startswith("_"))'] + ALL
    compare(ctx, rng.sample(common, len(common)), how)
    full, bare = [execute(h, ['sorted(uncertainties.__all__)',
                              'sorted(uncertainties.core.__all__)'])
                  for h in ('with', how)]
    for x, y in zip(full, bare):
        x, y = [[n[1] for n in t[0][1:]] for t in (x, y)]
        ctx.check(sorted(set(x) - set(y)) == sorted(map(repr, ARRAY_FEATURES)) and
                  not set(y) - set(x), 'exported names', with_numpy=x, without=y)
    # Array features:
    lines = ['import uncertainties.unumpy', 'from uncertainties import unumpy',
             'from uncertainties.unumpy import uarray', 'import uncertainties.unumpy.ulinalg',
             'from uncertainties.unumpy import *'] + \
        ['from uncertainties import ' + n for n in ARRAY_FEATURES]
    rng.shuffle(lines)
    for line, t in zip(lines, execute('with', lines)):
        ctx.check(t[0] == ['done'], 'array feature with NumPy', line=line, got=t)
    for line, t in zip(lines, execute(how, lines)):
        ctx.check(t[0][0] == 'raised' and t[0][1] == 'builtins' and
                  t[0][2] in ('ImportError', 'ModuleNotFoundError'),
                  'array feature without NumPy', line=line, got=t)
        ctx.count('refused')
    # The failed imports have no effect on the rest:
    g = Gen(rng)
    compare(ctx, g.program(5), how)
    ctx.distinct('package', how, sorted(g.used))


WORKLOADS = [
    ('programs', programs, 9600, 400000),
    ('functions', functions, 1600, 80000),
    ('large', large, 800, 30000),
    ('travel', travel, 2400, 120000),
    ('package', package, 240, 2400),
]
CASE_TIMEOUT = 120
MIN = {'large': 300, 'lines': 20000, 'numbers': 8000, 'exceptions': 1000, 'travels': 200, 'refused': 100,
       'without_none': 200, 'without_finder': 200, 'without_site': 200}
