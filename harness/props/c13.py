"""C13: wrapped functions."""
import fractions, functools, itertools, math
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, wrap
import uncertainties.core as core
from .. import gen, fw
from ..spec import attempt, Raised

PROPERTY = 'C13'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor with recording functions and derivatives, generated '
             'signatures, derivative specifications and call sequences')
NOTE = ('Arguments seen by the function and by each derivative, and results, are '
        'compared with those of a direct call in each call of each history.')
RULE = ('distinct = (signature, derivative specification, call form, kinds of '
        'arguments)')
ASSUMPTIONS = ['Derivatives of positional-or-keyword parameters are given by '
               'position, those of keyword-only and variable keyword parameters by '
               'name (as documented).']

NAMES = ['x', 'y', 'z', 'a', 'f', 'args_', 'name', 'index', 'self', 'value', 'cls',
         'kwargs_', 'derivative', 'linear_part', 'pos', 'step', 'arg_ref']
EXTRA = ['u', 'v', 'w', 'kw', 'func', 'args', 'kwargs', 'n', 'representation']


class Boom(Exception):
    pass


class Callable(list):
    "Derivative that is not a function, and has a false truth value."
    def __init__(self, f):
        list.__init__(self)
        self.f = f

    def __call__(me_, /, *args, **kwargs):
        return me_.f(*args, **kwargs)


class Target(object):
    """A generated function with recording, with its derivatives."""
    def __init__(self, rng):
        self.rng = rng
        names = rng.sample(NAMES, rng.randint(0, 5))
        n = len(names)
        npos = rng.choice([0, 0, 0, rng.randint(0, n)])
        nkw = rng.choice([0, 0, rng.randint(0, n)])
        nkw = min(nkw, n - npos)
        self.posonly = names[:npos]
        self.regular = names[npos:n - nkw]
        self.kwonly = names[n - nkw:]
        pos = self.posonly + self.regular
        ndef = rng.choice([0, 0, rng.randint(0, len(pos))])
        self.defaults = {p: round(rng.uniform(1, 3), 2) for p in pos[len(pos) - ndef:]}
        for p in self.kwonly:
            if rng.random() < .5:
                self.defaults[p] = round(rng.uniform(1, 3), 2)
        self.varargs = rng.random() < .35 or (not names and rng.random() < .5)
        self.varkw = rng.random() < .35 or (not names and not self.varargs)
        self.first = rng.choice(['function', 'function', 'function', 'lambda',
                                 'method', 'classmethod', 'staticmethod', 'decorated',
                                 'closure', 'class', 'object', 'partial'])
        self.calls = []
        self.coefs = {}
        self.mode = 'value'
        self.result_type = rng.choice([float, float, float, numpy.float64,
                                       gen.FloatSub])
        self.make()

    def signature(self):
        parts = []

        def d(p):
            return p + ('=%r' % self.defaults[p] if p in self.defaults else '')
        parts += [d(p) for p in self.posonly]
        if self.posonly:
            parts.append('/')
        parts += [d(p) for p in self.regular]
        if self.varargs:
            parts.append('*rest')
        elif self.kwonly:
            parts.append('*')
        parts += [d(p) for p in self.kwonly]
        if self.varkw:
            parts.append('**others')
        return ', '.join(parts)

    def coef(self, key):
        "Coefficients (linear, quadratic) of the argument with this key."
        if key not in self.coefs:
            h = sum(map(ord, repr(key)))
            self.coefs[key] = (1 + h % 7 + .5*(h % 3), .25*(h % 5))
        return self.coefs[key]

    def collect(self):
        "Expression of the dictionary of the argument values, in the source code."
        e = ['(%r, %s)' % (p, p) for p in self.posonly + self.regular + self.kwonly]
        s = 'dict([%s]' % ', '.join(e)
        if self.varargs:
            s += " + [('rest%d' % i_, x_) for (i_, x_) in enumerate(rest)]"
        if self.varkw:
            s += " + [('others.' + k_, x_) for (k_, x_) in others.items()]"
        return s + ')'

    def evaluate(self, who, values):
        self.calls.append((who, dict(values)))
        if self.mode == 'raise' and who == 'f':
            raise self.exception
        if self.mode == 'object' and who == 'f':
            return self.result
        if who != 'f':
            return self.marker(who, values)
        t = 0.
        for k, v in values.items():
            if isinstance(v, str):
                t += len(v)
            elif isinstance(v, list):
                t += sum(v)
            elif v is not None:
                a, b = self.coef(k)
                t += a*v + b*v*v
        return self.result_type(t)

    def marker(self, who, values):
        "Value of a supplied derivative (arbitrary, but specific)."
        h = sum(map(ord, who))
        t = sum(i*v for i, v in enumerate(
            x for x in values.values() if isinstance(x, (float, int))))
        return 100. + h % 50 + .001*t

    def true_derivative(self, key, values):
        a, b = self.coef(key)
        return a + 2*b*values[key]

    def define(self, who):
        "A function with the signature, that calls evaluate(who, values)."
        rng, kind = self.rng, self.first
        sig, col = self.signature(), self.collect()
        env = {'E_': functools.partial(self.evaluate, who)}
        if kind == 'lambda':
            src = 'F_ = lambda %s: E_(%s)' % (sig, col)
        elif kind in ('method', 'classmethod', 'staticmethod') and who == 'f':
            sep = ', ' if sig else ''
            src = 'class C_(object):\n'
            if kind == 'method':
                src += '    def F_(me_%s%s):\n' % (sep, sig)
            elif kind == 'classmethod':
                src += '    @classmethod\n    def F_(me_%s%s):\n' % (sep, sig)
            else:
                src += '    @staticmethod\n    def F_(%s):\n' % sig
            src += '        "Doc string."\n        return E_(%s)\nF_ = C_().F_\n' % col
        elif kind in ('class', 'object', 'partial') and who == 'f':
            # Other callables, with an implicit first argument:
            sep = ', ' if sig else ''
            src = {'class': 'class F_(float):\n    def __new__(me_%s%s):\n'
                            '        return E_(%s)\n',
                   'object': 'class C_(object):\n    __name__ = "F_"\n'
                             '    def __call__(me_%s%s):\n        return E_(%s)\n'
                             'F_ = C_()\n',
                   'partial': 'import functools\ndef G_(me_%s%s):\n    return E_(%s)\n'
                              'F_ = functools.partial(G_, None)\n'
                              'F_.__name__ = "F_"\n'}[kind] % (sep, sig, col)
        else:
            src = 'def F_(%s):\n    return E_(%s)\n' % (sig, col)
        exec(src, env)
        f = env['F_']
        if kind == 'decorated' and who == 'f':
            g = f

            @functools.wraps(g)
            def f(*args, **kwargs):
                return g(*args, **kwargs)
        return f

    def derivative(self, who):
        f = self.define(who)
        return f if self.rng.random() < .85 else Callable(f)

    def make(self):
        rng = self.rng
        self.f = self.define('f')
        pos = self.posonly + self.regular
        # Derivatives of the positional parameters:
        keys = list(pos)
        nrest = rng.choice([0, 1, 3]) if self.varargs else 0
        keys += ['rest%d' % i for i in range(nrest)]
        style = rng.choice(['none', 'full', 'short', 'holes', 'holes', 'infinite',
                            'infinite holes'])
        self.given = {}
        lst = []
        if style in ('infinite', 'infinite holes') and self.varargs:
            keys = pos + ['rest%d' % i for i in range(12)]
        if style == 'short':
            keys = keys[:rng.randint(0, len(keys))]
        if self.first == 'decorated' and self.regular:
            # The signature of the function is (*args, **kwargs): keyword
            # arguments do not correspond to the positional derivatives.
            style = 'none'
        if style == 'none':
            keys = []
        for k in keys:
            if 'holes' in style and rng.random() < .4:
                lst.append(None)
            else:
                lst.append(self.derivative('d_' + k))
                self.given[k] = 'd_' + k
        self.style = style
        self.lst = lst
        # Keyword parameters:
        kd = {}
        for k in self.kwonly + (['others.' + e for e in EXTRA + self.posonly]
                                if self.varkw else []):
            r = rng.random()
            if r < .45:
                name = k.split('.')[-1]
                kd[name] = self.derivative('d_' + k)
                self.given[k] = 'd_' + k
            elif r < .6:
                kd[k.split('.')[-1]] = None
        self.kd = kd
        form = rng.choice(['list', 'tuple', 'iter', 'generator'])
        if style.startswith('infinite'):
            it = itertools.chain(list(lst), itertools.repeat(None))
        else:
            it = {'list': lambda: lst, 'tuple': lambda: tuple(lst),
                  'iter': lambda: iter(lst), 'generator': lambda: (x for x in lst)
                  }[form]()
        self.saved = list(lst), dict(kd)
        if not lst and not kd and style == 'none' and rng.random() < .5:
            self.w = wrap(self.f)
        elif rng.random() < .3:
            self.w = wrap(self.f, derivatives_kwargs=kd, derivatives_args=it)
        elif kd or rng.random() < .5:
            self.w = wrap(self.f, it, kd)
        else:
            self.w = wrap(self.f, it)

    # ------------------------------------------------------------ calls

    def call(self, value):
        """Generates (args, kwargs, key of each argument) of a call."""
        rng = self.rng
        pos = self.posonly + self.regular
        args, kwargs, keys = [], {}, {}
        np_ = rng.randint(len(self.posonly), len(pos)) if rng.random() < .6 else len(pos)
        npo = len(self.posonly)
        # Positional-only parameters can be omitted if they have defaults:
        stop = np_
        if rng.random() < .25:
            while stop > 0 and pos[stop - 1] in self.defaults and stop == np_ and \
                    all(p in self.defaults for p in pos[stop - 1:]):
                stop -= 1
                break
        for p in pos[:stop]:
            keys[len(args)] = p
            args.append(value(p))
        if self.varargs and stop == len(pos) and rng.random() < .7:
            for i in range(rng.randint(0, 4)):
                keys[len(args)] = 'rest%d' % i
                args.append(value('rest%d' % i))
        kw = []
        for p in pos[stop:]:
            if p in self.posonly:
                continue
            if p in self.defaults and rng.random() < .4:
                continue
            kw.append((p, p))
        for p in self.kwonly:
            if p in self.defaults and rng.random() < .4:
                continue
            kw.append((p, p))
        if self.varkw and rng.random() < .7:
            # (The names of positional-only parameters are available)
            extra = rng.sample(EXTRA, rng.randint(0, 3)) + rng.sample(
                self.posonly, rng.choice([0, 0, len(self.posonly)]))
            for e in extra:
                kw.append((e, 'others.' + e))
        rng.shuffle(kw)
        for name, k in kw:
            keys[name] = k
            kwargs[name] = value(k)
        return args, kwargs, keys


class Values(object):
    def __init__(self, rng, p_uncertain):
        self.rng, self.p = rng, p_uncertain
        self.vars = [ufloat(round(rng.uniform(-3, 3), 2),
                            rng.choice([0, .1, .5, 1.])) for _ in range(3)]
        self.vars[0].std_dev = .25
        self.exprs = [2*self.vars[0] + self.vars[1], -self.vars[2],
                      self.vars[0]*self.vars[1], 0*self.vars[0]]
        self.kinds = []

    def __call__(self, key):
        rng = self.rng
        if rng.random() < self.p:
            x = rng.choice(self.vars + self.exprs)
            self.kinds.append('u')
            return x
        k = rng.random()
        self.kinds.append('p')
        if k < .5:
            return round(rng.uniform(-3, 3), 2)
        if k < .7:
            return rng.randint(-3, 3)
        if k < .8:
            return 'text'
        if k < .9:
            return [1, 2]
        if k < .95:
            return None
        return numpy.float64(1.5)


def expected_derivs(t, args, kwargs, keys, nominal_values):
    "Derivatives with respect to each quantity, and tolerances."
    exp, tol = {}, {}
    for ref, x in list(enumerate(args)) + list(kwargs.items()):
        if not isinstance(x, UFloat):
            continue
        k = keys[ref]
        if k in t.given:
            d, e = t.marker(t.given[k], nominal_values), 0.
        else:
            d = t.true_derivative(k, nominal_values)
            total = sum(abs(v)*10 + v*v for v in nominal_values.values()
                        if isinstance(v, (float, int))) + 50
            v = abs(nominal_values[k])
            e = 1e-6*(total/(v or 1.)) + 1e-6
        for var, dv in x.derivatives.items():
            exp[var] = exp.get(var, 0.) + d*dv
            tol[var] = tol.get(var, 0.) + abs(dv)*(e + 1e-12*abs(d))
    return exp, tol


def same_object(a, b):
    return a is b


def one_call(ctx, t, vals, what):
    rng = ctx.rng
    args, kwargs, keys = t.call(vals)
    ctx.log(what, repr(args), repr(kwargs))
    plain_args = [x.nominal_value if isinstance(x, UFloat) else x for x in args]
    plain_kw = {k: x.nominal_value if isinstance(x, UFloat) else x
                for k, x in kwargs.items()}
    uncertain = [x for x in args + list(kwargs.values()) if isinstance(x, UFloat)]
    # Direct call:
    t.calls = []
    ref = attempt(t.f, *plain_args, **plain_kw)
    direct = list(t.calls)
    t.calls = []
    saved = list(args), dict(kwargs)
    got = attempt(t.w, *args, **kwargs)
    seen = list(t.calls)
    ctx.count('evaluations')
    ctx.check(len(args) == len(saved[0]) and all(map(same_object, args, saved[0])) and
              list(kwargs) == list(saved[1]) and
              all(kwargs[k] is saved[1][k] for k in kwargs),
              'arguments of the caller modified')
    if isinstance(ref, Raised):
        ctx.count('exceptions')
        ctx.check(isinstance(got, Raised), 'exception not propagated', got=got)
        if isinstance(ref.exc, Boom):
            ctx.check(got.exc is ref.exc, 'exception replaced', got=got.exc)
        else:
            ctx.check(type(got.exc) is type(ref.exc), 'type of the exception',
                      got=got.exc, expected=ref.exc)
        return
    if t.mode == 'object' and uncertain:
        # (The function must return a real number: nothing is promised)
        ctx.check(not isinstance(got, UFloat), 'number returned', got=got)
        return
    ctx.check(not isinstance(got, Raised), 'exception raised', got=got)
    def same_call(a, b):
        return list(a) == list(b) and all(
            (a[k] is b[k]) or (type(a[k]) is type(b[k]) and
                               isinstance(a[k], float) and
                               gen.same_float(float(a[k]), float(b[k]))) or
            (type(a[k]) is type(b[k]) and isinstance(a[k], int) and a[k] == b[k])
            for k in a)
    own = [vs for who, vs in seen if who == 'f' and same_call(vs, direct[0][1])]
    ctx.check(own, 'the function is not called with the nominal values',
              got=seen, expected=direct[0][1])
    ctx.count('calls_seen', len(seen))
    if not uncertain:
        ctx.count('plain_calls')
        ctx.check(len(seen) == 1, 'other calls without uncertain arguments', seen=seen)
        ctx.check(got is ref or (type(got) is type(ref) and got == ref),
                  'result without uncertain arguments', got=got, expected=ref)
        if t.mode == 'object':
            ctx.check(got is t.result, 'the original result is not returned', got=got)
        return
    values = direct[0][1]
    ctx.check(isinstance(got, UFloat) and
              gen.same_float(got.nominal_value, float(ref)), 'nominal value', got=got,
              expected=ref)
    used = {keys[r] for r, x in list(enumerate(args)) + list(kwargs.items())
            if isinstance(x, UFloat)}
    for who, vs in seen:
        if who == 'f':
            # Numerical differentiation: only one argument (that has no
            # supplied derivative) is changed
            changed = [k for k in vs if not same_call({k: vs[k]}, {k: values[k]})]
            ctx.check(list(vs) == list(values) and len(changed) <= 1 and
                      all(k in used and k not in t.given for k in changed),
                      'calls of the function for its derivatives', changed=changed,
                      got=vs, expected=values)
        else:
            ctx.count('supplied_derivative_calls')
            ctx.check(same_call(vs, values), 'arguments seen by a derivative',
                      derivative=who, got=vs, expected=values)
            ctx.check(who[2:] in used, 'derivative of a plain argument calculated',
                      derivative=who)
    exp, tol = expected_derivs(t, args, kwargs, keys, values)
    d = got.derivatives
    for v in set(exp) | set(d):
        g = d.get(v, 0.)
        ctx.check(v in exp, 'spurious dependence', variable=v)
        ctx.check(abs(g - exp[v]) <= tol[v], 'derivative of the wrapped function',
                  got=g, expected=exp[v], tolerance=tol[v], variable=v,
                  signature=t.signature(), given=t.given, keys=keys)
    ctx.distinct(t.signature(), t.style, t.first, tuple(sorted(t.given)),
                 tuple(map(str, keys.items())), tuple(vals.kinds[-len(keys):]))


def signatures(ctx):
    rng = ctx.rng
    t = Target(rng)
    ctx.log('def f(%s)' % t.signature(), t.first, t.style, repr(sorted(t.given)))
    vals = Values(rng, rng.choice([.3, .6, .9]))
    for i in range(rng.randint(2, 6)):
        k = rng.random()
        t.mode = 'value' if k < .8 else 'raise' if k < .88 else 'object'
        t.exception = Boom('boom')
        t.result = rng.choice([[1], 'text', None, object(), (1, 2), {}, 1j,
                               numpy.array([1., 2.])])
        one_call(ctx, t, vals, 'call')
    t.mode = 'value'
    # Invalid calls: same error as the function itself
    bad = rng.choice(['missing', 'unknown', 'too many', 'twice'])
    args, kwargs, keys = t.call(vals)
    if bad == 'missing' and args:
        args = args[:-1]
    elif bad == 'unknown':
        kwargs['unknown_'] = vals.vars[0]
    elif bad == 'too many':
        args = args + [vals.vars[0]]*3
    elif args and t.regular:
        kwargs[t.regular[0]] = vals.vars[0]
    def nominal(x):
        return x.n if isinstance(x, UFloat) else x
    r1 = attempt(t.f, *map(nominal, args), **{k: nominal(x) for k, x in kwargs.items()})
    r2 = attempt(t.w, *args, **kwargs)
    if isinstance(r1, Raised):
        ctx.check(isinstance(r2, Raised) and type(r2.exc) is type(r1.exc),
                  'invalid call', got=r2, expected=r1, args=args, kwargs=kwargs)
        ctx.count('invalid_calls')
        one_call(ctx, t, vals, 'call after an invalid one')
    ctx.check((t.lst, t.kd) == t.saved, 'specification of the derivatives modified')


SMOOTH = [
    (lambda x: math.sin(x), lambda x: math.cos(x), lambda x: 1.),
    (lambda x: math.exp(x/3), lambda x: math.exp(x/3)/3, lambda x: math.exp(x/3)),
    (lambda x: x**3 - 2*x, lambda x: 3*x*x - 2, lambda x: abs(x)**3 + 2*abs(x)),
    (lambda x: 1/(1 + x*x), lambda x: -2*x/(1 + x*x)**2, lambda x: 1.),
    (lambda x: math.atan(x), lambda x: 1/(1 + x*x), lambda x: abs(math.atan(x))),
    (lambda x: 5*x + 3, lambda x: 5., lambda x: 5*abs(x) + 3),
    (lambda x: 7, lambda x: 0., lambda x: 7.),
]

# Homogeneous functions: differentiated accurately at any scale
SCALED = [
    (lambda x: x*x, lambda x: 2*x, lambda x: x*x),
    (lambda x: 1/x, lambda x: -1/x/x, lambda x: 1/abs(x)),
    (lambda x: x*x*x, lambda x: 3*x*x, lambda x: abs(x)**3),
    (lambda x: math.sqrt(abs(x)), lambda x: math.copysign(.5/math.sqrt(abs(x)), x),
     lambda x: math.sqrt(abs(x))),
    (lambda x: 3*x, lambda x: 3., lambda x: abs(x)),
    (lambda x: abs(x)/4, lambda x: math.copysign(.25, x), lambda x: abs(x)),
]
SCALED_RANGES = [140, 140, 95, 297, 297, 297]
SMOOTH += SCALED


def numerical(ctx):
    "Numerical differentiation."
    rng = ctx.rng
    f, df, size = rng.choice(SMOOTH)
    x = rng.choice([rng.uniform(-5, 5), rng.uniform(-5, 5), 0., -0., 1., -1.,
                    10**rng.uniform(-3, 0.5), -10**rng.uniform(-3, 0.5),
                    rng.choice([1, -1])*10**rng.uniform(-12, -3)])
    scaled = SMOOTH.index((f, df, size)) >= len(SMOOTH) - len(SCALED)
    if scaled:
        e = SCALED_RANGES[SMOOTH.index((f, df, size)) - len(SMOOTH)]
        e = rng.choice([e, e, 50])
        x = rng.choice([-1, 1])*10**rng.uniform(-e, e)
    v = ufloat(x, .1)
    form = rng.choice(['wrap', 'none', 'keyword', 'partial', 'second', 'method'])
    ctx.log('numerical', form, repr(x), str(SMOOTH.index((f, df, size))))
    if form == 'wrap':
        r = wrap(f)(v)
    elif form == 'none':
        r = wrap(f, [None])(v)
    elif form == 'keyword':
        r = wrap(f)(x=v)
    elif form == 'second':
        r = wrap(lambda a, b, c: f(b) + a + c, [None, None, None])(1., v, 2.)
    elif form == 'method':
        class C(object):
            def g(self, a, x):
                return f(x)
        r = wrap(C().g)(a=1, x=v)
    else:
        d = rng.choice([core.partial_derivative(f, 0),
                        core.NumericalDerivatives(f)[0]])(x)
        d2 = core.partial_derivative(lambda x: f(x), 'x')(x=x)
        r = None
    if scaled:
        if form == 'second':
            return
        ctx.count('scaled')
    ds = [d, d2] if r is None else [r.derivatives[v]]
    # Rounding error for the (relative) step:
    tol = 1e-5*abs(df(x)) + 1e-7*(
        size(x)/(abs(x) or 1.) + (form in ('second',) and 3/(abs(x) or 1.))) + (0 if scaled else 1e-7)
    for d in ds:
        ctx.check(abs(d - df(x)) <= tol, 'numerical derivative', got=d,
                  expected=df(x), tolerance=tol)
    if r is not None and form != 'second':
        ctx.check(gen.same_float(r.n, float(f(x))), 'nominal value')
    ctx.count('evaluations')
    ctx.count('numerical_derivatives', len(ds))
    ctx.distinct('numerical', form, repr(x), SMOOTH.index((f, df, size)))


BUILTINS = [
    (math.sin, [math.cos], 1), (math.sin, [], 1), (math.hypot, [], 2),
    (math.pow, [], 2), (math.atan2, [None, None], 2), (max, [], 3), (min, [], 2),
    (abs, [lambda x: 1.], 1), (math.fsum, None, 0), (numpy.sin, [numpy.cos], 1),
    (numpy.hypot, [], 2), (math.floor, [lambda x: 0.], 1), (math.fabs, [], 1),
    (numpy.add, [lambda x, y: 1.]*2, 2), (math.copysign, [], 2), (pow, [], 2),
    (math.ldexp, [lambda x, y: 2.**y, None], None),
]


def builtins_(ctx):
    "Functions implemented in C (often without signature)."
    rng = ctx.rng
    f, ds, n = rng.choice(BUILTINS)
    if ds is None:
        n, ds, f = 1, [lambda l: 1.], (lambda l: math.fsum([l, 1.]))
    w = wrap(f, ds) if rng.random() < .5 else wrap(f, iter(ds))
    ctx.log('builtin', f.__name__, str(len(ds)))
    for _ in range(3):
        if n is None:
            args = [ufloat(rng.uniform(.5, 3), .1), rng.randint(-3, 3)]
        else:
            args = [ufloat(round(rng.uniform(.5, 3), 3), .1) if rng.random() < .6
                    else round(rng.uniform(.5, 3), 3) for _ in range(n)]
        vals = [getattr(a, 'nominal_value', a) for a in args]
        if len(set(vals)) < len(vals):
            raise fw.Skip()
        r, ref = w(*args), f(*vals)
        ctx.count('evaluations')
        if not any(isinstance(a, UFloat) for a in args):
            ctx.check(type(r) is type(ref) and r == ref, 'plain result', got=r)
            continue
        ctx.check(isinstance(r, UFloat) and gen.same_float(r.n, float(ref)),
                  'nominal value', got=r, expected=ref, f=f.__name__)
        for i, a in enumerate(args):
            if isinstance(a, UFloat):
                if i < len(ds) and ds[i] is not None:
                    e = float(ds[i](*vals))
                else:
                    h = 1e-5
                    up, lo = list(vals), list(vals)
                    up[i] += h
                    lo[i] -= h
                    e = (float(f(*up)) - float(f(*lo)))/2/h
                g = r.derivatives[a]
                if f in (max, min, math.copysign) and abs(
                        sorted(vals)[-1] - sorted(vals)[0]) < 1e-3:
                    continue
                if f in (max, min) and any(
                        abs(x - y) < 1e-3 for x, y in itertools.combinations(vals, 2)):
                    continue
                ctx.check(abs(g - e) <= 1e-5*(1 + abs(e)), 'derivative', f=f.__name__,
                          got=g, expected=e, args=args)
        ctx.distinct('builtin', f.__name__, tuple(
            isinstance(a, UFloat) for a in args), tuple(vals))
    e1, e2 = attempt(f, *vals, nope=1), attempt(w, *args, nope=1)
    ctx.check(isinstance(e1, Raised) and isinstance(e2, Raised) and
              isinstance(e2.exc, TypeError), 'invalid keyword', got=e2)


def composition(ctx):
    "Wrapped functions used inside other constructions."
    rng = ctx.rng
    calls = []

    def f(x, y=2.):
        calls.append((x, y))
        return x*y + 1

    w = wrap(f, [lambda x, y=2.: y, lambda x, y=2.: x])
    v, u = ufloat(rng.uniform(1, 3), .1), ufloat(rng.uniform(1, 3), .2)
    ctx.log('composition', v.n, u.n)
    ctx.count('evaluations')
    # Nested calls:
    r = w(w(v, u), y=w(u))
    a, b = v.n*u.n + 1, u.n*2 + 1
    ctx.check(gen.close(r.n, a*b + 1, 1e-14), 'nested: value')
    ctx.check(gen.close(r.derivatives[v], b*u.n, 1e-12) and
              gen.close(r.derivatives[u], b*v.n + a*2, 1e-12), 'nested: derivatives',
              got=r.derivatives)
    # A wrapped wrapped function
    w2 = wrap(w)
    d = w2(v, u).derivatives
    ctx.check(gen.close(d[v], u.n, 1e-5) and gen.close(d[u], v.n, 1e-5),
              'wrapped twice')
    # Vectorization and functional tools:
    arr = numpy.vectorize(w, otypes=[object])(numpy.array([v, u, 1.], dtype=object),
                                              3.)
    ctx.check(isinstance(arr[0], UFloat) and arr[0].derivatives == {v: 3.} and
              arr[1].derivatives == {u: 3.} and arr[2] == 4., 'vectorized', got=arr)
    p = functools.partial(w, y=u)
    ctx.check(p(v).derivatives == {v: u.n, u: v.n} and p(2.).derivatives == {u: 2.},
              'partial')
    ctx.check([x.derivatives for x in map(w, [v, u], [4., 5.])] == [{v: 4.}, {u: 5.}],
              'map')
    # Same argument several times:
    ctx.check(gen.close(w(v, v).derivatives[v], 2*v.n, 1e-14), 'same argument twice')
    ctx.check(gen.close(w(v, y=v).derivatives[v], 2*v.n, 1e-14),
              'same argument twice')
    # Results that are not of type float:
    for t in (fractions.Fraction, int, numpy.float64, numpy.float32, numpy.int64, gen.FloatSub,
              bool, numpy.longdouble):
        k = rng.randint(1, 50)
        g = wrap(lambda x, y=0, k=k, t=t: t(k)/2 if t is not int and t is not bool else t(k),
                 [lambda x, y=0: 3., lambda x, y=0: 4.])
        # (NumPy types become floats when divided by an integer)
        e = g(2.)
        r = g(v, y=u)
        ctx.check(isinstance(r, UFloat) and r.n == float(e) and
                  r.derivatives == {v: 3., u: 4.}, 'type of the result', type=t, got=r)
        ctx.check(isinstance(g(2.), type(e)), 'type of the plain result', type=t)
        ctx.count('result_types')
    # Later updates:
    r = w(v, 3)
    v.std_dev = .5
    ctx.check(gen.close(float(r.std_dev), 1.5, 1e-14), 'update')
    # The dictionary of the caller is not changed:
    kw = {'x': v, 'y': u}
    w(**kw)
    ctx.check(kw['x'] is v and kw['y'] is u, 'dictionary of the caller')
    # Many wrapped functions do not interfere:
    ws = [wrap(lambda x, k=k: k*x, [lambda x, k=k: float(k)]) for k in range(5)]
    rng.shuffle(ws)
    ctx.check(sorted(g(v).derivatives[v] for g in ws) == [0., 1., 2., 3., 4.],
              'several wrapped functions')
    ctx.distinct('composition', v.n, u.n)


def large(ctx):
    "Functions with many arguments: positional, variable, keywords."
    rng = ctx.rng
    n = rng.choice([rng.randint(6, 40), rng.randint(20, 130), rng.randint(100, 400)])
    cs = [round(rng.uniform(1, 3), 3) for _ in range(n)]
    names = ['p%d' % i for i in range(n)]
    form = rng.choice(['varargs', 'named', 'named', 'keywords', 'kwonly'])
    env = {'cs': dict(zip(names, cs))}
    if form == 'varargs':
        def f(*args):
            return sum(c*a*a for c, a in zip(cs, args))
    elif form == 'keywords':
        def f(**kwargs):
            return sum(cs[int(k[1:])]*a*a for k, a in sorted(kwargs.items()))
    else:
        code = 'def f(%s%s):\n    return sum(cs[k]*a*a for k, a in (%s,))' % (
            '*, ' if form == 'kwonly' else '', ', '.join(names),
            ', '.join('(%r, %s)' % (k, k) for k in names))
        exec(code, env)
        f = env['f']
    # The derivatives (exact ones are marked by a factor)
    given = rng.choice([0, 0, rng.randint(0, n), n])
    which = set(range(given)) if rng.random() < .6 else set(rng.sample(range(n), given))

    def deriv(i):
        def d(*args, **kwargs):
            x = kwargs[names[i]] if names[i] in kwargs else args[i]
            return 1000*cs[i]*x
        return d
    if form in ('varargs', 'named'):
        ds = [deriv(i) if i in which else None for i in range(n)]
        k = rng.random()
        if k < .4:
            while ds and ds[-1] is None:
                ds.pop()
        w = wrap(f, iter(ds)) if k < .2 or k > .8 else wrap(f, ds)
    else:
        w = wrap(f, derivatives_kwargs={names[i]: deriv(i) for i in which}) \
            if which else wrap(f)
    xs = [rng.uniform(.5, 2) for _ in range(n)]
    p = rng.choice([.05, .5, 1])
    unc = [i for i in range(n) if rng.random() < p] or [n - 1]
    args = list(xs)
    for i in unc:
        args[i] = ufloat(xs[i], .1)
    by_name = form in ('keywords', 'kwonly')
    npos = 0 if by_name else n if form == 'varargs' else rng.choice([n, n, rng.randint(0, n)])
    order = list(range(npos, n))
    rng.shuffle(order)
    ctx.log('large', form, n, len(which), npos, len(unc))
    for _ in range(2):
        r = attempt(w, *args[:npos], **{names[i]: args[i] for i in order})
        ctx.count('evaluations')
        ctx.check(isinstance(r, UFloat), 'result', got=r, form=form, n=n)
        ref = f(*xs[:npos], **{names[i]: xs[i] for i in order})
        ctx.check(gen.close(r.n, ref, 1e-13), 'nominal value', got=r.n, expected=ref)
        d = r.derivatives
        ctx.check(len(d) == len(unc), 'variables', got=len(d), expected=len(unc))
        for i in unc:
            # (Rounding errors of the sum, for the numerical derivatives)
            e, tol = (1000*cs[i]*xs[i], 1e-9) if i in which else (2*cs[i]*xs[i], 1e-5*n)
            ctx.check(abs(d[args[i]] - e) <= tol, 'derivative', index=i, n=n, form=form,
                      got=d[args[i]], expected=e, supplied=i in which)
        ctx.count('large_derivatives', len(unc))
    if n == len(unc):
        ctx.count('all_uncertain')
    ctx.distinct('large', form, n, len(which), npos, len(unc))


WORKLOADS = [
    ('signatures', signatures, 80000, 2000000),
    ('numerical', numerical, 20000, 400000),
    ('builtins', builtins_, 8000, 200000),
    ('composition', composition, 2000, 40000),
    ('large', large, 800, 12000),
]
MIN = {'large_derivatives': 10000, 'scaled': 1000, 'supplied_derivative_calls': 10000, 'numerical_derivatives': 10000,
       'plain_calls': 1000, 'exceptions': 1000, 'invalid_calls': 1000}
