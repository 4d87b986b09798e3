"""Shadow model: forward-mode differentiation executed next to the library.

Each shadow number has the nominal value, the gradient with respect to the
original quantities (indices) and the "absolute gradient" (chain rule on the
absolute values), which bounds rounding errors.
"""
import functools, math
import numpy
from uncertainties import ufloat, UFloat, umath, wrap
from . import gen, spec, refmath

TOL = 1e-8
BIG, SMALL = 1e8, 1e-8


class S(object):
    __slots__ = ('n', 'g', 'a', 'depth')

    def __init__(self, n, g, a, depth=0):
        self.n, self.g, self.a, self.depth = n, g, a, depth


def linear(n, terms):
    "S from (coefficient, S) terms."
    g, a, depth = {}, {}, 0
    for (c, s) in terms:
        depth = max(depth, s.depth + 1)
        for v, d in s.g.items():
            g[v] = g.get(v, 0.) + c*d
        for v, d in s.a.items():
            a[v] = a.get(v, 0.) + abs(c)*d
    return S(n, g, a, depth)


def partial_floats(name, floats):
    """Partial derivatives as floats, or None if this is not a well-conditioned
    point of differentiability."""
    try:
        ps = refmath.partials(name, floats)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if ps is None or any(p is None for p in ps):
        return None
    out = []
    for (d, slack) in ps:
        if slack*refmath.EPS > 1e-10 or abs(d) > 1e6:
            return None
        out.append(float(d))
    return out


def plain_value(name, floats, is_op):
    if is_op:
        f = spec.BINOPS.get(name) or spec.UNOPS.get(name)
    else:
        f = getattr(math, name)
    try:
        r = f(*floats)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if isinstance(r, complex) or not math.isfinite(r) or abs(r) > BIG or (
            r != 0 and abs(r) < SMALL):
        return None
    return r


user_functions = [
    # (function, derivatives, reference derivatives)
    (lambda x, y: x*y + 2*x, [lambda x, y: y + 2, lambda x, y: x],
     lambda x, y: [y + 2, x]),
    (lambda x: 3*x*x - x, [lambda x: 6*x - 1], lambda x: [6*x - 1]),
    (lambda x, y, z: x - y*z, [lambda x, y, z: 1, lambda x, y, z: -z,
                               lambda x, y, z: -y],
     lambda x, y, z: [1., -z, -y]),
]
wrapped_functions = None


def wrapped():
    global wrapped_functions
    if wrapped_functions is None:
        wrapped_functions = [(wrap(f, d), f, r) for f, d, r in user_functions]
    return wrapped_functions


WELL = [f for f in spec.FUNCS1 if f not in ('gamma', 'lgamma', 'tanh')]


class Program(object):
    """A growing straight-line program over (library number, shadow) pairs."""
    def __init__(self, ctx, n_vars, tags=False, zero=.1, moderate=True):
        self.ctx, self.rng = ctx, ctx.rng
        self.vars = []
        self.objs = []
        self.shadows = []
        self.steps = 0
        for i in range(n_vars):
            self.new_variable(zero=zero)

    def new_variable(self, zero=.1, value=None, std=None):
        rng = self.rng
        i = len(self.vars)
        value = gen.moderate(rng) if value is None else value
        std = gen.finite_std(rng, zero) if std is None else std
        v = ufloat(value, std, rng.choice([None, None, 'tag%d' % i, 'tag%d' % i, '', 0, ('a',)]))
        self.vars.append(v)
        self.objs.append(v)
        self.shadows.append(S(value, {i: 1.}, {i: 1.}))
        return len(self.objs) - 1

    def add(self, obj, shadow):
        self.objs.append(obj)
        self.shadows.append(shadow)
        self.steps += 1
        return len(self.objs) - 1

    def pick(self):
        "Index of an operand (recent ones more often)."
        n = len(self.objs)
        if self.rng.random() < .4:
            return self.rng.randrange(max(0, n - 4), n)
        return self.rng.randrange(n)

    def combine(self, what, obj, floats, partials, shadows, value):
        s = linear(value, [(d, sh) for d, sh in zip(partials, shadows)
                           if sh is not None])
        if any(abs(x) > 1e12 for x in s.a.values()):
            return None
        self.ctx.log(what, repr([round(f, 6) for f in floats]))
        return self.add(obj, s)

    def step(self):
        """One random operation; returns the index of the result or None (the
        operation was rejected as out of the ordinary range)."""
        rng = self.rng
        k = rng.random()
        if k < .5:
            return self.binary()
        if k < .56:
            return self.unary()
        if k < .78:
            return self.function()
        if k < .84:
            return self.function2()
        if k < .89:
            return self.sum_like()
        if k < .94:
            return self.wrapped_call()
        return self.special()

    def operand(self, allow_plain=True):
        "(object, float, shadow or None)"
        rng = self.rng
        if allow_plain and rng.random() < .2:
            c = rng.choice([2, 3, -1, .5, 10, 1, -2.5, rng.uniform(-4, 4)])
            # (No small NumPy types: their own arithmetic wraps or rounds)
            k = rng.random()
            if k < .1:
                c = numpy.float64(c)
            elif k < .2:
                c = gen.FloatSub(c)
            elif k < .25:
                c = numpy.int64(c)
            return c, float(c), None
        i = self.pick()
        return self.objs[i], self.shadows[i].n, self.shadows[i]

    def binary(self):
        rng = self.rng
        name = rng.choice(['add', 'sub', 'mul', 'truediv', 'add', 'sub', 'mul',
                           'pow', 'mod', 'floordiv', 'truediv'])
        x, fx, sx = self.operand()
        y, fy, sy = self.operand(allow_plain=sx is not None)
        if name == 'pow' and rng.random() < .7:
            if sx is None:
                return None
            y = fy = rng.choice([2, 3, -1, .5, 1, 0, -2, 1.5])
            fy, sy = float(fy), None
        if name in ('mod', 'floordiv'):
            if fy == 0 or abs(fx/fy) > 1e4 or \
                    abs(fx/fy - round(fx/fy)) < 1e-6:
                return None
        value = plain_value(name, [fx, fy], True)
        if value is None:
            return None
        ps = partial_floats(name, [fx, fy])
        if ps is None:
            # pow with an exact exponent and a negative base:
            if name != 'pow' or sy is not None or fx == 0:
                return None
            p = refmath.partials(name, [fx, fy])
            if p is None or p[0] is None or abs(p[0][0]) > 1e6:
                return None
            ps = [float(p[0][0]), 0.]
        form = rng.random()
        if form < .2:
            r = x
            r = spec.IOPS[name](r, y)
        elif form < .3 and sy is not None and not isinstance(x, numpy.generic):
            r = getattr(y, '__r%s__' % name)(x)
        else:
            r = spec.BINOPS[name](x, y)
        return self.combine(name, r, [fx, fy], ps, [sx, sy], value)

    def unary(self):
        name = self.rng.choice(['neg', 'pos', 'abs'])
        x, fx, sx = self.operand(False)
        value = plain_value(name, [fx], True)
        if fx == 0 or value is None:
            return None
        return self.combine(name, spec.UNOPS[name](x), [fx],
                            partial_floats(name, [fx]), [sx], value)

    def function(self):
        name = self.rng.choice(WELL)
        x, fx, sx = self.operand(False)
        value = plain_value(name, [fx], False)
        if value is None:
            return None
        ps = partial_floats(name, [fx])
        if ps is None:
            return None
        return self.combine(name, getattr(umath, name)(x), [fx], ps, [sx], value)

    def function2(self):
        rng = self.rng
        name = rng.choice(['atan2', 'hypot', 'pow', 'log', 'copysign'])
        n = 2 if name != 'hypot' else rng.choice([2, 3])
        args = [self.operand(i > 0) for i in range(n)]
        floats = [a[1] for a in args]
        value = plain_value(name, floats, False)
        if value is None:
            return None
        if name == 'log' and abs(floats[1] - 1) < .1:
            return None
        ps = partial_floats(name, floats)
        if ps is None:
            return None
        return self.combine(name, getattr(umath, name)(*[a[0] for a in args]),
                            floats, ps, [a[2] for a in args], value)

    def sum_like(self):
        rng = self.rng
        n = rng.randint(1, 6)
        args = [self.operand(i > 0) for i in range(n)]
        rng.shuffle(args)
        objs, floats = [a[0] for a in args], [a[1] for a in args]
        kind = rng.choice(['sum', 'fsum', 'numpy.sum', 'numpy.dot', 'numpy.prod',
                           'cumsum'])
        if kind == 'sum':
            r, v, ps = sum(objs), functools.reduce(lambda a, b: a + b, floats, 0), [1.]*n
        elif kind == 'fsum':
            r, v, ps = umath.fsum(objs), math.fsum(floats), [1.]*n
        elif kind == 'numpy.sum':
            r, ps = numpy.sum(numpy.array(objs, dtype=object)), [1.]*n
            v = r.nominal_value
        elif kind == 'cumsum':
            r, ps = numpy.cumsum(numpy.array(objs, dtype=object))[-1], [1.]*n
            v = getattr(r, 'nominal_value', r)
        elif kind == 'numpy.dot':
            w = [rng.choice([1, 2, -1, .5, 3.]) for _ in objs]
            r = numpy.dot(numpy.array(objs, dtype=object), numpy.array(w))
            v, ps = r.nominal_value, w
        else:
            r = numpy.prod(numpy.array(objs, dtype=object))
            v = r.nominal_value
            ps = [math.prod(floats[:i] + floats[i+1:]) for i in range(n)]
        if not math.isfinite(v) or abs(v) > BIG or any(abs(p) > 1e6 for p in ps):
            return None
        if not gen.close(v, math.prod(floats) if kind == 'numpy.prod' else
                         sum(p*f for p, f in zip(ps, floats)), 1e-9,
                         1e-9*sum(map(abs, floats))):
            self.ctx.fail(kind + ': nominal value', got=v, terms=floats)
        return self.combine(kind, r, floats, ps, [a[2] for a in args], v)

    def wrapped_call(self):
        rng = self.rng
        f, plain, ref = rng.choice(wrapped())
        n = plain.__code__.co_argcount
        args = [self.operand(i > 0) for i in range(n)]
        floats = [a[1] for a in args]
        v = plain(*floats)
        if not abs(v) < BIG:
            return None
        if rng.random() < .3:
            names = plain.__code__.co_varnames[:n]
            p = rng.randint(0, n)
            r = f(*[a[0] for a in args[:p]],
                  **{k: a[0] for k, a in list(zip(names, args))[p:]})
        else:
            r = f(*[a[0] for a in args])
        return self.combine('wrapped', r, floats, ref(*floats),
                            [a[2] for a in args], v)

    def special(self):
        rng = self.rng
        x, fx, sx = self.operand(False)
        if fx == 0 or fx == math.floor(fx):
            return None
        k = rng.choice(['modf', 'ldexp', 'frexp'])
        if k == 'modf':
            r, v, d = umath.modf(x)[0], math.modf(fx)[0], 1.
        elif k == 'ldexp':
            i = rng.randint(-3, 3)
            r, v, d = umath.ldexp(x, i), math.ldexp(fx, i), math.ldexp(1., i)
        else:
            r, v = umath.frexp(x)[0], math.frexp(fx)[0]
            d = math.ldexp(1., -math.frexp(fx)[1])
            if abs(v) == .5:
                return None
        if abs(v) > BIG or abs(v) < SMALL:
            return None
        return self.combine(k, r, [fx], [d], [sx], v)

    def grow(self, n):
        done = tries = 0
        while done < n and tries < 4*n + 20:
            tries += 1
            if self.step() is not None:
                done += 1
        return done

    # ------------------------------------------------------------ oracle

    def expected_std(self, i, stds):
        s = self.shadows[i]
        tot = tol = 0.
        for v, d in s.g.items():
            if stds[v]:
                tot = math.hypot(tot, d*stds[v])
                tol = math.hypot(tol, s.a[v]*stds[v])
        return tot, TOL*tol

    def check_derivatives(self, i, what=''):
        ctx, s, o = self.ctx, self.shadows[i], self.objs[i]
        d = o.derivatives
        index = {id(v): j for j, v in enumerate(self.vars)}
        for v in d:
            ctx.check(id(v) in index and index[id(v)] in s.g,
                      'spurious dependence on a quantity ' + what, step=i,
                      variable=v)
        ctx.count('derivatives_compared', len(s.g))
        for j, ref in s.g.items():
            got = d.get(self.vars[j])
            if got is None:
                ctx.check(ref == 0 or abs(ref) <= TOL*s.a[j],
                          'missing dependence on a quantity ' + what, step=i,
                          expected=ref)
                continue
            ctx.check(abs(got - ref) <= TOL*s.a[j] + 1e-290,
                      'wrong derivative of a composite expression ' + what,
                      step=i, got=got, expected=ref, scale=s.a[j])

    def check_std(self, i, stds, what=''):
        exp, tol = self.expected_std(i, stds)
        got = float(self.objs[i].std_dev)
        self.ctx.check(abs(got - exp) <= tol + 1e-290,
                       'wrong uncertainty ' + what, step=i, got=got, expected=exp,
                       tolerance=tol)

    def check_nominal(self, i):
        self.ctx.check(gen.same_float(self.objs[i].nominal_value,
                                      float(self.shadows[i].n)),
                       'wrong nominal value', step=i,
                       got=self.objs[i].nominal_value, expected=self.shadows[i].n)
