"""C20: arrays."""
import copy, fractions, io, math, operator, pickle, warnings
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, unumpy, ufloat_fromstr
import uncertainties.core as core
from .. import gen, spec
from ..spec import attempt, Raised, make_uncertain

PROPERTY = 'C20'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: each element of the results is compared (bits, derivatives, '
             'types) with the scalar operation on the corresponding elements; snapshots of '
             'the inputs')
NOTE = ('Generated shapes (0-d, empty, up to 4 dimensions), views (strided, reversed, '
        'transposed, broadcast), containers, element mixtures; every function and operator.')
RULE = 'distinct = (operation, shapes, containers, kinds of elements)'
ASSUMPTIONS = ['The scalar operations are themselves judged by C01, C02 and C10.']

NUMPY_NAMES = {'acos': 'arccos', 'acosh': 'arccosh', 'asin': 'arcsin', 'asinh': 'arcsinh',
               'atan': 'arctan', 'atan2': 'arctan2', 'atanh': 'arctanh'}


def shape(rng, dims=(0, 1, 1, 2, 2, 2, 3, 3, 4), empty=True):
    d = rng.choice(dims)
    s = tuple(rng.choice([1, 2, 3, 4] if d < 3 else [1, 2, 2, 3]) for _ in range(d))
    if s and empty and rng.random() < .05:
        i = rng.randrange(len(s))
        s = s[:i] + (0,) + s[i + 1:]
    return s


def fill(elements, s):
    a = numpy.empty(s, dtype=object)
    for i, e in zip(numpy.ndindex(*s), elements):
        a[i] = e
    return a


def size(s):
    n = 1
    for k in s:
        n *= k
    return n


def view(rng, elements, s):
    "(array of objects with these elements and shape, kind of view)"
    k = rng.randrange(8)
    a = fill(elements, s)
    if k == 0 and s:
        b = numpy.empty([2*n + 1 for n in s], dtype=object)
        b[...] = 0.5
        v = b[tuple(slice(0, 2*n, 2) for n in s)]
        v[...] = a
        return v, 'strided'
    if k == 1 and s:
        b = numpy.empty(s, dtype=object)
        v = b[tuple(slice(None, None, -1) for n in s)]
        v[...] = a
        return v, 'reversed'
    if k == 2 and s:
        b = numpy.empty(s[::-1], dtype=object)
        v = b.T
        v[...] = a
        return v, 'transposed'
    if k == 3:
        a.setflags(write=False)
        return a, 'read-only'
    if k == 4:
        return numpy.asfortranarray(a) if s else a, 'fortran'
    return a, 'plain'


def nest(a):
    if not isinstance(a, numpy.ndarray):
        return a
    return [nest(x) for x in a] if a.ndim else a.item()


def nest_tuple(a):
    if not isinstance(a, numpy.ndarray):
        return a
    return tuple(nest_tuple(x) for x in a) if a.ndim else a.item()


def element(rng, value, store):
    "An element with this value: (element, kind)"
    k = rng.random()
    if k < .45:
        return make_uncertain(rng, value, abs(gen.finite_std(rng))), 'u'
    if k < .6:
        # Correlated with the other elements
        if not store:
            store.append(ufloat(1, .5))
        x = rng.choice(store)
        r = rng.choice([1., -2., .5])*(x - x.nominal_value)*rng.choice([1., .25]) + value
        if r.nominal_value == value or value != value:
            return r, 'c'
        return make_uncertain(rng, value, 1.), 'u'
    if k < .7:
        return value, 'f'
    if k < .78 and abs(value) < 2**52:
        return int(value), 'i'
    if k < .82:
        return numpy.float64(value), 'f64'
    if k < .85:
        return bool(rng.getrandbits(1)), 'b'
    if k < .88:
        return gen.FloatSub(value), 's'
    if k < .9:
        return rng.choice([ufloat(gen.NAN, 1), ufloat(1, gen.NAN), gen.NAN,
                           ufloat(gen.INF, 1), -gen.INF]), 'n'
    return ufloat(value, 0), 'z'


def container(rng, s, values, plain=.15, matrices=True):
    """An array-like object of this shape: (object, kind, elements in C order,
    as seen by NumPy when converted into objects)."""
    n = size(s)
    if rng.random() < plain:
        vals = [values(rng) for _ in range(n)]
        k = rng.choice(['float', 'float', 'int', 'f4', 'bool', 'float list'])
        if k == 'int':
            vals = [int(v) if abs(v) < 2**52 else 3 for v in vals]
        elif k == 'f4':
            vals = [v if abs(v) < 1e30 else 1.5 for v in vals]
        elif k == 'bool':
            vals = [bool(rng.getrandbits(1)) for _ in vals]
        a = numpy.array(vals, dtype={'int': int, 'f4': 'f4', 'bool': bool}.get(k, float)
                        ).reshape(s)
        if k == 'float list' and n:
            o = nest(a)
        elif rng.random() < .3 and s:
            o = a[..., ::-1]
            a = o
        else:
            o = a
        if len(s) == 2 and rng.random() < .2 and matrices and 0 not in s:
            o = numpy.matrix(o)
            k += ' matrix'
        elements = list(numpy.asarray(a).astype(object).flat)
        return o, k, elements, ''
    store = []
    es, kinds = [], set()
    for _ in range(n):
        e, k = element(rng, values(rng), store)
        es.append(e)
        kinds.add(k)
    kinds = ''.join(sorted(kinds))
    a, k = view(rng, es, s)
    r = rng.random()
    if r < .15:
        # (NumPy keeps the objects if there is a number with uncertainty)
        if any(isinstance(e, UFloat) for e in es):
            return nest(a), 'list', es, kinds
    elif r < .25:
        if any(isinstance(e, UFloat) for e in es):
            return nest_tuple(a), 'tuple', es, kinds
    elif r < .4 and len(s) == 2 and matrices:
        return unumpy.matrix(a), 'unumpy.matrix', es, kinds
    elif r < .45 and len(s) == 2 and matrices:
        return numpy.matrix(a), 'numpy.matrix', es, kinds
    elif r < .5 and not s:
        return es[0], 'scalar', list(numpy.asarray(es[0]).astype(object).flat) \
            if not isinstance(es[0], UFloat) else es, kinds
    return a, k, es, kinds


def snapshot(o):
    if isinstance(o, numpy.ndarray):
        return (type(o), o.dtype, o.shape, o.strides, [id(x) for x in o.flat]
                if o.dtype == object else o.tobytes(), o.flags.writeable)
    if isinstance(o, (list, tuple)):
        return [snapshot(x) for x in o]
    return id(o)


def same_plain(a, b):
    if isinstance(a, (bool, numpy.bool_)) or isinstance(b, (bool, numpy.bool_)):
        return isinstance(a, (bool, numpy.bool_)) and isinstance(b, (bool, numpy.bool_)) \
            and bool(a) == bool(b)
    if isinstance(a, float) and isinstance(b, float):
        return gen.same_float(float(a), float(b))
    return a == b or (a != a and b != b)


def difference(got, want):
    "None, or description of the difference between two elements."
    if not isinstance(want, UFloat):
        if isinstance(got, UFloat):
            return 'uncertain element, plain expected'
        return None if same_plain(got, want) else 'plain values'
    if not isinstance(got, UFloat):
        return 'plain element, uncertain expected'
    if type(got) is not type(want):
        return 'types of the elements'
    if not gen.same_float(got.nominal_value, want.nominal_value):
        return 'nominal values'
    d, e = got.derivatives, want.derivatives
    if set(map(id, d)) != set(map(id, e)):
        return 'variables'
    for v in d:
        if not gen.same_float(float(d[v]), float(e[v])):
            return 'derivatives'
    s = got.std_dev, want.std_dev
    if not gen.same_float(float(s[0]), float(s[1])):
        return 'standard deviations'
    return None


def elements_of(ctx, got, s, what):
    "Elements of a result, whose shape is checked."
    ctx.check(numpy.shape(got) == s, 'shape of the result', operation=what,
              got=numpy.shape(got), expected=s)
    if isinstance(got, numpy.ndarray):
        return list(got.flat)
    return [got]


def judge(ctx, what, got, s, wanted, kinds):
    "Compares a result with the scalar results, in C order."
    bad = [w for w in wanted if isinstance(w, Raised)]
    if isinstance(got, Raised) or bad:
        ctx.check(isinstance(got, Raised) == bool(bad), 'exceptions', operation=what,
                  got=got, expected=bad[:1])
        # (The order depends on the memory layout)
        ctx.check(type(got.exc) in [type(w.exc) for w in bad], 'type of the exception',
                  operation=what, got=got, expected=bad[0])
        ctx.count('exceptions')
        return False
    es = elements_of(ctx, got, s, what)
    ctx.check(len(es) == len(wanted), 'number of elements', operation=what)
    for i, (g, w) in enumerate(zip(es, wanted)):
        d = difference(g, w)
        ctx.check(d is None, d or '', operation=what, rank=i, got=g, expected=w,
                  derivatives=(g.derivatives, w.derivatives)
                  if isinstance(g, UFloat) and isinstance(w, UFloat) else None)
    ctx.count('elements', len(es))
    if isinstance(got, numpy.ndarray) and any(isinstance(w, UFloat) for w in wanted):
        ctx.check(got.dtype == object, 'dtype', operation=what, got=got.dtype)
    return True


def check_type(ctx, what, got, kinds, s):
    if any('matrix' in k for k in kinds):
        ctx.check(isinstance(got, numpy.matrix), 'type of the result', operation=what,
                  got=type(got), containers=kinds)
        if 'unumpy.matrix' in kinds and got.dtype == object:
            ctx.check(isinstance(got, unumpy.matrix), 'type of the result', operation=what,
                      got=type(got), containers=kinds)
    elif s:
        ctx.check(type(got) is numpy.ndarray, 'type of the result', operation=what,
                  got=type(got), containers=kinds)


# Functions

def scalar_elements(o):
    return o


def function_values(name):
    def values(rng):
        if rng.random() < .1:
            return rng.choice(gen.SPECIAL)
        return spec.in_domain(rng, name)
    return values


def safe_int_values(rng):
    return rng.choice([gen.moderate(rng), gen.moderate(rng), float(rng.randint(-5, 5)),
                       rng.uniform(-1e15, 1e15), -0.0, .5, 1e-300,
                       rng.choice([2.**63, -2.**63, 1e30, 9e18]) if rng.random() < .2 else 1.])


def functions1(ctx):
    rng = ctx.rng
    name = rng.choice(spec.FUNCS1 + spec.LOCALLY_CONSTANT + ['isnan', 'isinf'])
    integers = name in ('ceil', 'floor', 'trunc')
    s = shape(rng)
    o, k, es, kinds = container(rng, s, safe_int_values if integers else
                                function_values(name))
    f = getattr(umath, name)
    g = getattr(unumpy, NUMPY_NAMES.get(name, name))
    if name == 'asinh' and rng.random() < .3:
        g = unumpy.asinh
    before = snapshot(o)
    ctx.log('function', name, s, k, repr(es))
    wanted = [attempt(f, e) for e in es]
    got = attempt(g, o)
    ctx.check(snapshot(o) == before, 'input modified', operation=name)
    ctx.distinct('f', name, s, k, kinds)
    ctx.count('functions')
    if not judge(ctx, name, got, s, wanted, [k]):
        return
    ctx.check(isinstance(got, numpy.ndarray), 'type of the result', got=type(got))
    check_type(ctx, name, got, [k], s)
    if name in ('isnan', 'isinf'):
        ctx.check(got.dtype == bool, 'dtype', operation=name, got=got.dtype)
        a = numpy.asarray(o, dtype=object)
        if 'matrix' not in k:
            selected = attempt(operator.getitem, a, ~numpy.asarray(got))
            keep = [e for e, w in zip(es, wanted) if not w]
            ctx.check(not isinstance(selected, Raised) and
                      len(selected) == len(keep) and
                      all(x is y or repr(x) == repr(y) for x, y in zip(selected, keep)),
                      'selection of elements', got=selected, expected=keep)
        ctx.count('selections')
    elif integers:
        big = any(not -2**63 <= w < 2**63 for w in wanted)
        ctx.check(got.dtype == (object if big else int), 'dtype', operation=name,
                  got=got.dtype)
        ctx.count('integers_big' if big else 'integers')
    else:
        ctx.check(got.dtype == object, 'dtype', operation=name, got=got.dtype)


def broadcastable(rng, s):
    "A shape that can be broadcast with s, and the broadcast shape."
    k = rng.random()
    if k < .35:
        return s
    if k < .5:
        return ()
    t = list(s)
    for i in range(len(t)):
        if t[i] == 1 and rng.random() < .5:
            t[i] = rng.choice([2, 3])
        elif rng.random() < .4:
            t[i] = 1
    t = t[rng.randint(0, len(t)):] if rng.random() < .4 else t
    if rng.random() < .2 and len(t) == len(s) < 3:
        t = [rng.choice([1, 2])] + t
    return tuple(t)


def pairs(es1, s1, es2, s2):
    "Pairs of elements, after broadcasting."
    s = numpy.broadcast_shapes(s1, s2)
    i1 = numpy.broadcast_to(numpy.arange(size(s1)).reshape(s1), s)
    i2 = numpy.broadcast_to(numpy.arange(size(s2)).reshape(s2), s)
    return s, [(es1[i], es2[j]) for i, j in zip(i1.flat, i2.flat)]


def two(ctx, values1, values2, plain=.2):
    rng = ctx.rng
    s1 = shape(rng)
    s2 = broadcastable(rng, s1)
    two_d = len(s1) == len(s2) == 2 or (len(s1) == 2 and s2 == ())
    a = container(rng, s1, values1, plain, matrices=two_d)
    b = container(rng, s2, values2, plain, matrices=two_d)
    if rng.random() < .5:
        a, b, s1, s2 = b, a, s2, s1
    return a, s1, b, s2


def functions2(ctx):
    rng = ctx.rng
    name = rng.choice(['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow'])

    def values(rng):
        k = rng.random()
        if k < .05:
            return rng.choice(gen.SPECIAL)
        if k < .15:
            return rng.choice([0., 1., -1., 2.])
        return abs(gen.moderate(rng)) if name in ('log', 'pow') and rng.random() < .8 \
            else gen.moderate(rng)
    (o1, k1, es1, kinds1), s1, (o2, k2, es2, kinds2), s2 = two(ctx, values, values)
    f = getattr(umath, name)
    g = getattr(unumpy, NUMPY_NAMES.get(name, name))
    s, ps = pairs(es1, s1, es2, s2)
    before = snapshot(o1), snapshot(o2)
    ctx.log('function2', name, s1, s2, k1, k2, repr(es1), repr(es2))
    wanted = [attempt(f, x, y) for x, y in ps]
    got = attempt(g, o1, o2)
    ctx.check((snapshot(o1), snapshot(o2)) == before, 'input modified', operation=name)
    ctx.distinct('f2', name, s1, s2, k1, k2)
    ctx.count('functions2')
    if judge(ctx, name, got, s, wanted, [k1, k2]):
        ctx.check(got.dtype == object, 'dtype', operation=name)
        check_type(ctx, name, got, [k1, k2], s)


OPS = dict(spec.BINOPS)
OPS.update({k: getattr(operator, k) for k in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')})


def operators(ctx):
    rng = ctx.rng
    name = rng.choice(sorted(OPS) + ['add', 'sub', 'mul', 'truediv', 'pow'])

    def values(rng):
        k = rng.random()
        if k < .03:
            return rng.choice(gen.SPECIAL)
        if k < .15:
            return float(rng.randint(-3, 3))
        return gen.moderate(rng)
    (o1, k1, es1, kinds1), s1, (o2, k2, es2, kinds2), s2 = two(ctx, values, values)
    a1, a2 = isinstance(o1, numpy.ndarray), isinstance(o2, numpy.ndarray)
    if not (a1 or a2) or not (kinds1 or kinds2):
        raise_skip()
    # NumPy's own choices
    if any('matrix' in k for k in (k1, k2)) and name in ('mul', 'pow'):
        raise_skip()
    # The library is involved if an element has an uncertainty; otherwise,
    # NumPy and Python do everything:
    s, ps = pairs(es1, s1, es2, s2)
    if not any(isinstance(x, UFloat) for p in ps for x in p):
        raise_skip()
    # (Powers of integers that are too large to be calculated)
    if name == 'pow' and any(isinstance(x, int) and isinstance(y, int) and
                             abs(x) > 1 and abs(y) > 1e5 for x, y in ps):
        raise_skip()
    op = OPS[name]
    before = snapshot(o1), snapshot(o2)
    ctx.log('operator', name, s1, s2, k1, k2, repr(es1), repr(es2))
    wanted = [attempt(op, x, y) for x, y in ps]
    with numpy.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        wanted = [attempt(op, x, y) for x, y in ps]
        got = attempt(op, o1, o2)
    ctx.check((snapshot(o1), snapshot(o2)) == before, 'input modified', operation=name)
    ctx.distinct('op', name, s1, s2, k1, k2)
    ctx.count('operators')
    if judge(ctx, name, got, s, wanted, [k1, k2]):
        check_type(ctx, name, got, [k1, k2], s)
        if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and isinstance(got, numpy.ndarray):
            ctx.check(got.dtype == bool, 'dtype', operation=name, got=got.dtype)
            ctx.count('comparisons')


def raise_skip():
    from .. import fw
    raise fw.Skip()


def unary_and_inplace(ctx):
    rng = ctx.rng
    s = shape(rng, dims=(1, 1, 2, 2, 3))
    o, k, es, kinds = container(rng, s, gen.moderate, plain=0)
    if not isinstance(o, numpy.ndarray):
        o, k = fill(es, s), 'plain'
    what = rng.choice(['neg', 'pos', 'abs', 'inplace', 'inplace', 'ufunc'])
    before = snapshot(o)
    ctx.log('unary', what, s, k, repr(es))
    ctx.distinct('unary', what, s, k, kinds)
    bools = any(isinstance(e, (bool, numpy.bool_)) for e in es)
    if what in ('neg', 'pos', 'abs'):
        if bools:
            raise_skip()
        op = getattr(operator, what)
        wanted = [attempt(op, e) for e in es]
        got = attempt(op, o)
        ctx.check(snapshot(o) == before, 'input modified', operation=what)
        judge(ctx, what, got, s, wanted, [k])
        check_type(ctx, what, got, [k], s)
    elif what == 'ufunc':
        name, f, op = rng.choice([('add', numpy.add, operator.add),
                                  ('multiply', numpy.multiply, operator.mul),
                                  ('subtract', numpy.subtract, operator.sub),
                                  ('divide', numpy.divide, operator.truediv)])
        x = make_uncertain(rng, gen.moderate(rng), .5)
        wanted = [attempt(op, e, x) for e in es]
        got = attempt(f, o, x)
        ctx.check(snapshot(o) == before, 'input modified', operation=name)
        judge(ctx, name, got, s, wanted, [k])
    else:
        if not o.flags.writeable:
            raise_skip()
        name = rng.choice(['add', 'sub', 'mul', 'truediv'])
        x = rng.choice([make_uncertain(rng, rng.choice([2., -.5, 3.5]), .5), 2.5, 3])
        if rng.random() < .5 and not ('matrix' in k and name == 'mul'):
            b = numpy.empty(s, dtype=object)
            b[...] = x
        else:
            b = x
        if k == 'numpy.matrix' and name == 'mul':
            raise_skip()  # (Not supported by numpy.matrix)
        wanted = [attempt(OPS[name], e, x) for e in es]
        keep = o.copy()
        old = [(e.nominal_value, float(e.std_dev)) if isinstance(e, UFloat) else repr(e)
               for e in es]
        got = attempt(spec.IOPS[name], o, b)
        if not isinstance(got, Raised):
            ctx.check(got is o, 'in-place operation', operation=name)
        judge(ctx, 'i' + name, got, s, wanted, [k])
        new = [(e.nominal_value, float(e.std_dev)) if isinstance(e, UFloat) else repr(e)
               for e in es]
        ctx.check(repr(old) == repr(new), 'old elements modified', operation=name)
        ctx.check(all(x is y for x, y in zip(keep.flat, es)), 'copy modified')
    ctx.count('unary_' + what)


# Creation and access

def numbers(rng, s, std=False, matrix=True):
    "(array-like, kind, floats)"
    n = size(s)
    if std:
        vals = [abs(gen.any_std(rng)) for _ in range(n)]
    else:
        vals = [gen.any_float(rng) for _ in range(n)]
    k = rng.choice(['array', 'list', 'tuple', 'int', 'view', 'f4', 'object', 'matrix',
                    'mixed'])
    if k == 'int':
        vals = [float(int(v)) if abs(v) < 2**52 else 3. for v in vals]
    if k == 'f4':
        vals = [float(numpy.float32(v)) if abs(v) < 1e30 else 1.5 for v in vals]
    a = numpy.array(vals, dtype=float).reshape(s)
    if k == 'list' and n:
        o = nest(a)
    elif k == 'tuple' and n:
        o = nest_tuple(a)
    elif k == 'int':
        o = a.astype(rng.choice([int, 'i8', object]))
        if o.dtype == object:
            o = fill([int(v) for v in vals], s)
    elif k == 'view' and s:
        o = numpy.empty(s[:-1] + (2*s[-1],))
        o = o[..., ::2]
        o[...] = a
    elif k == 'f4':
        o = a.astype('f4')
    elif k == 'object':
        o = fill(vals, s)
    elif k == 'matrix' and len(s) == 2 and 0 not in s and matrix:
        o = numpy.matrix(a)
    elif k == 'mixed':
        o = fill([fractions.Fraction(v) if v and math.isfinite(v) and rng.random() < .3 else
                  numpy.float64(v) if rng.random() < .5 else v for v in vals], s)
    else:
        o, k = a, 'array'
    return o, k, vals


def creation(ctx):
    rng = ctx.rng
    s = shape(rng)
    matrix = rng.random() < .3 and len(s) < 3
    v, kv, nominal = numbers(rng, s)
    t = s if rng.random() < .7 else rng.choice([(), s[1:], (1,)*len(s)])
    w, kw, std = numbers(rng, t, True, len(s) < 3)
    if rng.random() < .04 and size(t) and size(s) and \
            isinstance(w, numpy.ndarray) and w.dtype == float:
        i = tuple(rng.randrange(n) for n in t)
        w[i] = -rng.choice([1., 1e-300, gen.INF])
        std = list(w.flat)
    legacy = s == t and rng.random() < .1 and s != ()
    name = 'umatrix' if matrix else 'uarray'
    f = getattr(unumpy, name)
    before = repr(v), repr(w)
    ctx.log('create', name, s, t, kv, kw, repr(nominal), repr(std), legacy)
    u, ps = pairs(nominal, s, std, t)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        if legacy:
            a = attempt(f, rng.choice([tuple, list])((v, w)))
        elif rng.random() < .2:
            a = attempt(f, nominal_values=v, std_devs=w)
        else:
            a = attempt(f, v, w)
    caught = [x for x in caught if 'bsolete' in str(x.message)]
    ctx.check(bool(caught) == legacy, 'obsolescence warning', legacy=legacy,
              caught=[str(x.message) for x in caught])
    ctx.check((repr(v), repr(w)) == before, 'input modified')
    ctx.distinct('create', name, s, t, kv, kw, legacy)
    ctx.count('creations')
    if any(y < 0 for x, y in ps):
        ctx.check(isinstance(a, Raised) and isinstance(a.exc, core.NegativeStdDev),
                  'negative standard deviation', got=a)
        ctx.count('negative')
        return
    ctx.check(not isinstance(a, Raised), 'creation raised', got=a)
    if matrix or kv == 'matrix' or kw == 'matrix':
        ctx.check(isinstance(a, unumpy.matrix if matrix else numpy.matrix), 'type',
                  got=type(a))
        if len(u) <= 2 and 0 not in u:
            two_d = u if len(u) == 2 else (1,) + u if u else (1, 1)
            ctx.check(a.shape == two_d, 'shape', got=a.shape, expected=two_d)
    else:
        ctx.check(type(a) is numpy.ndarray and a.shape == u, 'type and shape',
                  got=(type(a), numpy.shape(a)), expected=u)
    ctx.check(a.dtype == object and a.size == len(ps), 'dtype or size', got=a.dtype)
    es = list(a.flat)
    for e, (x, y) in zip(es, ps):
        ctx.check(isinstance(e, core.Variable) and type(e.nominal_value) is float and
                  gen.same_float(e.nominal_value, x) and
                  gen.same_float(float(e.std_dev), y) and e.tag is None,
                  'element', got=e, expected=(x, y))
    ctx.check(len(set(map(id, es))) == len(es), 'independent elements')
    n, d = attempt(unumpy.nominal_values, a), attempt(unumpy.std_devs, a)
    for g, want, what in ((n, [x for x, y in ps], 'nominal_values'),
                          (d, [y for x, y in ps], 'std_devs')):
        floats(ctx, g, a, want, what)
    if matrix:
        floats(ctx, attempt(getattr, a, 'nominal_values'), a, [x for x, y in ps],
               '.nominal_values')
        floats(ctx, attempt(getattr, a, 'std_devs'), a, [y for x, y in ps], '.std_devs')
    ctx.count('created', len(es))


def floats(ctx, got, a, want, what):
    ctx.check(isinstance(got, numpy.ndarray) and got.dtype == float and
              got.shape == numpy.shape(a), 'type, dtype or shape', operation=what,
              got=(type(got), getattr(got, 'dtype', None), numpy.shape(got)),
              expected=numpy.shape(a))
    if isinstance(a, numpy.matrix):
        ctx.check(isinstance(got, numpy.matrix) and not isinstance(got, unumpy.matrix),
                  'type', operation=what, got=type(got))
    ctx.check(all(gen.same_float(float(x), float(y)) for x, y in zip(got.flat, want)),
              'numbers', operation=what, got=got, expected=want)


def access(ctx):
    "Nominal values and standard deviations of any array-like."
    rng = ctx.rng
    s = shape(rng)
    o, k, es, kinds = container(rng, s, gen.any_float, plain=.3)
    before = snapshot(o)
    ctx.log('access', s, k, repr(es))
    nominal = [float(e.nominal_value if isinstance(e, UFloat) else e) for e in es]
    std = [float(e.std_dev) if isinstance(e, UFloat) else 0. for e in es]
    a = o if isinstance(o, numpy.ndarray) else numpy.empty(s)
    for f, want, what in ((unumpy.nominal_values, nominal, 'nominal_values'),
                          (unumpy.std_devs, std, 'std_devs')):
        got = attempt(f, o)
        ctx.check(not isinstance(got, Raised), 'raised', operation=what, got=got)
        floats(ctx, got, a, want, what)
        # The result is independent of the array
        if got.flags.writeable and got.size:
            got[...] = 7.
        ctx.check(snapshot(o) == before, 'input modified', operation=what)
        again = attempt(f, o)
        floats(ctx, again, a, want, what + ' again')
    ctx.distinct('access', s, k, kinds)
    ctx.count('accesses')
    ctx.count('accessed', len(es))


# Operations of NumPy on the elements

def close(ctx, what, got, want, unit):
    "got: array operation; want: scalar operations; unit: size of the terms"
    ctx.check(isinstance(got, UFloat) == isinstance(want, UFloat) or
              isinstance(got, UFloat), 'type', operation=what, got=got, expected=want)
    tol = 1e-12*unit
    g = getattr(got, 'nominal_value', got)
    w = getattr(want, 'nominal_value', want)
    ctx.check(abs(g - w) <= tol, 'nominal value', operation=what, got=g, expected=w)
    d = {id(v): x for v, x in getattr(got, 'derivatives', {}).items()}
    e = {id(v): x for v, x in getattr(want, 'derivatives', {}).items()}
    for v in set(d) | set(e):
        ctx.check(abs(d.get(v, 0.) - e.get(v, 0.)) <= tol, 'derivatives', operation=what,
                  got=d.get(v), expected=e.get(v))
    ctx.count('accumulations')


def accumulate(op, xs, start=None):
    it = iter(xs)
    r = next(it) if start is None else start
    for x in it:
        r = op(r, x)
    return r


def numpy_operations(ctx):
    rng = ctx.rng
    s = shape(rng, dims=(1, 1, 2, 2, 3), empty=False)

    def values(rng):
        return rng.choice([-1, 1])*rng.uniform(.5, 2)
    store = []
    es = []
    while len(es) < size(s):
        e, k = element(rng, values(rng), store)
        if k in ('u', 'c', 'f', 'z', 'i'):
            es.append(e)
    a, k = view(rng, es, s)
    before = snapshot(a)
    what = rng.choice(['sum', 'axis', 'mean', 'prod', 'dot', 'matmul', 'cumsum', 'sort',
                       'extrema', 'where', 'structure', 'masked', 'outer', 'diff'])
    ctx.log('numpy', what, s, k, repr(es))
    ctx.distinct('numpy', what, s, k)
    n = len(es)
    f = a.reshape(-1)
    if what == 'sum':
        close(ctx, what, a.sum(), accumulate(operator.add, es), 3.*n)
        close(ctx, what, numpy.sum(a), accumulate(operator.add, es), 3.*n)
    elif what == 'mean':
        close(ctx, what, a.mean(), accumulate(operator.add, es)/n, 3.)
    elif what == 'axis':
        i = rng.randrange(len(s))
        r = a.sum(axis=i)
        m = numpy.moveaxis(a, i, 0)
        for j in numpy.ndindex(*m.shape[1:]):
            close(ctx, what, r[j] if m.ndim > 1 else r,
                  accumulate(operator.add, [m[(q,) + j] for q in range(m.shape[0])]), 3.*n)
    elif what == 'prod':
        f = f[:8]
        close(ctx, what, f.prod(), accumulate(operator.mul, list(f)), 2.**len(f)*4)
    elif what in ('dot', 'outer'):
        ys = [element(rng, values(rng), store)[0] for _ in range(n)]
        ys = [y if not (y != y) and abs(y) < 3 else ufloat(1, .1) for y in ys]
        b = fill(ys, (n,))
        if what == 'dot':
            want = accumulate(operator.add, [x*y for x, y in zip(es, ys)])
            close(ctx, what, numpy.dot(f, b), want, 20.*n)
            close(ctx, what, (f*b).sum(), want, 20.*n)
        else:
            r = numpy.outer(f, b)
            judge(ctx, what, r, (n, n), [x*y for x in es for y in ys], [])
    elif what == 'matmul':
        b = fill([element(rng, values(rng), store)[0] for _ in range(6)], (3, 2))
        c = fill([ufloat(values(rng), .1) for _ in range(6)], (2, 3))
        ok = all(isinstance(x, UFloat) and abs(x.n) < 3 for x in b.flat)
        if ok:
            for r in (b @ c, b.dot(c)):
                for i in range(3):
                    for j in range(3):
                        close(ctx, what, r[i, j],
                              b[i, 0]*c[0, j] + b[i, 1]*c[1, j], 40.)
    elif what == 'cumsum':
        r = f.cumsum()
        for i in range(n):
            close(ctx, what, r[i], accumulate(operator.add, es[:i + 1]), 3.*n)
    elif what == 'sort':
        r = numpy.sort(f)
        vals = [uncertainties.nominal_value(x) for x in r]
        ctx.check(vals == sorted(uncertainties.nominal_value(x) for x in es) and
                  sorted(map(id, r)) == sorted(map(id, es)), 'sorted array', got=r)
        i = f.argsort(kind='stable')
        ctx.check([uncertainties.nominal_value(es[j]) for j in i] == vals, 'argsort')
    elif what == 'extrema':
        vals = [uncertainties.nominal_value(x) for x in es]
        ctx.check(vals[f.argmax()] == max(vals) and vals[f.argmin()] == min(vals) and
                  uncertainties.nominal_value(f.max()) == max(vals) and
                  uncertainties.nominal_value(f.min()) == min(vals), 'extrema')
        ctx.check(any(f.max() is e for e in es), 'maximum is an element')
    elif what == 'where':
        x = make_uncertain(rng, values(rng), .3)
        m = a > x
        want = [e > x for e in es]
        ctx.check(m.dtype == bool and list(m.flat) == want, 'comparison')
        ctx.check(all(u is v for u, v in zip(a[m], [e for e, t in zip(es, want) if t])),
                  'boolean indexing')
        r = numpy.where(m, a, x)
        ctx.check(all(u is (e if t else x) for u, e, t in zip(r.flat, es, want)), 'where')
        b = a.copy()
        if not b.flags.writeable:
            b = numpy.array(a)
        b[m] = x
        ctx.check(all(u is (x if t else e) for u, e, t in zip(b.flat, es, want)),
                  'boolean assignment')
    elif what == 'structure':
        b = numpy.concatenate([a, a], axis=0)
        ctx.check(all(u is v for u, v in zip(b[:s[0]].flat, es)), 'concatenation')
        ctx.check(all(a.T[i[::-1]] is a[i] for i in numpy.ndindex(*s)), 'transposition')
        u = unumpy.matrix(f)
        ctx.check(u.shape == (1, n) and all(x is y for x, y in zip(u.flat, es)), 'matrix')
        ctx.check(type(u) is unumpy.matrix and type(u.A) is numpy.ndarray, 'matrix type')
        d = f - f
        for e, x in zip(es, d):
            ctx.check(not isinstance(e, UFloat) or (float(x.std_dev) == 0 and x.n == 0),
                      'difference of an array with itself', got=x)
    elif what == 'masked':
        bad = rng.choice([gen.NAN, ufloat(gen.NAN, 1)])
        i = rng.randint(0, n)
        b = fill(es[:i] + [bad] + es[i:], (n + 1,))
        m = unumpy.isnan(b)
        want = accumulate(operator.add, es)/n
        close(ctx, what, b[~m].mean(), want, 3.)
        close(ctx, what, numpy.ma.array(b, mask=m).mean(), want, 3.)
    else:
        r = numpy.diff(f)
        for i in range(n - 1):
            ctx.check(difference(r[i], es[i + 1] - es[i]) is None, 'difference of elements')
    ctx.check(snapshot(a) == before, 'input modified', operation=what)
    ctx.count('numpy_' + what)


def storage(ctx):
    "Pickling, copies, text files."
    rng = ctx.rng
    s = shape(rng, dims=(1, 1, 2, 2), empty=False)
    store = [ufloat(1, .5)]
    es = []
    while len(es) < size(s):
        e, k = element(rng, gen.moderate(rng), store)
        if k in ('u', 'c', 'z'):
            es.append(e)
    a, k = view(rng, es, s)
    if len(s) == 2 and rng.random() < .4:
        a, k = unumpy.matrix(a), 'unumpy.matrix'
    what = rng.choice(['pickle', 'deepcopy', 'text'])
    ctx.log('storage', what, s, k, repr(es))
    ctx.distinct('storage', what, s, k)
    if what == 'text':
        f = io.StringIO()
        b = numpy.atleast_2d(a) if s[0] != 1 or len(s) == 2 else numpy.atleast_2d(a)
        numpy.savetxt(f, b, fmt='%r')
        f.seek(0)
        conv = dict.fromkeys(range(b.shape[1]), lambda x: ufloat_fromstr(
            x.decode('latin1') if isinstance(x, bytes) else x))
        r = numpy.loadtxt(f, converters=conv, dtype=object, ndmin=2)
        ctx.check(r.shape == b.shape, 'shape', got=r.shape, expected=b.shape)
        for g, e in zip(r.flat, numpy.asarray(b).flat):
            ctx.check(isinstance(g, UFloat) and g.n == e.n and
                      float(g.std_dev) == float(e.std_dev), 'element read back',
                      got=g, expected=e)
    else:
        b = pickle.loads(pickle.dumps(a, rng.randint(0, 5))) if what == 'pickle' else \
            copy.deepcopy(a)
        ctx.check(type(b) is type(a) and b.shape == a.shape and b.dtype == object,
                  'type or shape', got=(type(b), b.shape))
        for g, e in zip(b.flat, a.flat):
            ctx.check(type(g) is type(e) and gen.same_float(g.n, e.n) and
                      gen.same_float(float(g.std_dev), float(e.std_dev)), 'element',
                      got=g, expected=e)
        if what == 'pickle':
            # Correlations are kept
            es = list(a.flat)[:5]
            m = numpy.array(uncertainties.covariance_matrix(es))
            r = numpy.array(uncertainties.covariance_matrix(list(b.flat)[:5]))
            ctx.check(numpy.all(abs(m - r) <= 1e-13*numpy.sqrt(
                numpy.outer(numpy.diag(m), numpy.diag(m)))), 'covariances', got=r, expected=m)
    ctx.count('storage_' + what)


def mismatch(ctx):
    "Shapes that cannot be broadcast; names."
    rng = ctx.rng
    n = rng.choice([2, 3, 4])
    a = unumpy.uarray(numpy.arange(n), .1)
    b = unumpy.uarray(numpy.arange(n + 1), .1)
    ctx.log('mismatch', n)
    for f in (operator.add, operator.mul, unumpy.arctan2, unumpy.hypot, unumpy.uarray):
        r = attempt(f, a, b) if f is not unumpy.uarray else \
            attempt(f, numpy.arange(n), numpy.ones(n + 1))
        ctx.check(isinstance(r, Raised) and isinstance(r.exc, ValueError),
                  'incompatible shapes accepted', got=r)
    for name in spec.FUNCS1 + spec.FUNCS2 + spec.LOCALLY_CONSTANT:
        name = NUMPY_NAMES.get(name, name)
        ctx.check(callable(getattr(unumpy, name, None)) and name in unumpy.__all__,
                  'missing function', name=name)
    names = {}
    exec('from uncertainties.unumpy import *', names)
    for name in ('uarray', 'umatrix', 'nominal_values', 'std_devs', 'matrix', 'ulinalg',
                 'cos', 'arctan2', 'isnan'):
        ctx.check(name in names, 'name not exported', name=name)
    ctx.count('mismatches')


def large_shape(rng):
    k = rng.random()
    if k < .4:
        return (rng.choice([rng.randint(50, 600), rng.randint(500, 4000)]),)
    if k < .7:
        a = rng.randint(2, 60)
        s = (a, rng.randint(2, 2000//a))
        return s if rng.random() < .5 else s[::-1]
    return tuple(rng.choice([1, 2, 2, 3]) for _ in range(rng.randint(4, 9)))


def same_number(x, y):
    if not isinstance(x, UFloat):
        # (Comparisons)
        return not isinstance(y, UFloat) and bool(x == y)
    return isinstance(y, UFloat) and gen.same_float(x.n, y.n) and \
        list(map(id, x.derivatives)) == list(map(id, y.derivatives)) and \
        all(gen.same_float(float(d), float(y.derivatives[v]))
            for v, d in x.derivatives.items())


def large(ctx):
    "Large arrays, many dimensions: all the values, and derivatives of some elements."
    rng = ctx.rng
    s = large_shape(rng)
    n = size(s)
    seed = rng.randrange(2**32)
    g = numpy.random.default_rng(seed)
    noms = g.uniform(.1, .9, s)
    stds = g.uniform(.01, .5, s)*(g.random(s) < .9)
    kind = rng.choice(['C', 'F', 'list', 'float32', 'view'])
    if kind == 'float32':
        noms = noms.astype('f4')
    form = {'C': lambda x: x, 'F': numpy.asfortranarray, 'list': lambda x: x.tolist(),
            'float32': lambda x: x, 'view': lambda x: numpy.repeat(x, 2, -1)[..., ::2]}[kind]
    ctx.log('large', s, kind, seed)
    a = attempt(unumpy.uarray, form(noms), form(stds))
    ctx.check(not isinstance(a, Raised) and a.shape == s and a.dtype == object,
              'created array', got=a)
    flat = list(a.flat)
    fn, fs = [float(x) for x in noms.flat], [float(x) for x in stds.flat]
    ctx.check(all(isinstance(e, UFloat) and e.nominal_value == x and e.std_dev == y
                  for e, x, y in zip(flat, fn, fs)), 'created elements', shape=s)
    ctx.check(len(set(map(id, flat))) == n, 'elements share objects')
    if rng.random() < .3:
        i = tuple(rng.randrange(d) for d in s)
        a[i] = .25
        flat = list(a.flat)
        fn[int(numpy.ravel_multi_index(i, s))] = .25
        fs[int(numpy.ravel_multi_index(i, s))] = 0.
    for f, exp in ((unumpy.nominal_values, fn), (unumpy.std_devs, fs)):
        got = f(a)
        ctx.check(got.shape == s and got.dtype == float and got.ravel().tolist() == exp,
                  f.__name__, shape=s)
    # Functions and operators
    spots = {0, n - 1, n//2} | {rng.randrange(n) for _ in range(40)}
    for _ in range(3):
        k = rng.random()
        if k < .5:
            name = rng.choice([f for f in spec.FUNCS1 if f != 'acosh'])
            r = attempt(getattr(unumpy, NUMPY_NAMES.get(name, name)), a)
            f = getattr(umath, name)
            elem = lambda i: f(flat[i])
            plain = lambda i: getattr(math, name)(fn[i])
        else:
            name = rng.choice(['add', 'sub', 'mul', 'truediv', 'pow', 'lt', 'ge'])
            op = getattr(operator, name)
            m = rng.choice(['self', 'number', 'uncertain', 'floats', 'row', 'reverse'])
            x = ufloat(.5, .1)
            last = s[-1]
            row = [ufloat(.2 + .001*j, .1) for j in range(last)]
            other = {'self': lambda i: flat[i], 'number': lambda i: .5,
                     'uncertain': lambda i: x, 'floats': lambda i: fn[i],
                     'row': lambda i: row[i % last], 'reverse': lambda i: flat[n - 1 - i]}[m]
            b = {'self': a, 'number': .5, 'uncertain': x,
                 'floats': numpy.array(fn).reshape(s), 'row': numpy.array(row),
                 'reverse': numpy.array(flat[::-1] + [None], dtype=object)[:-1].reshape(s)}[m]
            swap = rng.random() < .5 and m not in ('number', 'floats', 'uncertain')
            r = attempt(op, b, a) if swap else attempt(op, a, b)
            elem = (lambda i: op(other(i), flat[i])) if swap else \
                (lambda i: op(flat[i], other(i)))
            nom = lambda e: e.n if isinstance(e, UFloat) else e
            plain = (lambda i: op(nom(other(i)), fn[i])) if swap else \
                (lambda i: op(fn[i], nom(other(i))))
            if name in ('lt', 'ge'):
                plain = elem
        ctx.check(not isinstance(r, Raised) and r.shape == s, 'result', operation=name, got=r)
        rs = list(r.flat)
        for i, e in enumerate(rs):
            p = plain(i)
            v = e.nominal_value if isinstance(e, UFloat) else e
            if not (v == p or v != v and p != p):
                ctx.check(False, 'nominal value', operation=name, index=i, shape=s,
                          got=e, expected=p)
        for i in spots:
            ctx.check(same_number(rs[i], elem(i)), 'element', operation=name, index=i,
                      shape=s, got=rs[i], expected=elem(i))
        ctx.count('elements', len(spots))
        ctx.count('large_elements', n)
        ctx.distinct('large', s, kind, name)
    # Sums
    axis = rng.choice([None, 0, -1])
    t = a.sum(axis=axis)
    exp = numpy.array(fn).reshape(s).sum(axis=axis)
    var = (numpy.array(fs).reshape(s)**2).sum(axis=axis)
    got = numpy.asarray(unumpy.nominal_values(t))
    ctx.check(got.shape == exp.shape and numpy.allclose(got, exp, rtol=1e-10), 'sum', shape=s)
    ctx.check(numpy.allclose(unumpy.std_devs(t), numpy.sqrt(var), rtol=1e-10, atol=1e-12),
              'uncertainty of the sum', shape=s)


WORKLOADS = [
    ('functions1', functions1, 120000, 2880000),
    ('functions2', functions2, 60000, 1440000),
    ('operators', operators, 120000, 2880000),
    ('unary_and_inplace', unary_and_inplace, 30000, 720000),
    ('creation', creation, 60000, 1440000),
    ('access', access, 40000, 960000),
    ('numpy_operations', numpy_operations, 60000, 1440000),
    ('storage', storage, 12500, 288000),
    ('mismatch', mismatch, 250, 1200),
    ('large', large, 400, 8000),
]
MIN = {'large_elements': 50000, 'elements': 50000, 'functions': 5000, 'functions2': 2500, 'operators': 3000,
       'created': 10000, 'accessed': 10000, 'accumulations': 5000, 'selections': 500,
       'comparisons': 1000, 'storage_text': 200, 'negative': 50}
