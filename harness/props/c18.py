"""C18: creation, access, conversions."""
import array, collections, decimal, fractions, math, operator, struct, warnings
import numpy
import uncertainties
from uncertainties import (ufloat, UFloat, ufloat_fromstr, nominal_value, std_dev,
                           covariance_matrix, umath)
import uncertainties.core as core
from .. import gen, subclasses
from ..spec import attempt, Raised, make_uncertain
from ..parsemodel import parse
from . import c17

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: attributes, warnings and exceptions of each creation and '
             'access are recorded and compared with a table of the documented rules')
NOTE = ('All input types and call forms, modern and legacy; invalid inputs; accessors and '
        'utilities on all kinds of objects; attempted conversions.')
RULE = 'distinct = (call form, types and kinds of the arguments)'
ASSUMPTIONS = ['Strings that float() accepts are only given alone.',
               'The type of the exception of invalid inputs is only specified for '
               'negative standard deviations.']


class Money(object):
    "Only convertible to float."

    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x

    def __lt__(self, other):
        return self.x < other

    def __gt__(self, other):
        return self.x > other


class MyFloat(float):
    pass


class MyInt(int):
    pass


Pair = collections.namedtuple('Pair', 'a b')


def plain(rng):
    k = rng.random()
    if k < .15:
        return rng.choice([0., -0., 1., -1., 5e-324, 1.7e308, gen.INF, -gen.INF, gen.NAN])
    if k < .5:
        return rng.choice([1, -1])*rng.uniform(.1, 1)*10.**rng.randint(-12, 12)
    if k < .6:
        return rng.choice([1, -1])*math.ldexp(rng.random(), rng.randint(-1060, 1020))
    return float(rng.randint(-1000, 1000))


def typed(rng, x):
    "Some object that converts to a float (the float itself is given by float())."
    k = rng.randrange(14)
    if k < 3 or not math.isfinite(x) and k in (3, 4, 5, 6, 9, 11, 12):
        return x
    if k == 3:
        return int(x)
    if k == 4:
        return bool(x)
    if k == 5:
        return fractions.Fraction(x)
    if k == 6:
        return decimal.Decimal(x)
    if k == 7:
        return numpy.float64(x)
    if k == 8:
        with numpy.errstate(all='ignore'):
            return numpy.float32(x)
    if k == 9:
        return numpy.int64(int(x)) if abs(x) < 2**62 else x
    if k == 10:
        return MyFloat(x)
    if k == 11:
        return MyInt(int(x))
    if k == 12:
        return Money(x)
    return numpy.array(x)       # 0-dimensional


def deviation(rng):
    while True:
        s = typed(rng, abs(plain(rng)))
        if not (isinstance(s, decimal.Decimal) and s.is_nan()):
            return s


class Uncomparable(object):
    "Tags are only stored: they need not be comparable."
    def __eq__(self, other):
        raise TypeError('no comparison')

    __ne__ = __eq__
    __hash__ = None

    def __bool__(self):
        raise TypeError('no truth value')


def a_tag(rng):
    return rng.choice([None, 'x', '', u'\xb5', 'a longer tag\n', 3, ('t', 1), [1], 2.5,
                       frozenset('a'), 'nan', '1+/-2', True, float('nan'), 0, 0., (),
                       numpy.array([1, 2]), Uncomparable(), object, False])


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or \
        (a == b and math.copysign(1, a) == math.copysign(1, b))


def nature(x):
    try:
        f = float(x)
    except Exception:
        return type(x).__name__
    return type(x).__name__, ('nan' if math.isnan(f) else 'inf' if math.isinf(f) else
                              0 if f == 0 else 1 if f > 0 else -1)


def caught(f, *args, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = attempt(f, *args, **kw)
    return r, w


def is_obsolete(ctx, w, number=1):
    ctx.check(len(w) == number, 'number of warnings', got=[str(x.message) for x in w])
    for x in w:
        ctx.check(str(x.message).startswith('Obsolete') and
                  issubclass(x.category, UserWarning), 'not an obsolescence warning',
                  got=str(x.message), category=x.category)
        ctx.check(x.filename.split('/')[-1] in ('c18.py', 'spec.py'),
                  'warning not located at the call', got=x.filename)
    ctx.count('obsolescence_warnings', number)


def new_variable(ctx, x, value, s, tag, **info):
    "x is a new independent variable that reports exactly this."
    ctx.check(not isinstance(x, Raised), 'creation raised', got=x, **info)
    ctx.check(type(x) is core.Variable and isinstance(x, UFloat), 'type', got=type(x), **info)
    ctx.check(type(x.nominal_value) is float and same(x.nominal_value, value),
              'nominal value', got=x.nominal_value, expected=value, **info)
    ctx.check(isinstance(x.std_dev, float) and same(x.std_dev, s), 'standard deviation',
              got=float(x.std_dev), expected=s, **info)
    ctx.check(x.tag is tag or attempt(lambda: bool(x.tag == tag)) is True, 'tag',
              got=x.tag, expected=tag, **info)
    access(ctx, x)
    d = x.derivatives
    ctx.check(len(d) == 1 and list(d)[0] is x and list(d.values()) == [1.], 'derivatives',
              got=d, **info)
    e = x.error_components()
    ctx.check(len(e) == 1 and list(e)[0] is x and (same(float(e[x]), s) or e[x] == s == 0),
              'components', got=e, **info)
    ctx.count('created')


def access(ctx, x):
    "Names and utilities agree."
    n, s = x.nominal_value, x.std_dev
    ctx.check(same(x.n, n) and same(nominal_value(x), n) and
              same(uncertainties.nominal_value(x), n), 'accesses to the nominal value', x=x)
    ctx.check(all(same(float(t), float(s)) or float(t) == float(s) == 0
                  for t in (x.s, std_dev(x), uncertainties.std_dev(x))),
              'accesses to the standard deviation', s=float(s), short=float(x.s),
              function=float(std_dev(x)))


def create(rng, v, s, tag):
    "(function, args, kwargs, name)"
    k = rng.randrange(10)
    if tag is None and k < 4:
        return [(ufloat, (v, s), {}), (ufloat, (v,), {'std_dev': s}),
                (ufloat, (), {'nominal_value': v, 'std_dev': s}),
                (ufloat, (v, s, None), {})][k] + ('no tag %d' % k,)
    if k < 6:
        return ufloat, (v, s, tag), {}, 'positional'
    if k < 8:
        return ufloat, (v, s), {'tag': tag}, 'tag keyword'
    if k == 8:
        return ufloat, (), {'tag': tag, 'std_dev': s, 'nominal_value': v}, 'keywords'
    if rng.random() < .5:
        return core.Variable, (v, s, tag), {}, 'Variable'
    return core.Variable, (), {'value': v, 'std_dev': s, 'tag': tag}, 'Variable keywords'


def modern(ctx):
    rng = ctx.rng
    made = []
    for _ in range(8):
        v, s, tag = typed(rng, plain(rng)), deviation(rng), a_tag(rng)
        f, args, kw, name = create(rng, v, s, tag)
        ctx.log('create', name, repr(v), repr(s), repr(tag))
        if isinstance(v, (int, fractions.Fraction)) and isinstance(attempt(float, v), Raised):
            continue
        x, w = caught(f, *args, **kw)
        info = dict(form=name, given=v, given_std=s, given_tag=tag)
        ctx.check(not w, 'warning', got=[str(t.message) for t in w], **info)
        new_variable(ctx, x, float(v), float(s), tag, **info)
        again, _ = caught(f, *args, **kw)
        ctx.check(again is not x, 'not a new variable', **info)
        if math.isfinite(x.n) and math.isfinite(x.s) and x.s:
            ctx.check(x == x and x != again and hash(x) != hash(again),
                      'not independent of a variable of the same value', **info)
        made.append(x)
        ctx.distinct(name, nature(v), nature(s), type(tag).__name__)
    ok = [x for x in made if math.isfinite(x.s) and x.s < 1e150]
    if len(ok) > 1:
        m = covariance_matrix(ok)
        ctx.check(all(m[i][j] == 0 for i in range(len(ok)) for j in range(i)),
                  'new variables are correlated', matrix=m)
        ctx.count('independence')


def legacy_creation(ctx):
    rng = ctx.rng
    for _ in range(6):
        tag = rng.choice([None, 'x', u'\xb5', 'a b', '', a_tag(rng)])
        k = rng.random()
        if k < .5:
            v, s = typed(rng, plain(rng)), deviation(rng)
            if isinstance(attempt(float, v), Raised):
                continue
            rep = (v, s) if rng.random() < .8 else Pair(v, s)
            value, std = float(v), float(s)
            shape = 'tuple', nature(v), nature(s)
        else:
            rep = c17.documented(rng)
            p = parse(rep)
            value, std = p[0].float(), p[1].float()
            if math.isnan(std) and 'n' not in rep.lower():
                continue
            shape = 'string', p[2]
        if tag is None:
            args, kw = rng.choice([((rep,), {}), ((), {'nominal_value': rep}),
                                   ((rep, None), {}), ((rep,), {'tag': None})])
        else:
            args, kw = rng.choice([((rep, tag), {}), ((rep,), {'tag': tag}),
                                   ((rep, None, tag), {}), ((rep,), {'std_dev': tag})])
            if shape[0] == 'string' and not isinstance(tag, str):
                # (As a second argument, this can be a standard deviation)
                args, kw = rng.choice([((rep,), {'tag': tag}), ((rep, None, tag), {})])
        ctx.log('legacy', repr(args), repr(kw))
        x, w = caught(ufloat, *args, **kw)
        new_variable(ctx, x, value, std, tag, args=args, kw=kw)
        is_obsolete(ctx, w)
        # The obsolete form is a usable one when warnings are ignored, and an error
        # when they are errors:
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            r = attempt(ufloat, *args, **kw)
        ctx.check(isinstance(r, Raised) and isinstance(r.exc, UserWarning),
                  'no warning turned into an error', got=r)
        ctx.count('legacy')
        ctx.distinct(shape, tag is None, len(args), sorted(kw))


def negative(rng):
    s = -abs(plain(rng))
    while not s < 0:
        s = -abs(plain(rng))
    if rng.random() < .5:
        t = typed(rng, s)
        if not isinstance(t, (bool, Money)) and float(t) < 0:
            return t
    return s


def invalid(ctx):
    rng = ctx.rng
    u = make_uncertain(rng, 2.5, .5)
    for _ in range(8):
        v, s = plain(rng), abs(plain(rng))
        k = rng.randrange(9)
        kinds = None
        if k < 3:
            kinds = core.NegativeStdDev
            n = negative(rng)
            args, kw = rng.choice([((v, n), {}), ((v, n, 'tag'), {}), (((v, n),), {}),
                                   ((v,), {'std_dev': n}), (((v, n), 'tag'), {}),
                                   (((v, n),), {'tag': 't'})])
        elif k == 3:
            args, kw = rng.choice([((1j, s), {}), ((v, 1j), {}), ((complex(v, 1), s), {}),
                                   (((1j, s),), {}), (((v, 1j),), {}),
                                   ((numpy.complex128(1j), 1j), {})])
        elif k == 4:
            args, kw = rng.choice([((None, s), {}), ((None,), {}), ((None, None), {}),
                                   (([], s), {}), (({}, 1), {}), ((object(), s), {}),
                                   ((v, object()), {}), ((v, []), {}), ((v, {}), {}),
                                   ((len, s), {}), ((v, len), {}), (([v, s],), {})])
        elif k == 5:
            args, kw = rng.choice([((u, s), {}), ((v, u), {}), ((u, u), {}), ((u,), {}),
                                   (((u, s),), {}), (((v, u),), {}), ((u, None, 't'), {})])
        elif k == 6:
            args, kw = rng.choice([(((),), {}), (((v,),), {}), (((v,), 'tag'), {}),
                                   ((('a', 'b'),), {}), (((None, None),), {})])
        elif k == 7:
            args, kw = rng.choice([((), {}), ((v,), {}), ((v,), {'tag': 't'}),
                                   ((v, s, None, None), {}), ((v, s), {'name': 't'}),
                                   ((v, 'tag'), {}), ((v, 'tag', 'tag'), {})])
        else:
            t = c17.documented(rng)
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(['a', '%', '!', '(', '+/-', '..', ',', '\n0', '[']) + t[i:]
            if parse(t) is not None or c17.loose(t):
                continue
            args, kw = rng.choice([((t,), {}), ((t, 'tag'), {}), ((t,), {'tag': 'x'})])
            kinds = ValueError
        ctx.log('invalid', repr(args), repr(kw))
        r, w = caught(ufloat, *args, **kw)
        ctx.check(isinstance(r, Raised), 'invalid creation accepted', args=args, kw=kw, got=r)
        if kinds:
            ctx.check(isinstance(r.exc, kinds), 'exception of an invalid creation',
                      args=args, kw=kw, got=r)
        ctx.check(not [t for t in w if 'Obsolete' in str(t.message)],
                  'obsolescence warning for an invalid creation', args=args, kw=kw)
        ctx.count('invalid')
        ctx.distinct('invalid', [nature(a) for a in args], sorted(kw), k)


def setting(ctx):
    "Standard deviations can be changed, validly; nothing else can."
    rng = ctx.rng
    a = ufloat(rng.uniform(-3, 3), rng.uniform(.1, 1), rng.choice([None, 'a']))
    b = ufloat(2., .25)
    f = a*3 + b
    if rng.random() < .5:
        f.derivatives
    for _ in range(8):
        old = float(a.std_dev)
        fs = float(f.std_dev)
        k = rng.randrange(5)
        if k < 2:
            s = deviation(rng)
            ctx.log('set', k, repr(s))
            if k:
                a.std_dev = s
            else:
                r, w = caught(a.set_std_dev, s)
                ctx.check(r is None, 'result of set_std_dev()', got=r)
                is_obsolete(ctx, w)
            s = float(s)
            ctx.check(isinstance(a.std_dev, float) and same(a.std_dev, s),
                      'changed standard deviation', got=float(a.std_dev), expected=s)
            access(ctx, a)
            want = math.hypot(3*s, .25)
            got = float(f.std_dev)
            ctx.check(math.isclose(got, want, rel_tol=1e-12) or same(got, want) or
                      math.isnan(s) and math.isnan(got) or math.isinf(s),
                      'result of a changed variable', got=got, expected=want)
            ctx.count('changes')
        elif k == 2:
            bad = rng.choice([negative(rng), negative(rng), None, 1j, [], 'text', object(),
                              ufloat(1, .1), (1,)])
            ctx.log('set', k, repr(bad))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = (attempt(setattr, a, 'std_dev', bad) if rng.random() < .5 else
                     attempt(a.set_std_dev, bad))
            ctx.check(isinstance(r, Raised), 'invalid standard deviation accepted', value=bad)
            if isinstance(bad, float):
                ctx.check(isinstance(r.exc, core.NegativeStdDev), 'exception', got=r)
            ctx.check(same(float(a.std_dev), old) and same(float(f.std_dev), fs),
                      'state changed by a refused standard deviation', value=bad,
                      now=float(a.std_dev), before=old)
            ctx.count('refused_changes')
        elif k == 3:
            o, name = rng.choice([(a, 'nominal_value'), (a, 'n'), (f, 'nominal_value'),
                                  (f, 'n'), (f, 'std_dev'), (f, 's'), (f, 'derivatives'),
                                  (a, 'derivatives')])
            r = attempt(setattr, o, name, 1.5)
            ctx.check(isinstance(r, Raised) and isinstance(r.exc, AttributeError),
                      'read-only attribute set', name=name, got=r)
            ctx.check(same(float(a.std_dev), old), 'state')
            ctx.count('read_only')
        else:
            t = a_tag(rng)
            a.tag = t
            ctx.check(a.tag is t and same(float(a.std_dev), old), 'changed tag')


def legacy_access(ctx):
    rng = ctx.rng
    x = make_uncertain(rng, plain(rng), float(abs(plain(rng))))
    if rng.random() < .3:
        x = rng.choice([x*2, -x, umath.sin(ufloat(1, .1)), x + ufloat(1, .5)])
    s = float(x.std_dev)
    ctx.log('legacy access', repr(x))
    for f in (lambda: x.std_dev(), lambda: x.s(), lambda: std_dev(x)()):
        r, w = caught(f)
        ctx.check(isinstance(r, float) and same(r, s), 'legacy standard deviation', got=r,
                  expected=s)
        is_obsolete(ctx, w)
    r, w = caught(lambda: (x.std_dev, x.s, std_dev(x), x.n, x.nominal_value, repr(x),
                           x.error_components(), x.std_dev + 1, float(x.std_dev)))
    ctx.check(not w, 'warning of a modern access', got=[str(t.message) for t in w])
    y = x.std_dev
    ctx.check(same(y*1, s) and repr(y) == repr(s) and (y == s or math.isnan(s)) and
              ('%.3e' % y) == ('%.3e' % s) and format(y, '.4g') == format(s, '.4g') and
              str(y) == str(s) and hash(y) == hash(s) or math.isnan(s),
              'standard deviation not usable as a float')
    ctx.count('legacy_access')


class Other(object):
    nominal_value = n = 7
    std_dev = s = 8


def utilities(ctx):
    rng = ctx.rng
    for _ in range(10):
        o = rng.choice([0, 1, -3, 2.5, gen.NAN, gen.INF, True, 3j, 'text', b'', None, [], (),
                        {}, object(), Other(), Other, numpy.float64(2), numpy.int32(1),
                        numpy.arange(3), numpy.array(2.5), fractions.Fraction(1, 3),
                        decimal.Decimal(2), MyFloat(1), MyInt(4), Money(2.), 10**400,
                        [ufloat(1, .1)], (ufloat(1, .1),), ufloat, numpy.array([None])])
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            n, s = nominal_value(o), std_dev(o)
        ctx.log('utilities', type(o).__name__)
        ctx.check(n is o, 'object changed by nominal_value()', got=n)
        ctx.check(type(s) is float and same(s, 0.), 'standard deviation of an object', got=s)
        ctx.count('objects')
        ctx.distinct('object', type(o).__name__)
    v, s = plain(rng), abs(plain(rng))
    x = make_uncertain(rng, v, s)
    access(ctx, x)
    ctx.check(same(nominal_value(x), v), 'nominal_value()')
    cls = rng.choice(subclasses.VARIABLE_CLASSES)
    y = cls(v, s)
    access(ctx, y)
    z = rng.choice(subclasses.RESULT_CLASSES)(v, core.LinearCombination({y: 1.}))
    access(ctx, z)
    ctx.check(same(z.n, v) and isinstance(z, UFloat), 'subclass')


def scores(ctx):
    rng = ctx.rng
    for _ in range(8):
        s = rng.choice([0., 1., .5, abs(plain(rng)), rng.uniform(.1, 3)])
        n = plain(rng)
        x = make_uncertain(rng, n, s)
        if rng.random() < .2:
            x = ufloat(1, .1)*n + s*ufloat(0, 1) if math.isfinite(n) and s else x
        n, sd = x.nominal_value, float(x.std_dev)
        v = typed(rng, plain(rng))
        if isinstance(v, (decimal.Decimal, Money)) or isinstance(attempt(float, v), Raised):
            v = float(v)
        if rng.random() < .15:
            v = numpy.array([1., 2.5, -3.])
        if rng.random() < .2:
            v = float(n + rng.uniform(-5, 5)*(sd if math.isfinite(sd) else 1))
        ctx.log('score', repr(x), repr(v))
        with numpy.errstate(all='ignore'):
            r = attempt(x.std_score, v)
            if sd == 0:
                ctx.check(isinstance(r, Raised) and isinstance(r.exc, ValueError),
                          'standard score without standard deviation', got=r, value=v)
                ctx.count('undefined_scores')
            else:
                ctx.check(not isinstance(r, Raised), 'standard score raised', got=r, value=v)
                vs = v.ravel() if isinstance(v, numpy.ndarray) else [v]
                rs = r.ravel() if isinstance(r, numpy.ndarray) else [r]
                ctx.check(len(vs) == len(rs), 'shape of scores', got=r)
                for a, b in zip(vs, rs):
                    a = float(a)
                    want = (a - n)/sd
                    tol = 1e-6 if isinstance(v, numpy.float32) else 1e-15
                    ctx.check(math.isclose(float(b), want, rel_tol=tol) or
                              same(float(b), want) or
                              isinstance(v, numpy.float32) and (
                                  not math.isfinite(float(b)) or abs(float(b)) < 1e-30),
                              'standard score', got=b, expected=want, value=a, x=x)
                ctx.count('scores')
        ctx.distinct('score', nature(v) if not isinstance(v, numpy.ndarray) else 'array',
                     sd == 0, nature(n), nature(sd))


CONVERSIONS = [
    ('float', float), ('int', int), ('complex', complex), ('index', operator.index),
    ('complex2', lambda x: complex(1, x)), ('complex1', lambda x: complex(x, 1)),
    ('int base', lambda x: int(x, 10)), ('hex', hex), ('range', range),
    ('getitem', lambda x: [1, 2, 3][x]), ('%d', lambda x: '%d' % x),
    ('%f', lambda x: '%f' % x), ('%e', lambda x: '%e' % x), ('%g', lambda x: '%g' % x),
    ('%x', lambda x: '%x' % x),
    ('math', lambda x: math.sin(x)), ('sqrt', lambda x: math.sqrt(x)),
    ('struct', lambda x: struct.pack('d', x)), ('array', lambda x: array.array('d', [x])),
    ('array int', lambda x: array.array('i', [x])),
    ('numpy', lambda x: numpy.array([x], dtype=float)),
    ('numpy float', lambda x: numpy.float64(x)), ('numpy int', lambda x: numpy.int64(x)),
    ('numpy complex', lambda x: numpy.array([x], dtype=complex)),
    ('numpy set', lambda x: numpy.zeros(2).__setitem__(0, x)),
    ('numpy astype', lambda x: numpy.array([x]).astype(float)),
    ('fill', lambda x: numpy.zeros(2).fill(x)), ('chr', chr), ('bin', bin),
    ('repeat', lambda x: 'a'*x), ('list repeat', lambda x: [1]*x), ('slice',
                                                                     lambda x: [1, 2][:x]),
    ('Fraction', fractions.Fraction), ('isfinite', math.isfinite),
    ('isclose', lambda x: math.isclose(x, 1.)), ('math.pow', lambda x: math.pow(2, x)),
    ('MyFloat', MyFloat), ('MyInt', MyInt), ('fromnumber', lambda x: float.__new__(float, x)),
]


def conversions(ctx):
    rng = ctx.rng
    s = rng.choice([0., .5, abs(plain(rng))])
    x = make_uncertain(rng, rng.choice([0., 1., 2., plain(rng)]), s)
    k = rng.random()
    if k < .15:
        x = x + ufloat(1, .1)
    elif k < .3:
        x = rng.choice(subclasses.VARIABLE_CLASSES)(1., .5)
    elif k < .4:
        x = rng.choice(subclasses.RESULT_CLASSES)(1., core.LinearCombination({ufloat(1, s): 1.}))
    for name, f in rng.sample(CONVERSIONS, 12):
        r = attempt(f, x)
        ctx.log('convert', name, type(x).__name__, repr(r)[:80])
        ctx.check(isinstance(r, Raised) and isinstance(r.exc, (TypeError, ValueError, struct.error)),
                  'silent conversion', conversion=name, x=x, got=r)
        if name in ('float', 'int', 'complex'):
            ctx.check(isinstance(r.exc, TypeError), 'exception of a conversion', got=r)
        ctx.count('conversions')
        ctx.distinct('conversion', name, type(x).__name__)


WORKLOADS = [
    ('modern', modern, 15000, 900000),
    ('legacy_creation', legacy_creation, 12000, 600000),
    ('invalid', invalid, 15000, 600000),
    ('setting', setting, 12000, 600000),
    ('legacy_access', legacy_access, 9000, 360000),
    ('utilities', utilities, 9000, 300000),
    ('scores', scores, 15000, 720000),
    ('conversions', conversions, 12000, 360000),
]
MIN = {'created': 40000, 'legacy': 15000, 'invalid': 20000, 'changes': 8000,
       'refused_changes': 3000, 'read_only': 3000, 'legacy_access': 2000, 'objects': 15000,
       'scores': 15000, 'undefined_scores': 3000, 'conversions': 30000,
       'independence': 2000, 'obsolescence_warnings': 20000}
