"""C10: comparisons."""
import math, operator, datetime, itertools
from fractions import Fraction
from decimal import Decimal
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath
import uncertainties.core as core
from .. import gen, spec, shadow
from ..spec import attempt, Raised

PROPERTY = 'C10'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor of all comparison operators in both operand orders '
             'against an independent model (integer linear combinations, and '
             'definition by the observed difference)')
NOTE = 'All pairs of generated operands, all six operators and truth values.'
RULE = ('distinct = (relation between the two operands, their types, nominal and '
        'standard deviation classes) with at least one uncertain operand')
ASSUMPTIONS = ['Plain integers are within the float range.']

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge}


def observed(ctx, a, b, what):
    "The six comparisons, as booleans."
    out = {}
    for name, op in OPS.items():
        r = op(a, b)
        ctx.count('comparisons')
        ctx.check(isinstance(r, (bool, numpy.bool_)), '%s: type of the result of %s'
                  % (what, name), result=r, a=a, b=b)
        out[name] = bool(r)
    return out


def check(ctx, a, b, na, nb, equal, what):
    """a, b: operands; na, nb: floats; equal: expected equality."""
    expected = {'==': equal, '!=': not equal, '<': na < nb, '>': na > nb,
                '<=': na < nb or equal, '>=': na > nb or equal}
    ctx.count('evaluations')
    got = observed(ctx, a, b, what)
    ctx.check(got == expected, '%s: comparison' % what, got=got, expected=expected,
              a=a, b=b)
    swapped = {'==': equal, '!=': not equal, '<': nb < na, '>': nb > na,
               '<=': nb < na or equal, '>=': nb > na or equal}
    got = observed(ctx, b, a, what)
    ctx.check(got == swapped, '%s: swapped comparison' % what, got=got,
              expected=swapped, a=b, b=a)


def value(rng):
    k = rng.random()
    if k < .5:
        return float(rng.randint(-3, 3))
    if k < .6:
        return rng.choice([gen.INF, -gen.INF, gen.NAN])
    return gen.any_float(rng)


def pairs(ctx):
    "Independent, identical, exact, plain operands; all float values."
    rng = ctx.rng
    for _ in range(6):
        x = value(rng)
        y = x if rng.random() < .5 else value(rng)
        if rng.random() < .15 and math.isfinite(x):
            y = rng.choice(gen.ulp_neighbours(x))
        sx, sy = [rng.choice([0, 0., 1, .5, 1e-300, 5e-324, 1e300,
                              gen.INF, gen.NAN]) for _ in range(2)]
        relation = rng.choice(['independent', 'independent', 'self', 'copy', 'plain',
                               'plain', 'zero', 'alias'])
        a = ufloat(x, sx, rng.choice([None, 'tag']))
        if rng.random() < .3:
            a = +a
        ctx.log(relation, repr(x), sx, repr(y), sy)
        diff0 = math.isfinite(x) and x - y == 0
        if relation == 'independent':
            b = ufloat(y, sy)
            check(ctx, a, b, x, y, diff0 and sx == 0 and sy == 0, relation)
        elif relation == 'copy':
            import copy
            b = rng.choice([copy.deepcopy])(a)
            check(ctx, a, b, x, x, math.isfinite(x) and sx == 0, relation)
        elif relation in ('self', 'alias'):
            b = a if relation == 'self' else rng.choice(
                [lambda: +a, lambda: -(-a), lambda: a*1, lambda: a + 0,
                 lambda: a - 0., lambda: 1*a, lambda: a/1, lambda: a**1,
                 lambda: __import__('copy').copy(a) if type(a) is not core.Variable
                 else a])()
            # (Non-finite numbers: the difference is undefined)
            eq = math.isfinite(x) and math.isfinite(sx)
            check(ctx, a, b, x, x, eq, relation)
        elif relation == 'zero':
            check(ctx, a, 0, x, 0., x == 0 and sx == 0, relation)
            t = bool(a)
            ctx.check(t is not (x == 0 and sx == 0), 'truth value', number=a, truth=t)
        else:
            b = gen.plain_scalar(rng, y, numpy)
            if rng.random() < .25 and math.isfinite(y):
                b = rng.choice([Fraction(y), Decimal(y), int(y) if abs(y) < 1e300
                                else y])
            with numpy.errstate(all='ignore'):
                fb = float(b)
            eq = x - fb == 0 and sx == 0
            # Operands of the same classes can be in both orders:
            if isinstance(b, Decimal):
                ctx.check(bool(a == b) is eq and bool(a != b) is not eq, 'Decimal',
                          a=a, b=b)
            else:
                check(ctx, a, b, x, fb, eq, 'plain ' + type(b).__name__)
        ctx.distinct(relation, repr(x), repr(y), repr(sx), repr(sy))


def combos(ctx):
    """Integer linear combinations of shared quantities, computed in different
    ways: equality is that of the coefficients (of uncertain quantities) and
    of the values."""
    rng = ctx.rng
    nv = rng.randint(1, 4)
    vs = [ufloat(float(rng.randint(-4, 4)), rng.choice([0, .5, 1, 3]))
          for _ in range(nv)]
    pool = [(v, {i: 1}, int(v.n)) for i, v in enumerate(vs)]
    for _ in range(rng.randint(2, 14)):
        (x, cx, nx), (y, cy, ny) = rng.choice(pool), rng.choice(pool)
        k = rng.randrange(5)
        keys = {**cx, **cy}
        if k == 0:
            t = x + y, {i: cx.get(i, 0) + cy.get(i, 0) for i in keys}, nx + ny
        elif k == 1:
            t = x - y, {i: cx.get(i, 0) - cy.get(i, 0) for i in keys}, nx - ny
        elif k == 2:
            t = -x, {i: -c for i, c in cx.items()}, -nx
        elif k == 3:
            m = rng.choice([2, -1, 3, 0])
            t = m*x, {i: m*c for i, c in cx.items()}, m*nx
        else:
            m = rng.randint(-3, 3)
            t = x + m, cx, nx + m
        if all(abs(c) < 2**30 for c in t[1].values()) and abs(t[2]) < 2**40:
            pool.append(t)
        if rng.random() < .2:
            rng.choice(pool)[0].std_dev
        if rng.random() < .1:
            j = rng.randrange(nv)
            vs[j].std_dev = rng.choice([0, 0, .5, 2])
    for _ in range(8):
        (x, cx, nx), (y, cy, ny) = rng.choice(pool), rng.choice(pool)
        if rng.random() < .5:
            # An equal recomputation, shifted by a constant so that values match
            order = list(cx.items())
            rng.shuffle(order)
            y = sum((c*vs[i] for i, c in order), 0) + 0
            ny = sum(c*int(vs[i].n) for i, c in order)
            shift = nx - ny
            y, ny, cy = y + shift, nx, cx
            if rng.random() < .3:
                j = rng.randrange(nv)
                cy = dict(cx)
                cy[j] = cy.get(j, 0) + 1
                y = y + vs[j] - vs[j].n
            if not isinstance(y, UFloat):
                y = y + 0*vs[0]
        same = all(cx.get(i, 0) == cy.get(i, 0) for i in range(nv)
                   if vs[i].std_dev != 0)
        ctx.count('equal' if same and nx == ny else 'unequal')
        check(ctx, x, y, float(nx), float(ny), same and nx == ny, 'combination')
        sx = any(c and vs[i].std_dev for i, c in cx.items())
        m = rng.choice([nx, 0, ny])
        check(ctx, x, m, float(nx), float(m), nx == m and not sx, 'combination/plain')
        ctx.check(bool(x) is not (nx == 0 and not sx), 'truth value', number=x)
        ctx.distinct('combo', tuple(sorted(cx.items())), tuple(sorted(cy.items())),
                     nx, ny, tuple(bool(v.std_dev) for v in vs))


def programs(ctx):
    "Definition through the observed difference, for any computed numbers."
    rng = ctx.rng
    p = shadow.Program(ctx, rng.randint(1, 4), zero=.3)
    p.grow(rng.randint(2, 12))
    # Reading the derivatives first: the rounding of sums of floats, which
    # depends on the order of the terms, is then the same in all the
    # comparisons below.
    for o in p.objs:
        o.derivatives
    for _ in range(8):
        a, b = rng.choice(p.objs), rng.choice(p.objs)
        if rng.random() < .3:
            b = rng.choice([a.n, 0, 1, b.n])
        nb = float(getattr(b, 'nominal_value', b))
        d = a - b
        eq = d.n == 0 and d.std_dev == 0
        check(ctx, a, b, a.n, nb, eq, 'program')
        e = b - a
        ctx.check((e.n == 0 and e.std_dev == 0) == eq, 'difference not symmetric')
        check(ctx, a, a, a.n, a.n, True, 'program, self')
        ctx.check(bool(a) is not (a.n == 0 and a.std_dev == 0), 'truth value',
                  number=a)
    # Independent quantity of the same value:
    a = rng.choice(p.objs)
    b = ufloat(a.n, rng.choice([.1, 2.]))
    check(ctx, a, b, a.n, a.n, False, 'independent quantity')
    ctx.distinct('program', tuple(ctx.trace))


class Alien(object):
    pass


class Reflecting(object):
    "Handles the comparison itself."
    def __eq__(self, o):
        return 'eq'

    def __ne__(self, o):
        return 'ne'

    def __lt__(self, o):
        return 'lt'

    def __gt__(self, o):
        return 'gt'

    def __le__(self, o):
        return 'le'

    def __ge__(self, o):
        return 'ge'
    __hash__ = None


FOREIGN = [lambda: None, lambda: 'abc', lambda: '1.0', lambda: '', lambda: b'1',
           lambda: [], lambda: [1.], lambda: (), lambda: (1., .1), lambda: {},
           lambda: {1}, lambda: 1j, lambda: complex(1, 0), lambda: object(),
           lambda: Alien(), lambda: int, lambda: ufloat, lambda: NotImplemented,
           lambda: Ellipsis, lambda: datetime.date(2020, 1, 1), lambda: range(3),
           lambda: (x for x in ()), lambda: numpy.complex128(1),
           lambda: numpy.str_('1'), lambda: numpy.bytes_(b'a'), lambda: 2 + 0j,
           lambda: slice(1), lambda: Exception(), lambda: bytearray(b'x'),
           lambda: lambda: 0, lambda: frozenset(), lambda: math]


def foreign(ctx):
    rng = ctx.rng
    for _ in range(5):
        x = rng.choice([ufloat(1, .1), ufloat(1, 0), ufloat(0, 0), 2*ufloat(1, .1),
                        ufloat(gen.NAN, 0), ufloat(2, 0, '1.0')])
        make = rng.choice(FOREIGN)
        y = make()
        ctx.log('foreign', repr(x), type(y).__name__, y)
        ctx.count('evaluations')
        for a, b, order in ((x, y, 'left'), (y, x, 'right')):
            r = attempt(operator.eq, a, b)
            ctx.count('comparisons')
            ctx.check(not isinstance(r, Raised) and isinstance(r, (bool, numpy.bool_))
                      and not r, '== with an object that is not a real number',
                      other=y, order=order, result=r)
            r = attempt(operator.ne, a, b)
            ctx.check(not isinstance(r, Raised) and isinstance(r, (bool, numpy.bool_))
                      and bool(r), '!= with an object that is not a real number',
                      other=y, order=order, result=r)
            for name in ('<', '>', '<=', '>='):
                r = attempt(OPS[name], a, b)
                ctx.check(isinstance(r, Raised) and isinstance(r.exc, TypeError),
                          '%s with an object that is not a real number' % name,
                          other=y, order=order, result=r)
        ctx.check((x in [y]) is False and (y in [x]) is False and
                  x not in (None, [], '', y), 'containment', other=y)
        ctx.distinct('foreign', type(y).__name__, repr(x))
    o = Reflecting()
    x = ufloat(1, .1)
    got = [OPS[k](x, o) for k in OPS]
    ctx.check(got == ['eq', 'ne', 'gt', 'ge', 'lt', 'le'],
              'comparison not delegated to the other object', got=got)


def collections_(ctx):
    "Sorting, containment, maximum, arrays."
    rng = ctx.rng
    n = rng.randint(2, 8)
    nums = [ufloat(float(rng.randint(-5, 5)), rng.choice([0, .1, 2]))
            for _ in range(n)]
    nums += [rng.choice(nums)*1, rng.randint(-5, 5), rng.uniform(-5, 5)]
    rng.shuffle(nums)
    ctx.log('sorted', repr(nums))
    val = lambda x: float(getattr(x, 'nominal_value', x))
    ctx.count('evaluations')
    s = sorted(nums)
    ctx.check([val(x) for x in s] == sorted(map(val, nums)), 'sorted()', got=s)
    ctx.check(val(max(nums)) == max(map(val, nums)) and
              val(min(nums)) == min(map(val, nums)), 'max() or min()')
    x = rng.choice(nums)
    ctx.check(x in nums and nums.count(x) >= 1 and nums[nums.index(x)] == x,
              'containment', x=x)
    y = ufloat(7., .1)
    ctx.check(y not in nums and nums.count(y) == 0, 'containment')
    arr = numpy.array([v for v in nums], dtype=object)
    lim = float(rng.randint(-5, 5))
    for name, op in OPS.items():
        r = op(arr, lim)
        exp = [bool(op(v, lim)) for v in nums]
        ctx.check([bool(b) for b in r] == exp, 'array %s number' % name, got=r,
                  expected=exp)
        r = op(lim, arr)
        exp = [bool(op(lim, v)) for v in nums]
        ctx.check([bool(b) for b in r] == exp, 'number %s array' % name, got=r,
                  expected=exp)
        u = [v for v in nums if isinstance(v, UFloat)][0]
        r = op(arr, u)
        exp = [bool(op(v, u)) for v in nums]
        ctx.check([bool(b) for b in r] == exp, 'array %s uncertain number' % name,
                  got=r, expected=exp)
        r = op(u, arr)
        exp = [bool(op(u, v)) for v in nums]
        ctx.check([bool(b) for b in r] == exp, 'uncertain number %s array' % name,
                  got=r, expected=exp)
    ctx.check(list(numpy.nonzero(arr)[0]) == [i for i, v in enumerate(nums) if v],
              'nonzero')
    # Quantities as dictionary keys:
    vs = [v for v in nums if type(v) is core.Variable]
    d = {v: i for i, v in enumerate(vs)}
    ctx.check(len(d) == len(vs) and all(d[v] == i for i, v in enumerate(vs)),
              'quantities as dictionary keys')
    ctx.check(all((hash(v) == hash(w)) or not (v is w) for v in vs for w in vs),
              'hash')
    ctx.distinct('coll', tuple(map(repr, nums)))


WORKLOADS = [
    ('pairs', pairs, 20000, 500000),
    ('combos', combos, 12000, 300000),
    ('programs', programs, 6000, 150000),
    ('foreign', foreign, 6000, 60000),
    ('collections', collections_, 6000, 100000),
]
MIN = {'comparisons': 200000, 'equal': 5000}
