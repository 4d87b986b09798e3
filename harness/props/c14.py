"""C14: digits of the formatted numbers."""
import math, re
from decimal import Decimal
from uncertainties import ufloat
import uncertainties.core as core
from .. import gen, fw
from ..spec import attempt, Raised
from ..fmtmodel import (read, numbers, plan, special, decimals, CTX, Unreadable, rnd,
                        adjusted, finite, near_power, carry_tie)

PROPERTY = 'C14'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: an independent reader decodes every formatted string '
             'and an exact decimal model of the rules judges the digits displayed')
NOTE = ('Generated values dense around rounding carries, PDG thresholds and exponent '
        'thresholds; all precisions, uncertainty controls, types and notations.')
RULE = 'distinct = (value, uncertainty, format specification)'
ASSUMPTIONS = [
    'A last digit may be off by the rounding of the division by the common exponent '
    '(relative error 1e-15 of the value).',
    'Digits of values exactly at a threshold of the rules to within 1e-10 are '
    'not specified.',
    'The percent type displays the float product of the value by 100.']


def uncertainty(rng):
    k = rng.random()
    if k < .06:
        return rng.choice([0., gen.NAN, gen.INF, gen.NAN])
    e = rng.choice([0, -1, 1, -2, -5, 3, rng.randint(-20, 20), rng.randint(-6, 6),
                    rng.randint(-280, 280)])
    if k < .4:
        m = rng.choice([.354, .355, .3549, .3551, .949, .95, .9499, .9501, .0995, .0996,
                        .0994, .95, .999, .9999, .99, 1., .1, .5, .25, .15, .35, .45,
                        .125, .994, .995, .996, .35499999, .94999999, .9995, .99951,
                        .9949999, 2.5, 1.5, .05])
    elif k < .6:
        m = round(rng.uniform(.1, 1), rng.randint(1, 5))
    else:
        m = rng.uniform(.1, 1)
    return float('%re%d' % (m, e))


def nominal(rng, s):
    k = rng.random()
    if k < .05:
        return rng.choice([0., -0., gen.NAN, gen.INF, -gen.INF])
    s0 = s if s and finite(s) else 10.**rng.randint(-8, 8)
    sign = rng.choice([1, 1, -1])
    if k < .3:
        # Rounding carries and ties:
        e = math.floor(math.log10(s0)) + rng.randint(-2, 5)
        m = rng.choice(['9.99', '9.95', '9.9999', '0.5', '1.5', '2.5', '99.5', '999.5',
                        '9999.5', '0.99951', '0.15', '0.25', '1', '10', '12.345',
                        '999999.5', '99999.95', '1234567.5', '5', '0.05', '1.00005'])
        if -290 < e < 290:
            return sign*float('%se%d' % (m, e))
    if k < .5:
        # Exponent thresholds:
        return sign*rng.choice([1e-4, 9.9999e-5, 9.9995e-5, 1e-5, 99999.5, 1e5, 1e6,
                                999999.4999, 999999.5, 1e12, 1e11, 999999999999.5,
                                1e16, 123456.7, 0.00012345, 1e-3])
    r = rng.choice([rng.uniform(-3, 8), rng.uniform(-1, 3), rng.uniform(-20, 20),
                    rng.uniform(-14, 14)])
    x = sign*s0*10**r if -290 < math.log10(s0) + r < 290 else sign*s0
    if rng.random() < .4:
        x = float('%.*g' % (rng.randint(1, 6), x))
    return x


def options(rng):
    return ''.join(rng.sample('PLSp', rng.choice([0, 0, 0, 1, 1, 2, 3])))


def spec(rng):
    prec = rng.choice([None, None, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 15, 20])
    u = rng.random() < .5
    typ = rng.choice(['', '', 'f', 'F', 'e', 'E', 'g', 'G', '%'])
    sign = rng.choice(['', '', '', '+', ' ', '-'])
    comma = ',' if rng.random() < .1 else ''
    return prec, u, typ, sign, comma


def float_spec(prec, typ):
    """Float format of the parts of a number with no meaningful uncertainty. No type
    with a precision is the g type (the exponent is decided for the whole number)."""
    return typ if prec is None else '.%d%s' % (prec, typ or 'g')


def judge(ctx, x, s, sp, opts, text):
    """Compares a formatted string with the rules."""
    prec, u, typ, sign, comma = sp
    p = plan(x, s, prec, u, typ)
    if p == 'error':
        ctx.check(isinstance(text, Raised) and isinstance(text.exc, ValueError),
                  'zero significant digits accepted', text=text)
        return
    ctx.check(not isinstance(text, Raised), 'formatting raised', text=text)
    try:
        parts = read(text, opts, p.percent)
    except Unreadable as e:
        ctx.fail('unreadable', text=text, error=str(e))
    shorthand = 'S' in opts
    n, e = numbers(parts, shorthand)
    x, s = p.x, p.std
    info = dict(text=text, value=x, std=s, spec=sp, options=opts)
    upper = typ.isupper()
    # Special values:
    if not finite(x):
        want = 'nan' if math.isnan(x) else 'inf' if x > 0 else '-inf'
        ctx.check(n == want, 'special nominal value', **info)
        if 'L' not in opts or math.isnan(x):
            core_ = parts['nom'].replace('\\mathrm', '')
            ctx.check(core_.upper() == core_ if upper else core_.lower() == core_,
                      'case of a special value', **info)
    else:
        ctx.check(isinstance(n, Decimal), 'nominal value not displayed', **info)
    if s == 0:
        ctx.count('zero_uncertainties')
        ctx.check(parts['err'] == '0', 'exactly zero uncertainty', **info)
    elif not finite(s):
        want = 'nan' if math.isnan(s) else 'inf'
        ctx.check(e == want, 'special uncertainty', **info)
    else:
        ctx.check(not isinstance(e, str), 'uncertainty not displayed', **info)
    if p.ambiguous:
        ctx.count('ambiguous')
    # Exponent:
    exp = parts['exp']
    if not p.ambiguous:
        ctx.check(exp == p.exp, 'exponent', expected=p.exp, got=exp, **info)
        ctx.count('with_exponent' if exp is not None else 'without_exponent')
    elif p.exp is not None and exp is not None:
        ctx.check(abs(exp - p.exp) <= 1, 'exponent', expected=p.exp, got=exp, **info)
    if exp is not None and 'P' not in opts and 'L' not in opts:
        letter = text[text.rindex(parts['exp_str']) - 1]
        ctx.check(letter == ('E' if upper else 'e'), 'exponent letter', **info)
    ex = exp or 0
    real_s = s != 0 and finite(s)
    slack_rel = Decimal('1e-15') if exp is not None else Decimal('1e-40')
    # Number of decimals:
    digits = [parts['nom']] if finite(x) else []
    if real_s and (not shorthand or '.' in parts['err']) and parts['err'] != '0.' \
            and not (not finite(x) and typ in ('', 'g', 'G')):
        digits.append(parts['err'])
    free = not real_s and typ in ('', 'g', 'G')
    if p.limit is not None and not free and not p.ambiguous:
        want = max(-(p.limit - ex), 0)
        for d in digits:
            ctx.check(decimals(d) == want, 'last displayed digit', part=d,
                      expected_decimals=want, **info)
    if len(digits) == 2:
        ctx.check(decimals(digits[0]) == decimals(digits[1]), 'value and uncertainty '
                  'not displayed to the same decimal position', **info)
    # Values:
    if finite(x):
        if not free:
            half = Decimal(1).scaleb(ex - decimals(parts['nom']), CTX)/2
        elif exp is None:
            # Same digits as the float format
            want = format(x, sign + comma + float_spec(prec, typ))
            ctx.check(parts['nom'] == want, 'value of a number without uncertainty',
                      expected=want, **info)
            half = None
        else:
            m = parts['nom'].replace(',', '').strip(' +-')
            nd = (17 if not typ else 6) if prec is None else (prec or 1)
            half = Decimal(1).scaleb(ex - nd + 1, CTX)/2
            if typ or prec is not None:
                ctx.check(p.ambiguous or len(m.replace('.', '').rstrip('0')) <= nd, 'digits of a number '
                          'without uncertainty', **info)
        if half is not None:
            diff = abs(n - Decimal(x))
            ctx.check(diff <= half*(1 + Decimal('1e-9')) + slack_rel*abs(Decimal(x)),
                      'nominal value not correctly rounded', diff=diff, half=half, **info)
        if n == 0:
            neg = parts['nom'].strip().startswith('-')
            ctx.check(neg == (math.copysign(1, x) < 0), 'sign of a null value', **info)
    if real_s:
        if isinstance(e, tuple):
            # Shorthand notation with a special nominal value: digits only
            return
        if digits and not (not finite(x) and typ in ('', 'g', 'G')):
            dec = decimals(digits[-1])
            pos = ex - dec
            half = Decimal(1).scaleb(pos, CTX)/2
            # The PDG rule rounds up uncertainties of 0.950 to 0.999:
            diff = abs(e - p.ds)
            if p.ambiguous:
                diff = min(diff, abs(e - Decimal(s)),
                           abs(e - Decimal(1).scaleb(Decimal(s).adjusted() + 1)))
            ctx.check(diff <= half*(1 + Decimal('1e-9')) +
                      Decimal('1e-15')*Decimal(s), 'uncertainty not correctly rounded',
                      diff=diff, half=half, **info)
            if p.control and not p.ambiguous:
                ctx.count('controlled')
                # Number of significant digits:
                nd = adjusted(e) - pos + 1
                if exp is not None and nd == p.nsig + 1 and \
                        abs(p.ds/(e - half) - 1) < Decimal('1e-14'):
                    # Tie decided by the rounding of the division
                    nd -= 1
                if p.limit - ex <= 0:
                    ctx.check(nd == p.nsig, 'significant digits of the uncertainty',
                              got=nd, expected=p.nsig, **info)
                else:
                    # Digits before the decimal point are always shown
                    ctx.check(nd >= p.nsig and pos == 0, 'significant digits of the '
                              'uncertainty', got=nd, expected=p.nsig, **info)
                if p.pdg:
                    ctx.count('pdg')
                    ctx.distinct('pdg', repr(s))
    ctx.count('evaluations')
    ctx.distinct(repr(x), repr(s), sp, ''.join(sorted(opts)))


def make_spec(sp, opts):
    prec, u, typ, sign, comma = sp
    return sign + comma + ('' if prec is None else '.%d' % prec) + ('u' if u else '') \
        + typ + opts


def values(ctx):
    rng = ctx.rng
    for _ in range(6):
        s = uncertainty(rng)
        x = nominal(rng, s)
        n = ufloat(x, s)
        if rng.random() < .2:
            n = +n
        for _ in range(2):
            sp, opts = spec(rng), options(rng)
            f = make_spec(sp, opts)
            ctx.log('format', repr(x), repr(s), repr(f))
            how = rng.randrange(4)
            if how == 0:
                text = attempt(format, n, f)
            elif how == 1:
                text = attempt(('{:%s}' % f).format, n)
            elif how == 2:
                text = attempt(n.format, f)
            else:
                text = attempt(n.__format__, f)
            judge(ctx, x, s, sp, opts, text)


def default(ctx):
    "str() and empty specifications."
    rng = ctx.rng
    for _ in range(8):
        s = uncertainty(rng)
        x = nominal(rng, s)
        n = ufloat(x, s)
        ctx.log('str', repr(x), repr(s))
        text = rng.choice([str, format, '{}'.format, '{0!s}'.format,
                           lambda n: '%s' % n, lambda n: n.format('')])(n)
        judge(ctx, x, s, (None, False, '', '', ''), '', text)


def thresholds(ctx):
    """Sweep around one PDG threshold or carry: the number of digits only
    changes at the thresholds."""
    rng = ctx.rng
    e = rng.randint(-12, 12)
    base = rng.choice([100, 354, 355, 949, 950, 999, 995, 994, 354.9, 949.9])
    n = rng.choice([None, 1, 2, 3, 4])
    for k in range(-3, 4):
        m = base + k*rng.choice([1e-6, 1e-4, .01, .1, 1])
        s = float('%re%d' % (m, e))
        x = rng.choice([0., 1., 123.456, -9.9995, 1e5])*10.**rng.randint(-3, 3)
        typ = rng.choice(['', 'f', 'e', 'g'])
        sp = (n, n is not None, typ, '', '')
        f = make_spec(sp, '')
        ctx.log('threshold', repr(x), repr(s), f)
        judge(ctx, x, s, sp, '', attempt(format, ufloat(x, s), f))


def floats(ctx):
    "Numbers without uncertainty: same digits as floats."
    rng = ctx.rng
    for _ in range(6):
        x = gen.any_float(rng)
        if not (x == 0 or not finite(x) or 1e-290 < abs(x) < 1e290):
            continue
        s = rng.choice([0., 0., 0., gen.NAN])
        prec, u, typ, sign, comma = spec(rng)
        u = False if rng.random() < .5 else u
        sp = prec, u, typ, sign, comma
        f = make_spec(sp, '')
        n = ufloat(x, s)
        ctx.log('float', repr(x), repr(s), repr(f))
        text = attempt(format, n, f)
        judge(ctx, x, s, sp, '', text)
        # The usual float format gives the same digits:
        ref = format(x, sign + comma + ('' if prec is None else '.%d' % prec) + typ)
        tail = '+/-' + ('0' if s == 0 else 'NAN' if typ.isupper() else 'nan')
        if typ in ('f', 'F'):
            ctx.check(text == ref + tail, 'float format', got=text, expected=ref)
        elif typ == '%':
            ctx.check(text == '(%s%s)%%' % (ref[:-1], tail), 'float format', got=text,
                      expected=ref)
        elif typ in ('e', 'E') and finite(x) and x != 0 and not comma:
            m, e = re.split('[eE]', ref)
            got = re.fullmatch(r'\((.*)\+/-(.*)\)[eE]([-+]\d+)', text)
            if near_power(Decimal(x)) or carry_tie(Decimal(x), decimals(m) + 1):
                return
            ctx.check(got and got.group(3) == e and
                      abs(Decimal(got.group(1)) - Decimal(m)) <=
                      Decimal(1).scaleb(-decimals(m)) + abs(Decimal(m))*Decimal('1e-15'),
                      'float format', got=text,
                      expected=ref)
        ctx.count('float_formats')


def extremes(ctx):
    "Values close to the limits of the floats."
    rng = ctx.rng

    def extreme():
        k = rng.random()
        m = rng.choice([1., 9.5, 9.99, 3.54, 3.55, 9.49, 1.5, rng.uniform(1, 10)])
        if k < .3:
            return rng.choice([1.7976931348623157e308, 1.797e308, 1.7e308, 1.5e308,
                               1.2345e308, 9.95e307, 9.5e307, rng.uniform(1e307, 1.79e308)])
        if k < .6:
            return float('%re%d' % (m, rng.randint(290, 307)))
        if k < .8:
            return float('%re%d' % (m, -rng.randint(291, 307)))
        return rng.choice([5e-324, 1e-323, 1e-322, 1e-320, 2.2250738585072014e-308,
                           2.5e-312, 5e-324*rng.randint(1, 2**40)])
    for _ in range(6):
        x = rng.choice([1, 1, 1, -1, 0])*extreme()
        s = rng.choice([extreme(), abs(x)*10**rng.uniform(-12, 3), 0., gen.NAN])
        if s > 1.7976931348623157e308:
            s = 1e308
        sp = spec(rng)
        if sp[2] == '%':
            sp = sp[:2] + ('e',) + sp[3:]
        if x and s and finite(s) and not 1e-290 < s/abs(x) < 1e290 and \
                sp[2] not in ('f', 'F'):
            s = abs(x)*rng.uniform(1e-7, .1)
        if sp[2] in ('f', 'F') and sp[0] is not None and sp[0] > 12:
            sp = (3,) + sp[1:]
        opts = options(rng)
        f = make_spec(sp, opts)
        ctx.log('extreme', repr(x), repr(s), repr(f))
        n = ufloat(x, s)
        judge(ctx, x, s, sp, opts, attempt(format, n, f))
        ctx.count('extremes')


WORKLOADS = [
    ('extremes', extremes, 5000, 150000),
    ('values', values, 30000, 1200000),
    ('default', default, 6000, 200000),
    ('thresholds', thresholds, 10000, 300000),
    ('floats', floats, 8000, 300000),
]
MIN = {'extremes': 20000, 'controlled': 50000, 'pdg': 10000, 'with_exponent': 50000,
       'without_exponent': 50000, 'zero_uncertainties': 3000, 'float_formats': 20000}
