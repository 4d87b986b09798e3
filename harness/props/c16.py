"""C16: printed numbers parse back to what was printed."""
import math
from uncertainties import ufloat, ufloat_fromstr
from .. import gen
from ..spec import attempt, Raised
from ..fmtmodel import read, numbers, finite, Unreadable
from ..parsemodel import parse
from . import c14, c15

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: every printed string is decoded exactly by an independent '
             'reader and compared, bit for bit, with what the string parser returns')
NOTE = ('All non-LaTeX notations, widths and alignments with spaces or zeros, special '
        'parts, signs, and representations of variables and results.')
RULE = 'distinct = (kind of value and uncertainty, format specification)'
ASSUMPTIONS = [
    'Zeros as fill characters are restricted to right alignment of non-negative finite '
    'parts (other positions change digits).',
    'Displayed numbers above the largest float parse back to infinity.']


def eligible(rng, x, s):
    sp = c15.draw(rng)
    sp.comma = ''
    sp.typ = sp.typ.replace('%', '')
    sp.opts = sp.opts.replace('L', '')
    zeros = finite(x) and finite(s) and math.copysign(1, x) > 0 and sp.sign in ('', '-')
    if sp.align:
        sp.fill = rng.choice(['', ' ', '0']) if sp.align == '>' and zeros else \
            rng.choice(['', ' '])
        if sp.align == '=':
            sp.align = ''
    if not (finite(x) and finite(s)):
        sp.zero = ''
    return sp


def back(ctx, text, n, s, **info):
    "The parser gives exactly these Numbers."
    got = attempt(ufloat_fromstr, text)
    ctx.log('parse', repr(text), repr(got))
    ctx.check(not isinstance(got, Raised), 'printed string not accepted', text=text, got=got,
              **info)
    ctx.check(n.same(got.nominal_value), 'value parsed back', text=text,
              got=got.nominal_value, displayed=n, **info)
    ctx.check(s.same(float(got.std_dev)), 'uncertainty parsed back', text=text,
              got=float(got.std_dev), displayed=s, **info)
    ctx.count('parsed')
    return got


def shown(ctx, text, **info):
    p = parse(text)
    ctx.check(p is not None, 'printed string in no documented notation', text=text, **info)
    return p


def number(rng, x, s):
    k = rng.random()
    if k < .7 or not finite(x):
        return ufloat(x, s)
    if k < .85:
        return +ufloat(x, s)
    return ufloat(x, s, 'tag')


def formats(ctx):
    rng = ctx.rng
    for _ in range(8):
        x, s = c15.value(rng)
        n = number(rng, x, s)
        sp = eligible(rng, x, s)
        text = attempt(format, n, str(sp))
        info = dict(spec=str(sp), printed=(x, s))
        if isinstance(text, Raised):
            ctx.check(isinstance(text.exc, ValueError), 'formatting raised', got=text, **info)
            continue
        if sp.width and 'n' in format(n, str(sp.core())).lower() and \
                (sp.zero or sp.fill == '0'):
            continue        # Overflow of the displayed number
        v, u, form = shown(ctx, text, **info)
        back(ctx, text, v, u, **info)
        ctx.count('form_' + form)
        if sp.width:
            ctx.count('widths')
        # Cross-check of the reader with the plain form:
        plain = format(n, str(sp.core()))
        d = read(plain, '', False)
        a, b = numbers(d, False)
        if finite(x) and 'S' not in sp.opts:
            ctx.check(v.float() == float(a), 'value differs from the plain form',
                      plain=plain, text=text, **info)
            ctx.check(u.float() == float(b) or finite(u.float()) is False,
                      'uncertainty differs from the plain form', plain=plain, text=text,
                      **info)
        ctx.distinct(c15.kind(x), c15.kind(s), str(sp))


def strings(ctx):
    "str() and default notations, with surrounding spaces."
    rng = ctx.rng
    for _ in range(10):
        x, s = c15.value(rng)
        n = number(rng, x, s)
        f = rng.choice(['', '', 'S', 'P', 'p', 'e', 'eS', 'eP', '.1u', '.2uS', '.6f', 'g',
                        'E', 'ES', 'SP', 'pP', '.15u', '.3e', '.12ueS', '.0f', '.0fS',
                        '.17g', '.17ueP'])
        text = str(n) if not f else format(n, f)
        v, u, form = shown(ctx, text, printed=(x, s))
        pad = rng.choice(['', '', ' ', '   '])
        got = back(ctx, pad + text + rng.choice(['', ' ', '  ']), v, u, spec=f)
        # Parsing again what is printed is stable:
        again = format(got, f) if f else str(got)
        if f in ('.17ueP', '.12ueS') and finite(x) and finite(s) and s:
            p = shown(ctx, again)
            back(ctx, again, p[0], p[1])
        ctx.count('strings')
        ctx.distinct(c15.kind(x), c15.kind(s), f)


def floats(rng):
    k = rng.random()
    if k < .1:
        return rng.choice([0., -0., gen.NAN, gen.INF, -gen.INF, 5e-324, -5e-324,
                           1.7976931348623157e308, 2.2250738585072014e-308])
    if k < .4:
        return rng.uniform(-10, 10)
    if k < .6:
        return float(rng.randint(-10**6, 10**17))
    return rng.choice([1, -1])*math.ldexp(rng.random(), rng.randint(-1074, 1024))


def representations(ctx):
    "repr() of untagged numbers, exactly."
    rng = ctx.rng
    for _ in range(10):
        x, s = floats(rng), abs(floats(rng))
        n = ufloat(x, s)
        k = rng.randrange(4)
        if k == 1:
            n = +n
        elif k == 2 and finite(x) and finite(s):
            n = n*rng.choice([2, .5, 3, 1/3.]) + ufloat(floats(rng), 1)
        elif k == 3:
            n = ufloat(rng.choice([3, -2, 10**15, 0, x]), s)
        try:
            v, u = n.nominal_value, float(n.std_dev)
        except OverflowError:
            continue
        text = repr(n)
        ctx.log('repr', text)
        m = rng.randrange(3)
        r = (attempt(ufloat_fromstr, text) if m < 2 else
             attempt(ufloat_fromstr, ' ' + text + ' ', 'tag'))
        ctx.check(not isinstance(r, Raised), 'representation not accepted', text=text, got=r)
        a, b = r.nominal_value, float(r.std_dev)
        ctx.check((a == v and math.copysign(1, a) == math.copysign(1, v)) or
                  (math.isnan(a) and math.isnan(v)), 'value of a representation',
                  text=text, got=a, value=v)
        ctx.check(b == u or (math.isnan(b) and math.isnan(u)),
                  'standard deviation of a representation', text=text, got=b, std=u)
        ctx.check(repr(ufloat_fromstr(text)) == text, 'representation not stable', text=text)
        # Several numbers on a line, separated by spaces:
        ctx.count('representations')
        ctx.distinct('repr', c15.kind(v), c15.kind(u))


WORKLOADS = [
    ('formats', formats, 16000, 600000),
    ('strings', strings, 10000, 300000),
    ('representations', representations, 8000, 250000),
]
MIN = {'parsed': 200000, 'form_digits': 10000, 'form_explicit': 20000,
       'form_factored': 10000, 'form_absolute': 2000, 'widths': 20000,
       'representations': 60000}
