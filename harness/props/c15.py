"""C15: layout of the formatted numbers."""
import math
from decimal import Decimal
from uncertainties import ufloat
import uncertainties.core as core
from .. import gen
from ..spec import attempt, Raised
from ..fmtmodel import read, decimals, finite, Unreadable, plan
from . import c14

PROPERTY = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: each formatted string is compared with the layout rebuilt '
             'from the digits of the plain form and the meaning of each option; a '
             'separate recogniser decides which specifications must be refused')
NOTE = ('All combinations of fill, alignment, sign, zero padding, width, comma, type, '
        'notation options, for ordinary, exact, NaN and infinite parts; random and '
        'mutated specifications.')
RULE = 'distinct = (kind of value and uncertainty, format specification)'
ASSUMPTIONS = [
    'The = alignment with a width is refused (strings are aligned).',
    'Zero padding of non-finite parts in LaTeX, and the sign of LaTeX infinities, '
    'are not specified.',
    'Widths of 0 and non-ASCII digits in specifications are not generated.']

SUPER = dict(zip('+-0123456789', u'\u207a\u207b\u2070\xb9\xb2\xb3\u2074\u2075\u2076\u2077\u2078'
                 u'\u2079'))


def zero_pad(num, width, sign, comma):
    "Padding of a displayed number with zeros, after its sign."
    plain = num.replace(',', '').strip()
    d = Decimal(plain)
    if not d.is_finite():
        return None
    return format(d, '%s0%d%sf' % (sign, width, comma)) if width > 0 else num


def align(text, fill, al, width):
    pad = max(width - len(text), 0)
    fill = fill or ' '
    al = al or '>'
    if al == '<':
        return text + fill*pad
    if al == '>':
        return fill*pad + text
    return fill*(pad//2) + text + fill*(pad - pad//2)


def latex(part, text):
    if 'nan' in text.lower():
        return r'\mathrm{%s}' % text
    if 'inf' in text.lower():
        return ('-' if text.startswith('-') else '') + r'\infty'
    return text


class Spec(object):
    fields = 'fill align sign zero width comma prec u typ opts'.split()

    def __init__(self, **kw):
        for f in self.fields:
            setattr(self, f, kw.get(f, ''))

    def __str__(self):
        return ''.join([self.fill, self.align, self.sign, self.zero, str(self.width),
                        self.comma, self.prec, self.u, self.typ, self.opts])

    def core(self):
        return Spec(sign=self.sign, comma=self.comma, prec=self.prec, u=self.u,
                    typ=self.typ)


def draw(rng):
    s = Spec()
    if rng.random() < .5:
        s.width = rng.choice([1, 1, 2, 5, 8, 10, 12, 15, 20, 30, 45, 60]) if rng.random() < .98 else \
            rng.choice([99, 100, 101, 128, 300])
    if rng.random() < .4:
        s.align = rng.choice('<>^')
        if rng.random() < .6:
            s.fill = rng.choice(' *0x_<>^=+-.,eu%P' + u'\xe9\u2022')
    s.zero = '0' if rng.random() < .25 else ''
    s.sign = rng.choice(['', '', '', '+', ' ', '-'])
    s.comma = ',' if rng.random() < .2 else ''
    s.prec = rng.choice(['', '', '', '.0', '.1', '.2', '.3', '.4', '.6', '.10', '.02'])
    s.u = 'u' if rng.random() < .35 else ''
    s.typ = rng.choice(['', '', 'f', 'F', 'e', 'E', 'g', 'G', '%'])
    s.opts = ''.join(rng.sample('PLSp', rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4])))
    if s.opts and rng.random() < .1:
        s.opts += rng.choice(s.opts)
    return s


def value(rng):
    k = rng.random()
    s = c14.uncertainty(rng)
    x = c14.nominal(rng, s)
    if k < .5 and finite(s) and finite(x):
        # Ordinary scales
        e = rng.randint(-7, 9)
        x = rng.choice([1, -1])*round(rng.uniform(.1, 10), rng.randint(0, 6))*10**e
        s = rng.choice([round(rng.uniform(.1, 10), rng.randint(0, 3))*10.**(e - rng.randint(-2, 6)),
                        rng.uniform(0, 30), s])
    return x, s


def kind(v):
    return ('nan' if math.isnan(v) else 'inf' if math.isinf(v) else '0' if v == 0
            else int(math.floor(math.log10(abs(v)))))


def uncert_digits(err):
    "Digits between parentheses for the displayed uncertainty."
    err = err.replace(',', '')
    if err == '0' or 'n' in err.lower():
        return err
    d = Decimal(err)
    if '.' in err:
        return err if d >= 1 or d == 0 else err.replace('.', '').lstrip('0')
    return err


def expected(ctx, n, sp, x, s):
    """Rebuilds the output from the plain form. None: not specified; a Raised or
    ValueError class for refused specifications."""
    plain = attempt(format, n, str(sp.core()))
    if isinstance(plain, Raised):
        return plain
    pct = sp.typ == '%'
    p = read(plain, '', pct)
    nom, err, exp = p['nom'], p['err'], p['exp']
    P, L, S, par = ('P' in sp.opts, 'L' in sp.opts, 'S' in sp.opts, 'p' in sp.opts)
    x_special, s_special = not finite(x) or 'n' in nom.lower(), \
        s == 0 or not finite(s) or 'n' in err.lower()
    # A non-zero uncertainty can be displayed as zero (no decimals):
    if exp is None:
        e = ''
    elif P:
        e = u'\xd710' + ''.join(SUPER[c] for c in str(exp))
    elif L:
        e = r' \times 10^{%d}' % exp
    else:
        e = ('E' if sp.typ.isupper() else 'e') + '%s%02d' % ('-' if exp < 0 else '+', abs(exp))
    tail = (r' \%' if L else '%') if pct else ''
    pm = u'\xb1' if P else r' \pm ' if L else '+/-'
    left, right = ('(', ')') if P or not L else (r'\left(', r'\right)')
    width = sp.width or 0
    if width and sp.align == '=':
        return ValueError
    if sp.zero and width and L and (x_special or 'n' in err.lower()):
        return None
    if S:
        if x_special and not s_special:
            return None     # digits decided on their own
        if err == '0' and s != 0:
            u = '0.'
        else:
            u = uncert_digits(err)
        if L:
            u = latex('err', u)
        end = '(%s)%s%s' % (u, e, tail)
        if sp.zero and width:
            w = width - len(end)
            if x_special:
                nom = format(float(nom), '%s0%df' % (sp.sign, max(w, 0)))
                if sp.typ.isupper():
                    nom = nom.upper()
            else:
                nom = zero_pad(nom, w, sp.sign, sp.comma)
        if L:
            nom = latex('nom', nom)
        return align(nom + end, sp.fill, sp.align, width)
    if width:
        en, ee = '' if x_special else e, '' if s_special else e
        if sp.zero:
            if x_special:
                nom = format(float(nom), '%s0%df' % (sp.sign, width))
                nom = nom.upper() if sp.typ.isupper() else nom
            else:
                nom = zero_pad(nom, width - len(en), sp.sign, sp.comma)
            if 'n' in err.lower():
                err = format(float(err), '0%df' % width)
                err = err.upper() if sp.typ.isupper() else err
            else:
                err = zero_pad(err, width - len(ee), '', sp.comma)
        if L:
            nom, err = latex('nom', nom), latex('err', err)
        nom = align(nom + en, sp.fill, sp.align, width)
        err = align(err + ee, sp.fill, sp.align, width)
        e = ''
    elif L:
        nom, err = latex('nom', nom), latex('err', err)
    text = nom + pm + err
    if e and exp is not None and not width:
        return left + text + right + e + tail
    if tail:
        return left + text + right + tail
    if par:
        return left + text + right
    return text


def one(ctx, sp, x, s):
    n = ufloat(x, s)
    f = str(sp)
    ctx.log('format', repr(x), repr(s), repr(f))
    want = expected(ctx, n, sp, x, s)
    how = ctx.rng.randrange(4)
    got = (attempt(format, n, f) if how == 0 else attempt(n.format, f) if how == 1 else
           attempt(u'{0:{1}}'.format, n, f) if how == 2 else attempt(format, +n, f))
    info = dict(spec=f, value=x, std=s)
    if want is ValueError or isinstance(want, Raised):
        ctx.check(isinstance(got, Raised) and isinstance(got.exc, ValueError),
                  'invalid specification accepted', got=got, **info)
        ctx.count('refused')
        return
    if want is None:
        ctx.check(not isinstance(got, Raised), 'formatting raised', got=got, **info)
        return
    ctx.check(not isinstance(got, Raised) and isinstance(got, str), 'formatting raised',
              got=got, expected=want, **info)
    if got != want and r'\infty' in want and sp.sign in '+ ':
        got = got.replace(r'+\infty', r'\infty').replace(r' \infty', r'\infty')
        want = want.replace(r' \infty', r'\infty')
    ctx.check(got == want, 'layout', got=got, expected=want, **info)
    ctx.count('layouts')
    for o in set(sp.opts):
        ctx.count('option_' + o)
    if sp.width:
        ctx.count('widths')
    if sp.zero and sp.width:
        ctx.count('zero_padded')
    ctx.distinct(kind(x), kind(s), f)


def layouts(ctx):
    rng = ctx.rng
    for _ in range(8):
        x, s = value(rng)
        one(ctx, draw(rng), x, s)


def exhaustive_options(ctx):
    "All the subsets of options for one number and one specification."
    rng = ctx.rng
    x, s = value(rng)
    base = draw(rng)
    for k in range(16):
        base.opts = ''.join(o for i, o in enumerate('PLSp') if k >> i & 1)
        one(ctx, base, x, s)


def agree(ctx):
    "str(), empty specification and format() method."
    rng = ctx.rng
    for _ in range(6):
        x, s = value(rng)
        n = ufloat(x, s)
        texts = [str(n), format(n, ''), '{}'.format(n), n.format(''), '%s' % n,
                 '{!s}'.format(n), f'{n}', n.__format__(''), str(+n)]
        ctx.log('agree', repr(x), repr(s))
        ctx.check(len(set(texts)) == 1, 'str() and the empty format differ', texts=texts)
        f = str(draw(rng))
        r = [attempt(format, n, f), attempt(n.format, f), attempt(n.__format__, f)]
        ctx.check(all(isinstance(t, Raised) for t in r) or len(set(map(str, r))) == 1,
                  'format() method and function differ', texts=r, spec=f)
        ctx.count('agreements')


def recognise(f):
    "Independent recogniser of the format specifications."
    i = 0
    if len(f) >= 2 and f[1] in '<>=^' and f[0] not in '{}':
        i = 2
    elif f[:1] and f[0] in '<>=^':
        i = 1

    def take(chars, most=None):
        nonlocal i
        k = 0
        while i < len(f) and f[i] in chars and (most is None or k < most):
            i += 1
            k += 1
        return k
    take('+- ', 1)
    take('0123456789')
    take(',', 1)
    if i < len(f) and f[i] == '.':
        i += 1
        if not take('0123456789'):
            return False
    take('u', 1)
    take('eEfFgG%', 1)
    take('PSLp')
    return i == len(f)


ALPHABET = list('0123456789.,+- <>=^uefgEFGnPSLp%xdsbcor_{}zR#;:!()*\n\t')


def near_miss(ctx):
    "Mutated specifications."
    rng = ctx.rng
    for _ in range(12):
        if rng.random() < .2:
            f = ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 6)))
        else:
            f = list(str(draw(rng)))
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.randrange(len(f) + 1)
                act = rng.randrange(4)
                if act == 0 or not f:
                    f.insert(k, rng.choice(ALPHABET))
                elif act == 1:
                    f[k - 1] = rng.choice(ALPHABET)
                elif act == 2:
                    del f[k - 1]
                else:
                    j = rng.randrange(len(f))
                    f[j], f[k - 1] = f[k - 1], f[j]
            f = ''.join(f)
        x, s = value(rng)
        n = ufloat(x, s)
        w = ''
        for c in f:
            if c in '0123456789':
                w += c
                if len(w) > 3:
                    break
            else:
                w = ''
        if len(w) > 3:
            continue
        ok = recognise(f)
        got = attempt(format, n, f)
        ctx.log('near_miss', repr(x), repr(s), repr(f))
        if not ok:
            ctx.check(isinstance(got, Raised) and isinstance(got.exc, ValueError),
                      'unsupported specification accepted', spec=f, got=got)
            ctx.count('unsupported')
            ctx.distinct('unsupported', f)
        else:
            # '=' alignments and null numbers of digits are refused
            if isinstance(got, Raised):
                ctx.check(isinstance(got.exc, ValueError) and
                          (f[:1] == '=' or f[1:2] == '=' or
                           any(f[k:].replace('0', '').startswith('.u')
                               for k in range(len(f)) if f[k] == '.')),
                          'supported specification refused', spec=f, got=got)
            ctx.count('supported_mutants')


def customised(ctx):
    "Documented customisation of exponents and groups."
    rng = ctx.rng
    save = dict(core.EXP_PRINT), dict(core.GROUP_SYMBOLS)
    mode, opt = rng.choice([('latex', 'L'), ('pretty-print', 'P')])
    x, s = rng.uniform(1, 9)*1e-9, rng.uniform(1, 9)*1e-11
    n = ufloat(x, s)
    sp = Spec(typ='e', opts=opt + rng.choice(['', 'S', 'p']))
    before = format(n, str(sp))
    try:
        core.EXP_PRINT[mode] = lambda e: '@%d@' % e
        core.GROUP_SYMBOLS[mode] = ('<<', '>>')
        got = format(n, str(sp))
        other = format(n, 'e' + ('P' if opt == 'L' else 'L'))
    finally:
        core.EXP_PRINT.clear()
        core.EXP_PRINT.update(save[0])
        core.GROUP_SYMBOLS.clear()
        core.GROUP_SYMBOLS.update(save[1])
    ctx.log('customised', repr(x), repr(s), str(sp))
    p = read(format(n, 'e'), '', False)
    if 'S' in sp.opts:
        want = '%s(%s)@%d@' % (p['nom'], uncert_digits(p['err']), p['exp'])
    else:
        want = '<<%s%s%s>>@%d@' % (p['nom'], u'\xb1' if opt == 'P' else r' \pm ', p['err'],
                                   p['exp'])
    ctx.check(got == want, 'customised notation', got=got, expected=want)
    ctx.check('@' not in other and '<<' not in other, 'customisation of another notation')
    ctx.check(format(n, str(sp)) == before, 'formatting not repeatable')
    ctx.count('customised')


WORKLOADS = [
    ('layouts', layouts, 16000, 700000),
    ('exhaustive_options', exhaustive_options, 5000, 200000),
    ('agree', agree, 3000, 60000),
    ('near_miss', near_miss, 12000, 500000),
    ('customised', customised, 1500, 20000),
]
MIN = {'layouts': 100000, 'option_P': 20000, 'option_L': 20000, 'option_S': 20000,
       'option_p': 20000, 'widths': 40000, 'zero_padded': 10000, 'unsupported': 20000,
       'supported_mutants': 10000, 'customised': 1000, 'agreements': 5000}
