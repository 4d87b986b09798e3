"""C17: parsing of strings."""
import math, re, unicodedata, warnings
from uncertainties import ufloat, ufloat_fromstr
from .. import gen
from ..spec import attempt, Raised
from ..parsemodel import parse, SUPS

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: an independent exact-decimal reader of the documented '
             'notations predicts the result (or the refusal) for every string parsed')
NOTE = ('Strings generated from every documented notation (many digits, extreme '
        'exponents, special parts) and mutants and random strings around them.')
RULE = 'distinct = strings (numbers), shapes of strings (mutants)'
ASSUMPTIONS = [
    'Not specified (accepted or refused): digit separators "_", non-ASCII digits, other '
    'spellings of NaN and infinity, signed uncertainties, superscripts after "e" and '
    'plain digits after "×10", spaces within exponents, factored exponents on other '
    'notations than value+/-uncertainty.',
    'Numbers above the largest float are infinite.']

TO_SUP = dict(zip('+-0123456789', u'⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹'))


def digits(rng):
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 8, 15, 17, 25])
    if rng.random() < .02:
        n = rng.choice([100, 309, 320, 400])
    return ''.join(rng.choice('0123456789') if rng.random() < .8 else rng.choice('09')
                   for _ in range(n))


def decimal(rng):
    k = rng.random()
    if k < .3:
        return digits(rng)
    if k < .4:
        return digits(rng) + '.'
    if k < .5:
        return '.' + digits(rng)
    return digits(rng) + '.' + digits(rng)


def exp_value(rng):
    k = rng.random()
    return (rng.randint(-12, 12) if k < .7 else rng.randint(-320, 320) if k < .95 else
            rng.choice([-1000, 400, 1000, -400, 308, 309, -324, 10**6]))


def expo(rng):
    e = exp_value(rng)
    if rng.random() < .6:
        return rng.choice('eeE') + rng.choice(['%d', '%+d', '%02d', '%+03d', '%d']) % e
    t = ('%d' % e if rng.random() < .8 else '%+d' % e)
    return rng.choice(['', ' ', ' ', '  ']) + u'×' + rng.choice(['', ' ', ' ']) + '10' + \
        ''.join(TO_SUP[c] for c in t)


def special(rng):
    return rng.choice(['nan', 'nan', 'NAN', 'inf', 'INF'])


def sign(rng):
    return rng.choice(['', '', '', '-', '-', '+'])


def part(rng, s):
    if rng.random() < .08:
        return s + special(rng)
    return s + decimal(rng) + (expo(rng) if rng.random() < .35 else '')


def spaces(rng):
    return rng.choice(['', '', '', ' ', ' ', '  '])


def explicit(rng):
    return (part(rng, sign(rng)) + spaces(rng) + rng.choice(['+/-', '+/-', u'±']) +
            spaces(rng) + part(rng, ''))


def factored(rng):
    pad = rng.random() < .2
    return '(' + (spaces(rng) if pad else '') + explicit(rng) + \
        (spaces(rng) if pad else '') + ')' + expo(rng)


def shorthand(rng):
    s = sign(rng) + (special(rng) if rng.random() < .05 else decimal(rng))
    s += '(%s)' % (special(rng) if rng.random() < .08 else decimal(rng))
    return s + (expo(rng) if rng.random() < .5 else '')


def implicit(rng):
    s = sign(rng) + decimal(rng)
    return s + (expo(rng) if rng.random() < .5 else '')


FORMS = [explicit, explicit, factored, factored, shorthand, shorthand, shorthand, implicit]


def documented(rng):
    s = rng.choice(FORMS)(rng)
    if rng.random() < .15:
        s = '(' + s + ')'
    if rng.random() < .25:
        s = rng.choice(['', ' ', '   ', '\t', '\n']) + s + \
            rng.choice(['', ' ', '  ', '\t', '\n', ' \n'])
    return s


LDEC = r'(?:[0-9]++(?:\.[0-9]*+)?|\.[0-9]++)'
LEXP = u'(?:[eE]|\\s*×\\s*10)\\s*[-+⁺⁻]?\\s*[0-9⁰¹²³⁴⁵⁶⁷⁸⁹]+\\s*'
LSPEC = r'(?i:nan|inf|infinity)'
LPART = r'\s*[-+]?(?:%s(?:%s)?|%s)\s*(?:%s)?\s*' % (LDEC, LEXP, LSPEC, LEXP)
LEXPL = LPART + u'(?:\\+/-|±)' + LPART
LSHORT = r'\s*[-+]?(?:%s|%s)\s*(?:\(\s*[-+]?(?:%s|%s)\s*\))?(?:%s)?\s*' % (
    LDEC, LSPEC, LDEC, LSPEC, LEXP)
LONE = '(?:%s|%s)' % (LEXPL, LSHORT)
LFACT = r'\s*(?:%s|\(%s\)(?:%s)?)\s*' % (LONE, LONE, LEXP)
LOOSE = re.compile(r'%s|\s*\(%s\)\s*' % (LFACT, LFACT))


def loose(text):
    "Near-documented strings: not specified."
    t = re.sub(r'(?<=[\w.])_(?=[\w.])', '', text)
    t = ''.join(str(unicodedata.digit(c)) if unicodedata.category(c) == 'Nd' else c
                for c in t)
    return bool(LOOSE.fullmatch(t))


def build(rng, text):
    "Ways of parsing a string, with the implied tag."
    k = rng.randrange(8)
    if k < 5:
        return attempt(ufloat_fromstr, text), None
    tag = rng.choice(['t', u'é', 3, ''])
    if k == 5:
        return attempt(ufloat_fromstr, text, tag), tag
    if k == 6:
        return attempt(ufloat_fromstr, representation=text, tag=tag), tag

    def legacy():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return ufloat(text, tag)
    # Only strings are accepted as tags by the legacy form
    if not isinstance(tag, str):
        return attempt(ufloat_fromstr, text, tag=tag), tag
    return attempt(legacy), tag


def shape(text):
    return re.sub('[0-9]+', '0', text)


def expect(ctx, text):
    "Monitors the parsing of a string."
    want = parse(text)
    got, tag = build(ctx.rng, text)
    ctx.log('parse', repr(text), repr(got)[:300])
    if want is not None:
        n, u, form = want
        ctx.check(not isinstance(got, Raised), 'documented notation refused', text=text,
                  got=got, form=form)
        ctx.check(n.same(got.nominal_value), 'value', text=text, got=got.nominal_value,
                  expected=n, form=form)
        ctx.check(u.same(float(got.std_dev)), 'uncertainty', text=text,
                  got=float(got.std_dev), expected=u, form=form)
        ctx.check(got.tag == tag, 'tag', text=text, got=got.tag, expected=tag)
        ctx.check(list(got.derivatives.items()) == [(got, 1.)] or math.isnan(u.float()),
                  'not a variable', text=text)
        ctx.count('form_' + form)
        if math.isinf(n.float()) and n.digits is not None:
            ctx.count('overflows')
        ctx.distinct(text)
        return True
    if loose(text):
        ctx.count('unspecified')
        return None
    ctx.check(isinstance(got, Raised), 'not a number with uncertainty, but accepted',
              text=text, got=got)
    ctx.check(isinstance(got.exc, ValueError), 'no value error', text=text, got=got)
    ctx.count('refused')
    ctx.distinct('refused', shape(text))
    return False


def notations(ctx):
    for _ in range(12):
        expect(ctx, documented(ctx.rng))


TOKENS = ['+/-', u'±', '(', ')', 'e', 'E', '.', '+', '-', ' ', 'e5', '(3)', '0', '1', '5',
          '12', 'nan', 'inf', u'×', u'×10', u'×10⁵', u'⁵', u'⁻', '%', ',', '_', '\n', '/',
          '+-', 'x', 'i', 'j', '10', '*', '^', u'١', '\t', '\\', '$', ' 1', '\n1', '[', ']',
          'L', 'N', u'−', '+/-1', 'E+', 'd5', 'D-3', 'd', 'D+01', 'j', 'f', 'l', '**2', '^2', 'h', '\x00', "'", '#', u'\xa0']


def mutants(ctx):
    rng = ctx.rng
    for _ in range(12):
        s = documented(rng)
        if rng.random() < .05:
            # Other notations for the exponent
            s = s.replace('e', 'E').replace('E', rng.choice(['d', 'D', 'p', 'q', 'x', '^']))
        elif rng.random() < .2:
            # Two numbers
            s += rng.choice([' ', '\n', '', ';', ', ']) + documented(rng)
        else:
            s = list(s)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                i = rng.randrange(len(s) + 1)
                k = rng.randrange(5)
                if k < 2 or not s:
                    s.insert(i, rng.choice(TOKENS))
                elif k == 2:
                    del s[i - 1]
                elif k == 3:
                    s[i - 1] = rng.choice(TOKENS)
                else:
                    j = rng.randrange(len(s))
                    s[i - 1], s[j] = s[j], s[i - 1]
            s = ''.join(s)
        expect(ctx, s)


def assembled(ctx):
    "Random sequences of tokens."
    rng = ctx.rng
    for _ in range(16):
        expect(ctx, ''.join(rng.choice(TOKENS) for _ in range(rng.randint(0, 6))))


def equivalent(ctx):
    "The notations of the same number give the same number."
    rng = ctx.rng
    m = rng.choice(['', '-']) + digits(rng)[:15] + '.' + digits(rng)[:10]
    dec = len(m.split('.')[1])
    u = str(int(digits(rng)[:6]))
    e = rng.randint(-290, 270)
    absolute = u.rjust(dec + 1, '0')
    absolute = absolute[:-dec] + '.' + absolute[-dec:]
    sup = ''.join(TO_SUP[c] for c in str(e))
    forms = ['%s(%s)e%d' % (m, u, e), '%s(%s)e%d' % (m, absolute, e),
             '(%s+/-%s)e%d' % (m, absolute, e), u'(%s ± %s) × 10%s' % (m, absolute, sup),
             '%se%d+/-%se%d' % (m, e, absolute, e),
             u'%s×10%s±%s×10%s' % (m, sup, absolute, sup),
             u'%s(%s)×10%s' % (m, u, sup), u'%se%d ± %s×10%s' % (m, e, absolute, sup),
             '(%se3+/-%se5)e%d' % (m, absolute, e - 3), '(%s(%s)E%+03d)' % (m, u, e),
             '(%se%d+/-%se%d)' % (m, e, absolute, e)]
    rng.shuffle(forms)
    forms = [f for f in forms if 'e5)' not in f]
    values = []
    for f in forms:
        got = attempt(ufloat_fromstr, f)
        ctx.log('equivalent', repr(f), repr(got))
        ctx.check(not isinstance(got, Raised), 'notation refused', text=f, got=got)
        values.append((got.nominal_value, float(got.std_dev)))
    ctx.check(len(set(values)) == 1, 'equivalent notations differ', forms=forms,
              values=values)
    ctx.count('equivalences')


WORKLOADS = [
    ('notations', notations, 30000, 900000),
    ('mutants', mutants, 30000, 900000),
    ('assembled', assembled, 6000, 200000),
    ('equivalent', equivalent, 6000, 150000),
]
MIN = {'form_explicit': 20000, 'form_factored': 20000, 'form_digits': 15000,
       'form_absolute': 10000, 'form_implicit': 10000, 'refused': 100000,
       'unspecified': 2000, 'equivalences': 5000, 'overflows': 500}
