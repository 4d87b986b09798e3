"""Independent reader of formatted numbers with uncertainties, and exact decimal model
of the formatting rules (digits, exponent)."""
import math, re
from decimal import Decimal, Context, ROUND_HALF_EVEN, localcontext

CTX = Context(prec=3000, Emin=-999999, Emax=999999)
SUP = {ord(a): b for a, b in zip(u'⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹', '+-0123456789')}

NUM = r'[-+ ]?[0-9][0-9,]*(?:\.[0-9]+)?'
SPECIAL = r'[-+ ]?(?:nan|inf|NAN|INF)'
LSPECIAL = r'[-+ ]?\\mathrm\{[-+ ]?(?:nan|NAN)\}|-?\\infty'

NOM = '(?P<nom>%s|%s)' % (NUM, SPECIAL)
ERR = '(?P<err>[0-9][0-9,]*(?:\\.[0-9]+)?|nan|inf|NAN|INF)'
LNOM = '(?P<nom>%s|%s)' % (NUM, LSPECIAL)
LERR = r'(?P<err>[0-9][0-9,]*(?:\.[0-9]+)?|\\mathrm\{(?:nan|NAN)\}|\\infty)'
SERR = r'(?P<err>[0-9]+(?:\.[0-9]*)?|nan|inf|NAN|INF)'
LSERR = r'(?P<err>[0-9]+(?:\.[0-9]*)?|\\mathrm\{(?:nan|NAN)\}|\\infty)'


class Unreadable(Exception):
    pass


def read(s, options, percent):
    """Parts of a formatted number (without width). Returns a dict with nom, err
    (strings), exp (integer or None), factored, parens."""
    P, L, S = 'P' in options, 'L' in options and 'P' not in options, 'S' in options
    Lx = 'L' in options
    nom, err = (LNOM, LERR) if Lx else (NOM, ERR)
    if P:
        exp = u'(?:×10(?P<exp>[⁻]?[⁰¹²³⁴⁵⁶⁷⁸⁹]+))?'
        pm, lp, rp = u'±', r'\(', r'\)'
    elif L:
        exp = r'(?: \\times 10\^\{(?P<exp>-?[0-9]+)\})?'
        pm, lp, rp = r' \\pm ', r'\\left\(', r'\\right\)'
    else:
        exp = r'(?:[eE](?P<exp>[-+][0-9]{2,3}))?'
        pm, lp, rp = r'\+/-', r'\(', r'\)'
    pc = (r' \\%' if Lx else '%') if percent else ''
    if S:
        err = LSERR if Lx else SERR
        rx = r'(?P<lp>)%s\(%s\)%s%s' % (nom, err, exp, pc)
        m = re.fullmatch(rx, s)
    else:
        m = re.fullmatch(r'(?P<lp>%s)%s%s%s%s%s%s' % (lp, nom, pm, err, rp, exp, pc), s)
        if m is None and not percent:
            m = re.fullmatch('(?P<lp>)%s%s%s' % (nom, pm, err), s)
            if m is not None:
                m_exp = None
                return dict(nom=m.group('nom'), err=m.group('err'), exp=None,
                            parens=False, exp_str=None)
    if m is None:
        raise Unreadable('unreadable output %r (options %r)' % (s, options))
    e = m.group('exp')
    return dict(nom=m.group('nom'), err=m.group('err'),
                exp=None if e is None else int(e.translate(SUP)), exp_str=e,
                parens=bool(m.group('lp')))


def special(s):
    "'nan', 'inf', '-inf' or None."
    t = s.strip().lower()
    if 'nan' in t:
        return 'nan'
    if 'inf' in t:
        return '-inf' if t.startswith('-') else 'inf'
    return None


def decimals(s):
    return len(s.split('.')[1]) if '.' in s else 0


def numbers(parts, shorthand):
    """(value, uncertainty, decimals) as Decimals or special strings; uncertainty
    '0' (exactly zero) is None."""
    nom, err, exp = parts['nom'], parts['err'], parts['exp'] or 0
    n = special(nom)
    if n is None:
        n = Decimal(nom.replace(',', '').replace(' ', '')).scaleb(exp, CTX)
    e = special(err)
    if e is None:
        err = err.replace(',', '')
        if shorthand and '.' not in err and not n in ('nan', 'inf', '-inf') and \
                err != '0':
            e = Decimal(err).scaleb(exp - decimals(nom), CTX)
        elif shorthand and '.' not in err and err != '0':
            e = 'digits', int(err)     # unknown position
        else:
            e = Decimal(err).scaleb(exp, CTX)
    return n, e


def finite(x):
    return not (math.isinf(x) or math.isnan(x))


def adjusted(d):
    return d.adjusted() if d else 0


def rnd(d, pos):
    with localcontext(CTX):
        return d.quantize(Decimal(1).scaleb(pos), rounding=ROUND_HALF_EVEN)


def limit_for(d, n):
    "Position of the last of n significant digits of d, once rounded."
    e = adjusted(d)
    lim = e - n + 1
    if d and adjusted(rnd(d, lim)) > e:
        lim += 1
    return lim


def pdg(s):
    """(number of digits, displayed value as Decimal, ambiguous)"""
    e = adjusted(s)
    m = s.scaleb(2 - e, CTX)
    amb = any(abs(m - b) < Decimal('1e-8') for b in (355, 950, 100, 1000))
    d3 = int(m)
    if d3 <= 354:
        return 2, s, amb
    if d3 <= 949:
        return 1, s, amb
    return 2, Decimal(1).scaleb(e + 1), amb


TOL = Decimal('1e-14')


def power_of_ten(x):
    "True for the floats closest to a power of ten."
    return x > 1e-307 and bool(re.fullmatch(r'1(?:\.0|0*\.0)?(?:e[-+][0-9]+)?|0\.0*1', repr(x)))


def to_decimal(x):
    """Exact value, except for the floats closest to a power of ten."""
    return Decimal(repr(x)) if power_of_ten(x) else Decimal(x)


def near_power(d):
    "True if the position of the first digit of d is numerically ambiguous."
    if not d:
        return False
    m = d.scaleb(-d.adjusted(), CTX)
    return m > 10*(1 - TOL) or m < 1 + TOL and m != 1


def carry_tie(d, n):
    "True if rounding d to n digits is a tie between 99...9 and 100...0."
    if not d:
        return False
    m = d.scaleb(-d.adjusted(), CTX)
    return abs(m + Decimal(1).scaleb(1 - n)/2 - 10) < 10*TOL


class Plan(object):
    """Formatting decided by the rules: control, limit (position of the last digit or
    None), exp (common exponent or None), s (displayed uncertainty), nsig."""


def plan(x, s, prec, u, typ):
    """x, s: floats; prec: None or int; u: boolean; typ: '' or presentation type.
    Returns a Plan, or 'error' for an invalid specification."""
    p = Plan()
    p.ambiguous = False
    if typ == '%':
        x, s, typ = x*100, s*100, 'f'
        p.percent = True
    else:
        p.percent = False
    p.x, p.std = x, s
    reals = [abs(v) for v in (x, s) if finite(v)]
    ds = to_decimal(s) if finite(s) else None
    p.control = bool(((prec is None and len(reals) == 2) or u) and s != 0 and finite(s))
    p.nsig = None
    ref = to_decimal(max(reals)) if reals else None
    if reals and (near_power(ref) or max(reals) < 1e-307) or \
            ds is not None and 0 < s < 1e-307:
        # (rounding is not accurate for subnormal numbers)
        p.ambiguous = True
    p.pdg = False
    if p.control:
        if prec is None:
            p.nsig, ds, amb = pdg(ds)
            p.ambiguous |= amb
            p.pdg = True
        else:
            if prec == 0:
                return 'error'
            p.nsig = prec
        p.ambiguous |= near_power(ds) or p.nsig > 14 and power_of_ten(s)
        p.limit = limit_for(ds, p.nsig)
    elif typ in ('f', 'F'):
        p.limit = -(6 if prec is None else prec)
    else:
        d = (6 if typ else 12) if prec is None else prec
        d = d + 1 if typ in ('e', 'E') else (d or 1)
        p.limit = limit_for(ref, d) if reals else None
    # Exponent:
    p.exp = None
    if typ not in ('f', 'F') and reals:
        r = rnd(ref, p.limit)
        e = adjusted(r)
        if adjusted(ref) - p.limit > 13 and power_of_ten(max(reals)) or carry_tie(ref, max(adjusted(ref) - p.limit + 1, 1)) \
                or carry_tie(ref, max(adjusted(ref) - p.limit + 2, 1)):
            p.ambiguous = True
        if typ in ('e', 'E') or not (-4 <= e and p.limit <= 0):
            p.exp = e
    p.ds = ds
    p.typ = typ
    return p
