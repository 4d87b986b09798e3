"""Independent exact reader of the documented string notations of numbers with
uncertainties."""
import math, re
from decimal import Decimal
from fractions import Fraction

SUP = {ord(a): b for a, b in zip(u'⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹', '+-0123456789')}
SUPS = u'⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹'
DEC = r'(?:[0-9]++(?:\.[0-9]*+)?|\.[0-9]++)'
EXP = (r'(?:[eE](?P<%sexp>[-+]?[0-9]+)'
       u'| *× *10(?P<%ssup>[⁺⁻]?[⁰¹²³⁴⁵⁶⁷⁸⁹]+))')


def exp(name):
    return EXP % (name, name)


def part(name, sign):
    return (r' *(?P<%ssign>%s)(?:(?P<%snum>%s)(?:%s)?|(?P<%sspec>nan|NAN|inf|INF)) *'
            % (name, sign, name, DEC, exp(name), name))


PM = u'(?:\\+/-|±)'
EXPLICIT = part('n', '[-+]?') + PM + part('u', '')
FACTORED = r'\(' + EXPLICIT + r'\)' + exp('g')
SHORT = (r'(?P<nsign>[-+]?)(?P<nnum>%s|nan|NAN|inf|INF)'
         r'(?:\((?P<u>%s|nan|NAN|inf|INF)\))?(?:%s)?' % (DEC, DEC, exp('g')))


def exponent(groups, name):
    e, s = groups.get(name + 'exp'), groups.get(name + 'sup')
    return int(e) if e is not None else int(s.translate(SUP)) if s is not None else 0


def is_special(t):
    return t.lower() in ('nan', 'inf')


class Number(object):
    "Exact decimal m*10**e, or 'nan', 'inf', '-inf'."

    def __init__(self, sign, text, e=0):
        self.neg = sign == '-'
        if is_special(text):
            self.text = ('-' if self.neg and text.lower() == 'inf' else '') + text.lower()
            self.digits = None
        else:
            a, _, b = text.partition('.')
            self.digits, self.e = int((a + b) or '0'), e - len(b)
            self.text = '%s%de%d' % ('-' if self.neg else '', self.digits, self.e)

    def float(self):
        return float(self.text)

    def same(self, x):
        "Is x the float closest to this number?"
        y = self.float()
        if math.isnan(y) or math.isnan(x):
            return math.isnan(x) and math.isnan(y)
        return x == y and math.copysign(1, x) == math.copysign(1, y)

    def __repr__(self):
        return self.text


def parse(text):
    """(value, uncertainty) as Numbers, form; None if the string is not in a documented
    notation."""
    s = text.strip()
    if s[:1] == '(' and s[-1:] == ')':
        s = s[1:-1]
    m = re.fullmatch(EXPLICIT, s)
    form, g = 'explicit', 0
    if m is None:
        m = re.fullmatch(FACTORED, s)
        form = 'factored'
    if m is not None:
        d = m.groupdict()
        if form == 'factored':
            g = exponent(d, 'g')
        return [Number(d[k + 'sign'], d[k + 'num'] or d[k + 'spec'], exponent(d, k) + g)
                for k in 'nu'] + [form]
    m = re.fullmatch(SHORT, s)
    if m is None:
        return None
    d = m.groupdict()
    g = exponent(d, 'g')
    n, u = d['nnum'], d['u']
    dec = len(n.partition('.')[2])
    value = Number(d['nsign'], n, g)
    if u is None:
        return value, Number('', '1', g - dec), 'implicit'
    if is_special(u) or '.' in u:
        return value, Number('', u, g), 'absolute'
    return value, Number('', u, g - dec), 'digits'
