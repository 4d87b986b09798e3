"""C22: updater of legacy programs."""
import contextlib, io, math, os, re, shutil, subprocess, sys, tempfile, warnings
import numpy
import uncertainties
from uncertainties import UFloat
from .. import fw
from ..spec import attempt, Raised

PROPERTY = 'C22'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: generated programs are executed before and after the update; '
             'results, printed text and warnings are compared; unaffected statements are '
             'compared byte for byte')
NOTE = ('Programs mixing legacy, modern and unrelated constructs in nested expressions and '
        'statements, with random spacing, comments, line continuations and import styles; '
        'the command line on files and directories.')
RULE = 'distinct = (import style, constructs used, contexts)'
ASSUMPTIONS = ['Dotted accesses to the functions have one level (unumpy.uarray, unc.ufloat).',
               'The setter is called as a statement; string arguments are literals; tuples '
               'are literals without trailing comma.']

_tool = {}


def tool():
    "Refactoring tool with the fixers of the package."
    if not _tool:
        path = os.path.join(fw.REPO, 'uncertainties')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            from lib2to3 import refactor
        fixers = refactor.get_fixers_from_package('uncertainties.lib1to2.fixes')
        assert len(fixers) >= 4, fixers
        _tool['tool'] = refactor.RefactoringTool(fixers)
    return _tool['tool']


def update(text):
    return str(tool().refactor_string(text, '<program>'))


class Gen(object):
    """Generator of programs. 'legacy' is the probability of legacy
    constructs where there is a choice."""

    def __init__(self, rng, legacy):
        self.rng, self.legacy = rng, legacy
        self.used = set()
        self.n = 0
        self.depth = 0
        s = rng.choice(['star', 'star', 'dotted', 'alias', 'names', 'both'])
        self.style = s
        head = {
            'star': 'from uncertainties import *\nfrom uncertainties.unumpy import '
                    'uarray, umatrix\n',
            'dotted': 'import uncertainties\nfrom uncertainties import unumpy\n',
            'alias': 'import uncertainties as unc\nimport uncertainties.unumpy as unp\n',
            'names': 'from uncertainties import ufloat, ufloat_fromstr\n'
                     'from uncertainties.unumpy import uarray, umatrix\n',
            'both': 'import uncertainties\nfrom uncertainties import *\n'
                    'from uncertainties import unumpy\nfrom uncertainties.unumpy import *\n'}
        self.head = head[s] + 'from uncertainties import umath\nimport numpy\n'
        self.f = {'star': '', 'dotted': 'uncertainties.', 'alias': 'unc.', 'names': '',
                  'both': None}[s]
        self.a = {'star': '', 'dotted': 'unumpy.', 'alias': 'unp.', 'names': '',
                  'both': None}[s]
        self.stmt_legacy = False
        self.left = False  # Constructs that the update leaves?

    def use(self, what):
        self.used.add(what)
        self.stmt_legacy = True

    def func(self, name):
        p = self.f if self.f is not None else self.rng.choice(['', 'uncertainties.'])
        if p and self.rng.random() < .03:
            p = p[:-1] + ' . '
        return p + name

    def afunc(self, name):
        p = self.a if self.a is not None else self.rng.choice(['', 'unumpy.'])
        return p + name

    def old(self):
        return self.rng.random() < self.legacy

    def sp(self):
        "Optional space (inside brackets)."
        r = self.rng.random()
        if r < .8:
            return ''
        if r < .95:
            return self.rng.choice([' ', '  ', '\t', '\x0c'])
        if r < .98:
            return '\n        '
        return '  # Comment: x.std_dev() ufloat((1, 2))\n        '

    def comma(self):
        return self.sp() + ',' + self.rng.choice([' ', ' ', '', '  ']) + \
            (self.sp() if self.rng.random() < .2 else '')

    def pick(self, options):
        return self.rng.choice(options)()

    # Plain numbers

    def lit(self):
        r = self.rng
        return r.choice(['1', '2', '3.5', '0.25', '1e-1', '.5', '10', '0x10', '1.', '2.5e+0',
                         '7', '-1', '-2.5', '- 3', '1_0'])

    def num(self, d=2):
        r = self.rng
        if d <= 0:
            return r.choice([self.lit, lambda: 'a', lambda: 'b'])()
        return self.pick([
            self.lit, self.lit, lambda: 'a',
            lambda: 'max(%s, %s)' % (self.num(d - 1), self.num(d - 1)),
            lambda: 'abs(%s)' % self.num(d - 1),
            lambda: '(%s + %s)' % (self.num(d - 1), self.num(d - 1)),
            lambda: '%s%sif%sflag%selse%s%s' % (
                (self.num(d - 1),) + tuple(r.choice([' ', ' ', '\t', '  ']) for _ in '123') +
                (r.choice([' ', '\t', '\t ']), self.num(d - 1)))
            if d == 2 else '2',
            lambda: '[%s, %s][%s]' % (self.num(d - 1), self.num(d - 1), r.choice('01')),
            lambda: "d['k']", lambda: 'd["f"](%s)' % self.num(d - 1),
            lambda: '(lambda q: q + %s)(%s)' % (self.num(d - 1), self.num(d - 1)),
            lambda: self.dev(d - 1), lambda: self.dev(d - 1),
            lambda: '-%s**2' % self.dev(d - 1),
            lambda: '%s.nominal_value' % self.prim(d - 1),
            lambda: '%s.n' % self.prim(d - 1),
            lambda: 'len("ufloat((1, 2)).std_dev()")',
            lambda: "sum([%s for q in [1, 2]])" % self.num(d - 1),
            lambda: '%s*%s' % (self.num(0).strip('- '), self.dev(d - 1)),
            lambda: '%s/(1 + %s)' % (self.dev(d - 1), self.dev(d - 1)),
            lambda: 'obj.std_dev_()', lambda: 'obj.get(%s)' % self.num(d - 1)])

    def dev(self, d):
        "Standard deviation of some number"
        x = self.prim(d)
        if self.old():
            self.use('std_dev()')
            return x + self.rng.choice(['.std_dev()']*6 + ['.std_dev( )', '.std_dev ()',
                                                           ' .std_dev()', '. std_dev()'])
        return x + self.rng.choice(['.std_dev', '.s', '.std_dev'])

    def pos(self, d=2):
        r = self.rng
        return self.pick([
            lambda: r.choice(['0.1', '.2', '1', '0', '3e-2', '2.5']),
            lambda: 'abs(%s)' % self.num(d - 1), lambda: 'b', lambda: "d['s']",
            lambda: 'max(0.1, %s)' % self.num(d - 1), lambda: self.dev(d - 1),
            lambda: '0.1 if flag else 0.2', lambda: '0.1 * 2', lambda: '[.1, .2][0]',
            lambda: '(.5)', lambda: 'obj.get(.25)'])

    # Numbers with uncertainties

    def tag(self):
        r = self.rng
        return r.choice(["'tag'", '"tag"', "tag='t'", 'tag = "t"', 'tag=None', "'''t'''",
                         'name', 'tag=name', "'a' + 'b'", 'r"x"', '"ufloat((1, 2))"'])

    def string(self):
        r = self.rng
        s = r.choice(['1.2+/-0.3', '3.14(15)', '-2(1)', '(1.5+/-.5)e2', '2', '5+/-0', '1e3',
                      '12.3(4.5)'])
        return r.choice(["'%s'", '"%s"', "'''%s'''", "u'%s'", "r'%s'", '"""%s"""']) % s

    def create(self, d=2):
        r = self.rng
        u = self.func('ufloat')
        call = r.choice(['(']*10 + [' (', '( '])
        tag = self.comma() + self.tag() if r.random() < .35 else ''
        if self.old():
            if r.random() < .6:
                self.use('tuple' + ('+tag' if tag else ''))
                return '%s%s%s(%s%s%s%s%s)%s%s)' % (
                    u, call, self.sp(), self.sp(), self.num(d), self.comma(), self.pos(d),
                    self.sp(), tag, self.sp())
            self.use('string' + ('+tag' if tag else ''))
            return '%s%s%s%s%s%s)' % (u, call, self.sp(), self.string(), tag, self.sp())
        if r.random() < .6:
            return '%s%s%s%s%s%s%s)' % (u, call, self.sp(), self.num(d), self.comma(),
                                       self.pos(d), tag)
        return '%s(%s%s)' % (self.func('ufloat_fromstr'), self.string(), tag)

    def prim(self, d=2):
        "Primary expression: number with uncertainty that can be followed by an attribute."
        r = self.rng
        options = [lambda: 'x', lambda: 'y', lambda: 'lst[0]', lambda: 'obj.x',
                   lambda: '(x + y)', lambda: 'lst[-1]', lambda: 'dd["x"]',
                   lambda: 'obj.lst[1]']
        if d > 0:
            options += [lambda: self.create(d - 1)]*4
            options += [lambda: 'same(%s)' % self.unc(d - 1),
                        lambda: '(%s)' % self.unc(d - 1),
                        lambda: '[%s][0]' % self.unc(d - 1),
                        lambda: 'umath.sin(%s)' % self.unc(d - 1),
                        lambda: '(lambda q: q)(%s)' % self.unc(d - 1),
                        lambda: 'obj.get(%s)' % self.unc(d - 1),
                        lambda: '%s[0]' % self.arr(d - 1),
                        lambda: 'max(%s, key=lambda q: %s)' % (
                            'lst', self.old() and (self.use('std_dev()') or 'q.std_dev()')
                            or 'q.std_dev')]
        return self.pick(options)

    def unc(self, d=2):
        r = self.rng
        if d <= 0:
            return self.prim(0)
        return self.pick([
            lambda: self.prim(d), lambda: self.prim(d), lambda: self.create(d),
            lambda: self.create(d),
            lambda: '%s + %s' % (self.unc(d - 1), self.unc(d - 1)),
            lambda: '%s*%s' % (self.prim(d - 1), self.prim(d - 1)),
            lambda: '-%s' % self.prim(d - 1),
            lambda: '%s**2' % self.prim(d - 1),
            lambda: '2**%s' % self.prim(d - 1),
            lambda: '%s - %s' % (self.prim(d - 1), self.dev(d - 1)),
            lambda: '%s if %s > 0 else %s' % (self.prim(d - 1), self.num(0),
                                              self.prim(d - 1)),
            lambda: '%s*%s' % (self.dev(d - 1), self.prim(d - 1)),
            lambda: 'sum([%s for q in lst])' % self.unc(d - 1)])

    # Arrays (of two numbers)

    def pair(self, d):
        "Arrays of nominal values and of standard deviations."
        r = self.rng
        return (r.choice(['[1, 2]', 'vals', '(1, 2)', 'numpy.array([%s, %s])' % (
            self.num(d), self.num(d)), '[%s, %s]' % (self.num(d), self.num(d)),
            'list(vals)', 'numpy.arange(2)']),
            r.choice(['[.1, .2]', 'stds', '(.1, .2)', '[%s, %s]' % (self.pos(d), self.pos(d)),
                      'abs(stds)']))

    def array(self, d=1, name='uarray'):
        r = self.rng
        f = self.afunc(name)
        v, s = self.pair(d)
        if self.old():
            k = r.random()
            self.use(name)
            if k < .6:
                return '%s(%s(%s%s%s%s)%s)' % (f, self.sp(), v, self.comma(), s, self.sp(),
                                               self.sp())
            if k < .9:
                return '%s(%s)' % (f, r.choice(['both', 'obj.get(both)', 'list(both)',
                                                'obj.pair', 'dd["both"]', ' both', 'both ',
                                                '[vals, stds]', 'numpy.array(both)',
                                                'both if flag else None', '[%s, %s]' % (v, s),
                                                'both[:2]']))
            return '%s((%s, %s))' % (f, v, s)
        return r.choice(['%s(%s, %s)', '%s( %s,%s )']) % (f, v, s) if r.random() < .8 else \
            '%s(*both)' % f

    def arr(self, d=1):
        return self.pick([lambda: 'arr', lambda: self.array(d), lambda: self.array(d),
                          lambda: '(%s + 1)' % self.array(d),
                          lambda: '%s[::-1]' % self.array(d),
                          lambda: '(%s**2)' % self.array(d)])

    def mat(self, d=1):
        m = self.rng.choice(['mat', 'mat', self.array(d, 'umatrix'), '(mat + 1)', 'mat.T'])
        if self.old():
            self.use('std_devs()')
            return m + self.rng.choice(['.std_devs()', '.std_devs( )', '.std_devs()[0, 0]',
                                        '.std_devs()**2', '.std_devs().T',
                                        '.std_devs().sum()'])
        return m + self.rng.choice(['.std_devs', '.std_devs.T', '.nominal_values'])

    # Statements

    def var(self):
        self.n += 1
        return 'v%d' % self.n

    def comment(self):
        return self.rng.choice(['']*6 + ['  # comment', ' # ufloat((1, 2))',
                                         '  # x.std_dev()', ' ;'])

    def setter(self):
        t = self.rng.choice(['x', 'y', 'obj.x', 'lst[0]', 'dd["x"]', 'same(x)', '(y)',
                             'obj.lst[1]'])
        if self.old():
            self.use('set_std_dev')
            arg = self.pos()
            if self.rng.random() < .15:
                n = self.rng.choice(['\n    ', '\n', ' \n        ', '  # Half\n    ',
                                     ' \\\n      '])
                arg = self.rng.choice(['.1 +' + n + '.2', '.1' + n + '* 2', n + arg,
                                       arg + n, 'max(.1,' + n + '.2)',
                                       '.1 if flag' + n + 'else .2'])
            return '%s.set_std_dev(%s%s%s)' % (t, self.rng.choice(['', ' ']), arg,
                                               self.rng.choice(['', ' ']))
        return '%s.std_dev = %s' % (t, self.pos())

    def embedded_setter(self):
        "Setter in an expression (its result is not used; left unchanged)"
        r = self.rng
        if not self.old():
            return 'out.append(x)'
        self.use('embedded setter')
        self.left = True
        x = lambda: r.choice(['x', 'y', 'lst[0]', 'obj.x', 'same(x)'])
        s = self.pos(1)
        return self.pick([
            lambda: 'out.append(%s.set_std_dev(%s))' % (x(), s),
            lambda: '[q.set_std_dev(%s) for q in [x, %s]]' % (s, x()),
            lambda: '%s.set_std_dev(*[%s])' % (x(), s),
            lambda: '%s.set_std_dev(value=%s)' % (x(), s),
            lambda: '%s.set_std_dev(**{"value": %s})' % (x(), s),
            lambda: 'flag and %s.set_std_dev(%s)' % (x(), s),
            lambda: '%s.set_std_dev(%s) if flag else None' % (x(), s),
            lambda: '%s.set_std_dev(%s), %s.set_std_dev(%s)' % (x(), s, x(), s),
            lambda: '(lambda q: q.set_std_dev(%s))(%s)' % (s, x()),
            lambda: 'map_ = list(map(lambda q: q.set_std_dev(%s), lst))' % s,
            lambda: '%s = %s.set_std_dev(%s)' % (self.var(), x(), s)])

    def simple(self):
        r = self.rng
        if r.random() < .04:
            return self.embedded_setter()
        return self.pick([
            lambda: 'out.append(%s)' % self.unc(3), lambda: 'out.append(%s)' % self.num(3),
            lambda: '%s = %s' % (self.var(), self.unc()),
            lambda: '%s = out.append(%s)' % (self.var(), self.dev(2)),
            self.setter, self.setter,
            lambda: 'out.append([%s for q in [%s, %s]])' % (
                self.dev(1), self.unc(1), self.unc(1)),
            lambda: 'out.append({%r: %s}[%r])' % ('k', self.unc(), 'k'),
            lambda: 'out.append(%s > %s)' % (self.prim(), self.num(1)),
            lambda: 'out.append(%s)' % self.arr(2), lambda: 'out.append(%s)' % self.mat(2),
            lambda: 'out += [%s, %s]' % (self.unc(), self.dev(2)),
            lambda: 'assert %s >= 0, "std_dev()"' % self.dev(1),
            lambda: 'print(%s)' % self.prim(),
            lambda: 'assert\t%s' % self.unc(1), lambda: 'out.append(not\t%s)' % self.unc(1),
            lambda: '%s =%s%s' % (self.var(), r.choice(['', '\t', '  ', ' \\\n  ']), self.unc()),
            lambda: 'out.append(lambda:\t%s)' % self.unc(1),
            lambda: 'out.append(%s in\t[%s])' % (self.prim(1), self.unc(1)),
            lambda: 'out.append(0 or\t%s)' % self.create(1),
            lambda: 'same(x=%s)' % self.unc(),
            lambda: 'out.append(same(*[%s]))' % self.unc(),
            lambda: 'lst.append(%s)' % self.unc(),
            lambda: 'x = y = %s' % self.fresh(),
            lambda: 'out.append("%%s %%s" %% (%s, %s))' % (self.unc(1), self.dev(1)),
            lambda: 'out.append(%s.derivatives and 1)' % self.prim(),
            lambda: 'out.append((lambda: %s)())' % self.dev(2),
            lambda: 'out.append(%s.std_score(%s) if %s else None)' % (
                self.prim(), self.num(0), self.prim(0) + '.s')])

    def fresh(self):
        "A variable (not an expression)"
        old = self.rng.random
        return self.create(1)

    def other(self):
        "Unrelated code."
        r = self.rng
        v = self.var()
        return self.pick([
            lambda: '%s = my_ufloat((1, 2))' % v,
            lambda: '%s = obj.std_dev_()' % v,
            lambda: '%s = "ufloat((1, 2)) x.std_dev()"' % v,
            lambda: "%s = '''\nx.set_std_dev(3)\nuarray((1, 2))\n'''" % v,
            lambda: '# ufloat((3, 4))',
            lambda: '%s = [ i*2 for i  in range( 3 ) if i ]' % v,
            lambda: '%s = {1 : 2,3:4 ,}' % v,
            lambda: '%s = lambda *a, **k : (a,k)' % v,
            lambda: 'if  flag :\n\t%s = (1,\n  2)' % v,
            lambda: '%s = 1 + \\\n      2' % v,
            lambda: 'for q in (1,2): pass',
            lambda: '%s = std_dev_of(x)' % v,
            lambda: 'try:\n  1/0\nexcept ZeroDivisionError as e:\n  out.append("e")\n'
                    'finally:\n  pass',
            lambda: 'class K%s(object):\n    """Doc: ufloat((1, 2))"""\n    def f(self, '
                    'std_dev=3):\n        return std_dev' % v,
            lambda: '%s = f"{a!r:>10} {b}"' % v,
            lambda: '%s: int = 3' % v,
            lambda: '%s = set_std_dev_ = x.__class__' % v,
            lambda: '%s = dict(std_dev=3, ufloat=(1, 2))' % v,
            lambda: 'out.append(x.std_dev)', lambda: '%s = x.std_score' % v,
            lambda: 'out.append(x)', lambda: 'def g%s(std_dev = (1, 2)): return std_dev' % v,
            lambda: 'uarray_ = ufloat_ = %s = (1, 2)' % v,
            lambda: 'out.append(numpy.array([1., 2.]).std())',
            lambda: '%s = obj.get((1, 2))' % v])

    def indent(self, text, n=4):
        # (Strings on several lines are not indented)
        return ' '*n + text

    def statement(self, depth=2):
        r = self.rng
        k = r.random()
        if k < .25:
            return self.other()
        if k < .65 or depth <= 0:
            s = self.simple()
            if r.random() < .1:
                s += '; ' + self.simple()
            return s + self.comment()
        v = self.var()
        body = lambda: self.indent(self.simple())
        return self.pick([
            lambda: 'if %s > %s:\n%s\nelse:\n%s' % (self.prim(), self.num(1), body(), body()),
            lambda: 'for q in [%s, %s]:\n%s\n    out.append(%s)' % (
                self.unc(), self.unc(), body(), self.old() and
                (self.use('std_dev()') or 'q.std_dev()') or 'q.std_dev'),
            lambda: 'def f%s(p=%s, *args, **kw):\n    "%s"\n    return%s%s\nout.append(f%s())'
                    % (v, self.unc(), 'Doc. x.std_dev()', r.choice([' ', ' ', '\t', '  \t']),
                       self.unc(), v),
            lambda: 'def f%s(p):\n    yield %s\n    return\nout.append(list(f%s(%s)))' % (
                v, self.dev(1), v, self.unc()),
            lambda: 'class C%s(object):\n    attr = %s\n    def m(self):\n        return '
                    '%s\nout.append(C%s().m())' % (
                        v, self.unc(), self.old() and
                        (self.use('std_dev()') or 'self.attr.std_dev()') or 'self.attr.s', v),
            lambda: 'try:\n%s\nfinally:\n%s' % (body(), body()),
            lambda: 'if flag: %s' % self.simple(),
            lambda: 'while %s < 0 and not flag: pass' % self.dev(1),
            lambda: '@same\ndef f%s(): return %s\nout.append(f%s())' % (v, self.unc(), v),
            lambda: 'with ctx() as c%s:\n%s' % (v, body()),
            lambda: '%s = [%s\n   for q in lst\n   if %s > 0]\nout.append(%s)' % (
                v, self.dev(1), self.old() and
                (self.use('std_dev()') or 'q.std_dev()') or 'q.std_dev', v)])

    def deep(self):
        "Statement with deeply nested constructs."
        r = self.rng
        depth = r.choice([5, 15, 25, r.randint(1, 40)])
        if r.random() < .5:
            e = self.pick([lambda: self.create(1), lambda: self.dev(1),
                           lambda: self.unc(1), lambda: self.array(1)])
            for _ in range(depth):
                e = r.choice(['same(%s)', '(%s)', '[%s][0]', 'same(%s)', 'same(x=%s)',
                              'obj.get(%s)', 'max([%s], key=lambda q: 1)', '{1: %s}[1]',
                              '(3, %s)[1]']) % e
            return 'out.append(%s)' % e
        lines = []
        for i in range(depth):
            lines.append(' '*i + r.choice(['if flag or 1:', 'if not flag or 1:', 'if True:']))
            if r.random() < .2:
                lines.append(' '*(i + 1) + self.simple())
        lines.append(' '*depth + (self.setter() if r.random() < .5 else self.simple()))
        return '\n'.join(lines)

    def program(self, n, deep=0):
        "(text of the program, [(text of each statement, is it legacy?)])"
        r = self.rng
        lines = []
        for _ in range(n):
            self.stmt_legacy = False
            s = self.deep() if r.random() < deep else self.statement()
            lines.append((s, self.stmt_legacy))
        sep = lambda: r.choice(['\n', '\n', '\n\n', '\n\n\n', '\n   # indented comment\n'])
        text = self.head + PRELUDE
        for s, legacy in lines:
            text += s + sep()
        return text, lines


PRELUDE = '''
a, b, flag, name = 1.5, .25, True, 'n'
def my_ufloat(t): return t[0]
def std_dev_of(q): return 1
def same(x): return x
def ctx():
    import contextlib
    return contextlib.closing(open(os_devnull))
class Obj(object):
    def std_dev_(self): return 2.5
    def get(self, z): return z
obj = Obj()
_make = make
x, y = _make(3.5, .5, 'x'), _make(-1.25, .125, None)
lst = [x, y, _make(2., 0., 'z')]
obj.x = _make(.5, .25, 'o')
obj.lst = [x, obj.x]
d = {'k': 2.5, 's': .5, 'f': abs}
dd = {'x': _make(10., 1., 'd')}
vals, stds = numpy.array([3., 4.]), numpy.array([.5, .25])
both = vals, stds
obj.pair = both
dd['both'] = both
arr = numpy.array([_make(1., .5, 'a'), _make(2., .25, 'b')])
mat = make_matrix([[_make(1., .5, 'm'), _make(2., .25, 'n')], [3., _make(4., 1., 'o')]])

'''


def describe(o):
    if isinstance(o, UFloat):
        return ('u', type(o).__name__, repr(o.nominal_value), repr(float(o.std_dev)),
                repr(getattr(o, 'tag', None)),
                sorted((repr(v.nominal_value), repr(float(v.std_dev)), repr(v.tag), repr(x))
                       for v, x in o.derivatives.items()))
    if isinstance(o, numpy.ndarray):
        return ('array', isinstance(o, numpy.matrix), o.shape, [describe(e) for e in o.flat])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [describe(e) for e in o])
    if isinstance(o, (int, float)):
        return ('number', repr(float(o)))
    return (type(o).__name__, str(o) if isinstance(o, str) else '')


def execute(text):
    "(results, printed text, obsolescence warnings, exception)"
    from uncertainties import unumpy
    import uncertainties.core as core
    out = []
    names = {'out': out, 'make': core.Variable, 'make_matrix': unumpy.matrix,
             'os_devnull': os.devnull, '__name__': 'program'}
    printed = io.StringIO()
    exc = None
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(printed):
        warnings.simplefilter('ignore')
        code = compile(text, '<program>', 'exec')
        warnings.simplefilter('always')
        try:
            exec(code, names)
        except Exception as e:
            exc = e
    results = [describe(o) for o in out]
    results.append([describe(names[k]) for k in sorted(names) if re.match(r'v\d+$', k)])
    results.append([describe(names[k]) for k in ('x', 'y', 'lst') if k in names])
    old = [str(x.message) for x in w if 'bsolete' in str(x.message)]
    return results, printed.getvalue(), old, exc


def run_case(ctx, legacy, n, deep=0):
    rng = ctx.rng
    g = Gen(rng, legacy)
    text, lines = g.program(n, deep)
    ctx.log('program', g.style)
    ctx.log(text)
    new = attempt(update, text)
    ctx.check(not isinstance(new, Raised), 'the update raised', got=new)
    return g, text, lines, new


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    return len(a), len(b)


def programs(ctx):
    rng = ctx.rng
    judge(ctx, *run_case(ctx, rng.choice([.3, .6, .9]), rng.randint(1, 12)))


def deep(ctx):
    "Deeply nested constructs."
    rng = ctx.rng
    judge(ctx, *run_case(ctx, rng.choice([.3, .6, .9]), rng.randint(1, 3), .8))
    ctx.count('deep')


def long(ctx):
    "Long programs."
    rng = ctx.rng
    judge(ctx, *run_case(ctx, rng.choice([.05, .3, .6]), rng.randint(100, 300), .02))
    ctx.count('long')


def judge(ctx, g, text, lines, new):
    try:
        compile(text, '<program>', 'exec')
    except SyntaxError as e:
        ctx.count('invalid_programs')
        raise fw.Skip()
    r = attempt(compile, new, '<updated>', 'exec')
    ctx.check(not isinstance(r, Raised), 'invalid output', got=r, program=new)
    again = attempt(update, new)
    ctx.check(again == new, 'updating twice', got=again, expected=new)
    if not any(l for s, l in lines):
        ctx.check(new == text, 'code without legacy construct modified', got=new)
        ctx.count('unchanged_programs')
        return
    pos = len(g.head)
    ctx.check(new.startswith(g.head), 'imports modified', got=new[:300])
    for s, l in lines:
        if not l:
            i = new.find(s, pos)
            ctx.check(i >= 0, 'statement without legacy construct modified', statement=s,
                      got=new[pos:])
            pos = i + len(s)
            ctx.count('unchanged_statements')
    before, after = execute(text), execute(new)
    ctx.count('executed')
    if before[3] is not None:
        # (Programs that fail for some reason: the same must happen)
        ctx.count('failing_programs')
        ctx.check(type(after[3]) is type(before[3]), 'exception', got=after[3],
                  expected=before[3], program=new)
        return
    ctx.check(after[3] is None, 'exception', got=after[3], program=new)
    ctx.check(before[0] == after[0], 'results', difference=first_difference(
        before[0], after[0]), program=new)
    ctx.check(before[1] == after[1], 'printed text', got=after[1], expected=before[1],
              program=new)
    ctx.check(not after[2] or g.left, 'obsolete constructs are left', got=after[2], program=new)
    ctx.count('warnings_removed', len(before[2]))
    for k in sorted(g.used):
        ctx.count('construct_' + k)
    ctx.distinct(g.style, sorted(g.used), len(lines), new.count('\n'))


def modern(ctx):
    "Programs without legacy constructs."
    rng = ctx.rng
    g, text, lines, new = run_case(ctx, 0, rng.randint(1, 12))
    k = rng.random()
    if k < .1:
        text = text.replace('\n', '\r\n')
    elif k < .2:
        text = text.rstrip('\n') + '\n'
    elif k < .3:
        text = '#!/usr/bin/env python\n# -*- coding: utf-8 -*-\n' + text + '\x0c\n'
    elif k < .4:
        text = text.replace('    ', '\t')
    elif k < .5:
        text += '# \u00e9\u03c0\U0001d4d0: ufloat((1, 2))\ns = "\u00e9"\n'
    r = attempt(compile, text, '<program>', 'exec')
    if isinstance(r, Raised):
        raise fw.Skip()
    new = attempt(update, text)
    ctx.check(new == text, 'code without legacy construct modified', got=new, program=text)
    ctx.count('unchanged_programs')
    ctx.distinct('modern', g.style, text.count('\n'))


def command(ctx):
    "The command line, on files and directories."
    rng = ctx.rng
    base = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or None)
    try:
        files = {}
        for i in range(rng.randint(1, 3)):
            while True:
                g = Gen(rng, rng.choice([0, .7, .9]))
                text, lines = g.program(rng.randint(1, 6))
                if not isinstance(attempt(compile, text, 'p', 'exec'), Raised):
                    break
            eol = rng.choice(['\n', '\n', '\r\n'])
            legacy = any(l for s, l in lines)
            if rng.random() < .3:
                text += '# \u00e9\u03c0\n'
            if rng.random() < .2:
                text = text.rstrip('\n')
            name = rng.choice(['', 'sub', 'sub/deep']) + '/p%d.py' % i
            files[name] = text, eol, legacy, text.replace('\n', eol).encode('utf-8')
            path = os.path.join(base, 'prog', name.lstrip('/'))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(files[name][3])
        with open(os.path.join(base, 'prog', 'notes.txt'), 'w') as f:
            f.write('ufloat((1, 2))\n')
        write, backup = rng.random() < .8, rng.random() < .5
        many = rng.random() < .6
        paths = [os.path.join(base, 'prog')] if many else \
            [os.path.join(base, 'prog', n.lstrip('/')) for n in files]
        args = (['-w'] if write else []) + (['-n'] if write and not backup else [])
        if rng.random() < .3:
            args.append('--no-diffs')
        ctx.log('command', args, many)
        for n in files:
            ctx.log(n, files[n][1], files[n][0])
        env = dict(os.environ, PYTHONPATH=fw.REPO, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'uncertainties.1to2'] +
                           args + paths, env=env, cwd=base, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=100)
        ctx.check(p.returncode == 0, 'exit code', got=p.returncode,
                  error=p.stderr.decode('utf-8', 'replace')[-500:])
        for n, (text, eol, legacy, data) in files.items():
            path = os.path.join(base, 'prog', n.lstrip('/'))
            with open(path, 'rb') as f:
                got = f.read()
            want = update(text if text.endswith('\n') else text + '\n')
            if not text.endswith('\n'):
                want = want[:-1]
            want = want.replace('\n', eol).encode('utf-8')
            if not write or want == data:
                ctx.check(got == data, 'file modified', name=n, got=got)
                ctx.check(not os.path.exists(path + '.bak'), 'useless backup', name=n)
            else:
                ctx.check(got == want, 'updated file', name=n, got=got, expected=want)
                ctx.check(os.path.exists(path + '.bak') == backup, 'backup', name=n)
                if backup:
                    with open(path + '.bak', 'rb') as f:
                        ctx.check(f.read() == data, 'contents of the backup', name=n)
                r = attempt(compile, got.decode('utf-8'), n, 'exec')
                ctx.check(not isinstance(r, Raised), 'invalid output', got=r)
                ctx.count('files_updated')
            if not legacy:
                ctx.check(want == data, 'code without legacy construct modified', name=n)
        with open(os.path.join(base, 'prog', 'notes.txt')) as f:
            ctx.check(f.read() == 'ufloat((1, 2))\n', 'text file modified')
        ctx.count('commands')
        ctx.distinct('command', args, many, len(files))
    finally:
        shutil.rmtree(base)


WORKLOADS = [
    ('programs', programs, 2400, 120000),
    ('modern', modern, 600, 30000),
    ('command', command, 40, 600),
    ('deep', deep, 300, 12000),
    ('long', long, 16, 400),
]
CASE_TIMEOUT = 120
MIN = {'deep': 100, 'long': 5, 'executed': 1000, 'unchanged_statements': 3000, 'warnings_removed': 5000,
       'unchanged_programs': 300, 'files_updated': 10, 'construct_tuple': 100,
       'construct_string': 100, 'construct_set_std_dev': 100, 'construct_uarray': 100,
       'construct_std_devs()': 50, 'construct_embedded setter': 100}
