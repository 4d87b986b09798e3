"""Interpreter that executes scalar programs and returns a transcript of what
they do. Started once with NumPy and once without (python -S: no site-packages;
or NumPy made impossible to import).

Protocol on stdin/stdout: 8-byte length, JSON request / JSON reply.
"""
import sys, os, struct, json, importlib


def block(how):
    "Makes NumPy impossible to import."
    if how == 'none':
        sys.modules['numpy'] = None
    elif how == 'finder':
        class Finder(object):
            def find_spec(self, name, path=None, target=None):
                if name == 'numpy' or name.startswith('numpy.'):
                    raise ImportError('No module named %s' % name)
        sys.meta_path.insert(0, Finder())
    elif how == 'site':
        # (The installed modules are not accessible, except for those
        # required by the package.)
        from importlib.machinery import PathFinder
        assert not any('site-packages' in p for p in sys.path), sys.path
        where = [sys.argv[3]]

        class Required(object):
            def find_spec(self, name, path=None, target=None):
                if name in ('past', 'future'):
                    return PathFinder.find_spec(name, where, target)
        sys.meta_path.append(Required())


def main():
    how, repo = sys.argv[1:3]
    sys.path[:] = [p for p in sys.path if os.path.basename(p) != 'verif']
    inp, outp = os.fdopen(0, 'rb'), os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    sys.path.insert(0, repo)
    block(how)
    try:
        import numpy
        has = True
    except ImportError:
        has = False
    assert has == (how == 'with'), (has, how)

    import warnings, copy, pickle, math, cmath, base64, io, contextlib
    import fractions, decimal, functools, operator
    import uncertainties
    from uncertainties import umath, UFloat
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        importlib.import_module('uncertainties.lib1to2.fixes.fix_ufloat')
    names = {'uncertainties': uncertainties, 'umath': umath, 'math': math, 'copy': copy,
             'pickle': pickle, 'Fraction': fractions.Fraction, 'cmath': cmath,
             'Decimal': decimal.Decimal, 'functools': functools, 'operator': operator,
             'base64': base64, 'importlib': importlib, 'sys': sys}
    exec('from uncertainties import *\nfrom uncertainties.core import *', names)

    def key(v):
        return '%s %r %r' % (v.tag, v.nominal_value, float(v.std_dev))

    def describe(o, depth=4):
        if isinstance(o, UFloat):
            return [type(o).__name__, type(o.nominal_value).__name__, repr(o.nominal_value),
                    type(o.std_dev).__name__, repr(o.std_dev), repr(getattr(o, 'tag', None)),
                    sorted([key(v), repr(d), type(d).__name__]
                           for v, d in o.derivatives.items()),
                    sorted([key(v), repr(d)] for v, d in o.error_components().items())]
        if isinstance(o, (list, tuple)) and depth:
            return [type(o).__name__] + [describe(x, depth - 1) for x in o]
        if isinstance(o, dict) and depth:
            return ['dict'] + sorted([repr(k) if not isinstance(k, UFloat) else key(k),
                                      describe(x, depth - 1)] for k, x in o.items())
        if o is None or isinstance(o, (int, float, str, complex, decimal.Decimal,
                                       fractions.Fraction)):
            return [type(o).__name__, repr(o)]
        return [type(o).__module__, type(o).__name__]

    known = (float, complex, bool, type(None))

    def execute(program):
        g = dict(names)
        transcript = []
        for line in program:
            printed = io.StringIO()
            with warnings.catch_warnings(record=True) as w, \
                    contextlib.redirect_stdout(printed):
                warnings.simplefilter('always')
                try:
                    try:
                        code = compile(line, '<line>', 'eval')
                    except SyntaxError:
                        exec(compile(line, '<line>', 'exec'), g)
                        r = ['done']
                    else:
                        r = describe(eval(code, g))
                    # (Prevents astronomically large integers, etc.)
                    for k in [k for k in g if k[0] == 'o' and k[1:].isdigit()]:
                        if type(g[k]) not in known and not isinstance(g[k], UFloat):
                            try:
                                g[k] = float(g[k])
                            except (TypeError, ValueError, OverflowError):
                                g[k] = .5
                except Exception as e:
                    r = ['raised', type(e).__module__, type(e).__name__, str(e)]
                    name = line.split(' = ')[0]
                    if name[0] == 'o' and name[1:].isdigit():
                        g[name] = g.get('o1', 1.)
            transcript.append([r, printed.getvalue(),
                               [[x.category.__name__, str(x.message)] for x in w]])
        return transcript

    while True:
        head = inp.read(8)
        if len(head) < 8:
            return
        request = json.loads(inp.read(struct.unpack('<Q', head)[0]))
        reply = json.dumps(execute(request)).encode()
        outp.write(struct.pack('<Q', len(reply)) + reply)
        outp.flush()


if __name__ == '__main__':
    main()
