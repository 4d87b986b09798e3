"""Self-tests of the oracles (run by setup.sh)."""
import math
import mpmath
from mpmath import mpf, mp
from .. import gen, spec, refmath

PROPERTY = 'SELFTEST'
LEVEL = 'other'
RULE = 'oracle self-tests'


def reference_derivatives(ctx):
    "Analytic reference derivatives = numerical differentiation at 160 bits."
    rng = ctx.rng
    for name in sorted(refmath.VALUE):
        n = 2 if name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod',
                          'pow', 'atan2', 'copysign', 'fmod') else \
            rng.choice([1, 2]) if name == 'log' else \
            rng.choice([2, 3]) if name == 'hypot' else 1
        args = [spec.in_domain(rng, name if name != 'pow' else 'log')
                for _ in range(n)]
        if name == 'pow' and rng.random() < .3:
            args = [-args[0] if args[0] else 1., float(rng.randint(-5, 5))]
        ps = refmath.partials(name, args)
        if ps is None:
            continue
        f = refmath.VALUE[name]
        for i, p in enumerate(ps):
            if p is None or (name == 'pow' and args[0] <= 0 and i == 1):
                continue
            h = mpf(2)**-60*max(abs(mpf(args[i])), mpf(2)**-30)
            if h > 0 and name in ('acos', 'asin', 'atanh', 'acosh', 'log', 'log1p',
                                  'log10', 'sqrt', 'pow', 'mod', 'fmod',
                                  'floordiv', 'trunc', 'gamma', 'lgamma', 'tan'):
                h = mpf(2)**-100*max(abs(mpf(args[i])), mpf(2)**-40)
            a = [mpf(x) for x in args]
            b = list(a)
            a[i] += h
            b[i] -= h
            try:
                mp.prec = 400
                num = (f(*a) - f(*b))/(2*h)
            except (ValueError, ZeroDivisionError):
                continue
            finally:
                mp.prec = refmath.PREC
            if isinstance(num, mpmath.mpc):
                if num.imag != 0:
                    continue
                num = num.real
            tol = mpf(10)**-8*max(abs(p[0]), abs(num), mpf(10)**-12)
            if abs(num - p[0]) > tol:
                # Singularities closer than the step:
                near = name in ('atanh', 'acos', 'asin', 'log1p') and \
                    1 - abs(args[0]) < 1e-9
                ctx.check(near or abs(num - p[0]) < mpf(10)**-4*abs(p[0]),
                          'reference derivative of %s' % name, args=args, i=i,
                          numerical=num, analytic=p[0])
            ctx.count('ref_' + name)
            ctx.count('evaluations')
        ctx.distinct(name, tuple(args))


WORKLOADS = [('reference_derivatives', reference_derivatives, 300, 3000)]
