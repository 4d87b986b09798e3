"""C21: inverse and pseudo-inverse of matrices, matrix class."""
import math, operator, warnings
import numpy
from mpmath import mp, mpf
import mpmath
from uncertainties import ufloat, UFloat, unumpy, umath, covariance_matrix
from uncertainties.unumpy import ulinalg
import uncertainties.core as core
import uncertainties.unumpy.core as unumpy_core
from .. import gen, fw
from ..spec import attempt, Raised
from .c20 import (fill, snapshot, nest, nest_tuple, difference, close, accumulate,
                  floats, view)

PROPERTY = 'C21'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: values and derivatives of each inverse compared with '
             'high-precision references (exact differentiation of the normal equations, '
             'numerical differentiation of a 60-digit singular value decomposition), and '
             'A*inv(A) = 1 with zero uncertainty')
NOTE = ('Generated matrices of given singular values (condition numbers up to 1e9, scales '
        'over 120 decades), rank deficiency, cutoffs, correlated and plain elements, all '
        'containers; matrix class against scalar sums of products.')
RULE = 'distinct = (function, shape, container, kinds of elements, conditioning, cutoff)'
ASSUMPTIONS = ['Tolerances proportional to the condition number, or to the inverse of the '
               'gap between the kept and the ignored singular values.',
               'No singular value is close to the cutoff.']

EPS = 2.**-52
mp.prec = 240


def orthogonal(rng, n):
    if rng.random() < .1:
        m = numpy.eye(n)[rng.sample(range(n), n)]
        return m*[rng.choice([-1, 1]) for _ in range(n)]
    a = numpy.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    return numpy.linalg.qr(a)[0]


def matrix_of(rng, m, n, s):
    "Matrix with these singular values."
    d = numpy.zeros((m, n))
    for i, x in enumerate(s):
        d[i, i] = x
    return orthogonal(rng, m) @ d @ orthogonal(rng, n)


def singular_values(rng, k):
    kind = rng.choice(['equal', 'mild', 'mild', 'wide', 'extreme', 'integers'])
    if kind == 'equal':
        s = [1.]*k
    elif kind == 'wide':
        s = [10**rng.uniform(-4, 0) for _ in range(k)]
    elif kind == 'extreme':
        s = [10**rng.uniform(-9, 0) for _ in range(k)]
    else:
        s = [rng.uniform(.3, 3) for _ in range(k)]
    return sorted(s, reverse=True), kind


def elements(rng, a, allow_plain=True):
    """(array of numbers of nominal values as close as possible to those of a,
    kind)"""
    m, n = a.shape
    kind = rng.choice(['independent', 'independent', 'mixed', 'mixed', 'correlated',
                       'shared', 'one'])
    x, y = ufloat(rng.uniform(.5, 2), .1), ufloat(rng.uniform(-2, -.5), .25)
    unit = abs(a).max() or 1.
    out = numpy.empty((m, n), dtype=object)
    special = (rng.randrange(m), rng.randrange(n))
    for i, j in numpy.ndindex(m, n):
        v = float(a[i, j])
        r = rng.random()
        if kind == 'independent' or (kind == 'one' and (i, j) == special):
            e = ufloat(v, unit*rng.choice([.1, .01, 1e-5, 2.]))
        elif kind == 'one':
            e = v
        elif kind == 'mixed':
            e = v if r < .4 else ufloat(v, .1*unit) if r < .8 else ufloat(v, 0) if r < .9 \
                else (int(v) if v == int(v) and abs(v) < 2**50 else numpy.float64(v))
        elif kind == 'shared':
            e = v + (x - x.nominal_value)*unit if r < .5 else v
        else:
            e = (x*y - x.nominal_value*y.nominal_value)*unit*rng.uniform(-1, 1) + v \
                if r < .5 else (y - y.nominal_value)*unit + v if r < .8 else \
                ufloat(v, .1*unit)
        out[i, j] = e
    return out, kind


def wrap_container(rng, a):
    "(object, kind, type of the results: 'matrix' or 'array')"
    k = rng.choice(['array', 'list', 'tuple', 'unumpy.matrix', 'unumpy.matrix',
                    'numpy.matrix', 'view', 'rows'])
    if k == 'list':
        return nest(a), k, False
    if k == 'tuple':
        return nest_tuple(a), k, False
    if k == 'unumpy.matrix':
        return unumpy.matrix(a), k, True
    if k == 'numpy.matrix':
        return numpy.matrix(a), k, True
    if k == 'view':
        return view(rng, list(a.flat), a.shape)[0], k, False
    if k == 'rows':
        return [a[i] for i in range(a.shape[0])], k, False
    return a, k, False


def nominal(a):
    return numpy.array([[float(getattr(e, 'nominal_value', e)) for e in r] for r in a])


def variables(a):
    vs = []
    for e in a.flat:
        if isinstance(e, UFloat):
            for v in e.derivatives:
                if not any(v is w for w in vs):
                    vs.append(v)
    return vs


def derivative(a, v):
    return numpy.array([[float(e.derivatives.get(v, 0.)) if isinstance(e, UFloat) else 0.
                         for e in r] for r in a])


def mpm(a):
    return mp.matrix(numpy.asarray(a).tolist())


def to_float(m):
    return numpy.array([[float(m[i, j]) for j in range(m.cols)] for i in range(m.rows)])


def check_result(ctx, what, got, shape, matrix, uncertain, **info):
    ctx.check(not isinstance(got, Raised), 'raised', operation=what, got=got, **info)
    ctx.check(isinstance(got, numpy.ndarray) and got.shape == shape, 'shape',
              operation=what, got=numpy.shape(got), expected=shape, **info)
    if uncertain:
        ctx.check(got.dtype == object and
                  (type(got) is unumpy.matrix if matrix else type(got) is numpy.ndarray),
                  'type of the result', operation=what, got=(type(got), got.dtype), **info)
    else:
        ctx.check(got.dtype == float and isinstance(got, numpy.matrix) == matrix and
                  (matrix or type(got) is numpy.ndarray),
                  'type of a result without uncertainty', operation=what,
                  got=(type(got), got.dtype), **info)


def judge(ctx, what, got, a, vs, values, derivs, tol_value, tol_deriv, **info):
    """values, derivs: references; tolerances: absolute, relative to the
    norm of the derivative of the matrix for the second one."""
    b = numpy.asarray(got)
    n = nominal(b)
    err = abs(n - values).max()
    ctx.check(err <= tol_value, 'nominal values', operation=what, error=err,
              tolerance=tol_value, got=n, expected=values, **info)
    for e in b.flat:
        if vs:
            ctx.check(isinstance(e, UFloat), 'element', operation=what, got=e, **info)
            for v in e.derivatives:
                ctx.check(any(v is w for w in vs), 'unknown variable', operation=what, **info)
    for v, d in zip(vs, derivs):
        g = derivative(b, v)
        size = numpy.linalg.norm(derivative(a, v))
        err = abs(g - d).max()
        ctx.check(err <= tol_deriv*size, 'derivatives', operation=what, error=err,
                  tolerance=tol_deriv*size, got=g, expected=d, **info)
        ctx.count('derivatives', g.size)
    ctx.count('matrices')


def scale(rng):
    return rng.choice([1., 1., 1., 10**rng.uniform(-60, 60), 2.**rng.randint(-20, 20)])


def inverses(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]*40 + [8, 9, 10])
    s, kind = singular_values(rng, n)
    c = scale(rng)
    if kind == 'integers':
        while True:
            a = numpy.array([[float(rng.randint(-5, 5)) for _ in range(n)]
                             for _ in range(n)])
            if abs(numpy.linalg.det(a)) > .5:
                break
        c = 1.
    else:
        a = matrix_of(rng, n, n, s)*c
    els, ek = elements(rng, a)
    o, ck, matrix = wrap_container(rng, els)
    a0 = nominal(els)
    vs = variables(els)
    how = rng.choice(['inv', 'inv', 'pinv', 'I', '**-1', 'solve'])
    if how in ('I', '**-1'):
        o, ck, matrix = unumpy.matrix(els), 'unumpy.matrix', True
    before = snapshot(o)
    ctx.log('inverse', how, n, kind, c, ek, ck, repr(els.tolist()))
    if how == 'I':
        b = attempt(getattr, o, 'I')
    elif how == '**-1':
        b = attempt(operator.pow, o, -1)
    else:
        b = attempt(getattr(ulinalg, 'pinv' if how == 'pinv' else 'inv'), o)
    ctx.check(snapshot(o) == before, 'input modified', operation=how)
    check_result(ctx, how, b, (n, n), matrix, bool(vs), elements=ek, container=ck)
    ref = mpm(a0)**-1
    values = to_float(ref)
    norm = numpy.linalg.norm(values)
    cond = numpy.linalg.norm(a0)*norm
    derivs = [to_float(-ref*mpm(derivative(els, v))*ref) for v in vs]
    judge(ctx, how, b, els, vs, values, derivs, 32*n*EPS*cond*norm,
          64*n*EPS*cond*norm*norm, elements=ek, container=ck, condition=cond)
    ctx.distinct('inv', how, n, kind, ek, ck, int(math.log10(cond)))
    ctx.count('inverse_' + ek)
    ctx.count('container_' + ck.replace('.', '_'))
    # Product with the original
    if vs and cond < 1e6:
        for p in (numpy.dot(numpy.asarray(b), els), numpy.dot(els, numpy.asarray(b))):
            for i, j in numpy.ndindex(n, n):
                e = p[i, j]
                ctx.check(abs(getattr(e, 'nominal_value', e) - (i == j)) <=
                          64*n*EPS*cond*cond, 'product with the original', got=e)
                if isinstance(e, UFloat):
                    for v in vs:
                        size = numpy.linalg.norm(derivative(els, v))*norm
                        ctx.check(abs(e.derivatives.get(v, 0.)) <= 128*n*EPS*cond*cond*size,
                                  'uncertainty of the product with the original', got=e)
        ctx.count('identities')


def pinv_reference(a, derivs):
    """Pseudo-inverse of a full-rank matrix, and directional derivatives,
    through the normal equations."""
    m, n = a.shape
    if m < n:
        p, ds = pinv_reference(a.T, [d.T for d in derivs])
        return p.T, [d.T for d in ds]
    A = mpm(a)
    g = (A.T*A)**-1
    p = g*A.T
    out = []
    for d in derivs:
        E = mpm(d)
        out.append(to_float(-g*(E.T*A + A.T*E)*p + g*E.T))
    return to_float(p), out


def cut_pinv(A, rcond):
    if A.rows < A.cols:
        return cut_pinv(A.T, rcond).T
    U, S, V = mp.svd_r(A)
    k = len(S)
    cut = rcond*max(S)
    f = mp.matrix(k, k)
    for i in range(k):
        f[i, i] = 1/S[i] if S[i] > cut else mpf(0)
    return V.T*f*U.T


def cut_reference(a, derivs, rcond):
    "The same with a cutoff: numerical differentiation in high precision."
    A = mpm(a)
    rcond = mpf(rcond)
    out = []
    p = cut_pinv(A, rcond)
    for d in derivs:
        E = mpm(d)
        size = max(abs(x) for x in d.flat)
        h = mpf(2)**-70*max(abs(x) for x in a.flat)/(size or 1)
        out.append(to_float((cut_pinv(A + h*E, rcond) -
                             cut_pinv(A - h*E, rcond))/(2*h)))
    return to_float(p), out


def pseudo_inverses(ctx):
    rng = ctx.rng
    m, n = rng.choice([(1, 2), (2, 1), (3, 2), (2, 3), (4, 2), (2, 4), (3, 4), (5, 3),
                       (1, 4), (4, 1), (3, 3), (4, 4), (2, 2), (1, 1), (6, 3)])
    k = min(m, n)
    s, kind = singular_values(rng, k)
    c = scale(rng)
    if kind == 'integers':
        while True:
            a = numpy.array([[float(rng.randint(-4, 4)) for _ in range(n)]
                             for _ in range(m)])
            if numpy.linalg.svd(a)[1][-1] > .1:
                break
    else:
        a = matrix_of(rng, m, n, s)*c
    els, ek = elements(rng, a)
    o, ck, matrix = wrap_container(rng, els)
    a0 = nominal(els)
    vs = variables(els)
    how = rng.choice(['pinv', 'pinv', 'rcond', 'keyword', 'I'])
    if how == 'I' and m != n:
        o, ck, matrix = unumpy.matrix(els), 'unumpy.matrix', True
    before = snapshot(o)
    ctx.log('pinv', how, m, n, kind, c, ek, ck, repr(els.tolist()))
    if how == 'I' and m != n:
        b = attempt(getattr, o, 'I')
    elif how == 'rcond':
        b = attempt(ulinalg.pinv, o, 1e-12)
    elif how == 'keyword':
        b = attempt(ulinalg.pinv, o, rcond=1e-14)
    else:
        b = attempt(ulinalg.pinv, o)
    ctx.check(snapshot(o) == before, 'input modified', operation=how)
    check_result(ctx, how, b, (n, m), matrix, bool(vs), elements=ek, container=ck)
    sv = numpy.linalg.svd(a0)[1]
    top, low = sv[0], sv[-1]
    # (The derivatives are given for at most 4 variables)
    some = vs if len(vs) <= 4 else rng.sample(vs, 4)
    values, derivs = pinv_reference(a0, [derivative(els, v) for v in some])
    cond = top/low
    tol = 64*max(m, n)*EPS*cond/low
    for e in numpy.asarray(b).flat:
        if vs:
            ctx.check(isinstance(e, UFloat) and
                      all(any(v is w for w in vs) for v in e.derivatives),
                      'variables', operation=how)
    judge(ctx, how, b, els, some, values, derivs, tol, 4*tol/low, elements=ek,
          container=ck, condition=cond) if some is vs else judge_some(
        ctx, how, b, els, some, values, derivs, tol, 4*tol/low, condition=cond)
    ctx.distinct('pinv', how, m, n, kind, ek, ck, int(math.log10(cond) + .1))
    ctx.count('pseudo_inverses')


def judge_some(ctx, what, got, a, vs, values, derivs, tol_value, tol_deriv, **info):
    "The same for some of the variables."
    b = numpy.asarray(got)
    n = nominal(b)
    err = abs(n - values).max()
    ctx.check(err <= tol_value, 'nominal values', operation=what, error=err, got=n,
              expected=values, tolerance=tol_value, **info)
    for v, d in zip(vs, derivs):
        g = derivative(b, v)
        size = numpy.linalg.norm(derivative(a, v))
        err = abs(g - d).max()
        ctx.check(err <= tol_deriv*size, 'derivatives', operation=what, error=err,
                  tolerance=tol_deriv*size, got=g, expected=d, **info)
        ctx.count('derivatives', g.size)
    ctx.count('matrices')


def cutoffs(ctx):
    "Cutoffs, rank deficiency."
    rng = ctx.rng
    m, n = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (2, 4), (4, 4)])
    k = min(m, n)
    keep = rng.randint(0 if rng.random() < .1 else 1, k)
    kind = rng.choice(['zero', 'zero', 'cut', 'cut', 'cut', 'integers'])
    rcond = None
    if kind == 'integers':
        # Rank-deficient matrix of integers
        keep = min(keep, k - 1) or 1
        a = (numpy.array([[float(rng.randint(-3, 3)) for _ in range(keep)]
                          for _ in range(m)]) @
             numpy.array([[float(rng.randint(-3, 3)) for _ in range(n)]
                          for _ in range(keep)]))
        rcond = 1e-9
        c = 1.
    elif kind == 'zero':
        s = sorted([rng.uniform(.1, 3) for _ in range(keep)], reverse=True) + [0.]*(k - keep)
        c = scale(rng)
        a = matrix_of(rng, m, n, s)*c
        rcond = rng.choice([1e-9, 1e-6, 1e-12])
    else:
        keep = max(keep, 1)
        c = scale(rng)
        r = rng.uniform(-5, -.3)
        s = [10**rng.uniform(r + .1, 0) for _ in range(keep)]
        s[0] = 1.
        s += [10**(r - .1 - rng.choice([0, rng.uniform(0, 4)])) for _ in range(k - keep)]
        rcond = 10**r
        a = matrix_of(rng, m, n, s)*c
    els, ek = elements(rng, a)
    if not variables(els):
        raise fw.Skip()
    a0 = nominal(els)
    sv = numpy.linalg.svd(a0)[1]
    kept = sv[sv > rcond*sv[0]]
    lost = sv[sv <= rcond*sv[0]]
    cut = rcond*sv[0]
    if not len(kept) or any(abs(x - cut) < .01*cut for x in sv):
        raise fw.Skip()
    o, ck, matrix = wrap_container(rng, els)
    vs = variables(els)
    how = rng.choice(['positional', 'keyword'])
    before = snapshot(o)
    ctx.log('cutoff', how, m, n, kind, c, rcond, repr(sv), ek, ck, repr(els.tolist()))
    b = attempt(ulinalg.pinv, o, rcond) if how == 'positional' else \
        attempt(ulinalg.pinv, o, rcond=rcond)
    ctx.check(snapshot(o) == before, 'input modified', operation=how)
    check_result(ctx, how, b, (n, m), matrix, True, elements=ek, container=ck)
    some = rng.sample(vs, min(len(vs), 2))
    values, derivs = cut_reference(a0, [derivative(els, v) for v in some], rcond)
    low = kept[-1]
    gap = low - (lost[0] if len(lost) else 0.)
    tol = 64*max(m, n)*EPS*sv[0]/gap/low
    judge_some(ctx, how, b, els, some, values, derivs, tol, 16*tol/gap, rcond=rcond,
               singular_values=sv, elements=ek, container=ck)
    ctx.distinct('cut', how, m, n, kind, len(kept), ek, ck, round(math.log10(rcond)))
    ctx.count('cut_%s' % (kind if len(lost) else 'nothing'))


def pure(ctx):
    "Matrices without uncertainty; errors."
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    a = matrix_of(rng, n, n, [rng.uniform(.5, 2) for _ in range(n)])
    k = rng.choice(['array', 'list', 'matrix', 'unumpy', 'object', 'exact'])
    els = fill([float(x) for x in a.flat], (n, n))
    o = {'array': a, 'list': a.tolist(), 'matrix': numpy.matrix(a),
         'unumpy': unumpy.matrix(a), 'object': els,
         'exact': unumpy.matrix(els)}[k]
    ctx.log('pure', k, repr(a.tolist()))
    before = snapshot(o) if k != 'list' else repr(o)
    matrix = isinstance(o, numpy.matrix)
    ref = numpy.linalg.inv(a)
    for f in (ulinalg.inv, ulinalg.pinv):
        b = attempt(f, o)
        check_result(ctx, f.__name__, b, (n, n), matrix, False, container=k)
        ctx.check(abs(numpy.asarray(b) - ref).max() < 1e-13, 'values', got=b, expected=ref)
    if isinstance(o, unumpy.matrix):
        check_result(ctx, 'I', o.I, (n, n), True, False, container=k)
    ctx.check((snapshot(o) if k != 'list' else repr(o)) == before, 'input modified')
    # Numbers with a zero uncertainty
    z = fill([ufloat(x, 0) for x in a.flat], (n, n))
    b = attempt(ulinalg.inv, z)
    ctx.check(not isinstance(b, Raised) and abs(unumpy.nominal_values(b) - ref).max() < 1e-13
              and (unumpy.std_devs(b) == 0).all(), 'zero uncertainties', got=b)
    # Errors
    x = ufloat(2.**rng.randint(-3, 3), .1)  # (Singular without rounding)
    sing = rng.choice([[[x, x], [x, x]], [[x, 2*x], [0, 0]], [[ufloat(0, 1)]]])
    wide = rng.choice([[[x, 1.]], [[x], [2.]], [[x, 1, 2], [1, x, 3]]])
    k2, j = rng.randint(-5, 5), rng.randint(1, 8)
    for m in (sing, wide):
        for w in (lambda m: m, numpy.array, unumpy.matrix):
            r = attempt(ulinalg.inv, w(m))
            ctx.check(isinstance(r, Raised) and isinstance(r.exc, numpy.linalg.LinAlgError),
                      'LinAlgError expected', got=r, matrix=m)
    # Singular value that is exactly at the limit: removed
    p, q = ufloat(2.**k2, .1), ufloat(2.**(k2 - j), .1)
    d = [[p, 0], [0, q]] if rng.random() < .5 else [[q, 0], [0, p]]
    b = attempt(ulinalg.pinv, rng.choice([list, numpy.array, unumpy.matrix])(d), 2.**-j)
    if numpy.linalg.matrix_rank(numpy.linalg.pinv(nominal(numpy.array(d)), 2.**-j)) == 1:
        i = 0 if d[0][0] is p else 1
        b = numpy.asarray(b)
        ctx.check(b[1 - i, 1 - i].nominal_value == 0 and b[1 - i, 1 - i].std_dev == 0 and
                  abs(b[i, i].std_dev - .1/p.nominal_value**2) <= 1e-12/p.nominal_value**2,
                  'singular value at the limit', got=b, matrix=d)
        ctx.count('pure_limit')
    # (The inverse attribute of a square matrix is its inverse.)
    for w in (lambda m: m.I, lambda m: m.getI(), lambda m: m**-1,
              lambda m: m**numpy.int64(-1), lambda m: m**numpy.int8(-2)):
        r = attempt(w, unumpy.matrix(sing))
        ctx.check(isinstance(r, Raised) and isinstance(r.exc, numpy.linalg.LinAlgError),
                  'LinAlgError expected', got=r, matrix=sing)
    names = {}
    exec('from uncertainties.unumpy.ulinalg import *', names)
    ctx.check(names['inv'] is ulinalg.inv and names['pinv'] is ulinalg.pinv,
              'names of the linear algebra functions')
    r = attempt(unumpy.matrix(wide).__pow__, -1)
    ctx.check(isinstance(r, Raised), 'power of a rectangular matrix', got=r)
    ctx.count('pure_' + k)
    ctx.distinct('pure', n, k)


# Matrix class

def scalar_product(a, b):
    "Products of lists of lists, through scalar operations"
    m, k = a.shape
    n = b.shape[1]
    out = numpy.empty((m, n), dtype=object)
    for i, j in numpy.ndindex(m, n):
        out[i, j] = accumulate(operator.add, [a[i, q]*b[q, j] for q in range(k)])
    return out


def unit_of(a):
    return max([1.] + [abs(float(getattr(e, 'nominal_value', e))) for e in a.flat] +
               [abs(float(d)) for e in a.flat if isinstance(e, UFloat)
                for d in e.derivatives.values()])


def some_matrix(rng, m, n):
    return elements(rng, numpy.array([[rng.choice([0., 1., rng.uniform(-2, 2)])
                                       for _ in range(n)] for _ in range(m)]))


def compare(ctx, what, got, want, unit, matrix=True):
    ctx.check(isinstance(got, numpy.ndarray) and got.shape == want.shape, 'shape',
              operation=what, got=got, expected=want.shape)
    if matrix and any(isinstance(e, UFloat) for e in want.flat):
        ctx.check(type(got) is unumpy.matrix, 'type', operation=what, got=type(got))
    g = numpy.asarray(got)
    for i in numpy.ndindex(*want.shape):
        w = want[i]
        x = g[i]
        if not isinstance(w, UFloat) and not isinstance(x, UFloat):
            ctx.check(abs(x - w) <= 1e-12*unit, 'plain element', operation=what)
        else:
            close(ctx, what, x, w, unit)
    ctx.count('class_' + what.split()[0])


def matrices(ctx):
    rng = ctx.rng
    m, k, n = (rng.choice([1, 2, 2, 3]) for _ in range(3))
    a, ka = some_matrix(rng, m, k)
    b, kb = some_matrix(rng, k, n)
    M = unumpy.matrix(a)
    before = snapshot(M)
    what = rng.choice(['product', 'product', 'array', 'plain', 'reflected', 'scalar',
                       'scalar', 'power', 'transpose', 'access', 'sums', 'elementwise',
                       'inplace', 'slices', 'system'])
    ctx.log('matrix', what, m, k, n, ka, kb, repr(a.tolist()), repr(b.tolist()))
    ctx.distinct('matrix', what, m, k, n, ka, kb)
    unit = 4*k*unit_of(a)*unit_of(b)
    plain = nominal(b)
    if what == 'product':
        N = unumpy.matrix(b)
        compare(ctx, what, M*N, scalar_product(a, b), unit)
        compare(ctx, what + ' @', M @ N, scalar_product(a, b), unit)
        compare(ctx, what + ' numpy', M*numpy.matrix(b), scalar_product(a, b), unit)
    elif what == 'array':
        compare(ctx, what, M*b, scalar_product(a, b), unit)
        compare(ctx, what + ' list', M*b.tolist(), scalar_product(a, b), unit)
        v = [ufloat(1, .1) for _ in range(k)]
        c = fill(v, (k, 1))
        compare(ctx, what + ' column', M*unumpy.matrix(v).T, scalar_product(a, c),
                4*k*unit_of(a))
    elif what == 'plain':
        compare(ctx, what, M*plain, scalar_product(a, plain), unit)
        compare(ctx, what + ' matrix', M*numpy.matrix(plain), scalar_product(a, plain), unit)
    elif what == 'reflected':
        N = unumpy.matrix(b)
        p = nominal(a)
        compare(ctx, what, numpy.matrix(p)*N, scalar_product(p.astype(object), b), unit)
        compare(ctx, what + ' array', p*N, scalar_product(p.astype(object), b), unit)
        compare(ctx, what + ' list', p.tolist()*N, scalar_product(p.astype(object), b),
                unit)
        compare(ctx, what + ' objects', a*N, scalar_product(a, b), unit)
    elif what == 'scalar':
        x = rng.choice([2, 2.5, numpy.float64(1.5), numpy.int64(3), ufloat(2, .5),
                        2*ufloat(1, .5) + 1, ufloat(0, 1)])
        want = fill([e*x for e in a.flat], a.shape)
        u = 4*unit_of(a)*4
        compare(ctx, what + ' right', M*x, want, u)
        compare(ctx, what + ' left', x*M, want, u)
        if getattr(x, 'nominal_value', x):
            compare(ctx, what + ' division', M/x, fill([e/x for e in a.flat], a.shape), u)
        compare(ctx, what + ' sum', M + x, fill([e + x for e in a.flat], a.shape), u)
        compare(ctx, what + ' difference', x - M, fill([x - e for e in a.flat], a.shape), u)
    elif what == 'power':
        q, kq = some_matrix(rng, m, m)
        Q = unumpy.matrix(q)
        e = rng.choice([0, 1, 2, 3, 4, numpy.int64(2)])
        r = Q**e
        want = q if e else numpy.eye(m).astype(object)
        u = 4*unit_of(q)
        for _ in range(e - 1):
            want = scalar_product(want, q)
            u *= 4*m*unit_of(q)
        ctx.check(isinstance(r, unumpy.matrix), 'type', operation=what, got=type(r))
        compare(ctx, what, r, want, u*5, matrix=False)
    elif what == 'transpose':
        for t in (M.T, M.transpose(), M.getT()):
            ctx.check(type(t) is unumpy.matrix and t.shape == (k, m) and
                      all(t[j, i] is a[i, j] for i, j in numpy.ndindex(m, k)), 'transpose',
                      got=t)
        ctx.check(all(M.T.T[i, j] is a[i, j] for i, j in numpy.ndindex(m, k)), 'transpose')
        ctx.check(type(M.A) is numpy.ndarray and all(x is y for x, y in
                                                     zip(M.A.flat, a.flat)), 'array')
        ctx.check(all(x is y for x, y in zip(M.A1, a.flat)), 'flat array')
    elif what == 'access':
        n_ = [float(getattr(e, 'nominal_value', e)) for e in a.flat]
        s_ = [float(getattr(e, 'std_dev', 0.)) for e in a.flat]
        floats(ctx, M.nominal_values, M, n_, '.nominal_values')
        floats(ctx, M.std_devs, M, s_, '.std_devs')
        floats(ctx, unumpy.nominal_values(M), M, n_, 'nominal_values')
        floats(ctx, unumpy.std_devs(M), M, s_, 'std_devs')
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            d = M.std_devs
            ctx.check(not w, 'warning')
            floats(ctx, d(), M, s_, 'std_devs()')
            ctx.check(any('bsolete' in str(x.message) for x in w), 'no warning')
        # Results that can be used in calculations
        r = (M.std_devs*2).flat
        ctx.check(all(x == 2*y for x, y in zip(r, s_)), 'calculation with std_devs')
    elif what == 'sums':
        u = 4*m*k*unit_of(a)
        r = M.sum()
        close(ctx, what, r, accumulate(operator.add, list(a.flat)), u)
        compare(ctx, what + ' axis', M.sum(0),
                fill([accumulate(operator.add, list(a[:, j])) for j in range(k)], (1, k)), u,
                matrix=False)
        compare(ctx, what + ' mean', M.mean(1),
                fill([accumulate(operator.add, list(a[i]))/k for i in range(m)], (m, 1)), u,
                matrix=False)
        close(ctx, what, M.trace()[0, 0],
              accumulate(operator.add, [a[i, i] for i in range(min(m, k))]), u)
    elif what == 'elementwise':
        c, kc = some_matrix(rng, m, k)
        for name in ('add', 'sub'):
            op = getattr(operator, name)
            want = fill([op(x, y) for x, y in zip(a.flat, c.flat)], (m, k))
            for N in (unumpy.matrix(c), numpy.matrix(c), c, c.tolist()):
                compare(ctx, name, op(M, N), want, 4*unit_of(a) + 4*unit_of(c))
                if not isinstance(N, list):
                    compare(ctx, 'r' + name, op(N, M),
                            fill([op(y, x) for x, y in zip(a.flat, c.flat)], (m, k)),
                            4*unit_of(a) + 4*unit_of(c))
        for name in ('neg', 'abs', 'pos'):
            op = getattr(operator, name)
            want = fill([op(x) for x in a.flat], (m, k))
            compare(ctx, name, op(M), want, unit_of(a))
    elif what == 'inplace':
        x = rng.choice([ufloat(2, .5), 2.5, 3])
        N = unumpy.matrix(a)
        for name in ('mul', 'add', 'sub', 'truediv'):
            N = unumpy.matrix(a)
            P = getattr(operator, 'i' + name)(N, x)
            ctx.check(P is N, 'in-place operation', operation=name)
            op = getattr(operator, name)
            compare(ctx, 'i' + name, N, fill([op(e, x) for e in a.flat], (m, k)),
                    16*unit_of(a))
    elif what == 'slices':
        i, j = rng.randrange(m), rng.randrange(k)
        r, c = M[i], M[:, j]
        ctx.check(type(r) is unumpy.matrix and r.shape == (1, k) and
                  all(x is y for x, y in zip(r.flat, a[i])), 'row')
        ctx.check(type(c) is unumpy.matrix and c.shape == (m, 1) and
                  all(x is y for x, y in zip(c.flat, a[:, j])), 'column')
        ctx.check(M[i, j] is a[i, j], 'element')
        if any(abs(x) > .1 for x in nominal(a)[i]) and variables(a[i:i + 1]):
            v, vs = nominal(a)[i:i + 1], variables(a[i:i + 1])
            values, derivs = pinv_reference(v, [derivative(a[i:i + 1], w) for w in vs])
            low = numpy.linalg.norm(v)
            tol = 64*k*EPS/low
            b_ = r.I
            check_result(ctx, 'row.I', b_, (k, 1), True, True)
            judge(ctx, 'row.I', b_, a[i:i + 1], vs, values, derivs, tol, 4*tol/low)
    else:
        # Linear system solved through the inverse
        q = matrix_of(rng, k, k, [rng.uniform(.5, 2) for _ in range(k)])
        els, kq = elements(rng, q)
        Q = unumpy.matrix(els)
        rhs = unumpy.matrix(b)
        sol = Q.I*rhs
        back = Q*sol
        for g, w in zip(numpy.asarray(back).flat, b.flat):
            close(ctx, what, g, w, 1e3*unit_of(els)*unit_of(b)*k)
        ctx.count('systems')
        r = Q**rng.choice([-2, numpy.int64(-2), numpy.int32(-2)])
        P = Q.I*Q.I
        compare(ctx, 'negative power', r, numpy.asarray(P), 1e3*unit_of(els)**2, matrix=False)
    ctx.check(snapshot(M) == before, 'input modified', operation=what)
    ctx.count('matrix_' + what)


def array_functions(ctx):
    "Functions of arrays with numerical derivatives."
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    a = matrix_of(rng, n, n, [rng.uniform(.5, 2) for _ in range(n)])
    els, ek = elements(rng, a)
    vs = variables(els)
    if not vs or ek == 'correlated':
        raise fw.Skip()
    if rng.random() < .5:
        # Any magnitude of the uncertainties (zero included)
        for v in vs:
            v.std_dev = rng.choice([0., abs(v.nominal_value)*10**rng.uniform(-16, -1)])
        if n > 1 and rng.random() < .5:
            # (An element that is exactly null, but that is a variable)
            els[0, 0] = ufloat(0, 0)
            els[0, 1] = els[0, 1] + 3
            els[1, 0] = els[1, 0] + 3
            if numpy.linalg.cond(nominal(els).astype(float)) > 50:
                raise fw.Skip()
            vs = variables(els)
    ctx.log('array function', repr(els.tolist()))
    o = els if rng.random() < .5 else unumpy.matrix(els)
    before = snapshot(o)
    how = rng.choice(['inv', 'inv', 'extra', 'keyword'])
    factor = rng.uniform(.5, 2)
    seen = []

    def function(m, *args, **kwargs):
        seen.append((args, kwargs))
        return numpy.linalg.inv(m)*(sum(args) + sum(kwargs.values()) or 1.)

    args, kwargs = {'inv': ((), {}), 'extra': ((factor,), {}),
                    'keyword': ((), {'factor': factor})}[how]
    f = unumpy_core.wrap_array_func(function)
    if rng.random() < .3:
        # No uncertainty: the result of the function itself
        plain = numpy.array(a) if rng.random() < .5 else numpy.asmatrix(a).copy()
        b = attempt(f, plain, *args, **kwargs)
        ctx.check(type(b) is type(plain) and
                  (numpy.asarray(b) == numpy.asarray(function(plain, *args, **kwargs))).all(),
                  'plain result', got=b)
        ctx.check(all(t == (args, kwargs) for t in seen), 'arguments', got=seen)
    b = attempt(f, o, *args, **kwargs)
    ctx.check(all(t == (args, kwargs) for t in seen), 'arguments', got=seen)
    factor = 1. if how == 'inv' else factor
    ctx.check(snapshot(o) == before, 'input modified')
    ctx.check(isinstance(b, numpy.ndarray) and b.shape == (n, n), 'result', got=b)
    ref = mpm(nominal(els))**-1
    derivs = [factor*to_float(-ref*mpm(derivative(els, v))*ref) for v in vs]
    ref = mpf(factor)*ref
    judge(ctx, 'wrap_array_func', b, els, vs, to_float(ref), derivs, 1e-12, 1e-3*4)
    ctx.count('array_functions')


def large(ctx):
    "Larger matrices (differentiated in double precision)."
    rng = ctx.rng
    m = rng.randint(7, 16)
    n = m if rng.random() < .6 else rng.randint(7, 16)
    a = matrix_of(rng, m, n, [rng.uniform(.5, 2) for _ in range(min(m, n))])
    els = a.astype(object)
    shared = ufloat(0, .1)
    for _ in range(rng.choice([1, 4, 12])):
        i, j = rng.randrange(m), rng.randrange(n)
        els[i, j] = ufloat(a[i, j], .01) + rng.choice([0, 0, 1, -2.])*shared
    if rng.random() < .5:
        els[m - 1, n - 1] = ufloat(a[m - 1, n - 1], .01)
    o, ck, matrix = wrap_container(rng, els)
    vs = variables(els)
    how = rng.choice(['inv', 'pinv'] if m == n else ['pinv'])
    before = snapshot(o)
    ctx.log('large', how, m, n, ck, repr(els.tolist()))
    b = attempt(getattr(ulinalg, how), o)
    ctx.check(snapshot(o) == before, 'input modified', operation=how)
    check_result(ctx, how, b, (n, m), matrix, bool(vs), container=ck)
    a0 = nominal(els)
    p = numpy.linalg.pinv(a0)
    im, ik = numpy.eye(m) - a0 @ p, numpy.eye(n) - p @ a0
    bs = numpy.asarray(b)
    got = numpy.array([[e.n for e in r] for r in bs])
    ctx.check(numpy.abs(got - p).max() <= 1e-12, 'value', operation=how, m=m, n=n)
    for v in vs:
        d = derivative(els, v)
        exp = -p @ d @ p + p @ p.T @ d.T @ im + ik @ d.T @ p.T @ p
        got = numpy.array([[e.derivatives.get(v, 0.) for e in r] for r in bs])
        ctx.check(numpy.abs(got - exp).max() <= 1e-11*(1 + numpy.abs(d).max()),
                  'derivatives', operation=how, m=m, n=n, worst=numpy.abs(got - exp).max())
        ctx.count('derivatives', m*n)
    ctx.count('large')
    ctx.distinct('large', how, m, n, ck, len(vs))


def wrapped(ctx):
    "wrap_array_func(): any function of an array, differentiated numerically."
    rng = ctx.rng
    m, n = rng.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (5,  4)])
    k = rng.choice(['inv', 'pinv', 'gram', 'scaled', 'flip', 'constant', 'plain'])
    if k == 'inv':
        n = m
    a = matrix_of(rng, m, n, [rng.uniform(.5, 2) for _ in range(min(m, n))])
    els = a.astype(object)
    shared = ufloat(1, .1)
    if k != 'plain':
        for i, j in numpy.ndindex(m, n):
            if rng.random() < .5:
                s = rng.choice([.1, .01, 0.])
                els[i, j] = ufloat(a[i, j], s) if rng.random() < .6 else \
                    ufloat(a[i, j], s) + rng.choice([2, -1])*(shared - 1)
    o = els.view(unumpy.matrix) if rng.random() < .3 else els
    c = rng.uniform(1, 3)
    scale = rng.choice([None, 1., 2.5])

    def scaled(x, factor=3., *rest, **options):
        return numpy.asarray(x)*factor + options.get('shift', 0)
    f = {'inv': numpy.linalg.inv, 'pinv': numpy.linalg.pinv, 'scaled': scaled,
         'gram': lambda x: numpy.asarray(x).T @ numpy.asarray(x),
         'flip': lambda x: numpy.asarray(x)[::-1].T,
         'constant': lambda x: numpy.full((2, 3), 7.),
         'plain': lambda x: numpy.asarray(x).T}[k]
    args, kwargs = (), {}
    if k == 'scaled':
        args, kwargs = rng.choice([((), {}), ((c,), {}), ((), {'factor': c}),
                                   ((c,), {'shift': 1}), ((c, 3), {'shift': -1})])
    before = snapshot(o)
    ctx.log('wrapped', k, m, n, args, kwargs, repr(els.tolist()))
    w = unumpy_core.wrap_array_func(f)
    r = attempt(w, o, *args, **kwargs)
    ctx.check(snapshot(o) == before, 'input modified', operation=k)
    ctx.check(not isinstance(r, Raised), 'wrapped function raised', got=r, operation=k)
    a0 = nominal(els)
    ref = f(a0, *args, **kwargs)
    rs = numpy.asarray(r)
    ctx.check(rs.shape == ref.shape, 'shape', operation=k, got=rs.shape)
    got = numpy.array([e.n if hasattr(e, 'n') else e for e in rs.flat]).reshape(rs.shape)
    ctx.check(numpy.array_equal(got, ref), 'value', operation=k, got=got, expected=ref)
    vs = variables(els)
    if not vs:
        ctx.check(rs.dtype == float, 'plain result', operation=k, got=rs.dtype)
    p = numpy.linalg.pinv(a0)
    im, ik = numpy.eye(m) - a0 @ p, numpy.eye(n) - p @ a0
    for v in vs:
        d = derivative(els, v)
        if k in ('inv', 'pinv'):
            e = -p @ d @ p + p @ p.T @ d.T @ im + ik @ d.T @ p.T @ p
        elif k == 'gram':
            e = d.T @ a0 + a0.T @ d
        elif k == 'scaled':
            e = d*(args[0] if args else kwargs.get('factor', 3.))
        elif k == 'flip':
            e = d[::-1].T
        else:
            e = numpy.zeros(ref.shape)
        got = numpy.array([x.derivatives.get(v, 0.) for x in rs.flat]).reshape(rs.shape)
        # (Approximate if the uncertainty is small)
        if v.std_dev or v.n:
            ctx.check(numpy.abs(got - e).max() <= 1e-4*(1 + numpy.abs(e).max()),
                      'derivatives', operation=k, got=got, expected=e)
            ctx.count('numerical_derivatives', ref.size)
    ctx.check(w.__name__ == f.__name__, 'name')
    ctx.distinct('wrapped', k, m, n, len(vs))


WORKLOADS = [
    ('inverses', inverses, 6000, 180000),
    ('pseudo_inverses', pseudo_inverses, 4500, 135000),
    ('cutoffs', cutoffs, 1800, 54000),
    ('pure', pure, 900, 10800),
    ('matrices', matrices, 9000, 270000),
    ('array_functions', array_functions, 600, 10800),
    ('large', large, 150, 2400),
    ('wrapped', wrapped, 4000, 80000),
]
MIN = {'numerical_derivatives': 10000, 'large': 60, 'matrices': 5000, 'derivatives': 30000, 'identities': 500, 'pseudo_inverses': 2000,
       'cut_zero': 150, 'cut_cut': 200, 'systems': 100}
