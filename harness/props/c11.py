"""C11: copies."""
import copy, math, itertools
import numpy
from uncertainties import ufloat, UFloat, umath, covariance_matrix, unumpy
import uncertainties.core as core
from .. import gen, shadow, obs, subclasses
from ..shadow import S

PROPERTY = 'C11'
LEVEL = 'exploration'
TECHNIQUE = ('online reference-model monitor (quantities and gradients of originals '
             'and copies) over generated histories of copies, updates, readings and '
             'computations')
NOTE = ('Random histories; every number alive is compared with the model after each '
        'change.')
RULE = ('distinct = (workload, kind of copy, expression shape, state (read or not), '
        'history) of histories with at least one copy')
ASSUMPTIONS = ['Correlations between the deep copies of different computed results '
               'of the same container are not specified.']


def same(a, b):
    return a is b or (isinstance(a, float) and isinstance(b, float)
                      and gen.same_float(a, b)) or a == b


def cov(a, b):
    return covariance_matrix([a, b])[0][1]


TAGS = [None, 'tag', '', 0, 1.5, ('a', 1), b'x', 'é']


def variables(ctx):
    "Copies of single quantities with any value, uncertainty and tag."
    rng = ctx.rng
    x, s = gen.any_float(rng), gen.any_std(rng)
    tag = rng.choice(TAGS + [[1, 2], {'k': 1}])
    v = ufloat(x, s, tag)
    read = rng.random() < .5
    if read:
        v.derivatives, v.error_components(), repr(v)
    ctx.log('variable', repr(x), repr(s), tag, read)
    chain = [v]
    for _ in range(rng.randint(1, 3)):
        src = rng.choice(chain)
        how = rng.choice(['copy', 'deepcopy', 'list', 'dict', 'tuple', 'array'])
        c = {'copy': lambda: copy.copy(src), 'deepcopy': lambda: copy.deepcopy(src),
             'list': lambda: copy.deepcopy([src, 1])[0],
             'dict': lambda: copy.deepcopy({'k': src})['k'],
             'tuple': lambda: copy.deepcopy((1, (src,)))[1][0],
             'array': lambda: copy.deepcopy(numpy.array([src, 2], dtype=object))[0],
             }[how]()
        ctx.log(how)
        ctx.count('copies')
        ctx.check(c is not src and isinstance(c, core.Variable), 'copy of a quantity',
                  how=how, got=c)
        ctx.check(gen.same_float(c.nominal_value, src.nominal_value) and
                  gen.same_float(float(c.std_dev), float(src.std_dev)) and
                  same(c.tag, src.tag), 'copy of a quantity: value, standard '
                  'deviation or tag', got=(repr(c), c.tag), source=repr(src))
        chain.append(c)
        ctx.distinct('var', how, len(chain), repr(x), repr(s), read)
    ctx.count('evaluations')
    stds = {id(c): float(s) for c in chain}

    def check_all(what):
        for i, c in enumerate(chain):
            ctx.check(gen.same_float(c.nominal_value, float(x)) and
                      gen.same_float(float(c.std_dev), stds[id(c)]) and
                      same(c.tag, tag), what, index=i, got=c,
                      expected=stds[id(c)])
            d = c.derivatives
            ctx.check(list(d) == [c] and d[c] == 1 and
                      all(k is c for k in d), what + ': derivatives', got=d)
    check_all('copies')
    for a, b in itertools.combinations(chain, 2):
        d = a - b
        ctx.check(d.derivatives[a] == 1 and d.derivatives[b] == -1,
                  'difference of copies', got=d.derivatives)
        if all(math.isfinite(stds[id(c)]) and stds[id(c)] < 1e150 for c in (a, b)):
            ctx.check(cov(a, b) == 0, 'a copy is correlated with the original',
                      got=cov(a, b))
    for _ in range(4):
        c = rng.choice(chain)
        stds[id(c)] = float(gen.any_std(rng))
        c.std_dev = stds[id(c)]
        check_all('update of one copy seen by another')
        if rng.random() < .5:
            c.tag = c.tag   # (assignable)
        f = sum(chain)
        exp = 0.
        for k in chain:
            exp = math.hypot(exp, stds[id(k)])
        if any(math.isnan(t) for t in stds.values()):
            continue
        ctx.check(gen.close(float(f.std_dev), exp, 1e-12, 1e-320), 'sum of copies',
                  got=f.std_dev, expected=exp)


class Model(shadow.Program):
    """Program with copies. Quantities have unique tags and values."""
    def __init__(self, ctx, n):
        self.stds = {}
        self.serial = 0
        shadow.Program.__init__(self, ctx, n)

    def new_variable(self, zero=.1, value=None, std=None):
        i = len(self.vars)
        value = gen.moderate(self.rng) if value is None else value
        std = gen.finite_std(self.rng, zero) if std is None else std
        v = ufloat(value, std, 'q%d' % i)
        return self.register(v, value, std)

    def register(self, v, value, std):
        i = len(self.vars)
        self.vars.append(v)
        self.stds[i] = std
        return self.add(v, S(value, {i: 1.}, {i: 1.}))

    def copy_variable(self, j, c):
        "c: copy of the quantity that is object number j"
        v, sh = self.objs[j], self.shadows[j]
        (i,) = sh.g
        self.ctx.check(type(c) is core.Variable and c is not v and
                       all(c is not w for w in self.vars) and
                       gen.same_float(c.n, v.n) and c.tag == v.tag and
                       gen.same_float(float(c.s), self.stds[i]),
                       'copy of a quantity', got=repr(c), source=repr(v))
        self.register(c, v.n, self.stds[i])

    def shallow(self, j, c):
        o = self.objs[j]
        self.ctx.check(c is not o and isinstance(c, UFloat) and
                       not isinstance(c, core.Variable), 'shallow copy', got=c)
        self.add(c, self.shadows[j])
        self.check_nominal(len(self.objs) - 1)
        if self.rng.random() < .5:
            z = c - o
            self.ctx.check(z.n == 0 or math.isnan(z.n), 'shallow copy: value')
            for v, d in z.derivatives.items():
                k = [id(w) for w in self.vars].index(id(v))
                self.ctx.check(abs(d) <= shadow.TOL*self.shadows[j].a.get(k, 0.)
                               + 1e-290, 'a shallow copy is not fully correlated '
                               'with the original', got=z.derivatives)

    def deep(self, j, c):
        """c: deep copy of computed result number j. Its quantities are
        registered as new ones."""
        ctx, o, sh = self.ctx, self.objs[j], self.shadows[j]
        ctx.check(c is not o and isinstance(c, UFloat) and
                  not isinstance(c, core.Variable), 'deep copy', got=c)
        old = o.derivatives
        new = c.derivatives
        index = {id(v): i for i, v in enumerate(self.vars)}
        for v in new:
            ctx.check(id(v) not in index, 'a deep copy depends on an existing '
                      'quantity', quantity=v)
        ctx.check(len(old) == len(new), 'deep copy: number of quantities',
                  got=new, expected=old)
        # Each quantity of the original (identified by tag, value,
        # standard deviation and derivative) has one copy:
        def key(v, d):
            return (repr(v.tag), repr(v.n), repr(float(v.s)), repr(float(d)))
        left = {}
        for v, d in old.items():
            left.setdefault(key(v, d), []).append(index[id(v)])
        g, a = {}, {}
        pairs = []
        for v, d in new.items():
            k = key(v, d)
            ctx.check(left.get(k), 'quantity of a deep copy different from those of '
                      'the original', quantity=repr(v), derivative=d, original=old)
            pairs.append((v, left[k].pop()))
        for v, i in pairs:
            n = len(self.vars)
            self.register(v, v.n, self.stds[i])
            g[n] = sh.g.get(i, 0.)
            a[n] = sh.a.get(i, 0.)
        self.add(c, S(sh.n, g, a, sh.depth))
        self.check_nominal(len(self.objs) - 1)
        ctx.check(gen.same_float(float(c.std_dev), float(o.std_dev)),
                  'uncertainty of a deep copy', got=c.std_dev, original=o.std_dev)
        comps = lambda x: sorted(repr(float(e)) for e in
                                 x.error_components().values())
        ctx.check(comps(c) == comps(o), 'error budget of a deep copy')

    def verify(self, what):
        for i in range(len(self.objs)):
            self.check_nominal(i)
            self.check_std(i, self.stds, what)
            if self.rng.random() < .3:
                self.check_derivatives(i, what)
        self.ctx.count('verifications', len(self.objs))

    def verify_cov(self, what):
        i, j = (self.rng.randrange(len(self.objs)) for _ in range(2))
        a, b = self.shadows[i], self.shadows[j]
        exp = tol = 0.
        for v in set(a.g) & set(b.g):
            exp += a.g[v]*b.g[v]*self.stds[v]**2
            tol += a.a[v]*b.a[v]*self.stds[v]**2
        got = cov(self.objs[i], self.objs[j])
        self.ctx.check(abs(got - exp) <= 4*shadow.TOL*tol + 1e-280,
                       'covariance ' + what, i=i, j=j, got=got, expected=exp)
        if not set(a.g) & set(b.g):
            self.ctx.check(got == 0, 'independent numbers are correlated ' + what,
                           got=got)
            self.ctx.count('independent_pairs')


CONTAINERS = ['direct', 'direct', 'list', 'dict', 'tuple', 'nested', 'array',
              'matrix', 'object']


class Holder(object):
    def __init__(self, x):
        self.x = x


def shallow_copy(rng, o):
    how = rng.choice(['copy', 'copy', 'method'])
    if how == 'method' and hasattr(o, '__copy__'):
        return o.__copy__()
    return copy.copy(o)


def deep_copy(rng, os_, how):
    "Deep copies of the objects."
    if how == 'direct':
        return [copy.deepcopy(o) for o in os_]
    if how == 'list':
        return copy.deepcopy(os_)
    if how == 'dict':
        return list(copy.deepcopy(dict(enumerate(os_))).values())
    if how == 'tuple':
        return list(copy.deepcopy(tuple(os_)))
    if how == 'nested':
        return [x[0]['k'] for x in copy.deepcopy([({'k': o}, 3) for o in os_])]
    if how == 'array':
        arr = numpy.array(os_ + [1], dtype=object)
        return list(copy.deepcopy(arr))[:-1]
    if how == 'matrix':
        m = unumpy.matrix([os_])
        return [m2 for m2 in numpy.asarray(copy.deepcopy(m)).ravel()]
    return [h.x for h in copy.deepcopy([Holder(o) for o in os_])]


def histories(ctx):
    rng = ctx.rng
    m = Model(ctx, rng.randint(1, 3))
    copies = 0
    for _ in range(rng.randint(4, 10)):
        k = rng.random()
        if k < .35:
            m.step()
        elif k < .7:
            if len(m.vars) > 60 or len(m.objs) > 60:
                continue
            js = [m.pick() for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .4:
                copies += 1
                for j in js:
                    ctx.log('copy', str(j))
                    ctx.count('shallow')
                    c = shallow_copy(rng, m.objs[j])
                    if type(m.objs[j]) is core.Variable:
                        m.copy_variable(j, c)
                    else:
                        m.shallow(j, c)
            else:
                copies += 1
                how = rng.choice(CONTAINERS)
                ctx.log('deepcopy', how, repr(js))
                cs = deep_copy(rng, [m.objs[j] for j in js], how)
                ctx.check(len(cs) == len(js), 'size of the copied container')
                done = {}
                for j, c in zip(js, cs):
                    ctx.count('deep')
                    if id(c) in done:
                        ctx.check(m.objs[j] is done[id(c)], 'copies of different '
                                  'objects are identical')
                        continue
                    done[id(c)] = m.objs[j]
                    if type(m.objs[j]) is core.Variable:
                        m.copy_variable(j, c)
                    else:
                        m.deep(j, c)
        elif k < .85:
            i = rng.randrange(len(m.vars))
            s = gen.finite_std(rng)
            ctx.log('update', str(i), s)
            m.vars[i].std_dev = s
            m.stds[i] = s
        else:
            i = rng.randrange(len(m.objs))
            ctx.log('read', str(i))
            m.objs[i].std_dev
        if rng.random() < .5:
            m.verify('after a copy or an update')
    m.verify('at the end of the history')
    for _ in range(4):
        m.verify_cov('at the end of the history')
    # Updating everything, one at a time:
    for i in rng.sample(range(len(m.vars)), min(4, len(m.vars))):
        m.stds[i] = s = rng.choice([0., .5, 3.])
        m.vars[i].std_dev = s
        m.verify('after an update of quantity %d' % i)
    if copies:
        ctx.count('evaluations')
        ctx.distinct('history', tuple(ctx.trace))


def sharing(ctx):
    "Structure sharing in containers."
    rng = ctx.rng
    v = ufloat(1., .5, 'v')
    r = 2*v + ufloat(3., .1, 'w')
    if rng.random() < .5:
        r.std_dev
    a = rng.choice([v, r])
    # The usual semantics of deepcopy: an object that appears twice is copied
    # once.
    box = rng.choice([[a, [a, 1]], [a, (a, 1)], [a, {'x': a}]])
    b = copy.deepcopy(box)
    first = b[0]
    second = list(b[1].values())[0] if isinstance(b[1], dict) else b[1][0]
    ctx.check(first is second and first is not a, 'shared object in a container',
              got=b)
    # Shallow copies of containers hold the same objects:
    arr = numpy.array([v, r], dtype=object)
    for c in (copy.copy([v, r]), arr.copy(), copy.copy(arr), arr[:], tuple(arr)):
        ctx.check(c[0] is v and c[1] is r, 'shallow copy of a container')
    ctx.count('evaluations')
    # Instances of user-defined subclasses:
    cls = rng.choice(subclasses.RESULT_CLASSES)
    o = subclasses.result(cls, 3., 2*v + 1)
    subclasses.fill(rng, o)
    before = subclasses.attributes(o)
    c = copy.copy(o)
    ctx.log('subclass', cls.__name__, repr(before))
    ctx.count('subclass_copies')
    ctx.check(type(c) is cls, 'class of a shallow copy', got=type(c))
    ctx.check(subclasses.attributes(c) == before, 'attributes of a shallow copy',
              got=subclasses.attributes(c), expected=before)
    ctx.check((c - o).std_dev == 0 and c.n == 3 and float(c.std_dev) == 1.,
              'shallow copy of an instance of a subclass')
    for name in subclasses.names(cls):
        setattr(c, name, 'changed')
    ctx.check(subclasses.attributes(o) == before, 'a change of the copy changes the '
              'original', got=subclasses.attributes(o), expected=before)
    v.std_dev = 1.
    ctx.check(float(o.std_dev) == 2. and float(c.std_dev) == 2., 'update')
    d = copy.deepcopy(o)
    ctx.check(isinstance(d, UFloat) and d.n == 3 and float(d.std_dev) == 2. and
              (d - o).std_dev != 0, 'deep copy of an instance of a subclass')
    vcls = rng.choice(subclasses.VARIABLE_CLASSES)
    w = vcls(1., .25, 'tag')
    subclasses.fill(rng, w)
    before = subclasses.attributes(w)
    for c in (copy.copy(w), copy.deepcopy(w)):
        ctx.check(isinstance(c, core.Variable) and c.n == 1 and
                  float(c.std_dev) == .25 and c.tag == 'tag' and
                  (c - w).std_dev > .3, 'copy of an instance of a subclass')
        c.std_dev = 3
    ctx.check(subclasses.attributes(w) == before and float(w.std_dev) == .25,
              'original changed by a copy')
    ctx.distinct('sharing', cls.__name__, vcls.__name__, tuple(ctx.trace))


def large(ctx):
    "Large expressions."
    rng = ctx.rng
    n = rng.choice([10, 300, 1500, 6000])
    kind = rng.choice(['chain', 'sum', 'nested', 'power'])
    v = ufloat(1.5, .25, 'v')
    vs = [v]
    if kind == 'sum':
        vs += [ufloat(1., .5, i) for i in range(n)]
        r = sum(vs)
    else:
        r = +v
        for i in range(n):
            if kind == 'chain':
                r = r + 1 if i % 2 else r - 1
            elif kind == 'nested':
                r = -r
            else:
                r = (r + v)/2
    read = rng.random() < .5
    if read:
        r.std_dev
    ctx.log('large', kind, str(n), str(read))
    ctx.count('evaluations')
    c, d = (copy.copy(r), copy.deepcopy(r)) if rng.random() < .5 else \
        reversed((copy.deepcopy([r])[0], copy.copy(r)))
    exp = .25 if kind != 'sum' else math.hypot(.25, .5*math.sqrt(n))
    for x in (r, c, d):
        ctx.check(x.n == r.n and gen.close(float(x.std_dev), exp, 1e-9),
                  'copy of a large expression', got=x, expected=exp)
        ctx.check(len(x.derivatives) == len(vs), 'copy of a large expression: '
                  'quantities')
    ctx.check(float((c - r).std_dev) <= 1e-9, 'shallow copy of a large expression')
    ctx.check(gen.close(float((d - r).std_dev), exp*math.sqrt(2), 1e-9),
              'deep copy of a large expression', got=(d - r).std_dev)
    ctx.check({x.tag for x in d.derivatives} == {x.tag for x in vs} and
              not set(map(id, d.derivatives)) & set(map(id, vs)),
              'quantities of a deep copy')
    v.std_dev = 10.
    for x, e in ((c, r.std_dev), (d, exp)):
        ctx.check(gen.close(float(x.std_dev), float(e), 1e-9), 'update')
    ctx.distinct('large', kind, n, read)


WORKLOADS = [
    ('variables', variables, 60000, 1500000),
    ('histories', histories, 24000, 500000),
    ('sharing', sharing, 20000, 400000),
    ('large', large, 400, 6000),
]
MIN = {'copies': 10000, 'deep': 4000, 'shallow': 2000, 'verifications': 100000,
       'independent_pairs': 1000}
