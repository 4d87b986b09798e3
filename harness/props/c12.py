"""C12: pickling."""
import copy, io, json, math, os, pickle, struct, subprocess, sys
import numpy
from uncertainties import ufloat, UFloat, umath, covariance_matrix, unumpy
import uncertainties.core as core
from .. import gen, shadow, obs, subclasses, fw
from ..pickle_server import contents, key_of, report, Held

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitor: observations of restored object graphs (also in fresh '
             'interpreters) compared with those of the originals and with a reference '
             'model through later updates')
NOTE = ('All pickle protocols, the C and Python implementations, generated graphs, '
        'containers and subclass layouts.')
RULE = ('distinct = (workload, protocol, pickler, container, graph program or class '
        'layout and attributes)')
ASSUMPTIONS = ['Classes and functions found in pickles are importable.',
               'Slot names given through one-shot iterators are not visible '
               'after the creation of a class.']

PROTOCOLS = list(range(pickle.HIGHEST_PROTOCOL + 1))


def dump(rng, box, protocol):
    if rng.random() < .15:
        return pickle._dumps(box, protocol)
    if rng.random() < .2:
        f = io.BytesIO()
        pickle.Pickler(f, protocol).dump(box)
        return f.getvalue()
    return pickle.dumps(box, protocol)


def load(rng, data):
    if rng.random() < .15:
        return pickle._loads(data)
    return pickle.loads(data)


def boxed(rng, objs):
    "(container, name)"
    k = rng.choice(['list', 'tuple', 'dict', 'nested', 'array', 'array2', 'matrix',
                    'held', 'mixed', 'uarray'])
    if k == 'list':
        return list(objs), k
    if k == 'tuple':
        return tuple(objs), k
    if k == 'dict':
        return dict(enumerate(objs)), k
    if k == 'nested':
        return [[o] if i % 2 else (o, {'a': o}) for i, o in enumerate(objs)], k
    if k in ('array', 'uarray'):
        a = numpy.empty(len(objs), dtype=object)
        a[:] = objs
        return a, k
    if k == 'array2':
        a = numpy.empty((len(objs), 2), dtype=object)
        for i, o in enumerate(objs):
            a[i, 0], a[i, 1] = o, 1.5
        return (a if rng.random() < .5 else a.T[::-1]), k
    if k == 'matrix':
        return unumpy.matrix([objs]), k
    if k == 'held':
        return [Held(o) for o in objs], k
    return [objs[0], list(objs), {'x': tuple(objs)}, Held(objs[-1])], k


def graph(ctx, n_ops=None):
    "Program with uniquely tagged quantities (or with unique values, and no tag)."
    rng = ctx.rng
    p = shadow.Program(ctx, 0)
    p.stds = []
    tagged = rng.random() < .6
    for i in range(rng.randint(1, 4)):
        s = gen.finite_std(rng)
        p.stds.append(s)
        v = ufloat(gen.moderate(rng) + i*1e-3*math.pi, s,
                   'q%d' % i if tagged else rng.choice([None, None, i, (i,), 2.5]))
        p.vars.append(v)
        p.add(v, shadow.S(v.n, {i: 1.}, {i: 1.}))
    if len({key_of(v) for v in p.vars}) != len(p.vars):
        return graph(ctx, n_ops)
    p.grow(rng.randint(0, 8) if n_ops is None else n_ops)
    for o in p.objs:
        if rng.random() < .2:
            o.derivatives
    return p


def compare_reports(ctx, got, expected, what):
    ctx.check(len(got) == len(expected), what + ': number of objects')
    for g, e in zip(got, expected):
        ctx.count('numbers_compared')
        if e[0] == 'plain' or g[0] == 'plain':
            ctx.check(list(g) == list(e), what + ': plain value', got=g, expected=e)
            continue
        ctx.check(g[:2] == e[:2], what + ': type or value', got=g, expected=e)
        for i in (3, 4):
            ctx.check(set(g[i]) == set(e[i]), what + ': dependence', got=g, expected=e)
            for k in e[i]:
                ctx.check(gen.close(float(g[i][k]), float(e[i][k]), 1e-12, 1e-320),
                          what + ': ' + ('derivative' if i == 3 else 'component'),
                          got=g, expected=e)
        ctx.check(gen.close(float(g[2]), float(e[2]), 1e-12, 1e-320),
                  what + ': standard deviation', got=g, expected=e)
        if len(e) > 5:
            ctx.check(g[5] == e[5] or g[2] != e[2], what + ': representation', got=g,
                      expected=e)


def check_shape(ctx, box, new, what):
    "Structure: types, identities."
    ctx.check(type(new) is type(box), what + ': container type', got=type(new))
    if isinstance(box, numpy.ndarray):
        ctx.check(new.shape == box.shape and new.dtype == box.dtype,
                  what + ': array', got=new)
    old, new = contents(box), contents(new)
    ctx.check(len(old) == len(new), what + ': size')
    ids = {}
    for a, b in zip(old, new):
        if not isinstance(a, UFloat):
            continue
        ctx.check(type(a) is type(b), what + ': type', got=type(b), expected=type(a))
        ctx.check(a is not b, what + ': same object restored')
        ctx.check(ids.setdefault(id(a), b) is b, what + ': an object present '
                  'several times is restored as different objects')
    ctx.check(len({id(x) for x in ids.values()}) == len(ids),
              what + ': different objects are restored as a single one')


def check_restored(ctx, p, box, new, what, others=()):
    """new: restored box. others: quantities that must not appear in it."""
    check_shape(ctx, box, new, what)
    old_c, new_c = contents(box), contents(new)
    exp, old_ids = report(old_c)
    got, new_ids = report(new_c)
    compare_reports(ctx, got, exp, what)
    for k, v in new_ids.items():
        ctx.check(v is not old_ids[k] and all(v is not o for o in others),
                  what + ': a restored number depends on an existing quantity')
        ctx.check(v.tag == old_ids[k].tag and type(v.tag) is type(old_ids[k].tag) and
                  gen.same_float(v.n, old_ids[k].n) and
                  gen.same_float(float(v.s), float(old_ids[k].s)),
                  what + ': restored quantity', got=repr(v), expected=repr(old_ids[k]))
    for a, b in zip(old_c, new_c):
        if isinstance(a, core.Variable):
            ctx.check(list(b.derivatives) == [b], what + ': a restored quantity does '
                      'not depend on itself', got=b.derivatives)
    us = [x for x in old_c if isinstance(x, UFloat)][:5]
    un = [x for x in new_c if isinstance(x, UFloat)][:5]
    c1, c2 = covariance_matrix(us), covariance_matrix(un)
    for i in range(len(us)):
        for j in range(len(us)):
            scale = math.sqrt(abs(c1[i][i]*c1[j][j]))
            ctx.check(gen.close(c1[i][j], c2[i][j], 1e-9, 1e-9*scale),
                      what + ': covariance', got=c2, expected=c1)
    return old_ids, new_ids


def graphs(ctx):
    rng = ctx.rng
    p = graph(ctx)
    objs = [rng.choice(p.objs) for _ in range(rng.randint(1, 5))]
    box, kind = boxed(rng, objs)
    protocol = rng.choice(PROTOCOLS)
    ctx.log('pickle', kind, str(protocol))
    index = {id(v): i for i, v in enumerate(p.vars)}
    before = None
    if rng.random() < .5:
        before = [obs.observe(o, index) for o in p.objs]
    data = dump(rng, box, protocol)
    if before is None:
        for i in range(len(p.objs)):
            p.check_std(i, p.stds, 'of an original after pickling')
            p.check_nominal(i)
        before = [obs.observe(o, index) for o in p.objs]
    else:
        ctx.check([obs.observe(o, index) for o in p.objs] == before,
                  'pickling changed an original')
    ctx.count('evaluations')
    new = load(rng, data)
    old_ids, new_ids = check_restored(ctx, p, box, new, 'restored')
    # Computations with the restored quantities:
    a, b = (rng.randrange(len(objs)) for _ in range(2))
    old_c = [x for x in contents(box) if isinstance(x, UFloat)]
    new_c = [x for x in contents(new) if isinstance(x, UFloat)]
    i, j = rng.randrange(len(old_c)), rng.randrange(len(old_c))
    compare_reports(ctx, report([new_c[i]*2 - new_c[j], umath.sin(new_c[i])*new_c[j]])[0],
                    report([old_c[i]*2 - old_c[j], umath.sin(old_c[i])*old_c[j]])[0],
                    'computation with restored numbers')
    mixed = new_c[i] - old_c[i]
    ctx.check(mixed.n == 0 or mixed.n != mixed.n, 'restored value')
    exp = float(old_c[i].std_dev)*math.sqrt(2)
    ctx.check(gen.close(float(mixed.std_dev), exp, 1e-9, 1e-300), 'restored number not '
              'independent of the original', got=mixed.std_dev, expected=exp)
    # A second restoration is independent of the first one:
    again = load(rng, data)
    check_restored(ctx, p, box, again, 'second restoration', list(new_ids.values()))
    # Updates:
    for _ in range(2):
        k = rng.choice(sorted(new_ids))
        s = rng.choice([0., 1., 2.5, 1e-3])
        side, other = (new_ids, old_ids) if rng.random() < .5 else (old_ids, new_ids)
        untouched = new_c if side is old_ids else old_c
        b4 = report(untouched)[0]
        side[k].std_dev = s
        ctx.check(report(untouched)[0] == b4, 'an update crosses pickling',
                  quantity=k)
        # The other side is given the same value: same results
        other[k].std_dev = s
        compare_reports(ctx, report(new_c)[0], report(old_c)[0], 'after an update')
    twice = load(rng, dump(rng, new, rng.choice(PROTOCOLS)))
    check_restored(ctx, p, new, twice, 'pickled twice')
    ctx.distinct('graph', protocol, kind, tuple(ctx.trace))


def singles(ctx):
    "Single quantities and results with any value."
    rng = ctx.rng
    x, s = gen.any_float(rng), gen.any_std(rng)
    tag = rng.choice([None, 'tag', '', 3, (1, 2), 'é\n', ['l'], {'a': 1}, 1.5])
    v = ufloat(x, s, tag)
    o = rng.choice([lambda: v, lambda: +v, lambda: -v, lambda: v*2])()
    protocol = rng.choice(PROTOCOLS)
    ctx.log('single', repr(x), repr(s), repr(tag), str(protocol))
    ctx.count('evaluations')
    if rng.random() < .4:
        o.std_dev, o.derivatives
    n = load(rng, dump(rng, o, protocol))
    ctx.check(type(n) is type(o) and n is not o, 'type', got=n)
    ctx.check(gen.same_float(n.nominal_value, o.nominal_value) and
              gen.same_float(float(n.std_dev), float(o.std_dev)), 'value or standard '
              'deviation', got=n, expected=o)
    (w,), (d,) = list(n.derivatives), list(n.derivatives.values())
    (d0,) = o.derivatives.values()
    ctx.check(d == d0 and w is not v and w.tag == tag and
              type(w.std_dev) is type(v.std_dev), 'restored quantity', got=repr(w))
    if type(o) is core.Variable:
        ctx.check(w is n, 'restored quantity independent of itself')
    w.std_dev = 12.
    ctx.check(gen.same_float(float(v.std_dev), float(s)) and float(w.std_dev) == 12. and
              gen.close(float(n.std_dev), abs(d)*12., 1e-12), 'update of a restored '
              'quantity', got=n)
    try:
        w.std_dev = -1
    except core.NegativeStdDev:
        pass
    else:
        ctx.fail('negative standard deviation accepted by a restored quantity')
    ctx.check(isinstance(pickle.loads(pickle.dumps(o.std_dev, protocol)), float) and
              gen.same_float(float(pickle.loads(pickle.dumps(o.std_dev, protocol))),
                             float(o.std_dev)), 'pickled standard deviation')
    ctx.distinct('single', repr(x), repr(s), repr(tag), protocol)


_server = {}


def server():
    pid = os.getpid()
    if pid not in _server:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([fw.VERIF, fw.REPO]),
                   PYTHONHASHSEED='random', PYTHONDONTWRITEBYTECODE='1')
        _server[pid] = subprocess.Popen(
            [sys.executable, '-m', 'harness.pickle_server'], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, env=env, cwd=fw.VERIF)
    return _server[pid]


def ask(data, protocol, key, std):
    s = server()
    head = pickle.dumps((protocol, key, std)).ljust(64, b' ')
    assert len(head) == 64
    s.stdin.write(struct.pack('<Q', 64 + len(data)) + head + data)
    s.stdin.flush()
    out = []
    for _ in range(2):
        h = s.stdout.read(8)
        if len(h) < 8:
            raise fw.Violation('the unpickling process died')
        out.append(s.stdout.read(struct.unpack('<Q', h)[0]))
    return json.loads(out[0]), out[1]


def processes(ctx):
    "Restoration in another interpreter, and back."
    rng = ctx.rng
    p = graph(ctx)
    objs = [rng.choice(p.objs) for _ in range(rng.randint(1, 5))]
    box, kind = boxed(rng, objs)
    protocol = rng.choice(PROTOCOLS)
    ctx.log('process', kind, str(protocol))
    data = dump(rng, box, protocol)
    v = rng.choice(p.vars)
    key, s = key_of(v), rng.choice([0., 1., 2.5, 1e-3])
    if len(pickle.dumps((protocol, key, s))) > 64:
        key = None
    reply, back = ask(data, protocol, key, s)
    ctx.count('evaluations')
    ctx.check('error' not in reply, 'unpickling in another process', reply=reply)
    exp, old_ids = report(contents(box))
    compare_reports(ctx, reply['first'], exp, 'in another process')
    new = load(rng, back)
    check_restored(ctx, p, box, new, 'after a round trip', p.vars)
    if 'updated' in reply:
        old_ids[key].std_dev = s
        ctx.count('updates_in_other_process')
        compare_reports(ctx, reply['updated'], report(contents(box))[0],
                        'update in another process')
    ctx.distinct('process', protocol, kind, tuple(ctx.trace))


def check_subclass(ctx, cls, protocol):
    rng = ctx.rng
    v = ufloat(2., .5, 'v')
    if issubclass(cls, core.Variable):
        o = cls(3., .25, 'tag')
    else:
        o = subclasses.result(cls, 3., 2*v + 1)
    subclasses.fill(rng, o)
    names = subclasses.names(cls)
    if names and rng.random() < .3:
        setattr(o, names[0], o)    # Self-reference
        selfref = names[0]
    else:
        selfref = None
    linked = None
    if len(names) > 1 and rng.random() < .3:
        linked = names[1]
        setattr(o, linked, v*3)
    special = [n for n in (selfref, linked) if n]

    def attrs(x):
        return {n: r for n, r in subclasses.attributes(x).items() if n not in special}
    if subclasses.has_dict(cls) and rng.random() < .3:
        o.__dict__['_nominal_value'] = 'shadowed'
        o.__dict__['tag'] = 'shadowed too'
    before = attrs(o)
    d_before = repr({k: x for k, x in getattr(o, '__dict__', {}).items()
                     if not isinstance(x, UFloat)})
    ctx.log('class', cls.__name__, repr(before), str(protocol), str(special))
    box = [o, v, o + 1]
    new = load(rng, dump(rng, box, protocol))
    n, w, plus = new
    ctx.count('evaluations')
    ctx.check(type(n) is cls, 'class', got=type(n))
    for x, q in ((o, v), (n, w)):
        ctx.check(attrs(x) == before, 'attributes', got=attrs(x), expected=before,
                  restored=x is n)
        ctx.check(repr({k: y for k, y in getattr(x, '__dict__', {}).items()
                        if not isinstance(y, UFloat)}) == d_before,
                  'instance dictionary', restored=x is n)
        if selfref:
            ctx.check(getattr(x, selfref) is x, 'self-reference')
        if linked:
            l = getattr(x, linked)
            ctx.check(l.n == 6. and list(l.derivatives) == [q] and
                      l.derivatives[q] == 3, 'number held by an attribute', got=l)
    ctx.check(n.n == 3 and float(n.std_dev) == float(o.std_dev), 'value')
    if issubclass(cls, core.Variable):
        ctx.check(n.tag == 'tag' and list(n.derivatives) == [n] and
                  plus.derivatives == {n: 1.}, 'restored quantity')
        n.std_dev = 2
        ctx.check(float(n.std_dev) == 2 and float(o.std_dev) == .25 and
                  float(plus.std_dev) == 2, 'update')
    else:
        ctx.check(n.derivatives == {w: 2.} and plus.derivatives == {w: 2.},
                  'correlations')
        w.std_dev = 2
        ctx.check(float(n.std_dev) == 4 and float(o.std_dev) == 1., 'update')
    for name in names:
        setattr(n, name, 'changed')
    ctx.check(attrs(o) == before, 'attributes of the original')
    ctx.distinct('class', cls.__name__, protocol, repr(before), tuple(special))
    return box


def layouts(ctx):
    rng = ctx.rng
    cls = rng.choice(subclasses.RESULT_CLASSES + subclasses.VARIABLE_CLASSES)
    check_subclass(ctx, cls, rng.choice(PROTOCOLS))
    if rng.random() < .02:
        # Other process (default protocol):
        v = cls(1.5, .5, 'tag') if issubclass(cls, core.Variable) else \
            cls(1.5, (ufloat(1, .5, 'tag')*1)._linear_part)
        subclasses.fill(rng, v)
        reply, back = ask(pickle.dumps([v]), 2, None, 0)
        ctx.check('error' not in reply, 'another process', reply=reply)
        ctx.check(reply['first'][0][:3] == [cls.__name__, '1.5', '0.5'],
                  'another process', reply=reply)
        n = pickle.loads(back)[0]
        ctx.check(type(n) is cls and subclasses.attributes(n) ==
                  subclasses.attributes(v), 'round trip of a subclass')


def generated(ctx):
    "Generated class hierarchies."
    rng = ctx.rng
    base = rng.choice([core.Variable, core.AffineScalarFunc])
    specs = [None, (), 'x', ('x', 'y'), ['y', 'z'], ('__p',), '__p', ('__p', 'x'),
             ('__dict__',), ('__weakref__',), ('__weakref__', 'z'), {'x': ''},
             ('_u', 'z'), ('__q__',), ('__e_',), ('__f_', '__f', 'f_', '_', '___'), '___g',
             gen.StrSub('x'), gen.StrSub('__p'), (gen.StrSub('x'), 'y')]
    made = []
    cur = base
    try:
        for level in range(rng.randint(1, 4)):
            spec = rng.choice(specs)
            name = rng.choice(['G%d', '_G%d', '__G%d', 'G_%d_', '__'])
            name = name % level if '%' in name else name + '_'*level
            body = {'__module__': subclasses.__name__}
            if spec is not None:
                body['__slots__'] = spec
            bases = (cur,)
            if rng.random() < .2:
                mix = type('Mix%d' % level, (object,), {'__slots__': ()} if
                           rng.random() < .5 else {})
                bases = rng.choice([(mix, cur), (cur, mix)])
            cur = type(name, bases, body)
            made.append((name, spec))
    except TypeError:
        raise fw.Skip()
    cls = cur
    setattr(subclasses, cls.__name__, cls)
    o = cls(1.25, .5, 't') if base is core.Variable else \
        cls(1.25, (ufloat(2, .5)*1)._linear_part)
    # The attributes, as known to Python:
    import copyreg
    expected = {}
    slots = set()
    for c in cls.__mro__:
        if c in (core.Variable, core.AffineScalarFunc, object):
            continue
        s = c.__dict__.get('__slots__', ())
        for n in ([s] if isinstance(s, str) else s):
            if n in ('__dict__', '__weakref__'):
                continue
            if n.startswith('__') and not n.endswith('__'):
                if c.__name__.strip('_'):
                    n = '_%s%s' % (c.__name__.lstrip('_'), n)
            slots.add(n)
    for n in sorted(slots):
        if rng.random() < .8:
            expected[n] = rng.choice([0, None, 'v', (1,), 2.5])
            setattr(o, n, expected[n])
    if hasattr(o, '__dict__') and rng.random() < .8:
        o.free = expected['free'] = rng.choice([0, None, 'v'])
    protocol = rng.choice(PROTOCOLS)
    ctx.log('generated', repr(made), repr(expected), str(protocol))
    ctx.count('evaluations')
    for n in (load(rng, dump(rng, o, protocol)),) + (
            (copy.copy(o),) if base is not core.Variable else ()):
        ctx.check(type(n) is cls and n.n == 1.25 and float(n.std_dev) == .5,
                  'restored number', got=n)
        for k in sorted(slots | {'free'}):
            got = getattr(n, k, subclasses.MISSING)
            ctx.check(got == expected.get(k, subclasses.MISSING), 'attribute %s' % k,
                      got=got, expected=expected.get(k))
    ctx.distinct('generated', tuple(map(repr, made)), protocol, repr(expected))


def large(ctx):
    rng = ctx.rng
    n = rng.choice([10, 1000, 5000])
    kind = rng.choice(['chain', 'sum', 'many'])
    protocol = rng.choice(PROTOCOLS)
    v = ufloat(1.5, .25, 'v')
    vs = [v] + [ufloat(1., .5, i) for i in range(n if kind != 'chain' else 1)]
    if kind == 'chain':
        r = +v
        for i in range(n):
            r = r + 1 if i % 2 else r - 1
        r = r + vs[1]
        box = [r, v]
    elif kind == 'sum':
        r = sum(vs)
        box = [r, v]
    else:
        r = v + vs[-1]
        box = [r, v] + vs + [x*v for x in vs]
    if rng.random() < .3:
        r.std_dev
    ctx.log('large', kind, str(n), str(protocol))
    ctx.count('evaluations')
    new = pickle.loads(pickle.dumps(box, protocol))
    ctx.check(len(new) == len(box), 'size')
    exp = float(r.std_dev)
    ctx.check(gen.close(float(new[0].std_dev), exp, 1e-9) and new[0].n == r.n,
              'restored large expression', got=new[0], expected=r)
    ctx.check(len(new[0].derivatives) == len(r.derivatives) and
              gen.same_float(new[0].derivatives[new[1]], r.derivatives[v]),
              'derivatives')
    new[1].std_dev = 0.
    ctx.check(float(r.std_dev) == exp and float(new[0].std_dev) < exp, 'update')
    for a, b in zip(box[2:], new[2:]):
        ctx.check(gen.same_float(a.n, b.n) and len(a.derivatives) ==
                  len(b.derivatives), 'restored numbers')
        if isinstance(a, core.Variable):
            ctx.check(a.tag == b.tag and (b.tag == 'v' or float(b.std_dev) == .5),
                      'quantities')
    ctx.distinct('large', kind, n, protocol)


WORKLOADS = [
    ('graphs', graphs, 24000, 600000),
    ('singles', singles, 60000, 1500000),
    ('processes', processes, 8000, 200000),
    ('layouts', layouts, 50000, 1200000),
    ('generated', generated, 30000, 800000),
    ('large', large, 400, 6000),
]
MIN = {'numbers_compared': 50000, 'updates_in_other_process': 500}
