"""Framework: case execution in parallel workers, verdicts, replay, evidence.

A property module defines
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    WORKLOADS = [(name, case_function, quick_cases, thorough_cases), ...]
    optional MIN = {counter: minimum}   (below: inconclusive)
A case function case(ctx) generates one case from ctx.rng, executes the real code
and raises Violation (through ctx.fail / ctx.check) when the oracle disagrees.
"""
import sys, os, json, time, random, hashlib, traceback, signal, collections, math, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'uncertainties') + os.sep


class Violation(Exception):
    def __init__(self, msg, key=None, **details):
        Exception.__init__(self, msg)
        self.msg, self.key, self.details = msg, key, details


class Watchdog(BaseException):
    """A case exceeded its (generous) wall-clock budget: inconclusive."""


class Skip(Exception):
    """The generated case is outside the property: not counted."""


def short(o, n=400):
    try:
        s = repr(o)
    except BaseException as e:  # the observed object may be broken
        s = '<unrepresentable %s: %r>' % (type(o).__name__, type(e))
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, prop, workload, seed, tier):
        self.prop, self.workload, self.seed, self.tier = prop, workload, seed, tier
        self.counters = collections.Counter()
        self.distinct_keys = set()
        self.samples = []
        self.index = None
        self.rng = None
        self.trace = []  # description of the current case (for violations)

    def start(self, index):
        self.index = index
        self.rng = random.Random('%s/%s/%s/%s' % (
            self.seed, self.prop, self.workload, index))
        self.trace = []

    def log(self, *what):
        "Adds a step to the description of the current case."
        if len(self.trace) < 400:
            self.trace.append(' '.join(
                w if isinstance(w, str) else short(w, 200) for w in what))

    def count(self, name, n=1):
        self.counters[name] += n

    def distinct(self, *key):
        "Records a distinct, non-trivial evaluation."
        self.distinct_keys.add(
            hashlib.blake2b(repr(key).encode('utf-8', 'replace'),
                            digest_size=8).digest())

    def sample(self, what):
        if len(self.samples) < 3:
            self.samples.append(what)

    def fail(self, msg, key=None, **details):
        raise Violation(msg, key, **details)

    def check(self, cond, msg, key=None, **details):
        self.counters['checks'] += 1
        if not cond:
            raise Violation(msg, key, **details)


# ---------------------------------------------------------------- coverage

class LineCoverage(object):
    """Lines of the library executed (sys.monitoring, each line reported once)."""
    def __init__(self):
        self.lines = set()
        self.tool = None

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'verif-coverage')
        except ValueError:
            return
        self.tool = mon.COVERAGE_ID
        mon.register_callback(self.tool, mon.events.LINE, self._line)
        mon.set_events(self.tool, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(PKG):
            self.lines.add((code.co_filename[len(PKG):], line))
        return sys.monitoring.DISABLE


COVERAGE = LineCoverage()

# ---------------------------------------------------------------- execution


class Timer(object):
    "Per-case wall-clock watchdog (its firing is inconclusive)."
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def on_alarm(signum, frame):
            raise Watchdog()
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)


def run_case(ctx, fn, index, case_timeout):
    """Returns None or a dict describing a violation/inconclusive case."""
    ctx.start(index)
    try:
        try:
            with Timer(case_timeout):
                fn(ctx)
        except Skip:
            ctx.count('skipped')
            return None
        ctx.count('cases')
        if len(ctx.samples) < 3 and ctx.trace:
            ctx.samples.append('%s #%d: %s' % (
                ctx.workload, index, ' ; '.join(ctx.trace[:6])[:500]))
        return None
    except Violation as v:
        return dict(kind='violation', msg=v.msg, key=v.key,
                    details={k: short(x, 1500) for k, x in v.details.items()},
                    trace=list(ctx.trace), workload=ctx.workload, index=index)
    except Watchdog:
        return dict(kind='inconclusive', msg='case watchdog fired', key=None,
                    details={}, trace=list(ctx.trace),
                    workload=ctx.workload, index=index)
    except MemoryError:
        return dict(kind='inconclusive', msg='out of memory', key=None,
                    details={}, trace=list(ctx.trace),
                    workload=ctx.workload, index=index)
    except BaseException as e:
        # The monitors expect no exception at this point of the case: an
        # exception escaping from an operation that must succeed is an
        # observed violation.
        return dict(kind='violation',
                    msg='unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                    key=None,
                    details={'traceback': traceback.format_exc()[-3000:]},
                    trace=list(ctx.trace), workload=ctx.workload, index=index)


def worker(prop_module, jobs, seed, tier, deadline, wfd, case_timeout):
    COVERAGE.start()
    ctxs = {}
    problems = []
    fns = {w[0]: w[1] for w in prop_module.WORKLOADS}
    done = collections.Counter()
    for (wname, start, stop) in jobs:
        if wname not in ctxs:
            ctxs[wname] = Ctx(prop_module.PROPERTY, wname, seed, tier)
        ctx = ctxs[wname]
        for index in range(start, stop):
            if time.time() > deadline:
                ctx.count('not_run_time_budget', stop - index)
                break
            pb = run_case(ctx, fns[wname], index, case_timeout)
            if pb is not None:
                problems.append(pb)
                if len(problems) >= 12:
                    break
        if len(problems) >= 12:
            break
    out = dict(
        counters={w: dict(c.counters) for w, c in ctxs.items()},
        distinct={w: [k.hex() for k in c.distinct_keys] for w, c in ctxs.items()},
        samples={w: c.samples for w, c in ctxs.items()},
        problems=problems,
        lines=sorted(COVERAGE.lines))
    data = json.dumps(out, default=short).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith(('#', 'fixed:')):
                    continue
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == prop:
                    out[d['key']] = d['what']
    return out


def save_replay(prop, seed, tier, pb):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps([pb['workload'], pb['index'], seed]).encode(),
                        digest_size=4).hexdigest()
    path = os.path.join(d, '%s-%s-%s.json' % (prop, pb['workload'], h))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, **pb), f, indent=1,
                  default=short, ensure_ascii=True)
    return path


def main(prop_module, argv):
    t0 = time.time()
    prop = prop_module.PROPERTY
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    case_timeout = getattr(prop_module, 'CASE_TIMEOUT', 120)

    import uncertainties
    if not os.path.abspath(uncertainties.__file__).startswith(PKG):
        print('ERROR: wrong package imported: %s' % uncertainties.__file__)
        return 3

    if argv and argv[0] == '--replay':
        with open(argv[1], encoding='utf-8') as f:
            rep = json.load(f)
        ctx = Ctx(prop, rep['workload'], rep['seed'], rep['tier'])
        fn = dict((w[0], w[1]) for w in prop_module.WORKLOADS)[rep['workload']]
        pb = run_case(ctx, fn, rep['index'], 3600)
        print(json.dumps(pb, indent=1, default=short))
        return 1 if pb and pb['kind'] == 'violation' else 0
    only = argv[1] if len(argv) > 1 and argv[0] == '--only' else None

    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    budget = getattr(prop_module, 'BUDGET', {'quick': 240, 'thorough': 760})[tier]
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    # Chunks of cases, dealt to the workers in turn:
    jobs = [[] for _ in range(nproc)]
    k = 0
    planned = {}
    for (name, fn, nq, nt) in prop_module.WORKLOADS:
        if only and name != only:
            continue
        n = nq if tier == 'quick' else nt
        n = max(1, int(n * scale)) if n else 0
        planned[name] = n
        chunk = max(1, min(2000, -(-n // (nproc * 4))))
        for start in range(0, n, chunk):
            jobs[k % nproc].append((name, start, min(n, start + chunk)))
            k += 1
    deadline = t0 + budget
    if hasattr(prop_module, 'setup'):
        prop_module.setup(tier)

    pids = []
    sys.stdout.flush()
    for w in range(nproc):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                worker(prop_module, jobs[w], seed, tier, deadline, wfd,
                       case_timeout)
            except BaseException:
                traceback.print_exc()
                code = 70
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(wfd)
        pids.append((pid, r))

    counters = collections.defaultdict(collections.Counter)
    distinct = set()
    samples = collections.defaultdict(list)
    problems = []
    lines = set()
    lost = 0
    # All the pipes are drained before waiting:
    import threading
    blobs = [None] * nproc

    def drain(i, fd):
        with os.fdopen(fd, 'rb') as f:
            blobs[i] = f.read()
    ths = [threading.Thread(target=drain, args=(i, r))
           for i, (_, r) in enumerate(pids)]
    for t in ths:
        t.start()
    hard_deadline = deadline + case_timeout + 60
    for t in ths:
        t.join(max(1, hard_deadline - time.time()))
    for i, (pid, _) in enumerate(pids):
        if blobs[i] is None:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
    for t in ths:
        t.join(10)
    for b in blobs:
        if not b:
            lost += 1
            continue
        o = json.loads(b)
        for w, c in o['counters'].items():
            counters[w].update(c)
        for w, ks in o['distinct'].items():
            distinct.update((w, x) for x in ks)
        for w, s in o['samples'].items():
            samples[w].extend(s)
        problems.extend(o['problems'])
        lines.update(tuple(x) for x in o['lines'])

    known = known_findings(prop)
    problems.sort(key=lambda p: (p['workload'], p['index']))
    violations = [p for p in problems if p['kind'] == 'violation'
                  and not (p['key'] and p['key'] in known)]
    inconclusive = [p for p in problems if p['kind'] == 'inconclusive']
    seen_known = sorted({p['key'] for p in problems if p['kind'] == 'violation'
                         and p['key'] and p['key'] in known})

    total = collections.Counter()
    for c in counters.values():
        total.update(c)
    evaluations = total.get('evaluations', total.get('cases', 0))
    lines_of = collections.Counter(f for f, _ in lines)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=prop_module.LEVEL,
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=len(distinct),
            rule=prop_module.RULE,
            samples=[s for w in samples for s in samples[w][:4]][:40] or ['none'],
            planned_cases=planned,
            observed={w: dict(sorted(c.items())) for w, c in counters.items()},
            library_lines_executed={f: n for f, n in sorted(lines_of.items())}),
        assumptions=getattr(prop_module, 'ASSUMPTIONS', []),
        violations=len(violations), known_findings_seen=seen_known,
        wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w',
              encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, default=short)

    print('%s tier=%s seed=%d evaluations=%d distinct=%d cases=%d skipped=%d '
          'checks=%d wall=%.1fs' % (
              prop, tier, seed, evaluations, len(distinct), total['cases'],
              total['skipped'], total['checks'], time.time() - t0))
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    if violations:
        for p in violations[:8]:
            path = save_replay(prop, seed, tier, p)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s #%d] %s' % (p['workload'], p['index'], p['msg'][:600]))
            for (k, v) in sorted(p['details'].items()):
                print('    %s: %s' % (k, str(v)[-1500:].replace('\n', '\n      ')))
            if os.environ.get('VERIF_VERBOSE'):
                for t in p['trace']:
                    print('    | ' + t)
        return 1
    if lost:
        print('INCONCLUSIVE: %d worker(s) lost' % lost)
        return 3
    if inconclusive:
        for p in inconclusive[:5]:
            print('INCONCLUSIVE: [%s #%d] %s' % (
                p['workload'], p['index'], p['msg']))
        return 3
    if not only and scale >= 1:
        for (name, low) in getattr(prop_module, 'MIN', {}).items():
            if total[name] < low:
                print('INCONCLUSIVE: monitor counter %s = %d < %d' % (
                    name, total[name], low))
                return 3
    return 0
