"""Runner shared by all checks.

A property module (props/cXX.py) provides
  ID, RULE, ASSUMPTIONS
  strategy(tier)     a Hypothesis strategy producing plain JSON cases
  fixed(tier)        (optional) an iterable of JSON cases that are always run
  check(case, ctx)   the oracle; raises Violation when the code under test breaks the property
  nontrivial(case)   whether a case counts as non-trivial by RULE
  labels(case)       (optional) classification labels of a case
  EXAMPLES           {'quick': n, 'thorough': n}, per shard
All random choices are Hypothesis's, seeded from VERIF_SEED; shards are forked processes with their own seeds.
"""
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback


class Violation(Exception):
    pass


class Ctx:
    """Per-shard statistics; also collects the largest numerical deviation seen."""

    def __init__(self):
        self.max_err = 0.0
        self.max_err_rel = 0.0
        self.labels = {}

    def err(self, e, tol):
        if e > self.max_err:
            self.max_err = e
        if tol and e / tol > self.max_err_rel:
            self.max_err_rel = e / tol

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


CASE_SECONDS = 150       # cases take milliseconds; only a computation that does not end gets here


def too_long(*_):
    raise Violation(f'no result after {CASE_SECONDS} s')


def run_case(mod, case, ctx):
    """Runs the oracle on one case. Anything the code under test throws on a valid input is a violation."""
    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(CASE_SECONDS)
    try:
        mod.check(case, ctx)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.lineno} in {f.name}' for f in reversed(tb)
                      if '/deepquantum/' in f.filename), None)
        last = tb[-1] if tb else None
        raise Violation(f'raised {type(e).__name__}: {str(e)[:300]} '
                        f'({where or "while checking: %s:%s" % (last and os.path.basename(last.filename), last and last.lineno)})') from e
    finally:
        signal.alarm(0)


class Shard:
    def __init__(self, mod, tier, seed, index, count, examples):
        self.mod, self.tier, self.seed, self.index, self.count, self.examples = mod, tier, seed, index, count, examples
        self.ctx = Ctx()
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.failure = None

    def one(self, case):
        self.evaluations += 1
        key = canon(case)
        h = hashlib.blake2b(key.encode(), digest_size=8).digest()
        if h not in self.seen and self.mod.nontrivial(case):
            self.seen.add(h)
            if len(self.samples) < 3 and len(key) < 1500:
                self.samples.append(case)
        for l in getattr(self.mod, 'labels', lambda c: ())(case):
            self.ctx.label(l)
        run_case(self.mod, case, self.ctx)

    def run(self):
        mod = self.mod
        enum = getattr(mod, 'fixed', None)
        if enum:
            for i, case in enumerate(enum(self.tier)):
                if i % self.count != self.index:
                    continue
                try:
                    self.one(case)
                except Violation as v:
                    self.failure = (case, str(v))
                    return
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45
        if not self.examples:
            return
        last = {}

        @hypothesis.seed(self.seed * 1000 + self.index)
        @settings(max_examples=self.examples, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                  print_blob=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
        @given(mod.strategy(self.tier))
        def prop(case):
            case = json.loads(json.dumps(case))
            try:
                self.one(case)
            except Violation as v:
                last['case'], last['msg'] = case, str(v)
                raise

        try:
            prop()
        except Violation:
            self.failure = (last['case'], last['msg'])
        except BaseException as e:
            # hypothesis.errors.Flaky and the like, after a violation was really observed: report that observation
            if 'case' in last and 'hypothesis' in type(e).__module__:
                self.failure = (last['case'], last['msg'] + f' [not reproduced when run again: {type(e).__name__}]')
            else:
                raise

    def result(self):
        return dict(evaluations=self.evaluations, seen=self.seen, samples=self.samples, failure=self.failure,
                    labels=self.ctx.labels, max_err=self.ctx.max_err, max_err_rel=self.ctx.max_err_rel)


def spawn(fn):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            try:
                out = ('ok', fn())
            except BaseException:
                out = ('error', traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(procs):
    """Reads every child's pipe to the end (no child is left behind)."""
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        bufs[r] = b''
        sel.register(r, selectors.EVENT_READ)
    while sel.get_map():
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 16)
            if d:
                bufs[key.fd] += d
            else:
                sel.unregister(key.fd)
    out = []
    for pid, r in procs:
        os.close(r)
        os.waitpid(pid, 0)
        out.append(pickle.loads(bufs[r]) if bufs[r] else ('error', 'the shard died without a result'))
    return out


def known_findings(verif, prop):
    try:
        with open(os.path.join(verif, 'known_findings.json')) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k.get('property') == prop]


def run(a, verif):
    t0 = time.time()
    prop = a.prop
    mod = importlib.import_module('props.' + prop.lower())
    import lib
    lib.setup()
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)['case']
        try:
            run_case(mod, case, Ctx())
        except Violation as v:
            print('replay:', v)
            print(f'VIOLATION property={prop} replay={a.replay}')
            return 1
        print('replay: the property holds on this case')
        return 0
    for k in known_findings(verif, prop):
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    examples = a.examples if a.examples is not None else mod.EXAMPLES[a.tier]
    shards = a.shards or (8 if a.tier == 'thorough' else getattr(mod, 'SHARDS', 6))

    def work(i):
        s = Shard(mod, a.tier, a.seed, i, shards, examples)
        s.run()
        return s.result()

    results = collect([spawn(lambda i=i: work(i)) for i in range(shards)])
    errors = [r[1] for r in results if r[0] == 'error']
    ok = [r[1] for r in results if r[0] == 'ok']
    failures = [r['failure'] for r in ok if r['failure']]
    seen = set()
    labels = {}
    samples = []
    for r in ok:
        seen |= r['seen']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples += r['samples'][:1]
    cov = dict(evaluations=sum(r['evaluations'] for r in ok), distinct_nontrivial=len(seen), rule=mod.RULE,
               samples=samples[:6], labels=dict(sorted(labels.items())),
               max_abs_error=max([r['max_err'] for r in ok] or [0]),
               max_error_over_tolerance=max([r['max_err_rel'] for r in ok] or [0]),
               shards=shards, examples_per_shard=examples)
    wall = time.time() - t0
    if not a.no_evidence:
        os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
        ev = dict(property=prop, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
                  assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(failures))
        path = os.path.join(verif, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
    print(f'{prop} {a.tier} seed={a.seed}: {cov["evaluations"]} cases, {len(seen)} distinct non-trivial, '
          f'max error {cov["max_abs_error"]:.2e} ({cov["max_error_over_tolerance"]:.3f} of tolerance), {wall:.1f}s')
    if failures:
        case, msg = min(failures, key=lambda f: (len(canon(f[0])), canon(f[0])))
        d = os.path.join(verif, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}-{hashlib.blake2b(canon(case).encode(), digest_size=6).hexdigest()}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, message=msg, case=case), f, indent=1)
        print('counterexample:', canon(case)[:2000])
        print('reason:', msg)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors))
        return 2
    return 0
