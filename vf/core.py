"""Runner shared by all checks: case scheduling, monitors' bookkeeping, verdict, evidence."""
import os, sys, json, time, hashlib, traceback, signal, collections, contextlib, multiprocessing as mp

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inconclusive(Exception):
    """The monitor could not judge this case (solver failure, precondition not met ...)."""


class CaseTimeout(Exception):
    pass


def case_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'little')


class Ctx:
    """Per-case recorder: random source, observation counters, violations."""

    def __init__(self, seed):
        import numpy as np
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.count = collections.Counter()
        self.violations = []
        self.sig = None
        self.desc = None
        self.nontrivial = False
        self.inconclusive = None

    # ---- monitors -----------------------------------------------------------------------
    def violate(self, key, msg, **data):
        if len(self.violations) < 20:
            self.violations.append({'key': key, 'msg': str(msg)[:1500], 'data': {k: _short(v) for k, v in data.items()}})

    def check(self, cond, key, msg='', **data):
        self.count['checks'] += 1
        self.count['chk:' + key] += 1
        if not bool(cond):
            self.violate(key, msg, **data)
            return False
        return True

    def close(self, got, want, key, msg='', rtol=1e-7, atol=1e-9, **data):
        import numpy as np
        self.count['checks'] += 1
        self.count['chk:' + key] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.violate(key, '%s: not numeric (%r)' % (msg, e), got=got, want=want, **data)
            return False
        if g.size != w.size:
            self.violate(key, '%s: size %s instead of %s' % (msg, g.shape, w.shape), got=got, want=want, **data)
            return False
        g = g.reshape(w.shape)
        scale = np.maximum(1.0, np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 1.0)
        same_inf = (g == w)
        with np.errstate(invalid='ignore'):
            bad = ~(same_inf | (np.abs(g - w) <= atol * 1.0 + rtol * scale))
        if bad.any():
            with np.errstate(invalid='ignore'):
                err = float(np.nanmax(np.where(bad, np.abs(g - w), 0)))
            self.violate(key, '%s: differs by %.3g' % (msg, err), got=got, want=want, **data)
            return False
        return True

    def raises(self, fn, key, msg='', exc=Exception):
        """fn must raise."""
        self.count['checks'] += 1
        self.count['chk:' + key] += 1
        try:
            fn()
        except CaseTimeout:
            raise
        except exc:
            return True
        self.violate(key, msg + ': no error was raised')
        return False


def _short(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return np.array2string(v, threshold=40, precision=9)[:600]
        if hasattr(v, 'full'):
            return np.array2string(np.array(v.full()), threshold=40, precision=9)[:600]
    except Exception:
        pass
    return repr(v)[:600]


# ---------------------------------------------------------------------------------------------
def setup_worker(quiet=True, nosleep=True):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[v] = '1'
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import warnings
    warnings.simplefilter('ignore')
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = open(os.devnull, 'w')
        sys.stderr = open(os.devnull, 'w')
    import do_mpc  # noqa
    f = os.path.realpath(do_mpc.__file__)
    assert f.startswith(os.path.realpath(REPO)), f
    if nosleep:
        # do-mpc sleeps several seconds after some warnings; only costs time
        time.sleep = lambda s: None


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, kind, idx, seed, timeout):
    ctx = Ctx(case_seed(seed, mod.ID, kind, idx))
    t0 = time.time()
    out = {'kind': kind, 'idx': idx}
    try:
        if timeout:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(int(timeout))
        try:
            mod.run_case(kind, idx, ctx)
        finally:
            signal.alarm(0)
    except Inconclusive as e:
        ctx.inconclusive = 'inconclusive: %s' % e
    except CaseTimeout:
        ctx.inconclusive = 'timeout'
        out['timeout'] = True
    except MemoryError:
        ctx.inconclusive = 'memory'
        out['timeout'] = True
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        where = '%s:%s' % (os.path.relpath(inrepo[-1].filename, REPO), inrepo[-1].name) if inrepo else 'harness'
        ctx.violate('%s-exception-%s' % (kind, type(e).__name__) if inrepo else '%s-unusable-result' % kind,
                    'unexpected %s at %s: %s' % (type(e).__name__, where, e),
                    trace=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
        out['tb'] = traceback.format_exc()[-3000:]
    out.update(violations=ctx.violations, count=dict(ctx.count), sig=ctx.sig, desc=ctx.desc,
               nontrivial=bool(ctx.nontrivial), inconclusive=ctx.inconclusive, dt=time.time() - t0)
    return out


_mod = None


def _init(modname, seed, timeout, quiet, nosleep):
    global _mod, _seed, _timeout
    setup_worker(quiet, nosleep)
    import importlib
    _mod = importlib.import_module(modname)
    _seed, _timeout = seed, timeout


def _work(task):
    kind, idx = task
    return run_one(_mod, kind, idx, _seed, _timeout)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main(modname, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    sys.path.insert(0, ROOT)
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    only = None
    jobs = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
    i = 0
    while i < len(argv):
        if argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        elif argv[i] == '--replay':
            i += 1
            replay = argv[i]
        elif argv[i] == '--only':
            i += 1
            only = argv[i]
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t_start = time.time()
    import importlib
    # cheap import of the check's metadata without importing do-mpc in the parent
    meta = importlib.import_module(modname)
    pid = meta.ID
    if replay:
        r = json.load(open(replay))
        setup_worker(quiet=False, nosleep=getattr(meta, 'NOSLEEP', True))
        out = run_one(meta, r['kind'], r['idx'], r['seed'], 0)
        print(json.dumps(out, indent=1, default=str))
        if out['violations']:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            sys.exit(1)
        sys.exit(0)

    tasks = []
    plan = meta.CASES[tier]
    n_max = max(n for _, n in plan)
    for k in range(n_max):
        for kind, n in plan:
            if k < n and (only is None or kind == only or kind.startswith(only + '-')):
                tasks.append((kind, k))
    deadline = getattr(meta, 'DEADLINE', {'quick': 780, 'thorough': 6 * 3600})[tier]
    case_to = getattr(meta, 'CASE_TIMEOUT', {'quick': 240, 'thorough': 1200})[tier]
    results = []
    hard = None
    procs = []

    def stop_workers():
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass

    failfast = int(os.environ.get('VERIF_FAILFAST', '0'))     # stop early (for measuring, not used by the registered commands)
    deadline = min(deadline, int(os.environ.get('VERIF_DEADLINE', deadline)))
    ctxm = mp.get_context('spawn')
    jobs = min(jobs, getattr(meta, 'JOBS', jobs), max(1, len(tasks)))
    chunk = getattr(meta, 'MAXTASKS', None)
    quiet = not os.environ.get('VERIF_LOUD')
    from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError as FT
    from concurrent.futures.process import BrokenProcessPool
    try:
        ex = ProcessPoolExecutor(jobs, mp_context=ctxm, initializer=_init,
                                 initargs=(modname, seed, case_to, quiet, getattr(meta, 'NOSLEEP', True)),
                                 max_tasks_per_child=chunk)
        futs = {ex.submit(_work, t): t for t in tasks}
        try:
            for f in as_completed(futs, timeout=deadline):
                results.append(f.result())
                if failfast and results[-1]['violations'] and len([r for r in results if r['violations']]) >= failfast:
                    break
                procs[:] = list((ex._processes or {}).values()) or procs
        except FT:
            hard = 'deadline of %ss reached with %d of %d cases' % (deadline, len(results), len(tasks))
            for p in list(ex._processes.values()):
                p.kill()
        except BrokenProcessPool as e:
            hard = 'a worker process died: %s' % e
        procs[:] = list((ex._processes or {}).values()) or procs
        ex.shutdown(wait=False, cancel_futures=True)
    except Exception as e:  # pragma: no cover
        hard = 'runner failed: %r' % e

    # ---- verdict ---------------------------------------------------------------------------
    results.sort(key=lambda r: (r['kind'], r['idx']))
    known = {(k['property'], k['key']): k for k in load_known() if k.get('status') == 'open'}
    total = collections.Counter()
    sigs = set()
    kinds = collections.defaultdict(collections.Counter)
    viol, knownhit = [], collections.OrderedDict()
    samples = []
    for r in results:
        total.update(r['count'])
        kc = kinds[r['kind']]
        kc['cases'] += 1
        kc['seconds'] += int(r['dt'] * 1000)
        if r['inconclusive']:
            kc['inconclusive'] += 1
        if r['nontrivial']:
            sigs.add((r['kind'], json.dumps(r['sig'], sort_keys=True, default=str)))
            kc['nontrivial'] += 1
        for v in r['violations']:
            k = (pid, v['key'])
            if k in known:
                knownhit.setdefault(v['key'], v)
            else:
                viol.append((r, v))
    if hasattr(meta, 'DERIVE'):
        meta.DERIVE(total)
    seen_kinds = set()
    for r in results:
        if r['desc'] is not None and r['kind'] not in seen_kinds and len(samples) < 12:
            seen_kinds.add(r['kind'])
            samples.append({'kind': r['kind'], 'idx': r['idx'], 'case': r['desc'], 'observed': {k: v for k, v in r['count'].items() if not k.startswith('chk:')}})
    starved = []
    if only is None:
        need = getattr(meta, 'NEED', {})
        for c, n in need.items():
            n = n[tier] if isinstance(n, dict) else n
            if total.get(c, 0) < n:
                starved.append('%s=%d<%d' % (c, total.get(c, 0), n))
        frac = getattr(meta, 'MAX_INCONCLUSIVE', 0.3)
        for kind, kc in kinds.items():
            if kc['cases'] and kc['inconclusive'] > max(1, frac * kc['cases']):
                starved.append('%s: %d of %d cases inconclusive' % (kind, kc['inconclusive'], kc['cases']))
    timeouts = [r for r in results if r.get('timeout')]

    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(meta, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': meta.RULE,
            'samples': samples,
            'oracle_comparisons': total.get('checks', 0),
            'observed': {k: v for k, v in sorted(total.items()) if not k.startswith('chk:') and k != 'checks'},
            'comparisons_by_monitor': {k[4:]: v for k, v in sorted(total.items()) if k.startswith('chk:')},
            'by_kind': {k: {'cases': v['cases'], 'nontrivial': v['nontrivial'], 'inconclusive': v['inconclusive'], 'cpu_s': round(v['seconds'] / 1000, 1)} for k, v in sorted(kinds.items())},
            'inconclusive_reasons': dict(collections.Counter(str(r['inconclusive'])[:120] for r in results if r['inconclusive'])),
        },
        'assumptions': getattr(meta, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t_start, 2),
        'violations': len(viol),
        'known_findings_seen': list(knownhit),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evp = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(evp + '.tmp', evp)

    for key, v in knownhit.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, known[(pid, key)]['what']))
    slow = sorted(results, key=lambda r: -r['dt'])[:1]
    print('%s %s seed=%d: %d cases, %d distinct nontrivial, %d comparisons, %d violations, %.1fs (slowest case %s %.1fs)' % (
        pid, tier, seed, len(results), len(sigs), total.get('checks', 0), len(viol), time.time() - t_start,
        slow and '%s/%d' % (slow[0]['kind'], slow[0]['idx']), slow[0]['dt'] if slow else 0))
    if viol:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for r, v in viol:
            if v['key'] in shown or len(shown) >= 8:
                continue
            shown.add(v['key'])
            rp = os.path.join(rd, '%s-%s-%s-%d.json' % (pid, seed, r['kind'], r['idx']))
            with open(rp, 'w') as f:
                json.dump({'property': pid, 'kind': r['kind'], 'idx': r['idx'], 'seed': seed, 'tier': tier, 'desc': r['desc'],
                           'violations': r['violations'], 'tb': r.get('tb'),
                           'how': '/opt/venv/bin/python -m checks.%s --replay <this file>  (cwd /verif)' % pid.lower()}, f, indent=1, default=str)
            print('  [%s] case %s/%d: %s' % (v['key'], r['kind'], r['idx'], v['msg'][:400]))
            if os.environ.get('VERIF_VERBOSE'):
                print(json.dumps(v, indent=1, default=str)[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.stdout.flush()
        stop_workers()
        os._exit(1)
    bad = hard or (starved and 'monitors starved: ' + ', '.join(starved)) or (timeouts and '%d cases hit the watchdog' % len(timeouts))
    if not results:
        bad = bad or 'no case ran'
    sys.stdout.flush()
    if bad:
        print('INCONCLUSIVE property=%s %s' % (pid, bad))
        for r in results:
            if r['inconclusive']:
                print('   %s/%d %s' % (r['kind'], r['idx'], r['inconclusive']))
                break
        sys.stdout.flush()
        stop_workers()
        os._exit(3)
    stop_workers()
    os._exit(0)
