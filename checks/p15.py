"""P15: sampler histories with restarts, parallel workers and injected crashes (offline checker over call log and result folder)."""
import os, sys, shutil, tempfile, signal, time, resource, pickle, hashlib
import numpy as np
from vf import core

ID = 'P15'
CASES = {'quick': [('history', 1340), ('parallel', 340), ('crash', 1230)], 'thorough': [('history', 7000), ('parallel', 1500), ('crash', 8000)]}
RULE = ('random plans processed by random partitions (full runs, single indices, new Sampler objects with the plan read back from its exported file, disjoint parallel worker processes, '
        'overwriting runs), with every call of the user function appended to an event log; crash cases fork a run and end it at an injected point (inside the user function, while the '
        'result is being serialised, at a file size limit by signal or by error, at the k-th file-system event, at a random time), then continue; an offline checker compares call '
        'log, folder content and the results recomputed from the plan; distinct by (format, operations, crash points); non-trivial = at least two runs')
ASSUMPTIONS = ['the user function does not modify its arguments', 'data_dir ends with a path separator', 'process crashes (SIGKILL, signals, errors), not power loss']
NEED = {'calls': 1500, 'runs': 600, 'crashed_runs': 200, 'crash_in_write': 40, 'kept_results': 300, 'removed_results': 60}


def expected(c):
    """value of the user's function for a case"""
    h = np.sin(np.arange(1, 4) * (c['a'] + 0.1) * ((-7 if c['b'] is None else c['b']) + 1))
    return h


def make_plan(ctx, do_mpc, n):
    rng = ctx.rng
    sp = do_mpc.sampling.SamplingPlanner(id_precision=int(rng.integers(1, 4)))
    sp.set_sampling_var('a', lambda: float(np.round(rng.normal(), 4)))
    sp.set_sampling_var('b')
    sp.set_sampling_var('n')
    for i in range(n):
        sp.add_sampling_case(n=i, b=int(rng.integers(0, 4)) if rng.random() < 0.9 else None)   # None is a value like any other
    return sp


class Res:
    """result whose serialisation can be interrupted"""

    def __init__(self, v, kill):
        self.v, self.kill = v, kill

    def __eq__(self, o):
        return isinstance(o, Res) and np.array_equal(self.v, o.v)

    def __reduce__(self):
        return (Res, (Bomb(self.kill), False)) if self.kill else (Res, (self.v, False))


class Bomb:
    def __init__(self, how):
        self.how = how

    def __reduce__(self):
        if self.how == 'raise':
            raise RuntimeError('serialisation failed')
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(10)


def child(fn, timeout=60, kill_after=None):
    """run fn in a forked process; returns the wait status"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(0)
            fn()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    t0 = time.time()
    nap = __import__('select').select
    while True:
        r, st = os.waitpid(pid, os.WNOHANG)
        if r:
            return st
        el = time.time() - t0
        if kill_after is not None and el > kill_after:
            os.kill(pid, signal.SIGKILL)
            kill_after = None
        if el > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise core.Inconclusive('child process did not end')
        nap([], [], [], 0.001)


class World:
    def __init__(self, ctx, do_mpc, n):
        self.ctx, self.do_mpc = ctx, do_mpc
        self.root = tempfile.mkdtemp(prefix='p15_')
        rng = ctx.rng
        self.dir = os.path.join(self.root, ['res', 'a/b', 'r.pkl'][rng.integers(3)]) + '/'
        self.fmt = ['pickle', 'pickle', 'mat'][rng.integers(3)]
        self.name = ['sample', 'dummy_run', 'x.1'][rng.integers(3)]
        self.sp = make_plan(ctx, do_mpc, n)
        self.plan = self.sp.sampling_plan
        # the event log is a pipe: not affected by file size limits or the file system
        self.rd, self.log = os.pipe()
        os.set_blocking(self.rd, False)
        self.text = b''
        self.big = 0
        self.wrap = False
        self.version = 0

    def file(self, c):
        return self.dir + '%s_%s.%s' % (self.name, c['id'], 'pkl' if self.fmt == 'pickle' else 'mat')

    def result(self, c, version=0):
        r = expected(c) + 1000 * version
        if self.big:
            r = np.concatenate([r, np.arange(self.big) * 0.5])
        return r

    def function(self, crash=None):
        log, world, ver = self.log, self, self.version

        def fun(n, a, b):
            os.write(log, b'start %d %s %s\n' % (n, repr(a).encode(), repr(b).encode()))
            if crash and crash[0] == 'function' and crash[1] == n:
                if crash[2] == 'raise':
                    raise RuntimeError('user function failed')
                os.kill(os.getpid(), signal.SIGKILL)
                time.sleep(10)
            r = world.result(dict(n=n, a=a, b=b), ver)
            if crash and crash[0] == 'timed':
                time_wait(0.002)
            os.write(log, b'done %d\n' % n)
            if world.wrap and world.fmt == 'pickle':
                return Res(r, crash[2] if crash and crash[0] == 'serialise' and crash[1] == n else False)
            return r
        return fun

    def sampler(self, crash=None, overwrite=False, reload_plan=False):
        rng = self.ctx.rng
        plan = self.plan
        if reload_plan:
            sp = self.do_mpc.sampling.SamplingPlanner()
            d = os.path.join(self.root, 'plan') + '/'
            sp.data_dir = d
            sp.sampling_plan = plan
            sp.overwrite = True
            sp.export('p')
            plan = self.do_mpc.tools.load_pickle(d + 'p.pkl')
        kw = dict(sample_name=self.name, save_format=self.fmt, print_progress=bool(rng.random() < 0.3))
        if overwrite:
            kw['overwrite'] = True
        if rng.random() < 0.5:
            s = self.do_mpc.sampling.Sampler(plan, **kw)
        else:
            s = self.do_mpc.sampling.Sampler(plan)
            s.set_param(**kw)
        s.data_dir = self.dir
        s.set_sample_function(self.function(crash))
        return s

    def calls(self):
        """event log: list of (event, n, args)"""
        out = []
        try:
            while True:
                b = os.read(self.rd, 65536)
                if not b:
                    break
                self.text += b
        except BlockingIOError:
            pass
        for l in self.text.decode().splitlines():
            q = l.split()
            out.append((q[0], int(q[1]), tuple(q[2:])))
        return out

    def load(self, c):
        try:
            if self.fmt == 'pickle':
                with open(self.file(c), 'rb') as f:
                    r = pickle.load(f)
                return r.v if isinstance(r, Res) else r
            import scipy.io as sio
            return np.asarray(sio.loadmat(self.file(c))['res']).ravel()
        except FileNotFoundError:
            return None
        except Exception as e:
            return 'unreadable: %r' % e

    def snapshot(self):
        out = {}
        if os.path.isdir(self.dir):
            for n in os.listdir(self.dir):
                p = self.dir + n
                with open(p, 'rb') as f:
                    out[n] = (os.stat(p).st_mtime_ns, hashlib.sha1(f.read()).hexdigest())
        return out

    def is_result(self, c, versions=(0,)):
        r = self.load(c)
        return isinstance(r, np.ndarray) and any(r.size == self.result(c, v).size and np.allclose(r, self.result(c, v), rtol=0, atol=0) for v in versions)

    def check_args(self, calls, key='call-arguments'):
        for ev, n, a in calls:
            if ev == 'start':
                c = self.plan[n]
                self.ctx.check(a == (repr(c['a']), repr(c['b'])), key, 'case %d called with %s instead of %s' % (n, a, (c['a'], c['b'])))
        self.ctx.count['calls'] += sum(e[0] == 'start' for e in calls)

    def check_complete(self, versions=None, extra=()):
        """after the plan was processed: exactly one valid result per case"""
        ctx = self.ctx
        for i, c in enumerate(self.plan):
            v = (0,) if versions is None else versions[i]
            ctx.check(self.is_result(c, v), 'result', 'stored result of case %s is %s' % (c['id'], core._short(self.load(c))))
        names = {os.path.basename(self.file(c)) for c in self.plan} | set(extra)
        got = {n for n in os.listdir(self.dir) if not n.startswith('.') and 'tmp' not in n}
        ctx.check(got == names, 'files', 'result folder holds %s besides, misses %s' % (sorted(got - names), sorted(names - got)))

    def close(self):
        os.close(self.rd)
        os.close(self.log)
        shutil.rmtree(self.root, ignore_errors=True)


def time_wait(s):
    __import__('select').select([], [], [], s)


def one_run(w, s, op, have, over):
    """shadow of one operation: which cases must be called"""
    rng = w.ctx.rng
    if op == 'full':
        want = [i for i in range(len(w.plan)) if over or i not in have]
        s.sample_data()
    else:
        idx = [int(i) for i in rng.permutation(len(w.plan))[:int(rng.integers(1, len(w.plan) + 1))]]
        want = [i for i in idx if over or i not in have]
        for i in idx:
            s.sample_idx(i if rng.random() < 0.7 else np.int64(i))
    return want


def history(ctx, do_mpc):
    rng = ctx.rng
    w = World(ctx, do_mpc, int(rng.integers(1, 9)))
    try:
        n = len(w.plan)
        have, ops = {}, []
        w.wrap = bool(rng.random() < 0.3)
        extra = []
        os.makedirs(w.dir)
        if rng.random() < 0.4:
            extra = ['notes.txt', w.name + '_zz.pkl']
            for e in extra:
                open(w.dir + e, 'w').write('x')
        s = w.sampler()
        for k in range(int(rng.integers(2, 6))):
            over = bool(rng.random() < 0.3)
            fresh = rng.random() < 0.5
            if have and rng.random() < 0.25:
                # results disappear (moved away by the user)
                for i in [i for i in have if rng.random() < 0.5]:
                    os.remove(w.file(w.plan[i]))
                    have.pop(i)
                    ctx.count['removed_results'] += 1
            if over:
                w.version = k
            if fresh:
                s = w.sampler(overwrite=over, reload_plan=bool(rng.random() < 0.5))
                ctx.count['restarts'] += 1
            s.overwrite = over
            op = ['full', 'idx'][rng.integers(2)]
            before, nb = w.snapshot(), len(w.calls())
            ver = w.version
            s.set_sample_function(w.function())
            want = one_run(w, s, op, have, over)
            calls = w.calls()[nb:]
            w.check_args(calls)
            got = [c[1] for c in calls if c[0] == 'start']
            ctx.check(got == want, 'calls', 'user function called for %s, expected %s (%s, overwrite %s)' % (got, want, op, over))
            for i in want:
                have[i] = ver
            after = w.snapshot()
            for f, sig in before.items():
                i = [j for j in range(n) if os.path.basename(w.file(w.plan[j])) == f]
                if not i or i[0] not in want:
                    ctx.check(after.get(f) == sig, 'altered', 'existing file %s was changed' % f)
                    ctx.count['kept_results'] += 1
            for i in have:
                ctx.check(w.is_result(w.plan[i], (have[i],)), 'result', 'stored result of case %s' % w.plan[i]['id'])
            ops.append((op, over, fresh))
            ctx.count['runs'] += 1
        s = w.sampler()
        before = set(have)
        nb = len(w.calls())
        w.version = 0
        s.set_sample_function(w.function())
        s.sample_data()
        got = sorted(c[1] for c in w.calls()[nb:] if c[0] == 'start')
        ctx.check(got == sorted(set(range(n)) - before), 'calls', 'final run computed %s although %s existed' % (got, sorted(before)))
        w.check_complete({i: (have.get(i, 0),) for i in range(n)}, extra)
        ctx.raises(lambda: s.sample_idx(-1), 'refuse-idx', 'negative index')
        ctx.raises(lambda: s.sample_idx(n), 'refuse-idx', 'index behind the last case')
        ctx.raises(lambda: s.set_sample_function(lambda a, nonsense: 1), 'refuse-function', 'function with an unknown argument')
        ctx.check(w.snapshot().keys() == {os.path.basename(w.file(c)) for c in w.plan} | set(extra), 'files', 'folder content after refused calls')
        ctx.sig, ctx.desc = ['history', w.fmt, w.name, n, ops], dict(format=w.fmt, cases=n, operations=ops)
        ctx.nontrivial = len(ops) >= 2
        # what a data handler sees
        dh = do_mpc.sampling.DataHandler(w.plan, data_dir=w.dir, sample_name=w.name, save_format=w.fmt)
        for e in dh[:]:
            r = e['res'] if w.fmt == 'pickle' else np.asarray(e['res']['res']).ravel()
            r = r.v if isinstance(r, Res) else r
            ctx.check(np.allclose(r, w.result(w.plan[e['n']], have.get(e['n'], 0))), 'handler', 'result of case %s seen by the data handler' % e['id'])
    finally:
        w.close()


def parallel(ctx, do_mpc):
    """disjoint parts of the plan in concurrent processes, partly with a plan read back from file"""
    rng = ctx.rng
    w = World(ctx, do_mpc, int(rng.integers(4, 16)))
    try:
        n, k = len(w.plan), int(rng.integers(2, 5))
        parts = np.array_split(rng.permutation(n), k)
        w.big = int(rng.integers(0, 20000))
        skip = [int(i) for i in rng.permutation(n)[:int(rng.integers(0, 3))]]
        for i in skip:
            w.sampler().sample_idx(i)
        before = w.snapshot()
        pids = []
        mode = rng.integers(2)
        for p in parts:
            s = w.sampler(reload_plan=bool(rng.random() < 0.3))
            if mode:
                s.data_dir = w.dir
            pid = os.fork()
            if pid == 0:
                code = 4
                try:
                    for i in p:
                        s.sample_idx(int(i))
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        codes = [os.waitpid(p, 0)[1] for p in pids]
        ctx.check(not any(codes), 'parallel-worker', 'worker exit codes %s' % codes)
        calls = w.calls()
        w.check_args(calls)
        got = sorted(c[1] for c in calls if c[0] == 'start')
        ctx.check(got == list(range(n)), 'calls', 'user function called for %s' % got)
        after = w.snapshot()
        for f in before:
            ctx.check(after.get(f) == before[f], 'altered', 'existing file %s was changed' % f)
            ctx.count['kept_results'] += 1
        w.check_complete()
        ctx.count['runs'] += k
        ctx.count['parallel_runs'] += k
        ctx.sig, ctx.desc = ['parallel', w.fmt, n, k, skip, w.big], dict(format=w.fmt, cases=n, workers=k)
        ctx.nontrivial = True
    finally:
        w.close()


def crash_case(ctx, do_mpc):
    rng = ctx.rng
    w = World(ctx, do_mpc, int(rng.integers(2, 8)))
    try:
        n = len(w.plan)
        kinds = []
        versions = {i: {0} for i in range(n)}
        os.makedirs(w.dir)
        w.wrap = True
        big_case = rng.random() < 0.5
        if big_case:
            w.big = int(rng.integers(3000, 60000))
        done = set()
        for r in range(int(rng.integers(1, 4))):
            kind = ['function', 'serialise', 'fsize-signal', 'fsize-error', 'fsevent', 'timed'][rng.integers(6)]
            over = bool(rng.random() < 0.3)
            if over:
                w.version = r + 1
            else:
                w.version = 0
            target = int(rng.integers(n))
            how = ['kill', 'raise'][rng.integers(2)]
            crash = (kind, target, how)
            s = w.sampler(crash, overwrite=over, reload_plan=bool(rng.random() < 0.5))
            limit = int(rng.integers(0, 8 * (w.big + 3) + 100))
            events = int(rng.integers(1, 4 * n + 2))
            before, nb = w.snapshot(), len(w.calls())
            valid_before = {i for i in range(n) if w.is_result(w.plan[i], versions[i])}
            order = list(range(n)) if rng.random() < 0.6 else [int(i) for i in rng.permutation(n)]

            def work():
                if kind == 'fsize-signal':
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if kind.startswith('fsize'):
                    resource.setrlimit(resource.RLIMIT_FSIZE, (max(limit, 0), resource.RLIM_INFINITY))
                if kind == 'fsevent':
                    cnt = [0]

                    def hook(ev, args):
                        if ev in ('open', 'os.rename', 'os.remove', 'os.link', 'os.truncate', 'shutil.move', 'shutil.copyfile', 'os.listdir', 'os.mkdir') and args and w.dir in str(args[0]):
                            cnt[0] += 1
                            if cnt[0] == events:
                                os.kill(os.getpid(), signal.SIGKILL)
                    sys.addaudithook(hook)
                if order == list(range(n)):
                    s.sample_data()
                else:
                    for i in order:
                        s.sample_idx(i)
            st = child(work, kill_after=float(rng.uniform(0, 0.01 * n)) if kind == 'timed' else None)
            ended = st != 0
            ctx.count['runs'] += 1
            ctx.count['crashed_runs'] += ended
            if ended:
                ctx.count['ended_by_' + kind] += 1
                if kind in ('serialise', 'fsize-signal', 'fsize-error', 'fsevent', 'timed'):
                    ctx.count['crash_in_write'] += 1
            calls = w.calls()[nb:]
            w.check_args(calls)
            started = [c[1] for c in calls if c[0] == 'start']
            if over:
                for i in started:
                    versions[i].add(w.version)
            else:
                ctx.check(not (set(started) & valid_before), 'calls', 'run %d recomputed existing results %s' % (r, sorted(set(started) & valid_before)))
            ctx.check(len(set(started)) == len(started), 'calls', 'case computed twice in one run: %s' % started)
            after = w.snapshot()
            for i in range(n):
                f = os.path.basename(w.file(w.plan[i]))
                if i in valid_before and i not in started:
                    ctx.check(after.get(f) == before[f], 'altered', 'existing result %s was changed' % f)
                    ctx.count['kept_results'] += 1
                if i in valid_before:
                    ctx.check(w.is_result(w.plan[i], versions[i]), 'lost', 'result of case %s was lost by the crash (%s, overwrite %s)' % (w.plan[i]['id'], kind, over))
            # everything whose successor had already started was completed
            fin = [c[1] for c in calls if c[0] == 'done']
            for a in started[:-1]:
                if a in fin:
                    v = (w.version,)
                    ctx.check(w.is_result(w.plan[a], v), 'lost', 'completed result of case %s is not stored (%s)' % (w.plan[a]['id'], kind))
            # nothing that a later run or a data handler would mistake for a result
            for i in range(n):
                ctx.check(w.load(w.plan[i]) is None or w.is_result(w.plan[i], versions[i]), 'incomplete', 'after a crash (%s) the result file of case %s is %s' % (kind, w.plan[i]['id'], core._short(w.load(w.plan[i]))))
            kinds.append((kind, over, how if kind in ('function', 'serialise') else '', len(started)))
        # final run completes the plan
        w.version = 0
        have = {i for i in range(n) if w.is_result(w.plan[i], versions[i])}
        nb = len(w.calls())
        before = w.snapshot()
        w.sampler(reload_plan=bool(rng.random() < 0.5)).sample_data()
        calls = w.calls()[nb:]
        w.check_args(calls)
        got = sorted(c[1] for c in calls if c[0] == 'start')
        ctx.check(got == sorted(set(range(n)) - have), 'calls', 'final run computed %s although %s existed' % (got, sorted(have)))
        after = w.snapshot()
        for i in have:
            f = os.path.basename(w.file(w.plan[i]))
            ctx.check(after.get(f) == before.get(f), 'altered', 'existing result %s was changed' % f)
            ctx.count['kept_results'] += 1
        w.check_complete(versions)
        ctx.sig, ctx.desc = ['crash', w.fmt, n, kinds, w.big], dict(format=w.fmt, cases=n, crashes=kinds, size=w.big)
        ctx.nontrivial = True
    finally:
        w.close()


def run_case(kind, idx, ctx):
    import do_mpc
    {'history': history, 'parallel': parallel, 'crash': crash_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p15')
