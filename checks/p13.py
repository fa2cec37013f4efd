"""P13: saved results load back unchanged and earlier files are never changed (shadow of the result folder)."""
import os, sys, shutil, tempfile, hashlib, pickle, subprocess, builtins, threading
import numpy as np
import casadi as ca
from vf import core, ocp, mheref
from vf.models import gen_spec, rvals, rterms, _size
from checks import p07, p10, p12

ID = 'P13'
CASES = {'quick': [('save', 340), ('race', 80), ('fault', 80), ('fresh', 16), ('many', 48)], 'thorough': [('save', 5000), ('race', 1500), ('fault', 1000), ('fresh', 100), ('many', 400)]}
RULE = ('random controllers, estimators and simulators are stepped and saved (any subset, names that extend or contain each other, paths with and without trailing separator, folders with foreign '
        'files, directories, links and gaps in the numbering) in random histories; a shadow of the folder (content hashes) is compared after every save and every file is loaded '
        'directly, after later steps and in a fresh interpreter, and compared with arrays, queries and predictions at the time of saving; several processes save under one name with '
        'injected delays; serialisation failures are injected; long series add to up to a thousand earlier files; distinct by history; non-trivial = at least two saves')
ASSUMPTIONS = ['at most one object of each kind in one save (a later one of the same kind replaces the earlier one)', 'LQR results are refused by save_results', 'result names contain no path separator']
NEED = {'saves': 600, 'loads': 800, 'renamed': 150, 'array_comparisons': 4000, 'predictions': 400, 'race_files': 80, 'faults': 40, 'fresh_loads': 6, 'long_runs': 40}


def run_case(kind, idx, ctx):
    import do_mpc
    root = tempfile.mkdtemp(prefix='p13_')
    cwd = os.getcwd()
    try:
        {'save': save_case, 'race': race_case, 'fault': fault_case, 'fresh': fresh_case, 'many': many_case}[kind](ctx, do_mpc, root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def listing(folder):
    out = {}
    for d, ds, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, folder)
            out[r] = ('link', os.readlink(p)) if os.path.islink(p) else hashlib.sha256(open(p, 'rb').read()).hexdigest()
        for q in ds:
            out[os.path.relpath(os.path.join(d, q), folder) + '/'] = 'dir'
    return out


class Objs:
    """one controller, estimator and simulator of a common model"""

    def __init__(self, rng, do_mpc, light=False):
        self.rng, self.do_mpc = rng, do_mpc
        S, c = p10.gen(rng, 'loop')
        self.S = S
        self.m = m = S.build(do_mpc, rng)
        q = {'ipopt.max_iter': 8}
        sim = do_mpc.simulator.Simulator(m)
        sim.set_param(t_step=0.1)
        if S.mtype == 'continuous' and S.n('_z'):
            sim.set_param(integration_tool='idas')
        if S.n('_tvp'):
            T = sim.get_tvp_template(); sim.set_tvp_fun(lambda t: T)
        if S.n('_p'):
            Pt = sim.get_p_template(); sim.set_p_fun(lambda t: Pt)
        sim.setup()
        self.simulator = sim
        k = ocp.gen_mpc_cfg(rng, S, max_N=2, nl=0)
        k.deg, k.ni = 1, 1
        p07.bounded_costs(rng, S, k)
        full = bool(rng.random() < 0.8)
        self.full = full
        self.mpc = ocp.build_mpc(do_mpc, S, m, k, extra=dict(store_full_solution=full, nlpsol_opts=dict(ocp.QUIET, **q)))
        self.mpc.set_initial_guess()
        if rng.random() < 0.6:
            c.N, c.deg, c.ni = min(c.N, 2), 1, 1
            mhe = mheref.build_mhe(do_mpc, S, m, c, setup=False, set_fun=False,
                                   extra={'nlpsol_opts': dict(ocp.QUIET, **q), 'meas_from_data': True, 'store_full_solution': bool(rng.random() < 0.5)})
            p10.Shadow(rng, S, c).install(mhe)
            ocp.finish(mhe, c)
            mhe.set_initial_guess()
            self.estimator = mhe
        else:
            self.estimator = do_mpc.estimator.StateFeedback(m)
        self.ny = sum(len(t) for _, t, _ in S.meas)

    def step(self):
        rng, S = self.rng, self.S
        k = rng.integers(4)
        if k in (0, 3):
            self.mpc.make_step(rvals(rng, S, '_x'))
        if k in (1, 3):
            self.estimator.make_step(np.round(rng.normal(size=(self.ny, 1)), 3))
        if k in (2, 3):
            self.simulator.x0 = rvals(rng, S, '_x')
            self.simulator.make_step(rvals(rng, S, '_u').reshape(-1, 1))

    def ask(self, n):
        """queries and predictions to be compared"""
        rng, out = self.rng, []
        L = p12.Log(None, self.S, None, {})
        for _ in range(n):
            r = L.random_ref(rng, ['_x', '_u', '_z', '_tvp', '_p', '_aux', '_y'])
            if r:
                out.append(r[0])
        return out


def snap(d, qs, pred):
    """content of a data object"""
    s = {'fields': {f: np.array(getattr(d, f)).copy() for f in d.data_fields}, 'export': {k: np.array(v).copy() for k, v in d.export().items()}, 'q': [], 'p': [],
         'dtype': d.dtype, 'meta': {k: v for k, v in d.meta_data.items() if isinstance(v, (int, float, str, bool))}}
    for q in qs:
        s['q'].append(np.array(d[q if len(q) > 1 else q[0]]).copy())
        if pred and q[0] != '_y':
            n = s['fields']['_time'].shape[0]
            for t in ([-1] if n == 0 else [-1, n // 2, 0]):
                s['p'].append(np.array(d.prediction(q, t_ind=t)).copy())
    return s


def same(ctx, a, b, what):
    ctx.count['array_comparisons'] += len(a['fields'])
    ok = ctx.check(set(a['fields']) == set(b['fields']), 'fields', '%s: fields %s' % (what, set(a['fields']) ^ set(b['fields'])))
    if ok:
        for f in a['fields']:
            x, y = a['fields'][f], b['fields'][f]
            ctx.check(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y), 'loaded-field', '%s: field %s' % (what, f), got=y, want=x)
    ctx.check(all(np.array_equal(a['export'][k], b['export'].get(k)) for k in a['export']), 'loaded-export', '%s: export()' % what)
    for k, key in (('q', 'loaded-query'), ('p', 'loaded-prediction')):
        ctx.check(len(a[k]) == len(b[k]) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a[k], b[k])), key, '%s: %s differ' % (what, key))
    ctx.count['predictions'] += len(a['p'])
    ctx.check(a['dtype'] == b['dtype'] and a['meta'] == b['meta'], 'loaded-meta', '%s: meta data' % what)


def save_case(ctx, do_mpc, root, objs=None, nops=None):
    rng = ctx.rng
    O = objs or Objs(rng, do_mpc)
    folder = os.path.join(root, ['res', 'a/b', 'r.pkl', 'my results'][rng.integers(4)])
    os.chdir(root)
    names = [['run', 'run1', '001_run', 'run.pkl'], ['results', 'x', 'x.y', '001_x'], ['Run', 'run', 'RUN_1', '1000_run'],
             ['a_very_long_name_of_a_result_file_with_many_words_%02d' % i for i in range(3)] + ['a_very_long_name_of_a_result_file'], ['mpc run', 'näme', 'r-1', 'run_']][rng.integers(5)]
    if rng.random() < 0.7:
        # the folder already holds something
        os.makedirs(folder)
        for _ in range(int(rng.integers(1, 6))):
            n = names[rng.integers(len(names))]
            n = ['%s.pkl' % n, '%03d_%s.pkl' % (rng.integers(1, 4), n), n, n + '.pkl.bak'][rng.choice(4, p=[.4, .4, .1, .1])]
            p = os.path.join(folder, n)
            if os.path.lexists(p):
                continue
            if rng.random() < 0.12:
                os.makedirs(p)
            elif rng.random() < 0.1:
                t = os.path.join(root, 'target%d' % rng.integers(3))
                open(t, 'w').write('target')
                os.symlink(t, p)
            else:
                open(p, 'wb').write(rng.bytes(20))
    hist, saved = [], {}

    def verify(path, want, what):
        ctx.count['loads'] += 1
        got = do_mpc.data.load_results(path)
        if not ctx.check(set(got) == set(want), 'objects', '%s: file holds %s instead of %s' % (what, sorted(got), sorted(want))):
            return
        for k in want:
            same(ctx, want[k][0], snap(got[k], want[k][1], want[k][2]), '%s: %s' % (what, k))
    for _ in range(nops or int(rng.integers(4, 10))):
        if rng.random() < 0.4:
            O.step()
            hist.append('step')
            continue
        kinds = [k for k in ('mpc', 'simulator', 'estimator') if rng.random() < 0.6] or ['mpc']
        over = bool(rng.random() < 0.2)
        name = names[rng.choice(4, p=[.55, .15, .15, .15])]
        path = folder + ('/' if rng.random() < 0.6 else '')
        if rng.random() < 0.3:
            path = os.path.relpath(folder, root) + path[len(folder):]
        want = {}
        for k in kinds:
            o = getattr(O, k)
            qs = O.ask(int(rng.integers(0, 4)))
            if k != 'estimator' or not isinstance(o, do_mpc.estimator.StateFeedback):
                pred = k == 'mpc' and O.full
            else:
                pred = False
            if rng.random() < 0.5:
                # queries before saving fill the cache that is saved as well
                [o.data[q] for q in qs if len(q) > 1]
            want[k] = (snap(o.data, qs, pred), qs, pred)
        if over and os.path.isdir(os.path.join(folder, name + '.pkl')):
            over = False
        before = listing(root)
        order = [getattr(O, k) for k in kinds]
        lst = [order[i] for i in rng.permutation(len(order))]
        kw = dict(overwrite=over) if over or rng.random() < 0.5 else {}
        do_mpc.data.save_results(lst, name, path, **kw)
        after = listing(root)
        ctx.count['saves'] += 1
        hist.append((name, over, tuple(kinds)))
        rel = os.path.relpath(folder, root)
        target = os.path.join(rel, name + '.pkl')
        new = [f for f in after if f not in before and not f.endswith('/')]
        changed = [f for f in before if after.get(f) != before[f]]
        if over and target in before:
            if isinstance(before[target], tuple):      # a link: its target is rewritten
                tf = os.path.relpath(before[target][1], root)
                ok = ctx.check(not new and changed in ([], [tf]), 'overwrite', 'overwriting %s: new %s, changed %s' % (target, new, changed))
            else:
                ok = ctx.check(not new and changed in ([], [target]), 'overwrite', 'overwriting %s: new %s, changed %s' % (target, new, changed))
            f = target
        else:
            ok = ctx.check(not changed, 'kept', 'saving %s (overwrite %s) changed %s' % (target, over, changed))
            ok &= ctx.check(len(new) == 1, 'one-file', 'saving %s created %s' % (target, new))
            if new:
                ctx.check(os.path.dirname(new[0]) == rel and new[0].endswith(name + '.pkl'), 'place', 'results %s of folder %s were saved as %s' % (name, rel, new[0]))
                if target not in before and target + '/' not in before:
                    ctx.check(new[0] == target, 'place', 'name %s was free but %s was chosen' % (target, new[0]))
                else:
                    ctx.count['renamed'] += 1
            f = new[0] if new else target
        if not ok:
            break
        if over:
            saved = {g: w for g, w in saved.items() if os.path.realpath(os.path.join(root, g)) != os.path.realpath(os.path.join(root, f))}
        saved[f] = want
        verify(os.path.join(root, f), want, 'after saving %s' % f)
        if len(ctx.violations) > 3:
            break
    for f in sorted(saved):
        verify(os.path.join(root, f), saved[f], 'at the end %s' % f)
    ctx.sig, ctx.desc = [O.S.sig(), [str(h) for h in hist]], dict(O.S.describe(), history=[str(h) for h in hist], folder=os.path.basename(folder))
    ctx.nontrivial = ctx.count['saves'] >= 2
    return saved


def race_case(ctx, do_mpc, root):
    """processes which save under one name at the same time"""
    rng = ctx.rng
    O = Objs(rng, do_mpc)
    folder = os.path.join(root, 'res') + '/'
    pre = int(rng.integers(0, 3))
    if pre:
        os.makedirs(folder)
        for i in range(pre):
            open(folder + ('run.pkl' if i == 0 else '%03d_run.pkl' % i), 'wb').write(b'earlier')
    before = listing(root)
    n = int(rng.integers(2, 5))
    r, w = os.pipe()
    pids = []
    delays = rng.uniform(0, 0.01, size=(n, 40))
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(w)
                ev, kk = threading.Event(), [0]
                real = builtins.open

                def slow(f, *a, **k):
                    if isinstance(f, str) and f.startswith(folder):
                        ev.wait(delays[i, kk[0] % 40]); kk[0] += 1
                    return real(f, *a, **k)
                builtins.open = slow
                O.simulator.data.update(_time=float(1000 + i))
                os.read(r, 1)           # released together when the parent closes the pipe
                do_mpc.data.save_results([O.simulator], 'run', folder)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    os.close(r)
    os.close(w)
    codes = [os.waitpid(p, 0)[1] for p in pids]
    ctx.check(not any(codes), 'race-exit', 'exit codes %s' % codes)
    after = listing(root)
    ctx.check(all(after.get(f) == h for f, h in before.items()), 'kept', 'files of earlier runs changed')
    new = [f for f in after if f not in before and not f.endswith('/')]
    found = []
    for f in new:
        try:
            found.append(float(do_mpc.data.load_results(os.path.join(root, f))['simulator']['_time'][-1, 0]))
            ctx.count['race_files'] += 1
        except Exception as e:
            ctx.violate('race-file', '%s cannot be read: %r' % (f, e))
    ctx.check(sorted(found) == [1000. + i for i in range(n)], 'race-lost', '%d processes saved, results of %s are left' % (n, sorted(found)))
    ctx.count['saves'] += n
    ctx.sig, ctx.desc = [n, pre, np.round(delays[:, 0], 3).tolist()], {'processes': n, 'existing': pre}
    ctx.nontrivial = True


class Evil:
    def __reduce__(self):
        raise RuntimeError('cannot be serialised')


def fault_case(ctx, do_mpc, root):
    """serialisation fails or wrong arguments: nothing that exists is touched"""
    rng = ctx.rng
    O = Objs(rng, do_mpc)
    folder = os.path.join(root, 'res') + '/'
    O.step()
    for _ in range(int(rng.integers(1, 4))):
        do_mpc.data.save_results([O.mpc, O.simulator], 'run', folder)
        ctx.count['saves'] += 1
    before = listing(root)
    for _ in range(3):
        how = rng.integers(4)
        if how <= 1:
            ob = [O.mpc, O.simulator, O.estimator][rng.integers(3)]
            ob.data.set_meta(extra=Evil() if how else (lambda: 0))
            ctx.raises(lambda: do_mpc.data.save_results([ob], 'run', folder), 'fault-silent', 'serialisation failure')
            ob.data.meta_data.pop('extra')
        elif how == 2:
            bad = [O.m, 'mpc', None, O.mpc.data][rng.integers(4)]
            ctx.raises(lambda: do_mpc.data.save_results([O.simulator, bad], 'run', folder), 'wrong-object', 'saving %s' % type(bad))
        else:
            a = [(O.mpc, 'run', folder), ([O.mpc], 3, folder), ([O.mpc], 'run', 3), ([O.mpc], 'run', folder, 1)][rng.integers(4)]
            ctx.raises(lambda: do_mpc.data.save_results(*a), 'wrong-argument', 'arguments %s' % (a[1:],))
        ctx.count['faults'] += 1
        after = listing(root)
        ctx.check(all(after.get(f) == h for f, h in before.items()), 'kept', 'a failed save changed existing files')
    do_mpc.data.save_results([O.mpc, O.simulator], 'run', folder)
    after = listing(root)
    ctx.check(all(after.get(f) == h for f, h in before.items()), 'kept', 'saving after a failure changed existing files')
    ctx.sig, ctx.desc = [O.S.sig(), int(how)], O.S.describe()
    ctx.nontrivial = True


def many_case(ctx, do_mpc, root):
    """long series of results under one name: tens, hundreds or a thousand earlier files"""
    rng = ctx.rng
    m = do_mpc.model.Model('discrete')
    x = m.set_variable('_x', 'x')
    m.set_rhs('x', 0.5 * x + 1)
    m.setup()
    sim = do_mpc.simulator.Simulator(m)
    sim.set_param(t_step=1.0)
    sim.setup()
    folder = os.path.join(root, 'res') + '/'
    os.makedirs(folder)
    ext, name = '.pkl', ['run', 'results', '009_run', 'x10', 'Long_Name_' * 6, 'R'][rng.integers(6)]
    pre = int(rng.choice([0, 7, 8, 9, 10, 18, 97, 98, 99, 100, 108, 997, 998, 999, 1000, 1008]))
    gap = set(int(v) for v in rng.integers(1, pre + 2, size=int(rng.integers(0, 3)))) if rng.random() < 0.5 else set()
    for i in range(pre + (pre > 0)):
        if i not in gap:
            with open(folder + ('%s%s' % (name, ext) if i == 0 else '%03d_%s%s' % (i, name, ext)), 'wb') as f:
                f.write(b'%d' % i)
    ns = 14 if pre < 50 else 5
    want = {}
    for k in range(ns):
        sim.make_step()
        before = listing(root)
        do_mpc.data.save_results([sim], name, folder)
        after = listing(root)
        new = [f for f in after if f not in before and not f.endswith('/')]
        changed = [f for f in before if after.get(f) != before[f]]
        ctx.check(not changed and len(new) == 1, 'kept', 'save number %d after %d earlier files: changed %s, new %s' % (k + 1, len(before) - 1, changed, new))
        ctx.count['saves'] += 1
        ctx.count['renamed'] += len(before) > 1
        ctx.count['long_runs'] += len(before) > 8
        if new:
            want[new[0]] = np.array(sim.data['_x']).copy()
    for f, v in want.items():
        got = do_mpc.data.load_results(os.path.join(root, f))['simulator']['_x']
        ctx.count['loads'] += 1
        ctx.check(np.array_equal(got, v), 'many-content', '%s does not hold the results at the time of saving' % f)
    ctx.sig, ctx.desc = [name, pre, sorted(gap)], dict(name=name, earlier=pre, gaps=sorted(gap))
    ctx.nontrivial = True


def fresh_case(ctx, do_mpc, root):
    """files are loaded in another interpreter"""
    saved = save_case(ctx, do_mpc, root, nops=8)
    want = {os.path.join(root, f): w for f, w in saved.items()}
    pickle.dump({f: {k: (v[1], v[2]) for k, v in w.items()} for f, w in want.items()}, open(os.path.join(root, 'ask'), 'wb'))
    code = ('import sys,pickle;sys.path[:0]=%r\nimport do_mpc\nfrom checks.p13 import snap\nask=pickle.load(open(%r,"rb"))\nout={}\n'
            'for f,w in ask.items():\n  got=do_mpc.data.load_results(f)\n  out[f]={k:snap(got[k],*v) for k,v in w.items()}\npickle.dump(out,open(%r,"wb"))\n'
            % ([core.REPO, core.ROOT], os.path.join(root, 'ask'), os.path.join(root, 'out')))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    if ctx.check(p.returncode == 0, 'fresh-load', 'loading in a fresh interpreter failed: %s' % p.stdout[-600:]):
        out = pickle.load(open(os.path.join(root, 'out'), 'rb'))
        for f in want:
            for k in want[f]:
                same(ctx, want[f][k][0], out[f][k], 'fresh interpreter, %s' % k)
                ctx.count['fresh_loads'] += 1


if __name__ == '__main__':
    core.main('checks.p13')
