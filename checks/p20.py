"""P20: lines of graphics objects against a shadow record; animations; indexed containers."""
import os
import shutil
import tempfile
import numpy as np
from vf import core, ocp
from vf.models import gen_spec, rvals, _size
from checks import p12

ID = 'P20'
CASES = {'quick': [('plot', 330), ('tree', 130), ('other', 170), ('nested', 4000)],
         'thorough': [('plot', 8000), ('tree', 3000), ('other', 5000), ('nested', 100000)]}
RULE = ('graphics objects get random subsets of lines at random moments (before the first step, between steps, after resets) of random controllers (with and without scenario trees and stored solutions), '
        'simulators and bare data objects, live, unpickled or on default plots; after every plotting call all line data are compared with a shadow record written at the solver boundary; line queries with '
        'partial, full and sliced indices must return those line objects; animations are rendered through a recording writer, every frame is compared; nested containers are compared with a reference '
        'on random entries and queries; distinct by (configuration, history)')
ASSUMPTIONS = ['the same variable is not added twice to one graphics object', 'prediction lines are defined after plot_predictions', 'a sliced query returns one (possibly empty) list per known feature of that level',
               'a plotting call is not refused for a time index equal to the number of records (nothing beyond the record exists)']
NEED = {'lines_checked': 4000, 'pred_lines_checked': 3000, 'plots_at_index': 500, 'queries': 2500, 'refused': 400, 'frames': 300, 'default_plots': 60, 'loaded': 20, 'nested_queries': 20000, 'ragged_queries': 2000}
MAX_INCONCLUSIVE = 0.3
TYPES = ['_x', '_u', '_z', '_tvp', '_p', '_aux']


def run_case(kind, idx, ctx):
    import do_mpc
    import matplotlib.pyplot as plt
    try:
        return {'plot': plot_case, 'tree': plot_case, 'other': other_case, 'nested': nested_case}[kind](ctx, do_mpc, kind)
    finally:
        plt.close('all')


class Plots:
    """one graphics object and what its lines must show"""

    def __init__(self, ctx, do_mpc, S, L, data, R=None, t_step=None, full=True):
        import matplotlib.pyplot as plt
        self.ctx, self.rng, self.S, self.L, self.data, self.R, self.h, self.full = ctx, ctx.rng, S, L, data, R, t_step, full
        self.d = do_mpc
        self.fig, self.ax = plt.subplots(3)
        self.g = do_mpc.graphics.Graphics(data)
        self.lines = {}      # (type, name, i) -> line
        self.pred = {}       # (type, name, i, scenario) -> line
        self.res_at = {}     # what is shown: entry -> (x, y)
        self.pred_at = None

    def cols(self, t):
        o, out = 1 if t == '_aux' else 0, {}
        for n, s in p12.names_of(self.S, t):
            out[n] = list(range(o, o + _size(s)))
            o += _size(s)
        return out

    def free(self):
        return [(t, n) for t in TYPES for n in self.cols(t) if (t, n, 0) not in self.lines]

    def adopt(self, axis_lines, t, n):
        """the lines which appeared on the axis"""
        k = len(self.cols(t)[n])
        sc = len(self.R.scenarios(t)) if self.R and self.full else 0
        if not self.ctx.check(len(axis_lines) == k * (1 + sc), 'number-of-lines', 'line of %s,%s with %d elements and %d scenarios adds %d line objects' % (t, n, k, sc, len(axis_lines))):
            return False
        for i in range(k):
            self.lines[t, n, i] = axis_lines[i]
        it = iter(axis_lines[k:])
        for i in range(k):
            for s in range(sc):
                self.pred[t, n, i, s] = next(it)
        self.show([(t, n, i) for i in range(k)], None)
        return True

    def add(self):
        fr = self.free()
        if not fr:
            return
        t, n = fr[self.rng.integers(len(fr))]
        a = self.ax[self.rng.integers(3)]
        before = len(a.lines)
        kw = [{}, {'linewidth': 2.0}, {'color': 'red'}, {'alpha': .5, 'linestyle': ':'}][self.rng.integers(4)]
        self.g.add_line(t, n, a, **kw)
        if self.adopt(list(a.lines)[before:], t, n):
            for i in range(len(self.cols(t)[n])):
                l = self.lines[t, n, i]
                for k, v in kw.items():
                    self.ctx.check(getattr(l, 'get_' + k)() == v, 'line-style', 'line property %s' % k)
        self.ctx.count['added'] += 1
        self.compare('after adding %s,%s' % (t, n))

    def show(self, entries, ti):
        n = len(self.L.rows['_time'])
        k = n if ti is None or ti == -1 else (ti + 1 if ti >= 0 else n + ti + 1)
        for t, nm, i in entries:
            self.res_at[t, nm, i] = (self.L.want('_time')[:k, 0], self.L.want(t)[:k, self.cols(t)[nm][i]])

    def results(self, ti=None):
        if ti is None:
            self.g.plot_results()
        else:
            self.g.plot_results(t_ind=ti)
        self.show(self.lines, ti)
        self.ctx.count['plots_at_index'] += ti is not None
        self.compare('after plot_results(%s)' % ti)

    def predict(self, ti):
        t0 = self.L.want('_time')[ti, 0]
        self.pred_at = {}
        for t, n, i, s in self.pred:
            y = self.R.prediction(t, self.cols(t)[n], ti)[i, :, s]
            self.pred_at[t, n, i, s] = (t0 + self.h * np.arange(len(y)), y)

    def predictions(self, ti=None):
        if ti is None:
            self.g.plot_predictions()
        else:
            self.g.plot_predictions(t_ind=ti)
        self.predict(-1 if ti is None else ti)
        self.compare('after plot_predictions(%s)' % ti)

    def compare(self, what):
        c = self.ctx
        for k, l in self.lines.items():
            x, y = self.res_at[k]
            c.count['lines_checked'] += 1
            gx, gy = np.ravel(l.get_xdata()), np.ravel(l.get_ydata())
            if c.check(len(gx) == len(x) and len(gy) == len(y), 'line-length', '%s: result line %s has %d, %d points instead of %d' % (what, k, len(gx), len(gy), len(x))):
                c.close(gx, x, 'line-time', '%s: time of result line %s' % (what, k))
                c.close(gy, y, 'line-data', '%s: data of result line %s' % (what, k))
        if self.pred_at is not None:
            for k, (x, y) in self.pred_at.items():
                l = self.pred[k]
                c.count['pred_lines_checked'] += 1
                gx, gy = np.ravel(l.get_xdata()), np.ravel(l.get_ydata())
                if c.check(len(gx) == len(x) and len(gy) == len(y), 'prediction-length', '%s: prediction line %s has %d, %d points instead of %d' % (what, k, len(gx), len(gy), len(x))):
                    c.close(gx, x, 'prediction-time', '%s: time of prediction line %s' % (what, k))
                    c.close(gy, y, 'prediction-data', '%s: data of prediction line %s' % (what, k), rtol=1e-8)

    def query(self):
        """line queries return exactly the lines of that index"""
        for st, ref in ((self.g.result_lines, self.lines), (self.g.pred_lines, self.pred)):
            if not self.ctx.check(len(st.full) == len(ref) and set(map(id, st.full)) == set(map(id, ref.values())), 'all-lines', 'full does not return all lines'):
                continue
            keys = list(ref)
            if not keys:
                continue
            for _ in range(3):
                k = keys[self.rng.integers(len(keys))]
                m = int(self.rng.integers(1, len(k) + 1))
                q = k[:m]
                want = [ref[j] for j in keys if j[:m] == q]
                got = st[q if m > 1 or self.rng.random() < .5 else q[0]]
                if m > 1 and self.rng.random() < .4:
                    # same with a slice at one position: flattened
                    p = int(self.rng.integers(m))
                    q2 = q[:p] + (slice(None),) + q[p + 1:]
                    got = flat(st[q2])
                    want = [ref[j] for j in keys if j[:p] == q[:p] and j[p + 1:m] == q[p + 1:]]
                    q = q2
                self.ctx.count['queries'] += 1
                self.ctx.check(sorted(map(id, got)) == sorted(map(id, want)), 'line-query', 'query %s returns %d lines instead of %d, or others' % (q, len(got), len(want)))

    def refused(self):
        """bad calls: error, nothing changes"""
        n = len(self.L.rows['_time'])
        r = self.rng.integers(6)
        bad = [n + 1 + int(self.rng.integers(3)), -n - 1 - int(self.rng.integers(3)), 1.0, None][self.rng.integers(4)]
        if r == 0:
            self.ctx.raises(lambda: self.g.plot_results(t_ind=bad), 'bad-index', 'plot_results(%s) with %d records' % (bad, n))
        elif r == 1:
            self.ctx.raises(lambda: self.g.plot_predictions(t_ind=bad), 'bad-index', 'plot_predictions(%s) with %d records' % (bad, n))
        elif r == 2:
            self.ctx.raises(lambda: self.g.add_line('_x', 'no such name', self.ax[0]), 'bad-name', 'line of an unknown name')
        elif r == 3:
            self.ctx.raises(lambda: self.g.add_line('_w', 'x', self.ax[0]), 'bad-type', 'line of an unknown type')
        elif r == 4:
            fr = self.free()
            if fr:
                self.ctx.raises(lambda: self.g.add_line(*fr[0], axis=self.fig), 'bad-axis', 'line on something which is not an axis')
        elif not (self.R and self.full):
            self.ctx.raises(lambda: self.g.plot_predictions(), 'no-predictions', 'plot_predictions without stored predictions')
        self.ctx.count['refused'] += 1
        self.compare('after a refused call')

    def ops(self, n):
        for _ in range(n):
            k = len(self.L.rows['_time'])
            op = self.rng.random()
            if op < .3:
                self.add()
            elif op < .55:
                if k:
                    self.results(None if self.rng.random() < .4 else int(self.rng.integers(-k, k)))
            elif op < .8:
                if k and self.R and self.full:
                    self.predictions(None if self.rng.random() < .4 else int(self.rng.integers(-k, k)))
            elif op < .88:
                self.refused()
            elif op < .92:
                ks = list(self.lines)
                if ks:
                    k0 = ks[self.rng.integers(len(ks))]
                    self.g.clear(lines=self.g.result_lines[k0])
                    self.res_at[k0] = (np.zeros(0), np.zeros(0))
                    self.compare('after clear')
            else:
                self.query()

    def default(self):
        """a default plot of (a subset of) the variables"""
        import matplotlib.pyplot as plt
        c, rng = self.ctx, self.rng
        kw, names = {}, []
        for t, a in (('_x', 'states_list'), ('_z', 'dae_states_list'), ('_u', 'inputs_list'), ('_aux', 'aux_list')):
            ns = list(self.cols(t))
            if rng.random() < .5:
                sub = [n for n in ns if rng.random() < .6]
                sub = [sub[i] for i in rng.permutation(len(sub))]
                kw[a] = list(sub)
                ns = sub
            names += [(t, n) for n in ns]
        asked = {k: list(v) for k, v in kw.items()}
        if not names:
            return
        if rng.random() < .2:
            a = ['states_list', 'dae_states_list', 'inputs_list', 'aux_list'][rng.integers(4)]
            c.raises(lambda: self.d.graphics.default_plot(self.data, **{**kw, a: ['no such name']}), 'bad-default', 'default plot of an unknown name')
            c.count['refused'] += 1
        fig, ax, g = self.d.graphics.default_plot(self.data, **kw)
        c.count['default_plots'] += 1
        c.check(kw == asked, 'default-arguments', 'default_plot changes the lists passed to it')
        self.fig, self.g, self.lines, self.pred, self.res_at, self.pred_at = fig, g, {}, {}, {}, None
        if not c.check(len(ax) == len(names), 'default-axes', 'default plot has %d axes instead of %d' % (len(ax), len(names)), names=names):
            return
        self.ax = ax
        for a, (t, n) in zip(ax, names):
            self.adopt(list(a.lines), t, n)
        self.compare('default plot')
        self.query()

    def animate(self, tmp):
        from matplotlib.animation import AbstractMovieWriter
        me, rng, c = self, self.rng, self.ctx
        n = len(self.L.rows['_time'])
        if not n or not self.lines:
            return

        class Rec(AbstractMovieWriter):
            frames = None

            def setup(s, fig, outfile, dpi=None):
                s.out, s.frames = str(outfile), []
                with open(outfile, 'w') as f:
                    f.write('new')

            def grab_frame(s, **kw):
                s.frames.append({k: (np.ravel(l.get_xdata()).copy(), np.ravel(l.get_ydata()).copy()) for k, l in list(me.lines.items()) + list(me.pred.items())})

            def finish(s):
                pass

            def saving(s, fig, outfile, dpi, *a, **k):
                import contextlib

                @contextlib.contextmanager
                def cm():
                    s.setup(fig, outfile, dpi, *a, **k)
                    try:
                        yield s
                    finally:
                        s.finish()
                return cm()
        steps = None if rng.random() < .5 else int(rng.integers(1, n + 1))
        over = bool(rng.random() < .4)
        path = [tmp + '/', os.path.join(tmp, 'new', 'dir') + '/'][rng.integers(2)]
        name = ['anim.gif', 'anim.mp4', 'animation'][rng.integers(3)]
        taken = []
        if rng.random() < .6:
            os.makedirs(path, exist_ok=True)
            for f in (name, '001_' + name, '002_' + name)[:int(rng.integers(1, 4))]:
                with open(path + f, 'w') as h:
                    h.write('old')
                taken.append(path + f)
        w = Rec(fps=5)
        kw = {} if not over and rng.random() < .5 else {'overwrite': over}
        self.d.graphics.animate(self.g, self.fig, n_steps=steps, export_path=path, export_name=name, writer=w, **kw)
        c.count['animations'] += 1
        if not c.check(w.frames is not None and len(w.frames) == (n if steps is None else steps), 'frames', 'animation has %s frames instead of %s' % (w.frames and len(w.frames), steps or n)):
            return
        if over:
            c.check(os.path.realpath(w.out) == os.path.realpath(path + name), 'animation-name', 'animation written to %s' % w.out)
        for f in taken:
            if not (over and f == path + name):
                c.check(open(f).read() == 'old', 'overwritten', 'existing animation %s overwritten (overwrite=%s)' % (os.path.basename(f), over))
        c.check(os.path.basename(w.out).endswith(name), 'animation-name', 'animation %s written to %s' % (name, os.path.basename(w.out)))
        for i, f in enumerate(w.frames):
            c.count['frames'] += 1
            self.show(self.lines, i)
            want = dict(self.res_at)
            if self.pred:
                self.predict(i)
                want.update(self.pred_at)
            for k, (x, y) in want.items():
                gx, gy = f[k]
                if c.check(len(gx) == len(x) and len(gy) == len(y), 'frame-length', 'frame %d: line %s has %d points instead of %d' % (i, k, len(gx), len(x))):
                    c.close(gx, x, 'frame-time', 'frame %d: time of line %s' % (i, k))
                    c.close(gy, y, 'frame-data', 'frame %d: data of line %s' % (i, k), rtol=1e-8)
        self.results()
        if self.pred:
            self.predictions()


def flat(o):
    return [k for i in o for k in flat(i)] if isinstance(o, list) else [o]


def plot_case(ctx, do_mpc, kind):
    rng = ctx.rng
    full = kind == 'tree' or rng.random() < 0.8
    R = p12.MpcRun(ctx, do_mpc, 'tree' if kind == 'tree' else 'mpc', store_full=full, max_iter=5)
    L, W, S, mpc, c = R.L, R.W, R.S, R.mpc, R.c
    hist = []
    P = [Plots(ctx, do_mpc, S, L, mpc.data, R, c.t_step, full) for _ in range(int(rng.integers(1, 3)))]
    for p in P:
        p.ops(int(rng.integers(0, 4)))
    R.start()
    for j in range(int(rng.integers(1, 5)) if kind == 'plot' else int(rng.integers(1, 3))):
        op = rng.random()
        if j and op < 0.15:
            R.reset()
            hist.append('reset')
            for p in P:
                p.compare('after a reset of the history')
        elif op < 0.35:
            W.t = round(float(rng.uniform(0, 5)), 2)
            mpc.t0 = W.t
            hist.append('t0')
        elif op < 0.5:
            W.new_tvp(); W.new_p(); R.install()
            hist.append('funs')
        R.step()
        hist.append('s')
        for p in P:
            p.compare('after a step without plotting')
            p.ops(int(rng.integers(2, 7)))
        if len(ctx.violations) > 3:
            break
    finish(ctx, do_mpc, S, L, R, mpc.data, P, c.t_step, full, lambda d: do_mpc.data.save_results([mpc], result_name='r', result_path=d), 'mpc', hist)
    ctx.sig, ctx.desc = [ocp.sig_cfg(c, S), hist, full], dict(ocp.desc_cfg(c, S), history=hist, stored=full)
    ctx.nontrivial = ctx.count['lines_checked'] >= 2


def finish(ctx, do_mpc, S, L, R, data, P, h, full, save, name, hist):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix='vf20_')
    try:
        if rng.random() < .25 and not ctx.violations:
            save(tmp + '/')
            data = do_mpc.data.load_results(tmp + '/r.pkl')[name]
            p = Plots(ctx, do_mpc, S, L, data, R, h, full)
            for _ in range(3):
                p.add()
            p.ops(6)
            P.append(p)
            ctx.count['loaded'] += 1
            hist.append('load')
        if rng.random() < .5:
            p = Plots(ctx, do_mpc, S, L, data, R, h, full)
            for _ in range(int(rng.integers(1, 3))):
                p.default()
                p.results(-1)
                if R and full:
                    p.predictions(-1)
            P.append(p)
            hist.append('default')
        if rng.random() < .6:
            P[rng.integers(len(P))].animate(tmp)
            hist.append('animate')
    finally:
        shutil.rmtree(tmp)


def other_case(ctx, do_mpc, kind):
    """simulators and bare data objects"""
    rng = ctx.rng
    S = gen_spec(rng, nu=int(rng.choice([0, 1, 2])), noise=None)
    m = S.build(do_mpc, rng)
    dims = {'_time': 1, '_x': S.n('_x'), '_y': sum(len(q) for _, q, _ in S.meas_eff()), '_u': S.n('_u'), '_z': S.n('_z'), '_tvp': S.n('_tvp'), '_p': S.n('_p'), '_aux': 1 + sum(len(q) for _, q in S.aux)}
    d = do_mpc.data.Data(m)
    L = p12.Log(ctx, S, d, dims)
    P = [Plots(ctx, do_mpc, S, L, d)]
    hist, t = [], 0.0
    P[0].ops(2)
    for _ in range(int(rng.integers(1, 8))):
        if rng.random() < .1:
            d.init_storage(); L.reset()
            hist.append('reset')
        t = round(t + float(rng.uniform(0.1, 1)), 3)
        v = {f: np.round(rng.normal(size=n), 3) for f, n in dims.items()}
        v['_time'] = np.array([t])
        d.update(**v)
        L.add(**v)
        hist.append('r')
        P[0].ops(int(rng.integers(1, 5)))

    def save(path):
        sim = do_mpc.simulator.Simulator(m)
        sim.data = d
        do_mpc.data.save_results([sim], result_name='r', result_path=path)
    finish(ctx, do_mpc, S, L, None, d, P, None, False, save, 'simulator', hist)
    ctx.sig, ctx.desc = [S.sig(), hist, ctx.count['added']], dict(S.describe(), history=hist)
    ctx.nontrivial = ctx.count['lines_checked'] >= 2


def nested_case(ctx, do_mpc, kind):
    """nested container against a list of (index, value)"""
    from do_mpc.tools import Structure
    rng = ctx.rng
    s = Structure()
    ref, feats = [], []      # [(index, value)] in order of definition, features per level
    ragged = rng.random() < .5
    depth = int(rng.integers(1, 5))
    lv = [[['a', 'b', 'c'], ['x', 'y'], [0, 1, 2], [0, 1, 2, 3], ['q', 'a']][i] for i in rng.permutation(5)[:depth + 1]]
    counter = iter(range(10 ** 6))

    def put(ind, val):
        for i, (k, _) in enumerate(ref):
            if k == ind:
                ref[i] = (ind, val)
                return
        if isinstance(val, (list, tuple)):
            for i, v in enumerate(val):
                put(ind + (i,), v)
        elif isinstance(val, dict):
            for i, v in val.items():
                put(ind + (i,), v)
        else:
            ref.append((ind, val))
            for i, f in enumerate(ind):
                if len(feats) <= i:
                    feats.append([])
                if f not in feats[i]:
                    feats[i].append(f)

    def value(depth_left):
        r = rng.random()
        if depth_left <= 0 or r < .5:
            return 'v%d' % next(counter)
        if r < .75:
            return [value(depth_left - 1) for _ in range(int(rng.integers(1, 4)))]
        return {k: value(depth_left - 1) for k in ['k', 'l', 3][:int(rng.integers(1, 4))]}

    def want(ind, cand):
        for j, q in enumerate(ind):
            if isinstance(q, slice):
                return [want(ind[:j] + (f,) + ind[j + 1:], cand) for f in feats[j][q]]
            cand = [c for c in cand if len(c[0]) > j and c[0][j] == q]
        return [c[1] for c in cand]
    sig = []
    for _ in range(int(rng.integers(1, 9))):
        m = depth if not ragged else int(rng.integers(1, depth + 1))
        ind = tuple(lv[j][rng.integers(len(lv[j]))] for j in range(m))
        # an entry is not at the same time a container of others
        if any(k[:len(ind)] == ind and k != ind or ind[:len(k)] == k and k != ind for k, _ in ref):
            continue
        v = value(2 if rng.random() < .5 else 0)
        if any(k == ind for k, _ in ref):
            v = 'v%d' % next(counter)
        s[ind if len(ind) > 1 or rng.random() < .5 else ind[0]] = v
        put(ind, v)
        sig.append([str(i) for i in ind])
    ctx.check(list(s.full) == [v for _, v in ref], 'nested-full', 'full', got=s.full)
    ctx.check([tuple(k) for k in s.powerindex] == [k for k, _ in ref], 'nested-index', 'powerindex', got=s.powerindex)
    for _ in range(12):
        if not ref:
            break
        k = ref[rng.integers(len(ref))][0]
        m = int(rng.integers(1, len(feats) + 1)) if rng.random() < .3 else int(rng.integers(1, len(k) + 1))
        q = list(k[:m]) + [feats[j][rng.integers(len(feats[j]))] for j in range(len(k), m)]
        for j in range(len(q)):
            r = rng.random()
            if r < .25:
                n = len(feats[j])
                a, b = sorted(rng.integers(0, n + 1, 2))
                q[j] = [slice(None), slice(int(a), int(b)), slice(int(a), None), slice(None, None, -1), slice(-1, None)][rng.integers(5)]
            elif r < .35:
                q[j] = feats[j][rng.integers(len(feats[j]))] if rng.random() < .7 else 'unknown'
        q = tuple(q)
        ctx.count['nested_queries'] += 1
        ctx.count['ragged_queries'] += any(len(i) < len(q) for i, _ in ref)
        arg = q if len(q) > 1 or rng.random() < .5 else q[0]
        w = want(q, ref)
        got = s[arg]
        ctx.check(got == w, 'nested-query', 'query %s of %s' % (q, [i for i, _ in ref]), got=got, want=w)
        wi = want(q, [(k, i) for i, (k, _) in enumerate(ref)])
        gi = s.get_index[arg]
        ctx.check(gi == wi, 'nested-get-index', 'get_index %s of %s' % (q, [i for i, _ in ref]), got=gi, want=wi)
    ctx.sig, ctx.desc = [sig, ctx.seed % 1000], {'entries': len(ref), 'depth': depth, 'ragged': bool(ragged)}
    ctx.nontrivial = len(ref) >= 2


if __name__ == '__main__':
    core.main('checks.p20')
