"""P10: MHE uses the recent measurement window and returns the newest state (online monitor + exactness runs)."""
import numpy as np
import casadi as ca
from vf import core, mheref, ocp
from vf.models import as_input, gen_spec, rvals, rterms, _size
from checks.p07 import Recorder, optimum

ID = 'P10'
CASES = {'quick': [('loop', 330), ('life', 150), ('bounds', 120), ('yfun', 90), ('rough', 140), ('exact', 210)],
         'thorough': [('loop', 2500), ('life', 1000), ('bounds', 800), ('yfun', 500), ('rough', 800), ('exact', 1500)]}
RULE = ('random estimators driven through random histories (measurements in all accepted forms, exchanged functions, resets, changed time, arrival point, bounds, own '
        'measurement functions); a monitor at the solver boundary compares the measurement window, arrival values, parameters, bounds, time and returned state of every '
        'step with its own shadow and checks each reported optimum against the independent estimation problem; exact runs feed noise-free measurements and compare with the '
        'true states and parameters; rough runs stop the solver after a few iterations; distinct by (configuration, operations); non-trivial = at least two monitored steps')
ASSUMPTIONS = ['until the window is full it is padded at the front with the oldest measurement (default measurement function)', 'ipopt success flag; residual 1e-5, stationarity 2e-3 relative']
NEED = {'steps': 900, 'optima_checked': 300, 'exact_states': 150, 'windows_full': 200, 'bound_edits': 20}
MAX_INCONCLUSIVE = 0.3


def gen(rng, kind):
    S = gen_spec(rng, meas=0, nx=int(rng.integers(1, 3)), aux=int(rng.integers(0, 2)), np_=int(rng.integers(0, 3)), noise=bool(rng.random() < 0.7))
    allr = S.refs('_x', '_z', '_tvp', '_p')
    S.meas = [('y%d' % i, [[(1.0, 'id', [S.refs('_x')[rng.integers(S.n('_x'))]])] + rterms(rng, allr, n=1, ops=['sin', 'tanh', 'id'], const=0) for _ in range(int(rng.integers(1, 3)))], True)
              for i in range(int(rng.integers(1, 3)))]
    for i, r in enumerate(S.refs('_u')):
        if rng.random() < 0.8:
            S.meas.insert(int(rng.integers(0, len(S.meas) + 1)), ('um%d' % i, [[(1.0, 'id', [r])]], bool(rng.random() < 0.4)))
    c = mheref.gen_mhe_cfg(rng, S, max_N=5)
    c.deg = min(c.deg, 2)
    if c.custom:
        nV, nW, nX = S.n_v(), S.n_w(), S.n('_x')
        wv = [('_w', None, i) for i in range(nW)] + [('_v', None, i) for i in range(nV)]
        c.stage = [(1.0 + i, 'sq', [r]) for i, r in enumerate(wv)] + rterms(rng, wv + S.refs('_tvp', '_p'), n=1, ops=['sin', 'gauss'])
        c.arr = []
        for t, q, n in (('_x', '_xprev', nX), ('_pest', '_pprev', c.nP)):
            for i in range(n):
                c.arr += [(1.0, 'sq', [(t, None, i)]), (-2.0, 'prod', [(t, None, i), (q, None, i)]), (1.0, 'sq', [(q, None, i)])]
    for k in c.cons:
        k['terms'] = [rterms(rng, S.refs('_x', '_u', '_z', '_p'), n=2, ops=['sin', 'tanh', 'gauss']) for _ in k['terms']]
        k['ub'] = abs(k['ub']) + 0.7
    for r in S.refs('_u'):
        c.bounds.setdefault(r, (-6.0, 6.0))
        c.bounds[r] = tuple(b if np.isfinite(b) else s * 6.0 for b, s in zip(c.bounds[r], (-1, 1)))
    return S, c


class Shadow:
    def __init__(self, rng, S, c):
        self.rng, self.S, self.c = rng, S, c
        self.t = 0.0
        self.y = []
        self.live = bool(rng.random() < 0.5)        # the functions handed over follow later changes of the values
        self.new_tvp(); self.new_p()
        self.ymode = None

    def new_tvp(self):
        a, b = self.rng.normal(size=(self.c.N + 1, self.S.n('_tvp'))) * 0.5, self.rng.normal()
        self.tvp = lambda t: a + np.sin(b * t) * 0.3

    def new_p(self):
        a, b = self.rng.normal(size=self.S.n('_p') - self.c.nP) * 0.5, self.rng.normal()
        self.p = lambda t: a + np.cos(b * t) * 0.2

    def window(self):
        N = self.c.N
        if self.ymode is not None:
            return self.ymode(self.t)
        last = self.y[-N:]
        return np.array([last[0]] * (N - len(last)) + last)

    def install(self, mhe, which='tpy'):
        rng, S = self.rng, self.S
        f = lambda t: float(np.ravel(t)[0])
        if 't' in which and S.n('_tvp'):
            keep, tvp = mhe.get_tvp_template() if rng.random() < 0.5 else None, (lambda t: self.tvp(t)) if self.live else self.tvp

            def tvp_fun(t):
                tpl = keep if keep is not None else mhe.get_tvp_template()
                for k, v in enumerate(tvp(f(t))):
                    tpl['_tvp', k] = v
                return tpl
            mhe.set_tvp_fun(tvp_fun)
        if 'p' in which and S.n('_p') - self.c.nP:
            keepp, p = mhe.get_p_template() if rng.random() < 0.5 else None, (lambda t: self.p(t)) if self.live else self.p

            def p_fun(t):
                tpl = keepp if keepp is not None else mhe.get_p_template()
                tpl.master = ca.DM(p(f(t)))
                return tpl
            mhe.set_p_fun(p_fun)
        if 'y' in which and self.ymode is not None:
            ym = self.ymode

            def y_fun(t):
                tpl = mhe.get_y_template()
                for k, v in enumerate(ym(f(t))):
                    tpl['y_meas', k] = v
                return tpl
            mhe.set_y_fun(y_fun)


def give_y(rng, m, y):
    return as_input(rng, y, m._y, flat=True)


def _flat(v):
    return [w for q in v for w in _flat(q)] if isinstance(v, list) else [v]


def pids(mhe):
    fp = mhe.opt_p.f
    return lambda *ind: [int(i) for i in np.array(fp[ind if len(ind) > 1 else ind[0]]).ravel()]


def check_step(ctx, S, c, mhe, R, W, ret, rec, xprev, pprev, judge=True):
    ctx.count['steps'] += 1
    if not ctx.check(len(rec.calls) == 1, 'one-solve', '%d solver calls in one step' % len(rec.calls)):
        return None
    k = rec.calls.pop()
    P, pid = k['p'], pids(mhe)
    win = W.window()
    ctx.count['windows_full'] += len(W.y) >= c.N
    ctx.close(np.array([P[pid('_y_meas', j)] for j in range(c.N)]), win, 'window', 'measurement window')
    ctx.close(P[pid('_x_prev')], xprev, 'arrival-state', 'arrival state', rtol=1e-9)
    if c.nP:
        ctx.close(P[pid('_p_est_prev')], pprev, 'arrival-parameter', 'arrival parameters', rtol=1e-9)
    if S.n('_p') - c.nP:
        ctx.close(P[pid('_p_set')], W.p(W.t), 'p-set', 'given parameters')
    if S.n('_tvp'):
        ctx.close(np.array([P[pid('_tvp', j)] for j in range(c.N)]), W.tvp(W.t)[:c.N], 'p-tvp', 'time-varying parameters')
    for i, (l, u) in R.bound_pts.items():
        if not (np.isclose(k['lbx'][i], l, rtol=1e-9, atol=1e-12) or k['lbx'][i] == l) or not (np.isclose(k['ubx'][i], u, rtol=1e-9, atol=1e-12) or k['ubx'][i] == u):
            ctx.check(False, 'bounds-in-force', 'solver got [%g, %g] for %s, bounds in force are [%g, %g] (scaled)' % (k['lbx'][i], k['ubx'][i], mhe.opt_x.labels()[i], l, u))
            break
    x = k['r']['x']
    fx = mhe.opt_x.f
    ids = lambda *ind: [int(i) for i in np.array(fx[ind if len(ind) > 1 else ind[0]]).ravel()]
    xn = x[ids('_x', c.N, -1)] * ocp.scale_vec(c, S, '_x')
    ctx.close(np.ravel(ret), xn, 'returned-state', 'returned estimate against the newest state of the solution', rtol=1e-10)
    ctx.check(np.shape(ret) == (S.n('_x'), 1), 'returned-shape', 'shape %s' % (np.shape(ret),))
    ctx.close(np.array(mhe.x0.cat).ravel(), xn, 'x0-kept', 'stored state', rtol=1e-10)
    if S.n('_u'):
        ctx.close(np.array(mhe.u0.cat).ravel(), x[ids('_u', c.N - 1)] * ocp.scale_vec(c, S, '_u'), 'u0-kept', 'stored input', rtol=1e-10)
    nxt_p = None
    if c.nP:
        nxt_p = x[ids('_p_est')] * mheref.pest_scale(c, S)
        ctx.close(np.array(mhe.p_est0.cat).ravel(), nxt_p, 'pest-kept', 'stored parameters', rtol=1e-10)
    W.t += c.t_step
    ctx.close(np.ravel(mhe.t0) / c.t_step, W.t / c.t_step, 'time', 'time after the step', rtol=1e-9, atol=1e-9)
    if judge and k['stats']['return_status'] == 'Solve_Succeeded':
        optimum(ctx, S, c, mhe, R, x, P, k)
    elif k['stats']['return_status'] != 'Solve_Succeeded':
        ctx.count['unsolved_steps'] += 1
    k['xprev'] = x[ids('_x', 1, -1)] * ocp.scale_vec(c, S, '_x')
    k['pprev'] = nxt_p
    return k


def edit_bounds(ctx, rng, S, c, mhe):
    t = str(rng.choice(['_x', '_u'] + (['_z'] if S.n('_z') else []) + (['_p_est'] if c.nP else [])))
    side = int(rng.integers(2))
    v = round(float(rng.uniform(1.5, 6)), 3) * (1 if side else -1)
    sd = 'upper' if side else 'lower'
    if t == '_p_est':
        n, s = [(n, s) for n, s in S.vars['_p'] if n in c.p_est][0]
        i = int(rng.integers(_size(s)))
        mhe.bounds[(sd, '_p_est', n) + (() if _size(s) == 1 else (i,))] = v
        old = c.pbounds.get((n, i), (-np.inf, np.inf))
        c.pbounds[n, i] = (old[0], v) if side else (v, old[1])
    else:
        rs = S.refs(t)
        r = rs[rng.integers(len(rs))]
        ocp.set_by_ref(mhe.bounds, (sd, t), S, r, v)
        old = c.bounds.get(r, (-np.inf, np.inf))
        c.bounds[r] = (old[0], v) if side else (v, old[1])
    ctx.count['bound_edits'] += 1


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    if kind == 'exact':
        return exact(ctx, do_mpc)
    S, c = gen(rng, kind)
    for _ in range(20):
        if kind != 'rough' or c.nP:
            break
        S, c = gen(rng, kind)
    m = S.build(do_mpc, rng)
    W = Shadow(rng, S, c)
    ny = sum(len(t) for _, t, _ in S.meas)
    if kind == 'yfun':
        base, fr = rng.normal(size=(c.N, ny)) * 0.5, rng.normal()
        W.ymode = lambda t: base + 0.3 * np.sin(fr * t)
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': int(rng.integers(1, 7)) if kind == 'rough' else 150}), 'meas_from_data': kind != 'yfun'})
    W.install(mhe)
    ocp.finish(mhe, c)
    R = mheref.RefMHE(S, c, mhe)
    mhe.S = rec = Recorder(mhe.S)
    xprev, pprev = rvals(rng, S, '_x'), rng.normal(size=c.nP) * 0.3

    def arrival():
        mhe.x0 = xprev
        if c.nP:
            mhe.p_est0 = pprev
        mhe.set_initial_guess()
        g = np.array(mhe.opt_x_num.cat).ravel()
        fx = mhe.opt_x.f
        guess = [('_x', (slice(None), slice(None)), xprev / ocp.scale_vec(c, S, '_x'))]
        if c.nP:
            guess.append(('_p_est', (), pprev / mheref.pest_scale(c, S)))
        for key, ind, v in guess:
            idx = np.array([np.ravel(q) for q in _flat(fx[(key,) + ind] if ind else fx[key])], int).reshape(-1, v.size)
            ctx.close(g[idx], np.tile(v, (idx.shape[0], 1)), 'initial-guess', 'initial guess of %s' % key, rtol=1e-9)
    arrival()
    if rng.random() < 0.4:
        W.t = round(float(rng.uniform(0, 5)), 2)
        mhe.t0 = W.t
    nsteps = int(rng.integers(3, c.N + 4))
    if c.N <= 4 and kind in ('loop', 'life') and rng.random() < 0.12:
        nsteps = int(rng.integers(4 * c.N, 5 * c.N + 12))
        ctx.count['long_histories'] += 1
    hist, nrec = [], 0
    sx = ocp.scale_vec(c, S, '_x')
    for j in range(nsteps):
        if kind == 'life' and j and rng.random() < 0.6:
            op = rng.random()
            if op < 0.25:
                mhe.reset_history(); W.t = 0.0; W.y = []; nrec = 0
                hist.append('reset')
            elif op < 0.4:
                again = rng.random() < 0.4
                W.t = tlast if again else round(float(rng.uniform(0, 5)), 2)
                if again or rng.random() < 0.3:
                    # other values at the same time
                    W.new_tvp(); W.new_p()
                    if not W.live:
                        W.install(mhe, 'tp')
                mhe.t0 = [W.t, np.array([W.t]), ca.DM(W.t)][rng.integers(3)]
                hist.append('t0')
            elif op < 0.6:
                W.new_tvp(); W.new_p()
                if not W.live or rng.random() < 0.5:
                    W.install(mhe, 'tp')
                hist.append('funs')
            elif op < 0.8 or not c.nP:
                xprev, pprev = rvals(rng, S, '_x'), rng.normal(size=c.nP) * 0.3
                arrival()
                hist.append('guess')
            else:
                pprev = rng.normal(size=c.nP) * 0.3
                mhe.p_est0 = pprev
                hist.append('p_est0')
        if kind == 'bounds' and j and rng.random() < 0.7:
            edit_bounds(ctx, rng, S, c, mhe)
            R = mheref.RefMHE(S, c, mhe)
            hist.append('bound')
        y = np.round(rng.normal(size=ny) * 0.5, 3)
        W.y.append(y)
        hist.append('s')
        arg = give_y(rng, m, y)
        keep = np.array(arg.cat if hasattr(arg, 'cat') else arg).copy()
        tlast = W.t
        ret = mhe.make_step(arg)
        ctx.check(np.array_equal(keep, np.array(arg.cat if hasattr(arg, 'cat') else arg)), 'argument-changed', 'the measurement passed in was changed')
        k = check_step(ctx, S, c, mhe, R, W, ret, rec, xprev, pprev)
        nrec += 1
        if k is None or len(ctx.violations) > 3:
            break
        ctx.check(mhe.data['_time'].shape[0] == nrec and mhe.data._y.shape[0] == nrec, 'recorded-once', 'record length %d' % mhe.data['_time'].shape[0])
        ctx.close(mhe.data._y[-1], y, 'recorded-measurement', 'recorded measurement')
        xprev, pprev = k['xprev'], k['pprev']
    ctx.sig, ctx.desc = [mheref.sig_cfg(c, S), hist], dict(mheref.desc_cfg(c, S), history=hist)
    ctx.nontrivial = ctx.count['steps'] >= 2


def exact(ctx, do_mpc):
    """noise-free measurements of an observable system with a consistent (or unweighted) arrival point"""
    rng = ctx.rng
    mode = str(rng.choice(['N1', 'yfun', 'steady', 'free']))
    S = gen_spec(rng, mtype='discrete', nz=int(rng.integers(0, 2)), nx=int(rng.integers(1, 3)), np_=int(rng.integers(0, 2)), aux=0, meas=0, noise=bool(rng.random() < 0.6))
    ny_x = S.refs('_x')
    S.meas = [('y', [[(1.0, 'id', [r])] + ([(0.2, 'tanh', [ny_x[0]])] if rng.random() < .5 else []) for r in ny_x], True)] + [('um', [[(1.0, 'id', [r])] for r in S.refs('_u')], False)]
    c = mheref.gen_mhe_cfg(rng, S, nl=0, custom=False, max_N=5)
    c.tvpw = c.pw = None
    c.bounds, c.pbounds = {}, {}
    if rng.random() < 0.5:
        c.bounds = {r: (-40.0, 40.0) for r in S.refs('_x')}
    if mode == 'N1':
        c.N = 1
    c.N = max(c.N, 3) if mode == 'free' else c.N
    if mode == 'free':
        c.p_est, c.nP, c.Pp = [], 0, np.zeros((0, 0))
        c.scale = {k: v for k, v in c.scale.items() if k[0] != '_p_est'}
        c.Px = np.zeros_like(c.Px)
    m = S.build(do_mpc, rng)
    W = Shadow(rng, S, c)
    ptrue = rng.normal(size=S.n('_p')) * 0.4
    off, o = {}, 0
    for n, s in S.vars['_p']:
        off[n] = list(range(o, o + _size(s))); o += _size(s)
    est = [i for n, _ in S.vars['_p'] if n in c.p_est for i in off[n]]
    fix = [i for i in range(S.n('_p')) if i not in est]
    W.p = lambda t: ptrue[fix]
    steps = c.N + 3
    tv = rng.normal(size=S.n('_tvp')) * 0.3            # constant over the run
    W.tvp = lambda t: np.tile(tv, (c.N + 1, 1))
    # true trajectory
    nX, nU = S.n('_x'), S.n('_u')
    X, U, Y = [rvals(rng, S, '_x')], [], []
    if mode == 'steady':
        u = rvals(rng, S, '_u', 0.5)
        x = X[0]
        for _ in range(3000):
            xn = S.f_rhs(x, u, S.solve_z(x, u, tv, ptrue), tv, ptrue)
            d, x = np.abs(xn - x).max(), xn
            if d < 1e-14:
                break
        if not np.all(np.isfinite(x)) or d > 1e-12 or np.abs(x).max() > 20:
            raise core.Inconclusive('no steady state')
        X = [x]
    T = steps + c.N + 1
    for k in range(T):
        u = u if mode == 'steady' else rvals(rng, S, '_u', 0.7)
        z = S.solve_z(X[-1], u, tv, ptrue)
        x = S.f_rhs(X[-1], u, z, tv, ptrue)
        if np.abs(x).max() > 20:
            raise core.Inconclusive('trajectory left the working range')
        X.append(x); U.append(u); Y.append(S.f_meas(x, u, z, tv, ptrue))
    t_idx = {}
    if mode == 'yfun':
        W.ymode = lambda t: np.array(Y)[int(round(t / c.t_step)):int(round(t / c.t_step)) + c.N]
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 300, 'ipopt.tol': 1e-11, 'ipopt.acceptable_tol': 1e-11}), 'meas_from_data': mode != 'yfun'})
    W.install(mhe)
    ocp.finish(mhe, c)
    mhe.x0 = X[0] if mode != 'free' else rvals(rng, S, '_x')
    if c.nP:
        mhe.p_est0 = ptrue[est]
    mhe.u0 = U[0]
    mhe.set_initial_guess()
    for k in range(steps):
        newest = k + c.N - 1 if mode == 'yfun' else k
        ret = np.ravel(mhe.make_step(Y[newest].reshape(-1, 1)))
        if not mhe.solver_stats['success']:
            raise core.Inconclusive('solver: %s' % mhe.solver_stats['return_status'])
        if mode == 'free' and k < c.N - 1:
            continue
        if k == 0 or mode == 'free':
            F = ca.Function('F', [mhe.nlp['x'], mhe.nlp['p']], [mhe.nlp['f'], mhe.nlp['g']])
        f = float(F(mhe.opt_x_num.cat, mhe.opt_p_num.cat)[0])
        if f > 1e-9:
            # only a local solution may leave a cost: the true trajectory fits the data exactly
            T = mhe.opt_x(0)
            sx, su, sz = (ocp.scale_vec(c, S, t) for t in ('_x', '_u', '_z'))
            first = newest - c.N + 1
            for j in range(c.N + 1):
                T['_x', j, -1] = X[max(first + j, 0)] / sx
                if j < c.N:
                    q = max(first + j, 0)
                    T['_u', j] = U[q] / su
                    if S.n('_z'):
                        T['_z', j, 0] = S.solve_z(X[q], U[q], tv, ptrue) / sz
            if c.nP:
                T['_p_est'] = ptrue[est] / mheref.pest_scale(c, S)
            f0, g0 = F(T.cat, mhe.opt_p_num.cat)
            lb, ub = np.array(ca.DM(mhe.nlp_cons_lb)).ravel(), np.array(ca.DM(mhe.nlp_cons_ub)).ravel()
            g0 = np.array(g0).ravel()
            ctx.check(np.maximum(lb - g0, g0 - ub).max() < 1e-7, 'exact-feasible', 'the true trajectory violates the estimation problem (%s)' % mode)
            ctx.check(float(f0) < 1e-7, 'exact-cost', 'the true trajectory costs %.3g (%s)' % (float(f0), mode))
            ctx.count['local_solutions'] += 1
            break
        ctx.count['exact_states'] += 1
        ctx.close(ret, X[newest + 1], 'exact-state', 'noise-free estimate (%s, step %d)' % (mode, k), rtol=2e-5, atol=2e-6)
        if c.nP:
            ctx.close(np.array(mhe.p_est0.cat).ravel(), ptrue[est], 'exact-parameter', 'noise-free parameter estimate (%s)' % mode, rtol=2e-5, atol=2e-6)
        if len(ctx.violations) > 2:
            break
    ctx.sig, ctx.desc = ['exact', mode, mheref.sig_cfg(c, S)], dict(mheref.desc_cfg(c, S), mode=mode)
    ctx.nontrivial = True


if __name__ == '__main__':
    core.main('checks.p10')
