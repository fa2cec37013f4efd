"""P12: recorded data are complete and faithful, queries return the right columns, predictions follow the scenarios."""
import numpy as np
import casadi as ca
from vf import core, ocp, mheref
from vf.models import as_input, gen_spec, gen_step, rvals, rterms, _size
from checks import p07, p10, p04

ID = 'P12'
CASES = {'quick': [('mpc', 480), ('tree', 480), ('mhe', 340), ('sim', 480), ('lqr', 100), ('data', 360), ('long', 16)],
         'thorough': [('mpc', 5000), ('tree', 5000), ('mhe', 4000), ('sim', 6000), ('lqr', 500), ('data', 2000), ('long', 300)]}
RULE = ('random controllers (including deep scenario trees and trees as long as the horizon), estimators, simulators, LQRs and bare data objects driven through random histories of steps, '
        'resets, time and state changes with queries and prediction queries interleaved in random order and repetition, some histories with up to 2600 steps; the whole record is compared with a shadow log written at the '
        'solver boundary, columns and predictions are computed from the shadow with independent variable and tree indexing; distinct by (configuration, history); non-trivial = at least '
        'two recorded steps with queries')
ASSUMPTIONS = ['the simulator records the algebraic state known at the beginning of the step (initial guess or result of the previous step)',
               'the MHE records the estimate of the previous step with the time of that step, algebraic state at the end of the newest interval',
               'StateFeedback and EKF keep no record', 'values at the solver boundary are taken as what the solver returned; _eps is not recorded']
NEED = {'steps': 700, 'rows': 2500, 'queries': 3000, 'predictions': 1200, 'scenario_paths': 5000, 'resets': 60, 'deep_trees': 15, 'long_steps': 3000}
MAX_INCONCLUSIVE = 0.3


class Log:
    """shadow of one data object"""

    def __init__(self, ctx, S, data, dims):
        self.ctx, self.S, self.data, self.dims = ctx, S, data, dims
        self.asked = []
        self.reset()

    def reset(self):
        self.rows = {k: [] for k in self.dims}

    def add(self, **kw):
        assert set(kw) == set(self.dims), (set(kw) ^ set(self.dims))
        for k, v in kw.items():
            self.rows[k].append(v if isinstance(v, str) else np.array(v, float).ravel())

    def want(self, f):
        r = self.rows[f]
        if r and isinstance(r[0], str):
            return np.array(r).reshape(-1, 1)
        return np.array(r, float).reshape(len(r), self.dims[f])

    def check(self, what):
        for f in self.dims:
            got, w = np.asarray(self.data[f]), self.want(f)
            self.ctx.count['rows'] += len(w)
            if not self.ctx.check(got.shape == w.shape, 'record-shape', '%s: record of %s has shape %s instead of %s' % (what, f, got.shape, w.shape)):
                continue
            if w.dtype.kind == 'U':
                self.ctx.check(np.array_equal(got, w), 'record' + f, '%s: record of %s' % (what, f), got=got, want=w)
            else:
                a = 1e-11
                if f == '_time' and len(w) > 1:
                    a = max(1e-16, 1e-9 * np.abs(np.diff(w[:, 0])).min())
                self.ctx.close(got, w, 'record' + f, '%s: record of %s' % (what, f), rtol=1e-9 if f != '_time' or np.abs(w).max(initial=0) > 1 else 1e-15, atol=a)

    def random_ref(self, rng, types):
        """(query tuple, column numbers) over the variables of the specification"""
        t = types[rng.integers(len(types))]
        vs = list(names_of(self.S, t))
        if not vs:
            return None
        off = {}
        o = 1 if t == '_aux' else 0
        for n, s in vs:
            off[n] = o
            o += _size(s)
        n, s = vs[rng.integers(len(vs))]
        k = _size(s)
        mat = isinstance(s, tuple) and len(s) == 2 and s[1] > 1
        how = rng.integers(5)
        if how == 0:
            return (t,), list(range(o))
        if how == 1 or (mat and how < 4):
            return (t, n), list(range(off[n], off[n] + k))
        if mat:
            i, j = int(rng.integers(s[0])), int(rng.integers(s[1]))
            return (t, n, i, j), [off[n] + i + j * s[0]]
        if how == 2 and k > 1:
            a = int(rng.integers(0, k - 1)); b = int(rng.integers(a + 1, k + 1))
            return (t, n, slice(a, b)), list(range(off[n] + a, off[n] + b))
        i = int(rng.integers(k))
        if rng.random() < 0.2:
            return (t, n, i - k), [off[n] + i]
        return (t, n, i), [off[n] + i]

    def query(self, rng, m, types):
        for _ in range(m):
            if self.asked and rng.random() < 0.4:
                q, cols = self.asked[rng.integers(len(self.asked))]
            else:
                r = self.random_ref(rng, types)
                if r is None:
                    continue
                q, cols = r
                self.asked.append(r)
            self.ctx.count['queries'] += 1
            w = self.want(q[0])[:, cols]
            got = np.asarray(self.data[q if len(q) > 1 or rng.random() < 0.5 else q[0]])
            if self.ctx.check(got.shape == w.shape, 'query-shape', 'query %s has shape %s instead of %s' % (q, got.shape, w.shape)):
                self.ctx.close(got, w, 'query', 'query %s' % (q,), rtol=1e-9, atol=1e-11)


def names_of(S, t):
    if t == '_aux':
        return [(n, len(ts)) for n, ts in S.aux]
    if t == '_y':
        return [(n, len(ts)) for n, ts, _ in S.meas_eff()]
    return S.vars[t]


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    if kind == 'long':
        # histories of hundreds or thousands of steps, looked at now and then
        ctx.long = int(rng.choice([130, 300, 520, 1030, 2060, 2600]))
        kind = ['data', 'sim', 'lqr', 'mpc'][idx % 4]
        if kind == 'mpc':
            ctx.long = min(ctx.long, 130)
        ctx.count['long_steps'] += ctx.long
    return {'mpc': mpc_case, 'tree': mpc_case, 'mhe': mhe_case, 'sim': sim_case, 'lqr': lqr_case, 'data': data_case}[kind](ctx, do_mpc, kind)


def steps(ctx, n):
    """number of steps of this case"""
    return getattr(ctx, 'long', 0) or int(n)


def look(ctx, j):
    """is the record examined after step j?"""
    n = getattr(ctx, 'long', 0)
    return not n or j == n - 1 or ctx.rng.random() < 8 / n


def turn(ctx):
    """what happens before the next step"""
    n = getattr(ctx, 'long', 0)
    if n and ctx.rng.random() > 3 / n:
        return 1.0
    return ctx.rng.random()


STATS = ['success', 'iter_count', 'return_status']


class MpcRun:
    """a random controller; performs steps and keeps what the record must contain"""

    def __init__(self, ctx, do_mpc, kind, store_full=True, max_iter=25):
        rng = ctx.rng
        self.ctx, self.rng = ctx, rng
        long = hasattr(ctx, 'long')
        S = self.S = gen_spec(rng, mtype='discrete' if long else None, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)), np_=int(rng.integers(1, 3)) if kind == 'tree' else None)
        c = self.c = ocp.gen_mpc_cfg(rng, S, max_N=3 if kind == 'tree' else 4, robust=(kind == 'tree') or None, nl=int(rng.integers(0, 2)))
        c.deg, c.ni = min(c.deg, 2), 1
        if kind == 'tree':
            c.n_comb = int(rng.choice([2, 2, 3]))
            c.N = int(rng.integers(2, 4))
            c.n_robust = int(rng.integers(1, (3 if c.n_comb == 2 else 2) + 1))
            c.n_robust = min(c.n_robust, c.N)
            if S.mtype == 'continuous':
                c.deg = 1
            ctx.count['deep_trees'] += c.n_robust >= 3 or c.n_robust == c.N
        p07.bounded_costs(rng, S, c)
        m = self.m = S.build(do_mpc, rng)
        self.lag = bool(rng.random() < 0.5)
        self.stats = [s for s in STATS if rng.random() < 0.4]
        extra = dict(store_full_solution=store_full, store_lagr_multiplier=self.lag, store_solver_stats=self.stats, nlpsol_opts=dict(ocp.QUIET, **{'ipopt.max_iter': max_iter}))
        mpc = self.mpc = ocp.build_mpc(do_mpc, S, m, c, extra=extra, setup=False, set_fun=False)
        self.W = p07.World(rng, S, c)
        if S.n('_p') or c.n_comb > 1:
            mpc.get_p_template(c.n_comb)
        self.install()
        ocp.finish(mpc, c)
        mpc.S = self.rec = p07.Recorder(mpc.S)
        n_aux = 1 + sum(len(t) for _, t in S.aux)
        dims = self.dims = {'_time': 1, '_x': S.n('_x'), '_u': S.n('_u'), '_z': S.n('_z'), '_tvp': S.n('_tvp'), '_p': S.n('_p'), '_aux': n_aux}
        nopt = int(mpc.opt_x.shape[0])
        if store_full:
            dims.update({'_opt_x_num': nopt, 'opt_p_num': int(mpc.opt_p.shape[0])})
        if self.lag:
            dims['_lam_g_num'] = int(mpc.nlp_cons.shape[0])
        for s in self.stats:
            dims[s] = 1
        self.L = Log(ctx, S, mpc.data, dims)
        sx, su, sz = [ocp.scale_vec(c, S, t) for t in ('_x', '_u', '_z')]
        fx = mpc.opt_x.f
        ids = self.ids = lambda *ind: [int(i) for i in np.array(fx[ind]).ravel()]
        scale = self.scale = np.ones(nopt)
        nl = self.nl = c.n_comb ** c.n_robust
        nu_s = 1 if c.open_loop else nl
        cp = (c.deg + 1) * c.ni if S.mtype == 'continuous' else 0
        for k in range(c.N + 1):
            for s in range(nl):
                for i in range(cp + 1):
                    scale[ids('_x', k, s, i)] = sx
                if k < c.N:
                    for i in range(max(cp, 1)):
                        if S.n('_z'):
                            scale[ids('_z', k, s, i)] = sz
                    if s < nu_s:
                        scale[ids('_u', k, s)] = su
        self.sols = []

    def install(self):
        pf, tf = self.W.funs(self.mpc)
        if self.S.n('_p'):
            self.mpc.set_p_fun(pf)
        if self.S.n('_tvp'):
            self.mpc.set_tvp_fun(tf)

    def start(self):
        self.mpc.x0 = rvals(self.rng, self.S, '_x')
        self.mpc.set_initial_guess()

    def reset(self):
        self.mpc.reset_history(); self.L.reset(); self.sols.clear(); self.W.t = 0.0

    def values(self, sol, leaf):
        """trajectories of one scenario of a stored solution"""
        c, S, ids = self.c, self.S, self.ids
        path = lambda k, leaf: leaf // c.n_comb ** (c.n_robust - k) if k <= c.n_robust else leaf
        branch = lambda k, leaf: (path(k + 1, leaf) if c.n_robust else 0) % c.n_comb
        X = [sol['x'][ids('_x', k, path(k, leaf), -1)] for k in range(c.N + 1)]
        U = [sol['x'][ids('_u', k, 0 if c.open_loop else path(k, leaf))] for k in range(c.N)]
        Z = [sol['x'][ids('_z', k, path(k + 1, leaf), 0)] if S.n('_z') else np.zeros(0) for k in range(c.N)]
        P = [sol['p'][branch(k, leaf)] for k in range(c.N)]
        A = [np.concatenate([[0.0], S.f_aux(X[k], U[k], Z[k], sol['tvp'][k], P[k])]) for k in range(c.N)]
        return {'_x': X, '_u': U, '_z': Z, '_p': P, '_aux': A, '_tvp': list(sol['tvp'])}

    def scenarios(self, t):
        return [0] if t == '_tvp' or (t == '_u' and self.c.open_loop) else range(self.nl)

    def prediction(self, t, cols, ti):
        """(element, time, scenario)"""
        sol = self.sols[ti]
        return np.array([[vk[cols] for vk in self.values(sol, s)[t]] for s in self.scenarios(t)]).transpose(2, 1, 0)

    def step(self):
        S, W, ctx = self.S, self.W, self.ctx
        x = rvals(self.rng, S, '_x')
        ret = np.ravel(self.mpc.make_step(p07.give_x0(self.rng, self.m, x)))
        ctx.count['steps'] += 1
        k = self.rec.calls.pop()
        r = k['r']['x'] * self.scale
        tv, p = W.tvp(W.t), W.p(W.t)
        sol = {'x': r, 'tvp': tv, 'p': p}
        self.sols.append(sol)
        v = self.values(sol, 0)
        row = dict(_time=W.t, _x=x, _u=ret, _z=v['_z'][0], _tvp=tv[0] if S.n('_tvp') else [], _p=p[0] if S.n('_p') else [], _aux=v['_aux'][0])
        if '_opt_x_num' in self.dims:
            row.update(_opt_x_num=r, opt_p_num=k['p'])
        ctx.close(ret, v['_u'][0], 'returned', 'returned input is the first input of the stored solution')
        if self.lag:
            row['_lam_g_num'] = k['r']['lam_g']
        for s in self.stats:
            row[s] = k['stats'][s]
        self.L.add(**row)
        W.t += self.c.t_step


def mpc_case(ctx, do_mpc, kind):
    rng = ctx.rng
    R = MpcRun(ctx, do_mpc, kind)
    L, W, S, mpc, c = R.L, R.W, R.S, R.mpc, R.c
    if rng.random() < 0.5:
        L.query(rng, 2, ['_x', '_u', '_p'])
    R.start()
    hist = []
    asked = []
    for j in range(steps(ctx, rng.integers(2, 6)) if kind == 'mpc' else int(rng.integers(1, 4))):
        op = turn(ctx)
        if j and op < 0.2:
            R.reset()
            hist.append('reset'); ctx.count['resets'] += 1
            L.check('after a reset')
        elif op < 0.35:
            W.t = round(float(rng.uniform(0, 5)), 2)
            mpc.t0 = W.t
            hist.append('t0')
        elif op < 0.5:
            W.new_tvp(); W.new_p(); R.install()
            hist.append('funs')
        R.step()
        hist.append('s')
        if not look(ctx, j):
            continue
        L.check('after step %d' % j)
        L.query(rng, int(rng.integers(1, 6)), ['_x', '_u', '_z', '_tvp', '_p', '_aux'])
        # predictions
        for _ in range(int(rng.integers(2, 7))):
            if asked and rng.random() < 0.4:
                q, cols = asked[rng.integers(len(asked))]
            else:
                rr = L.random_ref(rng, ['_x', '_u', '_z', '_tvp', '_p', '_aux'])
                if rr is None:
                    continue
                q, cols = rr
                asked.append(rr)
            ti = int(rng.integers(-len(R.sols), len(R.sols)))
            got = mpc.data.prediction(q) if ti == -1 and rng.random() < 0.5 else mpc.data.prediction(q, t_ind=ti)
            ctx.count['predictions'] += 1
            w = R.prediction(q[0], cols, ti)
            ctx.count['scenario_paths'] += w.shape[2]
            if ctx.check(np.shape(got) == w.shape, 'prediction-shape', 'prediction %s has shape %s instead of %s' % (q, np.shape(got), w.shape)):
                ctx.close(got, w, 'prediction' + q[0], 'prediction %s at index %d' % (q, ti), rtol=1e-8, atol=1e-9)
        if len(ctx.violations) > 3:
            break
    exp = mpc.data.export()
    ctx.check(all(np.array_equal(exp[f], mpc.data[f]) for f in R.dims), 'export', 'export() differs from the record')
    ctx.sig, ctx.desc = [ocp.sig_cfg(c, S), hist], dict(ocp.desc_cfg(c, S), history=hist[:40])
    ctx.nontrivial = ctx.count['steps'] >= 1 and ctx.count['queries'] >= 2


def mhe_case(ctx, do_mpc, kind):
    rng = ctx.rng
    S, c = p10.gen(rng, 'loop')
    c.N = min(c.N, 4)
    m = S.build(do_mpc, rng)
    W = p10.Shadow(rng, S, c)
    ny = sum(len(t) for _, t, _ in S.meas)
    lag = bool(rng.random() < 0.5)
    stats = [s for s in STATS if rng.random() < 0.4]
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False,
                           extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 25}), 'meas_from_data': True, 'store_full_solution': True,
                                  'store_lagr_multiplier': lag, 'store_solver_stats': stats})
    W.install(mhe)
    ocp.finish(mhe, c)
    mhe.S = rec = p07.Recorder(mhe.S)
    n_aux = 1 + sum(len(t) for _, t in S.aux)
    dims = {'_time': 1, '_x': S.n('_x'), '_y': ny, '_u': S.n('_u'), '_z': S.n('_z'), '_tvp': S.n('_tvp'), '_p': S.n('_p'), '_aux': n_aux,
            '_opt_x_num': int(mhe.opt_x.shape[0]), 'opt_p_num': int(mhe.opt_p.shape[0])}
    if lag:
        dims['_lam_g_num'] = int(mhe.nlp_cons.shape[0])
    for s in stats:
        dims[s] = 1
    L = Log(ctx, S, mhe.data, dims)
    sx, su, sz = [ocp.scale_vec(c, S, t) for t in ('_x', '_u', '_z')]
    fx = mhe.opt_x.f
    ids = lambda *ind: [int(i) for i in np.array(fx[ind if len(ind) > 1 else ind[0]]).ravel()]
    x0, p0 = rvals(rng, S, '_x'), rng.normal(size=c.nP) * 0.3
    mhe.x0 = x0
    if c.nP:
        mhe.p_est0 = p0
    mhe.set_initial_guess()
    hist = []

    def full_p(pe, ps):
        pe, ps = iter(pe), iter(ps)
        return np.array([next(pe) if n in c.p_est else next(ps) for n, s in S.vars['_p'] for _ in range(_size(s))])
    for j in range(int(rng.integers(2, 7))):
        if j and rng.random() < 0.2:
            mhe.reset_history(); L.reset(); W.t = 0.0; W.y = []
            hist.append('reset'); ctx.count['resets'] += 1
            L.check('after a reset')
        elif rng.random() < 0.2:
            W.t = round(float(rng.uniform(0, 5)), 2)
            mhe.t0 = W.t
            hist.append('t0')
        elif j and rng.random() < 0.2:
            x0 = rvals(rng, S, '_x')
            mhe.x0 = x0
            mhe.set_initial_guess()
            hist.append('guess')
        y = np.round(rng.normal(size=ny) * 0.5, 3)
        W.y.append(y)
        ret = np.ravel(mhe.make_step(p10.give_y(rng, m, y)))
        hist.append('s')
        ctx.count['steps'] += 1
        k = rec.calls.pop()
        r = k['r']['x']
        U = r[ids('_u', c.N - 1)] * su if S.n('_u') else np.zeros(0)
        last = r[ids('_x', c.N - 1, -1)] * sx
        tv = W.tvp(W.t)
        ps = W.p(W.t) if S.n('_p') - c.nP else np.zeros(0)
        zall = [r[ids('_z', c.N - 1, i)] * sz for i in range(((c.deg + 1) * c.ni) if S.mtype == 'continuous' else 1)] if S.n('_z') else [np.zeros(0)]
        pe = r[ids('_p_est')] * mheref.pest_scale(c, S) if c.nP else np.zeros(0)
        aux = np.concatenate([[0.0], S.f_aux(last, U, zall[0], tv[c.N - 1] if S.n('_tvp') else [], full_p(pe, ps))])
        row = dict(_time=W.t, _x=x0, _y=y, _u=U, _z=zall[-1], _tvp=None, _p=full_p(p0, ps), _aux=aux, opt_p_num=k['p'],
                   _opt_x_num=r * np.array(mhe.opt_x_scaling.cat).ravel())
        row['_tvp'] = tv[-1] if S.n('_tvp') else []
        if lag:
            row['_lam_g_num'] = k['r']['lam_g']
        for s in stats:
            row[s] = k['stats'][s]
        L.add(**row)
        W.t += c.t_step
        x0, p0 = ret, pe
        L.check('after step %d' % j)
        L.query(rng, int(rng.integers(1, 6)), ['_x', '_u', '_z', '_tvp', '_p', '_aux', '_y'])
        if len(ctx.violations) > 3:
            break
    ctx.sig, ctx.desc = [mheref.sig_cfg(c, S), hist], dict(mheref.desc_cfg(c, S), history=hist)
    ctx.nontrivial = ctx.count['steps'] >= 2


def sim_case(ctx, do_mpc, kind):
    rng = ctx.rng
    S = gen_spec(rng, nu=int(rng.choice([0, 1, 2])), noise=None, **(dict(mtype='discrete', nz=0) if hasattr(ctx, 'long') else {}))
    m = S.build(do_mpc, rng)
    sim = do_mpc.simulator.Simulator(m)
    h = gen_step(rng, S.mtype == 'discrete', 0.05, 0.6)
    sim.set_param(t_step=h)
    if S.mtype == 'continuous' and S.n('_z'):
        sim.set_param(integration_tool='idas')
    a, b = rng.normal(size=S.n('_tvp')), rng.normal(size=S.n('_p'))
    tvp, p = (lambda t: a + 0.4 * np.sin(3 * t)), (lambda t: b + 0.4 * np.cos(2 * t))
    tt, pt = sim.get_tvp_template(), sim.get_p_template()
    keep = rng.random() < 0.5

    def fun(tpl, get, v):
        def f(t):
            o = tpl if keep else get()
            o.master = ca.DM(v(float(np.ravel(t)[0])))
            return o
        return f
    if S.n('_tvp'):
        sim.set_tvp_fun(fun(tt, sim.get_tvp_template, tvp))
    if S.n('_p'):
        sim.set_p_fun(fun(pt, sim.get_p_template, p))
    sim.setup()
    x = rvals(rng, S, '_x')
    sim.x0 = x
    t = 0.0
    if S.n('_z'):
        sim.z0 = S.solve_z(x, np.zeros(S.n('_u')), tvp(t), p(t))
        sim.set_initial_guess()
    ny = sum(len(q) for _, q, _ in S.meas_eff())
    dims = {'_time': 1, '_x': S.n('_x'), '_y': ny, '_u': S.n('_u'), '_z': S.n('_z'), '_tvp': S.n('_tvp'), '_p': S.n('_p'), '_aux': 1 + sum(len(q) for _, q in S.aux)}
    L = Log(ctx, S, sim.data, dims)
    L.check('before the first step')
    hist = []
    for k in range(steps(ctx, rng.integers(3, 8))):
        op = turn(ctx)
        if k and op < 0.15:
            sim.reset_history(); L.reset(); t = 0.0
            hist.append('reset'); ctx.count['resets'] += 1
            L.check('after a reset')
        elif op < 0.25:
            t = round(float(rng.uniform(0, 5)), 2)
            sim.t0 = t
            hist.append('t0')
        elif op < 0.35:
            sim.x0 = rvals(rng, S, '_x')
            hist.append('x0')
        x = np.array(sim.x0.cat).ravel()
        z = np.array(sim.sim_z_num.cat).ravel()
        u = rvals(rng, S, '_u')
        kw = {'u0': p04.arg(rng, u, m._u)} if S.n('_u') else {}
        if S.n_w() and rng.random() < 0.5:
            kw['w0'] = p04.arg(rng, rng.normal(size=S.n_w()) * 0.2, m._w)
        y = np.ravel(sim.make_step(**kw))
        if not np.all(np.isfinite(y)) or np.abs(np.array(sim.x0.cat)).max() > 1e3:
            raise core.Inconclusive('trajectory left the working range')
        hist.append('s')
        ctx.count['steps'] += 1
        L.add(_time=t, _x=x, _y=y, _u=u, _z=z, _tvp=tvp(t), _p=p(t), _aux=np.concatenate([[0.0], S.f_aux(x, u, z, tvp(t), p(t))]))
        t += h
        if not look(ctx, k):
            continue
        L.check('after step %d' % k)
        L.query(rng, int(rng.integers(1, 6)), ['_x', '_u', '_z', '_tvp', '_p', '_aux', '_y'])
        if len(ctx.violations) > 3:
            break
    ctx.sig, ctx.desc = [S.sig(), hist], dict(S.describe(), ops=hist[:40])
    ctx.nontrivial = ctx.count['steps'] >= 2


def lqr_case(ctx, do_mpc, kind):
    rng = ctx.rng
    n, k = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    m = do_mpc.model.LinearModel('discrete')
    m.set_variable('_x', 'x', (n, 1))
    m.set_variable('_u', 'u', (k, 1))
    A, B = rng.normal(size=(n, n)) * 0.5, rng.normal(size=(n, k))
    m.setup(A=A, B=B)
    lqr = do_mpc.controller.LQR(m)
    h = gen_step(rng, True, 0.05, 1)
    lqr.set_param(t_step=h, n_horizon=None if rng.random() < 0.5 else int(rng.integers(3, 20)))
    lqr.set_objective(Q=np.eye(n), R=np.eye(k), P=np.eye(n))
    if rng.random() < 0.4:
        lqr.set_rterm(delR=np.eye(k))
    lqr.setup()
    if rng.random() < 0.5:
        lqr.set_setpoint(np.round(rng.normal(size=(n, 1)), 2), np.round(rng.normal(size=(k, 1)), 2))

    class Sp:
        aux = []
        vars = {'_x': [('x', (n, 1))], '_u': [('u', (k, 1))]}
    L = Log(ctx, Sp, lqr.data, {'_time': 1, '_x': n, '_u': k})
    t, hist = 0.0, []
    for j in range(steps(ctx, rng.integers(3, 9))):
        if j and turn(ctx) < 0.2:
            lqr.reset_history(); L.reset(); t = 0.0
            hist.append('reset'); ctx.count['resets'] += 1
            L.check('after a reset')
        x = np.round(rng.normal(size=(n, 1)), 3)
        arg = as_input(rng, x, m._x)
        u = np.array(lqr.make_step(arg)).ravel()
        if isinstance(arg, np.ndarray) and arg.flags.writeable and rng.random() < 0.5:
            arg += 1            # the caller's array is not part of the record
        hist.append('s')
        ctx.count['steps'] += 1
        L.add(_time=t, _x=x, _u=u)
        t += h
        if not look(ctx, j):
            continue
        L.check('after step %d' % j)
        L.query(rng, 2, ['_x', '_u'])
    ctx.sig, ctx.desc = [n, k, lqr.mode, hist], {'n': n, 'm': k, 'mode': lqr.mode, 'ops': hist[:40]}
    ctx.nontrivial = ctx.count['steps'] >= 2


def data_case(ctx, do_mpc, kind):
    """a data object used on its own"""
    rng = ctx.rng
    S = gen_spec(rng)
    m = S.build(do_mpc, rng)
    d = do_mpc.data.Data(m)
    ny = sum(len(q) for _, q, _ in S.meas_eff())
    dims = {'_time': 1, '_x': S.n('_x'), '_y': ny, '_u': S.n('_u'), '_z': S.n('_z'), '_tvp': S.n('_tvp'), '_p': S.n('_p'), '_aux': 1 + sum(len(q) for _, q in S.aux)}
    L = Log(ctx, S, d, dims)
    types = list(dims)
    st = {'_x': m._x, '_u': m._u, '_z': m._z, '_p': m._p, '_tvp': m._tvp, '_y': m._y}
    hist = []
    for j in range(steps(ctx, rng.integers(5, 20))):
        op = rng.random() if not hasattr(ctx, 'long') else rng.choice([0.3, 0.3, 0.8 if rng.random() < 0.01 else 0.3, 0.0 if rng.random() < 2 / ctx.long else 0.3])
        if op < 0.1:
            d.init_storage(); L.reset(); ctx.count['resets'] += 1
            hist.append('clear')
        elif op < 0.65:
            ts = [t for t in types if rng.random() < 0.4] or ['_x']
            kw, forms = {}, []
            for t in ts:
                v = np.round(rng.normal(size=dims[t]), 3)
                f = int(rng.integers(5))
                if t == '_time' and f < 2:
                    g = float(v[0])
                elif f == 2 and t in st and dims[t]:
                    g = st[t](ca.DM(v))
                elif f == 3:
                    g = ca.DM(v)
                elif f == 4:
                    g = v.copy().reshape(-1, 1)
                else:
                    g = v.copy()
                kw[t] = g
                L.rows[t].append(v)
                forms.append(f)
            d.update(**kw)
            for g in kw.values():
                if isinstance(g, np.ndarray):
                    g += 7.0
            ctx.count['steps'] += 1
            hist.append(tuple(ts))
        elif op < 0.7:
            ctx.raises(lambda: d.update(**{'nonsense': np.zeros(1)}), 'unknown-field', 'record of an unknown field')
            ctx.raises(lambda: d['nonsense'], 'unknown-query', 'query of an unknown field')
            ctx.raises(lambda: d['_x', 'nonsense_name'], 'unknown-name', 'query of an unknown name')
        else:
            L.query(rng, 4, [t for t in types if t != '_time'])
        if look(ctx, j):
            L.check('bare data object')
    e = d.export()
    for t in dims:
        ctx.check(np.array_equal(e[t], L.want(t)), 'export', 'exported field %s' % t)
    ctx.sig, ctx.desc = [S.sig(), [str(h) for h in hist]], dict(S.describe(), ops=len(hist))
    ctx.nontrivial = ctx.count['steps'] >= 2


if __name__ == '__main__':
    core.main('checks.p12')
