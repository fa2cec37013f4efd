"""P23: what controller and estimator predict is what the simulator does (cross-component runs, simulator and numpy interpreter as oracle)."""
import numpy as np
import casadi as ca
from vf import core, mheref, ocp
from vf.models import gen_spec, rvals, rterms, _size
from checks import p07, p10

ID = 'P23'
CASES = {'quick': [('plan', 430), ('loop', 240), ('window', 340)], 'thorough': [('plan', 2500), ('loop', 1200), ('window', 1800)]}
RULE = ('random controllers (scenario trees, scaling, both collocation types, discrete and continuous models with algebraic states, parameters that change with time and branch) plan once and '
        'the planned inputs of every scenario are replayed through a simulator with the parameters of that scenario; controllers and simulators with matching parameter functions of '
        'absolute time run in closed loop and every new state is compared with the prediction made before; estimation windows are replayed through a simulator from the first estimated '
        'state with the estimated noise and parameters and compared with the estimated states and the measurements that were given; plans, windows and measurements are read through '
        'the public results only; distinct by (configuration, scenario, steps); non-trivial = at least two replayed steps')
ASSUMPTIONS = ['only solutions reported as successful are replayed; tolerance 1e-5 for discrete models, 3e-4 of the size of the trajectory for continuous ones with collocation degree 3 or more and short samples']
NEED = {'plans': 50, 'replayed_steps': 600, 'scenarios': 150, 'loop_steps': 120, 'windows': 60, 'window_steps': 150, 'continuous': 200, 'algebraic': 200}
MAX_INCONCLUSIVE = 0.35
IPOPT = dict(ocp.QUIET, **{'ipopt.max_iter': 150, 'ipopt.tol': 1e-10, 'ipopt.acceptable_tol': 1e-9, 'ipopt.constr_viol_tol': 1e-10})


class Sim:
    """simulator whose parameters are given step by step"""

    def __init__(self, do_mpc, S, m, h, t0=0.0, noise=False):
        self.S, self.h = S, h
        s = self.s = do_mpc.simulator.Simulator(m)
        s.set_param(t_step=h)
        if S.mtype == 'continuous':
            s.set_param(integration_tool='idas' if S.n('_z') else 'cvodes', abstol=1e-10, reltol=1e-10)
        self.tv, self.p = (lambda k: np.zeros(S.n('_tvp'))), (lambda k: np.zeros(S.n('_p')))
        tt, pt = s.get_tvp_template(), s.get_p_template()
        idx = lambda t: int(round((float(np.ravel(t)[0]) - self.t0) / h))

        def tvp_fun(t):
            tt.master = ca.DM(self.tv(idx(t)))
            return tt

        def p_fun(t):
            pt.master = ca.DM(self.p(idx(t)))
            return pt
        self.t0 = t0
        if S.n('_tvp'):
            s.set_tvp_fun(tvp_fun)
        if S.n('_p'):
            s.set_p_fun(p_fun)
        s.setup()

    def start(self, x, t0, tv, p, z=None):
        self.t0, self.tv, self.p = t0, tv, p
        self.s.reset_history()
        self.s.t0 = t0
        self.s.x0 = x
        if self.S.n('_z'):
            self.s.z0 = z if z is not None else np.zeros(self.S.n('_z'))
            self.s.set_initial_guess()

    def step(self, u, **kw):
        y = self.s.make_step(np.reshape(u, (-1, 1)), **kw)
        return np.array(self.s.x0.cat).ravel(), np.ravel(y)


def tame(rng, S, c):
    c.N = min(c.N, 4)
    c.deg, c.ni = int(rng.integers(3, 5)), int(rng.integers(1, 3))
    c.t_step = round(float(rng.uniform(0.05, 0.2)), 3) if rng.random() < 0.6 else float(rng.choice([1 / 7, 1 / 9, 1 / 13, 1 / 30, rng.uniform(0.05, 0.2)]))
    if c.deg == 3 and c.ni == 1:
        c.t_step = min(c.t_step, 0.1)


def tol(S, X):
    m = 1 + np.abs(X).max()
    return dict(rtol=0, atol=(3e-4 if S.mtype == 'continuous' else 1e-5) * m)


def make_mpc(ctx, do_mpc, rng):
    S = gen_spec(rng, nx=int(rng.integers(1, 4)), nz=int(rng.choice([0, 0, 1, 2])))
    c = ocp.gen_mpc_cfg(rng, S, max_N=5, nl=int(rng.choice([0, 0, 1])))
    tame(rng, S, c)
    c.n_robust = min(c.n_robust, c.N)
    p07.bounded_costs(rng, S, c)
    for q in c.cons:
        q['soft'] = True
        q['mv'] = np.inf
    c.tbounds = {}
    m = S.build(do_mpc, rng)
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, extra=dict(store_full_solution=True, nlpsol_opts=dict(IPOPT)), setup=False, set_fun=False)
    return S, c, m, mpc


def plan_case(ctx, do_mpc):
    rng = ctx.rng
    S, c, m, mpc = make_mpc(ctx, do_mpc, rng)
    W = p07.World(rng, S, c)
    if S.n('_p') or c.n_comb > 1:
        mpc.get_p_template(c.n_comb)
    pf, tf = W.funs(mpc)
    if S.n('_p'):
        mpc.set_p_fun(pf)
    if S.n('_tvp'):
        mpc.set_tvp_fun(tf)
    ocp.finish(mpc, c)
    x = rvals(rng, S, '_x')
    mpc.x0 = x
    mpc.set_initial_guess()
    sim = Sim(do_mpc, S, m, c.t_step)
    done = 0
    for j in range(int(rng.integers(1, 4))):
        t = float(np.ravel(mpc.t0)[0])
        mpc.make_step(x.reshape(-1, 1))
        if not mpc.solver_stats['success']:
            ctx.count['unsolved'] += 1
            x = rvals(rng, S, '_x')
            continue
        done += 1
        ctx.count['plans'] += 1
        q = lambda ty: np.array(mpc.data.prediction((ty,)))
        X, U = q('_x'), q('_u')
        Z = q('_z') if S.n('_z') else None
        P = q('_p') if S.n('_p') else None
        tv = W.tvp(t)
        ctx.check(X.shape[1] == c.N + 1 and U.shape[1] == c.N, 'plan-shape', 'predicted states %s, inputs %s' % (X.shape, U.shape))
        for s in range(X.shape[2]):
            su = min(s, U.shape[2] - 1)
            pk = (lambda k, s=s: P[:, min(k, P.shape[1] - 1), s]) if P is not None else (lambda k: np.zeros(0))
            if P is not None:
                ok = all(any(np.allclose(pk(k), v) for v in W.p(t)) for k in range(c.N))
                ctx.check(ok, 'plan-parameter', 'predicted parameters are none of the given combinations')
            sim.start(X[:, 0, s], t, lambda k: tv[k], pk, Z[:, 0, s] if Z is not None else None)
            ctx.close(X[:, 0, s], x, 'plan-start', 'first predicted state', rtol=1e-6, atol=1e-6)
            for k in range(c.N):
                xn, _ = sim.step(U[:, k, su])
                ctx.close(xn, X[:, k + 1, s], 'plan-state', 'scenario %d: simulated and predicted state after %d steps' % (s, k + 1), **tol(S, X))
                if Z is not None:
                    r = S.f_alg(X[:, k, s], U[:, k, su], Z[:, k, s], tv[k], pk(k))
                    ctx.check(np.abs(r).max() < 1e-5 * (1 + np.abs(Z).max() + np.abs(X).max()), 'plan-algebraic', 'predicted algebraic values leave a residual %.3g' % np.abs(r).max())
                    ctx.count['algebraic'] += 1
                ctx.count['replayed_steps'] += 1
                ctx.count['continuous'] += S.mtype == 'continuous'
            ctx.close(np.ravel(sim.s.t0), t + c.N * c.t_step, 'clock', 'simulator time after the horizon', rtol=1e-9, atol=1e-9)
            ctx.count['scenarios'] += 1
        ctx.close(np.ravel(mpc.t0), t + c.t_step, 'clock', 'controller time', rtol=1e-9, atol=1e-9)
        x = X[:, 1, rng.integers(X.shape[2])] if rng.random() < 0.7 else rvals(rng, S, '_x')
        if len(ctx.violations) > 3:
            break
    if not done:
        raise core.Inconclusive('no solved step')
    ctx.sig, ctx.desc = ['plan', ocp.sig_cfg(c, S), done], ocp.desc_cfg(c, S)
    ctx.nontrivial = ctx.count['replayed_steps'] >= 2


def loop_case(ctx, do_mpc):
    """matching model, parameter functions of absolute time"""
    rng = ctx.rng
    S, c, m, mpc = make_mpc(ctx, do_mpc, rng)
    a, b, d = rng.normal(size=S.n('_tvp')) * 0.5, rng.uniform(0.5, 3), rng.normal(size=(c.n_comb, S.n('_p'))) * 0.5
    tvp = lambda t: a + 0.4 * np.sin(b * t)
    f = lambda t: float(np.ravel(t)[0])
    h = c.t_step
    mt = mpc.get_tvp_template()
    if S.n('_tvp'):
        def tvp_fun(t):
            for k in range(c.N + 1):
                mt['_tvp', k] = tvp(f(t) + k * h)
            return mt
        mpc.set_tvp_fun(tvp_fun)
    if S.n('_p') or c.n_comb > 1:
        pt = mpc.get_p_template(c.n_comb)
        for k in range(c.n_comb):
            pt['_p', k] = d[k]
        if S.n('_p'):
            mpc.set_p_fun(lambda t: pt)
    ocp.finish(mpc, c)
    t0 = float(np.round(rng.uniform(0, 5), 2)) if rng.random() < 0.5 else 0.0
    sim = Sim(do_mpc, S, m, h)
    x = rvals(rng, S, '_x')
    sim.start(x, t0, lambda k: tvp(t0 + k * h), lambda k: d[0])
    mpc.t0 = t0
    mpc.x0 = x
    mpc.set_initial_guess()
    n = int(rng.integers(2, 6))
    est = do_mpc.estimator.StateFeedback(m)
    solved = 0
    for j in range(n):
        u = mpc.make_step(x.reshape(-1, 1))
        ok = mpc.solver_stats['success']
        X = np.array(mpc.data.prediction(('_x',)))
        if S.n('_z'):
            sim.s.z0 = S.solve_z(x, np.ravel(u), tvp(t0 + j * h), d[0])
        xn, y = sim.step(u)
        if ok:
            ctx.close(xn, X[:, 1, 0], 'loop-state', 'state after step %d against the prediction' % (j + 1), **tol(S, X))
            solved += 1
            ctx.count['loop_steps'] += 1
            ctx.count['continuous'] += S.mtype == 'continuous'
        x = np.ravel(est.make_step(xn.reshape(-1, 1)))
        ctx.close(x, xn, 'feedback', 'state feedback returns the measured state', rtol=0, atol=0)
    ctx.close(mpc.data['_time'], sim.s.data['_time'], 'clock', 'recorded times of controller and simulator', rtol=1e-9, atol=1e-9)
    ctx.close(mpc.data['_x'], sim.s.data['_x'], 'record', 'recorded states of controller and simulator', rtol=1e-9, atol=1e-9)
    ctx.close(mpc.data['_u'], sim.s.data['_u'], 'record', 'recorded inputs of controller and simulator', rtol=1e-9, atol=1e-9)
    if S.n('_tvp'):
        ctx.close(mpc.data['_tvp'], sim.s.data['_tvp'], 'record', 'recorded time-varying parameters of controller and simulator', rtol=1e-9, atol=1e-9)
    if S.n('_p'):
        ctx.close(mpc.data['_p'], sim.s.data['_p'], 'record', 'recorded parameters of controller and simulator', rtol=1e-9, atol=1e-9)
    if not solved:
        raise core.Inconclusive('no solved step')
    ctx.sig, ctx.desc = ['loop', ocp.sig_cfg(c, S), n], ocp.desc_cfg(c, S)
    ctx.nontrivial = ctx.count['loop_steps'] >= 2


def window_case(ctx, do_mpc):
    rng = ctx.rng
    S, c = p10.gen(rng, 'loop')
    tame(rng, S, c)
    c.N = min(c.N, 4)
    for q in c.cons:
        q['soft'] = True
        q['mv'] = np.inf
    m = S.build(do_mpc, rng)
    W = p10.Shadow(rng, S, c)
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(IPOPT), 'meas_from_data': True})
    W.install(mhe)
    ocp.finish(mhe, c)
    mhe.x0 = rvals(rng, S, '_x')
    mhe.set_initial_guess()
    ny = sum(len(t) for _, t, _ in S.meas)
    src, rep = Sim(do_mpc, S, m, c.t_step), Sim(do_mpc, S, m, c.t_step)
    pt = rng.normal(size=S.n('_p')) * 0.4
    off, o = {}, 0
    for n, s in S.vars['_p']:
        off[n] = list(range(o, o + _size(s))); o += _size(s)
    est = [i for n, _ in S.vars['_p'] if n in c.p_est for i in off[n]]
    fix = [i for i in range(S.n('_p')) if i not in est]
    src.start(rvals(rng, S, '_x'), 0.0, lambda k: W.tvp(k * c.t_step)[0], lambda k: pt)
    nW, nV = S.n_w(), S.n_v()
    Y = []
    done = 0
    for j in range(c.N + int(rng.integers(1, 4))):
        kw = {}
        if nW:
            kw['w0'] = np.round(rng.normal(size=(nW, 1)) * 0.05, 4)
        if nV:
            kw['v0'] = np.round(rng.normal(size=(nV, 1)) * 0.05, 4)
        _, y = src.step(rvals(rng, S, '_u', 0.7), **kw)
        Y.append(y)
        t = float(np.ravel(mhe.t0)[0])
        ret = np.ravel(mhe.make_step(y.reshape(-1, 1)))
        if not mhe.solver_stats['success']:
            ctx.count['unsolved'] += 1
            continue
        done += 1
        ctx.count['windows'] += 1
        sol = mhe.opt_x_num_unscaled
        g = lambda *i: np.array(ca.DM(sol[i] if len(i) > 1 else sol[i[0]])).ravel()
        X = np.array([g('_x', k, -1) for k in range(c.N + 1)])
        win = [Y[0]] * (c.N - len(Y)) + Y[-c.N:]
        p = np.zeros(S.n('_p'))
        if est:
            p[est] = g('_p_est')
        if fix:
            p[fix] = W.p(t)
        tv = W.tvp(t)
        rep.start(X[0], t, lambda k: tv[k], lambda k: p, g('_z', 0, 0) if S.n('_z') else None)
        for k in range(c.N):
            u = g('_u', k) if S.n('_u') else np.zeros(0)
            kw = {}
            if nW:
                kw['w0'] = g('_w', k).reshape(-1, 1)
            if nV:
                kw['v0'] = g('_v', k).reshape(-1, 1)
            xn, yn = rep.step(u, **kw)
            T = tol(S, X)
            ctx.close(xn, X[k + 1], 'window-state', 'simulated and estimated state %d of the window' % (k + 1), **T)
            if nV and not (S.n('_z') and S.mtype == 'continuous' and c.coll == 'legendre'):   # there the last algebraic value is not at the end of the step
                T['atol'] *= 2
                ctx.close(yn, win[k], 'window-measurement', 'simulated measurement %d of the window with the estimated noise against the given one' % k, **T)
            ctx.count['window_steps'] += 1
            ctx.count['continuous'] += S.mtype == 'continuous'
        ctx.close(ret, X[-1], 'window-newest', 'returned estimate', rtol=1e-9, atol=1e-9)
        if len(ctx.violations) > 3:
            break
    if not done:
        raise core.Inconclusive('no solved step')
    ctx.sig, ctx.desc = ['window', mheref.sig_cfg(c, S), done], mheref.desc_cfg(c, S)
    ctx.nontrivial = ctx.count['window_steps'] >= 2


def run_case(kind, idx, ctx):
    import do_mpc
    {'plan': plan_case, 'loop': loop_case, 'window': window_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p23')
