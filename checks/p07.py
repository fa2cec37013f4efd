"""P07: every MPC step solves the current problem and returns its first input (online monitor over step histories)."""
import numpy as np
import casadi as ca
import scipy.optimize as so
from vf import core
from vf.models import as_input, gen_spec, rvals, rterms, _size
from vf import ocp

ID = 'P07'
CASES = {'quick': [('loop', 320), ('robust', 130), ('convex', 130), ('bounds', 130), ('life', 130), ('entry', 60)],
         'thorough': [('loop', 2500), ('robust', 800), ('convex', 800), ('bounds', 800), ('life', 800), ('entry', 200)]}
RULE = ('random controllers driven through random histories (steps with states in all accepted forms, bound and terminal-bound edits, exchanged parameter '
        'functions, changed time and previous input, history resets, repeated initial guesses); an online monitor at the solver boundary predicts '
        'parameters, bounds, time and returned input of every step and checks each reported optimum for feasibility, stationarity and (convex kind) cost '
        'against an independent QP; distinct by (configuration, operation sequence), non-trivial = at least two monitored steps')
ASSUMPTIONS = ['ipopt success flag and tolerances (residual 1e-5, stationarity 1e-3 relative)']
NEED = {'steps': 600, 'optima_checked': 200, 'qp_compared': 20, 'bound_edits': 40}
MAX_INCONCLUSIVE = 0.3


class Recorder:
    """stands at the solver boundary: keeps the numbers of every call"""

    def __init__(self, S):
        self.S = S
        self.calls = []

    def __call__(self, **kw):
        rec = {k: np.array(ca.DM(v.cat if hasattr(v, 'cat') else v)).ravel() for k, v in kw.items()}
        r = self.S(**kw)
        rec['r'] = {k: np.array(v).ravel() for k, v in r.items()}
        rec['stats'] = self.S.stats()
        self.calls.append(rec)
        return r

    def __getattr__(self, n):
        return getattr(self.S, n)


def bounded_costs(rng, S, c):
    """costs that are bounded below"""
    ops = ['sin', 'tanh', 'rat', 'gauss', 'cos']
    refs = S.refs('_x', '_u', '_z', '_tvp', '_p')
    sq = lambda rs: [(round(float(rng.uniform(.2, 2)), 3), 'sq', [r]) for r in rs]
    c.lterm = sq(S.refs('_x', '_u', '_z')) + rterms(rng, refs, n=2, ops=ops)
    c.mterm = sq(S.refs('_x')) + rterms(rng, S.refs('_x', '_tvp', '_p'), n=1, ops=ops)
    if c.rterm is not None:
        c.rterm = []
        for i, r in enumerate(S.refs('_u')):
            w = round(float(rng.uniform(0.1, 1)), 3)
            c.rterm += [(w, 'sq', [r]), (-2 * w, 'prod', [r, ('_uprev', None, i)]), (w, 'sq', [('_uprev', None, i)])]
        c.rterm += rterms(rng, refs, n=1, ops=ops)
    for q in c.cons:
        q['terms'] = [rterms(rng, refs, n=2, ops=ops) for _ in q['terms']]
        q['ub'] = np.abs(q['ub']) + 1.0 if isinstance(q['ub'], np.ndarray) else float(abs(q['ub']) + 1.0)


class World:
    """expected state of the controller"""

    def __init__(self, rng, S, c):
        self.rng, self.S, self.c = rng, S, c
        self.t = 0.0
        self.up = np.zeros(S.n('_u'))
        self.live = bool(rng.random() < 0.5)        # the functions handed over follow later changes of the values
        self.new_tvp(); self.new_p()

    def new_tvp(self):
        a, b = self.rng.normal(size=(self.c.N + 1, self.S.n('_tvp'))) * 0.5, self.rng.normal()
        self.tvp = lambda t: a + np.sin(b * t) * 0.3

    def new_p(self):
        a, b = self.rng.normal(size=(self.c.n_comb, self.S.n('_p'))) * 0.5, self.rng.normal()
        self.p = lambda t: a + np.cos(b * t) * 0.2

    def funs(self, mpc):
        """parameter functions in the two usual styles: fresh template or one re-used template"""
        st = {'tvp': mpc.get_tvp_template() if self.rng.random() < 0.5 else None, 'p': mpc.get_p_template(self.c.n_comb) if self.rng.random() < 0.5 else None}
        const, live = (self.tvp, self.p), self.live
        tvp = lambda t: (self.tvp if live else const[0])(t)
        p = lambda t: (self.p if live else const[1])(t)

        def tvp_fun(t):
            tpl = st['tvp'] if st['tvp'] is not None else mpc.get_tvp_template()
            v = tvp(float(np.ravel(t)[0]))
            for k in range(len(v)):
                tpl['_tvp', k] = v[k]
            return tpl

        def p_fun(t):
            tpl = st['p'] if st['p'] is not None else mpc.get_p_template(self.c.n_comb)
            v = p(float(np.ravel(t)[0]))
            for k in range(len(v)):
                tpl['_p', k] = v[k]
            return tpl
        return p_fun, tvp_fun


def check_step(ctx, S, c, mpc, R, W, x0, ret, rec, free_bounds=None):
    ctx.count['steps'] += 1
    if not ctx.check(len(rec.calls) == 1, 'one-solve', '%d solver calls in one step' % len(rec.calls)):
        return
    k = rec.calls.pop()
    P = k['p']
    fp = mpc.opt_p.f
    pid = lambda *ind: [int(i) for i in np.array(fp[ind]).ravel()]
    ctx.close(P[pid('_x0')], x0, 'p-x0', 'initial state in the problem')
    ctx.close(P[pid('_u_prev')], W.up, 'p-uprev', 'previous input in the problem')
    if S.n('_tvp'):
        ctx.close(np.concatenate([P[pid('_tvp', j)] for j in range(c.N + 1)]), W.tvp(W.t).ravel(), 'p-tvp', 'time-varying parameters in the problem')
    if S.n('_p'):
        ctx.close(np.concatenate([P[pid('_p', j)] for j in range(c.n_comb)]), W.p(W.t).ravel(), 'p-p', 'uncertain parameters in the problem')
    # bounds in force
    lab = None
    for i, (l, u) in R.bound_pts.items():
        if free_bounds and i in free_bounds:
            l, u = free_bounds[i]
        if not (np.isclose(k['lbx'][i], l, rtol=1e-9, atol=1e-12) or k['lbx'][i] == l) or not (np.isclose(k['ubx'][i], u, rtol=1e-9, atol=1e-12) or k['ubx'][i] == u):
            lab = mpc.opt_x.labels()[i]
            ctx.check(False, 'bounds-in-force', 'solver got [%g, %g] for %s, bounds in force are [%g, %g] (scaled)' % (k['lbx'][i], k['ubx'][i], lab, l, u))
            break
    else:
        ctx.check(True, 'bounds-in-force')
    ctx.count['bound_entries'] += len(R.bound_pts)
    x = k['r']['x']
    su = ocp.scale_vec(c, S, '_u')
    u0 = x[[int(i) for i in np.array(mpc.opt_x.f['_u', 0, 0]).ravel()]] * su
    ctx.close(np.ravel(ret), u0, 'returned-input', 'returned input against the first input of the solution')
    ctx.check(np.shape(ret) == (S.n('_u'), 1), 'returned-shape', 'shape %s' % (np.shape(ret),))
    ctx.close(np.array(mpc.opt_x_num.cat).ravel(), x, 'solution-kept', 'opt_x_num')
    ctx.close(np.array(mpc.opt_x_num_unscaled.cat).ravel()[R.act], (x * np.array(mpc.opt_x_scaling.cat).ravel())[R.act], 'solution-unscaled', 'opt_x_num_unscaled')
    W.t = W.t + c.t_step
    W.up = u0
    ctx.close(np.ravel(mpc.t0) / c.t_step, W.t / c.t_step, 'time', 'time after the step', rtol=1e-9, atol=1e-9)
    ctx.check(np.size(mpc.t0) == 1, 'time', 'time has one element')
    ctx.close(np.array(mpc.u0.cat).ravel(), u0, 'u0-kept', 'stored previous input')
    ctx.close(np.array(mpc.x0.cat).ravel(), x0, 'x0-kept', 'stored state')
    st = k['stats']
    if st['return_status'] == 'Solve_Succeeded':
        optimum(ctx, S, c, mpc, R, x, P, k, free_bounds)
    else:
        ctx.count['unsolved_steps'] += 1
    return k


def optimum(ctx, S, c, mpc, R, x, P, k, free_bounds=None):
    f, eq, ineq, J, _ = R.F(x, P)
    sc = 1 + np.abs(x[R.act]).max()
    e = np.abs(eq.full().ravel()).max()
    ctx.check(e < 1e-5 * sc, 'optimum-dynamics', 'reported optimum violates the model by %.3g' % e)
    h = ineq.full().ravel()
    ctx.check(h.max(initial=-1) < 1e-5 * sc, 'optimum-constraints', 'reported optimum violates a nonlinear constraint by %.3g' % h.max(initial=-1))
    B = dict(R.bound_pts)
    if free_bounds:
        B.update(free_bounds)
    viol = max([max(l - x[i], x[i] - u) for i, (l, u) in B.items()] + [-1])
    ctx.check(viol < 1e-5 * sc, 'optimum-bounds', 'reported optimum violates a bound by %.3g' % viol)
    ctx.count['optima_checked'] += 1
    # stationarity of the documented problem
    if not hasattr(R, 'G'):
        R.G = ca.Function('G', [R.W, R.P], [ca.gradient(R.obj, R.W), ca.jacobian(R.ineq, R.W)])
    g, Jh = R.G(x, P)
    g = g.full().ravel()
    act = np.array(R.act)
    cols = [J.full()[:, act].T]
    lb = [-np.inf * np.ones(cols[0].shape[1])]
    ia = np.nonzero(h > -2e-4)[0]
    if len(ia):
        cols.append(Jh.full()[ia][:, act].T); lb.append(np.zeros(len(ia)))
    pos = {a: q for q, a in enumerate(R.act)}
    for i, (l, u) in B.items():
        for side, b in ((-1, l), (1, u)):
            if np.isfinite(b) and abs(x[i] - b) < 2e-4 * max(1, abs(b)):
                col = np.zeros((len(act), 1)); col[pos[i]] = side
                cols.append(col); lb.append(np.zeros(1))
    A = np.hstack(cols)
    lbv = np.concatenate(lb)
    # unconstrained multipliers first
    y = np.linalg.lstsq(A, -g[act], rcond=None)[0]
    if np.any(y < lbv - 1e-9):
        y = so.lsq_linear(A, -g[act], bounds=(lbv, np.inf), tol=1e-12, max_iter=400).x
    res = np.abs(A @ y + g[act]).max()
    # a residual is only meaningful in comparison with the gradient
    ctx.check(res < 2e-3 * (1 + np.abs(g[act]).max()), 'optimum-stationary', 'reported optimum is not stationary for the documented problem (residual %.3g)' % res)
    # reported multipliers belong to this solution
    return res


def refresh(S, c, mpc):
    return ocp.RefMPC(S, c, mpc)


def give_x0(rng, m, x):
    if rng.random() < 0.1:
        s = m._x(0)
        s.master = ca.DM(x)
        return s
    return as_input(rng, x, m._x, flat=True)


def edit_bounds(ctx, rng, S, c, mpc):
    """tighten/relax one bound after setup; keeps the nominal box around the origin"""
    t = rng.choice(['_x', '_u'] + (['_z'] if S.n('_z') else []) + (['term'] if c.use_term else []))
    refs = S.refs('_x' if t == 'term' else t)
    r = refs[rng.integers(len(refs))]
    side = int(rng.integers(2))
    v = round(float(rng.uniform(0.8, 6)), 3) * (1 if side else -1)
    if rng.random() < 0.15 and t != 'term':
        v = np.inf if side else -np.inf
    d = c.tbounds if t == 'term' else c.bounds
    if t == 'term':
        eff = dict(c.tbounds)
        if not hasattr(c, 'term_live'):
            # sides that were not given follow the state bounds
            xb = {q: c.bounds.get(q, (-np.inf, np.inf)) for q in S.refs('_x')}
            tb = {q: c.tbounds.get(q, (-np.inf, np.inf)) for q in S.refs('_x')}
            if all(b[0] == -np.inf for b in tb.values()) or all(b[1] == np.inf for b in tb.values()):
                return False     # inherited sides: exercised separately
        ocp.set_by_ref(mpc.terminal_bounds, ('upper' if side else 'lower',), S, r, v)
    else:
        ocp.set_by_ref(mpc.bounds, ('upper' if side else 'lower', r[0]), S, r, v)
    old = d.get(r, (-np.inf, np.inf))
    d[r] = (old[0], v) if side else (v, old[1])
    ctx.count['bound_edits'] += 1
    return True


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    if kind == 'convex':
        return convex(ctx, do_mpc)
    kw = {'np_': int(rng.integers(1, 3))} if kind == 'robust' else {}
    S = gen_spec(rng, noise=False, meas=0, nx=int(rng.integers(1, 3)), **kw)
    c = ocp.gen_mpc_cfg(rng, S, robust=(kind == 'robust') or None, max_N=4 if kind != 'robust' else 3, max_scen=4)
    if kind == 'bounds' and rng.random() < 0.7:
        c.use_term = True
        c.tbounds = {r: (-9.0, 9.0) for r in S.refs('_x')}
    bounded_costs(rng, S, c)
    c.deg = min(c.deg, 2)
    m = S.build(do_mpc, rng)
    W = World(rng, S, c)
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 150})})
    if S.n('_p') or c.n_comb > 1:
        mpc.get_p_template(c.n_comb)
    pf, tf = W.funs(mpc)
    if S.n('_p'):
        mpc.set_p_fun(pf)
    if S.n('_tvp'):
        mpc.set_tvp_fun(tf)
    mpc.setup()
    R = refresh(S, c, mpc)
    rec = Recorder(mpc.S)
    mpc.S = rec
    mpc.x0 = rvals(rng, S, '_x')
    if rng.random() < 0.6:
        W.up = rvals(rng, S, '_u')
        mpc.u0 = W.up
    if rng.random() < 0.4:
        W.t = round(float(rng.uniform(0, 5)), 2)
        mpc.t0 = W.t if rng.random() < 0.5 else np.array([[W.t]])
    mpc.set_initial_guess()
    guess = expected_guess(S, c, mpc)
    nsteps = int(rng.integers(3, 6))
    if c.N <= 3 and rng.random() < 0.1:
        nsteps = int(rng.integers(12, 26))
        ctx.count['long_histories'] += 1
    hist = []
    x = rvals(rng, S, '_x')
    free = None

    def install():
        pf, tf = W.funs(mpc)
        if S.n('_p'):
            mpc.set_p_fun(pf)
        if S.n('_tvp'):
            mpc.set_tvp_fun(tf)
    nrec = 0
    for j in range(nsteps):
        op = rng.random()
        if kind in ('bounds',) and j and op < 0.8:
            if edit_bounds(ctx, rng, S, c, mpc):
                R = refresh(S, c, mpc)
                hist.append('bound')
        elif kind == 'entry' and j and op < 0.8:
            # bound of a single entry of the optimisation vector, physical units
            k = int(rng.integers(1, c.N + 1)) if rng.random() < 0.5 else int(rng.integers(0, c.N))
            free = dict(free or {})
            if k < c.N and rng.random() < 0.5:
                n, shp = S.vars['_u'][rng.integers(len(S.vars['_u']))]
                v = round(float(rng.uniform(0.5, 3)), 3)
                mpc.lb_opt_x['_u', k, 0, n] = -v
                mpc.ub_opt_x['_u', k, 0, n] = v
                ids = [int(i) for i in np.array(mpc.opt_x.f['_u', k, 0, n]).ravel()]
                sc = np.broadcast_to(c.scale.get(('_u', n), 1.0), (len(ids),))
            else:
                k = max(k, 1)
                n, shp = S.vars['_x'][rng.integers(len(S.vars['_x']))]
                v = round(float(rng.uniform(3, 6)), 3)
                mpc.lb_opt_x['_x', k, 0, -1, n] = -v
                mpc.ub_opt_x['_x', k, 0, -1, n] = v
                ids = [int(i) for i in np.array(mpc.opt_x.f['_x', k, 0, -1, n]).ravel()]
                sc = np.broadcast_to(c.scale.get(('_x', n), 1.0), (len(ids),))
            for i, s in zip(ids, sc):
                free[i] = (-v / s, v / s)
            hist.append('entry')
            ctx.count['bound_edits'] += 1
        elif kind == 'life' and j:
            if op < 0.25:
                mpc.reset_history(); W.t = 0.0; nrec = 0
                hist.append('reset')
            elif op < 0.4:
                again = rng.random() < 0.4
                W.t = tlast if again else round(float(rng.uniform(0, 5)), 2)
                if again or rng.random() < 0.3:
                    # other values at the same time
                    W.new_tvp(); W.new_p()
                    if not W.live:
                        install()
                mpc.t0 = [W.t, np.array([W.t]), ca.DM(W.t)][rng.integers(3)]
                hist.append('t0')
            elif op < 0.6:
                W.up = rvals(rng, S, '_u')
                mpc.u0 = as_input(rng, W.up, mpc.model._u, flat=True)
                hist.append('u0')
            elif op < 0.8:
                W.new_tvp(); W.new_p()
                if not W.live or rng.random() < 0.5:
                    install()
                hist.append('funs')
            else:
                mpc.set_initial_guess()
                guess = expected_guess(S, c, mpc)
                hist.append('guess')
        hist.append('s')
        arg = give_x0(rng, m, x)
        tlast = W.t
        ret = mpc.make_step(arg)
        if rec.calls:
            if guess is not None:
                ctx.close(rec.calls[-1]['x0'][R.act], guess[R.act], 'initial-guess', 'first guess after set_initial_guess')
                guess = None
        k = check_step(ctx, S, c, mpc, R, W, x, ret, rec, free)
        nrec += 1
        ctx.check(mpc.data['_time'].shape[0] == nrec, 'recorded-once', 'record length')
        if len(ctx.violations) > 3:
            break
        if k is None:
            break
        # next state: the prediction, sometimes something else
        if k['stats']['return_status'] == 'Solve_Succeeded' and rng.random() < 0.7:
            x = np.array(mpc.opt_x_num_unscaled['_x', 1, 0, -1]).ravel() + rng.normal(size=x.size) * 0.02
        else:
            x = rvals(rng, S, '_x')
    ctx.sig, ctx.desc = [ocp.sig_cfg(c, S), hist], dict(ocp.desc_cfg(c, S), history=hist)
    ctx.nontrivial = ctx.count['steps'] >= 2


def expected_guess(S, c, mpc):
    """every node of the prediction is initialised with the current x0/u0/z0 (scaled); slacks are zero at first"""
    W = np.full(mpc.opt_x.shape[0], np.nan)
    prev = np.array(mpc.opt_x_num.cat).ravel()
    W[:] = prev
    for t, attr in (('_x', 'x0'), ('_u', 'u0'), ('_z', 'z0')):
        v = np.array(getattr(mpc, attr).cat).ravel()
        if v.size == 0:
            continue
        sc = ocp.scale_vec(c, S, t)
        ids = np.array(ca.DM(ca.vertcat(*_flat(mpc.opt_x.f[t])))).ravel().astype(int) if False else None
        lab = mpc.opt_x.labels()
        # entries of one block are stored contiguously in multiples of the variable size
        idx = [i for i, l in enumerate(lab) if l.startswith('[' + t + ',')]
        W[idx] = np.tile(v / sc, len(idx) // v.size)
    return W


def convex(ctx, do_mpc):
    """linear-quadratic problem against an independent QP solution"""
    rng = ctx.rng
    S = gen_spec(rng, mtype='discrete', nz=0, ntvp=int(rng.integers(0, 2)), np_=int(rng.integers(0, 2)), noise=False, meas=0, aux=0, nonlin=False)
    c = ocp.gen_mpc_cfg(rng, S, max_N=6, nl=0, max_scen=6)
    sq = lambda rs: [(round(float(rng.uniform(.2, 2)), 3), 'sq', [r]) for r in rs]
    lin = lambda rs: [(round(float(rng.normal()), 3), 'id', [r]) for r in rs]
    c.lterm = sq(S.refs('_x', '_u')) + lin(S.refs('_x'))
    c.mterm = sq(S.refs('_x'))
    c.rterm = None
    for q in range(int(rng.integers(0, 3))):
        c.cons.append(dict(name='con%d' % q, terms=[lin(S.refs('_x', '_u'))], ub=round(float(rng.uniform(0.2, 1.5)), 3), soft=bool(rng.random() < 0.7), pen=round(float(rng.uniform(2, 20)), 3), mv=np.inf))
    m = S.build(do_mpc, rng)
    # tight input bounds so that constraints are active
    for r in S.refs('_u'):
        b = round(float(rng.uniform(0.1, 1.0)), 3)
        c.bounds[r] = (-b, b)
    W = World(rng, S, c)
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 300})})
    mpc.get_p_template(c.n_comb)
    pf, tf = W.funs(mpc)
    if S.n('_p'):
        mpc.set_p_fun(pf)
    if S.n('_tvp'):
        mpc.set_tvp_fun(tf)
    mpc.setup()
    R = refresh(S, c, mpc)
    rec = Recorder(mpc.S)
    mpc.S = rec
    mpc.x0 = rvals(rng, S, '_x')
    mpc.set_initial_guess()
    act = R.act
    Wa = ca.SX.sym('wa', len(act))
    full = ca.SX.zeros(R.W.shape[0])
    full[act] = Wa
    f, eq, iq = ca.Function('q', [R.W, R.P], [R.obj, R.eq, R.ineq])(full, R.P)
    g = ca.vertcat(eq, iq)
    qp = ca.qpsol('qp', 'qrqp', {'x': Wa, 'p': R.P, 'f': f, 'g': g}, {'print_iter': False, 'print_header': False, 'print_info': False, 'error_on_fail': False})
    lb = np.array([R.bound_pts.get(i, (-np.inf, np.inf))[0] for i in act])
    ub = np.array([R.bound_pts.get(i, (-np.inf, np.inf))[1] for i in act])
    x = rvals(rng, S, '_x')
    for j in range(4):
        ret = mpc.make_step(x.reshape(-1, 1))
        k = check_step(ctx, S, c, mpc, R, W, x, ret, rec)
        if k is None:
            return
        if k['stats']['return_status'] == 'Solve_Succeeded':
            sol = qp(p=k['p'], lbx=lb, ubx=ub, lbg=np.concatenate([np.zeros(eq.shape[0]), -np.inf * np.ones(iq.shape[0])]), ubg=0, x0=0)
            if qp.stats()['success']:
                xr = np.array(sol['x']).ravel()
                ga = np.array(ca.DM(sol['g'])).ravel()
                viol = max(np.abs(ga[:eq.shape[0]]).max(), ga[eq.shape[0]:].max(initial=-1), (lb - xr).max(), (xr - ub).max())
                if viol < 1e-7:
                    fr, fi = float(sol['f']), float(R.F(k['r']['x'], k['p'])[0])
                    ctx.check(fi <= fr + 1e-4 * (1 + abs(fr)), 'convex-cost', 'controller cost %.8g, independent QP %.8g' % (fi, fr))
                    ctx.count['qp_compared'] += 1
        x = np.array(mpc.opt_x_num_unscaled['_x', 1, 0, -1]).ravel() if k['stats']['success'] else rvals(rng, S, '_x')
    ctx.sig, ctx.desc = ocp.sig_cfg(c, S), ocp.desc_cfg(c, S)
    ctx.nontrivial = True


if __name__ == '__main__':
    core.main('checks.p07')
