"""P02: linearisation, linear models, discretisation, steady states (finite-difference / matrix-exponential oracles)."""
import numpy as np
from vf import core
from vf.models import gen_spec, rvals, _size

ID = 'P02'
CASES = {'quick': [('jac', 720), ('lin', 630), ('matrices', 630)], 'thorough': [('jac', 3500), ('lin', 3000), ('matrices', 4000)]}
RULE = ('random nonlinear models: system matrices for random operating points (given as arrays, DM or structures, all or part of the arguments) against central differences of the '
        'independent numpy interpreter; random linearised / matrix-defined / equation-defined linear models: right-hand side, measurement, simulation, sampled-data equivalence '
        '(fine integration and matrix exponential, also for simulated step sequences), every documented conversion method against its formula, and steady states; distinct by structure; non-trivial = at least one matrix set compared')
ASSUMPTIONS = ['central differences: relative tolerance 2e-6', 'linear models declared by equations are homogeneous (no constant or parameter terms), as documented']
NEED = {'jacobians': 250, 'linearised': 60, 'discretised': 100, 'steady': 60, 'simulated_steps': 100, 'conv_zoh': 5, 'conv_foh': 5, 'conv_euler': 5, 'conv_bilinear': 5, 'conv_backward_diff': 5, 'conv_impulse': 4}


def fd(f, x, h=1e-5):
    x = np.asarray(x, float)
    cols = []
    for j in range(x.size):
        a, b = x.copy(), x.copy()
        a[j] += h
        b[j] -= h
        cols.append((f(a) - f(b)) / (2 * h))
    f0 = f(x)
    return np.array(cols).T.reshape(f0.size, x.size) if cols else np.zeros((f0.size, 0))


def true_jac(S, a):
    x, u, z, tvp, p = a
    return (fd(lambda q: S.f_rhs(q, u, z, tvp, p), x), fd(lambda q: S.f_rhs(x, q, z, tvp, p), u),
            fd(lambda q: S.f_meas(q, u, z, tvp, p), x), fd(lambda q: S.f_meas(x, q, z, tvp, p), u))


def cmp(ctx, got, want, key, what, tol=2e-6, **kw):
    for n, g, w in zip('ABCD', got, want):
        g = np.asarray(g.full() if hasattr(g, 'full') else g, float)
        ctx.check(g.shape == w.shape or (w.size == 0 and g.size == 0), key + '-shape', '%s: shape of %s is %s instead of %s' % (what, n, g.shape, w.shape))
        ctx.close(g, w, key + '-' + n, '%s: %s' % (what, n), rtol=tol, atol=tol, **kw)


def as_arg(rng, model, t, v):
    import casadi as ca
    k = rng.integers(4)
    if k == 0:
        return v
    if k == 1:
        return ca.DM(v)
    if k == 2:
        return v.reshape(-1, 1)
    s = getattr(model, t)(0)
    s.master = ca.DM(v).reshape(s.cat.shape) if v.size else s.cat
    return s


def jac_case(ctx, do_mpc):
    import casadi as ca
    rng = ctx.rng
    S = gen_spec(rng, sym='SX', matpar=True)
    ctx.sig, ctx.desc = ['jac'] + S.sig(), S.describe()
    m = S.build(do_mpc, rng)
    for _ in range(2):
        a = [rvals(rng, S, t, 1.5) for t in ('_x', '_u', '_z', '_tvp', '_p')]
        want = true_jac(S, a)
        args = [as_arg(rng, m, t, v) for t, v in zip(('_x', '_u', '_z', '_tvp', '_p'), a)]
        got = m.get_linear_system_matrices(args[0], args[1], z=args[2], tvp=args[3], p=args[4])
        for g in got:
            ctx.check(isinstance(g, np.ndarray), 'numeric-type', 'matrices at a numeric operating point are %s' % type(g))
        cmp(ctx, got, want, 'jac', 'system matrices', at=a)
        ctx.count['jacobians'] += 1
        # leaving arguments out gives matrices that still depend on them
        drop = rng.random(5) < 0.4
        kw = {n: args[i] for i, n in enumerate(('xss', 'uss', 'z', 'tvp', 'p')) if not drop[i]}
        sym = m.get_linear_system_matrices(**kw)
        F = ca.Function('F', [m.x, m.u, m.z, m.tvp, m.p], [ca.SX(ca.DM(g)) if isinstance(g, np.ndarray) else g for g in sym])
        cmp(ctx, F(*a), want, 'jac-symbolic', 'matrices with arguments left out %s' % drop.tolist())
        ctx.count['jacobians'] += 1
    ctx.nontrivial = True


def lin_check(ctx, lm, A, B, C, D, key, tol=2e-6):
    """the linear model evaluates A x + B u / C x + D u and reports these matrices."""
    import casadi as ca
    rng = ctx.rng
    cmp(ctx, (lm.sys_A, lm.sys_B, lm.sys_C, lm.sys_D), (A, B, C, D), key, 'matrices of the linear model', tol)
    for _ in range(2):
        x, u = rng.normal(size=A.shape[0]), rng.normal(size=B.shape[1])
        tvp = np.zeros(lm.n_tvp) + rng.normal()
        p = np.zeros(lm.n_p) + rng.normal()
        w, v = rng.normal(size=lm.n_w), rng.normal(size=lm.n_v)
        r = lm._rhs_fun(x, u, np.zeros(lm.n_z), tvp, p, w).full().ravel()
        ctx.check(lm.n_w == A.shape[0], key + '-noise', 'process noise of a linear model acts on every state (%s)' % lm.n_w)
        if lm.n_w == A.shape[0]:
            # the noise variables are ordered by the declaration of the right-hand sides
            ws = lm.w(0)
            ws.master = ca.DM(w)
            wx = np.concatenate([np.array(ca.DM(ws[n + '_noise'])).ravel() for n in lm.x.keys()])
            ctx.close(r, A @ x + B @ u + wx, key + '-rhs', 'right-hand side of the linear model', rtol=tol, atol=tol)
        y = lm._meas_fun(x, u, np.zeros(lm.n_z), tvp, p, v).full().ravel()
        if lm.n_v == C.shape[0]:
            ctx.close(y, C @ x + D @ u + v, key + '-meas', 'measurement of the linear model', rtol=tol, atol=tol)
        else:
            ctx.check(False, key + '-noise', 'measurement noise size %s' % lm.n_v)


def zoh(A, B, T):
    """sampled system by fine Taylor sub-steps (independent of the matrix exponential routines)"""
    n, m = A.shape[0], B.shape[1]
    M = np.zeros((n + m, n + m))
    M[:n, :n], M[:n, n:] = A, B
    k = int(max(4, np.ceil(np.abs(M * T).sum() * 4)))
    H = M * (T / k)
    E, term = np.eye(n + m), np.eye(n + m)
    for i in range(1, 22):
        term = term @ H / i
        E = E + term
    R = np.linalg.matrix_power(E, k)
    return R[:n, :n], R[:n, n:]


def conversions(ctx, lm, A, B, C, D, key, ts=1):
    """the other documented conversion methods, against their textbook formulas"""
    rng = ctx.rng
    n = A.shape[0]
    I = np.eye(n)
    T = round(float(10 ** rng.uniform(-2, -0.3)), 4) * ts
    Ad, Bd = zoh(A, B, T)
    want = {'zoh': (Ad, Bd, C, D), 'euler': (I + T * A, T * B, C, D)}
    for meth, al in (('backward_diff', 1.0), ('bilinear', 0.5)):
        M = I - al * T * A
        if np.linalg.cond(M) < 1e4:
            iM = np.linalg.inv(M)
            b = iM @ (T * B)
            want[meth] = (iM @ (I + (1 - al) * T * A), b, C @ iM, D + al * C @ b)
    # ramp response for the first-order hold: int exp(A s) B (1 - s/T) ds etc. by Gauss-Legendre on sub-intervals
    g, wg = np.polynomial.legendre.leggauss(8)
    G1, G2 = np.zeros_like(B), np.zeros_like(B)
    K = int(max(4, np.ceil(np.abs(A * T).sum() * 2)))
    for k in range(K):
        for gi, wi in zip(g, wg):
            s = (k + (gi + 1) / 2) * T / K
            E = zoh(A, np.zeros_like(B), s)[0] @ B * (wi * T / K / 2)
            G1 += E * (s / T)          # share of the input at the start of the interval (age s)
            G2 += E * (1 - s / T)      # share of the input at its end
    want['foh'] = (Ad, G1 + Ad @ G2, C, D + C @ G2)
    if not np.any(D):
        want['impulse'] = (Ad, Ad @ B * T, C, C @ B * T)
    names = sorted(want)
    for meth in [names[i] for i in rng.permutation(len(names))][:3]:
        dm = lm.discretize(t_step=T, conv_method=meth)
        ctx.check(dm.model_type == 'discrete', key + '-type', 'model type %s' % dm.model_type)
        lin_check(ctx, dm, *want[meth], key + '-' + meth, tol=1e-9)
        ctx.count['conv_' + meth] += 1


def discretise(ctx, do_mpc, lm, A, B, C, D, key, ts=1):
    rng = ctx.rng
    T = round(float(10 ** rng.uniform(-2, 0.5)), 4) * ts
    ctx.desc = dict(ctx.desc, T=T)
    # the matrices of the continuous model have been compared before: use what it has, exactly
    A, B, C, D = [np.asarray(q.full() if hasattr(q, 'full') else q, float) for q in (lm.sys_A, lm.sys_B, lm.sys_C, lm.sys_D)]
    Ad, Bd = zoh(A, B, T)
    dm = lm.discretize(T) if rng.random() < 0.5 else lm.discretize(t_step=T, conv_method='zoh')
    ctx.count['discretised'] += 1
    ctx.check(dm.model_type == 'discrete', key + '-type', 'model type %s' % dm.model_type)
    for t in ('x', 'u'):
        ctx.check([k for k in dm[t].keys()] == [k for k in lm[t].keys()] and all(dm[t][k].shape == lm[t][k].shape for k in dm[t].keys()), key + '-names', 'variables of the discretised model')
    lin_check(ctx, dm, Ad, Bd, C, D, key, tol=1e-9)
    if rng.random() < 0.5:
        conversions(ctx, lm, A, B, C, D, key + '-conv', ts)
    cmp(ctx, (lm.sys_A, lm.sys_B, lm.sys_C, lm.sys_D), (A, B, C, D), key + '-original', 'continuous model after discretize')
    if rng.random() < 0.5 and lm.n_tvp == 0 and lm.n_p == 0:
        sims = []
        for mod in (lm, dm):
            s = do_mpc.simulator.Simulator(mod)
            s.settings.t_step = T
            if mod is lm:
                s.settings.integration_tool = 'cvodes'
                s.settings.abstol = s.settings.reltol = 1e-10
            s.setup()
            sims.append(s)
        x0 = rng.normal(size=A.shape[0])
        for s in sims:
            s.x0 = x0
        sc = 1.0
        for k in range(4):
            u = rng.normal(size=(B.shape[1], 1))
            ys = [s.make_step(u) for s in sims]
            xs = [np.array(s.x0.cat).ravel() for s in sims]
            sc = max(sc, np.abs(xs[1]).max())
            ctx.close(xs[0], xs[1], key + '-trajectory', 'sampled trajectory of continuous and discretised model', rtol=1e-5, atol=1e-6 * sc)
            ctx.close(ys[0], ys[1], key + '-output', 'sampled output of continuous and discretised model', rtol=1e-5, atol=1e-6 * sc)
            ctx.count['simulated_steps'] += 1
    return dm, Ad, Bd


def steady(ctx, dm, Ad, Bd):
    rng = ctx.rng
    n, m = Bd.shape
    I = np.eye(n)
    cond = np.linalg.cond(I - Ad)
    for _ in range(2):
        uss = np.round(rng.normal(size=(m, 1)), 3)
        if rng.random() < 0.3:
            uss[rng.integers(m)] = 0.
        if cond < 1e6:
            try:
                x = dm.get_steady_state(uss=uss)
            except ValueError as e:
                ctx.check(False, 'steady-refused', 'unique steady state refused: %s' % e, A=Ad)
                continue
            ctx.close(Ad @ np.asarray(x).reshape(-1, 1) + Bd @ uss, x, 'steady-x', 'steady state of a given input is an equilibrium', rtol=1e-9 * cond + 1e-8)
            r = dm._rhs_fun(x, uss, np.zeros(dm.n_z), np.zeros(dm.n_tvp), np.zeros(dm.n_p), 0).full()
            ctx.close(r, x, 'steady-x', 'steady state of a given input does not move under the model equations', rtol=1e-9 * cond + 1e-8)
            # and back: an input that holds this state
            nb = np.linalg.norm(Bd, axis=0)
            Bn = Bd / np.where(nb > 0, nb, 1.0)     # inputs may have different units
            if np.linalg.matrix_rank(Bn, tol=1e-6) == m:
                u2 = dm.get_steady_state(xss=x)
                cb, cn = np.linalg.cond(Bd), np.linalg.cond(Bn)
                if cn < 1e5 and cb < 1e10:
                    ctx.close(Ad @ x + Bd @ np.asarray(u2).reshape(-1, 1), x, 'steady-u', 'input of a given steady state keeps it', rtol=1e-9 * cond * cn + 1e-13 * cond * cb + 1e-7)
                    ctx.count['steady_inputs'] += 1
            ctx.count['steady'] += 1
        elif np.linalg.matrix_rank(I - Ad) < n:
            ctx.raises(lambda: dm.get_steady_state(uss=uss), 'steady-singular', 'no unique steady state exists')
            ctx.count['steady_refused'] += 1


def lin_case(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, sym='SX', nz=0, matpar=False, meas=None)
    ident = False
    if rng.random() < 0.3:      # state measurement plus feedthrough
        S.meas = []
        for n, s in S.vars['_x']:
            S.meas.append(('m' + n, [[(1.0, 'id', [('_x', n, i)])] for i in range(_size(s))], True))
        if rng.random() < 0.6:
            us = S.refs('_u')
            S.meas[0][1][0].append((float(rng.choice([0.7, 1e-4])), 'id', [us[rng.integers(len(us))]]))
        if rng.random() < 0.4:      # sensor gains and cross-talk close to, but not, the identity
            for _, comps, _ in S.meas:
                for c in comps:
                    if rng.random() < 0.5:
                        xs = S.refs('_x')
                        c.append((float(rng.choice([1e-2, -1e-3, 2e-4, -5e-5])), 'id', [xs[rng.integers(len(xs))]]))
        ident = True
    ctx.sig, ctx.desc = ['lin', ident] + S.sig(), S.describe()
    m = S.build(do_mpc, rng)
    a = [rvals(rng, S, t, 1.5) for t in ('_x', '_u', '_z', '_tvp', '_p')]
    A, B, C, D = true_jac(S, a)
    args = [as_arg(rng, m, t, v) for t, v in zip(('_x', '_u', '_z', '_tvp', '_p'), a)]
    lm = do_mpc.model.linearize(m, args[0], args[1], tvp0=args[3], p0=args[4])
    ctx.count['linearised'] += 1
    ctx.nontrivial = True
    ctx.check(lm.model_type == m.model_type, 'lin-type', 'model type')
    for t in ('x', 'u', 'tvp', 'p'):
        ctx.check(list(lm[t].keys()) == list(m[t].keys()), 'lin-names', 'variable names of type %s' % t)
    lin_check(ctx, lm, A, B, C, D, 'lin')
    # first-order expansion of the declared equations
    dx, du = rng.normal(size=A.shape[0]), rng.normal(size=B.shape[1])
    errs = []
    for h in (1e-3, 1e-4):
        f1 = S.f_rhs(a[0] + h * dx, a[1] + h * du, *a[2:]) - S.f_rhs(*a)
        l1 = lm._rhs_fun(h * dx, h * du, [], np.zeros(lm.n_tvp), np.zeros(lm.n_p), 0).full().ravel()
        errs.append(np.abs(f1 - l1).max())
    ctx.check(errs[0] <= 1e-4 and errs[1] <= 1e-6, 'lin-expansion', 'expansion error %s' % errs)
    # auxiliary expressions keep their definition
    for _ in range(2):
        b = [rvals(rng, S, t, 1.0) for t in ('_x', '_u', '_z', '_tvp', '_p')]
        if S.aux:
            ctx.close(lm._aux_expression_fun(*b).full().ravel()[1:], S.f_aux(*b), 'lin-aux', 'auxiliary expressions of the linearised model')
    # the nonlinear model is unchanged
    w, v = np.zeros(S.n_w()), np.zeros(S.n_v())
    ctx.close(m._rhs_fun(*a, w).full().ravel(), S.f_rhs(*a, w), 'lin-original', 'original model after linearize')
    if lm.model_type == 'continuous':
        dm, Ad, Bd = discretise(ctx, do_mpc, lm, A, B, C, D, 'disc')
        steady(ctx, dm, Ad, Bd)
    else:
        steady(ctx, lm, A, B)
        ctx.raises(lambda: lm.discretize(0.1), 'disc-discrete', 'a discrete model cannot be discretised')


def matrices_case(ctx, do_mpc):
    import casadi as ca
    rng = ctx.rng
    mt = ['continuous', 'discrete'][int(rng.random() < 0.4)]
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A, B = np.round(rng.normal(size=(nx, nx)), 3), np.round(rng.normal(size=(nx, nu)), 3)
    k = rng.random()
    if k < 0.2:
        A = np.triu(A, 1)                # nilpotent: integrators / dead-beat
    elif k < 0.35:
        A[rng.integers(nx)] = 0
    elif k < 0.5 and mt == 'discrete':
        A = A - A + np.diag(np.where(rng.random(nx) < 0.4, 1.0, 0.5))   # integrators
    ts = 1
    if mt == 'continuous' and rng.random() < 0.4:
        ts = float(10 ** rng.uniform(-4, 5))      # fast and slow systems with sampling times of their own magnitude
        A, B = A / ts, B / ts
    if rng.random() < 0.3:
        B = B * 10.0 ** rng.integers(-4, 5, size=nu)      # inputs in units of very different magnitude
    cd = rng.integers(4)
    ny = int(rng.integers(1, 4))
    C = np.round(rng.normal(size=(ny, nx)), 3) if cd >= 1 else None
    D = np.round(rng.normal(size=(ny, nu)), 3) if cd >= 2 else None
    if cd == 3:
        C, D = np.eye(nx), np.round(rng.normal(size=(nx, nu)), 3)
    route = ['matrices', 'equations'][rng.integers(2)]
    xs, us = [], []
    left = nx
    while left:
        n = int(rng.integers(1, left + 1))
        xs.append(('x%d' % len(xs), n))
        left -= n
    left = nu
    while left:
        n = int(rng.integers(1, left + 1))
        us.append(('u%d' % len(us), n))
        left -= n
    ctx.sig = ['matrices', mt, nx, nu, cd, route, xs, us, round(float(np.abs(A).sum()), 3)]
    ctx.desc = dict(type=mt, nx=nx, nu=nu, output=int(cd), route=route)
    m = do_mpc.model.LinearModel(mt)
    for n, k in xs:
        m.set_variable('_x', n, (k, 1))
    for n, k in us:
        m.set_variable('_u', n, (k, 1))
    if route == 'matrices':
        m.setup(A, B, C, D)
    else:
        x, u = ca.vertcat(*[m.x[n] for n, _ in xs]), ca.vertcat(*[m.u[n] for n, _ in us])
        f = A @ x + B @ u
        off = {}
        o = 0
        for n, k in xs:
            off[n] = (o, o + k)
            o += k
        names = [n for n, _ in xs]
        rng.shuffle(names)
        for n in names:
            m.set_rhs(n, f[off[n][0]:off[n][1]])
        if C is not None:
            y = C @ x + (D @ u if D is not None else 0)
            if rng.random() < 0.5 and y.shape[0] > 1:
                m.set_meas('ya', y[:1])
                m.set_meas('yb', y[1:])
            else:
                m.set_meas('y', y)
        m.setup()
    Ce = np.eye(nx) if C is None else C
    De = np.zeros((Ce.shape[0], nu)) if D is None else D
    ctx.nontrivial = True
    lin_check(ctx, m, A, B, Ce, De, 'matrices')
    ctx.count['jacobians'] += 1
    if mt == 'continuous':
        dm, Ad, Bd = discretise(ctx, do_mpc, m, A, B, Ce, De, 'mdisc', ts)
        steady(ctx, dm, Ad, Bd)
    else:
        steady(ctx, m, A, B)


def run_case(kind, idx, ctx):
    import do_mpc
    {'jac': jac_case, 'lin': lin_case, 'matrices': matrices_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    from vf.core import main
    main('checks.p02')
