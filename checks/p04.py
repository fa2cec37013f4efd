"""P04: each simulator step is the true solution of the model over one sample (reference integration as oracle)."""
import numpy as np
import casadi as ca
from scipy.integrate import solve_ivp
from vf import core
from vf.models import as_input, gen_spec, gen_step, rvals

ID = 'P04'
CASES = {'quick': [('disc', 700), ('cont', 700), ('dae', 380), ('discdae', 320), ('life', 320), ('linear', 160), ('tol', 220), ('large', 220)],
         'thorough': [('disc', 2500), ('cont', 2500), ('dae', 1200), ('discdae', 1000), ('life', 1000), ('linear', 500), ('tol', 900), ('large', 900)]}
RULE = ('random models with process/measurement noise, time-varying and uncertain parameters given as functions of time, integrators and input forms; every step is compared with '
        'scipy integration (algebraic equations solved by Newton) or one application of the right-hand side, evaluated by a numpy interpreter of the declaration; distinct by '
        '(structure, integrator, operations); non-trivial = at least three compared steps')
ASSUMPTIONS = ['scipy DOP853/Radau at 1e-11 as reference, tolerance 2e-6', 'for discrete models the measurement uses the algebraic values of the step (the ones that were used by the right-hand side)']
NEED = {'steps': 1500, 'with_w': 300, 'with_v': 300, 'dae_steps': 300, 'tol_steps': 300}


def solve_step(S, x, u, tv, p, w, h, z0):
    zl = [z0]

    def f(t, xx):
        if S.n('_z'):
            zl[0] = S.solve_z(xx, u, tv, p, zl[0])
        return S.f_rhs(xx, u, zl[0], tv, p, w)
    r = solve_ivp(f, (0, h), x, method='DOP853', rtol=1e-11, atol=1e-12)
    if not r.success:
        raise core.Inconclusive('reference integration failed')
    xe = r.y[:, -1]
    return xe, S.solve_z(xe, u, tv, p, zl[0])


arg = as_input


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    if kind == 'linear':
        return linear(ctx, do_mpc)
    if kind == 'tol':
        return tol_case(ctx, do_mpc)
    if kind == 'large':
        return large_case(ctx, do_mpc)
    mt = {'disc': 'discrete', 'discdae': 'discrete', 'cont': 'continuous', 'dae': 'continuous', 'life': None}[kind]
    nz = {'disc': 0, 'cont': 0, 'dae': int(rng.integers(1, 3)), 'discdae': int(rng.integers(1, 3)), 'life': None}[kind]
    S = gen_spec(rng, mtype=mt, nz=nz, nu=int(rng.choice([0, 1, 1, 2, 2])), noise=None)
    if S.n('_u') == 0 and S.n('_p') + S.n('_tvp') == 0 and not S.n('_x'):
        raise core.Inconclusive('nothing to do')
    m = S.build(do_mpc, rng)
    sim = do_mpc.simulator.Simulator(m)
    h = gen_step(rng, S.mtype == 'discrete', 0.05, 1.0)
    tool = None
    opts = {'t_step': h}
    if S.mtype == 'continuous':
        tool = str(rng.choice(['idas', 'collocation'] if S.n('_z') else ['cvodes', 'idas', 'collocation']))
        opts['integration_tool'] = tool
        if tool != 'collocation' and rng.random() < 0.4:
            opts.update(abstol=1e-11, reltol=1e-11)
        if rng.random() < 0.4:
            opts['integration_opts'] = {'max_num_steps': 20000} if tool != 'collocation' else {'number_of_finite_elements': 25}
    if rng.random() < 0.5:
        sim.set_param(**opts)
    else:
        for k, v in opts.items():
            setattr(sim.settings, k, v)
    st = {}
    live = bool(rng.random() < 0.5)         # the functions handed over follow later changes of the values

    def draw():
        a, b = rng.normal(size=S.n('_tvp')) * 0.5, rng.uniform(0.5, 3)
        q, d = rng.normal(size=S.n('_p')) * 0.5, rng.uniform(0.5, 3)
        st['tvp'] = lambda t: a + 0.4 * np.sin(b * t)
        st['p'] = lambda t: q + 0.4 * np.cos(d * t)

    def install():
        f = lambda t: float(np.ravel(t)[0])
        keep = rng.random() < 0.5
        tt, pt = sim.get_tvp_template(), sim.get_p_template()
        const = dict(st)
        tvp = lambda t: (st if live else const)['tvp'](t)
        p = lambda t: (st if live else const)['p'](t)

        def tvp_fun(t):
            o = tt if keep else sim.get_tvp_template()
            o.master = ca.DM(tvp(f(t)))
            return o

        def p_fun(t):
            o = pt if keep else sim.get_p_template()
            o.master = ca.DM(p(f(t)))
            return o
        if S.n('_tvp'):
            sim.set_tvp_fun(tvp_fun)
        if S.n('_p'):
            sim.set_p_fun(p_fun)
    draw(); install()
    sim.setup()
    x = rvals(rng, S, '_x')
    z = np.zeros(S.n('_z'))
    sim.x0 = as_input(rng, x, m._x, flat=True)
    t = 0.0
    if rng.random() < 0.4:
        t = round(float(rng.uniform(-3, 8)), 2)
        sim.t0 = t
    u = rvals(rng, S, '_u')
    if S.n('_z'):
        z = S.solve_z(x, u, st['tvp'](t), st['p'](t))
        how = rng.integers(3) if S.n('_z') else 2
        if how == 0 and S.n('_u'):
            sim.u0 = u
            sim.z0 = z + rng.normal(size=z.size) * 0.05
            zi = sim.init_algebraic_variables()
            ctx.close(np.ravel(zi), z, 'init-algebraic', 'initial algebraic variables', rtol=1e-6, atol=1e-7)
        elif how == 1:
            sim.z0 = z
            sim.set_initial_guess()
        else:
            sim.z0 = z + rng.normal(size=z.size) * 0.01 if S.mtype == 'discrete' else z
            sim.set_initial_guess()
    n = int(rng.integers(4, 7))
    nrec = 0
    hist = []
    for k in range(n):
        if kind == 'life' and k and rng.random() < 0.6:
            op = rng.integers(5)
            if op == 4:
                # the same time again, with other values
                t = tlast
                sim.t0 = t
                draw()
                if not live:
                    install()
            elif op == 0:
                sim.reset_history(); t = 0.0; nrec = 0
            elif op == 1:
                t = round(float(rng.uniform(0, 10)), 2)
                sim.t0 = [t, np.array([t]), ca.DM(t)][rng.integers(3)]
            elif op == 2:
                x = rvals(rng, S, '_x')
                sim.x0 = x
            else:
                draw()
                if not live or rng.random() < 0.5:
                    install()
            hist.append(int(op))
        tlast = t
        tv, p = st['tvp'](t), st['p'](t)
        u = rvals(rng, S, '_u')
        w = rng.normal(size=S.n_w()) * 0.3 if S.n_w() and rng.random() < 0.7 else None
        v = rng.normal(size=S.n_v()) * 0.3 if S.n_v() and rng.random() < 0.7 else None
        kw = {}
        if w is not None:
            kw['w0'] = arg(rng, w, m._w); ctx.count['with_w'] += 1
        if v is not None:
            kw['v0'] = arg(rng, v, m._v); ctx.count['with_v'] += 1
        if S.n('_u') or rng.random() < 0.3:
            kw['u0'] = arg(rng, u, m._u) if S.n('_u') else np.zeros((0, 1))
        if not S.n('_u'):
            kw.pop('u0', None)
        if S.mtype == 'discrete':
            zk = S.solve_z(x, u, tv, p, z)
            xn, zn = S.f_rhs(x, u, zk, tv, p, w), zk
        else:
            xn, zn = solve_step(S, x, u, tv, p, w, h, z)
        if np.abs(xn).max() > 1e3:
            raise core.Inconclusive('trajectory left the working range')
        y = np.ravel(sim.make_step(**kw))
        nrec += 1
        ctx.count['steps'] += 1
        ctx.count['dae_steps'] += bool(S.n('_z'))
        tol = dict(rtol=1e-9, atol=1e-10) if S.mtype == 'discrete' and not S.n('_z') else dict(rtol=2e-6, atol=2e-6)
        ok = ctx.close(np.ravel(np.array(sim.x0.cat)), xn, 'state', 'state after the step (%s)' % (tool or 'discrete'), **tol)
        ok &= ctx.close(y, S.f_meas(xn, u, zn, tv, p, v), 'measurement', 'returned measurement', **tol)
        if S.n('_z'):
            zs = np.ravel(np.array(sim.sim_z_num.cat))
            ctx.close(zs, zn, 'algebraic', 'algebraic variables of the step', **tol)
        t += h
        ctx.close(np.ravel(sim.t0) / h, t / h, 'time', 'time after the step', rtol=1e-9, atol=1e-9)
        ctx.check(sim.data._time.shape[0] == nrec and sim.data._x.shape[0] == nrec, 'recorded-once', 'record length %d instead of %d' % (sim.data._time.shape[0], nrec))
        ctx.close(sim.data._time[-1] / h, (t - h) / h, 'recorded-time', 'recorded time', rtol=1e-9, atol=1e-9)
        ctx.close(sim.data._x[-1], x, 'recorded-state', 'recorded state', **tol)
        ctx.close(sim.data._y[-1], y, 'recorded-measurement', 'recorded measurement')
        if not ok or len(ctx.violations) > 3:
            break
        # continue from what the simulator has, so that errors do not accumulate in the comparison
        x, z = np.ravel(np.array(sim.x0.cat)), zn
    ctx.sig, ctx.desc = [S.sig(), tool, hist], dict(S.describe(), tool=tool, h=h, ops=hist)
    ctx.nontrivial = ctx.count['steps'] >= 3


def linear(ctx, do_mpc):
    from scipy.linalg import expm
    rng = ctx.rng
    nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    cont = bool(rng.random() < 0.6)
    A = rng.normal(size=(nx, nx)) * 0.6 - (np.eye(nx) if cont else 0)
    B = rng.normal(size=(nx, nu))
    C = np.round(rng.normal(size=(int(rng.integers(1, 3)), nx)), 3) if rng.random() < 0.6 else None
    D = np.round(rng.normal(size=(C.shape[0], nu)), 3) if C is not None and rng.random() < 0.4 else None
    m = do_mpc.model.LinearModel('continuous' if cont else 'discrete')
    m.set_variable('_x', 'x', (nx, 1)); m.set_variable('_u', 'u', (nu, 1))
    m.setup(A, B, C, D)
    sim = do_mpc.simulator.Simulator(m)
    h = round(float(rng.uniform(0.1, 1)), 2)
    sim.set_param(t_step=h)
    if cont:
        sim.set_param(integration_tool=str(rng.choice(['cvodes', 'collocation', 'idas'])))
    sim.setup()
    x = rng.normal(size=nx)
    sim.x0 = x
    if cont:
        M = expm(np.block([[A, B], [np.zeros((nu, nx + nu))]]) * h)
        Ad, Bd = M[:nx, :nx], M[:nx, nx:]
    else:
        Ad, Bd = A, B
    Cc = np.eye(nx) if C is None else C
    for k in range(5):
        u = rng.normal(size=nu)
        x = Ad @ x + Bd @ u
        y = sim.make_step(u.reshape(-1, 1))
        ctx.close(np.ravel(y), Cc @ x + (D @ u if D is not None else 0), 'linear-measurement', 'measurement of the linear model', rtol=2e-6, atol=2e-6)
        ctx.close(np.ravel(np.array(sim.x0.cat)), x, 'linear-state', 'state of the linear model', rtol=2e-6, atol=2e-6)
        ctx.count['steps'] += 1
        x = np.ravel(np.array(sim.x0.cat))
    ctx.sig, ctx.desc = [nx, nu, cont, C is not None, D is not None], dict(nx=nx, nu=nu, continuous=cont)
    ctx.nontrivial = True


def tol_case(ctx, do_mpc):
    """states of very different magnitude: the integration honours the absolute and the relative tolerance that were set"""
    from scipy.linalg import expm
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    sym = str(rng.choice(['SX', 'MX']))
    m = do_mpc.model.Model('continuous', sym)
    sc = 10. ** rng.uniform(*[(-9, -6), (-4, -1), (0, 0), (3, 7)][rng.integers(4)], size=n)
    # damped oscillators and decays in scaled coordinates
    A = rng.normal(size=(n, n)) * 2 - 0.5 * np.eye(n)
    As = np.diag(sc) @ A @ np.diag(1 / sc)
    xs = [m.set_variable('_x', 'x%d' % i) for i in range(n)]
    u = m.set_variable('_u', 'u')
    for i in range(n):
        m.set_rhs('x%d' % i, sum(As[i, j] * xs[j] for j in range(n)) + sc[i] * u)
    m.setup()
    sim = do_mpc.simulator.Simulator(m)
    tool = str(rng.choice(['cvodes', 'idas']))
    lo, hi = float(rng.choice([1e-11, 1e-10])), float(rng.choice([1e-4, 1e-3]))
    # tight relative with loose absolute tolerance for large states and vice versa; both tight otherwise
    smin, smax = sc.min(), sc.max()
    if smin >= 1e3:
        ab, re = hi * smin * 1e-4, 1e-9
    elif smax <= 1e-6:
        ab, re = 1e-9 * smin, 1e-4
    else:
        ab, re = [(lo, 1e-9), (1e-9, lo), (1e-12, 1e-6)][rng.integers(3)]
    h = float(rng.choice([0.1, 1.0, 2.5]))
    if rng.random() < 0.5:
        sim.set_param(t_step=h, integration_tool=tool, abstol=ab, reltol=re)
    else:
        sim.settings.t_step, sim.settings.integration_tool, sim.settings.abstol, sim.settings.reltol = h, tool, ab, re
    if rng.random() < 0.3:
        sim.settings.integration_opts = {'max_num_steps': 50000}
    sim.setup()
    x = sc * rng.uniform(0.3, 2, size=n) * rng.choice([-1, 1], size=n)
    sim.x0 = x
    M = expm(np.block([[A, np.ones((n, 1))], [np.zeros((1, n + 1))]]) * h)
    grow = max(1., np.abs(M[:n, :n]).sum())
    for k in range(4):
        uk = float(rng.normal())
        want = sc * (M[:n, :n] @ (x / sc) + M[:n, n] * uk)
        sim.make_step(np.array([[uk]]))
        got = np.ravel(np.array(sim.x0.cat))
        # the local errors accumulate over the internal steps and grow with the system
        lim = 300 * grow * (re * np.max(np.maximum(np.abs(want), np.abs(x)) / sc) + ab / smin) * sc
        ctx.count['tol_steps'] += 1
        if not ctx.check(np.all(np.abs(got - want) <= lim + 1e-13 * np.abs(want)), 'tolerance', 'the error of the integration is far above the tolerances that were set (abstol %g, reltol %g, %s)' % (ab, re, tool),
                         got=got, want=want, limit=lim):
            break
        x = got
    ctx.sig, ctx.desc = [tool, n, ab, re, h, sc.tolist()], dict(n=n, tool=tool, abstol=ab, reltol=re, scale=sc, h=h)
    ctx.nontrivial = True


def large_case(ctx, do_mpc):
    """states and algebraic variables of any magnitude, started at any time from any guess"""
    rng = ctx.rng
    disc = bool(rng.random() < 0.6)
    m = do_mpc.model.Model('discrete' if disc else 'continuous', ['SX', 'MX'][rng.integers(2)])
    K = float(10 ** rng.uniform(-3, 6))
    G = float(10 ** rng.uniform(-2, 3))
    if K * G > 1e4:
        G = 1e4 / K
    x, u = m.set_variable('_x', 'x'), m.set_variable('_u', 'u')
    z = m.set_variable('_z', 'z', (2, 1))
    q, tv = m.set_variable('_p', 'q'), m.set_variable('_tvp', 'tv')
    a, b, c = [float(v) for v in rng.uniform(0.2, 0.8, 3)]
    # z = K G (...), solved below by its structure: z1 first, then z0
    m.set_alg('one', z[0] / (K * G) - (x / K + q * u) - c * ca.tanh(z[1] / (K * G)))
    m.set_alg('two', z[1] / (K * G) - a * x / K - tv)
    m.set_rhs('x', (b * x + 0.3 * z[0] / G) if disc else (-b * x + 0.3 * z[0] / G))
    m.set_meas('y', z[1] + x)
    m.setup()
    sim = do_mpc.simulator.Simulator(m)
    h = gen_step(rng, disc, 0.05, 0.5)
    sim.settings.t_step = h
    if not disc:
        sim.settings.integration_tool = 'idas'
        sim.settings.abstol = 1e-10 * K * max(G, 1.0)
    w1, w2 = rng.uniform(0.5, 3, 2)
    fq, ft = (lambda t: 0.5 + 0.4 * np.cos(w1 * t)), (lambda t: 0.4 * np.sin(w2 * t))
    pt, tt = sim.get_p_template(), sim.get_tvp_template()

    def p_fun(t):
        pt['q'] = fq(float(np.ravel(t)[0]))
        return pt

    def tvp_fun(t):
        tt['tv'] = ft(float(np.ravel(t)[0]))
        return tt
    sim.set_p_fun(p_fun)
    sim.set_tvp_fun(tvp_fun)
    sim.setup()

    def alg(xx, uu, t):
        z1 = K * G * (a * xx / K + ft(t))
        return np.array([K * G * (xx / K + fq(t) * uu + c * np.tanh(z1 / (K * G))), z1])
    t = round(float(rng.uniform(-3, 8)), 2) if rng.random() < 0.7 else 0.0
    xx, uu = float(rng.normal()) * K, float(rng.normal())
    sim.t0, sim.x0, sim.u0 = t, np.array([xx]), np.array([uu])
    zz = alg(xx, uu, t)
    sim.z0 = zz * rng.uniform(0.5, 1.5, 2) if rng.random() < 0.5 else np.zeros(2)
    got = np.ravel(sim.init_algebraic_variables())
    big = K * G
    ctx.close(got, zz, 'init-algebraic', 'initial algebraic variables (magnitude %.1e)' % big, rtol=1e-5, atol=1e-5 * min(big, 1.0) + 2e-7)
    if not disc:
        sim.z0 = zz
        sim.set_initial_guess()
    for k in range(3):
        uu = float(rng.normal())
        zz = alg(xx, uu, t)
        if disc:
            want = b * xx + 0.3 * zz[0] / G
        else:
            r = solve_ivp(lambda s, v: [-b * v[0] + 0.3 * (v[0] + K * fq(t) * uu + K * c * np.tanh(a * v[0] / K + ft(t)))], (0, h), [xx], method='DOP853', rtol=1e-11, atol=1e-13 * K)
            want = r.y[0, -1]
            sim.z0 = zz
            sim.set_initial_guess()
        try:
            sim.make_step(np.array([[uu]]))
        except RuntimeError as e:
            if disc or 'IDA' not in str(e):
                raise
            raise core.Inconclusive('integrator failed')
        new = float(np.ravel(sim.x0.cat)[0])
        ctx.close(new / K, want / K, 'large-state', 'state after step %d (magnitude %.1e)' % (k, K), rtol=1e-5, atol=1e-5)
        ctx.count['steps'] += 1
        xx, t = new, t + h
    ctx.sig, ctx.desc, ctx.nontrivial = ['large', disc, m.symvar_type, int(np.log10(K)), int(np.log10(G))], dict(magnitude=K, algebraic=K * G, discrete=disc), True


if __name__ == '__main__':
    core.main('checks.p04')
