"""P03: DAE -> ODE conversion preserves states, inputs, algebraic trajectories."""
import numpy as np
from vf import core
from vf.models import gen_spec, rvals, _size, evalterms

ID = 'P03'
CASES = {'quick': [('rhs', 900), ('traj', 400)], 'thorough': [('rhs', 4500), ('traj', 1800)]}
RULE = ('random index-1 models (continuous and discrete, SX/MX, scalar and vector variables, coupled algebraic equations, parameters, process noise): the converted right-hand side at '
        'random consistent points against the total derivative (or next consistent point) of an independently solved algebraic system, and simulated trajectories under a random input '
        'signal against an independent integration of the original DAE; distinct by structure; non-trivial = compared at least one point with algebraic variables')
ASSUMPTIONS = ['algebraic equations of discrete models are affine in the algebraic variables (otherwise an explicit map does not exist)', 'parameters constant over the signal']
NEED = {'points': 300, 'steps': 120, 'noisy': 40, 'vector_inputs': 30}


def affine_z(rng, S):
    """make every algebraic equation affine in z, with an x/u/p dependent diagonal"""
    for _, ts in S.alg:
        for j, t in enumerate(ts):
            t[:] = [q for q in t if not (q[1] not in ('id',) and any(r[0] == '_z' for r in q[2]))]
            if rng.random() < 0.4:
                zr = [q[2][0] for q in t if q[1] == 'id' and q[2][0][0] == '_z'][0]
                others = S.refs('_x', '_u', '_p')
                t.append((0.1, 'tprod', [others[rng.integers(len(others))], zr]))
    return S


def spec(rng, kind):
    S = gen_spec(rng, nz=int(rng.integers(1, 4)), noise=None if rng.random() < 0.6 else True, meas=0 if rng.random() < 0.5 else None, matpar=True, shared=False)
    if S.mtype == 'discrete':
        affine_z(rng, S)
    return S


def convert(do_mpc, m):
    return do_mpc.model.dae2odeconversion(m)


def names_check(ctx, S, m, d):
    want = [(n, _size(s)) for t in ('_x', '_u', '_z') for n, s in S.vars[t]]
    got = [(k, int(np.prod(d.x[k].shape))) for k in d.x.keys()]
    ctx.check(got == want, 'states', 'states of the converted model %s instead of %s' % (got, want))
    for t in ('_tvp', '_p'):
        want = [(n, _size(s)) for n, s in S.vars[t]]
        got = [(k, int(np.prod(getattr(d, t[1:])[k].shape))) for k in getattr(d, t[1:]).keys() if k != 'default']
        ctx.check(got == want, 'parameters', '%s of the converted model %s instead of %s' % (t, got, want))
    ctx.check(d.n_z == 0 and d.n_u == S.n('_u') and d.model_type == m.model_type and d.symvar_type == m.symvar_type, 'kind', 'type/sizes of the converted model')
    ctx.check(d.n_y == d.n_x, 'measured', 'all converted states are measured')


def wmap(S, d, w):
    """noise of the converted model from per-state values of the original one"""
    import casadi as ca
    ws = d.w(0)
    off = 0
    for n in S.w_names():
        k = _size(S.shape('_x', n))
        ws[n + '_noise'] = ca.DM(w[off:off + k])
        off += k
    return ws


def rhs_case(ctx, do_mpc):
    rng = ctx.rng
    S = spec(rng, 'rhs')
    ctx.sig, ctx.desc = ['rhs'] + S.sig() + [[len(t) for _, t in S.alg]], S.describe()
    m = S.build(do_mpc, rng)
    d = convert(do_mpc, m)
    names_check(ctx, S, m, d)
    ctx.check(d.n_w == S.n_w(), 'noise', 'process noise kept (%s instead of %s)' % (d.n_w, S.n_w()))
    if any(_size(s) > 1 for _, s in S.vars['_u']):
        ctx.count['vector_inputs'] += 1
    for _ in range(2):
        x, u, tvp, p = [rvals(rng, S, t, 1.2) for t in ('_x', '_u', '_tvp', '_p')]
        z = S.solve_z(x, u, tvp, p)
        if np.abs(S.f_alg(x, u, z, tvp, p)).max() > 1e-10 or np.abs(z).max() > 1e3:
            continue
        q = np.round(rng.normal(size=S.n('_u')), 3)
        w = np.round(rng.normal(size=S.n_w()), 3) * (rng.random() < 0.7)
        if np.any(w):
            ctx.count['noisy'] += 1
        f = S.f_rhs(x, u, z, tvp, p, w)
        r = d._rhs_fun(np.concatenate([x, u, z]), q, [], tvp, p, wmap(S, d, w) if S.n_w() else np.zeros(d.n_w)).full().ravel()
        nx, nu = x.size, u.size
        ctx.close(r[:nx], f, 'x', 'states of the converted model', rtol=1e-9)
        ctx.close(r[nx:nx + nu], q, 'u', 'input states of the converted model', rtol=1e-12)
        if S.mtype == 'continuous':
            h = 1e-5
            zp = S.solve_z(x + h * f, u + h * q, tvp, p, z)
            zm = S.solve_z(x - h * f, u - h * q, tvp, p, z)
            want = (zp - zm) / (2 * h)
            ctx.close(r[nx + nu:], want, 'z', 'rate of the algebraic states', rtol=5e-6, atol=5e-6)
        else:
            zn = S.solve_z(f, q, tvp, p, z)
            if np.abs(S.f_alg(f, q, zn, tvp, p)).max() > 1e-9:
                continue
            ctx.close(r[nx + nu:], zn, 'z', 'next algebraic states', rtol=1e-7, atol=1e-8)
        ctx.count['points'] += 1
        ctx.nontrivial = True
    # the original model is untouched
    a = [rvals(rng, S, t) for t in ('_x', '_u', '_z', '_tvp', '_p')]
    ctx.close(m._rhs_fun(*a, np.zeros(S.n_w())).full().ravel(), S.f_rhs(*a), 'original', 'original model after the conversion')


def traj_case(ctx, do_mpc):
    """simulated converted model against an independent solution of the original DAE under the same input signal"""
    rng = ctx.rng
    S = spec(rng, 'traj')
    ctx.sig, ctx.desc = ['traj'] + S.sig() + [[len(t) for _, t in S.alg]], S.describe()
    m = S.build(do_mpc, rng)
    d = convert(do_mpc, m)
    T = round(float(rng.uniform(0.05, 0.4)), 3)
    tvp, p = rvals(rng, S, '_tvp'), rvals(rng, S, '_p')
    s = do_mpc.simulator.Simulator(d)
    s.settings.t_step = T
    if S.mtype == 'continuous':
        s.settings.abstol = s.settings.reltol = 1e-11
    if S.n('_tvp'):
        tt = s.get_tvp_template()
        tt.master = tvp
        s.set_tvp_fun(lambda t: tt)
    if S.n('_p'):
        pt = s.get_p_template()
        pt.master = p
        s.set_p_fun(lambda t: pt)
    s.setup()
    x, u = rvals(rng, S, '_x'), rvals(rng, S, '_u')
    z = S.solve_z(x, u, tvp, p)
    nx, nu = x.size, u.size
    s.x0 = np.concatenate([x, u, z])
    for k in range(int(rng.integers(2, 5))):
        q = np.round(rng.normal(size=nu), 3)
        y = s.make_step(q.reshape(-1, 1))
        if S.mtype == 'discrete':
            x, u = S.f_rhs(x, u, z, tvp, p), q
            z = S.solve_z(x, u, tvp, p, z)
            tol = dict(rtol=1e-7, atol=1e-8)
        else:
            # RK4 on the reduced system with an inner solve of the algebraic equations
            n = 40
            h = T / n
            st = {'z': z}

            def f(xx, uu):
                st['z'] = S.solve_z(xx, uu, tvp, p, st['z'])
                return S.f_rhs(xx, uu, st['z'], tvp, p)
            for i in range(n):
                um, ue = u + q * h / 2, u + q * h
                k1 = f(x, u)
                k2 = f(x + h / 2 * k1, um)
                k3 = f(x + h / 2 * k2, um)
                k4 = f(x + h * k3, ue)
                x, u = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), ue
            z = S.solve_z(x, u, tvp, p, st['z'])
            tol = dict(rtol=2e-6, atol=2e-6)
        if np.abs(S.f_alg(x, u, z, tvp, p)).max() > 1e-9 or not np.isfinite(x).all() or np.abs(x).max() > 1e3:
            break
        got = np.array(s.x0.cat).ravel()
        ctx.close(got[:nx], x, 'traj-x', 'state trajectory', **tol)
        ctx.close(got[nx:nx + nu], u, 'traj-u', 'input trajectory', **tol)
        ctx.close(got[nx + nu:], z, 'traj-z', 'algebraic trajectory', **tol)
        ctx.close(S.f_alg(got[:nx], got[nx:nx + nu], got[nx + nu:], tvp, p), np.zeros(z.size), 'traj-alg', 'residual of the algebraic equations', rtol=1e-5, atol=1e-5)
        ctx.close(y, got, 'traj-y', 'all states are measured', rtol=1e-12)
        ctx.count['steps'] += 1
        ctx.nontrivial = True


def run_case(kind, idx, ctx):
    import do_mpc
    {'rhs': rhs_case, 'traj': traj_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p03')
