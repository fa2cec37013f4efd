"""P06: constraints of the generated MPC problem describe exactly the documented trajectories."""
import itertools
import numpy as np
import casadi as ca
from vf import core
from vf.models import gen_spec, rvals, _size
from vf import ocp

ID = 'P06'
CASES = {'quick': [('tree', 260), ('dae', 80), ('disc', 90), ('nl', 80), ('robust', 60), ('user', 40), ('edit', 220), ('values', 120)],
         'thorough': [('tree', 4000), ('dae', 1500), ('disc', 1500), ('nl', 1500), ('robust', 1500), ('user', 600), ('edit', 2500), ('values', 2500)]}
RULE = ('random models and controller configurations; a trajectory of the reference tree (own collocation tables, own scenario tree) is completed by '
        'Newton iteration and put into the generated problem: equality residuals must vanish and the tangent space (row space of the Jacobian) must be '
        'that of the documented equations; edit: random changes of state, input, algebraic and terminal bounds, of single entries of the bound vectors and a second set-up after the first; '
        'values: scenarios given as lists of values per parameter; inequality rows are matched as functions at random points; variable bounds are compared entry by entry; '
        'distinct by structural configuration signature, non-trivial = at least one completed trajectory')
ASSUMPTIONS = ['state bounds: nodes (and collocation points where requested) of stages 1..N-1, terminal bounds at the last node',
               'equality sets are compared locally (residual and tangent space) around trajectories near the origin']
NEED = {'edits': 300, 'value_sets': 60, 'trajectories': 300, 'ineq_rows': 300, 'bound_entries': 5000}
MAX_INCONCLUSIVE = 0.3


def nlp_of(mpc):
    """constraints as handed to the solver, split into equalities and inequalities by the limits"""
    G = ca.Function('G', [mpc.nlp['x'], mpc.nlp['p']], [mpc.nlp['g']])
    lb = np.array(ca.DM(mpc.nlp_cons_lb)).ravel()
    ub = np.array(ca.DM(mpc.nlp_cons_ub)).ravel()
    return G, lb, ub


def match_rows(A, B, tol=1e-7):
    """every row of A equals, up to a positive factor, some row of B"""
    if len(A) == 0:
        return None
    if len(B) == 0:
        return 0
    nb = B / np.linalg.norm(B, axis=1)[:, None]
    for i, a in enumerate(A):
        a = a / np.linalg.norm(a)
        if np.min(np.max(np.abs(nb - a), axis=1)) > tol:
            return i
    return None


def compare(ctx, S, c, mpc, R, tag=''):
    rng = ctx.rng
    G, lb, ub = nlp_of(mpc)
    isEq = (lb == ub)
    J = G.factory('J', ['i0', 'i1'], ['jac:o0:i0'])
    ctx.check(len(lb) == G.size1_out(0) == len(ub), 'limits-size', 'number of constraint limits')
    done = 0
    for j in range(2 if R.W.shape[0] > 150 else 3):
        W = rng.normal(size=R.W.shape[0]) * 0.5
        P = rng.normal(size=R.P.shape[0]) * 0.7
        # random points for the inequality rows
        W1 = R.complete(W, P)
        if W1 is None:
            continue
        done += 1
        g = G(W1, P).full().ravel()
        r = g[isEq] - lb[isEq]
        scale = 1 + np.abs(W1).max()
        ctx.check(r.size > 0 and np.all(np.abs(r) < 1e-6 * scale), 'feasible-rejected' + tag, 'a documented trajectory violates an equation of the generated problem (residual %.3g in %d rows)' % (
            np.abs(r).max(initial=0), int(np.sum(np.abs(r) > 1e-6 * scale))), rows=np.nonzero(np.abs(g[isEq] - lb[isEq]) > 1e-6)[0][:20])
        Jn = J(W1, P).full()[isEq]
        Jr = R.F(W1, P)[3].full()
        msg = ocp.rowspace_equal(Jn, Jr)
        ctx.check(msg is None, 'equations' + tag, msg or '')
        ctx.count['trajectories'] += 1
        ctx.count['equations'] += Jr.shape[0]
    if done == 0:
        raise core.Inconclusive('no trajectory could be completed')
    # inequality rows as functions
    M = 6
    gi, ri = [], []
    for j in range(M):
        W = rng.normal(size=R.W.shape[0]) * 0.8
        P = rng.normal(size=R.P.shape[0])
        g = G(W, P).full().ravel()
        up = np.where(np.isfinite(ub) & ~isEq, g - ub, 0.0)
        lo = np.where(np.isfinite(lb) & ~isEq, lb - g, 0.0)
        gi.append(np.concatenate([up[np.isfinite(ub) & ~isEq], lo[np.isfinite(lb) & ~isEq]]))
        ri.append(R.F(W, P)[2].full().ravel())
    gi, ri = np.array(gi).T, np.array(ri).T
    ctx.count['ineq_rows'] += len(ri)
    b = match_rows(ri, gi)
    ctx.check(b is None, 'constraint-missing' + tag, 'documented nonlinear constraint %s of %d is not in the generated problem (%d rows)' % (b, len(ri), len(gi)))
    b = match_rows(gi, ri)
    ctx.check(b is None, 'constraint-extra' + tag, 'constraint row %s of %d of the generated problem is not documented (%d documented rows)' % (b, len(gi), len(ri)))
    bounds(ctx, mpc, R, tag)
    ctx.nontrivial = True


def bounds(ctx, mpc, R, tag=''):
    lbx = np.array(mpc.lb_opt_x.obj._lb_opt_x.cat).ravel() if hasattr(mpc.lb_opt_x, 'obj') else None
    ubx = np.array(mpc.ub_opt_x.obj._ub_opt_x.cat).ravel() if lbx is not None else None
    if lbx is None:
        lbx, ubx = np.array(mpc._lb_opt_x.cat).ravel(), np.array(mpc._ub_opt_x.cat).ravel()
    lab = mpc.opt_x.labels()
    n = 0
    for i, (l, u) in R.bound_pts.items():
        n += 1
        okl = lbx[i] == l or abs(lbx[i] - l) < 1e-9 * max(1, abs(l))
        oku = ubx[i] == u or abs(ubx[i] - u) < 1e-9 * max(1, abs(u))
        if not (okl and oku):
            # bound on a point that the collocation makes a copy of the node is harmless only if equal
            ctx.check(False, 'bound' + tag, 'bound of %s is [%g, %g] instead of [%g, %g] (scaled units)' % (lab[i], lbx[i], ubx[i], l, u))
            break
    else:
        ctx.check(True, 'bound' + tag)
    for i in R.act:
        if i not in R.bound_pts:
            n += 1
            if not (lbx[i] == -np.inf and ubx[i] == np.inf):
                ctx.check(False, 'bound-extra' + tag, '%s carries an undocumented bound [%g, %g]' % (lab[i], lbx[i], ubx[i]))
                break
    ctx.count['bound_entries'] += n


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    kw = {}
    if kind == 'dae':
        kw['nz'] = int(rng.integers(1, 3))
    if kind == 'disc':
        kw['mtype'] = 'discrete'
    if kind in ('robust', 'values'):
        kw['np_'] = int(rng.integers(1, 3))
    S = gen_spec(rng, noise=False, meas=0, aux=0, **kw)
    c = ocp.gen_mpc_cfg(rng, S, robust=(kind == 'robust') or None, big=1 if kind == 'robust' and rng.random() < 0.35 else None, nl=int(rng.integers(1, 4)) if kind == 'nl' else None)
    ctx.sig, ctx.desc = ocp.sig_cfg(c, S), ocp.desc_cfg(c, S)
    m = S.build(do_mpc, rng)
    if kind not in ('user', 'edit'):
        ocp.pin_bounds(rng, c.bounds, S.refs('_x', '_u', '_z'))
        if c.tbounds:
            ocp.pin_bounds(rng, c.tbounds, S.refs('_x'))
    if kind == 'user':
        return user(ctx, do_mpc, S, c, m)
    if kind == 'edit':
        return edit(ctx, do_mpc, S, c, m)
    if kind == 'values':
        return values(ctx, do_mpc, S, c, m)
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng)
    R = ocp.RefMPC(S, c, mpc)
    compare(ctx, S, c, mpc, R)


class Spy:
    """solver that records what it is given"""

    def __init__(self, real, seen):
        self.real, self.seen = real, seen

    def __call__(self, **kw):
        self.seen.update({k: ca.DM(v.cat if hasattr(v, 'cat') else v) for k, v in kw.items()})
        return self.real(**kw)

    def __getattr__(self, n):
        return getattr(self.real, n)


def edit(ctx, do_mpc, S, c, m):
    """bounds changed after set-up are the bounds of the problem"""
    rng = ctx.rng
    if rng.random() < 0.5:
        c.tbounds = {}
    staged = bool(rng.random() < 0.35)      # between prepare_nlp and create_nlp
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=not staged, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 2})})
    if staged:
        mpc.prepare_nlp()
        ctx.count['staged_edits'] += 1
    xr = S.refs('_x')
    tb = [[c.tbounds.get(r, (-np.inf, np.inf))[i] for r in xr] for i in (0, 1)]
    live = [c.use_term and all(np.isinf(tb[i])) for i in (0, 1)]
    c.bounds = {r: list(c.bounds.get(r, (-np.inf, np.inf))) for r in S.refs('_x', '_u', '_z')}
    log = []
    names = {t: [n for n, _ in S.vars[t]] for t in ('_x', '_u', '_z')}
    for _ in range(int(rng.integers(2, 8))):
        i = int(rng.integers(2))
        sd = ('lower', 'upper')[i]
        t = str(rng.choice(['_x', '_x', '_u', 'term', 'term'] + (['_z'] if S.n('_z') else [])))
        tt = '_x' if t == 'term' else t
        n = names[tt][rng.integers(len(names[tt]))]
        k = S.shape(tt, n)
        refs = [r for r in S.refs(tt) if r[1] == n]
        v = round(float(rng.uniform(0, 6)), 3) * (1 if i else -1)
        if rng.random() < 0.15:
            v = np.inf if i else -np.inf
        whole = len(refs) == 1 or rng.random() < 0.4
        if not whole:
            refs = [refs[rng.integers(len(refs))]]
        vs = [v] * len(refs)
        val = v
        if whole and len(refs) > 1 and rng.random() < 0.6 and np.isfinite(v):
            vs = [round(v + (0.25 if i else -0.25) * q, 3) for q in range(len(refs))]
            val = np.array(vs).reshape(-1, 1)
            if isinstance(k, tuple) and len(k) == 2 and k[1] > 1:
                val = val.reshape(k, order='F')
        prop = mpc.terminal_bounds if t == 'term' else mpc.bounds
        head = (sd,) if t == 'term' else (sd, t)
        if whole:
            prop[head + (n,)] = val
        else:
            ocp.set_by_ref(prop, head, S, refs[0], v)
        if t == 'term':
            if live[i]:
                tb[i] = [c.bounds[r][i] for r in xr]
                live[i] = False
            for r, q in zip(refs, vs):
                tb[i][xr.index(r)] = q
        else:
            for r, q in zip(refs, vs):
                c.bounds[r][i] = q
        log.append((t, sd, n, whole))
        got = np.array(ca.DM(prop[head + (n,)])).ravel()
        allr = [r for r in S.refs(tt) if r[1] == n]
        want = [tb[i][xr.index(r)] if t == 'term' else c.bounds[r][i] for r in allr]
        ctx.check(np.array_equal(got, want), 'bound-query', 'bound %s read back as %s instead of %s' % (log[-1], got, want))
        ctx.count['edits'] += 1
    if staged:
        mpc.create_nlp()
        log.append('create_nlp')
    elif rng.random() < 0.3:
        mpc.setup()
        log.append('setup')
        # terminal bounds that are all infinite default to the bounds of the states
        live = [l or (c.use_term and all(np.isinf(tb[i]))) for i, l in enumerate(live)]
    over = [[c.bounds[r][i] if live[i] else tb[i][j] for i in (0, 1)] for j, r in enumerate(xr)]
    c.tb_override = over
    R = ocp.RefMPC(S, c, mpc)
    ctx.desc['edits'] = log
    ctx.sig = ctx.sig + [log]
    bounds(ctx, mpc, R, '-edit')
    # single entries of the bound vectors, in physical units
    for _ in range(int(rng.integers(1, 4))):
        i = int(rng.integers(2))
        k = int(rng.integers(0, c.N))
        v = round(float(rng.uniform(0, 3)), 3) * (1 if i else -1)
        low, prop = (mpc.lb_opt_x, mpc._lb_opt_x) if i == 0 else (mpc.ub_opt_x, mpc._ub_opt_x)
        n = names['_u'][rng.integers(len(names['_u']))]
        ind = ('_u', k, 0, n) if rng.random() < 0.5 else ('_x', k + 1, 0, -1, names['_x'][0])
        low[ind] = v
        j = [int(q) for q in np.array(mpc.opt_x.f[ind]).ravel()]
        sc = np.array(mpc.opt_x_scaling.cat).ravel()[j]
        for q, w in zip(j, sc):
            l, u = R.bound_pts[q]
            R.bound_pts[q] = (v / w, u) if i == 0 else (l, v / w)
        got = np.array(ca.DM(low[ind])).ravel()
        ctx.close(got, v / sc, 'entry-query', 'entry of the bound vector read back', rtol=1e-12)
        ctx.count['entry_edits'] += 1
    bounds(ctx, mpc, R, '-entry')
    # and the solver receives them
    seen = {}
    mpc.settings.supress_ipopt_output()
    mpc.S = Spy(mpc.S, seen)
    mpc.solve()
    mpc.S = mpc.S.real
    for key, i in (('lbx', 0), ('ubx', 1)):
        g = np.array(ca.DM(seen[key].cat if hasattr(seen[key], 'cat') else seen[key])).ravel()
        w = np.array([b[i] for b in R.bound_pts.values()])
        g = g[list(R.bound_pts)]
        ok = (g == w) | (np.abs(g - w) < 1e-9 * np.maximum(1, np.abs(w)))
        ctx.check(bool(np.all(ok)), 'solver-bounds', '%s handed to the solver differs in %d entries' % (key, int(np.sum(~ok))))
    ctx.nontrivial = True


def values(ctx, do_mpc, S, c, m):
    """scenarios given as lists of values of parameters"""
    rng = ctx.rng
    names = [n for n, _ in S.vars['_p']]
    use = [n for n in names if rng.random() < 0.8] or names[:1]
    use = [use[i] for i in rng.permutation(len(use))]
    vals, cnt = {}, 1
    for n in use:
        k = _size(S.shape('_p', n))
        shp = S.shape('_p', n)
        q = int(rng.integers(1, 4))
        if cnt * q > 6:
            q = 1
        cnt *= q
        a = np.round(rng.normal(size=(q, k)) * 0.5, 3)
        vals[n] = a
    c.n_comb = cnt
    c.n_robust = min(c.n_robust if c.n_robust else int(rng.integers(0, 2)), c.N)
    while cnt ** c.n_robust > 9:
        c.n_robust -= 1
    if S.mtype == 'continuous' and c.N * cnt ** c.n_robust * (c.deg + 1) * c.ni * (S.n('_x') + S.n('_z')) > 250:
        c.ni, c.deg, c.N = 1, min(c.deg, 2), min(c.N, 2)
        c.n_robust = min(c.n_robust, c.N)
    c.open_loop = False
    arg = {}
    for n in use:
        a, shp = vals[n], S.shape('_p', n)
        if a.shape[1] == 1:
            arg[n] = a.ravel() if rng.random() < 0.6 else a.ravel().tolist()
        elif isinstance(shp, tuple) and len(shp) == 2 and shp[1] > 1:
            arg[n] = [q.reshape(shp, order='F') for q in a]
        else:
            arg[n] = [q.reshape(-1, 1) for q in a] if rng.random() < 0.5 else a
    ctx.desc.update(n_comb=cnt, values={n: len(a) for n, a in vals.items()})
    ctx.sig = ctx.sig + [sorted((n, len(a)) for n, a in vals.items()), c.n_robust]
    mpc = ocp.build_mpc(do_mpc, S, m, c, set_fun=False, setup=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 2})})
    if S.n('_tvp'):
        t = mpc.get_tvp_template()
        mpc.set_tvp_fun(lambda _: t)
    if rng.random() < 0.3:
        # an earlier choice is replaced
        mpc.set_uncertainty_values(**{use[0]: np.zeros(5) if vals[use[0]].shape[1] == 1 else [np.zeros((vals[use[0]].shape[1], 1))] * 4})
    mpc.set_uncertainty_values(**arg)
    ctx.check(mpc.n_combinations == cnt, 'combinations', 'number of scenarios %s instead of %d' % (mpc.n_combinations, cnt))
    want = []
    for combo in itertools.product(*[range(len(vals[n])) for n in use]):
        d = dict(zip(use, combo))
        want.append(np.concatenate([vals[n][d[n]] if n in d else np.zeros(_size(S.shape('_p', n))) for n in names]))
    want = np.concatenate(want)
    tt = float(rng.uniform(0, 9))
    ctx.close(np.array(mpc.p_fun(tt).cat).ravel(), want, 'parameter-values', 'parameter values of the scenarios', rtol=1e-12)
    ctx.count['value_sets'] += 1
    ocp.finish(mpc, c)
    R = ocp.RefMPC(S, c, mpc)
    mpc.settings.supress_ipopt_output()
    mpc.x0 = rvals(rng, S, '_x')
    mpc.set_initial_guess()
    seen = {}
    mpc.S = Spy(mpc.S, seen)
    mpc.make_step(np.zeros((S.n('_x'), 1)))
    mpc.S = mpc.S.real
    j = [int(q) for b in range(cnt) for q in np.array(mpc.opt_p.f['_p', b]).ravel()]
    ctx.close(np.array(seen['p']).ravel()[j], want, 'parameter-values-solver', 'parameter values handed to the solver', rtol=1e-12)
    compare(ctx, S, c, mpc, R, tag='-values')


def user(ctx, do_mpc, S, c, m):
    """customisation between prepare_nlp and create_nlp: added cost, constraint and entry bound are part of the problem"""
    rng = ctx.rng
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False)
    mpc.prepare_nlp()
    a = round(float(rng.uniform(0.5, 2)), 3)
    k = int(rng.integers(0, c.N))
    un = S.vars['_u'][0][0]
    term = ca.sum1(mpc.opt_x['_u', k, 0]) * a + mpc.opt_x['_x', c.N, 0, -1][0] if True else 0
    mpc.nlp_obj += a * term ** 2
    if rng.random() < 0.5:
        mpc.nlp_cons.append(term)
        mpc.nlp_cons_lb.append(-np.inf * np.ones((1, 1)))
        mpc.nlp_cons_ub.append(a * np.ones((1, 1)))
    else:
        mpc.nlp_cons = mpc.nlp_cons + [term]
        mpc.nlp_cons_lb = mpc.nlp_cons_lb + [-np.inf * np.ones((1, 1))]
        mpc.nlp_cons_ub = mpc.nlp_cons_ub + [a * np.ones((1, 1))]
    mpc.create_nlp()
    R = ocp.RefMPC(S, c, mpc)
    ju = [int(i) for i in np.array(mpc.opt_x.f['_u', k, 0]).ravel()]
    jx = int(np.array(mpc.opt_x.f['_x', c.N, 0, -1]).ravel()[0])
    t = ca.sum1(R.W[ju]) * a + R.W[jx]
    R.ineq = ca.vertcat(R.ineq, t - a)
    R.obj = R.obj + a * t ** 2
    R.F = ca.Function('ref', [R.W, R.P], [R.obj, R.eq, R.ineq, ca.jacobian(R.eq, R.W), R.obj])
    compare(ctx, S, c, mpc, R, tag='-user')
    W, P = rng.normal(size=R.W.shape[0]), rng.normal(size=R.P.shape[0])
    ctx.close(ca.Function('f', [mpc.nlp['x'], mpc.nlp['p']], [mpc.nlp['f']])(W, P), R.F(W, P)[0], 'objective-user', 'objective with the user term', rtol=1e-8)


if __name__ == '__main__':
    core.main('checks.p06')
