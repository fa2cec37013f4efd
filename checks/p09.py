"""P09: the MHE problem equals the documented estimation problem (reference-model monitor)."""
import numpy as np
import casadi as ca
from vf import core, mheref, ocp
from vf.models import gen_spec, rvals
from checks import p06

ID = 'P09'
CASES = {'quick': [('mhe', 880), ('dae', 240), ('disc', 270), ('pest', 270), ('edit', 190)],
         'thorough': [('mhe', 4000), ('dae', 1200), ('disc', 1200), ('pest', 1500), ('edit', 2000)]}
RULE = ('random models with process/measurement noise flags and estimator configurations (estimated subset, scaling, weights incl. symbolic ones, custom objectives, '
        'bounds, constraints, discretisation); objective compared with an independent formula at random points; trajectories completed by Newton iteration must '
        'satisfy the equations and share their tangent space; inequality rows matched as functions; bounds compared entrywise; distinct by structural signature; '
        'non-trivial = completed trajectory')
ASSUMPTIONS = ['the measurement of stage k is taken at the end of interval k (algebraic states of the last collocation point), as the simulator produces it',
               'factor 1/2 of the theory page is not part of set_default_objective (its documented norm has none)']
NEED = {'trajectories': 300, 'ineq_rows': 200, 'bound_entries': 4000, 'obj_points': 900, 'with_p_est': 80, 'with_w': 60, 'edits': 300}
MAX_INCONCLUSIVE = 0.3


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    kw = {}
    if kind == 'dae':
        kw['nz'] = int(rng.integers(1, 3))
    if kind == 'disc':
        kw['mtype'] = 'discrete'
    if kind == 'pest':
        kw['np_'] = int(rng.integers(1, 4))
    S = gen_spec(rng, aux=int(rng.integers(0, 2)), **kw)
    c = mheref.gen_mhe_cfg(rng, S)
    if kind == 'pest' and not c.p_est:
        c = mheref.gen_mhe_cfg(rng, S, p_est=[S.vars['_p'][0][0]])
    if kind != 'edit':
        ocp.pin_bounds(rng, c.bounds, S.refs('_x', '_u', '_z'))
    ctx.sig, ctx.desc = mheref.sig_cfg(c, S), mheref.desc_cfg(c, S)
    ctx.count['with_p_est'] += bool(c.p_est)
    ctx.count['with_w'] += bool(S.n_w())
    m = S.build(do_mpc, rng)
    if kind == 'edit':
        return edit(ctx, do_mpc, S, c, m)
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng)
    R = mheref.RefMHE(S, c, mhe)
    # noise variables exist only where declared
    n_w = sum(1 for l in mhe.opt_x.labels() if l.startswith('[_w,'))
    n_v = sum(1 for l in mhe.opt_x.labels() if l.startswith('[_v,'))
    ctx.check(n_w == c.N * S.n_w() and n_v == c.N * S.n_v(), 'noise-variables', '%d process and %d measurement noise variables instead of %d and %d' % (n_w, n_v, c.N * S.n_w(), c.N * S.n_v()))
    f = ca.Function('fs', [mhe.nlp['x'], mhe.nlp['p']], [mhe.nlp['f']])
    for j in range(3):
        W, P = rng.normal(size=R.W.shape[0]), rng.normal(size=R.P.shape[0])
        want, _, _, _, t = R.F(W, P)
        ctx.count['obj_points'] += 1
        if not ctx.close(f(W, P), want, 'objective', 'objective (arrival %g, stage %g, slack %g)' % tuple(t.full().ravel()), rtol=1e-8):
            break
    compare(ctx, S, c, mhe, R)
    # auxiliary expressions of the horizon
    if S.aux:
        A = ca.Function('aux', [R.W, R.P], [ca.vertcat(*[R.aux[k] for k in range(c.N)])])
        W, P = rng.normal(size=R.W.shape[0]), rng.normal(size=R.P.shape[0])
        mhe_aux = mhe.opt_aux_expression_fun(W, P)
        na = sum(len(t) for _, t in S.aux)
        got = np.array(mhe_aux).reshape(c.N, -1)[:, 1:]
        ctx.close(got.ravel(), A(W, P).full().ravel(), 'aux', 'auxiliary expressions over the horizon', rtol=1e-8)


def edit(ctx, do_mpc, S, c, m):
    """bounds changed after set-up, or between its two stages, are the bounds of the problem"""
    rng = ctx.rng
    staged = bool(rng.random() < 0.35)
    mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=not staged, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 2})})
    if staged:
        mhe.prepare_nlp()
        ctx.count['staged_edits'] += 1
    inf = (-np.inf, np.inf)
    c.bounds = {r: list(c.bounds.get(r, inf)) for r in S.refs('_x', '_u', '_z')}
    pr = [r for r in S.refs('_p') if r[1] in c.p_est]
    pb = {r: list(c.pbounds.get((r[1], r[2]), inf)) for r in pr}
    log = []
    for _ in range(int(rng.integers(2, 8))):
        i = int(rng.integers(2))
        sd = ('lower', 'upper')[i]
        t = str(rng.choice(['_x', '_x', '_u'] + (['_z'] * bool(S.n('_z'))) + ['_p_est', '_p_est'] * bool(pr)))
        tab, mt = (pb, '_p') if t == '_p_est' else (c.bounds, t)
        ns = sorted({r[1] for r in tab if r[0] == mt})
        if not ns:
            continue
        n = ns[rng.integers(len(ns))]
        allr = [r for r in tab if r[0] == mt and r[1] == n]
        v = round(float(rng.uniform(0, 6)), 3) * (1 if i else -1)
        if rng.random() < 0.15:
            v = np.inf if i else -np.inf
        if len(allr) == 1 or rng.random() < 0.4:
            refs, ind = allr, (sd, t, n)
        else:
            q = int(rng.integers(len(allr)))
            refs, ind = [allr[q]], (sd, t, n, q)
        mhe.bounds[ind] = v
        for r in refs:
            tab[r][i] = v
        log.append((t, sd, n, len(refs) == len(allr)))
        got = np.array(ca.DM(mhe.bounds[sd, t, n])).ravel()
        ctx.check(np.array_equal(got, [tab[r][i] for r in allr]), 'bound-query', 'bound %s read back as %s instead of %s' % (log[-1], got, [tab[r][i] for r in allr]))
        ctx.count['edits'] += 1
    if staged:
        mhe.create_nlp()
    elif rng.random() < 0.3:
        mhe.setup()
        log.append('setup')
    c.pbounds = {(r[1], r[2]): b for r, b in pb.items()}
    R = mheref.RefMHE(S, c, mhe)
    ctx.desc['edits'] = log
    ctx.sig = ctx.sig + [log, staged]
    p06.bounds(ctx, mhe, R, '-edit')
    # single entries, in physical units
    for _ in range(int(rng.integers(1, 3))):
        i = int(rng.integers(2))
        k = int(rng.integers(0, c.N))
        v = round(float(rng.uniform(0, 3)), 3) * (1 if i else -1)
        low = mhe.lb_opt_x if i == 0 else mhe.ub_opt_x
        ind = ('_u', k, S.vars['_u'][0][0]) if S.n('_u') and rng.random() < 0.5 else ('_x', k + 1, -1, S.vars['_x'][0][0])
        low[ind] = v
        j = [int(q) for q in np.array(mhe.opt_x.f[ind]).ravel()]
        for q, w in zip(j, np.array(mhe.opt_x_scaling.cat).ravel()[j]):
            l, u = R.bound_pts[q]
            R.bound_pts[q] = (v / w, u) if i == 0 else (l, v / w)
        ctx.count['entry_edits'] += 1
    p06.bounds(ctx, mhe, R, '-entry')
    # and the solver receives them
    seen = {}
    mhe.settings.supress_ipopt_output()
    mhe.S = p06.Spy(mhe.S, seen)
    mhe.solve()
    mhe.S = mhe.S.real
    for key, i in (('lbx', 0), ('ubx', 1)):
        g = np.array(seen[key]).ravel()[list(R.bound_pts)]
        w = np.array([b[i] for b in R.bound_pts.values()])
        ok = (g == w) | (np.abs(g - w) < 1e-9 * np.maximum(1, np.abs(w)))
        ctx.check(bool(np.all(ok)), 'solver-bounds', '%s handed to the solver differs in %d entries' % (key, int(np.sum(~ok))))
    ctx.nontrivial = True


def compare(ctx, S, c, mhe, R, tag=''):
    rng = ctx.rng
    G, lb, ub = p06.nlp_of(mhe)
    isEq = lb == ub
    J = G.factory('J', ['i0', 'i1'], ['jac:o0:i0'])
    done = 0
    for j in range(2):
        W, P = R.complete(rng.normal(size=R.W.shape[0]) * 0.5, rng.normal(size=R.P.shape[0]) * 0.6)
        if W is None:
            continue
        done += 1
        g = G(W, P).full().ravel()
        r = g[isEq] - lb[isEq]
        ctx.check(np.all(np.abs(r) < 1e-6 * (1 + np.abs(W).max())), 'feasible-rejected' + tag, 'a documented trajectory violates an equation of the generated problem (%.3g, %d rows)' % (np.abs(r).max(initial=0), int(np.sum(np.abs(r) > 1e-6))))
        msg = ocp.rowspace_equal(J(W, P).full()[isEq], R.F(W, P)[3].full())
        ctx.check(msg is None, 'equations' + tag, msg or '')
        ctx.count['trajectories'] += 1
    if not done:
        raise core.Inconclusive('no trajectory could be completed')
    gi, ri = [], []
    for j in range(6):
        W, P = rng.normal(size=R.W.shape[0]) * 0.8, rng.normal(size=R.P.shape[0])
        g = G(W, P).full().ravel()
        u_, l_ = np.isfinite(ub) & ~isEq, np.isfinite(lb) & ~isEq
        gi.append(np.concatenate([(g - ub)[u_], (lb - g)[l_]]))
        ri.append(R.F(W, P)[2].full().ravel())
    gi, ri = np.array(gi).T, np.array(ri).T
    ctx.count['ineq_rows'] += len(ri)
    b = p06.match_rows(ri, gi)
    ctx.check(b is None, 'constraint-missing' + tag, 'documented nonlinear constraint %s of %d is not in the generated problem' % (b, len(ri)))
    b = p06.match_rows(gi, ri)
    ctx.check(b is None, 'constraint-extra' + tag, 'constraint row %s of %d of the generated problem is not documented' % (b, len(gi)))
    p06.bounds(ctx, mhe, R, tag)
    ctx.nontrivial = True


if __name__ == '__main__':
    core.main('checks.p09')
