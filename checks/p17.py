"""P17: parametric sensitivities against differences of re-solved problems."""
import numpy as np
import casadi as ca
from vf import core, ocp, mheref
from vf.models import gen_spec, rvals, _size
from checks import p07, p08, p10

ID = 'P17'
CASES = {'quick': [('nlp', 990), ('status', 900), ('mpc', 240), ('mhe', 90)], 'thorough': [('nlp', 12000), ('status', 5000), ('mpc', 2500), ('mhe', 800)]}
RULE = ('random parametric problems (equalities, one- and two-sided inequalities, bounds, unused variables and parameters, SX and MX, numpy and CasADi bounds) and random controllers and estimators '
        'with scaling and active constraints are solved, differentiated with random settings, and re-solved at perturbed parameters; derivative of variables and multipliers is compared '
        'with central differences, selected blocks with the structure, over sequences of parameters and run-time bound changes; problems built to violate LICQ, strict complementarity '
        'or the second-order condition are compared with the reported status; distinct by (structure, active set, settings), non-trivial = at least one derivative compared')
ASSUMPTIONS = ['regular: multipliers of active inequalities and slack of inactive ones above 1e-3, smallest singular value of the active gradients above 1e-2, reduced Hessian above 1e-2',
               'solver tolerance 1e-11, central differences with step 2e-4 (and half of it, agreeing)']
NEED = {'derivatives': 350, 'with_active_inequality': 120, 'reduced': 60, 'status_checked': 120, 'controllers': 40, 'bound_changes': 10}
MAX_INCONCLUSIVE = 0.45
SOLVER = dict(ocp.QUIET, **{'ipopt.tol': 1e-11, 'ipopt.acceptable_tol': 1e-11, 'ipopt.constr_viol_tol': 1e-11, 'ipopt.dual_inf_tol': 1e-10, 'ipopt.compl_inf_tol': 1e-10,
                            'ipopt.max_iter': 200, 'ipopt.bound_relax_factor': 0.0, 'ipopt.mu_target': 0.0})
V = lambda q: np.array(ca.DM(q)).ravel()


def dense(q):
    return q.toarray() if hasattr(q, 'toarray') else np.array(ca.DM(q)) if not isinstance(q, np.ndarray) else q


class Ref:
    """regularity and differences of the solution of (f, g, bounds) at p"""

    def __init__(self, x, p, f, g, lbx, ubx, lbg, ubg, solver):
        self.b = dict(lbx=V(lbx), ubx=V(ubx), lbg=V(lbg), ubg=V(ubg))
        self.solver = solver
        self.nx, self.ng, self.np = x.shape[0], g.shape[0], p.shape[0]
        cls = type(x) if isinstance(x, (ca.SX, ca.MX)) else ca.SX
        lam = cls.sym('l', self.ng + self.nx)
        L = f + ca.dot(lam, ca.vertcat(g, x))
        self.H = ca.Function('H', [x, p, lam], [ca.hessian(L, x)[0]])
        self.J = ca.Function('J', [x, p], [ca.jacobian(ca.vertcat(g, x), x)])
        self.G = ca.Function('G', [x, p, lam], [ca.gradient(L, x), g])
        # variables that matter
        self.used = np.array(ca.DM(ca.sum1(ca.jacobian(ca.vertcat(f, g), x).sparsity() and ca.DM(ca.jacobian(ca.vertcat(f, g), x).sparsity(), 1)))).ravel() > 0

    def solve(self, p, r=None, **kw):
        args = dict(self.b, p=p, **kw)
        if r is not None:
            args.update(x0=r['x'], lam_x0=r['lam_x'], lam_g0=r['lam_g'])
        q = self.solver(**args)
        if self.solver.stats()['return_status'] != 'Solve_Succeeded':
            raise core.Inconclusive('not solved')
        return q

    def analyse(self, r, p, tol=1e-3):
        """(regular, status dictionary, active index)"""
        x, lam = V(r['x']), np.concatenate([V(r['lam_g']), V(r['lam_x'])])
        val = np.concatenate([V(r['g']), x])
        lo, hi = np.concatenate([self.b['lbg'], self.b['lbx']]), np.concatenate([self.b['ubg'], self.b['ubx']])
        keep = np.concatenate([np.ones(self.ng, bool), self.used])
        with np.errstate(invalid='ignore'):
            dist = np.minimum(np.abs(val - lo), np.abs(val - hi))
        eq = lo == hi
        act = (dist < 1e-5) & keep
        far = ~act & (dist > tol) | ~keep
        amb = ~(act | far)
        J = np.array(self.J(x, p))[act][:, self.used]
        H = np.array(self.H(x, p, lam))[self.used][:, self.used]
        s = np.linalg.svd(J, compute_uv=False) if J.size else np.array([1.0])
        licq = J.shape[0] <= H.shape[0] and (s.min() > 1e-2 * max(1, s.max()) if J.size else True)
        if J.size:
            _, sv, Vt = np.linalg.svd(J)
            Z = Vt[(sv > 1e-9).sum():].T
        else:
            Z = np.eye(H.shape[0])
        sosc = Z.size == 0 or np.linalg.eigvalsh(Z.T @ H @ Z).min() > 1e-2
        ineq = act & ~eq
        sc_ok = np.all(np.abs(lam[ineq]) > tol)
        sc_bad = np.any(np.abs(lam[ineq]) < 1e-7)
        self.rank_gap = (s.min() < 1e-9 or J.shape[0] > H.shape[0]) if J.size else False
        return bool(licq and sosc and sc_ok and not amb.any()), dict(licq=licq, sosc=sosc, sc_ok=sc_ok, sc_bad=sc_bad, amb=bool(amb.any()), act=act, ineq=ineq)

    def diff(self, r, p, d, h=2e-4):
        def cd(h):
            a, b = self.solve(p + h * d, r), self.solve(p - h * d, r)
            f = lambda k: (V(a[k]) - V(b[k])) / (2 * h)
            for k in ('x', 'lam_g', 'lam_x'):
                v = V(r[k])
                if np.abs(V(a[k]) + V(b[k]) - 2 * v).max(initial=0) > 1e-2 * (1 + np.abs(v).max(initial=0)):
                    raise core.Inconclusive('the neighbouring problems were solved to another solution')
            return f('x'), np.concatenate([f('lam_g'), f('lam_x')])
        x1, l1 = cd(h)
        x2, l2 = cd(h / 2)
        sc = 1 + np.abs(x2).max(initial=0)
        sl = 1 + np.abs(l2).max(initial=0)
        if np.abs(x1 - x2).max(initial=0) > 2e-3 * sc or np.abs(l1 - l2).max(initial=0) > 2e-3 * sl:
            raise core.Inconclusive('differences do not converge')
        return (4 * x2 - x1) / 3, (4 * l2 - l1) / 3


# ---- random problems ------------------------------------------------------------------------------
def rand_nlp(rng, MX=False):
    sym = (ca.MX if MX else ca.SX).sym
    nx, npar = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    ux = [i for i in range(nx) if i == 0 or rng.random() < 0.85]
    up = [i for i in range(npar) if i == 0 or rng.random() < 0.8]
    if rng.random() < 0.3:
        ux, up = list(rng.permutation(nx)[:max(1, len(ux))]), list(rng.permutation(npar)[:max(1, len(up))])
    ux, up = [int(i) for i in ux], [int(i) for i in up]
    x, p = sym('x', nx), sym('p', npar)
    rc = lambda a=0.3, b=1.5: round(float(rng.uniform(a, b)), 3)
    pick = lambda s: int(s[rng.integers(len(s))])

    def lin(k=2):
        e = 0
        for _ in range(k):
            e = e + rc() * rng.choice([-1, 1]) * (x[pick(ux)] if rng.random() < 0.75 else p[pick(up)])
        return e
    f = 0
    for i in ux:
        f = f + rc(0.5, 2) * (x[i] - rc(-1.5, 1.5) - rc(-1, 1) * p[pick(up)]) ** 2
        if rng.random() < 0.4:
            f = f + rc(0.1, 0.6) * ca.sin(x[i] * p[pick(up)])
        if rng.random() < 0.3:
            f = f + rc(0.1, 0.5) * x[i] * x[pick(ux)] * p[pick(up)]
        if rng.random() < 0.3:
            f = f + rc(0.05, 0.3) * x[i] ** 4
    g, lbg, ubg = [], [], []
    neq = int(rng.integers(0, max(1, len(ux)))) if rng.random() < 0.5 else 0
    for _ in range(neq):
        e = lin() + x[pick(ux)] * rc()
        if rng.random() < 0.5:
            e = e + rc(.1, .4) * ca.sin(x[pick(ux)]) * p[pick(up)]
        b = rc(-0.5, 0.5)
        g.append(e); lbg.append(b); ubg.append(b)
    for _ in range(int(rng.integers(0, 4))):
        e = lin()
        if rng.random() < 0.6:
            e = e + rc(.2, .8) * x[pick(ux)] ** 2
        if rng.random() < 0.4:
            e = e * (1 + 0.2 * p[pick(up)])
        k = rng.integers(3)
        lo, hi = -rc(0, 1), rc(0, 1)
        g.append(e); lbg.append(lo if k != 0 else -np.inf); ubg.append(hi if k != 1 else np.inf)
    o = rng.permutation(len(g))
    g, lbg, ubg = [g[i] for i in o], np.array([lbg[i] for i in o]), np.array([ubg[i] for i in o])
    lbx, ubx = np.full(nx, -np.inf), np.full(nx, np.inf)
    for i in range(nx):
        if rng.random() < 0.5:
            if rng.random() < 0.8:
                lbx[i] = -rc(0, 1.2)
            if rng.random() < 0.8:
                ubx[i] = rc(0, 1.2)
    G = ca.vertcat(*g) if g else (ca.MX if MX else ca.SX)(0, 1)
    return dict(x=x, p=p, f=f, g=G), dict(lbx=lbx, ubx=ubx, lbg=lbg, ubg=ubg)


def settings(rng):
    s = {}
    if rng.random() < 0.75:
        s['lin_solver'] = str(rng.choice(['casadi', 'scipy', 'lstsq']))
    for k in ('check_LICQ', 'check_SC', 'track_residuals', 'check_rank', 'lstsq_fallback', 'set_lam_zero'):
        if rng.random() < 0.35:
            s[k] = bool(rng.random() < 0.5)
    return s


def as_form(rng, v):
    k = rng.integers(3)
    return [v.reshape(-1, 1), ca.DM(v), v.copy()][k]


def make_diff(do_mpc, rng, nlp, b, s):
    form = int(rng.integers(3))
    bb = {k: [v.reshape(-1, 1), ca.DM(v), v.copy()][form] for k, v in b.items()}
    if rng.random() < 0.4:
        return do_mpc.differentiator.NLPDifferentiator(nlp, bb, **s)
    d = do_mpc.differentiator.NLPDifferentiator(nlp, bb)
    for k, v in s.items():
        setattr(d.settings, k, v)
    return d


def judge(ctx, R, r, p, D, dx, dl, st, tag, x_scale=None, nd=2, lam_scale=1.0):
    """compare with differences in random directions"""
    rng = ctx.rng
    dx, dl = dense(dx), dense(dl)
    if not ctx.check(dx.shape == (R.nx, R.np) and dl.shape == (R.ng + R.nx, R.np), 'shape' + tag, 'derivatives have shapes %s, %s' % (dx.shape, dl.shape)):
        return
    sx = np.ones(R.nx) if x_scale is None else x_scale
    for _ in range(nd):
        d = rng.normal(size=R.np)
        if rng.random() < 0.4:
            d = np.eye(R.np)[rng.integers(R.np)]
        fx, fl = R.diff(r, p, d)
        fx, fl = fx * R.used, fl * np.concatenate([np.ones(R.ng), R.used])
        ctx.close((dx @ d), fx * sx, 'dx' + tag, 'derivative of the optimal variables', rtol=3e-3, atol=1e-3, direction=d)
        ctx.close((dl @ d), fl, 'dlam' + tag, 'derivative of the multipliers', rtol=5e-3, atol=2e-3, direction=d)
        ctx.count['derivatives'] += 1
    ctx.count['with_active_inequality'] += bool(st['ineq'].any())


def check_status(ctx, D, s, regular, st, tag, undecided=False):
    S = D.status
    licq, sc, rank = s.get('check_LICQ', True), s.get('check_SC', True), s.get('check_rank', False)
    if regular:
        ctx.count['status_checked'] += 1
        ctx.check(S.LICQ is (True if licq else None) or (licq and bool(S.LICQ) is True), 'status-licq' + tag, 'LICQ status %r at a regular solution (check_LICQ %s)' % (S.LICQ, licq))
        ctx.check((bool(S.SC) is True) if sc else S.SC is None, 'status-sc' + tag, 'SC status %r at a regular solution (check_SC %s)' % (S.SC, sc))
        ctx.check((bool(S.full_rank) is True) if rank else S.full_rank is None, 'status-rank' + tag, 'rank status %r at a regular solution' % (S.full_rank,))
        ctx.check(bool(S.lse_solved), 'status-lse' + tag, 'linear system reported as not solved at a regular solution')
        if s.get('track_residuals', True):
            ctx.check(S.residuals is not None and float(S.residuals) < 1e-6, 'status-residuals' + tag, 'residuals %s' % S.residuals)
        else:
            ctx.check(S.residuals is None, 'status-residuals' + tag, 'residuals %s although not requested' % S.residuals)


def nlp_case(ctx, do_mpc):
    rng = ctx.rng
    MX = bool(rng.random() < 0.25)
    nlp, b = rand_nlp(rng, MX)
    s = settings(rng)
    solver = ca.nlpsol('s', 'ipopt', nlp, SOLVER)
    R = Ref(nlp['x'], nlp['p'], nlp['f'], nlp['g'], b['lbx'], b['ubx'], b['lbg'], b['ubg'], solver)
    before = dict(nlp), {k: v.copy() for k, v in b.items()}
    D = make_diff(do_mpc, rng, nlp, b, s)
    ctx.check(set(nlp) == set(before[0]) and all(np.array_equal(b[k], before[1][k]) for k in b), 'input-changed', 'the dictionaries given to the differentiator changed')
    done = 0
    acts = []
    for k in range(3):
        p = np.round(rng.normal(size=R.np) * 0.7, 3)
        try:
            r = R.solve(p, x0=np.clip(rng.normal(size=R.nx) * 0.2, b['lbx'], b['ubx']))
        except core.Inconclusive:
            continue
        regular, st = R.analyse(r, p)
        if not regular:
            ctx.count['irregular'] += 1
            continue
        acts.append(''.join('01'[int(a)] for a in st['act']))
        pn = p if R.np > 1 or rng.random() < 0.7 else [float(p[0]), ca.DM(p)][rng.integers(2)]
        if isinstance(pn, np.ndarray):
            pn = as_form(rng, pn)
        keep = {q: V(r[q]).copy() for q in ('x', 'lam_x', 'lam_g', 'g')}
        dx, dl = D.differentiate(r, pn)
        ctx.check(all(np.array_equal(keep[q], V(r[q])) for q in keep), 'input-changed', 'the solution given to differentiate changed')
        check_status(ctx, D, s, True, st, '')
        try:
            judge(ctx, R, r, p, D, dx, dl, st, '')
        except core.Inconclusive:
            ctx.count['no_difference'] += 1
            continue
        done += 1
        ctx.count['reduced'] += bool(D.status.reduced_nlp)
        if len(ctx.violations) > 3:
            break
    ctx.sig = [R.nx, R.ng, R.np, [int(q) for q in R.used], MX, sorted(s.items()), acts]
    ctx.desc = {'nx': R.nx, 'ng': R.ng, 'np': R.np, 'used': int(R.used.sum()), 'MX': MX, 'settings': s, 'active': acts}
    ctx.nontrivial = done > 0
    if not done and not ctx.violations:
        raise core.Inconclusive('no regular solution')


def status_case(ctx, do_mpc):
    """problems whose solution is irregular by construction, and regular twins with zero multipliers of equalities"""
    rng = ctx.rng
    kind = str(rng.choice(['licq', 'sc', 'sosc', 'eq-zero', 'wrong-p', 'keys', 'near', 'near']))
    if kind == 'near':
        return near_case(ctx, do_mpc)
    n = int(rng.integers(2, 5))
    x, p = ca.SX.sym('x', n), ca.SX.sym('p', 2)
    w = np.round(rng.uniform(0.5, 2, n), 3)
    t = np.round(rng.uniform(0.5, 1.5, n), 3)
    f = ca.dot(w, (x - t) ** 2) + 0.1 * p[0] * x[0] + 0.05 * p[1] * x[n - 1]
    p0 = np.zeros(2)
    inf = np.inf
    s = settings(rng)
    s['check_LICQ'] = s['check_SC'] = s['check_rank'] = True
    lbx, ubx = np.full(n, -inf), np.full(n, inf)
    i = int(rng.integers(n))
    if kind == 'licq':
        # a constraint twice, or a bound repeated as constraint
        g = ca.vertcat(x[i], 2 * x[i]) if rng.random() < 0.5 else ca.vertcat(x[i])
        lbg, ubg = np.full(g.shape[0], -inf), np.array([0.2, 0.4])[:g.shape[0]]
        if g.shape[0] == 1:
            ubx[i] = 0.2
    elif kind == 'sc':
        # constraint touches the unconstrained optimum
        f = ca.dot(w, (x - t) ** 2)  + p[0] * x[0]
        g = ca.vertcat(x[i]) if rng.random() < 0.5 else ca.SX(0, 1)
        lbg, ubg = np.full(g.shape[0], -inf), np.full(g.shape[0], t[i])
        if not g.shape[0]:
            ubx[i] = t[i]
    elif kind == 'sosc':
        # no curvature in one direction
        f = f - w[i] * (x[i] - t[i]) ** 2
        f = f + w[i] * (x[i] - x[(i + 1) % n]) ** 2 * 0
        f = ca.substitute(f, x[i], x[i])
        g = ca.vertcat(x[(i + 1) % n] + 0 * x[i] + 1e-3 * p[0])
        f = ca.dot(np.delete(w, i), ca.vertcat(*[(x[j] - t[j]) ** 2 for j in range(n) if j != i])) + 1e-12 * p[0] * x[i] ** 3 + p[1] * x[i]
        lbg, ubg = np.array([-inf]), np.array([inf])
    else:
        g = ca.vertcat(x[i] - t[i] + p[1])
        f = ca.dot(w, (x - t) ** 2) + p[0] * x[(i + 1) % n]
        lbg, ubg = np.zeros(1), np.zeros(1)
    nlp = dict(x=x, p=p, f=f, g=g)
    b = dict(lbx=lbx, ubx=ubx, lbg=lbg, ubg=ubg)
    ctx.sig = [kind, n, i, sorted(s.items())]
    ctx.desc = {'kind': kind, 'n': n, 'settings': s}
    D = make_diff(do_mpc, rng, nlp, b, s)
    S = D.status
    G = ca.Function('g', [x, p], [g])
    if kind == 'keys':
        k = str(rng.choice(['f', 'x', 'p', 'g']))
        cls = do_mpc.differentiator.NLPDifferentiator
        ctx.raises(lambda: cls({q: v for q, v in nlp.items() if q != k}, b), 'refuse-keys', 'problem without %s' % k)
        k = str(rng.choice(list(b)))
        ctx.raises(lambda: cls(nlp, {q: v for q, v in b.items() if q != k}), 'refuse-keys', 'bounds without %s' % k)
        ctx.count['status_checked'] += 1
        ctx.nontrivial = True
        return
    # exact solutions
    xs = t.copy()
    lam_g, lam_x = np.zeros(g.shape[0]), np.zeros(n)
    if kind == 'licq':
        xs[i] = 0.2
        m = -2 * w[i] * (0.2 - t[i])
        if g.shape[0] == 2:
            a = float(rng.uniform(0.2, 0.8))
            lam_g = np.array([m * a, m * (1 - a) / 2])
        else:
            lam_g[0], lam_x[i] = m * 0.4, m * 0.6
    if kind == 'sosc':
        xs[i] = float(rng.normal())
    sol = dict(x=ca.DM(xs), g=G(xs, p0), lam_g=ca.DM(lam_g), lam_x=ca.DM(lam_x))
    if kind == 'wrong-p':
        for bad in (np.zeros(3), np.zeros(1), np.zeros((1, 2)), 'abc', None):
            ctx.raises(lambda: D.differentiate(sol, bad), 'refuse-p', 'parameter vector %r for two parameters' % (bad,))
        k = str(rng.choice(['x', 'g', 'lam_g', 'lam_x']))
        ctx.raises(lambda: D.differentiate({q: v for q, v in sol.items() if q != k}, p0), 'refuse-solution', 'solution without %s' % k)
        ctx.count['status_checked'] += 1
        ctx.nontrivial = True
        return
    dx, dl = D.differentiate(sol, p0)
    ctx.count['status_checked'] += 1
    ctx.nontrivial = True
    if kind == 'licq':
        ctx.check(S.LICQ is not None and not S.LICQ, 'status-licq', 'LICQ reported as satisfied with dependent active constraints')
        ctx.check(S.full_rank is not None and not S.full_rank, 'status-rank', 'KKT matrix reported as regular with dependent active constraints')
    elif kind == 'sc':
        ctx.check(S.SC is not None and not S.SC, 'status-sc', 'strict complementarity reported at a weakly active constraint')
        ctx.check(bool(S.LICQ), 'status-licq', 'LICQ reported as violated at a weakly active constraint')
    elif kind == 'sosc':
        ctx.check(S.full_rank is not None and not S.full_rank, 'status-rank', 'KKT matrix reported as regular without curvature')
        fin = np.all(np.isfinite(dense(dx)))
        if not s.get('lstsq_fallback') and s.get('lin_solver', 'casadi') != 'lstsq':
            ctx.check(fin or not S.lse_solved, 'status-lse', 'linear system reported as solved with a result that is not finite')
        else:
            ctx.check(fin, 'fallback', 'least-squares solution (requested or as fallback) is not finite: lse_solved %s' % S.lse_solved)
    else:
        # equality constraint that is not binding: regular
        check_status(ctx, D, dict(s), True, None, '')
        want = np.zeros((n, 2))
        want[i, 1] = -1
        j = (i + 1) % n
        want[j, 0] = -1 / (2 * w[j])
        ctx.close(dense(dx), want, 'dx', 'derivative of a quadratic problem', rtol=1e-9, atol=1e-9)
        wl = np.zeros((1 + n, 2))
        wl[0, 1] = 2 * w[i]
        ctx.close(dense(dl), wl, 'dlam', 'multiplier derivative of a quadratic problem', rtol=1e-9, atol=1e-9)


def near_case(ctx, do_mpc):
    """regular solutions that are close to irregular ones, and the reverse: badly scaled or almost parallel constraints, narrow ranges, small multipliers"""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    x, p = ca.SX.sym('x', n), ca.SX.sym('p', 2)
    w = np.round(rng.uniform(0.5, 2, n), 3)
    i, j = (int(q) for q in rng.permutation(n)[:2])
    what = str(rng.choice(['parallel', 'scaled', 'narrow', 'narrow weak', 'small', 'tolerance', 'tolerance', 'tolerance']))
    inf, p0 = np.inf, np.zeros(2)
    t = np.round(rng.uniform(0.5, 1.5, n), 3)
    f = ca.dot(w, (x - t) ** 2) + p[1] * x[j]
    s = settings(rng)
    s['check_LICQ'] = s['check_SC'] = s['check_rank'] = True
    lbx, ubx = np.full(n, -inf), np.full(n, inf)
    xs, lam_x, want, wide, SC = t.copy(), np.zeros(n), np.zeros((n, 2)), 0.0, True
    want[j, 1] = -1 / (2 * w[j])
    if what == 'parallel':
        e = float(10 ** rng.uniform(-4, -2))
        lam_g = rng.uniform(0.3, 1, 2)
        xs[i] = t[i] - lam_g.sum() / (2 * w[i])
        xs[j] = t[j] - e * lam_g[1] / (2 * w[j])
        g = ca.vertcat(x[i] + p[0], x[i] + e * x[j])
        lbg, ubg = np.full(2, -inf), np.array([xs[i], xs[i] + e * xs[j]])
        want[:] = 0
        want[i, 0], want[j, 0] = -1, 1 / e
    elif what in ('scaled', 'small'):
        e = float(10 ** rng.uniform(-4, 2)) if what == 'scaled' else 1.0
        m = float(rng.uniform(0.3, 1)) if what == 'scaled' else float(10 ** rng.uniform(-4.5, -3))
        lam_g = np.array([m / e])
        xs[i] = t[i] - m / (2 * w[i])
        g = ca.vertcat(e * (x[i] + p[0]))
        lbg, ubg = np.full(1, -inf), np.array([e * xs[i]])
        want[i, 0] = -1
    elif what == 'tolerance':
        # which constraints are active is decided with the tolerance that was configured
        tol = s['active_set_tol'] = float(rng.choice([1e-8, 1e-6, 1e-4, 1e-3, 1e-2]))
        act = bool(rng.random() < 0.5)
        d = tol * float(rng.uniform(0.2, 0.7) if act else rng.uniform(1.5, 8)) if rng.random() < 0.6 else (0.0 if act else 0.1)
        m = 0.5 if rng.random() < 0.6 else 0.0
        SC = not act or m > 0
        f = f + p[0] * x[i]
        xs[i] = t[i] - m / (2 * w[i])
        want[i, 0] = 0 if act else -1 / (2 * w[i])
        if rng.random() < 0.5:
            g, lbg, ubg, lam_g = ca.SX(0, 1), np.zeros(0), np.zeros(0), np.zeros(0)
            ubx[i], lam_x[i] = xs[i] + d, m
        else:
            g, lbg, ubg, lam_g = ca.vertcat(x[i]), np.full(1, -inf), np.array([xs[i] + d]), np.array([m])
    else:
        wide = float(10 ** rng.uniform(-4, -2.3))
        SC = what == 'narrow'
        m = float(rng.uniform(0.3, 1)) if SC else 0.0
        up = rng.random() < 0.5
        if rng.random() < 0.5:
            xs[i] = t[i] - (m if up else -m) / (2 * w[i])
            g, lbg, ubg, lam_g = ca.SX(0, 1), np.zeros(0), np.zeros(0), np.zeros(0)
            lbx[i], ubx[i] = (xs[i] - wide, xs[i]) if up else (xs[i], xs[i] + wide)
            lam_x[i] = m if up else -m
        else:
            xs[i] = t[i] - (m if up else -m) / (2 * w[i])
            g, lam_g = ca.vertcat(x[i] + p[0]), np.array([m if up else -m])
            lbg, ubg = np.array([xs[i] - wide if up else xs[i]]), np.array([xs[i] if up else xs[i] + wide])
            want[i, 0] = -1
    nlp, b = dict(x=x, p=p, f=f, g=g), dict(lbx=lbx, ubx=ubx, lbg=lbg, ubg=ubg)
    ctx.sig = ['near', what, n, i, j, sorted(s.items())]
    ctx.desc = {'kind': what, 'n': n, 'settings': s}
    D = make_diff(do_mpc, rng, nlp, b, s)
    gv = ca.Function('g', [x, p], [g])(xs, p0)
    dx, dl = D.differentiate(dict(x=ca.DM(xs), g=gv, lam_g=ca.DM(lam_g), lam_x=ca.DM(lam_x)), p0)
    ctx.count['status_checked'] += 1
    ctx.nontrivial = True
    S = D.status
    ctx.check(bool(S.LICQ), 'status-licq', 'LICQ reported as violated at a regular solution (%s)' % what)
    ctx.check(S.SC is not None and bool(S.SC) == SC, 'status-sc', 'strict complementarity reported as %s (%s, multipliers %s)' % (S.SC, what, np.concatenate([lam_g, lam_x])))
    if SC:
        ctx.check(bool(S.full_rank), 'status-rank', 'KKT matrix of a regular solution reported as singular (%s)' % what)
        ctx.check(bool(S.lse_solved), 'status-lse', 'linear system of a regular solution reported as not solved (%s)' % what)
        ctx.close(dense(dx), want, 'dx', 'derivative of a quadratic problem (%s)' % what, rtol=1e-6, atol=1e-7)


# ---- controllers and estimators --------------------------------------------------------------------
def opt_case(ctx, do_mpc, kind):
    rng = ctx.rng
    mx = False
    if kind == 'mpc':
        S, c = p08.mpc_cfg(rng, 'mpcnl' if rng.random() < 0.5 else 'mpc')
        S.sym = 'MX' if rng.random() < 0.2 else 'SX'
        c.N, c.deg, c.ni = min(c.N, 3), 1, 1
        for r in S.refs('_u'):
            b = round(float(rng.uniform(0.05, 0.6)), 3)
            c.bounds[r] = (-b, b)
        m = S.build(do_mpc, rng)
        o = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(SOLVER)})
        W = p07.World(rng, S, c)
        pf, tf = W.funs(o)
        if S.n('_p') or c.n_comb > 1:
            o.get_p_template(c.n_comb); o.set_p_fun(pf)
        if S.n('_tvp'):
            o.set_tvp_fun(tf)
    else:
        S = gen_spec(rng, meas=0, nonlin=bool(rng.random() < 0.5), nx=int(rng.integers(1, 3)), noise=bool(rng.random() < 0.7), sym='SX')
        S.meas = [('y0', [[(1.0, 'id', [r])] for r in S.refs('_x')], True)] + [('um%d' % i, [[(1.0, 'id', [r])]], bool(rng.random() < .5)) for i, r in enumerate(S.refs('_u'))]
        c = mheref.gen_mhe_cfg(rng, S, max_N=3, nl=0, custom=False)
        c.deg, c.ni = 1, 1
        m = S.build(do_mpc, rng)
        o = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(SOLVER), 'meas_from_data': True})
        W = p10.Shadow(rng, S, c)
        W.install(o)
    ocp.finish(o, c)
    s = settings(rng)
    try:
        D = do_mpc.differentiator.DoMPCDifferentiator(o, **s)
    except Exception:
        raise
    o.x0 = rvals(rng, S, '_x')
    if kind == 'mhe' and c.nP:
        o.p_est0 = rng.normal(size=c.nP) * 0.2
    o.set_initial_guess()
    done = 0
    acts, hist = [], []
    for step in range(3):
        if step and kind == 'mpc' and rng.random() < 0.6:
            # bounds may be changed while running
            n, shp = S.vars['_u'][rng.integers(len(S.vars['_u']))]
            b = round(float(rng.uniform(0.02, 0.5)), 3)
            o.bounds['upper', '_u', n] = b
            o.bounds['lower', '_u', n] = -b
            ctx.count['bound_changes'] += 1
            hist.append('b')
        if kind == 'mpc':
            ret = o.make_step(rvals(rng, S, '_x'))
        else:
            ret = o.make_step(np.round(rng.normal(size=(m.n_y, 1)) * .4, 3))
        hist.append('s')
        if o.solver_stats['return_status'] != 'Solve_Succeeded':
            continue
        R = Ref(o.nlp['x'], o.nlp['p'], o.nlp['f'], o.nlp['g'], o._lb_opt_x.cat, o._ub_opt_x.cat, o.nlp_cons_lb, o.nlp_cons_ub, o.S)
        p = V(o.opt_p_num.cat)
        r = dict(x=V(o.opt_x_num.cat), g=V(o.opt_g_num), lam_g=V(o.lam_g_num), lam_x=V(o.lam_x_num))
        regular, st = R.analyse(r, p)
        if not regular:
            ctx.count['irregular'] += 1
            ctx.count['irr-' + ('licq' if not st['licq'] else 'sosc' if not st['sosc'] else 'sc' if not st['sc_ok'] else 'amb')] += 1
            continue
        dx, dl = D.differentiate()
        check_status(ctx, D, s, True, st, '-' + kind)
        sc = V(o.opt_x_scaling.cat)
        try:
            judge(ctx, R, r, p, D, dx, dl, st, '-' + kind, x_scale=sc, nd=2)
        except core.Inconclusive:
            ctx.count['no_difference'] += 1
            continue
        done += 1
        ctx.count['controllers'] += 1
        acts.append(int(st['ineq'].sum()))
        ctx.count['reduced'] += bool(D.status.reduced_nlp)
        # blocks by name
        full = dense(dx)
        ix = ca.tools.indexf
        fx, fp = o.opt_x.f, o.opt_p.f
        rows = [int(i) for i in np.array(fx[('_u', 0, 0) if kind == 'mpc' else ('_x', c.N, -1)]).ravel()]
        pn = ['_x0', '_u_prev'] if kind == 'mpc' else ['_x_prev']
        for q in pn:
            cols = [int(i) for i in np.array(fp[q]).ravel()]
            blk = D.sens_num['dxdp', ix[('_u', 0, 0) if kind == 'mpc' else ('_x', c.N, -1)], ix[q]]
            ctx.close(np.array(ca.DM(blk)), full[np.ix_(rows, cols)], 'block-' + kind, 'named block of the sensitivities', rtol=1e-12, atol=1e-14)
        if len(ctx.violations) > 3:
            break
    ctx.sig = [ocp.sig_cfg(c, S) if kind == 'mpc' else mheref.sig_cfg(c, S), sorted(s.items()), acts, hist]
    ctx.desc = dict(ocp.desc_cfg(c, S) if kind == 'mpc' else mheref.desc_cfg(c, S), settings=s, active=acts)
    ctx.nontrivial = done > 0
    if not done and not ctx.violations:
        raise core.Inconclusive('no regular solution')


def run_case(kind, idx, ctx):
    import do_mpc
    import do_mpc.differentiator
    import casadi.tools
    if kind == 'nlp':
        return nlp_case(ctx, do_mpc)
    if kind == 'status':
        return status_case(ctx, do_mpc)
    return opt_case(ctx, do_mpc, kind)


if __name__ == '__main__':
    core.main('checks.p17')
