"""Random MHE configurations and an independent reference of the documented estimation problem."""
import numpy as np
import casadi as ca
from vf.models import evalterms, gen_step, rterms, _size
from vf import ocp
from vf.ocp import SymSpec, coll_matrices, scale_vec, set_by_ref, gen_bounds, QUIET, L


class Cfg:
    pass


def gen_mhe_cfg(rng, S, max_N=4, scaling=None, nl=None, custom=None, p_est=None):
    c = Cfg()
    c.N = int(rng.integers(1, max_N + 1))
    c.t_step = gen_step(rng, S.mtype == 'discrete', 0.05, 0.6)
    c.coll = ['radau', 'legendre'][int(rng.random() < 0.3)]
    c.deg = int(rng.integers(1, 4))
    c.ni = int(rng.choice([1, 1, 2]))
    if max_N >= 4 and rng.random() < 0.08:
        # now and then a long horizon, a high collocation degree or many finite elements
        what = rng.integers(2) if S.mtype == 'continuous' else 0
        if what:
            c.N = int(rng.integers(1, 3))
            c.deg, c.ni = (int(rng.integers(4, 9)), 1) if rng.random() < 0.5 else (1, int(rng.integers(4, 12)))
        else:
            c.N, c.deg, c.ni = int(rng.integers(8, 25)), 1, 1
        while c.N * (2 if S.mtype == 'continuous' else 1) * (c.deg * c.ni if what else 1) * (S.n('_x') + S.n('_z')) > 400 and c.N > 1:
            c.N -= 1
    c.nl_coll = bool(rng.random() < 0.35)
    c.single_slack = bool(rng.random() < 0.35)
    c.cons_coll = bool(rng.random() < 0.6)
    names = [n for n, _ in S.vars['_p']]
    c.p_est = [n for n in names if rng.random() < 0.6] if p_est is None else list(p_est)
    c.scale = {}
    if scaling or (scaling is None and rng.random() < 0.7):
        for t in ('_x', '_u', '_z', '_p_est'):
            for n, shp in S.vars['_p' if t == '_p_est' else t]:
                if t == '_p_est' and n not in c.p_est:
                    continue
                if rng.random() < 0.7:
                    k = _size(shp)
                    c.scale[(t, n)] = np.full(k, round(float(10 ** rng.uniform(-1, 1)), 3)) if rng.random() < 0.5 else np.round(10 ** rng.uniform(-1, 1, k), 3)
    nX, nV, nW = S.n('_x'), S.n_v(), S.n_w()
    nP = sum(_size(s) for n, s in S.vars['_p'] if n in c.p_est)

    def psd(n):
        A = np.round(rng.normal(size=(n, n)), 2)
        return A @ A.T + np.eye(n) * 0.5 if rng.random() < 0.5 else np.diag(np.round(rng.uniform(0.2, 3, n), 2))
    c.custom = bool(rng.random() < 0.4) if custom is None else custom
    c.Px, c.Pv, c.Pw, c.Pp = psd(nX), psd(nV), psd(nW), psd(nP)
    # optional symbolic weight: one tvp scales P_v / P_w, one parameter scales P_x
    c.tvpw = S.refs('_tvp')[rng.integers(S.n('_tvp'))] if S.n('_tvp') and rng.random() < 0.5 else None
    c.pw = S.refs('_p')[rng.integers(S.n('_p'))] if S.n('_p') and rng.random() < 0.4 else None
    c.stage = c.arr = None
    if c.custom:
        wv = [('_w', None, i) for i in range(nW)] + [('_v', None, i) for i in range(nV)]
        refs = wv * 2 + S.refs('_tvp', '_p')
        if not refs:
            refs = []
        c.stage = (rterms(rng, refs, n=3, ops=['sq', 'sin', 'gauss', 'prod', 'tprod']) if refs else [(0.5, 'const', [])]) + [(1.0 + i, 'sq', [r]) for i, r in enumerate(wv)]
        xx = [('_x', None, i) for i in range(nX)] + [('_xprev', None, i) for i in range(nX)] + [('_pest', None, i) for i in range(nP)] + [('_pprev', None, i) for i in range(nP)]
        pset = [r for r in S.refs('_p') if r[1] not in c.p_est]
        c.arr = rterms(rng, xx + pset, n=3)
        for i in range(nX):
            c.arr += [(1.0, 'sq', [('_x', None, i)]), (-2.0, 'prod', [('_x', None, i), ('_xprev', None, i)]), (1.0, 'sq', [('_xprev', None, i)])]
    c.bounds = gen_bounds(rng, S.refs('_x', '_u', '_z'), lo=4, hi=8)
    c.pbounds = {(r[1], r[2]): b for r, b in gen_bounds(rng, [r for r in S.refs('_p') if r[1] in c.p_est], lo=3, hi=6).items()}
    c.cons = []
    refs = S.refs('_x', '_u', '_z', '_tvp')
    prefs = S.refs('_p')
    for k in range(int(rng.choice([0, 1, 2])) if nl is None else nl):
        dim = int(rng.integers(1, 3))
        ts = [rterms(rng, refs + prefs * 2, n=int(rng.integers(1, 4))) for _ in range(dim)]
        ub = round(float(rng.uniform(0.5, 2.0)), 3)
        if dim > 1 and k == 1:
            ub = np.round(ub + 0.4 * np.arange(dim), 3)
        c.cons.append(dict(name='con%d' % k, terms=ts, ub=ub, soft=bool(rng.random() < 0.5),
                           pen=round(float(rng.uniform(0.5, 10)), 3), mv=round(float(rng.uniform(0.1, 2)), 3) if rng.random() < 0.5 else np.inf))
    c.two_stage = bool(rng.random() < 0.3)
    c.by_settings = bool(rng.random() < 0.5)
    c.nP = nP
    return c


def sig_cfg(c, S):
    return S.sig() + [c.N, (c.coll, c.deg, c.ni) if S.mtype == 'continuous' else None, c.nl_coll, c.single_slack, c.cons_coll, len(c.p_est), c.nP,
                      sorted(t for t, _ in c.scale), c.custom, c.tvpw is not None, c.pw is not None, len(c.pbounds), [(len(k['terms']), k['soft']) for k in c.cons]]


def desc_cfg(c, S):
    return {'model': S.describe(), 'N': c.N, 'coll': [c.coll, c.deg, c.ni], 'p_est': c.p_est, 'scaled': ['%s.%s' % k for k in c.scale],
            'custom_objective': c.custom, 'nl_coll': c.nl_coll, 'cons_coll': c.cons_coll, 'cons': [(len(k['terms']), k['soft']) for k in c.cons]}


def pest_scale(c, S):
    v = [np.asarray(c.scale.get(('_p_est', n), np.ones(_size(s))), float) for n, s in S.vars['_p'] if n in c.p_est]
    return np.concatenate(v) if v else np.zeros(0)


def build_mhe(do_mpc, S, model, c, setup=True, order=None, p_fun=None, tvp_fun=None, y_fun=None, extra=None, set_fun=True):
    mhe = do_mpc.estimator.MHE(model, list(c.p_est))
    opts = dict(n_horizon=c.N, t_step=c.t_step, collocation_type=c.coll, collocation_deg=c.deg, collocation_ni=c.ni, meas_from_data=y_fun is None,
                nl_cons_check_colloc_points=c.nl_coll, nl_cons_single_slack=c.single_slack, cons_check_colloc_points=c.cons_coll, nlpsol_opts=dict(QUIET))
    if extra:
        opts.update(extra)
    opts = {k: v for k, v in opts.items() if v is not None}     # None: left at its default
    route = getattr(c, 'route', None) or ('attributes' if c.by_settings else 'set_param')
    if order is not None:
        ks = list(opts)
        opts = {ks[i]: opts[ks[i]] for i in order.permutation(len(ks))}
    if route == 'attributes':
        for k, v in opts.items():
            setattr(mhe.settings, k, v)
    elif route == 'single':
        for k, v in opts.items():
            mhe.set_param(**{k: v})
    else:
        mhe.set_param(**opts)
    pnames = [n for n, _ in S.vars['_p'] if n in c.p_est]
    flat = [(n, i) for n, s in S.vars['_p'] if n in c.p_est for i in range(_size(s))]
    pn = {n: _size(s) for n, s in S.vars['_p']}

    def handle(r):
        return S.handle(model, r) if hasattr(S, 'handle') else getattr(model, r[0][1:])[r[1]][r[2]]

    def s_obj():
        if c.custom:
            d = dict(_w=mhe._w.cat if S.n_w() else None, _v=mhe._v.cat if S.n_v() else None, _x=ca.vertcat(mhe._x.cat), _xprev=ca.vertcat(mhe._x_prev.cat), _pest=mhe._p_est.cat, _pprev=mhe._p_est_prev.cat)

            def get_s(r):
                if r[0] in ('_w', '_v'):
                    return d[r[0]][r[2]]
                if r[0] == '_tvp':
                    return model.tvp[r[1]][r[2]]
                return mhe._p_est[r[1]][r[2]] if r[1] in c.p_est else mhe._p_set[r[1]][r[2]]

            def get_a(r):
                if r[0] == '_p':
                    return mhe._p_set[r[1]][r[2]]
                return d[r[0]][r[2]]
            cls = ca.SX if model.symvar_type == 'SX' else ca.MX
            w = lambda e: e if isinstance(e, (ca.SX, ca.MX)) else cls(e)
            mhe.set_objective(w(evalterms(c.stage, get_s, L)), w(evalterms(c.arr, get_a, L)))
        else:
            Px, Pv, Pw = c.Px, c.Pv, c.Pw
            if c.tvpw is not None:
                h = model.tvp[c.tvpw[1]][c.tvpw[2]]
                Pv, Pw = Pv * (1 + h ** 2), Pw * (2 + h)
            if c.pw is not None:
                h = model.p[c.pw[1]][c.pw[2]]
                Px = Px * (1 + h ** 2)
            mhe.set_default_objective(Px, Pv if S.n_v() else None, c.Pp if c.nP else None, Pw if S.n_w() else None)

    def s_scale():
        for (t, n), v in c.scale.items():
            mhe.scaling[t, n] = v if v.size > 1 else float(v[0])

    def s_bounds():
        for r, (lb, ub) in c.bounds.items():
            set_by_ref(mhe.bounds, ('lower', r[0]), S, r, lb)
            set_by_ref(mhe.bounds, ('upper', r[0]), S, r, ub)
        for (n, i), (lb, ub) in c.pbounds.items():
            ind = (n,) if pn[n] == 1 else (n, i)
            mhe.bounds[('lower', '_p_est') + ind] = lb
            mhe.bounds[('upper', '_p_est') + ind] = ub

    def s_cons():
        for k in c.cons:
            def get(r):
                if r[0] == '_p':
                    return mhe._p_est[r[1]][r[2]] if r[1] in c.p_est else mhe._p_set[r[1]][r[2]]
                return getattr(model, r[0][1:])[r[1]][r[2]]
            cls = ca.SX if model.symvar_type == 'SX' else ca.MX
            es = [evalterms(t, get, L) for t in k['terms']]
            e = ca.vertcat(*[q if isinstance(q, (ca.SX, ca.MX)) else cls(q) for q in es])
            mhe.set_nl_cons(k['name'], e, ub=k['ub'], soft_constraint=k['soft'], penalty_term_cons=k['pen'], maximum_violation=k['mv'])

    def s_p():
        if [n for n in pn if n not in c.p_est]:
            tpl = mhe.get_p_template()
            mhe.set_p_fun(p_fun(mhe) if p_fun is not None else (lambda t: tpl))

    def s_tvp():
        if S.n('_tvp'):
            tpl = mhe.get_tvp_template()
            mhe.set_tvp_fun(tvp_fun(mhe) if tvp_fun is not None else (lambda t: tpl))

    def s_y():
        if y_fun is not None:
            mhe.set_y_fun(y_fun(mhe))
    calls = [s_obj, s_scale, s_bounds, s_cons] + ([s_p, s_tvp, s_y] if set_fun else [])
    if order is not None:
        calls = [calls[i] for i in order.permutation(len(calls))]
    for f in calls:
        f()
    if setup:
        ocp.finish(mhe, c)
    return mhe


class RefMHE:
    def __init__(self, S, c, mhe):
        self.S, self.c = S, c
        Y = SymSpec(S)
        nX, nU, nZ = S.n('_x'), S.n('_u'), S.n('_z')
        nE = sum(len(k['terms']) for k in c.cons if k['soft'])
        W, P = ca.SX.sym('W', int(mhe.opt_x.shape[0])), ca.SX.sym('P', int(mhe.opt_p.shape[0]))
        self.W, self.P = W, P
        fx, fp = mhe.opt_x.f, mhe.opt_p.f
        sx, su, sz, sp = scale_vec(c, S, '_x'), scale_vec(c, S, '_u'), scale_vec(c, S, '_z'), pest_scale(c, S)
        self.ix, self.active, self.bound_pts = {}, set(), {}

        def ids(*ind):
            if ind not in self.ix:
                self.ix[ind] = [int(i) for i in np.array(fx[ind if len(ind) > 1 else ind[0]]).ravel()]
            return self.ix[ind]

        def var(sc, n, *ind):
            if not n:
                return ca.SX(0, 1)
            j = ids(*ind)
            assert len(j) == n, (ind, j, n)
            self.active.update(j)
            return W[j] * sc
        neps = 1 if c.single_slack else c.N
        pid = lambda *ind: [int(i) for i in np.array(fp[ind if len(ind) > 1 else ind[0]]).ravel()]
        par = lambda n, *ind: P[pid(*ind)] if n else ca.SX(0, 1)
        x = lambda k, i=-1: var(sx, nX, '_x', k, i)
        pest = var(sp, c.nP, '_p_est')
        pest_prev = par(c.nP, '_p_est_prev')
        nS = S.n('_p') - c.nP
        pset = par(nS, '_p_set')
        # full parameter vector in the declared order
        pv, ie, is_ = [], 0, 0
        for n, s in S.vars['_p']:
            for i in range(_size(s)):
                if n in c.p_est:
                    pv.append(pest[ie]); ie += 1
                else:
                    pv.append(pset[is_]); is_ += 1
        p = ca.vertcat(*pv) if pv else ca.SX(0, 1)
        xprev = par(nX, '_x_prev')
        quad = lambda e, M: ca.mtimes([e.T, ca.DM(M), e]) if e.numel() else 0
        arr = ca.SX(0)
        if c.custom:
            d = dict(_x=x(0), _xprev=xprev, _pest=pest, _pprev=pest_prev)
            ixp = S.index()
            arr += evalterms(c.arr, lambda r: p[ixp[r]] if r[0] == '_p' else d[r[0]][r[2]], L)
        else:
            f = 1.0
            if c.pw is not None:
                f = 1 + p[S.index()[c.pw]] ** 2
            arr += quad(x(0) - xprev, c.Px) * f + quad(pest - pest_prev, c.Pp)
        stage, slack = ca.SX(0), ca.SX(0)
        eq, meas, ineq = [], [], []
        self.aux = {}
        wn = [(n, _size(S.shape('_x', n))) for n in S.w_names()]
        nW, nV = S.n_w(), S.n_v()
        cont = S.mtype == 'continuous'
        if cont:
            tau, C, D = coll_matrices(c.coll, c.deg)
            h = c.t_step / c.ni
        xoff = {}
        o = 0
        for n, s in S.vars['_x']:
            xoff[n] = o; o += _size(s)
        self.yid = []
        for k in range(c.N):
            uk = var(su, nU, '_u', k)
            wk = var(np.ones(nW), nW, '_w', k)
            vk = var(np.ones(nV), nV, '_v', k)
            tk = par(S.n('_tvp'), '_tvp', k)
            zf = lambda i: var(sz, nZ, '_z', k, i)
            wfull = [ca.SX(0)] * nX
            o = 0
            for n, q in wn:
                for i in range(q):
                    wfull[xoff[n] + i] = wk[o]; o += 1
            wfull = ca.vertcat(*wfull)
            xk = x(k)
            if not cont:
                d = dict(_x=xk, _u=uk, _z=zf(0), _tvp=tk, _p=p)
                eq.append(Y.alg(**d))
                eq.append(Y.rhs(**d) + wfull - x(k + 1))
                pts = [(xk, zf(0))]
                zend, nz_pts = zf(0), 1
            else:
                X, Z, pos = {}, {}, 0
                for i in range(c.ni):
                    for j in range(c.deg + 1):
                        if i == 0 and j == 0:
                            X[0, 0] = xk
                        else:
                            X[i, j] = x(k + 1, pos); pos += 1
                        Z[i, j] = zf(i * (c.deg + 1) + j)
                end = x(k + 1, pos)
                for i in range(c.ni):
                    for j in range(c.deg + 1):
                        d = dict(_x=X[i, j], _u=uk, _z=Z[i, j], _tvp=tk, _p=p)
                        eq.append(Y.alg(**d))
                        if j:
                            eq.append(h * (Y.rhs(**d) + wfull) - sum(C[r, j] * X[i, r] for r in range(c.deg + 1)))
                    nxt = X[i + 1, 0] if i + 1 < c.ni else end
                    eq.append(nxt - sum(D[r] * X[i, r] for r in range(c.deg + 1)))
                eq.append(end - x(k + 1))
                pts = [(X[i, j], Z[i, j]) for i in range(c.ni) for j in range(c.deg + 1)] if c.nl_coll else [(xk, zf(0))]
                zend, nz_pts = Z[c.ni - 1, c.deg], c.ni * (c.deg + 1)
            d = dict(_x=x(k + 1), _u=uk, _z=zend, _tvp=tk, _p=p)
            hv = Y.meas(**d)
            out, q, m = [], 0, 0
            for _, ts, nzf in S.meas_eff():
                for t in ts:
                    out.append(hv[m] + vk[q] if nzf else hv[m])
                    m += 1
                    q += bool(nzf)
            self.yid += pid('_y_meas', k)
            meas.append(ca.vertcat(*out) - P[pid('_y_meas', k)])
            e = var(np.ones(nE), nE, '_eps', min(k, neps - 1))
            for xp, zp in pts:
                eo = 0
                for qd in c.cons:
                    ubv = np.broadcast_to(np.asarray(qd['ub'], float), (len(qd['terms']),))
                    for m_, t in enumerate(qd['terms']):
                        v = Y.terms(t, _x=xp, _u=uk, _z=zp, _tvp=tk, _p=p)
                        if qd['soft']:
                            v = v - e[eo]; eo += 1
                        ineq.append(v - ubv[m_])
            eo = 0
            for qd in c.cons:
                if qd['soft']:
                    for _ in qd['terms']:
                        slack += qd['pen'] * e[eo]; eo += 1
            if c.custom:
                ixs = S.index()
                dd = dict(_w=wk, _v=vk, _tvp=tk, _p=p)
                stage += evalterms(c.stage, lambda r: dd[r[0]][r[2]] if r[0] in ('_w', '_v') else dd[r[0]][ixs[r]], L)
            else:
                f1 = f2 = 1.0
                if c.tvpw is not None:
                    tt = tk[S.index()[c.tvpw]]
                    f1, f2 = 1 + tt ** 2, 2 + tt
                stage += quad(vk, c.Pv) * f1 + quad(wk, c.Pw) * f2
            self.aux[k] = Y.aux(_x=xk, _u=uk, _z=zf(0), _tvp=tk, _p=p)
            # bounds
            inf = np.array([-np.inf, np.inf])
            zb = np.array([c.bounds.get(r, inf) for r in S.refs('_z')]).reshape(-1, 2)
            for i in range(nz_pts):
                if nZ:
                    self._setb(ids('_z', k, i), zb if (c.cons_coll or i == 0) else np.tile(inf, (nZ, 1)), sz)
            if nU:
                self._setb(ids('_u', k), np.array([c.bounds.get(r, inf) for r in S.refs('_u')]).reshape(-1, 2), su)
            if nE:
                mv = np.concatenate([np.full(len(q['terms']), q['mv']) for q in c.cons if q['soft']])
                self._setb(ids('_eps', min(k, neps - 1)), np.c_[np.zeros(nE), mv], np.ones(nE))
        xb = np.array([c.bounds.get(r, (-np.inf, np.inf)) for r in S.refs('_x')]).reshape(-1, 2)
        for k in range(c.N + 1):
            self._setb(ids('_x', k, -1), xb, sx)
            if cont and k:
                for i in range(c.ni * (c.deg + 1)):
                    self._setb(ids('_x', k, i), xb if c.cons_coll else np.tile([-np.inf, np.inf], (nX, 1)), sx)
        if c.nP:
            self._setb(ids('_p_est'), np.array([c.pbounds.get((n, i), (-np.inf, np.inf)) for n, s in S.vars['_p'] if n in c.p_est for i in range(_size(s))]), sp)
        self.obj = arr + stage + slack
        self.dyn = ca.vertcat(*eq)
        self.meas = ca.vertcat(*meas)
        self.eq = ca.vertcat(self.dyn, self.meas)
        self.ineq = ca.vertcat(*ineq) if ineq else ca.SX(0, 1)
        self.F = ca.Function('ref', [W, P], [self.obj, self.eq, self.ineq, ca.jacobian(self.eq, W), ca.vertcat(arr, stage, slack)])
        self.D = ca.Function('dyn', [W, P], [self.dyn, ca.jacobian(self.dyn, W), self.meas])
        self.act = sorted(self.active)
        self.xz = sorted(i for ind, j in self.ix.items() if ind[0] in ('_x', '_z') for i in j if i in self.active)
        self.xz = sorted(set(self.xz))

    def _setb(self, j, b, s):
        for q, i in enumerate(j):
            self.bound_pts[i] = (b[q][0] / s[q], b[q][1] / s[q])

    def complete(self, W0, P0, tol=1e-10):
        """states/algebraic values by Newton iteration; measurements are chosen to fit"""
        W, P = np.array(W0, float).ravel(), np.array(P0, float).ravel()
        for it in range(40):
            r, J, _ = self.D(W, P)
            r = r.full().ravel()
            if not np.all(np.isfinite(r)):
                return None, None
            if np.abs(r).max(initial=0) < tol:
                break
            d = np.linalg.lstsq(J.full()[:, self.xz], -r, rcond=None)[0]
            m = np.max(np.abs(d))
            W[self.xz] += d * (50 / m if m > 50 else 1)
        else:
            return None, None
        P[self.yid] += self.D(W, P)[2].full().ravel()
        return W, P
