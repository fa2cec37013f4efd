"""Random MPC configurations and an independent reference of the documented optimal control problem.

The reference is written with casadi expressions built directly from the generated specification (never from the
model object), over the same flat decision/parameter vectors, whose layout is read through the public structures
(opt_x, opt_p) by name and index.
"""
import types
import numpy as np
import casadi as ca
from vf.models import evalterms, gen_step, rterms, _size

L = types.SimpleNamespace(sin=ca.sin, cos=ca.cos, tanh=ca.tanh, exp=ca.exp)


# ---- collocation constants, computed independently of casadi.collocation_points -------------------
def coll_points(kind, deg):
    if kind == 'legendre':
        r, _ = np.polynomial.legendre.leggauss(deg)
        return np.sort((r + 1) / 2)
    # right Radau: roots of P_deg - P_{deg-1}
    c1 = np.zeros(deg + 1); c1[deg] = 1
    c0 = np.zeros(deg + 1); c0[deg - 1] = -1
    r = np.polynomial.legendre.legroots(c1 + c0)
    return np.sort((np.real(r) + 1) / 2)


def coll_matrices(kind, deg):
    tau = np.concatenate([[0.0], coll_points(kind, deg)])
    n = deg + 1
    D = np.zeros(n)
    C = np.zeros((n, n))
    for j in range(n):
        p = np.poly1d([1.0])
        for r in range(n):
            if r != j:
                p = p * np.poly1d([1.0, -tau[r]]) / (tau[j] - tau[r])
        D[j] = p(1.0)
        dp = np.polyder(p)
        for r in range(n):
            C[j, r] = dp(tau[r])
    return tau, C, D


class SymSpec:
    """the specification evaluated on casadi vectors"""

    def __init__(self, S):
        self.S = S
        self.ix = S.index()

    def getter(self, d):
        ix = self.ix
        return lambda r: d[r[0]][r[2]] if r[0] == '_uprev' else d[r[0]][ix[r]]

    def terms(self, t, **d):
        return evalterms(t, self.getter(d), L)

    def vec(self, tl, **d):
        return ca.vertcat(*[ca.SX(self.terms(t, **d)) if not isinstance(self.terms(t, **d), ca.SX) else self.terms(t, **d) for t in tl])

    def rhs(self, **d):
        return self.vec([self.S.rhs[n][i] for n, s in self.S.vars['_x'] for i in range(_size(s))], **d)

    def alg(self, **d):
        return self.vec([t for _, ts in self.S.alg for t in ts], **d)

    def aux(self, **d):
        return self.vec([t for _, ts in self.S.aux for t in ts], **d)

    def meas(self, **d):
        return self.vec([t for _, ts, _ in self.S.meas_eff() for t in ts], **d)


# ---- configuration ---------------------------------------------------------------------------------
class Cfg:
    pass


def gen_bounds(rng, refs, prob=0.5, lo=0.5, hi=3.0):
    """{ref: (lb, ub)} with some entries one-sided or missing"""
    out = {}
    for r in refs:
        if rng.random() < prob:
            lb = -round(float(rng.uniform(lo, hi)), 3) if rng.random() < 0.8 else -np.inf
            ub = round(float(rng.uniform(lo, hi)), 3) if rng.random() < 0.8 else np.inf
            out[r] = (lb, ub)
    return out


def pin_bounds(rng, bounds, refs, prob=0.25):
    """sometimes one quantity is fixed by equal bounds"""
    if refs and rng.random() < prob:
        v = round(float(rng.uniform(-3, 3)), 3)
        bounds[refs[rng.integers(len(refs))]] = (v, v)


def big_cfg(rng, S, c, robust, what=None):
    """now and then a long horizon, many scenarios, a high collocation degree or many finite elements"""
    nst = S.n('_x') + S.n('_z')
    what = rng.integers(3 if S.mtype == 'continuous' else 2) if what is None else what
    if what == 1 and c.n_comb > 1:
        c.n_comb, c.n_robust = [(5, 2), (3, 3), (2, 4), (7, 1), (11, 1), (4, 2), (2, 3), (12, 2)][rng.integers(8)]
        if c.n_comb == 12 and nst > (1 if S.mtype == 'continuous' else 2):
            c.n_comb = 7
        c.N = int(rng.integers(c.n_robust, max(c.n_robust, 4) + 1))
        c.deg, c.ni = 1, 1
    elif what == 2:
        c.N, c.n_robust = int(rng.integers(1, 3)), min(c.n_robust, 1)
        c.deg, c.ni = (int(rng.integers(4, 9)), 1) if rng.random() < 0.5 else (1, int(rng.integers(4, 12)))
    else:
        c.n_robust = min(c.n_robust, 1) if c.n_comb < 3 else 0
        c.N = int(rng.integers(8, 25))
        c.deg, c.ni = 1, 1
    if c.n_comb > 1 and robust and c.n_robust == 0:
        c.n_robust = 1
    while c.N * c.n_comb ** c.n_robust * (2 if S.mtype == 'continuous' else 1) * (c.deg * c.ni if what == 2 else 1) * nst > 500 and c.N > max(1, c.n_robust):
        c.N -= 1


def gen_mpc_cfg(rng, S, max_scen=9, scaling=None, robust=None, max_N=4, conv=False, nl=None, custom_rterm=None, big=None):
    c = Cfg()
    c.N = int(rng.integers(1, max_N + 1))
    c.t_step = gen_step(rng, S.mtype == 'discrete', 0.05, 0.6)
    c.n_comb = 1
    if (S.n('_p') and (robust or (robust is None and rng.random() < 0.7))):
        c.n_comb = int(rng.integers(2, 4))
    c.n_robust = int(rng.integers(0, 3)) if c.n_comb > 1 or rng.random() < 0.3 else 0
    if robust and c.n_robust == 0:
        c.n_robust = 1
    c.n_robust = min(c.n_robust, c.N)
    while c.n_comb ** c.n_robust > max_scen:
        c.n_robust -= 1
    c.open_loop = bool(rng.random() < 0.2)
    c.coll = ['radau', 'legendre'][int(rng.random() < 0.4)]
    c.deg = int(rng.integers(1, 4))
    c.ni = int(rng.choice([1, 1, 2, 3]))
    if big is not None or (max_N >= 4 and rng.random() < 0.08):
        big_cfg(rng, S, c, robust, big)
    elif S.mtype == 'continuous' and c.N * c.n_comb ** c.n_robust * (c.deg + 1) * c.ni * (S.n('_x') + S.n('_z')) > 700:
        c.ni, c.deg = 1, min(c.deg, 2)
        c.N = min(c.N, 3)
        c.n_robust = min(c.n_robust, c.N)
    c.nl_coll = bool(rng.random() < 0.35)
    c.single_slack = bool(rng.random() < 0.35)
    c.cons_coll = bool(rng.random() < 0.6)
    c.use_term = bool(rng.random() < 0.5)
    c.scale = {}
    if scaling or (scaling is None and rng.random() < 0.7):
        for t in ('_x', '_u', '_z'):
            for n, shp in S.vars[t]:
                if rng.random() < 0.7:
                    k = _size(shp)
                    if rng.random() < 0.5:
                        v = np.full(k, round(float(10 ** rng.uniform(-1, 1)), 3))
                    else:
                        v = np.round(10 ** rng.uniform(-1, 1, k), 3)
                    c.scale[(t, n)] = v
    refs = S.refs('_x', '_u', '_z', '_tvp', '_p')
    c.lterm = rterms(rng, refs, n=int(rng.integers(2, 5)))
    c.mterm = rterms(rng, S.refs('_x', '_tvp', '_p'), n=int(rng.integers(1, 4)))
    if S.n('_z') and rng.random() < 0.6:
        zr = S.refs('_z')
        c.lterm.append((round(float(rng.uniform(.3, 1)), 3), 'sq', [zr[rng.integers(len(zr))]]))
    c.rterm = None
    c.rfac = {}
    if custom_rterm or (custom_rterm is None and rng.random() < 0.4):
        ur = S.refs('_u')
        ds = [('_uprev', n, i) for i, (_, n, _) in enumerate(ur)]
        c.rterm = rterms(rng, refs + ds * 2, n=2)
        for i, r in enumerate(ur):
            # (u - u_prev)^2
            c.rterm += [(1.0 + i, 'sq', [r]), (-2.0 * (1.0 + i), 'prod', [r, ds[i]]), (1.0 + i, 'sq', [ds[i]])]
    else:
        for n, shp in S.vars['_u']:
            if rng.random() < 0.8:
                v = round(float(rng.uniform(0.01, 2)), 3)
                c.rfac[n] = np.round(rng.uniform(0.01, 2, _size(shp)), 3) if (_size(shp) > 1 and rng.random() < 0.5) else v
    c.bounds = gen_bounds(rng, S.refs('_x', '_u', '_z'), lo=4, hi=8)
    c.tbounds = gen_bounds(rng, S.refs('_x'), lo=3, hi=6) if c.use_term and rng.random() < 0.7 else {}
    c.cons = []
    nn = nl if nl is not None else int(rng.choice([0, 1, 2, 3]))
    if nl is None and max_N == 4 and rng.random() < 0.04:
        nn = int(rng.integers(10, 14))
    for k in range(nn):
        dim = int(rng.integers(1, 3)) if nn < 10 else 1
        ts = [rterms(rng, refs, n=int(rng.integers(1, 4))) for _ in range(dim)]
        ub = round(float(rng.uniform(-0.5, 2.0)), 3)
        if dim > 1 and rng.random() < 0.5:
            ub = np.round(rng.uniform(-0.5, 2.0, dim), 3)
        soft = bool(rng.random() < 0.5)
        pen = round(float(rng.uniform(0.5, 10)), 3)
        mv = round(float(rng.uniform(0.1, 2)), 3) if rng.random() < 0.5 else np.inf
        c.cons.append(dict(name='con%d' % k, terms=ts, ub=ub, soft=soft, pen=pen, mv=mv))
    c.two_stage = bool(rng.random() < 0.3)
    c.by_settings = bool(rng.random() < 0.5)
    return c


def sig_cfg(c, S):
    return S.sig() + [c.N, c.n_comb, c.n_robust, c.open_loop, (c.coll, c.deg, c.ni) if S.mtype == 'continuous' else None, c.nl_coll,
                      c.single_slack, c.cons_coll, c.use_term, bool(c.tbounds), len(c.scale), bool(c.rterm), [(len(k['terms']), k['soft']) for k in c.cons]]


def desc_cfg(c, S):
    return {'model': S.describe(), 'N': c.N, 'n_comb': c.n_comb, 'n_robust': c.n_robust, 'open_loop': c.open_loop, 'coll': [c.coll, c.deg, c.ni],
            'nl_coll': c.nl_coll, 'single_slack': c.single_slack, 'cons_coll': c.cons_coll, 'terminal': [c.use_term, len(c.tbounds)],
            'scaled': len(c.scale), 'custom_rterm': bool(c.rterm), 'cons': [(len(k['terms']), k['soft']) for k in c.cons]}


def scale_vec(c, S, t):
    out = []
    for n, shp in S.vars[t]:
        out.append(np.asarray(c.scale.get((t, n), np.ones(_size(shp))), float))
    return np.concatenate(out) if out else np.zeros(0)


def set_by_ref(prop, head, S, ref, val, rng=None):
    """assign one scalar element through an indexed property; vector variables by element"""
    t, n, i = ref
    k = _size(S.shape(t, n))
    if k == 1:
        prop[tuple(head) + (n,)] = val
    else:
        prop[tuple(head) + (n, i)] = val


QUIET = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}


def build_mpc(do_mpc, S, model, c, rng=None, setup=True, p_fun=None, tvp_fun=None, extra=None, order=None, set_fun=True):
    """configure a controller; order: shuffles the order of independent option calls"""
    route = getattr(c, 'route', None) or ('attributes' if c.by_settings else 'set_param')
    st = do_mpc.controller.MPCSettings() if route == 'object' else None
    mpc = do_mpc.controller.MPC(model, st) if st is not None else do_mpc.controller.MPC(model)
    opts = dict(n_horizon=c.N, t_step=c.t_step, n_robust=c.n_robust, open_loop=c.open_loop, collocation_type=c.coll, collocation_deg=c.deg,
                collocation_ni=c.ni, nl_cons_check_colloc_points=c.nl_coll, nl_cons_single_slack=c.single_slack, cons_check_colloc_points=c.cons_coll,
                use_terminal_bounds=c.use_term, nlpsol_opts=dict(QUIET))
    if extra:
        opts.update(extra)
    opts = {k: v for k, v in opts.items() if v is not None}     # None: left at its default
    if order is not None:
        ks = list(opts)
        opts = {ks[i]: opts[ks[i]] for i in order.permutation(len(ks))}
    if route == 'object':
        for k, v in opts.items():
            setattr(st, k, v)
    elif route == 'attributes':
        for k, v in opts.items():
            setattr(mpc.settings, k, v)
    elif route == 'single':
        for k, v in opts.items():
            mpc.set_param(**{k: v})
    else:
        mpc.set_param(**opts)

    def s_obj():
        kw = dict(mterm=S.expr(model, c.mterm) if c.mterm else None, lterm=S.expr(model, c.lterm) if c.lterm else None)
        how = getattr(c, 'no_term', None)
        if how == 'omit':
            kw = {k: v for k, v in kw.items() if v is not None}
        elif how == 'constant':
            kw = {k: ca.DM(0) if v is None else v for k, v in kw.items()}
        mpc.set_objective(**kw)

    def s_rterm():
        if c.rterm is not None:
            mpc.set_rterm(expr_uprev(S, model, mpc, c.rterm))
        else:
            if order is not None and order.random() < 0.4:
                # factors given one after the other, possibly replacing an earlier value
                ks = list(c.rfac)
                for i in order.permutation(len(ks)):
                    if order.random() < 0.4:
                        mpc.set_rterm(**{ks[i]: 7.5})
                    mpc.set_rterm(**{ks[i]: c.rfac[ks[i]]})
                if not ks:
                    mpc.set_rterm()
            else:
                mpc.set_rterm(**c.rfac)

    def s_scale():
        for (t, n), v in c.scale.items():
            mpc.scaling[t, n] = v if v.size > 1 else float(v[0])

    def s_bounds():
        for r, (lb, ub) in c.bounds.items():
            set_by_ref(mpc.bounds, ('lower', r[0]), S, r, lb)
            set_by_ref(mpc.bounds, ('upper', r[0]), S, r, ub)

    def s_tb():
        for r, (lb, ub) in c.tbounds.items():
            set_by_ref(mpc.terminal_bounds, ('lower',), S, r, lb)
            set_by_ref(mpc.terminal_bounds, ('upper',), S, r, ub)

    def s_cons():
        for k in c.cons:
            e = ca.vertcat(*[S.expr(model, t) for t in k['terms']])
            mpc.set_nl_cons(k['name'], e, ub=k['ub'], soft_constraint=k['soft'], penalty_term_cons=k['pen'], maximum_violation=k['mv'])

    def s_p():
        if S.n('_p') or c.n_comb > 1:
            if p_fun is not None:
                mpc.get_p_template(c.n_comb)
                mpc.set_p_fun(p_fun)
            else:
                tpl = mpc.get_p_template(c.n_comb)
                mpc.set_p_fun(lambda t: tpl)

    def s_tvp():
        if S.n('_tvp'):
            if tvp_fun is not None:
                mpc.set_tvp_fun(tvp_fun)
            else:
                tpl = mpc.get_tvp_template()
                mpc.set_tvp_fun(lambda t: tpl)
    calls = [s_obj, s_rterm, s_scale, s_bounds, s_tb, s_cons] + ([s_p, s_tvp] if set_fun else [])
    if order is not None:
        calls = [calls[i] for i in order.permutation(len(calls))]
    for f in calls:
        f()
    if setup:
        finish(mpc, c)
    return mpc


def finish(opt, c):
    w = getattr(c, 'finish', None) or ('two' if c.two_stage else 'one')
    if w == 'two':
        opt.prepare_nlp()
        opt.create_nlp()
    elif w == 'prepare-twice':
        opt.prepare_nlp()
        opt.prepare_nlp()
        opt.create_nlp()
    else:
        opt.setup()
        if w == 'setup-twice':
            opt.setup()


def expr_uprev(S, model, mpc, terms):
    ur = S.refs('_u')

    def get(r):
        t, n, i = r
        if t == '_uprev':
            _, n2, j = ur[i]
            return mpc.u_prev[n2][j]
        h = getattr(model, t[1:])[n]
        shp = S.shape(t, n)
        if isinstance(shp, tuple) and len(shp) == 2 and shp[1] > 1:
            return h[i % shp[0], i // shp[0]]
        return h[i]
    e = evalterms(terms, get, L)
    cls = ca.SX if model.symvar_type == 'SX' else ca.MX
    return e if isinstance(e, (ca.SX, ca.MX)) else cls(e)


# ---- reference -----------------------------------------------------------------------------------
class RefMPC:
    """symbolic reference over W (scaled decision vector, layout of mpc.opt_x) and P (layout of mpc.opt_p)"""

    def __init__(self, S, c, mpc):
        self.S, self.c = S, c
        Y = SymSpec(S)
        nX, nU, nZ, nE = S.n('_x'), S.n('_u'), S.n('_z'), sum(len(k['terms']) for k in c.cons if k['soft'])
        nW, nP = int(mpc.opt_x.shape[0]), int(mpc.opt_p.shape[0])
        W, P = ca.SX.sym('W', nW), ca.SX.sym('P', nP)
        self.W, self.P = W, P
        fx, fp = mpc.opt_x.f, mpc.opt_p.f
        sx, su, sz = scale_vec(c, S, '_x'), scale_vec(c, S, '_u'), scale_vec(c, S, '_z')
        self.ix = {}
        self.active = set()

        def ids(*ind):
            if ind not in self.ix:
                self.ix[ind] = [int(i) for i in np.array(fx[ind]).ravel()]
            return self.ix[ind]

        def x(k, s, i=-1):
            j = ids('_x', k, s, i); self.active.update(j)
            return W[j] * sx

        def u(k, s):
            j = ids('_u', k, 0 if c.open_loop else s); self.active.update(j)
            return W[j] * su

        def z(k, s, i):
            if not nZ:
                return ca.SX(0, 1)
            j = ids('_z', k, s, i); self.active.update(j)
            return W[j] * sz
        neps = 1 if c.single_slack else c.N

        def eps(k, s):
            if not nE:
                return ca.SX(0, 1)
            j = ids('_eps', min(k, neps - 1), s); self.active.update(j)
            return W[j]
        pid = lambda *ind: [int(i) for i in np.array(fp[ind]).ravel()]
        x0p = P[pid('_x0')]
        up = P[pid('_u_prev')]
        tvp = lambda k: P[pid('_tvp', k)] if S.n('_tvp') else ca.SX(0, 1)
        par = lambda b: P[pid('_p', b)] if S.n('_p') else ca.SX(0, 1)

        nscen = [c.n_comb ** min(k, c.n_robust) for k in range(c.N + 1)]
        self.nscen = nscen
        obj = ca.SX(0)
        eq, ineq = [], []
        eqlab = []
        eq.append(x(0, 0) - x0p); eqlab += ['init'] * nX
        self.terms = {'l': ca.SX(0), 'm': ca.SX(0), 'r': ca.SX(0), 'e': ca.SX(0)}
        self.aux = {}
        self.z_free = set()     # algebraic values not tied by an equation (none expected)
        self.bound_pts = {}     # flat index -> (lb, ub) physical
        xb = np.array([c.bounds.get(r, (-np.inf, np.inf)) for r in S.refs('_x')]).reshape(-1, 2)
        ub_ = np.array([c.bounds.get(r, (-np.inf, np.inf)) for r in S.refs('_u')]).reshape(-1, 2)
        zb = np.array([c.bounds.get(r, (-np.inf, np.inf)) for r in S.refs('_z')]).reshape(-1, 2)
        tb = np.array([c.tbounds.get(r, (-np.inf, np.inf)) for r in S.refs('_x')]).reshape(-1, 2)
        if c.use_term:
            if np.all(tb[:, 0] == -np.inf):
                tb[:, 0] = xb[:, 0]
            if np.all(tb[:, 1] == np.inf):
                tb[:, 1] = xb[:, 1]
        if getattr(c, 'tb_override', None) is not None:
            tb = np.array(c.tb_override, float)

        def setb(j, b, s):
            for q, (i, bb) in enumerate(zip(j, b)):
                self.bound_pts[i] = (bb[0] / s[q], bb[1] / s[q])
        cont = S.mtype == 'continuous'
        if cont:
            tau, C, D = coll_matrices(c.coll, c.deg)
            h = c.t_step / c.ni
            ntot = (c.deg + 1) * c.ni
        seen_eps = set()
        for k in range(c.N):
            for s in range(nscen[k]):
                nb = c.n_comb if k < c.n_robust else 1
                w = 1.0 / nscen[k + 1]
                for b in range(nb):
                    if k < c.n_robust:
                        ch, pb = s * c.n_comb + b, b
                    else:
                        ch, pb = s, (s % c.n_comb if c.n_robust > 0 else 0)
                    xk, uk, tk, pk = x(k, s), u(k, s), tvp(k), par(pb)
                    zk0 = z(k, ch, 0)
                    if not cont:
                        d = dict(_x=xk, _u=uk, _z=zk0, _tvp=tk, _p=pk)
                        eq.append(Y.alg(**d)); eqlab += ['alg'] * nZ
                        eq.append(Y.rhs(**d) - x(k + 1, ch)); eqlab += ['dyn'] * nX
                        pts = [(xk, zk0)]
                    else:
                        # points in the order of the documented collocation: element i, point j
                        X, Z, pos = {}, {}, 0
                        for i in range(c.ni):
                            for j in range(c.deg + 1):
                                if i == 0 and j == 0:
                                    X[0, 0] = xk
                                else:
                                    X[i, j] = x(k + 1, ch, pos); pos += 1
                                Z[i, j] = z(k, ch, i * (c.deg + 1) + j)
                        end = x(k + 1, ch, pos)          # end point of the interval
                        for i in range(c.ni):
                            for j in range(c.deg + 1):
                                d = dict(_x=X[i, j], _u=uk, _z=Z[i, j], _tvp=tk, _p=pk)
                                eq.append(Y.alg(**d)); eqlab += ['alg'] * nZ
                                if j:
                                    eq.append(h * Y.rhs(**d) - sum(C[r, j] * X[i, r] for r in range(c.deg + 1))); eqlab += ['coll'] * nX
                            nxt = X[i + 1, 0] if i + 1 < c.ni else end
                            eq.append(nxt - sum(D[r] * X[i, r] for r in range(c.deg + 1))); eqlab += ['cont'] * nX
                        eq.append(end - x(k + 1, ch, -1)); eqlab += ['dyn'] * nX
                        pts = [(X[i, j], Z[i, j]) for i in range(c.ni) for j in range(c.deg + 1)] if c.nl_coll else [(xk, zk0)]
                    # constraints
                    e = eps(k, s)
                    for (xp, zp) in pts:
                        eo = 0
                        d = dict(_x=xp, _u=uk, _z=zp, _tvp=tk, _p=pk)
                        for q in c.cons:
                            ubv = np.broadcast_to(np.asarray(q['ub'], float), (len(q['terms']),))
                            for m, t in enumerate(q['terms']):
                                v = Y.terms(t, **d)
                                if q['soft']:
                                    v = v - e[eo]; eo += 1
                                ineq.append(v - ubv[m])
                    # objective
                    d = dict(_x=xk, _u=uk, _z=zk0, _tvp=tk, _p=pk)
                    self.terms['l'] += w * Y.terms(c.lterm, **d)
                    eo = 0
                    for q in c.cons:
                        if q['soft']:
                            for m in range(len(q['terms'])):
                                self.terms['e'] += q['pen'] * e[eo]; eo += 1
                    upv = up if k == 0 else u(k - 1, 0 if c.open_loop else (s // c.n_comb if k - 1 < c.n_robust else s))
                    if c.rterm is not None:
                        self.terms['r'] += Y.terms(c.rterm, _uprev=upv, **d)
                    else:
                        fac = np.concatenate([np.broadcast_to(np.asarray(c.rfac.get(n, 0.0), float), (_size(shp),)) for n, shp in S.vars['_u']]) if nU else np.zeros(0)
                        self.terms['r'] += ca.sum1(fac * ((uk - upv) / su) ** 2)
                    if k == c.N - 1:
                        self.terms['m'] += w * Y.terms(c.mterm, _x=x(k + 1, ch), _tvp=tvp(k + 1), _p=pk, _u=None, _z=None)
                    self.aux[k, s, b] = Y.aux(**d)
                    # bounds on algebraic variables
                    if nZ:
                        npts = ntot if cont else 1
                        for i in range(npts):
                            if c.cons_coll or i == 0:
                                setb(ids('_z', k, ch, i), zb, sz)
                            elif ids('_z', k, ch, i)[0] not in self.bound_pts:
                                setb(ids('_z', k, ch, i), np.tile([-np.inf, np.inf], (nZ, 1)), sz)
                setb(ids('_u', k, 0 if c.open_loop else s), ub_, su)
                if nE:
                    mv = np.concatenate([np.full(len(q['terms']), q['mv']) for q in c.cons if q['soft']])
                    setb(ids('_eps', min(k, neps - 1), s), np.c_[np.zeros(nE), mv], np.ones(nE))
        # state bounds: nodes 1..N-1 (and their collocation points), terminal node; x0 is fixed by the initial condition
        for k in range(1, c.N + 1):
            for s in range(nscen[k]):
                if k < c.N:
                    setb(ids('_x', k, s, -1), xb, sx)
                else:
                    setb(ids('_x', k, s, -1), tb, sx)
                if cont:
                    for i in range(ntot):
                        # points before the end of interval; last interval carries no path bound
                        bb = xb if (c.cons_coll and k < c.N) else np.tile([-np.inf, np.inf], (nX, 1))
                        setb(ids('_x', k, s, i), bb, sx)
        self.obj = sum(self.terms.values())
        self.eq = ca.vertcat(*eq)
        self.eqlab = eqlab
        self.ineq = ca.vertcat(*ineq) if ineq else ca.SX(0, 1)
        self.F = ca.Function('ref', [W, P], [self.obj, self.eq, self.ineq, ca.jacobian(self.eq, W), ca.vertcat(*[self.terms[q] for q in 'lmre'])])
        act = sorted(self.active)
        self.act = act
        # free coordinates when completing a trajectory: states and algebraic values of the active part
        nonxz = set()
        for ind, j in self.ix.items():
            if ind[0] in ('_u', '_eps'):
                nonxz.update(j)
        self.xz = [i for i in act if i not in nonxz]

    def complete(self, W0, P, tol=1e-10):
        """Newton completion: keep inputs and slacks, solve the states/algebraic values"""
        W = np.array(W0, float).ravel()
        for it in range(40):
            _, r, _, J, _ = self.F(W, P)
            r = r.full().ravel()
            if not np.all(np.isfinite(r)):
                return None
            if np.max(np.abs(r)) < tol:
                return W
            A = J.full()[:, self.xz]
            d = np.linalg.lstsq(A, -r, rcond=None)[0]
            if np.max(np.abs(d)) > 50:
                d *= 50 / np.max(np.abs(d))
            W[self.xz] += d
        return None


def rowspace_equal(A, B, tol=1e-6):
    """None if the row spaces agree, else a short description"""
    def basis(M):
        nrm = np.linalg.norm(M, axis=1)
        M = M[nrm > 1e-12]
        if M.size == 0:
            return np.zeros((0, A.shape[1])), M
        M = M / np.linalg.norm(M, axis=1)[:, None]
        U, s, Vt = np.linalg.svd(M, full_matrices=False)
        r = int(np.sum(s > 1e-9 * s[0]))
        return Vt[:r], M
    VA, MA = basis(A)
    VB, MB = basis(B)
    e1 = np.linalg.norm(MA - MA @ VB.T @ VB, axis=1) if len(MA) else np.zeros(1)
    e2 = np.linalg.norm(MB - MB @ VA.T @ VA, axis=1) if len(MB) else np.zeros(1)
    if e1.max(initial=0) > tol:
        return 'the generated problem has an equation that the documented problem does not imply (row %d, distance %.2g)' % (int(e1.argmax()), e1.max())
    if e2.max(initial=0) > tol:
        return 'an equation of the documented problem is not implied by the generated one (row %d, distance %.2g)' % (int(e2.argmax()), e2.max())
    return None
