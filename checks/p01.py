"""P01: model functions evaluate the declared equations (reference-model monitor)."""
import pickle
import numpy as np
from vf import core
from vf.models import gen_spec, rvals, _size

ID = 'P01'
CASES = {'quick': [('model', 2080), ('pair', 480), ('pickle', 480), ('iter', 320), ('names', 160)],
         'thorough': [('model', 6000), ('pair', 1200), ('pickle', 1200), ('iter', 600), ('names', 60)]}
RULE = ('random model declarations (type, SX/MX, scalar/vector/matrix variables, shuffled declaration interleaving, grouped algebraic '
        'equations, noise flags, handles taken from set_variable or queried) evaluated at random arguments by the finished model and by '
        'an independent numpy interpreter of the same expression trees; non-trivial = at least 2 of {z, tvp, p, noise, aux, meas} present; '
        'distinct by structural signature')
ASSUMPTIONS = ['expressions are drawn from a bounded operator set (products, trigonometric, rational, exponential terms)']
NEED = {'evals': {'quick': 800, 'thorough': 20000}, 'pickled': 20, 'pairs': 20}


def arg_struct(rng, model, t, v):
    """pass the values as array, DM or structure (all are API-legal)"""
    import casadi as ca
    k = rng.integers(3)
    if k == 0:
        return v
    if k == 1:
        return ca.DM(v)
    s = getattr(model, t)(0)
    s.master = ca.DM(v).reshape(s.cat.shape) if v.size else s.cat
    return s


def evaluate(ctx, S, m, npts=3, tag='model'):
    rng = ctx.rng
    for _ in range(npts):
        ctx.count['evals'] += 1
        x, u, z, tvp, p = [rvals(rng, S, t, 1.5) for t in ('_x', '_u', '_z', '_tvp', '_p')]
        w = np.round(rng.normal(size=S.n_w()), 3)
        v = np.round(rng.normal(size=S.n_v()), 3)
        a = [x, u, z, tvp, p]
        ctx.close(m._rhs_fun(*a, w).full().ravel(), S.f_rhs(*a, w), tag + '-rhs', 'right-hand side', x=x, u=u)
        if S.n('_z'):
            ctx.close(m._alg_fun(*a, w).full().ravel(), S.f_alg(*a), tag + '-alg', 'algebraic equations')
        ctx.close(m._meas_fun(*a, v).full().ravel(), S.f_meas(*a, v), tag + '-meas', 'measurement equation')
        ctx.close(m._aux_expression_fun(*a).full().ravel()[1:], S.f_aux(*a), tag + '-aux', 'auxiliary expressions')


def structure(ctx, S, m):
    for t, attr, n in (('_x', 'n_x', 0), ('_u', 'n_u', 0), ('_z', 'n_z', 0), ('_tvp', 'n_tvp', 0), ('_p', 'n_p', 0)):
        ctx.check(getattr(m, attr) == S.n(t), 'sizes', '%s is %s, declared %s' % (attr, getattr(m, attr), S.n(t)))
        names = [k for k in getattr(m, t).keys() if k != 'default']
        ctx.check(names == [n for n, _ in S.vars[t]], 'names', '%s names %s' % (t, names))
        for n, shp in S.vars[t]:
            ctx.check(int(np.prod(getattr(m, t[1:])[n].shape)) == _size(shp), 'shape', '%s %s' % (t, n))
    ctx.check(m.n_w == S.n_w(), 'noise-size', 'n_w %s instead of %s' % (m.n_w, S.n_w()))
    ctx.check(m.n_v == S.n_v(), 'noise-size', 'n_v %s instead of %s' % (m.n_v, S.n_v()))
    ctx.check(m.n_y == len(sum([ts for _, ts, _ in S.meas_eff()], [])), 'sizes', 'n_y')


def via_queries(ctx, S, m):
    """expressions built from variables of the finished model, the old handles and the model's own expressions agree."""
    import casadi as ca
    rng = ctx.rng
    refs = S.refs('_x', '_u', '_z', '_tvp', '_p')
    from vf.models import rterms, evalterms
    import types
    terms = rterms(rng, refs, n=4)
    L = types.SimpleNamespace(sin=ca.sin, cos=ca.cos, tanh=ca.tanh, exp=ca.exp)
    e_new = S.expr(m, terms)

    def get_old(r):
        t, n, i = r
        h = S.handles[(t, n)]
        shp = S.shape(t, n)
        if isinstance(shp, tuple) and shp[1] > 1:
            return h[i % shp[0], i // shp[0]]
        return h[i]
    e_old = evalterms(terms, get_old, L)
    e_old = e_old if isinstance(e_old, (ca.SX, ca.MX)) else type(e_new)(e_old)
    # variables obtained before setup() are only promised to be usable afterwards for SX (exported handles)
    args = [m.x, m.u, m.z, m.tvp, m.p]
    aux = [m.aux[n] for n, _ in S.aux] or [type(e_new)(0)]
    auxv = ca.vertcat(*aux)
    F = ca.Function('f', args, [e_new, e_old, auxv])
    a = [rvals(rng, S, t, 1.5) for t in ('_x', '_u', '_z', '_tvp', '_p')]
    r = F(*a)
    want = S.f_terms(terms, *a)
    ctx.close(r[0], want, 'query-expr', 'expression from model queries')
    ctx.close(r[1], want, 'handle-expr', 'expression from the handles returned by set_variable')
    if S.aux:
        ctx.close(r[2], S.f_aux(*a), 'aux-query', 'queried auxiliary expressions')
    ctx.count['query_exprs'] += 1
    xs = m['x', 'u']
    ctx.check(len(xs) == 2, 'tuple-query', 'tuple query')


def run_case(kind, idx, ctx):
    import do_mpc
    import casadi as ca
    rng = ctx.rng
    if kind == 'names':
        return long_names(ctx, do_mpc)
    if kind == 'iter':
        return iterated(ctx, do_mpc)
    S = gen_spec(rng, matpar=True, sym='SX' if kind == 'pickle' else None)
    ctx.sig, ctx.desc = [kind] + S.sig(), S.describe()
    ctx.nontrivial = sum(map(bool, [S.n('_z'), S.n('_tvp'), S.n('_p'), S.noise, S.aux, S.meas])) >= 2
    m = S.build(do_mpc, rng)
    structure(ctx, S, m)
    evaluate(ctx, S, m)
    via_queries(ctx, S, m)
    if kind == 'pair':
        other = 'MX' if S.sym == 'SX' else 'SX'
        m2 = S.build(do_mpc, rng, sym=other)
        structure(ctx, S, m2)
        evaluate(ctx, S, m2, tag='other-sym')
        evaluate(ctx, S, m, npts=1, tag='after-second-model')
        ctx.count['pairs'] += 1
    if kind == 'pickle':
        m2 = m
        for _ in range(int(rng.integers(1, 3))):
            m2 = pickle.loads(pickle.dumps(m2))
        structure(ctx, S, m2)
        evaluate(ctx, S, m2, tag='pickled')
        # queried expressions of the loaded model
        a = [rvals(rng, S, t, 1.5) for t in ('_x', '_u', '_z', '_tvp', '_p')]
        ex = [m2.x.cat, m2.u.cat, m2.z.cat, m2.tvp.cat, m2.p.cat]
        F = ca.Function('f', [m2.x, m2.u, m2.z, m2.tvp, m2.p], [ca.vertcat(*ex), m2._rhs if not hasattr(m2._rhs, 'cat') else m2._rhs.cat, m2.aux if not hasattr(m2.aux, 'cat') else m2.aux.cat] if S.n_w() == 0 else [ca.vertcat(*ex)])
        r = F(*a)
        r = r if isinstance(r, (tuple, list)) else [r]
        ctx.close(r[0], np.concatenate(a), 'pickled-vars', 'variables of the loaded model')
        if S.n_w() == 0:
            ctx.close(r[1], S.f_rhs(*a), 'pickled-rhs-expr', 'right-hand side expression of the loaded model')
            ctx.close(r[2].full().ravel()[1:], S.f_aux(*a), 'pickled-aux-expr', 'auxiliary expressions of the loaded model')
        evaluate(ctx, S, m, npts=1, tag='original-after-pickle')
        ctx.count['pickled'] += 1
        # a controller/simulator accepts it
        sim = do_mpc.simulator.Simulator(m2)
        ctx.count['pickled_used'] += 1


def long_names(ctx, do_mpc):
    """documented long names of variable types"""
    rng = ctx.rng
    pairs = [('states', 'x'), ('inputs', 'u'), ('algebraic', 'z'), ('parameter', 'p'), ('timevarying_parameter', 'tvp')]
    m = do_mpc.model.Model('discrete', ['SX', 'MX'][rng.integers(2)])
    h = {}
    order = list(rng.permutation(5))
    for k in order:
        long, short = pairs[k]
        h[short] = m.set_variable(long, 'v' + short, shape=int(rng.integers(1, 3)))
    c = np.round(rng.uniform(-2, 2, 4), 3)
    import casadi as ca
    m.set_alg('a', h['z'] - c[0])
    m.set_rhs('vx', c[1] * h['x'] + ca.sum1(h['u']) + c[2] * ca.sum1(h['p']) + c[3] * ca.sum1(h['tvp']))
    m.setup()
    ctx.sig, ctx.desc, ctx.nontrivial = ['names', [int(k) for k in order]], {'order': [pairs[k][0] for k in order]}, True
    for long, short in pairs:
        ctx.check('v' + short in getattr(m, short).keys(), 'long-name-' + long, 'variable declared as %r is not a %s' % (long, short))
    a = [np.round(rng.normal(size=getattr(m, 'n_' + s)), 3) for s in ('x', 'u', 'z', 'tvp', 'p')]
    ctx.close(m._rhs_fun(*a, []), c[1] * a[0] + a[1].sum() + c[2] * a[4].sum() + c[3] * a[3].sum(), 'long-name-rhs', 'rhs')
    ctx.count['evals'] += 1


def iterated(ctx, do_mpc):
    """set_rhs/meas/aux repeated use: constants as rhs, DM rhs, default measurement, same name in different types"""
    import casadi as ca
    rng = ctx.rng
    sym = ['SX', 'MX'][rng.integers(2)]
    mtype = ['continuous', 'discrete'][rng.integers(2)]
    m = do_mpc.model.Model(mtype, sym)
    n = int(rng.integers(1, 4))
    x = m.set_variable('_x', 'a', n)
    x2 = m.set_variable('_x', 'c', 1)
    u = m.set_variable('_u', 'a', 2)          # same name, other type
    p = m.set_variable('_p', 'a', (2, 2))
    const = np.round(rng.normal(size=(n, 1)), 3)
    noise = [bool(b) for b in rng.integers(0, 2, 2)]
    q = np.round(rng.normal(size=4), 3)
    if rng.random() < 0.5:
        m.set_rhs('a', ca.DM(const), process_noise=noise[0])
        fa = lambda x, x2, u, p: const.ravel()
    else:
        e = q[0] * x + ca.mtimes(ca.mtimes(u.T, p), u)
        m.set_rhs('a', e, process_noise=noise[0])
        fa = lambda x, x2, u, p: q[0] * x + u @ p @ u
    m.set_rhs('c', q[1] * x2 + ca.sum1(x) * q[2] + p[0, 1] * q[3], process_noise=noise[1])
    ret = m.set_expression('e1', x2 * 2 + u[1])
    ret2 = m.set_expression('e2', ret * ret)      # expression reused in another one
    mn = bool(rng.integers(2))
    y = m.set_meas('y', ret2 + x2, meas_noise=mn)
    m.setup()
    X, X2, U, P = np.round(rng.normal(size=n), 3), np.round(rng.normal(size=1), 3), np.round(rng.normal(size=2), 3), np.round(rng.normal(size=(2, 2)), 3)
    W = np.round(rng.normal(size=m.n_w), 3)
    V = np.round(rng.normal(size=m.n_v), 3)
    xv = np.concatenate([X, X2])
    pv = P.ravel(order='F')
    r1 = fa(X, X2, U, P)
    r2 = q[1] * X2 + X.sum() * q[2] + P[0, 1] * q[3]
    wn = (n if noise[0] else 0) + (1 if noise[1] else 0)
    ctx.check(m.n_w == wn, 'noise-size', 'n_w')
    off = 0
    if noise[0]:
        r1 = r1 + W[:n]
        off = n
    if noise[1]:
        r2 = r2 + W[off]
    ctx.close(m._rhs_fun(xv, U, [], [], pv, W), np.concatenate([r1, r2]), 'iter-rhs', 'rhs')
    e1 = X2[0] * 2 + U[1]
    ctx.close(m._aux_expression_fun(xv, U, [], [], pv).full().ravel()[1:], [e1, e1 * e1], 'iter-aux', 'aux')
    ctx.close(m._meas_fun(xv, U, [], [], pv, V), e1 * e1 + X2[0] + (V[0] if mn else 0), 'iter-meas', 'meas')
    ctx.check(m.n_v == int(mn), 'noise-size', 'n_v')
    ctx.sig, ctx.desc, ctx.nontrivial = ['iter', mtype, sym, n, noise, mn], {'type': mtype, 'sym': sym, 'n': n, 'noise': noise}, True
    ctx.count['evals'] += 1


if __name__ == '__main__':
    core.main('checks.p01')
