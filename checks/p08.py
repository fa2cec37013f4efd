"""P08: scaling, symbol type and set-up route do not change results (paired executions)."""
import copy, os, shutil, subprocess, tempfile
import numpy as np
import casadi as ca
from vf import core, ocp, mheref
from vf.models import gen_spec, rvals, rterms, _size

ID = 'P08'
CASES = {'quick': [('mpc', 140), ('mhe', 110), ('mpcnl', 80), ('mhenl', 60), ('compile', 8)],
         'thorough': [('mpc', 1500), ('mhe', 1200), ('mpcnl', 1000), ('mhenl', 800), ('compile', 40)]}
RULE = ('a random controller or estimator and 2-3 variants that differ only in scaling, symbol type, option order/route, set-up route (one call, two stages, '
        'prepared or set up twice, compiled solver) are driven with the same data; inputs/estimates, recorded predictions and records are compared on convex problems, and the '
        'solution of one variant is evaluated in the problem of the other (cost, constraints, bounds) on all; distinct by (configuration, variants), non-trivial = at least one '
        'step solved by both')
ASSUMPTIONS = ['convex problems have a unique solution (strictly convex cost), solver tolerance 1e-10', 'built-in input-change weights are adapted by the squared scaling ratio']
NEED = {'pairs': 250, 'steps_compared': 350, 'cross_evaluated': 500}
MAX_INCONCLUSIVE = 0.4
SOLVER = {'ipopt.tol': 1e-10, 'ipopt.acceptable_tol': 1e-10, 'ipopt.max_iter': 200, 'ipopt.constr_viol_tol': 1e-10}


def rescale(rng, S, c):
    d = {}
    for t in ('_x', '_u', '_z'):
        for n, shp in S.vars[t]:
            if rng.random() < 0.8:
                k = _size(shp)
                d[(t, n)] = np.full(k, round(float(10 ** rng.uniform(-1.3, 1.3)), 3)) if rng.random() < 0.4 else np.round(10 ** rng.uniform(-1.3, 1.3, k), 3)
    if hasattr(c, 'p_est'):
        for n, shp in S.vars['_p']:
            if n in c.p_est and rng.random() < 0.9:
                d[('_p_est', n)] = np.round(10 ** rng.uniform(-1, 1, _size(shp)), 3)
    return d


def variant(rng, S, c, mhe=False):
    """same problem, other form"""
    b = copy.deepcopy(c)
    what = set(np.array(['scale', 'sym', 'order', 'route', 'finish'])[rng.random(5) < 0.45])
    if not what:
        what = {str(rng.choice(['scale', 'sym', 'order', 'route', 'finish']))}
    sym = S.sym
    if 'scale' in what:
        b.scale = rescale(rng, S, c)
        if not mhe and c.rterm is None:
            b.rfac = {}
            for n, r in c.rfac.items():
                k = _size(S.shape('_u', n))
                q = np.broadcast_to(np.asarray(r, float), (k,)) * (np.broadcast_to(b.scale.get(('_u', n), 1.0), (k,)) / np.broadcast_to(c.scale.get(('_u', n), 1.0), (k,))) ** 2
                b.rfac[n] = q if k > 1 else float(q[0])
    if 'sym' in what:
        sym = 'MX' if S.sym == 'SX' else 'SX'
    if 'route' in what:
        b.route = str(rng.choice(['attributes', 'set_param', 'single'] + ([] if mhe else ['object'])))
    if 'finish' in what:
        b.finish = str(rng.choice(['one', 'two', 'setup-twice', 'prepare-twice']))
    return b, sym, 'order' in what, sorted(what) + [getattr(b, 'route', ''), getattr(b, 'finish', '')]


def scal(opt):
    return np.array(opt.opt_x_scaling.cat).ravel()


def cross(ctx, A, B, RA, tag):
    """solution of A inside B's problem"""
    wA = np.array(A.opt_x_num.cat).ravel()
    P = np.array(A.opt_p_num.cat).ravel()
    act = np.array(RA.act)
    wB = np.zeros_like(wA)
    wB[:] = wA * scal(A) / scal(B)
    if wB.size != B.nlp['x'].shape[0] or P.size != B.nlp['p'].shape[0]:
        return ctx.check(False, 'size' + tag, 'the variants have problems of different size (%d/%d variables)' % (wB.size, B.nlp['x'].shape[0]))
    out = []
    for opt, w in ((A, wA), (B, wB)):
        if not hasattr(opt, '_vf_f'):
            opt._vf_f = ca.Function('f', [opt.nlp['x'], opt.nlp['p']], [opt.nlp['f'], opt.nlp['g']])
        f, g = opt._vf_f(w, P)
        g = np.array(g).ravel()
        lb, ub = np.array(ca.DM(opt.nlp_cons_lb)).ravel(), np.array(ca.DM(opt.nlp_cons_ub)).ravel()
        vg = np.maximum(lb - g, g - ub).max(initial=0)
        lx, ux = np.array(ca.DM(opt._lb_opt_x.cat)).ravel(), np.array(ca.DM(opt._ub_opt_x.cat)).ravel()
        with np.errstate(invalid='ignore'):
            vb = np.maximum(lx - w, w - ux)[act].max(initial=0)
        out.append((float(f), vg, vb))
    (fa, ga, ba), (fb, gb, bb) = out
    sc = 1 + np.abs(scal(A) / scal(B)).max() + np.abs(wA[act]).max()
    ok = ctx.check(abs(fa - fb) <= 1e-7 * (1 + abs(fa)), 'cost-differs' + tag, 'cost of the same physical trajectory: %.10g in one variant, %.10g in the other' % (fa, fb))
    ok &= ctx.check(gb <= 100 * sc * (ga + 1e-8), 'constraints-differ' + tag, 'trajectory feasible to %.2g in one variant violates the other by %.2g' % (ga, gb))
    ok &= ctx.check(bb <= 100 * sc * (ba + 1e-8), 'bounds-differ' + tag, 'trajectory within the bounds to %.2g in one variant violates the other by %.2g' % (ba, bb))
    ctx.count['cross_evaluated'] += 1
    return ok


def fields(d):
    return [f for f in ('_time', '_x', '_u', '_z', '_p', '_tvp', '_aux', '_y') if f in d.data_fields]


def compare_pair(ctx, A, B, RA, ra, rb, tag, convex, S, mhe):
    ok = cross(ctx, A, B, RA, tag)
    sa, sb = A.solver_stats, B.solver_stats
    if not (sa['return_status'] == sb['return_status'] == 'Solve_Succeeded'):
        ctx.count['not_both_solved'] += 1
        return False
    if not ok or not convex:
        if not convex and ok:
            # different local solutions are possible; equal cost means the same solution in almost all cases
            fa, fb = float(A._vf_f(A.opt_x_num.cat, A.opt_p_num.cat)[0]), float(B._vf_f(B.opt_x_num.cat, B.opt_p_num.cat)[0])
            if np.abs(np.ravel(ra) - np.ravel(rb)).max(initial=0) < 1e-5 and abs(fa - fb) < 1e-6 * (1 + abs(fa)):
                ctx.count['nl_same_solution'] += 1
        return ok
    ctx.count['steps_compared'] += 1
    ctx.close(np.ravel(rb), np.ravel(ra), 'result' + tag, 'returned %s of the variants' % ('estimate' if mhe else 'input'), rtol=3e-5, atol=3e-6)
    ua, ub = (np.array(o.opt_x_num_unscaled.cat).ravel()[RA.act] for o in (A, B))
    ctx.close(ub, ua, 'solution' + tag, 'optimal variables in physical units', rtol=1e-4, atol=1e-5)
    ctx.close(np.array(B.opt_aux_num.cat).ravel(), np.array(A.opt_aux_num.cat).ravel(), 'aux' + tag, 'auxiliary values of the solution', rtol=1e-4, atol=1e-5)
    for f in fields(A.data):
        a, b = A.data[f], B.data[f]
        if not ctx.check(a.shape == b.shape, 'record' + tag, 'shape of the record %s: %s, %s' % (f, a.shape, b.shape)) or a.size == 0:
            continue
        a, b = a[-1], b[-1]
        ctx.close(b, a, 'record' + tag, 'recorded %s' % f, rtol=3e-5, atol=3e-6)
    if not mhe:
        for t in ('_x', '_u'):
            for n, _ in S.vars[t]:
                pa, pb = np.array(A.data.prediction((t, n))), np.array(B.data.prediction((t, n)))
                if ctx.check(pa.shape == pb.shape, 'prediction' + tag, 'shape of the prediction of %s' % n):
                    ctx.close(pb, pa, 'prediction' + tag, 'recorded prediction of %s' % n, rtol=1e-4, atol=1e-5)
    return True


def mpc_cfg(rng, kind):
    nl = kind.endswith('nl')
    S = gen_spec(rng, noise=False, meas=0, nonlin=nl, aux=int(rng.integers(0, 2)), nx=int(rng.integers(1, 3)))
    c = ocp.gen_mpc_cfg(rng, S, max_N=4, nl=0, max_scen=4, scaling=bool(rng.random() < 0.5))
    c.deg = min(c.deg, 2); c.ni = min(c.ni, 2)
    sq = lambda rs: [(round(float(rng.uniform(.2, 2)), 3), 'sq', [r]) for r in rs]
    lin = lambda rs: [(round(float(rng.normal()), 3), 'id', [r]) for r in rs]
    c.lterm = sq(S.refs('_x', '_u', '_z')) + lin(S.refs('_x', '_tvp', '_p'))
    c.mterm = sq(S.refs('_x')) + lin(S.refs('_x'))
    if nl:
        ops = ['sin', 'tanh', 'rat', 'gauss', 'cos', 'tprod']
        c.lterm += rterms(rng, S.refs('_x', '_u', '_z', '_tvp', '_p'), n=2, ops=ops)
    if c.rterm is not None:
        c.rterm = []
        for i, r in enumerate(S.refs('_u')):
            w = round(float(rng.uniform(0.1, 1)), 3)
            c.rterm += [(w, 'sq', [r]), (-2 * w, 'prod', [r, ('_uprev', None, i)]), (w, 'sq', [('_uprev', None, i)])]
    for q in range(int(rng.integers(0, 3))):
        rs = S.refs('_x', '_u', '_z')
        t = [lin([rs[rng.integers(len(rs))] for _ in range(2)]) for _ in range(int(rng.integers(1, 3)))]
        if nl:
            t = [rterms(rng, rs, n=2, ops=['sin', 'tanh', 'gauss']) for _ in t]
        soft = bool(rng.random() < 0.75)
        c.cons.append(dict(name='con%d' % q, terms=t, ub=round(float(rng.uniform(0.3, 1.5)), 3), soft=soft, pen=round(float(rng.uniform(2, 20)), 3), mv=np.inf if rng.random() < .7 else 5.0))
    for r in S.refs('_u'):
        if rng.random() < 0.6:
            b = round(float(rng.uniform(0.2, 1.0)), 3)
            c.bounds[r] = (-b, b)
    return S, c


def run_mpc(ctx, kind, do_mpc, compile_=False, idx=0):
    rng = ctx.rng
    S, c = mpc_cfg(rng, kind)
    tv, pv = rng.normal(size=(c.N + 1, S.n('_tvp'))) * 0.4, rng.normal(size=(c.n_comb, S.n('_p'))) * 0.4

    def build(c, sym, order, tag):
        m = S.build(do_mpc, None if not order else rng, sym=sym)
        mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng if order else None, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **SOLVER), 'store_full_solution': True})
        if S.n('_p') or c.n_comb > 1:
            tp = mpc.get_p_template(c.n_comb)
            for k in range(c.n_comb):
                tp['_p', k] = pv[k]
            mpc.set_p_fun(lambda t: tp)
        if S.n('_tvp'):
            tt = mpc.get_tvp_template()

            def tvp_fun(t):
                for k in range(c.N + 1):
                    tt['_tvp', k] = tv[k] + 0.1 * float(np.ravel(t)[0])
                return tt
            mpc.set_tvp_fun(tvp_fun)
        ocp.finish(mpc, c)
        return mpc
    A = build(c, S.sym, False, 'A')
    RA = ocp.RefMPC(S, c, A)
    Bs, desc = [], []
    for j in range(1 if compile_ else int(rng.integers(2, 4))):
        b, sym, order, w = variant(rng, S, c) if not compile_ else (c, S.sym, False, ['compile'])
        Bs.append(build(b, sym, order, str(j)))
        desc.append(w)
        ctx.count['pairs'] += 1
    tmp = None
    try:
        if compile_:
            tmp = tempfile.mkdtemp(prefix='vfp08')
            old = os.getcwd()
            os.chdir(tmp)
            try:
                n = 'nlp%d_%d' % (idx, os.getpid())     # one process must not load two libraries of the same name
                how = ['default', 'custom', 'replace', 'reuse'][idx % 4]
                kept = None
                if how in ('replace', 'reuse'):
                    # there already is a library: of another problem (to be replaced) or of this one (to be used as it is)
                    o = A
                    if how == 'replace':
                        c2 = copy.copy(c)
                        c2.N = c.N + 1
                        tv = np.vstack([tv, tv[-1:]])
                        o = build(c2, S.sym, False, 'other')
                    o.S.generate_dependencies(n + '.c')
                    subprocess.run(['gcc', '-fPIC', '-shared', '-O0', n + '.c', '-o', n + '.so'], check=True)
                    kept = open(n + '.so', 'rb').read()
                    kw = dict(cname=n + '.c', libname='./%s.so' % n)
                    if how == 'replace':
                        kw['overwrite'] = True
                else:
                    kw = dict(libname=n + '.so') if how == 'default' else dict(overwrite=True, cname=n + '.c', libname='./%s.so' % n, compiler_command='gcc -fPIC -shared -O0 %s.c -o %s.so' % (n, n))
                Bs[0].compile_nlp(**kw)
                if how == 'replace':
                    ctx.check(open(n + '.so', 'rb').read() != kept, 'compile-overwrite', 'the existing library of another problem was not overwritten')
                if how == 'reuse':
                    ctx.check(open(n + '.so', 'rb').read() == kept, 'compile-reuse', 'an existing library was compiled again although overwriting was not requested')
                ctx.count['compile_' + how] += 1
                ctx.check(any(f.endswith('.so') for f in os.listdir(tmp)), 'compile-library', 'no library was built')
            finally:
                os.chdir(old)
            ctx.count['compiled'] += 1
        x = rvals(rng, S, '_x')
        for o in [A] + Bs:
            o.x0 = x
            o.set_initial_guess()
        both = 0
        for step in range(2 if compile_ else 3):
            rs = [o.make_step(x.reshape(-1, 1)) for o in [A] + Bs]
            for B, rb, w in zip(Bs, rs[1:], desc):
                both += bool(compare_pair(ctx, A, B, RA, rs[0], rb, '', not kind.endswith('nl'), S, False))
            for o in [A] + Bs:        # continue from the same past
                o.u0 = rs[0].ravel()
            x = np.array(A.opt_x_num_unscaled['_x', 1, 0, -1]).ravel() + rng.normal(size=x.size) * 0.05
            if len(ctx.violations) > 3 or np.abs(x).max() > 50:
                break
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.sig, ctx.desc = [ocp.sig_cfg(c, S), desc], dict(ocp.desc_cfg(c, S), variants=desc)
    ctx.nontrivial = both > 0
    if not both and not ctx.violations:
        raise core.Inconclusive('no step solved by both')


def run_mhe(ctx, kind, do_mpc):
    rng = ctx.rng
    nl = kind.endswith('nl')
    S = gen_spec(rng, meas=0, nonlin=nl, aux=int(rng.integers(0, 2)), nx=int(rng.integers(1, 3)), noise=bool(rng.random() < 0.7))
    ops = ['id'] if not nl else ['id', 'sin', 'tanh']
    S.meas = [('y%d' % i, [rterms(rng, S.refs('_x'), n=2, ops=ops), [(1.0, 'id', [S.refs('_x')[i % S.n('_x')]])]][:int(rng.integers(1, 3))], True) for i in range(int(rng.integers(1, 3)))]
    for i, r in enumerate(S.refs('_u')):
        S.meas.append(('um%d' % i, [[(1.0, 'id', [r])]], False))
    c = mheref.gen_mhe_cfg(rng, S, max_N=4, nl=0, custom=False)
    c.deg = min(c.deg, 2)
    if not nl:
        c.tvpw = c.pw = None
    c.bounds = {r: v for r, v in c.bounds.items() if r[0] == '_x' or r[0] == '_z'}
    if c.pw is not None and c.pw[1] in c.p_est:
        c.pw = None
    for q in range(int(rng.integers(0, 2))):
        rs = S.refs('_x', '_z') + [r for r in S.refs('_p') if r[1] in c.p_est]
        t = [[(round(float(rng.normal()), 3), 'id' if not nl else 'tanh', [rs[rng.integers(len(rs))]]) for _ in range(2)]]
        c.cons.append(dict(name='con%d' % q, terms=t, ub=round(float(rng.uniform(0.1, 1.0)), 3), soft=True, pen=round(float(rng.uniform(1, 10)), 3), mv=np.inf))
    tv, pv = rng.normal(size=(c.N + 1, S.n('_tvp'))) * 0.4, rng.normal(size=S.n('_p') - c.nP) * 0.4

    def build(c, sym, order):
        m = S.build(do_mpc, None if not order else rng, sym=sym)
        mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng if order else None, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **SOLVER), 'store_full_solution': True})
        if pv.size:
            tp = mhe.get_p_template()
            tp.master = ca.DM(pv)
            mhe.set_p_fun(lambda t: tp)
        if S.n('_tvp'):
            tt = mhe.get_tvp_template()

            def tvp_fun(t):
                for k in range(len(tt['_tvp'])):
                    tt['_tvp', k] = tv[k] + 0.1 * float(np.ravel(t)[0])
                return tt
            mhe.set_tvp_fun(tvp_fun)
        ocp.finish(mhe, c)
        return mhe
    A = build(c, S.sym, False)
    RA = mheref.RefMHE(S, c, A)
    Bs, desc = [], []
    for j in range(int(rng.integers(2, 4))):
        b, sym, order, w = variant(rng, S, c, mhe=True)
        Bs.append(build(b, sym, order))
        desc.append(w)
        ctx.count['pairs'] += 1
    x, pe = rvals(rng, S, '_x'), rng.normal(size=c.nP) * 0.3
    for o in [A] + Bs:
        o.x0 = x
        if c.nP:
            o.p_est0 = pe
        o.set_initial_guess()
    both = 0
    ny = sum(len(t) for _, t, _ in S.meas)
    for step in range(c.N + 2):
        y = np.round(rng.normal(size=ny) * 0.6, 3)
        rs = [o.make_step(y.reshape(-1, 1)) for o in [A] + Bs]
        for B, rb, w in zip(Bs, rs[1:], desc):
            both += bool(compare_pair(ctx, A, B, RA, rs[0], rb, '-mhe', not nl, S, True))
            if c.nP and not nl and A.solver_stats['success'] and B.solver_stats['success']:
                ctx.close(np.array(B.p_est0.cat).ravel(), np.array(A.p_est0.cat).ravel(), 'pest-mhe', 'estimated parameters', rtol=1e-4, atol=1e-5)
        if nl:
            for B in Bs:                # same past for all
                B.x0 = np.array(A.x0.cat).ravel()
                if c.nP:
                    B.p_est0 = np.array(A.p_est0.cat).ravel()
        if len(ctx.violations) > 3:
            break
    ctx.sig, ctx.desc = [mheref.sig_cfg(c, S), desc], dict(mheref.desc_cfg(c, S), variants=desc)
    ctx.nontrivial = both > 0
    if not both and not ctx.violations:
        raise core.Inconclusive('no step solved by both')


def run_case(kind, idx, ctx):
    import do_mpc
    if kind.startswith('mhe'):
        return run_mhe(ctx, kind, do_mpc)
    run_mpc(ctx, kind, do_mpc, compile_=(kind == 'compile'), idx=idx)


if __name__ == '__main__':
    core.main('checks.p08')
