"""P05: the MPC objective equals the documented scenario-weighted cost (reference-model monitor)."""
import numpy as np
import casadi as ca
from vf import core
from vf.models import gen_spec, rvals
from vf import ocp

ID = 'P05'
CASES = {'quick': [('obj', 520), ('objz', 160), ('robust', 240), ('step', 80)],
         'thorough': [('obj', 4000), ('objz', 1500), ('robust', 2500), ('step', 600)]}
RULE = ('random models and controller configurations (horizon, scenario tree, collocation, open loop, scaling, built-in or custom input-change '
        'penalty, soft constraints); the generated objective is evaluated at random decision/parameter vectors and compared with an independent '
        'scenario-weighted sum; each "step" case also checks the objective handed to the solver at the solution of a real control step; '
        'distinct by structural configuration signature, non-trivial = more than one stage or more than one scenario')
ASSUMPTIONS = ['input-change and slack penalties are summed over all branches of the tree without scenario weight (documented formulas carry no weight on them)',
               'algebraic variables in stage terms are taken at the beginning of the interval']
NEED = {'obj_points': 500, 'term_r': 50, 'term_e': 50, 'multi_scenario': 60}


def relevant(ctx, S, c):
    ctx.sig, ctx.desc = ocp.sig_cfg(c, S), ocp.desc_cfg(c, S)
    ctx.nontrivial = c.N > 1 or c.n_comb ** c.n_robust > 1
    if c.n_comb ** c.n_robust > 1:
        ctx.count['multi_scenario'] += 1


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    kw = {}
    if kind == 'objz':
        kw['nz'] = int(rng.integers(1, 3))
    if kind == 'robust':
        kw['np_'] = int(rng.integers(1, 3))
    S = gen_spec(rng, noise=False, meas=0, **kw)
    c = ocp.gen_mpc_cfg(rng, S, robust=(kind == 'robust') or None, big=1 if kind == 'robust' and rng.random() < 0.2 else None, custom_rterm=(rng.random() < 0.5) if kind == 'robust' else None,
                        nl=int(rng.integers(0, 2)) if kind == 'step' else None)
    if kind == 'obj' and rng.random() < 0.25:
        # costs with only one term, or none
        w = rng.random()
        if w < 0.6:
            c.mterm = []
        if w > 0.4:
            c.lterm = []
        c.no_term = str(rng.choice(['omit', 'none', 'constant']))
        ctx.count['one_term'] += 1
    relevant(ctx, S, c)
    m = S.build(do_mpc, rng)
    mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng)
    R = ocp.RefMPC(S, c, mpc)
    f = ca.Function('f', [mpc.opt_x, mpc.opt_p], [mpc.nlp_obj])
    fs = ca.Function('fs', [mpc.nlp['x'], mpc.nlp['p']], [mpc.nlp['f']])
    for j in range(4):
        W = rng.normal(size=R.W.shape[0]) * (0.3 if j else 1.0)
        P = rng.normal(size=R.P.shape[0])
        want, _, _, _, terms = R.F(W, P)
        for nm, v in zip('lmre', terms.full().ravel()):
            if abs(v) > 1e-9:
                ctx.count['term_' + nm] += 1
        ok = ctx.close(f(W, P), want, 'objective', 'objective at a random point (stage %g, terminal %g, rterm %g, slack %g)' % tuple(terms.full().ravel()), rtol=1e-8)
        ctx.close(fs(W, P), want, 'objective-solver', 'objective of the problem given to the solver', rtol=1e-8)
        ctx.count['obj_points'] += 1
        if not ok:
            # which entries does the difference come from
            r2 = ca.Function('d', [R.W, R.P], [ca.gradient(R.obj, R.W)])
            g1 = ca.Function('g', [mpc.opt_x, mpc.opt_p], [mpc.nlp_obj]).factory('g', ['i0', 'i1'], ['grad:o0:i0'])(W, P).full().ravel()
            g2 = r2(W, P).full().ravel()
            lab = mpc.opt_x.labels()
            ctx.violations[-1]['data']['gradient_differs_at'] = [lab[i] for i in np.nonzero(np.abs(g1 - g2) > 1e-7)[0][:12]]
            break
    if kind == 'step':
        step(ctx, S, c, m, mpc, R)


def step(ctx, S, c, m, mpc, R):
    rng = ctx.rng
    mpc.x0 = rvals(rng, S, '_x')
    mpc.u0 = rvals(rng, S, '_u')
    mpc.set_initial_guess()
    x0 = rvals(rng, S, '_x').reshape(-1, 1)
    up = np.array(mpc.u0.cat).ravel()
    mpc.make_step(x0)
    W = np.array(mpc.opt_x_num.cat).ravel()
    P = np.array(mpc.opt_p_num.cat).ravel()
    if not np.all(np.isfinite(W)):
        raise core.Inconclusive('solver returned non-finite values')
    want, _, _, _, terms = R.F(W, P)
    S_ = mpc.S(x0=W, p=P, lbx=W, ubx=W, lbg=-ca.inf, ubg=ca.inf)
    ctx.close(S_['f'], want, 'objective-at-solution', 'cost reported by the solver at the solution', rtol=1e-7)
    ctx.count['steps'] += 1


if __name__ == '__main__':
    core.main('checks.p05')
