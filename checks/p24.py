"""P24: every documented option is in force as configured, by whatever route, and with its documented default (solver's own option list, statistics and output, twin objects and a reference implementation of the integration scheme as oracle)."""
import contextlib
import io
import os
import pickle
import shutil
import tempfile
import numpy as np
import casadi as ca
from vf import core, mheref, ocp
from vf.models import gen_spec, rvals
from checks import p07, p10
from checks.p22 import nlp_print

ID = 'P24'
CASES = {'quick': [('default', 340), ('solver', 420), ('scheme', 260), ('simdefault', 200), ('files', 140), ('initial', 200)],
         'thorough': [('default', 2500), ('solver', 3000), ('scheme', 2000), ('simdefault', 1500), ('files', 1000), ('initial', 1500)]}
RULE = ('pairs of controllers and of estimators of which one leaves a random subset of the options at their defaults and the other gives the documented default explicitly, by different routes, '
        'compared by the values of the generated problem, their steps and records; solver options given by random routes in random order, read back from the list of user-set options that '
        'the solver prints itself, from its statistics and its output; integration schemes configured for the simulator against an own implementation of the scheme; simulators at their '
        'defaults against explicit ones; samplers, planners and data handlers used with their defaults in an empty folder; initial values given by random routes (arrays, structures, single entries) against plain vectors; distinct by (configuration, options, routes); non-trivial = at '
        'least one option was varied')
ASSUMPTIONS = ['the documented defaults are those written in the class documentation of the settings at the pinned commit']
NEED = {'default_pairs': 100, 'options_left_default': 300, 'option_lists': 60, 'listed_options': 200, 'silent': 40, 'iteration_limits': 50, 'schemes': 60, 'refused_by_integrator': 15, 'sampler_runs': 40, 'initial_values': 200, 'tolerances_overridden': 15}
MAX_INCONCLUSIVE = 0.2

MPC_DEFAULT = dict(n_robust=0, open_loop=False, use_terminal_bounds=False, state_discretization='collocation', collocation_type='radau', collocation_deg=2, collocation_ni=1,
                   nl_cons_check_colloc_points=False, nl_cons_single_slack=False, cons_check_colloc_points=True, store_full_solution=False, store_lagr_multiplier=True,
                   store_solver_stats=['success', 't_wall_total'])
MHE_DEFAULT = {k: v for k, v in MPC_DEFAULT.items() if k not in ('n_robust', 'open_loop', 'use_terminal_bounds')}
ATTR = dict(n_robust='n_robust', open_loop='open_loop', use_terminal_bounds='use_term', collocation_type='coll', collocation_deg='deg', collocation_ni='ni',
            nl_cons_check_colloc_points='nl_coll', nl_cons_single_slack='single_slack', cons_check_colloc_points='cons_coll')
# options that ipopt accepts together with the value it prints
IPOPT = {'ipopt.max_iter': [0, 3, 12, 40], 'ipopt.tol': [1e-5, 1e-7, 1e-9], 'ipopt.acceptable_tol': [1e-4, 1e-6], 'ipopt.constr_viol_tol': [1e-5, 1e-7], 'ipopt.mu_init': [0.01, 0.5],
         'ipopt.bound_push': [0.001, 0.05], 'ipopt.mu_strategy': ['adaptive', 'monotone'], 'ipopt.warm_start_init_point': ['yes', 'no'], 'ipopt.max_cpu_time': [50.0, 300.0],
         'ipopt.bound_relax_factor': [0.0, 1e-9], 'ipopt.nlp_scaling_method': ['none', 'gradient-based'], 'ipopt.acceptable_iter': [3, 9]}


def copy_value(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


def gen(rng, mhe, **kw):
    S = gen_spec(rng, **kw)
    if mhe:
        c = mheref.gen_mhe_cfg(rng, S, max_N=4, nl=int(rng.integers(0, 3)))
        W = p10.Shadow(rng, S, c)
    else:
        c = ocp.gen_mpc_cfg(rng, S, max_N=4, max_scen=4, nl=int(rng.integers(0, 3)))
        p07.bounded_costs(rng, S, c)
        W = p07.World(rng, S, c)
    return S, c, W


def install(o, S, c, W, mhe):
    if mhe:
        W.install(o)
    else:
        pf, tf = W.funs(o)
        if S.n('_p') or c.n_comb > 1:
            o.get_p_template(c.n_comb)
            o.set_p_fun(pf)
        if S.n('_tvp'):
            o.set_tvp_fun(tf)


def default_case(ctx, do_mpc):
    rng = ctx.rng
    mhe = bool(rng.random() < 0.45)
    S, c, W = gen(rng, mhe, mtype='continuous' if rng.random() < 0.75 else None)
    table = MHE_DEFAULT if mhe else MPC_DEFAULT
    c.deg = min(c.deg, 3)
    names = [k for k in table if rng.random() < 0.5] or [str(rng.choice(list(table)))]
    if not mhe and c.n_comb > 1 and 'n_robust' in names and c.n_robust:
        names.remove('n_robust')
    for k in names:
        if k in ATTR:
            setattr(c, ATTR[k], table[k])
    other = dict(state_discretization='collocation', store_full_solution=bool(rng.random() < 0.5), store_lagr_multiplier=bool(rng.random() < 0.5),
                 store_solver_stats=['return_status'] if rng.random() < 0.5 else ['success', 'n_call_nlp_f'])
    build, seed = (mheref.build_mhe, int(rng.integers(1 << 30)))
    if not mhe:
        build = ocp.build_mpc
    seq = int(rng.integers(1 << 30))
    routes = ['attributes', 'set_param', 'single'] + ([] if mhe else ['object'])
    runs, used = [], []
    for left in (True, False):
        m = S.build(do_mpc, np.random.default_rng(seed))
        extra = {k: copy_value(v) for k, v in other.items()}
        extra['nlpsol_opts'] = dict(ocp.QUIET, **{'ipopt.max_iter': 15})
        for k in names:
            extra[k] = None if left else copy_value(table[k])
        c.route = str(rng.choice(routes))
        used.append(c.route)
        o = build(do_mpc, S, m, c, order=np.random.default_rng(seq), setup=False, set_fun=False, extra=extra, **({'y_fun': None} if mhe else {}))
        install(o, S, c, W, mhe)
        ocp.finish(o, c)
        out = dict(problem=nlp_print(o, 3), shape=(int(np.prod(o.nlp['x'].shape)), int(np.prod(o.nlp['g'].shape)), int(np.prod(o.nlp['p'].shape))))
        r = np.random.default_rng(seq)
        o.x0 = rvals(r, S, '_x', 0.5)
        if mhe and c.p_est:
            o.p_est0 = np.full(o.n_p_est, 0.4)
        o.set_initial_guess()
        ret = []
        for k in range(2):
            v = r.normal(size=S.n('_x') if not mhe else m.n_y) * 0.4
            ret.append(np.ravel(o.make_step(v.reshape(-1, 1))))
        out['steps'] = ret
        out['fields'] = {f: np.shape(o.data[f]) for f in o.data.data_fields}
        out['values'] = {f: np.asarray(o.data[f]) for f in o.data.data_fields if not f.startswith('t_')}
        out['settings'] = {k: copy_value(getattr(o.settings, k)) for k in table}
        runs.append(out)
    A, B = runs
    what = '%s that leaves %s at the default (%s) against one where the documented default is given (%s)' % ('estimator' if mhe else 'controller', names, used[0], used[1])
    ctx.check(A['shape'] == B['shape'], 'default-problem-size', 'size of the problem %s / %s: %s' % (A['shape'], B['shape'], what))
    if A['shape'] == B['shape']:
        for a, b in zip(A['problem'], B['problem']):
            ctx.close(a, b, 'default-problem', 'values of the problem: ' + what, rtol=1e-12, atol=1e-12)
    for f in sorted(set(A['fields']) | set(B['fields'])):
        ctx.check(A['fields'].get(f) == B['fields'].get(f), 'default-record', 'record %s has shape %s / %s: %s' % (f, A['fields'].get(f), B['fields'].get(f), what))
    for a, b in zip(A['steps'], B['steps']):
        ctx.close(a, b, 'default-step', 'returned values: ' + what, rtol=1e-9, atol=1e-9)
    for f in A['values']:
        if A['fields'][f] == B['fields'].get(f):
            if A['values'][f].dtype.kind in 'OUS':
                ctx.check(A['values'][f].tolist() == B['values'][f].tolist(), 'default-record-values', 'record %s: %s' % (f, what))
                continue
            ctx.close(A['values'][f], B['values'][f], 'default-record-values', 'record %s: %s' % (f, what), rtol=1e-9, atol=1e-9)
    ctx.check(A['settings'] == B['settings'], 'default-settings', 'settings %s / %s: %s' % (A['settings'], B['settings'], what))
    stats = B['settings']['store_solver_stats']
    ctx.check(all(s in A['fields'] for s in stats), 'default-statistics', 'statistics %s are configured but the record holds %s' % (stats, sorted(A['fields'])))
    ctx.count['default_pairs'] += 1
    ctx.count['options_left_default'] += len(names)
    ctx.sig = ['default', mhe, (mheref.sig_cfg if mhe else ocp.sig_cfg)(c, S), sorted(names), used]
    ctx.desc = {'options': names, 'routes': used, 'estimator': mhe}
    ctx.nontrivial = True


def same_value(text, v):
    if isinstance(v, str):
        return text == v
    try:
        return abs(float(text) - float(v)) <= 1e-4 * abs(float(v)) + 1e-300
    except ValueError:
        return False


def parse_options(out):
    """the list of user-set options as ipopt prints it"""
    res, on = {}, False
    for l in out.splitlines():
        if 'List of user-set options' in l:
            on = True
            continue
        if on and ' = ' in l:
            k, v = l.split(' = ', 1)
            res[k.strip()] = v.split()[0]
        elif on and res and not l.strip():
            break
        elif on and res and ' = ' not in l:
            break
    return res if on else None


def solver_case(ctx, do_mpc):
    rng = ctx.rng
    mhe = bool(rng.random() < 0.45)
    S, c, W = gen(rng, mhe)
    c.deg, c.ni = min(c.deg, 2), 1
    m = S.build(do_mpc, rng)
    mode = str(rng.choice(['listed', 'listed', 'silent', 'loud']))
    want = {}
    names = list(IPOPT)
    for i in rng.permutation(len(names))[:int(rng.integers(1, 6))]:
        want[names[i]] = IPOPT[names[i]][int(rng.integers(len(IPOPT[names[i]])))]
    base = {'listed': {'ipopt.print_user_options': 'yes', 'ipopt.print_level': 3, 'ipopt.sb': 'yes', 'print_time': False}, 'silent': {}, 'loud': {}}[mode]
    want.update(base)
    dup = {k: v for k, v in want.items()}
    first = dict(dup)
    late = {}
    for k in list(want):
        if k in IPOPT and rng.random() < 0.4:
            if rng.random() < 0.5:
                first[k] = IPOPT[k][0]                        # replaced later
            else:
                first.pop(k)
            late[k] = want[k]
    c.route = str(rng.choice(['attributes', 'set_param', 'single'] + ([] if mhe else ['object'])))
    build = mheref.build_mhe if mhe else ocp.build_mpc
    o = build(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': first, 'store_solver_stats': ['iter_count', 'success']}, **({'y_fun': None} if mhe else {}))
    acts = [('late', k, v) for k, v in late.items()]
    if mode == 'silent':
        acts.append(('silent', None, None))
    if rng.random() < 0.5:
        acts.append(('linear', 'ipopt.linear_solver', 'mumps'))
        want['ipopt.linear_solver'] = 'mumps'
    trace = [c.route]
    for i in rng.permutation(len(acts)):
        a, k, v = acts[i]
        how = str(rng.choice(['item', 'update', 'replace', 'set_param']))
        trace.append((a, k, v, how))
        if a == 'silent':
            o.settings.supress_ipopt_output()
        elif a == 'linear':
            if rng.random() < 0.5:
                o.settings.set_linear_solver(v)
            else:
                o.settings.set_linear_solver(solver_name=v)
        elif how == 'item':
            o.settings.nlpsol_opts[k] = v
        elif how == 'update':
            o.settings.nlpsol_opts.update({k: v})
        elif how == 'replace':
            o.settings.nlpsol_opts = {**o.settings.nlpsol_opts, k: v}
        else:
            o.set_param(nlpsol_opts=dict(o.settings.nlpsol_opts, **{k: v}))
    install(o, S, c, W, mhe)
    ocp.finish(o, c)
    o.x0 = rvals(rng, S, '_x', 0.5)
    o.set_initial_guess()
    for k in range(int(rng.integers(1, 3))):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o.make_step(rng.normal(size=(m.n_x if not mhe else m.n_y, 1)) * 0.5)
        out = buf.getvalue()
        st = o.solver_stats
        lim = want.get('ipopt.max_iter', 3000)
        if st['return_status'] in ('Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Maximum_Iterations_Exceeded'):     # otherwise the counter may be undefined
            ctx.check(st['iter_count'] <= lim, 'iteration-limit', '%d iterations although ipopt.max_iter is %s (options %s)' % (st['iter_count'], lim, trace))
            ctx.check(st['return_status'] != 'Maximum_Iterations_Exceeded' or st['iter_count'] >= lim, 'iteration-limit-early', 'stopped after %d iterations although ipopt.max_iter is %s (options %s)' % (st['iter_count'], lim, trace))
            ctx.count['iteration_limits'] += lim < 3000
        held = o.settings.nlpsol_opts
        ctx.check(all(q in held and held[q] == v for q, v in want.items()), 'settings-kept', 'the settings hold %s, configured %s (%s)' % (held, want, trace))
        ctx.check(int(np.ravel(o.data['iter_count'])[-1]) == st['iter_count'], 'statistics', 'recorded %s, solver %s' % (o.data['iter_count'], st['iter_count']))
        if mode == 'silent':
            ctx.check(out.strip() == '', 'silent', 'output although the solver output was suppressed (%s): %r' % (trace, out[:200]))
            ctx.count['silent'] += 1
        elif mode == 'loud':
            # neither the report of the solver nor the timing was suppressed
            ctx.check('Ipopt' in out and 't_wall' in out, 'loud', 'no solver report although nothing was suppressed (%s): %r' % (trace, out[:200]))
        else:
            got = parse_options(out)
            if got is None:
                raise core.Inconclusive('no option list printed')
            if 'ipopt.linear_solver' not in want:
                got.pop('linear_solver', None)                    # CasADi chooses one itself
            exp = {k[6:]: v for k, v in want.items() if k.startswith('ipopt.')}
            ctx.check(set(got) == set(exp), 'option-names', 'options in force %s, configured %s (%s)' % (sorted(got), sorted(exp), trace))
            for q in sorted(set(got) & set(exp)):
                ctx.check(same_value(got[q], exp[q]), 'option-value', 'option %s is %s in the solver and %s in the settings (%s)' % (q, got[q], exp[q], trace))
                ctx.count['listed_options'] += 1
            ctx.check('t_wall' not in out, 'option-print-time', 'timing report although print_time was switched off (%s)' % (trace,))
            ctx.count['option_lists'] += 1
    ctx.sig = ['solver', mhe, mode, sorted((k, str(v)) for k, v in want.items()), [str(t) for t in trace]]
    ctx.desc = {'options': {k: str(v) for k, v in want.items()}, 'trace': [str(t) for t in trace], 'mode': mode}
    ctx.nontrivial = True


def coll_step(S, kind, deg, n, h, x, u, tvp, p):
    """n steps of the collocation scheme for an ODE, solved by Newton's method"""
    from scipy.optimize import fsolve
    tau = np.array([0.0] + ca.collocation_points(deg, kind))
    Cm, D = np.zeros((deg + 1, deg + 1)), np.zeros(deg + 1)
    for j in range(deg + 1):
        poly = np.poly1d([1.0])
        for r in range(deg + 1):
            if r != j:
                poly *= np.poly1d([1, -tau[r]]) / (tau[j] - tau[r])
        D[j] = poly(1.0)
        Cm[j] = np.polyder(poly)(tau)
    hh, nx = h / n, len(x)
    f = lambda q: np.asarray(S.f_rhs(q, u, np.zeros(0), tvp, p), float).ravel()
    for _ in range(n):
        def res(v):
            V = np.vstack([x, v.reshape(deg, nx)])
            return np.concatenate([Cm[:, j] @ V - hh * f(V[j]) for j in range(1, deg + 1)])
        v, info, ok, msg = fsolve(res, np.tile(x, deg), full_output=True, xtol=1e-13)
        if np.max(np.abs(res(v))) > 1e-10:
            raise core.Inconclusive('reference scheme did not converge')
        x = D @ np.vstack([x, v.reshape(deg, nx)])
    return x


def make_sim(do_mpc, S, m, rng, h, opts, tvp, p):
    s = do_mpc.simulator.Simulator(m)
    route = int(rng.integers(0, 3))
    opts = dict(opts, t_step=h)
    if route == 0:
        s.set_param(**opts)
    elif route == 1:
        ks = list(opts)
        for i in rng.permutation(len(ks)):
            s.set_param(**{ks[i]: opts[ks[i]]})
    else:
        for k, v in opts.items():
            if k == 'integration_opts' and rng.random() < 0.5:
                s.settings.integration_opts.update(v)
            else:
                setattr(s.settings, k, v)
    if S.n('_tvp'):
        tt = s.get_tvp_template()
        tt.master = ca.DM(tvp)
        s.set_tvp_fun(lambda t: tt)
    if S.n('_p'):
        pt = s.get_p_template()
        pt.master = ca.DM(p)
        s.set_p_fun(lambda t: pt)
    s.setup()
    return s


def scheme_case(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, mtype='continuous', nz=0, noise=False)
    m = S.build(do_mpc, rng)
    h = float(np.round(rng.uniform(0.2, 0.9), 3))
    tvp, p = rvals(rng, S, '_tvp', 0.5), rvals(rng, S, '_p', 0.5)
    x = rvals(rng, S, '_x', 0.6)
    if rng.random() < 0.25:
        # an iteration limit of the integrator is in force
        tool = str(rng.choice(['cvodes', 'idas']))
        s = make_sim(do_mpc, S, m, rng, h, dict(integration_tool=tool, integration_opts={'max_num_steps': 1}), tvp, p)
        s.x0 = x
        s.set_initial_guess()
        if np.max(np.abs(S.f_rhs(x, np.full(S.n('_u'), 0.4), np.zeros(0), tvp, p))) < 1e-3:
            raise core.Inconclusive('nothing to integrate')
        ctx.raises(lambda: s.make_step(np.full((S.n('_u'), 1), 0.4)), 'integrator-limit', 'the step limit of the integrator was ignored (%s)' % tool)
        ctx.count['refused_by_integrator'] += 1
        ctx.sig = ['limit', S.sig(), tool]
    else:
        deg, n, kind = int(rng.integers(1, 5)), int(rng.integers(1, 4)), str(rng.choice(['radau', 'legendre']))
        opts = {'interpolation_order': deg, 'number_of_finite_elements': n, 'collocation_scheme': kind}
        s = make_sim(do_mpc, S, m, rng, h, dict(integration_tool='collocation', integration_opts=opts), tvp, p)
        s.x0 = x
        s.set_initial_guess()
        for k in range(2):
            u = rvals(rng, S, '_u', 0.6)
            want = coll_step(S, kind, deg, n, h, x, u, tvp, p)
            s.make_step(u.reshape(-1, 1))
            got = np.array(s.x0.cat).ravel()
            ctx.close(got, want, 'scheme', 'state after step %d with the integration scheme %s' % (k, opts), rtol=1e-7, atol=1e-8)
            x = got
            ctx.count['schemes'] += 1
        ctx.sig = ['scheme', S.sig(), deg, n, kind]
    ctx.desc = {'model': S.describe()}
    ctx.nontrivial = True


def simdefault_case(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, mtype='continuous', noise=False)
    seed = int(rng.integers(1 << 30))
    h = float(np.round(rng.uniform(0.2, 0.9), 3))
    tvp, p = rvals(rng, S, '_tvp', 0.5), rvals(rng, S, '_p', 0.5)
    D = dict(abstol=1e-10, reltol=1e-10, integration_tool='cvodes', integration_opts={})
    names = [k for k in D if rng.random() < 0.6] or ['abstol']
    other = dict(abstol=1e-8, reltol=1e-7, integration_tool='idas', integration_opts={'max_num_steps': 15000})
    if S.n('_z'):
        other['integration_tool'] = 'idas'
        if 'integration_tool' in names:
            names.remove('integration_tool')
        names = names or ['abstol']
    x = rvals(rng, S, '_x', 0.6)
    us = [rvals(rng, S, '_u', 0.6) for _ in range(3)]
    out = []
    for left in (True, False):
        m = S.build(do_mpc, np.random.default_rng(seed))
        opts = {k: copy_value(v) for k, v in other.items()}
        for k in names:
            if left:
                del opts[k]
            else:
                opts[k] = copy_value(D[k])
        s = make_sim(do_mpc, S, m, rng, h, opts, tvp, p)
        s.x0 = x
        if S.n('_z'):
            z = S.solve_z(x, us[0], tvp, p)
            if z is None:
                raise core.Inconclusive('no consistent algebraic state')
            s.z0 = z
        s.set_initial_guess()
        try:
            Y = [np.ravel(s.make_step(u.reshape(-1, 1))) for u in us]
        except RuntimeError:
            raise core.Inconclusive('integration failed')
        out.append((np.array(s.data['_x']), np.array(Y), {k: copy_value(getattr(s.settings, k)) for k in D}))
    if rng.random() < 0.35:
        # tolerances given among the options of the integrator replace those of the settings
        lo = dict(abstol=1e-4, reltol=1e-4)
        runs = []
        for own in (True, False):
            m = S.build(do_mpc, np.random.default_rng(seed))
            tool = 'idas' if S.n('_z') else 'cvodes'
            s = make_sim(do_mpc, S, m, rng, h, dict(integration_tool=tool, integration_opts=dict(lo)) if own else dict(integration_tool=tool, **lo), tvp, p)
            s.x0 = x
            if S.n('_z'):
                s.z0 = z
            s.set_initial_guess()
            try:
                runs.append([np.ravel(s.make_step(u.reshape(-1, 1))) for u in us] + [np.array(s.x0.cat).ravel()])
            except RuntimeError:
                raise core.Inconclusive('integration failed')
        for a, b in zip(*runs):
            ctx.close(a, b, 'integrator-options', 'tolerances given with integration_opts, compared with the same tolerances as settings', rtol=1e-13, atol=1e-13)
        ctx.count['tolerances_overridden'] += 1
    A, B = out
    what = 'simulator that leaves %s at the default against one where the documented default is given' % names
    ctx.close(A[0], B[0], 'simulator-default', 'states: ' + what, rtol=1e-12, atol=1e-12)
    ctx.close(A[1], B[1], 'simulator-default', 'measurements: ' + what, rtol=1e-12, atol=1e-12)
    ctx.check(A[2] == B[2], 'simulator-default-settings', 'settings %s / %s: %s' % (A[2], B[2], what))
    ctx.count['options_left_default'] += len(names)
    ctx.sig, ctx.desc, ctx.nontrivial = ['simdefault', S.sig(), sorted(names)], {'model': S.describe(), 'options': names}, True


def put(rng, o, attr, v, struct):
    """set the initial value by one of the documented routes"""
    n = len(v)
    routes = ['array', 'column', 'DM', 'struct', 'names', 'elements', 'own struct'] + (['number'] if n == 1 else [])
    route = str(rng.choice(routes))
    if route == 'array':
        setattr(o, attr, np.array(v))
    elif route == 'column':
        setattr(o, attr, np.reshape(v, (-1, 1)))
    elif route == 'DM':
        setattr(o, attr, ca.DM(v))
    elif route == 'number':
        setattr(o, attr, float(v[0]))
    elif route in ('struct', 'own struct'):
        w = struct(0)
        w.master = ca.DM(v)
        if route == 'own struct':
            q = getattr(o, attr)
            q.master = ca.DM(v) + 0.125
        setattr(o, attr, w)
        w.master = ca.DM(v) * 0 - 7     # the given structure is the user's own
    else:
        w = struct(0)
        w.master = ca.DM(v)
        keys = [k for k in struct.keys() if k != 'default' or struct.shape[0] == n]
        for i in rng.permutation(len(keys)):
            k = keys[i]
            if route == 'names':
                getattr(o, attr)[k] = w[k]
            else:
                x = ca.DM(w[k])
                for j in rng.permutation(x.numel()):
                    if min(x.shape) > 1:
                        getattr(o, attr)[k] = x
                    else:
                        getattr(o, attr)[k, int(j)] = float(x[int(j)])
    return route


def initial_case(ctx, do_mpc):
    """initial values given by different routes"""
    rng = ctx.rng
    comp = str(rng.choice(['simulator', 'simulator', 'mpc', 'mhe', 'lqr']))
    seed, seq = int(rng.integers(1 << 30)), int(rng.integers(1 << 30))
    if comp == 'lqr':
        n, k, rate = int(rng.integers(1, 4)), int(rng.integers(1, 3)), bool(rng.random() < 0.6)
        A, B = rng.normal(size=(n, n)) * 0.4, rng.normal(size=(n, k))
    elif comp == 'simulator':
        S = gen_spec(rng, nz=int(rng.choice([0, 1, 2])), noise=False)
        h = float(np.round(rng.uniform(0.1, 0.5), 3))
        tvp, p = rvals(rng, S, '_tvp', 0.5), rvals(rng, S, '_p', 0.5)
    else:
        S, c, W = gen(rng, comp == 'mhe', mtype='discrete' if rng.random() < 0.5 else None, nz=int(rng.choice([0, 1])))
        c.deg = min(c.deg, 2)
    vals, out, used = {}, [], []
    for run in range(2):
        if comp == 'lqr':
            m = do_mpc.model.LinearModel('discrete')
            m.set_variable('_x', 'x', (n, 1))
            m.set_variable('_u', 'u', (k, 1))
            m.setup(A, B)
            o = do_mpc.controller.LQR(m)
            o.set_param(n_horizon=7, t_step=0.5)
            o.set_objective(Q=np.eye(n), R=np.eye(k), P=np.eye(n))
            if rate:
                o.set_rterm(delR=np.eye(k))
            o.setup()
        elif comp == 'simulator':
            m = S.build(do_mpc, np.random.default_rng(seed))
            o = make_sim(do_mpc, S, m, np.random.default_rng(seq), h, dict(integration_tool='idas' if S.n('_z') else 'cvodes'), tvp, p)
        else:
            mhe = comp == 'mhe'
            m = S.build(do_mpc, np.random.default_rng(seed))
            o = (mheref.build_mhe if mhe else ocp.build_mpc)(do_mpc, S, m, c, order=np.random.default_rng(seq), setup=False, set_fun=False,
                                                             extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 15})}, **({'y_fun': None} if mhe else {}))
            install(o, S, c, W, mhe)
            ocp.finish(o, c)
        for attr, struct in [('x0', m._x), ('u0', m._u), ('z0', m._z)] + ([('p_est0', o._p_est)] if comp == 'mhe' and c.p_est else []):
            nv = int(struct.shape[0])
            if not nv:
                continue
            if attr not in vals:
                vals[attr] = np.round(rng.uniform(0.1, 0.9, nv), 4)
                if comp == 'simulator' and attr == 'z0':
                    z = S.solve_z(vals['x0'], np.zeros(S.n('_u')), tvp, p)
                    if z is None:
                        raise core.Inconclusive('no algebraic state')
                    vals['z0'] = np.ravel(z)
            if run == 0:
                setattr(o, attr, vals[attr].reshape(-1, 1))
            else:
                used.append((attr, put(rng, o, attr, vals[attr], struct)))
            ctx.close(np.array(getattr(o, attr).cat).ravel(), vals[attr], 'initial-value', '%s of the %s after %s' % (attr, comp, used[-1:]), rtol=0, atol=0)
            ctx.count['initial_values'] += 1
        if comp == 'lqr':
            o.set_setpoint(np.zeros((n, 1)), np.zeros((k, 1)))
            r = [np.ravel(o.make_step(np.full((n, 1), 0.5))) for _ in range(2)]
        else:
            o.set_initial_guess()
            r = []
            if comp != 'simulator':
                r.append(np.array(o.opt_x_num.cat).ravel())
            for j in range(2):
                v = np.full((S.n('_u') if comp == 'simulator' else S.n('_x') if comp == 'mpc' else m.n_y, 1), 0.3 + 0.1 * j)
                try:
                    r.append(np.ravel(o.make_step(v)))
                except RuntimeError:
                    raise core.Inconclusive('integration failed')
        r += [np.asarray(o.data[f]) for f in ('_x', '_u', '_z')]
        out.append(r)
    for a, b in zip(*out):
        ctx.close(b, a, 'initial-effect', '%s with initial values given by %s, compared with plain vectors' % (comp, used), rtol=1e-12, atol=1e-12)
    ctx.sig, ctx.desc, ctx.nontrivial = ['initial', comp, seed % 1000, used], {'component': comp, 'routes': used}, True


def files_case(ctx, do_mpc):
    """planner, sampler and data handler with their documented defaults in the current folder"""
    rng = ctx.rng
    n = int(rng.integers(1, 13))
    D = dict(sample_name='sample', save_format='pickle', overwrite=False, print_progress=True)
    given = {k: v for k, v in dict(sample_name='case', save_format='pickle', overwrite=False, print_progress=False).items() if rng.random() < 0.3}
    eff = dict(D, **given)
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='vf24_')
    try:
        os.chdir(d)
        sp = do_mpc.sampling.SamplingPlanner()
        prec = 3
        if rng.random() < 0.3:
            prec = int(rng.integers(1, 6))
            sp.set_param(id_precision=prec)
        sp.set_sampling_var('a', lambda: float(np.round(rng.normal(), 4)))
        plan = sp.gen_sampling_plan(n)
        ids = [str(i).zfill(prec) for i in range(n)]
        ctx.check([q['id'] for q in plan] == ids, 'planner-id', 'identifiers %s, documented %s' % ([q['id'] for q in plan], ids))
        if rng.random() < 0.6:
            with contextlib.redirect_stdout(io.StringIO()):
                sp.export('theplan')
            ctx.check(os.listdir(d) == ['theplan.pkl'], 'planner-folder', 'exporting by default wrote %s' % os.listdir(d))
            os.remove('theplan.pkl')
        calls = []

        def f(a):
            calls.append(a)
            return 2 * a + 1

        def sampler():
            how = int(rng.integers(0, 3))
            if how == 0:
                s = do_mpc.sampling.Sampler(plan, **given)
            else:
                s = do_mpc.sampling.Sampler(plan)
                if how == 1:
                    s.set_param(**given)
                else:
                    for k, v in given.items():
                        s.set_param(**{k: v})
            s.set_sample_function(f)
            return s
        want = sorted('%s_%s.pkl' % (eff['sample_name'], i) for i in ids)
        for run in range(2):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                sampler().sample_data()
            got = sorted(q for q in os.listdir(d))
            ctx.check(got == want, 'sampler-files', 'files %s, documented %s (options %s)' % (got, want, given))
            if not run:
                ctx.check((buf.getvalue().strip() != '') == eff['print_progress'], 'sampler-progress', 'progress report %r with print_progress=%s' % (buf.getvalue()[:80], eff['print_progress']))
            ctx.count['sampler_runs'] += 1
        ctx.check(len(calls) == n, 'sampler-overwrite', '%d calls for %d cases and two runs although existing results are not recomputed by default' % (len(calls), n))
        for q, i in zip(plan, ids):
            with open('%s_%s.pkl' % (eff['sample_name'], i), 'rb') as fh:
                ctx.close(pickle.load(fh), 2 * q['a'] + 1, 'sampler-value', 'stored result of case ' + i, rtol=1e-12, atol=1e-12)
        dh = do_mpc.sampling.DataHandler(plan, **{k: v for k, v in given.items() if k in ('sample_name', 'save_format')})
        r = dh[:]
        ctx.check([q['id'] for q in r] == ids and all(abs(q['res'] - (2 * c['a'] + 1)) < 1e-12 for q, c in zip(r, plan)), 'handler-default', 'results of the data handler with default options: %s' % str(r)[:200])
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    ctx.sig, ctx.desc, ctx.nontrivial = ['files', n, prec, sorted(given)], {'cases': n, 'given': {k: str(v) for k, v in given.items()}}, True


def run_case(kind, idx, ctx):
    import do_mpc
    {'default': default_case, 'solver': solver_case, 'scheme': scheme_case, 'simdefault': simdefault_case, 'files': files_case, 'initial': initial_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p24')
