"""P21: invalid calls are refused, and a refused call changes nothing (twin runs with and without injected invalid calls; configurations with one error)."""
import os, shutil, sys, tempfile
import pickle
import numpy as np
import casadi as ca
import casadi.tools as ct
from vf import core, ocp, mheref
from vf.models import gen_spec, rvals, _size
from checks import p07, p10, p22

ID = 'P21'
CASES = {'quick': [('twin', 760), ('model', 230), ('config', 260), ('api', 150), ('staged', 90)], 'thorough': [('twin', 14000), ('model', 3300), ('config', 4000), ('api', 2500), ('staged', 1500)]}
RULE = ('twin: a random legal program (model, controller, estimator, simulator, LQR, sampling, recording) runs once as it is and once with 1-15 invalid calls from a catalogue of about 250 injected by a '
        'tracer at random calls of the program into do-mpc, on any of the objects alive; every injected call must raise and everything the program observes must be identical; '
        'model, config: a random valid configuration gets exactly one error and must be refused by set-up or first use while the same configuration without the error is accepted, '
        'and set-up after the repair of a refused incomplete model gives the same model; api: further entry points; staged: scaling, objective, constraints or input-change cost changed between prepare_nlp and create_nlp must either be refused (and accepted after preparing again) or take effect; '
        'distinct by (program, configuration, injected calls); non-trivial = at least one invalid call was judged')
ASSUMPTIONS = ['the catalogue holds only calls the documentation or an explicit check of the code declares invalid', 'unknown keys of set_param are documented to warn only']
NEED = {'injected': 6000, 'distinct_invalid': 300, 'observations': 8000, 'faults': 40, 'rejected': 1000, 'accepted_twin': 300}
MAX_INCONCLUSIVE = 0.3


def DERIVE(total):
    total['distinct_invalid'] = sum(k.startswith('invalid:') for k in total)



class St:
    """what the tracer has seen of one object"""

    def __init__(self, o):
        self.o, self.calls = o, []

    def called(self, *names):
        return any(n in names for n, _ in self.calls)


def other_struct():
    return ct.struct_symSX([ct.entry('zz_foreign')])(0)


def relabelled(o, S, which, reverse):
    """template of the right size that belongs to another model: other names, or the same names in another order"""
    t, rep, key = {'set_tvp_fun': ('_tvp', lambda: o.settings.n_horizon + 1, '_tvp'), 'set_p_fun': ('_p', lambda: o.n_combinations, '_p'), 'set_y_fun': ('_y', lambda: o.settings.n_horizon, 'y_meas')}[which]
    if t == '_y':
        vs = [(n, len(ts)) for n, ts, _ in S.meas_eff()]
    elif t == '_p' and hasattr(o, '_p_set'):
        vs = [(n, s) for n, s in S.vars['_p'] if n in o._p_set.keys()]
    else:
        vs = S.vars[t]
    if not vs or (reverse and len(vs) < 2):
        raise LookupError
    vs = vs[::-1] if reverse else [(n + '_b', s) for n, s in vs]
    inner = ct.struct_symSX([ct.entry(n, shape=s) for n, s in vs])
    if not hasattr(o, 'solve') or (t == '_p' and hasattr(o, '_p_set')):
        return inner(0)
    return ct.struct_symSX([ct.entry(key, repeat=rep(), struct=inner)])(0)


def setter(o, name, v):
    return lambda: setattr(o, name, v)


def setitem(get, ind, v):
    return lambda: get().__setitem__(ind, v)


def getitem(get, ind):
    return lambda: get()[ind]


# ---- catalogue: (name, callable) pairs that must raise ------------------------------------------
def cat_model(st, S, sym, script):
    m = st.o
    C, O = (ca.SX, ca.MX) if sym == 'SX' else (ca.MX, ca.SX)
    late = st.called('setup')
    q = C.sym('q')
    for a in ('x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v'):
        yield 'assign ' + a, setter(m, a, q)
    yield 'query unknown', lambda: m['nonsense']
    yield 'query unknown of several', lambda: m['x', 'nonsense']
    if late:
        yield 'set_variable after setup', lambda: m.set_variable('_x', 'late_x')
        yield 'set_variable p after setup', lambda: m.set_variable('_p', 'late_p')
        yield 'set_expression after setup', lambda: m.set_expression('late_e', q)
        yield 'set_meas after setup', lambda: m.set_meas('late_m', q)
        n = S.vars['_x'][0][0]
        yield 'set_rhs after setup', lambda: m.set_rhs(n, q)
        yield 'set_alg after setup', lambda: m.set_alg('late_a', q)
        if sym == 'MX':
            yield 'pickle MX', lambda: pickle.dumps(m)
        return
    yield 'pickle before setup', lambda: pickle.dumps(m)
    decl = [a for c, a in st.calls if c == 'set_variable']
    rhs = {a.get('var_name', a.get('name')) for c, a in st.calls if c == 'set_rhs'}
    for n, s in [('float', 2.0), ('str', '2'), ('list', [2, 1]), ('three', (2, 2, 2)), ('neg', -1), ('strs', ('a', 1)), ('none', None)]:
        yield 'shape ' + n, lambda s=s: m.set_variable('_x', 'bad_x', shape=s)
    for n, t in [('unknown', '_foo'), ('aux', '_aux'), ('y', '_y'), ('long', 'states_'), ('none', None), ('int', 3)]:
        yield 'type ' + n, lambda t=t: m.set_variable(t, 'bad_x')
    yield 'name type', lambda: m.set_variable('_x', 3)
    yield 'name none', lambda: m.set_variable('_u', None)
    for a in decl:
        yield 'duplicate variable', lambda a=a: m.set_variable(a['var_type'], a['var_name'])
        yield 'duplicate variable other shape', lambda a=a: m.set_variable(a['var_type'], a['var_name'], shape=(7, 1))
    for v, n in [(3.0, 'float'), ('x', 'str'), (None, 'none'), (np.ones((1, 1)), 'array')]:
        yield 'expression ' + n, lambda v=v: m.set_expression('bad_e', v)
        yield 'meas ' + n, lambda v=v: m.set_meas('bad_m', v)
        yield 'alg ' + n, lambda v=v: m.set_alg('bad_a', v)
        for a in decl:
            if a['var_type'] == '_x':
                yield 'rhs ' + n, lambda v=v, a=a: m.set_rhs(a['var_name'], v)
    yield 'expression name', lambda: m.set_expression(3, q)
    yield 'meas name', lambda: m.set_meas(3, q)
    yield 'meas noise', lambda: m.set_meas('bad_m', q, meas_noise=1)
    yield 'alg name', lambda: m.set_alg(3, q)
    yield 'rhs unknown state', lambda: m.set_rhs('bad_state', q)
    xs = [a['var_name'] for a in decl if a['var_type'] == '_x']
    for n in xs:
        for w in (n[:-1], n[1:], n + '0', n.upper(), ' ' + n, ''):
            if w not in xs:
                yield 'rhs of a similar name', lambda w=w: m.set_rhs(w, q)
    yield 'rhs name', lambda: m.set_rhs(3, q)
    for t in ('_u', '_z', '_p', '_tvp'):
        for a in decl:
            if a['var_type'] == t and a['var_name'] not in [b['var_name'] for b in decl if b['var_type'] == '_x']:
                yield 'rhs of ' + t, lambda a=a: m.set_rhs(a['var_name'], q)
    nz = [a for a in decl if a['var_type'] == '_z']
    if [a for a in decl if a['var_type'] == '_x' and a['var_name'] not in rhs] or (nz and not st.called('set_alg')):
        yield 'setup incomplete', lambda: m.setup()


def cat_iter(o, S):
    for a, t in (('x0', '_x'), ('u0', '_u'), ('z0', '_z')):
        n = S.n(t)
        yield a + ' size', setter(o, a, np.zeros(n + 1))
        yield a + ' size DM', setter(o, a, ca.DM.zeros(n + 2, 1))
        if n > 1:
            yield a + ' short', setter(o, a, np.zeros((n - 1, 1)))
        yield a + ' list', setter(o, a, [1.0] * n)
        yield a + ' str', setter(o, a, 'a')
        yield a + ' none', setter(o, a, None)
    yield 't0 two', setter(o, 't0', np.zeros(2))
    yield 't0 two DM', setter(o, 't0', ca.DM([1, 2]))
    yield 't0 str', setter(o, 't0', '1')
    yield 't0 none', setter(o, 't0', None)
    yield 't0 list', setter(o, 't0', [0.0])


def cat_opt(st, S, sym, script, mhe=False):
    o = st.o
    m = o.model
    C = ca.SX if sym == 'SX' else ca.MX
    late = st.called('setup', 'create_nlp')
    prep = st.called('setup', 'prepare_nlp', 'create_nlp')
    X = lambda: m.x[S.vars['_x'][0][0]]
    xs, us = S.vars['_x'], S.vars['_u']
    yield from cat_iter(o, S)
    heads = [('bounds', ('lower',)), ('bounds', ('upper',)), ('scaling', ())]
    for nm, h in heads:
        g = lambda nm=nm: getattr(o, nm)
        wr = not (late and nm == 'scaling')
        for t, n, s in [('_x', n, s) for n, s in xs] + [('_u', n, s) for n, s in us] + [('_z', n, s) for n, s in S.vars['_z']]:
            yield nm + ' shape', setitem(g, h + (t, n), np.ones(_size(s) + 2))
            yield nm + ' str', setitem(g, h + (t, n), 'a')
            yield nm + ' none', setitem(g, h + (t, n), None)
            yield nm + ' element', setitem(g, h + (t, n, _size(s)), 1.0)
            yield nm + ' get element', getitem(g, h + (t, n, _size(s)))
            if not wr:
                yield 'scaling after setup', setitem(g, h + (t, n), 2.5)
        for t in ('_x', '_u', '_z') + (('_p_est',) if mhe else ()):
            yield nm + ' name', setitem(g, h + (t, 'undeclared'), 1.0)
            yield nm + ' get name', getitem(g, h + (t, 'undeclared'))
        for t in ('_tvp', '_p', '_y', 'x', '_eps'):
            yield nm + ' type', setitem(g, h + (t, xs[0][0]), 1.0)
            yield nm + ' get type', getitem(g, h + (t, xs[0][0]))
        yield nm + ' short', setitem(g, (h + ('_x',))[:1], 1.0)
        yield nm + ' get short', getitem(g, (h + ('_x',))[:1])
        yield nm + ' plain', setitem(g, 'x', 1.0)
        yield nm + ' get plain', getitem(g, '_x')
    g = lambda: o.bounds
    yield 'bounds side', setitem(g, ('lowr', '_x', xs[0][0]), 1.0)
    yield 'bounds get side', getitem(g, ('up', '_x', xs[0][0]))
    # other kinds of variables under a valid name of another kind
    only_x = [n for n, _ in xs if n not in [k for k, _ in us]]
    if only_x:
        yield 'bounds state as input', setitem(g, ('upper', '_u', only_x[0]), 1.0)
        yield 'scaling state as input', setitem(lambda: o.scaling, ('_u', only_x[0]), 2.0)
    # constraints
    yield 'cons name', lambda: o.set_nl_cons(5, X())
    yield 'cons float', lambda: o.set_nl_cons('bad_c', 3.0)
    yield 'cons array', lambda: o.set_nl_cons('bad_c', np.ones((1, 1)))
    yield 'cons none', lambda: o.set_nl_cons('bad_c', None)
    yield 'cons ub str', lambda: o.set_nl_cons('bad_c', X(), ub='a')
    yield 'cons ub none', lambda: o.set_nl_cons('bad_c', X(), ub=None)
    yield 'cons soft', lambda: o.set_nl_cons('bad_c', X(), soft_constraint=1)
    # parameter functions
    for nm in ('set_p_fun', 'set_tvp_fun') + (('set_y_fun',) if mhe else ()):
        f = lambda g, nm=nm: getattr(o, nm)(g)
        yield nm + ' none', lambda f=f: f(lambda t: None)
        yield nm + ' array', lambda f=f: f(lambda t: np.zeros(2))
        yield nm + ' other', lambda f=f: f(lambda t: other_struct())
        yield nm + ' symbolic', lambda f=f: f(lambda t: C.sym('q'))
        for rev in (False, True):
            try:
                tpl = relabelled(o, S, nm, rev)
            except (LookupError, AttributeError, TypeError):
                continue
            yield nm + (' reversed template' if rev else ' foreign template'), lambda f=f, tpl=tpl: f(lambda t: tpl)
        yield nm + ' raises', lambda f=f: f(lambda t: 1 / 0)
        yield nm + ' value', lambda f=f: f(3.0)
        yield nm + ' no argument', lambda f=f: f(lambda: None)
    # life cycle
    data(o, yld := [])
    yield from yld
    if not late:
        yield 'guess before setup', lambda: o.set_initial_guess()
        yield 'solve before setup', lambda: o.solve()
        yield 'step before setup', lambda: o.make_step(np.zeros((m.n_y if mhe else m.n_x, 1)))
        yield 'compile before setup', lambda: o.compile_nlp(libname='/nonexistent/none.so')
        if not prep:
            for a in ('nlp_obj', 'nlp_cons', 'nlp_cons_lb', 'nlp_cons_ub'):
                yield a + ' before setup', lambda a=a: getattr(o, a)
                yield 'assign %s before setup' % a, setter(o, a, C(0))
            yield 'create before prepare', lambda: o.create_nlp()
    else:
        yield 'set_param after setup', lambda: o.set_param(t_step=77.0)
        yield 'set_param N after setup', lambda: o.set_param(n_horizon=77)
        yield 'cons after setup', lambda: o.set_nl_cons('bad_c', X()[0], ub=-50.0)
        for a in ('nlp_obj', 'nlp_cons'):
            yield 'assign %s after setup' % a, setter(o, a, C(0))
        n = m.n_y if mhe else m.n_x
        yield 'step size', lambda: o.make_step(np.zeros((n + 1, 1)))
        yield 'step size DM', lambda: o.make_step(ca.DM.zeros(n + 2))
        if n > 1:
            yield 'step short', lambda: o.make_step(np.zeros((n - 1, 1)))
        yield 'step list', lambda: o.make_step([0.0] * n)
        yield 'step none', lambda: o.make_step(None)
        yield 'step str', lambda: o.make_step('a')
        yield 'step float', lambda: o.make_step(1.0)
        yield 'step no argument', lambda: o.make_step()


def data(o, out):
    out.append(('data unknown', lambda: o.data['nonsense']))
    out.append(('data unknown type', lambda: o.data['_nonsense', 'x']))
    out.append(('data unknown name', lambda: o.data['_x', 'undeclared']))
    out.append(('data update unknown', lambda: o.data.update(_nonsense=np.zeros((1, 1)))))


def cat_mpc(st, S, sym, script):
    o = st.o
    m = o.model
    C, O = (ca.SX, ca.MX) if sym == 'SX' else (ca.MX, ca.SX)
    late = st.called('setup', 'create_nlp')
    yield from cat_opt(st, S, sym, script)
    X = lambda: m.x[S.vars['_x'][0][0]][0]
    U = lambda: m.u[S.vars['_u'][0][0]][0]
    un, us = S.vars['_u'][0]
    g = lambda: o.terminal_bounds
    n, s = S.vars['_x'][-1]
    for h in ('lower', 'upper'):
        yield 'terminal shape', setitem(g, (h, n), np.ones(_size(s) + 2))
        yield 'terminal str', setitem(g, (h, n), 'a')
        yield 'terminal name', setitem(g, (h, 'undeclared'), 1.0)
        yield 'terminal get name', getitem(g, (h, 'undeclared'))
        yield 'terminal element', setitem(g, (h, n, _size(s)), 1.0)
    yield 'terminal side', setitem(g, ('lowr', n), 1.0)
    yield 'terminal get side', getitem(g, ('lowr', n))
    yield 'terminal short', setitem(g, ('lower',), 1.0)
    yield 'terminal plain', setitem(g, 'x', 1.0)
    only_u = [k for k, _ in S.vars['_u'] if k not in [x for x, _ in S.vars['_x']]]
    if only_u:
        yield 'terminal input', setitem(g, ('lower', only_u[0]), 1.0)
    one = C(1) if sym == 'SX' else ca.MX(1)
    # objective: a valid first term together with an invalid second one
    yield 'objective mterm input', lambda: o.set_objective(mterm=U() * 55, lterm=one * 55)
    yield 'objective lterm foreign', lambda: o.set_objective(mterm=X() ** 2 * 55, lterm=C.sym('q'))
    yield 'objective mterm foreign', lambda: o.set_objective(mterm=C.sym('q'), lterm=X() ** 2 * 55)
    yield 'objective lterm other kind', lambda: o.set_objective(mterm=X() ** 2 * 55, lterm=O.sym('q'))
    yield 'objective lterm vector', lambda: o.set_objective(mterm=X() ** 2 * 55, lterm=ca.vertcat(X(), X()))
    yield 'objective mterm vector', lambda: o.set_objective(mterm=ca.vertcat(X(), X()), lterm=X() ** 2 * 55)
    yield 'objective float', lambda: o.set_objective(mterm=1.0, lterm=X() ** 2 * 55)
    yield 'objective array', lambda: o.set_objective(mterm=X() ** 2 * 55, lterm=np.ones((1, 1)))
    yield 'objective str', lambda: o.set_objective(mterm='a', lterm=X() ** 2 * 55)
    if S.n('_z'):
        zn = S.vars['_z'][0][0]
        yield 'objective mterm algebraic', lambda: o.set_objective(mterm=m.z[zn][0], lterm=X() ** 2 * 55)
    yield 'rterm name', lambda: o.set_rterm(undeclared=1.0)
    yield 'rterm second name', lambda: o.set_rterm(**{un: 55.0, 'undeclared': 1.0})
    yield 'rterm second str', lambda: o.set_rterm(**{un: 55.0, S.vars['_u'][-1][0]: 'a'})
    yield 'rterm str', lambda: o.set_rterm(**{un: 'a'})
    yield 'rterm list', lambda: o.set_rterm(**{un: [1.0] * _size(us)})
    yield 'rterm none', lambda: o.set_rterm(**{un: None})
    yield 'rterm shape', lambda: o.set_rterm(**{un: np.ones(_size(us) + 2)})
    yield 'rterm expr vector', lambda: o.set_rterm(rterm=ca.vertcat(U(), U()))
    yield 'rterm expr foreign', lambda: o.set_rterm(rterm=C.sym('q'))
    yield 'rterm expr float', lambda: o.set_rterm(rterm=3.0)
    # uncertain parameters
    yield 'uncertainty name', lambda: o.set_uncertainty_values(undeclared=np.array([1.0, 2.0, 3.0]))
    for pn, ps in S.vars['_p']:
        yield 'uncertainty second name', lambda pn=pn: o.set_uncertainty_values(**{pn: np.array([1.0, 2.0]), 'undeclared': np.array([1.0, 2.0, 3.0])})
        yield 'uncertainty str', lambda pn=pn: o.set_uncertainty_values(**{pn: ['a', 'b', 'c', 'd', 'e']})
        yield 'uncertainty scalar', lambda pn=pn: o.set_uncertainty_values(**{pn: 3.0})
        yield 'uncertainty none', lambda pn=pn: o.set_uncertainty_values(**{pn: None})
        yield 'uncertainty shape', lambda pn=pn, ps=ps: o.set_uncertainty_values(**{pn: np.ones((5, _size(ps) + 2))})
    yield 'template str', lambda: o.get_p_template('a')
    yield 'template float', lambda: o.get_p_template(2.5)
    if late:
        yield 'objective after setup', lambda: o.set_objective(mterm=X() ** 2 * 55, lterm=X() ** 2 * 55)
        yield 'rterm after setup', lambda: o.set_rterm(**{un: 55.0})
        yield 'rterm expr after setup', lambda: o.set_rterm(rterm=U() ** 2)
        if script.guards:
            def faulty():
                script.boom = True
                try:
                    o.make_step(np.zeros((m.n_x, 1)))
                finally:
                    script.boom = False
            yield 'FAULT parameters', faulty

        def crossed():
            B = o.bounds
            old = float(np.array(ca.DM(B['lower', '_u', un])).ravel()[0]), float(np.array(ca.DM(B['upper', '_u', un])).ravel()[0])
            full = ca.DM(B['lower', '_u', un]), ca.DM(B['upper', '_u', un])
            full = np.array(full[0]), np.array(full[1])
            B['lower', '_u', un] = 3.0
            B['upper', '_u', un] = 2.0
            try:
                o.make_step(np.zeros((m.n_x, 1)))
            finally:
                B['lower', '_u', un] = full[0] if full[0].size > 1 else old[0]
                B['upper', '_u', un] = full[1] if full[1].size > 1 else old[1]
        if not (isinstance(us, tuple) and len(us) > 1 and us[1] > 1):
            yield 'FAULT bounds', crossed


def cat_mhe(st, S, sym, script):
    o = st.o
    m = o.model
    C = ca.SX if sym == 'SX' else ca.MX
    late = st.called('setup', 'create_nlp')
    yield from cat_opt(st, S, sym, script, mhe=True)
    X = lambda: m.x[S.vars['_x'][0][0]][0]
    one = lambda: C(1)
    I = lambda n: np.eye(n)
    nx, nv, nw, npe = m.n_x, m.n_v, m.n_w, o.n_p_est
    good = dict(P_x=55 * I(nx), P_v=55 * I(nv), P_w=55 * I(nw), P_p=55 * I(npe))
    for k, n in (('P_x', nx), ('P_v', nv), ('P_w', nw), ('P_p', npe)):
        yield k + ' shape', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: I(n + 1)}))
        yield k + ' row', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: np.ones((1, n + 2))}))
        yield k + ' column', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: np.ones((n + 2, 1))}))
        yield k + ' list', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: I(n + 1).tolist()}))
        yield k + ' float', lambda k=k: o.set_default_objective(**dict(good, **{k: 3.0}))
        if n:
            yield k + ' none', lambda k=k: o.set_default_objective(**dict(good, **{k: None}))
    if nw:
        w = lambda: ca.sumsqr(o._w.cat) * 55
    elif nv:
        w = lambda: ca.sumsqr(o._v.cat) * 55
    else:
        w = one
    yield 'objective stage state', lambda: o.set_objective(X() ** 2, ca.sumsqr(o._x.cat - o._x_prev.cat) * 55)
    yield 'objective stage foreign', lambda: o.set_objective(C.sym('q'), ca.sumsqr(o._x.cat - o._x_prev.cat) * 55)
    yield 'objective stage vector', lambda: o.set_objective(ca.vertcat(one(), one()), ca.sumsqr(o._x.cat - o._x_prev.cat) * 55)
    yield 'objective arrival foreign', lambda: o.set_objective(w(), C.sym('q'))
    yield 'objective arrival vector', lambda: o.set_objective(w(), ca.vertcat(one(), one()))
    yield 'objective arrival input', lambda: o.set_objective(w(), m.u[S.vars['_u'][0][0]][0] ** 2)
    yield 'objective floats', lambda: o.set_objective(1.0, 1.0)
    yield 'p_est0 size', setter(o, 'p_est0', np.zeros(npe + 1))
    yield 'p_est0 list', setter(o, 'p_est0', [0.0] * npe)
    yield 'estimate unknown', lambda: type(o)(m, ['undeclared'])
    if late:
        yield 'default objective after setup', lambda: o.set_default_objective(**good)
        yield 'objective after setup', lambda: o.set_objective(w(), ca.sumsqr(o._x.cat - o._x_prev.cat) * 55)


def cat_sim(st, S, sym, script):
    o = st.o
    m = o.model
    late = st.called('setup')
    yield from cat_iter(o, S)
    C = ca.SX if sym == 'SX' else ca.MX
    for nm in ('set_p_fun', 'set_tvp_fun'):
        f = lambda g, nm=nm: getattr(o, nm)(g)
        yield nm + ' none', lambda f=f: f(lambda t: None)
        yield nm + ' array', lambda f=f: f(lambda t: np.zeros(2))
        yield nm + ' other', lambda f=f: f(lambda t: other_struct())
        yield nm + ' symbolic', lambda f=f: f(lambda t: C.sym('q'))
        for rev in (False, True):
            try:
                tpl = relabelled(o, S, nm, rev)
            except (LookupError, AttributeError, TypeError):
                continue
            yield nm + (' reversed template' if rev else ' foreign template'), lambda f=f, tpl=tpl: f(lambda t: tpl)
        yield nm + ' raises', lambda f=f: f(lambda t: 1 / 0)
        yield nm + ' value', lambda f=f: f(3.0)
    yld = []
    data(o, yld)
    yield from yld
    nu, nw, nv = m.n_u, m.n_w, m.n_v
    if not late:
        yield 'step before setup', lambda: o.make_step(np.zeros((nu, 1)))
        yield 'simulate before setup', lambda: o.simulate()
        yield 'guess before setup', lambda: o.set_initial_guess()
        return
    yield 'set_param after setup', lambda: o.set_param(t_step=77.0)
    yield 'set_param tolerance after setup', lambda: o.set_param(abstol=1.0)
    ok = np.zeros((nu, 1))
    yield 'step size', lambda: o.make_step(np.zeros((nu + 1, 1)))
    yield 'step flat', lambda: o.make_step(np.zeros(nu + 2))
    yield 'step row', lambda: o.make_step(np.zeros((1, nu + 1)))
    yield 'step list', lambda: o.make_step([0.0] * nu)
    yield 'step float', lambda: o.make_step(1.0)
    yield 'step str', lambda: o.make_step('a')
    if nu:
        yield 'step none', lambda: o.make_step()
    for k, n in (('w0', nw), ('v0', nv)):
        yield k + ' size', lambda k=k, n=n: o.make_step(ok, **{k: np.zeros((n + 1, 1))})
        yield k + ' row', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: np.ones((1, n + 2))}))
        yield k + ' column', lambda k=k, n=n: o.set_default_objective(**dict(good, **{k: np.ones((n + 2, 1))}))
        yield k + ' list', lambda k=k, n=n: o.make_step(ok, **{k: [0.0] * n})
        yield k + ' float', lambda k=k: o.make_step(ok, **{k: 0.5})
    if script.guards:
        def faulty():
            script.boom = True
            try:
                o.make_step(ok)
            finally:
                script.boom = False
        yield 'FAULT parameters', faulty


def cat_lqr(st, S, sym, script):
    o = st.o
    n, k = o.model.n_x, o.model.n_u
    late = st.called('setup')
    I = np.eye
    for a, w in (('x0', n), ('u0', k)):
        yield a + ' size', setter(o, a, np.zeros(w + 1))
        yield a + ' list', setter(o, a, [0.0] * w)
    yield 't0 two', setter(o, 't0', np.zeros(2))
    yield 't0 str', setter(o, 't0', 'a')
    yield 'Q shape', lambda: o.set_objective(Q=I(n + 1) * 55, R=I(k) * 55)
    yield 'R shape', lambda: o.set_objective(Q=I(n) * 55, R=I(k + 1) * 55)
    yield 'Q DM', lambda: o.set_objective(Q=ca.DM(I(n) * 55), R=I(k) * 55)
    yield 'R DM', lambda: o.set_objective(Q=I(n) * 55, R=ca.DM(I(k) * 55))
    yield 'Q list', lambda: o.set_objective(Q=(I(n) * 55).tolist(), R=I(k))
    yield 'R float', lambda: o.set_objective(Q=I(n) * 55, R=55.0)
    if o.settings.n_horizon is not None:
        yield 'P shape', lambda: o.set_objective(Q=I(n) * 55, R=I(k) * 55, P=I(n + 1))
        yield 'P DM', lambda: o.set_objective(Q=I(n) * 55, R=I(k) * 55, P=ca.DM(I(n)))
    yield 'delR shape', lambda: o.set_rterm(delR=I(k + 1) * 55)
    yield 'delR list', lambda: o.set_rterm(delR=(I(k) * 55).tolist())
    yield 'delR none', lambda: o.set_rterm(delR=None)
    yld = []
    data(o, yld)
    yield from yld
    if not late:
        yield 'step before setup', lambda: o.make_step(np.zeros((n, 1)))
        yield 'setpoint before setup', lambda: o.set_setpoint(np.ones((n, 1)), np.ones((k, 1)))
        return
    yield 'objective after setup', lambda: o.set_objective(Q=I(n) * 55, R=I(k) * 55)
    yield 'setpoint size', lambda: o.set_setpoint(np.ones((n + 1, 1)), np.ones((k, 1)))
    yield 'setpoint input size', lambda: o.set_setpoint(np.ones((n, 1)), np.ones((k + 1, 1)))
    yield 'setpoint flat', lambda: o.set_setpoint(np.ones(n), np.ones((k, 1)))
    yield 'setpoint list', lambda: o.set_setpoint([[1.0]] * n, np.ones((k, 1)))
    yield 'setpoint DM', lambda: o.set_setpoint(ca.DM.ones(n, 1), np.ones((k, 1)))
    yield 'step size', lambda: o.make_step(np.zeros((n + 1, 1)))
    yield 'step flat size', lambda: o.make_step(np.zeros(n + 1))
    yield 'step list', lambda: o.make_step([0.0] * n)
    yield 'step none', lambda: o.make_step(None)
    yield 'step float', lambda: o.make_step(1.0)


def cat_planner(st, S, sym, script):
    o = st.o
    yield 'var name', lambda: o.set_sampling_var(3)
    yield 'var id', lambda: o.set_sampling_var('id')
    yield 'var value', lambda: o.set_sampling_var('bad_v', 3.0)
    yield 'var list', lambda: o.set_sampling_var('bad_v', [1, 2])
    yield 'case unknown', lambda: o.add_sampling_case(undeclared=1)
    yield 'plan float', lambda: o.gen_sampling_plan(2.5)
    yield 'plan zero', lambda: o.gen_sampling_plan(0)
    yield 'plan negative', lambda: o.gen_sampling_plan(-2)
    yield 'plan none', lambda: o.gen_sampling_plan(None)
    yield 'product unknown', lambda: o.product(undeclared=[1, 2])
    yield 'export name', lambda: o.export(3)
    names = [a['name'] for c, a in st.calls if c == 'set_sampling_var']
    if names:
        full, lists = {n: 1 for n in names}, {n: [1, 2] for n in names}
        yield 'case second unknown', lambda: o.add_sampling_case(**dict(full, undeclared=1))
        yield 'product scalar', lambda: o.product(**dict(lists, **{names[0]: 3}))
        yield 'product second unknown', lambda: o.product(**dict(lists, undeclared=[1]))
        yield 'product tuple', lambda: o.product(**dict(lists, **{names[-1]: (1, 2)}))
        yield 'product array', lambda: o.product(**dict(lists, **{names[-1]: np.array([1, 2])}))
    # generating functions of the user would be called (and advance their random numbers) before the missing value is noticed
    if names and all(a.get('fun_var_pdf') is None for c, a in st.calls if c == 'set_sampling_var'):
        yield 'case incomplete', lambda: o.add_sampling_case()
        yield 'plan incomplete', lambda: o.gen_sampling_plan(3)
        miss = [a['name'] for c, a in st.calls if c == 'set_sampling_var' and a.get('fun_var_pdf') is None][0]
        rest = [n for n in names if n != miss]
        if rest:
            yield 'product incomplete', lambda: o.product(**{rest[0]: [1, 2]})


def cat_sampler(st, S, sym, script):
    o = st.o
    yield 'function value', lambda: o.set_sample_function(3)
    yield 'function unknown argument', lambda: o.set_sample_function(lambda undeclared: 1)
    yield 'function second unknown', lambda: o.set_sample_function(lambda a, undeclared: 1)
    yield 'index negative', lambda: o.sample_idx(-1)
    yield 'index large', lambda: o.sample_idx(10 ** 6)
    yield 'index end', lambda: o.sample_idx(len(o.sampling_plan))
    if not st.called('set_sample_function'):
        yield 'sample before function', lambda: o.sample_idx(0)
        yield 'sample all before function', lambda: o.sample_data()


def cat_handler(st, S, sym, script):
    o = st.o
    yield 'get str', lambda: o['a']
    yield 'get float', lambda: o[1.5]
    yield 'get large', lambda: o[10 ** 6]
    yield 'filter value', lambda: o.filter(input_filter=5)
    yield 'filter output value', lambda: o.filter(output_filter='a')
    yield 'filter unknown', lambda: o.filter(input_filter=lambda undeclared: True)
    yield 'post name', lambda: o.set_post_processing(3, lambda r: r)
    yield 'post value', lambda: o.set_post_processing('r', 3)
    yield 'post no argument', lambda: o.set_post_processing('r', lambda: 3)
    yield 'post three arguments', lambda: o.set_post_processing('r', lambda a, b, c: 3)


def cat_data(st, S, sym, script):
    d = st.o
    n, s = S.vars['_x'][0]
    yield 'data unknown', lambda: d['nonsense']
    yield 'data unknown name', lambda: d['_x', 'undeclared']
    yield 'data update unknown', lambda: d.update(_nonsense=np.zeros((1, 1)))
    yield 'data element', lambda: d['_x', n, _size(s)] if _size(s) == 1 or not isinstance(s, tuple) or s[1] == 1 else 1 / 0


CAT = {'Model': cat_model, 'MPC': cat_mpc, 'MHE': cat_mhe, 'Simulator': cat_sim, 'LQR': cat_lqr, 'SamplingPlanner': cat_planner, 'Sampler': cat_sampler,
       'DataHandler': cat_handler, 'Data': cat_data}


class Nosy:
    """tracer that issues invalid calls between the calls of a program"""

    def __init__(self, do_mpc, script, S, sym, rng, rate, ctx=None, only=None):
        self.script, self.S, self.sym, self.rng, self.rate, self.ctx, self.only = script, S, sym, rng, rate, ctx, only
        self.base = os.path.realpath(core.REPO) + os.sep + 'do_mpc' + os.sep
        self.cache, self.objs, self.ids = {}, [], {}
        self.log = []
        self.accepted = None

    def inrepo(self, f):
        r = self.cache.get(f)
        if r is None:
            r = self.cache[f] = os.path.realpath(f).startswith(self.base)
        return r

    def kind(self, o):
        if type(o).__name__ == 'LinearModel':
            return None
        for c in type(o).__mro__:
            if c.__name__ in CAT and c.__module__.startswith('do_mpc'):
                return c.__name__
        return None

    def trace(self, frame, event, arg):
        if event != 'call' or not self.inrepo(frame.f_code.co_filename):
            return None
        b = frame.f_back
        while b is not None:
            if self.inrepo(b.f_code.co_filename):
                return None
            b = b.f_back
        name = frame.f_code.co_name
        if name.startswith('<'):
            return None
        o = frame.f_locals.get('self')
        if name == '__init__':
            return None
        if self.objs and self.rng.random() < self.rate:
            self.inject()
        if o is not None and self.kind(o):
            if id(o) not in self.ids:
                self.ids[id(o)] = St(o)
                self.objs.append(self.ids[id(o)])
            a = {k: v for k, v in frame.f_locals.items() if k != 'self' and k != 'kwargs'}
            self.ids[id(o)].calls.append((name, a))
        return None

    def inject(self, st=None):
        # recent objects first
        i = len(self.objs) - 1 - int(self.rng.integers(len(self.objs)) * self.rng.random())
        st = self.objs[i]
        k = self.kind(st.o)
        c = list(CAT[k](st, self.S, self.sym, self.script))
        names = sorted({n for n, _ in c})
        fault = [n for n in names if 'FAULT' in n]
        if fault and self.rng.random() < 0.08:
            names = fault
        n = names[self.rng.integers(len(names))]
        c = [f for m, f in c if m == n]
        f = c[self.rng.integers(len(c))]
        full = '%s: %s' % (k, n)
        if self.only is not None and full != self.only:
            return
        self.log.append(full)
        try:
            f()
        except core.CaseTimeout:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if 'FAULT parameters' in n and not isinstance(e, p22.Boom):
                self.accepted = self.accepted or (full, 'raised %r instead of the error of the user function' % e)
            return
        self.accepted = self.accepted or (full, 'was accepted')


def run_nosy(script, nosy):
    old = sys.gettrace()
    sys.settrace(nosy.trace)
    try:
        return ('ok', script.run())
    except core.CaseTimeout:
        raise
    except Exception as e:
        return ('exc', e)
    finally:
        sys.settrace(old)


def same(a, b):
    if [k for k, _ in a] != [k for k, _ in b]:
        return 'observed %s instead of %s' % ([k for k, _ in b][:40], [k for k, _ in a][:40])
    for (k, x), (_, y) in zip(a, b):
        if isinstance(x, str) or x.dtype.kind in 'USO':
            if not np.array_equal(x, y):
                return '%s is %s instead of %s' % (k, str(y)[:300], str(x)[:300])
        elif x.shape != y.shape or not np.allclose(x, y, rtol=1e-8, atol=1e-10, equal_nan=True):
            return '%s is %s instead of %s' % (k, np.ravel(y)[:8], np.ravel(x)[:8])
    return None


SCRIPTS = [p22.Mpc, p22.Mpc, p22.Mpc, p22.Mhe, p22.Mhe, p22.Sim, p22.Sim, p22.ModelScript, p22.Lqr, p22.Lqr, p22.Plan, p22.Plan, p22.DataScript]


def twin(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)), aux=int(rng.integers(0, 2)))
    cls = SCRIPTS[rng.integers(len(SCRIPTS))]
    if cls is p22.Mhe and not S.meas:
        cls = p22.Mpc
    script = cls(do_mpc, int(rng.integers(1 << 30)), S, int(rng.integers(1 << 30)))
    ref = script.run()
    rep = script.run()
    d = same(ref, rep)
    if d:
        raise core.Inconclusive('the program is not repeatable: %s' % d)
    seed, rate = int(rng.integers(1 << 30)), float(rng.choice([0.06, 0.15, 0.4]))
    if cls in (p22.ModelScript,):
        rate = max(rate, 0.15)
    if cls in (p22.Plan, p22.Lqr, p22.DataScript):
        rate = float(rng.choice([0.3, 0.6, 0.9]))
    nosy = Nosy(do_mpc, script, S, S.sym, np.random.default_rng(seed), rate)
    script.guards = 0
    out = run_nosy(script, nosy)
    script.boom = False
    ctx.count['injected'] += len(nosy.log)
    ctx.count['faults'] += sum('FAULT' in n for n in nosy.log)
    for n in set(nosy.log):
        ctx.count['invalid:' + n] += 1
    ctx.count['observations'] += len(ref)
    ctx.sig, ctx.desc = [cls.__name__, S.sig(), sorted(set(nosy.log))], {'program': cls.__name__, 'model': S.describe(), 'injected': nosy.log[:40]}
    ctx.nontrivial = len(nosy.log) > 0
    if not ctx.check(nosy.accepted is None, 'accepted-%s' % (nosy.accepted or ('',))[0], '%s' % (nosy.accepted,)):
        return
    if out[0] == 'exc':
        d = 'the program fails after refused calls: %r' % (out[1],)
    else:
        d = same(ref, out[1])
    ctx.check(True, 'compared')
    if not d:
        return
    # which refused call is responsible?
    guilty = None
    for n in sorted(set(nosy.log)):
        n2 = Nosy(do_mpc, script, S, S.sym, np.random.default_rng(seed), rate, only=n)
        script.guards = 0
        o2 = run_nosy(script, n2)
        script.boom = False
        if o2[0] == 'exc' or same(ref, o2[1]):
            guilty = n
            break
    ctx.check(False, 'changed-%s' % (guilty or 'several'), 'after refused calls (%s): %s' % (guilty or nosy.log, d))


# ---- models with one error ----------------------------------------------------------------------
def declare(do_mpc, S, rng, err, C):
    """declare S up to (not including) setup with one error"""
    m = S.build(do_mpc, rng, setup=False)
    return m


def model_case(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, nx=int(rng.integers(1, 4)))
    C = ca.SX if S.sym == 'SX' else ca.MX
    seed = int(rng.integers(1 << 30))
    err = str(rng.choice(['no rhs', 'no alg', 'extra alg', 'double expression', 'double meas', 'double alg', 'foreign rhs', 'foreign alg', 'foreign meas', 'foreign expression', 'long rhs',
                          'unsetup', 'many']))
    good = S.build(do_mpc, np.random.default_rng(seed))
    ref = p22.model_print(S, good, 3)
    ctx.count['accepted_twin'] += 1
    ctx.sig, ctx.desc = [err, S.sig()], dict(S.describe(), error=err)
    q = C.sym('q')
    m = S.build(do_mpc, np.random.default_rng(seed), setup=False)
    xn, xs = S.vars['_x'][rng.integers(len(S.vars['_x']))]
    H = S.handles
    if err == 'many':
        # a model with many names of every type: none can be used twice and no similar one is taken for it
        m = do_mpc.model.Model(S.mtype, S.sym)
        decl = {t: ['%s%s' % (t[1], str(i)) for i in rng.permutation(int(rng.integers(6, 25)))] for t in ('_x', '_u', '_p', '_tvp')}
        hs = {(t, n): m.set_variable(t, n, shape=(int(rng.integers(1, 4)), 1)) for t in decl for n in decl[t]}
        en = ['e%d' % i for i in range(8)]
        for n in en:
            m.set_expression(n, hs['_x', decl['_x'][0]] * 2)
        for n in decl['_x']:
            m.set_rhs(n, -0.5 * hs['_x', n])
        for t in decl:
            for n in decl[t]:
                ctx.count['rejected'] += 1
                ctx.raises(lambda: m.set_variable(t, n), 'accepted-duplicate', '%s declared a second time' % n)
        for n in ('x', 'x99', 'X1', decl['_u'][0], decl['_p'][-1], decl['_x'][0] + '_'):
            ctx.count['rejected'] += 1
            ctx.raises(lambda: m.set_rhs(n, 0.1 * hs['_x', decl['_x'][0]]), 'accepted-similar name', 'right-hand side for %r' % n)
        m.setup()
        ctx.check(sorted(m.x.keys()) == sorted(decl['_x']) and all(sorted(set(m['_' + t].keys()) - {'default'}) == sorted(decl['_' + t]) for t in ('u', 'p', 'tvp')), 'changed-many', 'names of the model after refused declarations')
        x0 = rng.normal(size=(m.n_x, 1))
        got = np.array(m._rhs_fun(x0, np.zeros((m.n_u, 1)), np.zeros((m.n_z, 1)), np.zeros((m.n_tvp, 1)), np.zeros((m.n_p, 1)), np.zeros((m.n_w, 1))))
        ctx.check(np.allclose(got, -0.5 * x0), 'changed-many', 'right-hand side after refused declarations', got=got, want=-0.5 * x0)
        ctx.nontrivial = True
        return
    if err == 'unsetup':
        mk = [lambda: do_mpc.controller.MPC(m), lambda: do_mpc.estimator.MHE(m), lambda: do_mpc.simulator.Simulator(m), lambda: do_mpc.estimator.StateFeedback(m),
              lambda: do_mpc.data.Data(m), lambda: do_mpc.controller.LQR(m), lambda: do_mpc.model.linearize(m, np.zeros(S.n('_x')), np.zeros(S.n('_u')))]
        for i, f in enumerate(mk):
            ctx.count['rejected'] += 1
            ctx.raises(f, 'accepted-model before setup %d' % i, 'a model that was not set up was accepted (%d)' % i)
        m.setup()
        for a, b in zip(ref, p22.model_print(S, m, 3)):
            ctx.check(np.array_equal(a, b), 'changed-model before setup', 'the model changed by being refused', got=b, want=a)
        ctx.nontrivial = True
        return
    if err in ('no rhs', 'no alg'):
        # set-up is refused, the missing part is supplied, set-up is called again
        todo = [('rhs', n) for n in S.rhs_order] + [('alg', i) for i in range(len(S.alg))]
        left = [t for t in todo if t[0] == err[3:]]
        if not left:
            raise core.Inconclusive('nothing to leave out')
        S2 = S.__class__.__new__(S.__class__)
        S2.__dict__.update(S.__dict__)
        drop = left[rng.integers(len(left))]
        if drop[0] == 'rhs':
            S2.rhs_order = [n for n in S.rhs_order if n != drop[1]]
        else:
            S2.alg = [a for i, a in enumerate(S.alg) if i != drop[1]]
        r2 = np.random.default_rng(seed)
        m = S2.build(do_mpc, r2, setup=False)
        h2 = S2.handles
        import types
        from vf.models import evalterms
        L = types.SimpleNamespace(sin=ca.sin, cos=ca.cos, tanh=ca.tanh, exp=ca.exp)

        def get(r):
            t, n, i = r
            h, shp = h2[(t, n)], S.shape(t, n)
            if isinstance(shp, tuple) and len(shp) == 2 and shp[1] > 1:
                return h[i % shp[0], i // shp[0]]
            return h[i]

        def vec(ts):
            es = [evalterms(t, get, L) for t in ts]
            return ca.vertcat(*[e if isinstance(e, (ca.SX, ca.MX)) else C(e) for e in es])
        for _ in range(int(rng.integers(1, 3))):
            ctx.count['rejected'] += 1
            if not ctx.raises(lambda: m.setup(), 'accepted-setup ' + err, 'set-up of an incomplete model (%s) was accepted' % (drop,)):
                return
        if drop[0] == 'rhs':
            m.set_rhs(drop[1], vec(S.rhs[drop[1]]), process_noise=(drop[1] in S.noise))
        else:
            m.set_alg(S.alg[drop[1]][0], vec(S.alg[drop[1]][1]))
        m.setup()
        order = sorted(S.noise) != sorted(S.noise, key=lambda n: S.rhs_order.index(n)) or len(S.noise) > 1
        got = p22.model_print(S, m, 3)
        # algebraic equations may come in another order
        for k, (a, b) in enumerate(zip(ref, got)):
            if k == 1 or (order and (k == 0 or isinstance(a, str))):
                a, b = np.sort(a) if not isinstance(a, str) else sorted(a), np.sort(b) if not isinstance(b, str) else sorted(b)
                if k == 0:
                    continue
            ok = a == b if isinstance(a, (str, list)) else (a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-12))
            ctx.check(bool(ok), 'changed-Model: setup ' + err, 'after a refused and a completed set-up the model differs', got=b, want=a)
        ctx.nontrivial = True
        return
    f = None
    if err == 'extra alg':
        f = lambda: m.set_alg('extra_a', H[('_x', xn)][0])
    elif err == 'double expression':
        m.set_expression('twice', H[('_x', xn)][0] * 2)
        f = lambda: m.set_expression('twice', H[('_x', xn)][0])
    elif err == 'double meas':
        m.set_meas('twice', H[('_x', xn)][0] * 2)
        f = lambda: m.set_meas('twice', H[('_x', xn)][0])
    elif err == 'double alg':
        if not S.alg:
            raise core.Inconclusive('no algebraic equation')
        f = lambda: m.set_alg(S.alg[0][0], H[('_x', xn)][0])
    elif err == 'foreign rhs':
        e = [q] * _size(xs)
        f = lambda: m.set_rhs(xn, ca.reshape(ca.vertcat(*e), *xs) if isinstance(xs, tuple) else ca.vertcat(*e))
    elif err == 'foreign alg':
        m2 = None
        S2 = S.__class__.__new__(S.__class__)
        S2.__dict__.update(S.__dict__)
        if not S.alg:
            raise core.Inconclusive('no algebraic equation')
        S2.alg = S.alg[:-1]
        m = S2.build(do_mpc, np.random.default_rng(seed), setup=False)
        k = len(S.alg[-1][1])
        f = lambda: m.set_alg(S.alg[-1][0], ca.vertcat(*([q] * k)))
    elif err == 'foreign meas':
        f = lambda: m.set_meas('foreign_m', q)
    elif err == 'foreign expression':
        f = lambda: m.set_expression('foreign_e', q)
    elif err == 'long rhs':
        f = lambda: m.set_rhs(xn, ca.vertcat(*([H[('_x', xn)][0]] * (_size(xs) + 1))))

    def go():
        f()
        m.setup()
    ctx.count['rejected'] += 1
    ctx.raises(go, 'accepted-' + err, 'a model with the error "%s" was accepted' % err)
    ctx.nontrivial = True


# ---- controller and estimator configurations with one error --------------------------------------
def config_case(ctx, do_mpc):
    rng = ctx.rng
    mhe = rng.random() < 0.35
    S = gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)))
    if mhe and not S.meas:
        mhe = False
    seed = int(rng.integers(1 << 30))
    C, O = (ca.SX, ca.MX) if S.sym == 'SX' else (ca.MX, ca.SX)
    m = S.build(do_mpc, np.random.default_rng(seed))
    if mhe:
        c = mheref.gen_mhe_cfg(rng, S, max_N=3, nl=0)
    else:
        c = ocp.gen_mpc_cfg(rng, S, max_N=3, max_scen=4, nl=int(rng.integers(0, 2)))
        p07.bounded_costs(rng, S, c)
    c.deg, c.ni = min(c.deg, 2), 1

    def build(setup=True, **kw):
        r = np.random.default_rng(seed)
        o = (mheref.build_mhe if mhe else ocp.build_mpc)(do_mpc, S, m, c, setup=False, **kw)
        o.settings.supress_ipopt_output()
        return o

    stop = [False]

    def first(o):
        o.setup()
        if stop[0]:
            return
        o.set_initial_guess()
        o.make_step(np.zeros((m.n_y if mhe else m.n_x, 1)))
    o = build(extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 1})}, **({'set_fun': True}))
    first(o)
    ctx.count['accepted_twin'] += 1
    X = lambda: m.x[S.vars['_x'][0][0]][0]
    errs = ['cross x', 'cross u', 'double cons', 'double soft cons', 'foreign cons', 'cons ub shape', 'no objective', 'no horizon', 'no t_step', 'horizon 0', 'horizon neg', 'horizon float',
            't_step str', 'stats', 'solver option', 'cons penalty str', 'cons violation shape', 'other model']
    if S.n('_z'):
        errs.append('cross z')
    if S.n('_tvp'):
        errs += ['no tvp'] * 2
    if S.n('_p') and (not mhe or len(c.p_est) < len(S.vars['_p'])):
        errs += ['no p'] * 2
    if S.mtype == 'continuous':
        errs += ['collocation type', 'collocation deg', 'collocation ni', 'discretization']
    if not mhe:
        errs += ['robust neg', 'terminal cross']
    else:
        errs += ['no measurements'] + (['cross p_est'] if c.p_est else [])
    err = str(rng.choice(errs))
    ctx.sig = [err, mhe, S.sig(), (mheref if mhe else ocp).sig_cfg(c, S)]
    ctx.desc = {'error': err, 'estimator': bool(mhe), 'config': (mheref if mhe else ocp).desc_cfg(c, S)}
    cls = (lambda: do_mpc.estimator.MHE(m, list(c.p_est))) if mhe else (lambda: do_mpc.controller.MPC(m))

    def bare(skip):
        """minimal configuration with one part left out"""
        o = cls()
        kw = dict(n_horizon=2, t_step=0.5)
        if mhe:
            kw['meas_from_data'] = True
        for k in skip:
            kw.pop(k, None)
        o.set_param(**kw)
        o.settings.supress_ipopt_output()
        if 'objective' not in skip:
            if mhe:
                o.set_default_objective(np.eye(m.n_x), np.eye(m.n_v), np.eye(o.n_p_est), np.eye(m.n_w))
            else:
                o.set_objective(mterm=X() ** 2, lterm=X() ** 2)
        if 'n_horizon' not in skip and 'tvp' not in skip:
            t = o.get_tvp_template()
            o.set_tvp_fun(lambda _: t)
        if 'p' not in skip:
            p = o.get_p_template() if mhe else o.get_p_template(1)
            o.set_p_fun(lambda _: p)
        return o

    if rng.random() < 0.5:
        first(bare([]))
        ctx.count['accepted_twin'] += 1

    def go():
        if err in ('no objective', 'no tvp', 'no p'):
            return first(bare([err[3:]]))
        if err == 'no horizon':
            return first(bare(['n_horizon']))
        if err == 'no t_step':
            return first(bare(['t_step']))
        if err == 'other model':
            # expressions of another model
            S3 = gen_spec(np.random.default_rng(seed + 1), sym=S.sym)
            m3 = S3.build(do_mpc, np.random.default_rng(seed))
            o = bare(['objective'])
            e = m3.x[S3.vars['_x'][0][0]][0] ** 2
            if mhe:
                o.set_objective(e, ca.sumsqr(o._x.cat - o._x_prev.cat))
            else:
                o.set_objective(mterm=X() ** 2, lterm=e)
            return first(o)
        sets = {'horizon 0': ('n_horizon', 0), 'horizon neg': ('n_horizon', -1), 'horizon float': ('n_horizon', 2.5), 't_step str': ('t_step', 'a'), 'stats': ('store_solver_stats', ['nonsense_stat']),
                'solver option': ('nlpsol_opts', {'nonsense_option': 1}), 'collocation type': ('collocation_type', 'nonsense'), 'collocation deg': ('collocation_deg', 0),
                'collocation ni': ('collocation_ni', 0), 'discretization': ('state_discretization', 'nonsense'), 'robust neg': ('n_robust', -1)}
        if err in sets:
            k, v = sets[err]
            o = bare(['tvp'] if k == 'n_horizon' else [])
            o.set_param(**{k: v})
            if k == 'n_horizon':
                t = o.get_tvp_template()
                o.set_tvp_fun(lambda _: t)
            return first(o)
        if err == 'no measurements':
            o = bare([])
            o.set_param(meas_from_data=False)
            return first(o)
        o = build()
        B = o.bounds
        if err.startswith('cross'):
            t = '_' + err[6:]
            n, s = (S.vars['_p' if t == '_p_est' else t])[0] if t != '_p_est' else (c.p_est[0], None)
            B['lower', t, n] = 2.0
            B['upper', t, n] = 1.0
        elif err == 'terminal cross':
            n = S.vars['_x'][0][0]
            o.terminal_bounds['lower', n] = 2.0
            o.terminal_bounds['upper', n] = 1.0
        elif err == 'double cons':
            o.set_nl_cons('twice', X(), ub=5.0)
            o.set_nl_cons('twice', X() * 2, ub=6.0)
        elif err == 'double soft cons':
            o.set_nl_cons('twice', X(), ub=5.0, soft_constraint=True)
            o.set_nl_cons('twice', X() * 2, ub=6.0, soft_constraint=True)
        elif err == 'foreign cons':
            o.set_nl_cons('foreign', X() + C.sym('q'), ub=5.0)
        elif err == 'cons ub shape':
            o.set_nl_cons('bad', ca.vertcat(X(), X()), ub=np.ones(3))
        elif err == 'cons penalty str':
            o.set_nl_cons('bad', X(), ub=5.0, soft_constraint=True, penalty_term_cons='a')
        elif err == 'cons violation shape':
            o.set_nl_cons('bad', ca.vertcat(X(), X()), ub=5.0, soft_constraint=True, maximum_violation=np.ones(3))
        first(o)
    ctx.count['rejected'] += 1
    ctx.count['error:' + err] += 1
    if err in ('cross x', 'cross u', 'cross z', 'no objective', 'no tvp', 'no p', 'no horizon', 'no t_step', 'no measurements', 'foreign cons', 'double cons'):
        stop[0] = True      # these are refused by set-up already
        ctx.raises(go, 'accepted-%s' % err, 'configuration with the error "%s" passed set-up (%s)' % (err, 'MHE' if mhe else 'MPC'))
    else:
        ctx.raises(go, 'accepted-%s' % err, 'configuration with the error "%s" was accepted (%s)' % (err, 'MHE' if mhe else 'MPC'))
    ctx.nontrivial = True



# ---- further entry points -----------------------------------------------------------------------
def api_case(ctx, do_mpc):
    rng = ctx.rng
    which = str(rng.choice(['linear', 'lqr', 'simulator', 'files', 'graphics', 'nlpdiff', 'misc', 'prediction']))
    n, k = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    judged = []

    def bad(name, f):
        ctx.count['rejected'] += 1
        judged.append(name)
        return ctx.raises(f, 'accepted-%s: %s' % (which, name), '%s: %s was accepted' % (which, name))
    A, B = rng.normal(size=(n, n)) * 0.4, rng.normal(size=(n, k))
    Cm, D = rng.normal(size=(2, n)), rng.normal(size=(2, k))
    LM = do_mpc.model.LinearModel

    def lin(kind='discrete', setup=True):
        m = LM(kind)
        m.set_variable('_x', 'x', (n, 1))
        m.set_variable('_u', 'u', (k, 1))
        if setup:
            m.setup(A, B, Cm)
        return m
    mats = lambda m: [np.array(q) for q in (m.sys_A, m.sys_B, m.sys_C, m.sys_D)]

    def nonlin(mt='discrete', z=False, tvp=False, p=False):
        m = do_mpc.model.Model(mt, str(rng.choice(['SX', 'MX'])))
        x = m.set_variable('_x', 'x', (n, 1))
        u = m.set_variable('_u', 'u')
        e = -0.5 * x + u
        if z:
            zz = m.set_variable('_z', 'z')
            m.set_alg('a', zz - x[0])
        if tvp:
            e = e + m.set_variable('_tvp', 't')
        if p:
            e = e + m.set_variable('_p', 'p')
        m.set_rhs('x', e)
        m.set_expression('ex', x[0] * 2)
        m.setup()
        return m

    def quick_mpc(m, **kw):
        c = do_mpc.controller.MPC(m)
        c.set_param(n_horizon=2, t_step=0.5, nlpsol_opts=dict(ocp.QUIET, **{'ipopt.max_iter': 3}), **kw)
        c.set_objective(mterm=m.x['x'][0] ** 2, lterm=m.x['x'][0] ** 2)
        c.setup()
        c.set_initial_guess()
        return c
    if which == 'linear':
        ref = mats(lin())
        m = lin(setup=False)
        bad('MX', lambda: LM('discrete', 'MX'))
        bad('query before setup', lambda: m.sys_A)
        bad('query D before setup', lambda: m.sys_D)
        bad('discretize before setup', lambda: m.discretize(0.1))
        bad('steady state before setup', lambda: m.get_steady_state(uss=np.zeros((k, 1))))
        bad('alg', lambda: m.set_alg('a', m.x['x'][0]))
        bad('nonlinear rhs', lambda: m.set_rhs('x', m.x['x'] ** 2))
        bad('bilinear rhs', lambda: m.set_rhs('x', m.x['x'] * m.u['u'][0]))
        bad('nonlinear meas', lambda: m.set_meas('bad_m', ca.sin(m.x['x'][0])))
        xi, ui = m.x['x'][int(rng.integers(n))], m.u['u'][int(rng.integers(k))]
        for nm, t in [('square of an input', ui ** 2), ('sine of an input', ca.sin(ui)), ('product of state and input', 1e-3 * xi * ui), ('absolute value', ca.fabs(ui)), ('small cubic term', xi + 1e-4 * xi ** 3),
                      ('quotient', xi / (1 + ui ** 2)), ('cubic input', 2 * ui - 1e-5 * ui ** 3), ('tanh', ca.tanh(xi))]:
            base = 0.3 * m.x['x']
            bad('nonlinear rhs, ' + nm, lambda: m.set_rhs('x', base + t * np.eye(n)[:, [int(rng.integers(n))]]))
            bad('nonlinear meas, ' + nm, lambda: m.set_meas('bad_m', t + xi))
        args = [('A list', (A.tolist(), B, D, None)), ('A shape', (np.eye(n + 1), B, D[:, :1] @ np.ones((1, n)), None)), ('B shape', (A, np.ones((n + 1, k)), D[:, :1] @ np.ones((1, n)), None)),
                ('B width', (A, np.ones((n, k + 1)), D[:, :1] @ np.ones((1, n)), None)), ('C list', (A, B, Cm.tolist(), None)), ('B float', (A, 2.0, Cm * 7, None)), ('D float', (A, B, Cm * 7, 1.0)),
                ('A DM', (ca.DM(A), B, Cm * 7, None))]
        order = rng.permutation(len(args))[:int(rng.integers(1, 5))]
        for i in order:
            bad(args[i][0], lambda i=i: m.setup(*args[i][1]))
        ctx.count['accepted_twin'] += 1
        if rng.random() < 0.5:
            m.setup(A, B, Cm)
        else:
            m.setup(A, B)       # no measurement function: the states are measured
            ref = ref[:2] + [np.eye(n), np.zeros((n, k))]
        got = mats(m)
        for a, b in zip(ref, got):
            ctx.check(a.shape == b.shape and np.allclose(a, b), 'changed-LinearModel', 'the linear model differs after refused calls', got=b, want=a)
        bad('discretize discrete', lambda: m.discretize(0.1))
        bad('steady state of nothing', lambda: m.get_steady_state())
        c = lin('continuous')
        bad('steady state of continuous', lambda: c.get_steady_state(uss=np.zeros((k, 1))))
        bad('setup twice', lambda: m.setup(A, B))
        for a, b in zip(got, mats(m)):
            ctx.check(np.array_equal(a, b), 'changed-LinearModel', 'the linear model differs after refused calls', got=b, want=a)
    elif which == 'lqr':
        bad('nonlinear model', lambda: do_mpc.controller.LQR(nonlin()))
        bad('continuous model', lambda: do_mpc.controller.LQR(lin('continuous')))
        bad('model before setup', lambda: do_mpc.controller.LQR(lin(setup=False)))
        l = do_mpc.controller.LQR(lin())
        l.set_param(n_horizon=None)
        l.set_objective(Q=np.eye(n), R=np.eye(k))
        bad('no t_step', lambda: l.setup())
        l = do_mpc.controller.LQR(lin())
        l.set_param(t_step=0.1)
        bad('no objective', lambda: l.setup())
    elif which == 'simulator':
        for mt in ('discrete', 'continuous'):
            s = do_mpc.simulator.Simulator(nonlin(mt))
            bad('no t_step ' + mt, lambda: s.setup())
            s.set_param(t_step=0.1)
            s.setup()
            ctx.count['accepted_twin'] += 1
            s = do_mpc.simulator.Simulator(nonlin(mt, tvp=True))
            s.set_param(t_step=0.1)
            bad('no tvp_fun ' + mt, lambda: s.setup())
            t = s.get_tvp_template()
            s.set_tvp_fun(lambda _: t)
            s.setup()
            s.x0 = np.zeros(n)
            s.make_step(np.zeros((1, 1)))
            ctx.count['accepted_twin'] += 1
            s = do_mpc.simulator.Simulator(nonlin(mt, p=True))
            s.set_param(t_step=0.1)
            bad('no p_fun ' + mt, lambda: s.setup())
            p = s.get_p_template()
            s.set_p_fun(lambda _: p)
            s.setup()
            ctx.count['accepted_twin'] += 1
        s = do_mpc.simulator.Simulator(nonlin('continuous'))
        s.set_param(t_step=0.1, integration_tool='nonsense')
        bad('integration tool', lambda: s.setup())
        s = do_mpc.simulator.Simulator(nonlin('continuous'))
        s.set_param(t_step=0.1, integration_opts={'nonsense_option': 1})
        bad('integration option', lambda: s.setup())
    elif which == 'files':
        m = nonlin()
        s = do_mpc.simulator.Simulator(m)
        s.set_param(t_step=0.1)
        s.setup()
        s.make_step(np.zeros((1, 1)))
        d = tempfile.mkdtemp(prefix='vfp21')
        try:
            save = do_mpc.data.save_results
            before = np.array(s.data['_x'])
            bad('not a list', lambda: save(s, 'r', d + '/'))
            bad('tuple', lambda: save((s,), 'r', d + '/'))
            bad('name', lambda: save([s], 3, d + '/'))
            bad('path', lambda: save([s], 'r', 3))
            bad('overwrite', lambda: save([s], 'r', d + '/', overwrite=1))
            bad('wrong object', lambda: save([s, 3], 'r', d + '/'))
            bad('model', lambda: save([m], 'r', d + '/'))
            ctx.check(os.listdir(d) == [], 'changed-files', 'a refused save_results wrote %s' % os.listdir(d))
            bad('load missing', lambda: do_mpc.data.load_results(d + '/none.pkl'))
            save([s], 'r', d + '/')
            ctx.count['accepted_twin'] += 1
            ctx.check(os.listdir(d) == ['r.pkl'] and np.array_equal(before, np.array(s.data['_x'])), 'changed-files', 'save_results after refused calls: %s' % os.listdir(d))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    elif which == 'graphics':
        import matplotlib.pyplot as plt
        m = nonlin()
        s = do_mpc.simulator.Simulator(m)
        s.set_param(t_step=0.1)
        s.setup()
        for _ in range(3):
            s.make_step(np.ones((1, 1)))
        g = do_mpc.graphics.Graphics(s.data)
        fig, ax = plt.subplots(2)
        try:
            cnt = lambda: [len(a.lines) for a in ax]
            g.add_line('_x', 'x', ax[0])
            c0 = cnt()
            bad('type', lambda: g.add_line('_nonsense', 'x', ax[0]))
            bad('type y', lambda: g.add_line('x', 'x', ax[0]))
            bad('type value', lambda: g.add_line(3, 'x', ax[0]))
            bad('name value', lambda: g.add_line('_x', 3, ax[0]))
            bad('name', lambda: g.add_line('_x', 'undeclared', ax[0]))
            bad('axis', lambda: g.add_line('_x', 'x', 3))
            bad('figure', lambda: g.add_line('_x', 'x', fig))
            ctx.check(cnt() == c0, 'changed-graphics', 'refused add_line calls changed the axes: %s instead of %s' % (cnt(), c0))
            bad('plot index', lambda: g.plot_results(t_ind=1.5))
            bad('plot index range', lambda: g.plot_results(t_ind=50))
            bad('plot index negative range', lambda: g.plot_results(t_ind=-50))
            bad('predictions of a simulator', lambda: g.plot_predictions())
            g.plot_results()
            ctx.count['accepted_twin'] += 1
            y = np.concatenate([np.ravel(l.get_ydata()) for l in ax[0].lines])
            ctx.check(sorted(y.tolist()) == sorted(np.array(s.data['_x', 'x']).ravel().tolist()), 'changed-graphics', 'plotted data after refused calls', got=y, want=np.array(s.data['_x', 'x']))
            dp = do_mpc.graphics.default_plot
            nf = len(plt.get_fignums())
            bad('default plot state', lambda: dp(s.data, states_list=['undeclared']))
            bad('default plot input', lambda: dp(s.data, inputs_list=['undeclared']))
            bad('default plot algebraic', lambda: dp(s.data, dae_states_list=['undeclared']))
            bad('default plot expression', lambda: dp(s.data, aux_list=['undeclared']))
            bad('default plot nothing', lambda: dp(s.data, states_list=[], inputs_list=[], aux_list=[], dae_states_list=[]))
            c = quick_mpc(m)
            c.make_step(np.zeros((n, 1)))
            g2 = do_mpc.graphics.Graphics(c.data)
            g2.add_line('_x', 'x', ax[1])
            bad('predictions not stored', lambda: g2.plot_predictions())
        finally:
            plt.close('all')
    elif which == 'prediction':
        m = nonlin()
        c = quick_mpc(m)
        c.make_step(np.zeros((n, 1)))
        bad('not stored', lambda: c.data.prediction(('_x', 'x')))
        c = quick_mpc(m, store_full_solution=True)
        c.make_step(np.zeros((n, 1)))
        ref = np.array(c.data.prediction(('_x', 'x')))
        bad('list', lambda: c.data.prediction(['_x', 'x']))
        bad('str', lambda: c.data.prediction('_x'))
        bad('type', lambda: c.data.prediction(('_nonsense', 'x')))
        bad('name', lambda: c.data.prediction(('_x', 'undeclared')))
        bad('name input', lambda: c.data.prediction(('_u', 'x')))
        bad('after setup stats', lambda: c.set_param(store_full_solution=False))
        ctx.check(np.array_equal(ref, np.array(c.data.prediction(('_x', 'x')))), 'changed-prediction', 'prediction changed by refused calls')
        ctx.count['accepted_twin'] += 1
    elif which == 'nlpdiff':
        N = do_mpc.differentiator.NLPDifferentiator
        x, p = ca.SX.sym('x', 2), ca.SX.sym('p')
        nlp = {'x': x, 'f': ca.sumsqr(x - p), 'g': x[0] + x[1], 'p': p}
        b = {'lbx': -5 * np.ones((2, 1)), 'ubx': 5 * np.ones((2, 1)), 'lbg': -4 * np.ones((1, 1)), 'ubg': 4 * np.ones((1, 1))}
        bad('nlp type', lambda: N([nlp], b))
        bad('bounds type', lambda: N(nlp, 3))
        for q in nlp:
            bad('nlp without ' + q, lambda q=q: N({a: v for a, v in nlp.items() if a != q}, b))
        for q in b:
            bad('bounds without ' + q, lambda q=q: N(nlp, {a: v for a, v in b.items() if a != q}))
        dif = N(nlp, b)
        S = ca.nlpsol('S', 'ipopt', nlp, dict(ocp.QUIET))
        sol = S(x0=0, p=1.0, **{a: v for a, v in b.items()})
        ref = [np.array(q) for q in dif.differentiate(sol, p_num=ca.DM(1.0))[:2]]
        ctx.count['accepted_twin'] += 1
        bad('solution type', lambda: dif.differentiate([1], p_num=ca.DM(1.0)))
        bad('solution without multipliers', lambda: dif.differentiate({'x': sol['x']}, p_num=ca.DM(1.0)))
        bad('parameter type', lambda: dif.differentiate(sol, p_num='a'))
        bad('parameter size', lambda: dif.differentiate(sol, p_num=ca.DM([1.0, 2.0, 3.0])))
        bad('parameter none', lambda: dif.differentiate(sol, p_num=None))
        got = [np.array(q) for q in dif.differentiate(sol, p_num=ca.DM(1.0))[:2]]
        for a, g in zip(ref, got):
            ctx.close(g, a, 'changed-NLPDifferentiator', 'sensitivities after refused calls', rtol=1e-10, atol=1e-12)
    else:
        M = do_mpc.model.Model
        bad('model type', lambda: M('nonsense'))
        bad('model type none', lambda: M())
        bad('model type value', lambda: M(3))
        bad('symbol kind', lambda: M('discrete', 'DX'))
        bad('symbol kind none', lambda: M('discrete', None))
        m = nonlin('continuous', z=True)
        bad('linearize a DAE', lambda: do_mpc.model.linearize(m, np.zeros((n, 1)), np.zeros((1, 1))))
        bad('EKF', lambda: do_mpc.estimator.EKF(m))
        bad('timer unit', lambda: do_mpc.tools.Timer().info(unit='nonsense') if hasattr(do_mpc.tools.Timer(), 'info') else 1 / 0)
        bad('toc before tic', lambda: do_mpc.tools.Timer().toc())
        bad('sampler plan', lambda: do_mpc.sampling.Sampler(3))
        bad('sampler plan of lists', lambda: do_mpc.sampling.Sampler([[1, 2]]))
        bad('estimate unknown parameter', lambda: do_mpc.estimator.MHE(m, ['undeclared']))
        bad('unknown setting class field', lambda: do_mpc.controller.MPC(m, settings=3).setup())
    ctx.sig, ctx.desc = [which, n, k, sorted(judged)], {'what': which, 'n': n, 'k': k, 'refused': judged}
    ctx.nontrivial = True


def staged_case(ctx, do_mpc):
    """a change that can no longer reach the prepared problem must not be ignored silently"""
    rng = ctx.rng
    mhe = rng.random() < 0.35
    S = gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)))
    if mhe and not S.meas:
        mhe = False
    m = S.build(do_mpc, np.random.default_rng(int(rng.integers(1 << 30))))
    if mhe:
        c = mheref.gen_mhe_cfg(rng, S, max_N=3, nl=0, custom=False)
        c.tvpw = c.pw = None
    else:
        c = ocp.gen_mpc_cfg(rng, S, max_N=3, max_scen=4, nl=int(rng.integers(0, 2)))
        p07.bounded_costs(rng, S, c)
    c.deg, c.ni, c.two_stage = min(c.deg, 2), 1, False
    xn, un = S.vars['_x'][0][0], S.vars['_u'][0][0]
    what = ['scale x', 'scale u', 'cons', 'soft cons', 'objective'] + (['scale z'] if S.n('_z') else [])
    what += (['scale p'] if c.p_est else []) if mhe else ['rterm']
    what = str(rng.choice(what))
    e = lambda: m.x[xn][0] ** 2 + m.u[un][0]

    def change(o):
        if what.startswith('scale'):
            t = {'x': '_x', 'u': '_u', 'z': '_z', 'p': '_p_est'}[what[-1]]
            n = c.p_est[0] if t == '_p_est' else S.vars[t][0][0]
            o.scaling[t, n] = 3.7
        elif what == 'cons':
            o.set_nl_cons('later', e(), ub=4.0)
        elif what == 'soft cons':
            o.set_nl_cons('later', e(), ub=0.5, soft_constraint=True, penalty_term_cons=2.0)
        elif what == 'rterm':
            o.set_rterm(rterm=3.3 * (m.u[un][0] - o.u_prev[un][0]) ** 2)
        elif mhe:
            o.set_default_objective(c.Px * 2.5, c.Pv * 1.5 if S.n_v() else None, c.Pp * 2 if c.nP else None, c.Pw * 3 if S.n_w() else None)
        else:
            o.set_objective(mterm=(m.x[xn][0] - 1) ** 2, lterm=(m.x[xn][0] + 2) ** 2)

    def build():
        o = (mheref.build_mhe if mhe else ocp.build_mpc)(do_mpc, S, m, c, setup=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 4})})
        o.settings.supress_ipopt_output()
        return o

    x0, y0 = rvals(rng, S, '_x'), rng.normal(size=(m.n_y if mhe else m.n_x, 1)) * 0.4

    def sees(o):
        o.x0 = x0
        o.set_initial_guess()
        r = np.random.default_rng(5)
        W, P = r.normal(size=int(o.opt_x.shape[0])), r.normal(size=int(o.opt_p.shape[0]))
        f = ca.Function('f', [o.nlp['x'], o.nlp['p']], [o.nlp['f'], o.nlp['g']])(W, P)
        out = [np.array(q).ravel() for q in f] + [np.array(ca.DM(q)).ravel() for q in (o.opt_x_scaling, o.lb_opt_x.cat if hasattr(o.lb_opt_x, 'cat') else 0)]
        ret = o.make_step(y0)
        return out + [np.array(ret).ravel()] + [np.array(o.data[t]) for t in ('_x', '_u', '_z', '_time')]
    ref = build()
    change(ref)
    ref.setup()
    want = sees(ref)
    o = build()
    o.prepare_nlp()
    refused = None
    try:
        change(o)
        o.create_nlp()
    except Exception as ex:
        refused = type(ex).__name__
    if refused:
        ctx.count['rejected'] += 1
        if rng.random() < 0.5:
            o.prepare_nlp()
            o.create_nlp()
        else:
            o.setup()
    got = sees(o)
    how = 'refused (%s) and prepared again' % refused if refused else 'accepted'
    bad = [i for i, (a, b) in enumerate(zip(want, got)) if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)]
    ctx.check(not bad, 'staged-ignored', '%s changed between prepare_nlp and create_nlp: %s, but the problem is not the one configured (observation %s)' % (what, how, bad[:3]))
    ctx.sig = [what, bool(mhe), (mheref if mhe else ocp).sig_cfg(c, S)]
    ctx.desc = {'staged': what, 'estimator': bool(mhe), 'refused': refused}
    ctx.nontrivial = True


def run_case(kind, idx, ctx):
    import do_mpc
    if kind == 'twin':
        return twin(ctx, do_mpc)
    if kind == 'model':
        return model_case(ctx, do_mpc)
    if kind == 'staged':
        return staged_case(ctx, do_mpc)
    if kind == 'config':
        return config_case(ctx, do_mpc)
    return api_case(ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p21')
