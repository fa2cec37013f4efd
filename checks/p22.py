"""P22: independence of objects (alone vs. interleaved under a controlled scheduler), repeatability after resets, aliasing of passed and returned data."""
import copy, os, shutil, sys, tempfile, threading
import numpy as np
import casadi as ca
from vf import core, ocp, mheref
from vf.models import gen_spec, rvals, _size
from checks import p07, p08, p10, p04

ID = 'P22'
CASES = {'quick': [('coarse', 165), ('fine', 165), ('repeat', 225), ('alias', 225)], 'thorough': [('coarse', 3000), ('fine', 4000), ('repeat', 4000), ('alias', 3000)]}
RULE = ('two to four random scripts (model, controller, estimator, simulator, LQR, sampling plan, bare data object; half of them on one shared model) are first run alone and then '
        'interleaved: every script has its own thread and a scheduler passes one baton at random calls into do-mpc (coarse) or at random source lines inside do-mpc (fine), so the '
        'schedule is real and reproducible; everything a script observes (returned values, records, settings, bounds, scaling, problem functions) is compared with the run alone; '
        'reset-and-repeat runs are compared step by step; passed, returned and shared data are compared with copies taken before later steps; distinct by (scripts, configuration, '
        'switches); non-trivial = at least five switches or two compared runs')
ASSUMPTIONS = ['structures documented as live (x0, u0, z0, templates kept by the user, opt_x_num) may change', 'solver runs themselves are not pre-empted',
               'set_initial_guess does not reset slack and noise guesses: repeats with those are compared on convex problems up to solver tolerance']
NEED = {'switches': 5000, 'scripts': 300, 'shared_model': 40, 'observations': 8000, 'repeats': 120, 'alias_checks': 1500}
MAX_INCONCLUSIVE = 0.3


# ---- controlled scheduling ----------------------------------------------------------------------
class Abort(BaseException):
    pass


class Baton:
    """exactly one script runs at a time; the holder hands over at random instrumented points"""

    def __init__(self, rng, fine):
        self.rng, self.fine = rng, fine
        self.pc = float(rng.choice([0.2, 0.5, 0.9]))
        self.pl = float(rng.choice([0.005, 0.03, 0.2])) if fine else 0
        self.cv = threading.Condition()
        self.cur, self.alive, self.abort = None, [], False
        self.switches = 0
        self.base = os.path.realpath(core.REPO) + os.sep + 'do_mpc' + os.sep
        self.cache = {}

    def inrepo(self, f):
        r = self.cache.get(f)
        if r is None:
            r = self.cache[f] = os.path.realpath(f).startswith(self.base)
        return r

    def switch(self, me):
        with self.cv:
            o = self.alive[self.rng.integers(len(self.alive))]
            if o == me:
                return
            self.switches += 1
            self.cur = o
            self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        while self.cur != me and not self.abort:
            self.cv.wait()
        if self.abort:
            raise Abort()

    def run(self, scripts):
        out = [None] * len(scripts)

        def body(i):
            def line(frame, event, arg):
                if event == 'line' and self.rng.random() < self.pl:
                    self.switch(i)
                return line

            def tr(frame, event, arg):
                if not self.inrepo(frame.f_code.co_filename):
                    return None
                b = frame.f_back
                if b is None or not self.inrepo(b.f_code.co_filename):
                    if self.rng.random() < self.pc:
                        self.switch(i)
                return line if self.fine else None
            try:
                with self.cv:
                    self.wait(i)
                sys.settrace(tr)
                try:
                    out[i] = ('ok', scripts[i]())
                finally:
                    sys.settrace(None)
            except Abort:
                return
            except BaseException as e:
                out[i] = ('exc', e)
            with self.cv:
                self.alive.remove(i)
                if self.alive:
                    self.cur = self.alive[self.rng.integers(len(self.alive))]
                self.cv.notify_all()
        self.alive = list(range(len(scripts)))
        self.cur = 0
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(scripts))]
        try:
            for t in th:
                t.start()
            for t in th:
                t.join()
        finally:
            with self.cv:
                self.abort = True
                self.cv.notify_all()
        return out


# ---- scripts ----------------------------------------------------------------------------------
def settings_of(o):
    s = o.settings
    return repr(sorted((k, repr(getattr(s, k))) for k in dir(s) if not k.startswith('__') and not callable(getattr(s, k))))


def nlp_print(o, seed):
    """values of the optimisation problem at a random point"""
    r = np.random.default_rng(seed)
    f = ca.Function('f', [o.nlp['x'], o.nlp['p']], [o.nlp['f'], o.nlp['g']])
    a, b = f(r.normal(size=o.nlp['x'].shape) * 0.3, r.normal(size=o.nlp['p'].shape) * 0.3)
    v = lambda q: np.array(ca.DM(q)).ravel()
    return [v(a), v(b), v(o.nlp_cons_lb), v(o.nlp_cons_ub), v(o._lb_opt_x.cat), v(o._ub_opt_x.cat), v(o.opt_x_scaling.cat)]


def model_print(S, m, seed):
    r = np.random.default_rng(seed)
    a = [r.normal(size=m[t].shape[0] if hasattr(m[t], 'shape') else 0) * 0.3 for t in ('x', 'u', 'z', 'tvp', 'p')]
    w, v = r.normal(size=m.n_w) * 0.2, r.normal(size=m.n_v) * 0.2
    out = [m._rhs_fun(*a, w), m._alg_fun(*a, w), m._meas_fun(*a, v), m._aux_expression_fun(*a)]
    keys = [repr(list(m[t].keys())) for t in ('x', 'u', 'z', 'tvp', 'p', 'w', 'v', 'aux', 'y')]
    return [np.array(ca.DM(q)).ravel() for q in out] + keys


def data_print(d, log):
    for f in sorted(d.data_fields):
        if not f.startswith('t_') and f != 'iter_count':      # undefined memory in CasADi when ipopt gives up before the first iteration
            log('record ' + f, np.asarray(d[f]))


class Boom(Exception):
    pass


class Script:
    """a deterministic program using do-mpc; run(model) returns the list of everything observed"""
    shares = False

    def __init__(self, do_mpc, seed, S=None, mseed=0):
        self.do_mpc, self.seed, self.S, self.mseed = do_mpc, seed, S, mseed

    def model(self):
        return self.S.build(self.do_mpc, np.random.default_rng(self.mseed))

    def run(self, model=None):
        self.rng = np.random.default_rng(self.seed)
        self.out = []
        if self.shares and model is None:
            model = self.model()
        self.go(model)
        return self.out

    boom, guards = False, 0

    def guard(self, f):
        """user function that can be made to fail"""
        def g(t):
            if self.boom:
                raise Boom('user function failed on purpose')
            return f(t)
        self.guards += 1
        return g

    def log(self, k, v):
        self.out.append((k, v if isinstance(v, str) else np.array(v.full() if hasattr(v, 'full') else v)))

    def logs(self, k, vs):
        for i, v in enumerate(vs):
            self.log('%s %d' % (k, i), v)


def inplace_options(rng, o):
    """options changed in the objects that the settings hold, not replaced"""
    s = o.settings
    if rng.random() < 0.5:
        s.nlpsol_opts['ipopt.max_iter'] = int(rng.integers(21, 40))
    if rng.random() < 0.3:
        s.nlpsol_opts.update({'ipopt.tol': float(rng.choice([1e-8, 1e-9]))})
    if rng.random() < 0.4:
        s.store_solver_stats.append(str(rng.choice(['iter_count', 'n_call_nlp_f'])))


class Mpc(Script):
    shares = True

    def go(self, m):
        rng, S = self.rng, self.S
        c = ocp.gen_mpc_cfg(rng, S, max_N=3, max_scen=4, nl=int(rng.integers(0, 2)))
        c.deg, c.ni = min(c.deg, 2), 1
        p07.bounded_costs(rng, S, c)
        mpc = ocp.build_mpc(self.do_mpc, S, m, c, order=rng, setup=False, set_fun=False,
                            extra=dict(nlpsol_opts={'ipopt.max_iter': 20} if rng.random() < 0.4 else None, store_full_solution=bool(rng.random() < 0.5)))
        inplace_options(rng, mpc)
        mpc.settings.supress_ipopt_output()
        W = p07.World(rng, S, c)
        B, SC, T = mpc.bounds, mpc.scaling, mpc.terminal_bounds
        pf, tf = W.funs(mpc)
        if S.n('_p') or c.n_comb > 1:
            mpc.get_p_template(c.n_comb)
            mpc.set_p_fun(self.guard(pf))
        if S.n('_tvp'):
            mpc.set_tvp_fun(self.guard(tf))
        for n, s in S.vars['_x']:
            B['upper', '_x', n] = 7.5
            T['lower', n] = -9.0 - rng.random()
        n, s = S.vars['_u'][0]
        if c.rterm is None:
            SC['_u', n] = 1.0 + rng.random()
        ocp.finish(mpc, c)
        self.logs('problem', nlp_print(mpc, 5))
        mpc.x0 = rvals(rng, S, '_x')
        mpc.set_initial_guess()
        for k in range(int(rng.integers(1, 4))):
            x = rvals(rng, S, '_x')
            if rng.random() < 0.3:
                B['lower', '_u', n] = -float(rng.uniform(0.5, 2))
                B['upper', '_x', S.vars['_x'][0][0]] = float(rng.uniform(5, 7))
                self.logs('bounds', [B['lower', '_u', n], B['upper', '_x', S.vars['_x'][0][0]], mpc.bounds['lower', '_u', n]])
            if rng.random() < 0.2:
                mpc.reset_history()
            self.log('u', mpc.make_step(p07.give_x0(rng, m, x)))
            self.log('t', mpc.t0)
            self.log('opt', mpc.opt_x_num.cat)
            if mpc.settings.store_full_solution:
                self.log('prediction', mpc.data.prediction(('_x', S.vars['_x'][0][0])))
        data_print(mpc.data, self.log)
        self.log('settings', settings_of(mpc))
        self.logs('held', [B['lower', '_u', n], SC['_u', n], T['lower', S.vars['_x'][0][0]]])


class Mhe(Script):
    shares = True

    def go(self, m):
        rng, S = self.rng, self.S
        c = mheref.gen_mhe_cfg(rng, S, max_N=3, nl=0)
        c.deg, c.ni = min(c.deg, 2), 1
        if c.custom:
            c.custom = False
        W = p10.Shadow(rng, S, c)
        mhe = mheref.build_mhe(self.do_mpc, S, m, c, order=rng, setup=False, set_fun=False,
                               extra=dict(nlpsol_opts={'ipopt.max_iter': 20} if rng.random() < 0.4 else None, meas_from_data=True))
        inplace_options(rng, mhe)
        mhe.settings.supress_ipopt_output()
        B = mhe.bounds
        W.install(mhe)
        for n, s in S.vars['_u']:
            B['lower', '_u', n] = -5.0 - rng.random()
            B['upper', '_u', n] = 6.0
        ocp.finish(mhe, c)
        self.logs('problem', nlp_print(mhe, 6))
        mhe.x0 = rvals(rng, S, '_x')
        mhe.set_initial_guess()
        ny = m.n_y
        for k in range(int(rng.integers(1, 5))):
            if rng.random() < 0.3:
                B['upper', '_x', S.vars['_x'][0][0]] = float(rng.uniform(5, 7))
            if rng.random() < 0.2:
                mhe.reset_history()
            self.log('x', mhe.make_step(np.round(rng.normal(size=(ny, 1)) * .5, 3)))
            self.log('opt', mhe.opt_x_num.cat)
        data_print(mhe.data, self.log)
        self.log('settings', settings_of(mhe))
        self.log('held', B['upper', '_x', S.vars['_x'][0][0]])


def make_sim(do_mpc, rng, S, m, guard=lambda f: f):
    sim = do_mpc.simulator.Simulator(m)
    h = round(float(rng.uniform(0.05, 0.5)), 3)
    if S.mtype == 'continuous':
        sim.set_param(integration_tool='idas' if S.n('_z') or rng.random() < 0.3 else 'cvodes')
        if rng.random() < 0.6:
            sim.settings.integration_opts['max_num_steps'] = int(rng.integers(5000, 9000))
        if rng.random() < 0.5:
            sim.settings.abstol = sim.settings.reltol = float(rng.choice([1e-7, 1e-9]))
    sim.set_param(t_step=h)
    a, b = rng.normal(size=S.n('_tvp')), rng.normal(size=S.n('_p'))
    tt, pt = sim.get_tvp_template(), sim.get_p_template()

    def tvp_fun(t):
        tt.master = ca.DM(a + 0.4 * np.sin(3 * float(np.ravel(t)[0])))
        return tt

    def p_fun(t):
        pt.master = ca.DM(b + 0.4 * np.cos(2 * float(np.ravel(t)[0])))
        return pt
    if S.n('_tvp'):
        sim.set_tvp_fun(guard(tvp_fun))
    if S.n('_p'):
        sim.set_p_fun(guard(p_fun))
    sim.setup()
    return sim


class Sim(Script):
    shares = True

    def go(self, m):
        rng, S = self.rng, self.S
        sim = make_sim(self.do_mpc, rng, S, m, self.guard)
        x = rvals(rng, S, '_x')
        sim.x0 = x
        if S.n('_z'):
            sim.z0 = S.solve_z(x, np.zeros(S.n('_u')), np.zeros(S.n('_tvp')), np.zeros(S.n('_p')))
            sim.set_initial_guess()
        for k in range(int(rng.integers(2, 6))):
            if rng.random() < 0.2:
                sim.reset_history()
            kw = {'u0': p04.arg(rng, rvals(rng, S, '_u'), m._u)} if S.n('_u') else {}
            y = sim.make_step(**kw)
            if not np.all(np.isfinite(np.array(sim.x0.cat))) or np.abs(np.array(sim.x0.cat)).max() > 1e3:
                self.log('left', 'range')
                break
            self.log('y', y)
            self.log('x', sim.x0.cat)
        data_print(sim.data, self.log)
        self.log('settings', settings_of(sim))


class ModelScript(Script):
    def go(self, _):
        S = self.S
        for k in range(2):
            m = S.build(self.do_mpc, np.random.default_rng(self.mseed + k))
            self.logs('model', model_print(S, m, 3))
            if S.sym == 'SX' and S.mtype == 'continuous' and not S.n('_z') and S.n('_x') and not S.n('_tvp') and not S.n('_p') and not S.n_w():
                r = np.random.default_rng(4)
                L = self.do_mpc.model.linearize(m, r.normal(size=S.n('_x')) * .2, r.normal(size=S.n('_u')) * .2)
                self.log('A', ca.DM(L.sys_A) if not isinstance(L.sys_A, np.ndarray) else L.sys_A)


class Lqr(Script):
    def go(self, _):
        rng = self.rng
        n, k = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        m = self.do_mpc.model.LinearModel('discrete')
        m.set_variable('_x', 'x', (n, 1))
        m.set_variable('_u', 'u', (k, 1))
        m.setup(A=rng.normal(size=(n, n)) * 0.5, B=rng.normal(size=(n, k)))
        lqr = self.do_mpc.controller.LQR(m)
        lqr.set_param(t_step=round(float(rng.uniform(.1, 1)), 2), n_horizon=None if rng.random() < .5 else int(rng.integers(3, 9)))
        lqr.set_objective(Q=np.eye(n) * rng.uniform(.5, 2), R=np.eye(k))
        if rng.random() < 0.4:
            lqr.set_rterm(delR=np.eye(k) * 0.3)
        lqr.setup()
        x = rng.normal(size=(n, 1))
        lqr.x0 = x
        lqr.set_setpoint(np.ones((n, 1)) * 0.2, None)
        self.log('K', lqr.K)
        for _ in range(3):
            u = lqr.make_step(x)
            self.log('u', u)
            x = x * 0.5 + 0.1
        data_print(lqr.data, self.log)
        self.log('settings', settings_of(lqr))


class Plan(Script):
    def go(self, _):
        rng = self.rng
        tmp = tempfile.mkdtemp(prefix='vfp22')
        S = self.do_mpc.sampling
        try:
            sp = S.SamplingPlanner(id_precision=int(rng.integers(2, 4)))
            sp.data_dir = tmp + '/'
            sp.set_sampling_var('a', lambda: float(rng.normal()))
            sp.set_sampling_var('b')
            for i in range(3):
                sp.add_sampling_case(b=i * float(rng.random()))
            sp.product(a=[1, 2], b=[float(rng.random())])
            self.log('plan', repr(sp.sampling_plan))
            sm = S.Sampler(sp.sampling_plan)
            sm.data_dir = tmp + '/'
            sm.set_param(print_progress=False)
            q = float(rng.random())
            sm.set_sample_function(lambda a, b: a * q + b)
            sm.sample_data()
            dh = S.DataHandler(sp.sampling_plan)
            dh.data_dir = tmp + '/'
            dh.set_post_processing('r', lambda r: r * 2)
            self.log('res', repr([sorted(d.items()) for d in dh[:]]))
            self.log('sel', repr(dh.filter(input_filter=lambda b: b > 0.3)))
            self.log('settings', repr((sm.settings.__dict__ if hasattr(sm, 'settings') else None, sp.data_dir == tmp + '/', sm.data_dir == tmp + '/', dh.data_dir == tmp + '/')))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


class DataScript(Script):
    shares = True

    def go(self, m):
        rng, S = self.rng, self.S
        d = self.do_mpc.data.Data(m)
        d.set_meta(label=str(self.seed), n=3)
        for k in range(4):
            d.update(_time=np.array([k * 0.5]), _x=rvals(rng, S, '_x'), _u=rvals(rng, S, '_u'))
            if rng.random() < 0.2:
                d.init_storage()
            self.log('x', d['_x'])
            self.log('q', d['_x', S.vars['_x'][0][0]])
        self.log('meta', repr({k: v for k, v in d.meta_data.items()}))


TYPES = [Mpc, Mhe, Sim, Sim, ModelScript, Lqr, Plan, DataScript]


def compare(ctx, a, b, tag):
    """b: observation list of the interleaved run, a: alone"""
    if [k for k, _ in a] != [k for k, _ in b]:
        return ctx.check(False, 'observations' + tag, 'observed %s instead of %s' % ([k for k, _ in b][:60], [k for k, _ in a][:60]))
    for (k, va), (_, vb) in zip(a, b):
        ctx.count['observations'] += 1
        if isinstance(va, str) or va.dtype.kind in 'US':
            ctx.check(np.array_equal(va, vb), 'differs%s' % tag, '%s: %s instead of %s' % (k, str(vb)[:300], str(va)[:300]))
        else:
            ctx.close(vb, va, 'differs%s' % tag, '%s differs from the run alone' % k, rtol=1e-8, atol=1e-10)
        if len(ctx.violations) > 3:
            return False
    return True


def interleave(ctx, do_mpc, kind):
    rng = ctx.rng
    S = gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)), aux=int(rng.integers(0, 2)))
    same = rng.random() < 0.5
    mseed = int(rng.integers(1 << 30))
    scripts = []
    for i in range(int(rng.integers(2, 5)) if kind == 'coarse' else int(rng.integers(2, 4))):
        cls = TYPES[rng.integers(len(TYPES))]
        if i and rng.random() < 0.4:
            cls = type(scripts[0])          # the same class: class-level state
        Si = S if same else gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)), np_=int(rng.integers(0, 2)))
        if cls is Mhe and not Si.meas:
            cls = Sim
        scripts.append(cls(do_mpc, int(rng.integers(1 << 30)), Si, mseed))
    if not any(s.shares for s in scripts):
        scripts[0] = Sim(do_mpc, 1, S if same else scripts[0].S, mseed)
    alone = []
    for s in scripts:
        try:
            alone.append(s.run())
        except core.CaseTimeout:
            raise
        except Exception as e:
            raise
    model = S.build(do_mpc, np.random.default_rng(mseed)) if same else None
    before = model_print(S, model, 9) if same else None
    bt = Baton(np.random.default_rng(int(rng.integers(1 << 30))), kind == 'fine')
    progs = [copy.copy(s) for s in scripts]
    out = bt.run([(lambda p=p: p.run(model if p.shares else None)) for p in progs])
    ctx.count['switches'] += bt.switches
    ctx.count['scripts'] += len(scripts)
    ctx.count['shared_model'] += same
    for s, a, o in zip(scripts, alone, out):
        if o[0] == 'exc':
            if isinstance(o[1], core.CaseTimeout):
                raise o[1]
            ctx.check(False, 'fails-' + type(s).__name__, 'script %s runs alone but fails when interleaved with %s: %r' % (type(s).__name__, [type(q).__name__ for q in scripts], o[1]))
            continue
        compare(ctx, a, o[1], '-' + type(s).__name__)
    if same:
        after = model_print(S, model, 9)
        for a, b in zip(before, after):
            ctx.check(np.array_equal(a, b), 'model-changed', 'the shared model changed while other objects used it', before=a, after=b)
    # once more alone, after everything else ran in this process
    k = int(rng.integers(len(scripts)))
    compare(ctx, alone[k], scripts[k].run(), '-later')
    ctx.count['repeats'] += 1
    ctx.sig = [[type(s).__name__ for s in scripts], same, S.sig(), bt.switches]
    ctx.desc = {'scripts': [type(s).__name__ for s in scripts], 'shared': same, 'switches': bt.switches, 'model': S.describe()}
    ctx.nontrivial = bt.switches >= 5


# ---- reset and repeat ---------------------------------------------------------------------------
def repeat(ctx, do_mpc):
    rng = ctx.rng
    which = str(rng.choice(['mpc', 'mpc', 'mpcnl', 'mhe', 'sim', 'lqr', 'loop']))
    tol = dict(rtol=3e-5, atol=3e-6)
    exact = dict(rtol=1e-10, atol=1e-12)
    ops = []
    if which in ('mpc', 'mpcnl'):
        S, c = p08.mpc_cfg(rng, which)
        if which == 'mpcnl':
            for q in c.cons:
                q['soft'] = False
            c.cons = [q for q in c.cons if np.all(np.asarray(q['ub']) > 0.5)]
        m = S.build(do_mpc, rng)
        mpc = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **p08.SOLVER)})
        W = p07.World(rng, S, c)
        pf, tf = W.funs(mpc)
        if S.n('_p') or c.n_comb > 1:
            mpc.get_p_template(c.n_comb); mpc.set_p_fun(pf)
        if S.n('_tvp'):
            mpc.set_tvp_fun(tf)
        ocp.finish(mpc, c)
        n_eps = int(mpc.n_eps) if not callable(getattr(mpc, 'n_eps', 0)) else 0
        xs = [rvals(rng, S, '_x') for _ in range(int(rng.integers(2, 5)))]
        u0, z0 = rvals(rng, S, '_u') * 0.3, rvals(rng, S, '_z')
        t0 = float(np.round(rng.uniform(0, 3), 2))

        def once():
            mpc.reset_history()
            mpc.t0 = t0
            mpc.x0, mpc.u0 = xs[0], u0
            if S.n('_z'):
                mpc.z0 = z0
            mpc.set_initial_guess()
            out = []
            for x in xs:
                u = mpc.make_step(x.copy())
                out.append((mpc.solver_stats['return_status'], u.ravel()))
            return out, {f: np.array(mpc.data[f]) for f in ('_time', '_x', '_u', '_z', '_tvp', '_p', 'opt_p_num')}
        tols = exact if not any(q['soft'] for q in c.cons) else tol
        desc, sig = ocp.desc_cfg(c, S), ocp.sig_cfg(c, S)
    elif which == 'mhe':
        S, c = p10.gen(rng, 'loop')
        S2 = gen_spec(rng, meas=0, nonlin=False, nx=int(rng.integers(1, 3)), noise=bool(rng.random() < 0.7))
        S2.meas = [('y0', [[(1.0, 'id', [r])] for r in S2.refs('_x')], True)] + [('um%d' % i, [[(1.0, 'id', [r])]], False) for i, r in enumerate(S2.refs('_u'))]
        S = S2
        c = mheref.gen_mhe_cfg(rng, S, max_N=4, nl=0, custom=False)
        c.deg, c.ni, c.tvpw, c.pw, c.bounds = min(c.deg, 2), 1, None, None, {}
        m = S.build(do_mpc, rng)
        W = p10.Shadow(rng, S, c)
        mhe = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **p08.SOLVER), 'meas_from_data': True})
        W.install(mhe)
        ocp.finish(mhe, c)
        ys = [np.round(rng.normal(size=(m.n_y, 1)) * 0.5, 3) for _ in range(int(rng.integers(2, c.N + 4)))]
        x0, pe = rvals(rng, S, '_x'), rng.normal(size=c.nP) * 0.3
        t0 = float(np.round(rng.uniform(0, 3), 2))

        def once():
            mhe.reset_history()
            mhe.t0 = t0
            mhe.x0 = x0
            mhe.u0 = np.zeros(S.n('_u'))
            mhe.z0 = np.zeros(S.n('_z'))
            if c.nP:
                mhe.p_est0 = pe
            mhe.set_initial_guess()
            out = []
            for y in ys:
                x = mhe.make_step(y)
                out.append((mhe.solver_stats['return_status'], x.ravel()))
            return out, {f: np.array(mhe.data[f]) for f in ('_time', '_y', '_tvp')}
        tols = dict(rtol=2e-4, atol=2e-5)
        desc, sig = mheref.desc_cfg(c, S), mheref.sig_cfg(c, S)
    elif which == 'lqr':
        n, k = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        m = do_mpc.model.LinearModel('discrete')
        m.set_variable('_x', 'x', (n, 1)); m.set_variable('_u', 'u', (k, 1))
        nu = k
        m.setup(A=rng.normal(size=(n, n)) * 0.5, B=rng.normal(size=(n, k)))
        lqr = do_mpc.controller.LQR(m)
        lqr.set_param(t_step=0.3, n_horizon=None)
        lqr.set_objective(Q=np.eye(n), R=np.eye(k))
        if rng.random() < 0.5:
            lqr.set_rterm(delR=np.eye(k))
        lqr.setup()
        xs = rng.normal(size=(4, n, 1))

        def once():
            lqr.reset_history()
            lqr.x0 = xs[0]; lqr.u0 = np.zeros((nu, 1))
            return [('Solve_Succeeded', np.ravel(lqr.make_step(x))) for x in xs], {f: np.array(lqr.data[f]) for f in ('_time', '_x', '_u')}
        tols, desc, sig = exact, {'lqr': [n, k]}, [n, k]
    else:
        S = gen_spec(rng, nu=int(rng.integers(1, 3)), noise=None)
        m = S.build(do_mpc, rng)
        sim = make_sim(do_mpc, rng, S, m)
        us = [rvals(rng, S, '_u') for _ in range(int(rng.integers(2, 6)))]
        x0 = rvals(rng, S, '_x')
        z0 = S.solve_z(x0, us[0], np.zeros(S.n('_tvp')), np.zeros(S.n('_p'))) if S.n('_z') else None
        t0 = float(np.round(rng.uniform(0, 3), 2))
        ws = [rng.normal(size=S.n_w()) * 0.1 for _ in us]

        def once():
            sim.reset_history()
            sim.t0 = t0
            sim.x0 = x0
            sim.u0 = us[0]
            if S.n('_z'):
                sim.z0 = z0
                sim.set_initial_guess()
            out = []
            for k, u in enumerate(us):
                y = sim.make_step(u.reshape(-1, 1), **({'w0': ws[k].reshape(-1, 1)} if S.n_w() and k % 2 else {}))
                if not np.all(np.isfinite(np.array(sim.x0.cat))) or np.abs(np.array(sim.x0.cat)).max() > 1e3:
                    raise core.Inconclusive('trajectory left the working range')
                out.append(('Solve_Succeeded', np.concatenate([y.ravel(), np.array(sim.x0.cat).ravel()])))
            return out, {f: np.array(sim.data[f]) for f in ('_time', '_x', '_u', '_z', '_y', '_aux', '_tvp', '_p')}
        tols, desc, sig = exact, S.describe(), S.sig()
    ref, dref = once()
    same = 0
    for _ in range(2):
        got, dgot = once()
        solved = True
        for k, ((sa, a), (sb, b)) in enumerate(zip(ref, got)):
            if tols is not exact and (sa != 'Solve_Succeeded' or sb != 'Solve_Succeeded'):
                solved = False
                break
            ctx.check(sa == sb, 'repeat-status', 'step %d of the repetition ended with %s instead of %s' % (k, sb, sa))
            same += bool(ctx.close(b, a, 'repeat-result', 'step %d of the repetition (%s)' % (k, which), **tols))
        for f in dref:
            ctx.check(dref[f].shape == dgot[f].shape, 'repeat-record', 'record of %s has shape %s after the repetition, first %s' % (f, dgot[f].shape, dref[f].shape))
            if dref[f].shape == dgot[f].shape and solved:
                ctx.close(dgot[f], dref[f], 'repeat-record', 'record of %s' % f, **tols)
        ctx.count['repeats'] += 1
        if len(ctx.violations) > 3:
            break
    ctx.sig, ctx.desc = [which, sig], {'what': which, 'config': desc}
    ctx.nontrivial = same > 1


# ---- aliasing ---------------------------------------------------------------------------------
class Watch:
    """copies of data that must not change any more"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    @staticmethod
    def val(o):
        if isinstance(o, dict):
            return repr(sorted(o.items()))
        if hasattr(o, 'cat'):
            return np.array(ca.DM(o.cat)).ravel().copy()
        if isinstance(o, ca.DM):
            return np.array(o).ravel().copy()
        if isinstance(o, list):
            return repr(o)
        return np.array(o).copy()

    def add(self, name, o):
        self.items.append((name, o, self.val(o)))
        return o

    def check(self, when):
        for name, o, v in self.items:
            self.ctx.count['alias_checks'] += 1
            w = self.val(o)
            same = np.array_equal(v, w)
            if not self.ctx.check(same, 'altered-' + name.split()[0], '%s was altered %s' % (name, when), before=v, after=w):
                return False
        return True


def forms(rng, struct, v):
    k = rng.integers(4)
    return [v.reshape(-1, 1).copy(), v.copy(), ca.DM(v), struct(ca.DM(v))][k]


def scramble(o):
    """overwrite an object in place"""
    if hasattr(o, 'cat'):
        o.master = ca.DM(np.array(o.cat)) * 0 + 77
    elif isinstance(o, ca.DM):
        o[:] = 77
    else:
        o[...] = 77


def alias(ctx, do_mpc):
    rng = ctx.rng
    S = gen_spec(rng, nx=int(rng.integers(1, 3)), nu=int(rng.integers(1, 3)), aux=int(rng.integers(0, 2)))
    if not S.meas or rng.random() < 0.5:
        S.meas = [('ym', [[(1.0, 'id', [r])] for r in S.refs('_x')], True)]
        for i, r in enumerate(S.refs('_u')):
            S.meas.append(('um%d' % i, [[(1.0, 'id', [r])]], False))
    m = S.build(do_mpc, rng)
    before = model_print(S, m, 2)
    W = Watch(ctx)
    opts = W.add('options given to two objects', {'ipopt.max_iter': 15})
    objs = {}
    nobj = int(rng.integers(2, 4))
    for i in range(nobj):
        k = str(rng.choice(['mpc', 'sim', 'mhe', 'mpc', 'sim']))
        name = '%s%d' % (k, i)
        if k == 'sim':
            objs[name] = make_sim(do_mpc, rng, S, m)
            continue
        if k == 'mpc':
            c = ocp.gen_mpc_cfg(rng, S, max_N=2, max_scen=3, nl=0)
            c.deg, c.ni = 1, 1
            p07.bounded_costs(rng, S, c)
            # weights and scaling as arrays
            o = ocp.build_mpc(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': opts if rng.random() < 0.6 else None})
            if c.rterm is None:
                for n in c.rfac:
                    if isinstance(c.rfac[n], np.ndarray):
                        W.add('weights %s' % n, c.rfac[n])
            w = p07.World(rng, S, c)
            pf, tf = w.funs(o)
            if S.n('_p') or c.n_comb > 1:
                o.get_p_template(c.n_comb); o.set_p_fun(pf)
            if S.n('_tvp'):
                o.set_tvp_fun(tf)
        else:
            c = mheref.gen_mhe_cfg(rng, S, max_N=3, nl=0, custom=False)
            c.deg, c.ni, c.tvpw, c.pw = 1, 1, None, None
            for n in ('Px', 'Pv', 'Pw', 'Pp'):
                W.add('weights %s' % n, getattr(c, n))
            pl = W.add('list of estimated parameters', list(c.p_est))
            o = mheref.build_mhe(do_mpc, S, m, c, order=rng, setup=False, set_fun=False, extra={'nlpsol_opts': opts if rng.random() < 0.6 else None, 'meas_from_data': True})
            p10.Shadow(rng, S, c).install(o)
        for q in list(c.scale.values()):
            W.add('scaling array', q)
        n, s = S.vars['_x'][0]
        ba = W.add('bound array', np.full(_size(s), 9.0))
        o.bounds['upper', '_x', n] = ba if _size(s) > 1 else 9.0
        o.settings.supress_ipopt_output()
        if rng.random() < 0.4:
            o.settings.set_linear_solver('mumps')
        W.check('by suppressing the solver output of one of them')
        if rng.random() < 0.5:
            olds = {q: settings_of(objs[q]) for q in objs}
            inplace_options(rng, o)
            T = (do_mpc.controller.MPC if k == 'mpc' else do_mpc.estimator.MHE)
            fresh = T(m) if k == 'mpc' else T(m, [])
            ctx.count['alias_checks'] += 1 + len(olds)
            ctx.check(not fresh.settings.nlpsol_opts and 'iter_count' not in fresh.settings.store_solver_stats, 'fresh-settings', 'a new object starts with the options of another one: %s' % settings_of(fresh)[:500])
            for q in olds:
                ctx.check(settings_of(objs[q]) == olds[q], 'other-settings', 'settings of %s changed with those of %s' % (q, name))
        ocp.finish(o, c)
        objs[name] = o
    names = list(objs)
    state = {}
    u_last = np.zeros(S.n('_u'))
    for k, o in objs.items():
        v = forms(rng, m._x, rvals(rng, S, '_x'))
        o.x0 = v
        W.add('initial state given to %s' % k, v)
        o.u0 = W.add('initial input given to %s' % k, forms(rng, m._u, rvals(rng, S, '_u') * 0.3))
        if S.n('_z'):
            o.z0 = W.add('initial algebraic state given to %s' % k, forms(rng, m._z, rvals(rng, S, '_z') * 0.3))
        if rng.random() < 0.9:
            o.set_initial_guess()
    hist = []
    live = lambda o: {f: np.array(getattr(o, f).cat).ravel().copy() for f in ('x0', 'u0', 'z0')}
    for j in range(int(rng.integers(4, 10))):
        a = names[rng.integers(len(names))]
        b = names[rng.integers(len(names))]
        others = {q: live(objs[q]) for q in names if q != a}
        recs = {q: np.array(objs[q].data._x).copy() for q in names if q != a}
        op = rng.integers(6)
        hist.append('%s:%d' % (a, op))
        if op == 0 and a != b:
            # hand over the state of one object to another one
            objs[a].x0 = objs[b].x0
            if rng.random() < 0.5:
                objs[a].u0 = objs[b].u0
        elif op == 1:
            # the caller re-uses the passed object for something else
            v = forms(rng, m._x, rvals(rng, S, '_x'))
            objs[a].x0 = v
            w = np.array(objs[a].x0.cat).ravel().copy()
            scramble(v)
            ctx.count['alias_checks'] += 1
            ctx.close(np.array(objs[a].x0.cat).ravel(), w, 'kept-reference', 'state of %s after its caller re-used the passed %s' % (a, type(v).__name__), rtol=1e-14, atol=0)
        else:
            o = objs[a]
            if a.startswith('sim'):
                v = W.add('input given to %s' % a, p04.arg(rng, rvals(rng, S, '_u'), m._u))
                r = o.make_step(v)
                kept = {'x0': o.x0.cat}
            elif a.startswith('mpc'):
                v = W.add('state given to %s' % a, forms(rng, m._x, rvals(rng, S, '_x')))
                r = o.make_step(v)
            else:
                v = W.add('measurement given to %s' % a, forms(rng, m._y, np.round(rng.normal(size=m.n_y) * .5, 3)))
                r = o.make_step(v)
            if not np.all(np.isfinite(np.asarray(r))) or np.abs(np.array(o.x0.cat)).max() > 1e3:
                raise core.Inconclusive('trajectory left the working range')
            W.add('result returned by %s' % a, r)
            if rng.random() < 0.5:
                W.add('record returned by %s' % a, o.data['_x'])
                W.add('record returned by %s (variable)' % a, o.data['_x', S.vars['_x'][0][0]])
            if rng.random() < 0.3 and a[:3] in ('mpc', 'mhe'):
                W.add('bound returned by %s' % a, o.bounds['upper', '_x', S.vars['_x'][0][0]])
                o.bounds['upper', '_x', S.vars['_x'][0][0]] = float(rng.uniform(8, 9))
            if rng.random() < 0.3:
                # the caller overwrites a returned array: nothing inside may change
                st, rec = live(o), np.array(o.data._x).copy()
                q = np.asarray(r)
                W.items = [it for it in W.items if it[1] is not q and it[1] is not r]
                if isinstance(q, np.ndarray) and q.size:
                    q[...] = 55
                ctx.count['alias_checks'] += 1
                ctx.check(all(np.array_equal(st[f], live(o)[f]) for f in st), 'returned-live', 'overwriting a returned array changed the state of %s' % a)
                ctx.check(np.array_equal(rec, np.array(o.data._x)), 'returned-live', 'overwriting a returned array changed the record of %s' % a)
        for q in others:
            now = live(objs[q])
            for f in now:
                ctx.count['alias_checks'] += 1
                ctx.check(np.array_equal(now[f], others[q][f]), 'other-object', '%s.%s changed although only %s was used' % (q, f, a), before=others[q][f], after=now[f])
            ctx.check(np.array_equal(recs[q], np.array(objs[q].data._x)), 'other-record', 'record of %s changed although only %s was used' % (q, a))
        if not W.check('by operation %s' % hist[-1]) or len(ctx.violations) > 3:
            break
    for x, y in zip(before, model_print(S, m, 2)):
        ctx.check(np.array_equal(x, y), 'model-changed', 'the shared model changed')
    ctx.sig, ctx.desc = [S.sig(), hist], dict(S.describe(), ops=hist)
    ctx.nontrivial = len(W.items) > 5


def run_case(kind, idx, ctx):
    import do_mpc
    if kind in ('coarse', 'fine'):
        return interleave(ctx, do_mpc, kind)
    if kind == 'repeat':
        return repeat(ctx, do_mpc)
    return alias(ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p22')
