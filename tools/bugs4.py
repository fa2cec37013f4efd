import sys; sys.path.insert(0,'/verif/tools')
from mkbug import mk
only = set(sys.argv[1:])
_mk = mk
def mk(b, *a):
    if not only or b in only:
        _mk(b, *a)

MPC3 = '''
import numpy as np, do_mpc, logging
QUIET = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''
mk('s56','P24',[('do_mpc/controller/_controllersettings.py','''        self.nlpsol_opts = {**self.nlpsol_opts, 'ipopt.linear_solver': solver_name}
''','''        # Options of the printing are kept:
        self.nlpsol_opts = {**{key: val for key, val in self.nlpsol_opts.items() if 'print' in key or key == 'ipopt.sb'}, 'ipopt.linear_solver': solver_name}
''')],'solver options other than those of the printing, given before the linear solver is chosen','choosing the linear solver discards the other solver options',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 5; c.settings.t_step = 1.0
c.settings.nlpsol_opts = {'ipopt.max_iter': 1}
c.settings.supress_ipopt_output()
c.settings.set_linear_solver('mumps')
c.set_objective(lterm=(x-1)**4, mterm=(x-2)**4); c.set_rterm(u=0.1)
c.setup(); c.x0 = np.array([5.0]); c.set_initial_guess()
c.make_step(np.array([[5.0]]))
print(c.settings.nlpsol_opts, c.solver_stats['return_status'])
assert c.solver_stats['return_status'] == 'Maximum_Iterations_Exceeded'
''')
mk('s57','P24',[('do_mpc/simulator.py','''            opts.update(self._settings.integration_opts)
''','''            opts = {**self._settings.integration_opts, **opts}
''')],'a tolerance given with integration_opts','options of the integrator that the user gave are overwritten by the defaults',
'''
import numpy as np, do_mpc
def run(**o):
    m = do_mpc.model.Model('continuous')
    a = m.set_variable('_x', 'a'); u = m.set_variable('_u', 'u')
    m.set_rhs('a', -a**3 + u)
    m.setup()
    s = do_mpc.simulator.Simulator(m); s.settings.t_step = 1.0; s.settings.integration_opts = o; s.setup()
    s.x0 = np.array([[1.0]])
    return s.make_step(np.array([[0.0]]))[0, 0]
e = 1 / np.sqrt(3.0)
print(run() - e, run(abstol=1e-2, reltol=1e-2) - e)
assert abs(run() - e) < 1e-7 and abs(run(abstol=1e-2, reltol=1e-2) - e) > 1e-6
''')
mk('s58','P23',[('do_mpc/controller/_mpc.py','''        self._t0 = self._t0 + self._settings.t_step
        self._x0.master = castools.DM(x0)
''','''        self._t0 = np.array([self.data._time.shape[0]*self._settings.t_step]) # avoid accumulation of round-off errors
        self._x0.master = castools.DM(x0)
''')],'a controller that is started at a time other than zero','the clock of the controller leaves the clock of the simulator after the first step',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 2; c.settings.t_step = 0.5; c.settings.nlpsol_opts = QUIET
c.set_objective(lterm=x**2, mterm=x**2); c.set_rterm(u=0.1)
c.setup(); c.x0 = np.array([5.0]); c.t0 = 8.0; c.set_initial_guess()
s = do_mpc.simulator.Simulator(m); s.settings.t_step = 0.5; s.setup(); s.x0 = np.array([5.0]); s.t0 = 8.0
xk = np.array([[5.0]])
for _ in range(3): xk = s.make_step(c.make_step(xk))
print(c.t0, s.t0)
assert abs(float(np.ravel(c.t0)[0]) - float(np.ravel(s.t0)[0])) < 1e-6
''')
mk('s59','P06',[('do_mpc/optimizer.py','''                tau_root = [0] + castools.collocation_points(deg, 'radau')
''','''                tau_root = [0] + [round(tau, 3 if deg > 4 else 15) for tau in castools.collocation_points(deg, 'radau')]
''')],'a collocation degree of five or more','the collocation points are rounded, so the order of the integration scheme is lost',
MPC3 + '''
import casadi as ca
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', -2.0 * x + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 1; c.settings.t_step = 1.0; c.settings.nlpsol_opts = dict(QUIET, **{'ipopt.tol': 1e-12}); c.settings.collocation_deg = 5
c.set_objective(lterm=x**2, mterm=x**2); c.set_rterm(u=0.1)
c.bounds['lower', '_u', 'u'] = 0; c.bounds['upper', '_u', 'u'] = 0
c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
c.make_step(np.array([[1.0]]))
e = float(np.ravel(c.opt_x_num['_x', 1, 0, -1])[0]) - np.exp(-2.0)
print(e)
assert abs(e) < 3e-7
''')
mk('s60','P05',[('do_mpc/controller/_mpc.py','''                rterm_factor[key] = val
''','''                rterm_factor[key] = val if isinstance(val, np.ndarray) else int(val) if float(val) > 1 else val
''')],'a scalar penalty factor above one that is not an integer','the penalty of the input rate is truncated to an integer',
MPC3 + '''
import casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 1; c.settings.t_step = 1.0
c.set_objective(lterm=x**2, mterm=x**2); c.set_rterm(u=1.75)
c.setup()
W = c.opt_x(0); W['_u', 0, 0] = 2.0
f = ca.Function('f', [c.opt_x, c.opt_p], [c.nlp['f']])
print(f(W, 0))
assert abs(float(f(W, 0)) - 1.75 * 4) < 1e-9
''')
mk('s62','P10',[('do_mpc/estimator/_mhe.py','''                for k in range(-n_steps,0):
                    y_template['y_meas',k] = self.data._y[k]
                try:
                    for k in range(self.settings.n_horizon-n_steps):
                        y_template['y_meas',k] = self.data._y[-n_steps]
                except:
                    None
''','''                for k in range(-n_steps,0):
                    if np.any(np.isnan(self.data._y[k])) or (k < -1 and np.all(y_template['y_meas', k+1] == self.data._y[k])):
                        continue # already in place
                    y_template['y_meas',k] = self.data._y[k]
                try:
                    for k in range(self.settings.n_horizon-n_steps):
                        y_template['y_meas',k] = self.data._y[-n_steps]
                except:
                    None
''')],'a measurement that is equal to the one which takes the next place of the window','a repeated measurement leaves an outdated one in the window',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x')
m.set_rhs('x', x * 0.8, process_noise=True); m.set_meas('y', x, meas_noise=True)
m.setup()
e = do_mpc.estimator.MHE(m)
e.settings.n_horizon = 3; e.settings.t_step = 1.0; e.settings.nlpsol_opts = QUIET; e.settings.meas_from_data = True
e.set_default_objective(np.eye(1), np.eye(1), P_w=np.eye(1))
e.setup(); e.x0 = 1.0; e.set_initial_guess()
ys = [1.0, 2.0, 3.0, 3.0, 5.0, 5.0, 5.0, 1.0]
for k, y in enumerate(ys):
    e.make_step(np.array([[y]]))
    w = [float(np.ravel(v)[0]) for v in e.opt_p_num['_y_meas']]
    want = (ys[:1] * 3 + ys[:k + 1])[-3:] if k < 3 else ys[k - 2:k + 1]
    print(w, want)
    assert w == want
''')
mk('s63','P14',[('do_mpc/sampling/_samplingplanner.py','''        values = list(itertools.product(*list(kwargs.values())))
''','''        values = list(dict.fromkeys(itertools.product(*list(kwargs.values()))))
''')],'a list of the product with a repeated value (replications)','repeated cases of a product are dropped',
'''
import do_mpc, tempfile
sp = do_mpc.sampling.SamplingPlanner()
sp.data_dir = tempfile.mkdtemp() + '/'
sp.set_sampling_var('a'); sp.set_sampling_var('b')
p = sp.product(a=[1, 2], b=[0, 0, 1.0])
print(len(p))
assert len(p) == 6 and [c['b'] for c in p] == [0, 0, 1.0] * 2
''')
mk('s64','P21',[('do_mpc/model/_model.py','''        assert var_name in self._x['name'], 'var_name''','''        assert any(name.startswith(var_name) for name in self._x['name']), 'var_name''')],'the name of a right-hand side is the beginning of the name of a state','a misspelled state is accepted by set_rhs',
'''
import do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'temperature'); u = m.set_variable('_u', 'u')
try:
    m.set_rhs('temp', 0.5 * x + u)
except Exception as e:
    print('refused', e)
else:
    raise SystemExit('accepted')
''')
mk('s65','P02',[('do_mpc/model/_linearize.py','''(C == np.eye(n_x)).all()''','''np.allclose(C, np.eye(n_x), atol=1e-3)''')],'an output matrix close to the identity','small sensor gains and cross-talk are dropped by the linearisation',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u')
m.set_rhs('x', 0.5 * x + u); m.set_meas('y', x + 5e-4 * x[::-1])
m.setup()
l = do_mpc.model.linearize(m, np.zeros((2, 1)), np.zeros((1, 1)))
print(l.sys_C)
assert np.allclose(np.array(l.sys_C, dtype=float), [[1, 5e-4], [5e-4, 1]], atol=1e-9)
''')
mk('s67','P16',[('do_mpc/sampling/_datahandler.py','''        load_name = self._load_name(sample['id'])
''','''        load_name = self._load_name(str(sample['id']).lstrip('0').zfill(3))
''')],'a plan with fewer or more than three digits of the id','results of plans with another precision of the id are not found',
'''
import do_mpc, tempfile, os
d = tempfile.mkdtemp() + '/'
sp = do_mpc.sampling.SamplingPlanner(id_precision=5); sp.data_dir = d
sp.set_sampling_var('a')
p = sp.product(a=[1, 2, 3])
s = do_mpc.sampling.Sampler(p); s.data_dir = d; s.set_param(print_progress=False)
s.set_sample_function(lambda a: a * 2)
s.sample_data()
h = do_mpc.sampling.DataHandler(p); h.data_dir = d
r = h[:]
print(r)
assert [c['res'] for c in r] == [2, 4, 6]
''')
mk('s70','P12',[('do_mpc/data.py','''                f_ind = self.model[data_field].f[powerind]
''','''                f_ind = self.model[data_field].f[powerind] if len(powerind) < 2 or not isinstance(powerind[-1], slice) else self.model[data_field].f[powerind[:-1]][:powerind[-1].stop]
''')],'a query with a slice that does not begin at the first element','the query of a slice returns more elements than requested',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
a = m.set_variable('_x', 'a', (4, 1)); u = m.set_variable('_u', 'u')
m.set_rhs('a', 0.5 * a + u)
m.setup()
s = do_mpc.simulator.Simulator(m); s.settings.t_step = 1.0; s.setup()
s.x0 = np.array([[1.0], [2.0], [3.0], [4.0]])
for _ in range(3): s.make_step(np.array([[0.1]]))
r = s.data['_x', 'a', 1:3]
print(r)
assert r.shape == (3, 2) and np.allclose(r[0], [2.0, 3.0])
''')
mk('s73','P07',[('do_mpc/controller/_mpc.py','''        self._u0.master = castools.DM(u0)
        self._z0.master = castools.DM(z0)

        # Return control input:
''','''        self._u0.master = castools.DM(u0) if self.solver_stats['success'] else self._u0.cat
        self._z0.master = castools.DM(z0)

        # Return control input:
''')],'a step whose optimisation does not converge, followed by another step with a rate penalty','after a step that did not converge the rate penalty refers to an input that was not applied last',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 5; c.settings.t_step = 1.0; c.settings.nlpsol_opts = dict(QUIET, **{'ipopt.max_iter': 2})
c.set_objective(lterm=(x-1)**4, mterm=(x-2)**4); c.set_rterm(u=0.1)
c.setup(); c.x0 = np.array([5.0]); c.set_initial_guess()
u1 = c.make_step(np.array([[5.0]]))
c.make_step(np.array([[4.0]]))
print(u1, c.opt_p_num['_u_prev'], c.solver_stats['return_status'])
assert np.allclose(np.ravel(c.opt_p_num['_u_prev'])[0], u1[0, 0])
''')
