import sys; sys.path.insert(0,'/verif/tools')
from mkbug import mk
only = set(sys.argv[1:])
_mk = mk
def mk(b, *a):
    if not only or b in only:
        _mk(b, *a)

MPC3 = '''
import numpy as np, do_mpc, logging
QUIET = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''
mk('s38','P12',[('do_mpc/data.py','''                f_ind = self.model[data_field].f[powerind]
''','''                if len(powerind) == 1 and isinstance(powerind[0], str):
                    # all elements of the variable
                    f_ind = [i for i, label in enumerate(self.model[data_field].labels()) if label.startswith('['+powerind[0])]
                else:
                    f_ind = self.model[data_field].f[powerind]
''')],'a variable whose name begins with the name of another variable of the same type','the query of one variable also returns the columns of variables whose names begin alike',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
a = m.set_variable('_x', 'temp'); b = m.set_variable('_x', 'temp_wall'); u = m.set_variable('_u', 'u')
m.set_rhs('temp', 0.5 * a + u); m.set_rhs('temp_wall', 0.3 * b + a)
m.setup()
s = do_mpc.simulator.Simulator(m); s.settings.t_step = 1.0; s.setup()
s.x0 = np.array([[1.0], [2.0]])
for _ in range(3): s.make_step(np.array([[0.1]]))
r = s.data['_x', 'temp']
print(r)
assert r.shape == (3, 1) and np.allclose(r[0], 1.0)
''')
mk('s39','P12',[('do_mpc/data.py','''            updated = np.append(arr, value.reshape(1,-1), axis=0)
''','''            updated = np.append(arr[-999:], value.reshape(1,-1), axis=0)
''')],'more than 1000 recorded steps','the oldest records are dropped from long histories',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
a = m.set_variable('_x', 'a'); u = m.set_variable('_u', 'u')
m.set_rhs('a', 0.5 * a + u)
m.setup()
s = do_mpc.simulator.Simulator(m); s.settings.t_step = 1.0; s.setup()
s.x0 = np.array([[1.0]])
for _ in range(1010): s.make_step(np.array([[0.1]]))
print(s.data['_x'].shape, s.data['_time'][0])
assert s.data['_x'].shape == (1010, 1) and s.data['_time'][0] == 0
''')
mk('s40','P11',[('do_mpc/controller/_lqr.py','''                 temp_p = temp_pi
''','''                 if np.allclose(temp_pi, temp_p, rtol=1e-3):
                     break # stationary
                 temp_p = temp_pi
''')],'a finite horizon over which the cost-to-go converges slowly','the recursion of the finite horizon gain stops before the horizon is reached',
'''
import numpy as np, do_mpc
m = do_mpc.model.LinearModel('discrete')
m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u', (2, 1))
A, B = np.array([[0.9999, 0.], [0., 0.9998]]), np.diag([0.001, 0.002])
m.setup(A, B)
q = do_mpc.controller.LQR(m)
q.settings.t_step = 0.1; q.settings.n_horizon = 400
Q, R = np.diag([1e-4, 1e-4]), np.eye(2)
q.set_objective(Q=Q, R=R, P=Q * 2000)
q.setup()
P = Q * 2000
for _ in range(400):
    K = -np.linalg.solve(B.T @ P @ B + R, B.T @ P @ A)
    P = Q + A.T @ P @ A + A.T @ P @ B @ K
print(q.K, K)
assert np.allclose(q.K, K, rtol=1e-6)
''')
mk('s41','P22',[('do_mpc/controller/_controllersettings.py','''    nlpsol_opts: Dict = field(default_factory=dict)
''','''    nlpsol_opts: Dict = field(default_factory=lambda options={}: options)
''')],'two controllers in one process, solver options set in place for one of them','solver options given to one controller apply to all other controllers',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
def ctrl(**o):
    c = do_mpc.controller.MPC(m)
    c.settings.n_horizon = 5; c.settings.t_step = 1.0
    c.settings.nlpsol_opts.update(o)
    c.set_objective(lterm=(x-1)**4, mterm=x**2); c.set_rterm(u=0.1)
    c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
    c.make_step(np.array([[5.0]]))
    return c
a = ctrl(**QUIET, **{'ipopt.max_iter': 1})
b = ctrl()
print(b.solver_stats['return_status'], b.settings.nlpsol_opts)
assert b.solver_stats['success']
''')
mk('s42','P04',[('do_mpc/simulator.py','''                    'abstol': self._settings.abstol,
                    'reltol': self._settings.reltol,
''','''                    'abstol': self._settings.reltol,
                    'reltol': self._settings.abstol,
''')],'different absolute and relative tolerances','the absolute and the relative tolerance of the integrator are exchanged',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
a = m.set_variable('_x', 'a'); u = m.set_variable('_u', 'u')
m.set_rhs('a', -a + u)
m.setup()
s = do_mpc.simulator.Simulator(m); s.settings.t_step = 1.0; s.settings.abstol = 1e-16; s.settings.reltol = 1e-6; s.setup()
s.x0 = np.array([[1e-8]])
y = s.make_step(np.array([[0.0]]))
print(y, 1e-8 * np.exp(-1))
assert abs(y[0, 0] / (1e-8 * np.exp(-1)) - 1) < 1e-3
''')
mk('s43','P09',[('do_mpc/estimator/_mhe.py','''            dp = p_0.cat - p_prev.cat
            arrival_cost += dp.T@P_p@dp
''','''            dp = p_0.cat - p_prev.cat
            arrival_cost += castools.mtimes([dp.T, castools.diag(castools.diag(P_p)) if n_p > 3 else P_p, dp])
''')],'more than three estimated parameter entries with correlated weight','the correlations in the weight of the parameters are ignored',
MPC3 + '''
import casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p', (4, 1))
m.set_rhs('x', x * 0.8 + ca.sum1(p), process_noise=True); m.set_meas('y', x, meas_noise=True)
m.setup()
e = do_mpc.estimator.MHE(m, ['p'])
e.settings.n_horizon = 2; e.settings.t_step = 1.0; e.settings.nlpsol_opts = QUIET; e.settings.meas_from_data = True
L = np.eye(4) + 0.5 * np.ones((4, 4))
e.set_default_objective(np.eye(1), np.eye(1), L, np.eye(1))
e.setup()
W = e.opt_x(0); W['_p_est', 'p'] = np.array([1., 2., 3., 4.])
f = ca.Function('f', [e.opt_x, e.opt_p], [e.nlp['f']])
v = float(f(W, 0)); q = np.array([1., 2., 3., 4.])
print(v, q @ L @ q)
assert abs(v - q @ L @ q) < 1e-9
''')
mk('s44','P19',[('do_mpc/opcua/_helper.py','''        return [entry.get_node_id(self._namespace_index) for entry in self.entry_list if entry.objectnode == nodename]
''','''        return [entry.get_node_id(self._namespace_index) for entry in sorted(self.entry_list, key=lambda e: e.variable.split(',')[0] + e.variable.split(',')[-1]) if entry.objectnode == nodename] if len(self.entry_list) > 99 else [
            entry.get_node_id(self._namespace_index) for entry in self.entry_list if entry.objectnode == nodename]
''')],'a namespace with 100 or more entries','the tags of one variable are returned in alphabetical order, so that element 10 precedes element 2',
'''
from do_mpc.opcua._helper import Namespace, NamespaceEntry
n = Namespace('n', [NamespaceEntry('x', 'x[a,%d]' % i) for i in range(120)])
n._namespace_index = 2
print(n['x'][:4])
assert n['x'] == ['ns=2;s=x[a,%d]' % i for i in range(120)]
''')
mk('s47','P15',[('do_mpc/sampling/_sampler.py','''            result = self.sample_function(**sample_i)
''','''            result = self.sample_function(**{key: float(value) if isinstance(value, int) else value for key, value in sample_i.items()})
''')],'integer or boolean values in the plan','the sample function receives other values than those of the plan',
'''
import do_mpc, tempfile, pickle
with tempfile.TemporaryDirectory() as d:
    s = do_mpc.sampling.Sampler([{'n': 3, 'flag': True, 'id': '000'}])
    s.data_dir = d + '/'; s.set_param(print_progress=False)
    def fun(n, flag): return [list(range(n)) if isinstance(n, int) else None, flag is True]
    s.set_sample_function(fun)
    s.sample_data()
    r = pickle.load(open(d + '/sample_000.pkl', 'rb'))
    print(r)
    assert r == [[0, 1, 2], True]
''')
mk('s48','P16',[('do_mpc/sampling/_datahandler.py','''            if wrap_fun_in(**sample)==True:
''','''            if wrap_fun_in(**sample) is True:
''')],'an input filter that returns a numpy truth value','cases selected by the filter are left out',
'''
import numpy as np, do_mpc, tempfile
with tempfile.TemporaryDirectory() as d:
    plan = [{'a': np.float64(i), 'id': '%03d' % i} for i in range(4)]
    s = do_mpc.sampling.Sampler(plan); s.data_dir = d + '/'; s.set_param(print_progress=False)
    def fun(a): return a * 2
    s.set_sample_function(fun); s.sample_data()
    h = do_mpc.sampling.DataHandler(plan); h.data_dir = d + '/'
    r = h.filter(input_filter=lambda a: a > 1)
    print(r)
    assert [q['res'] for q in r] == [4, 6]
''')
mk('s49','P14',[('do_mpc/sampling/_samplingplanner.py','''        for value in values:
''','''        drawn = {var['name']: var['fun_var_pdf']() for var in self.sampling_vars if var['name'] not in keys and var['fun_var_pdf'] is not None} if len(values) > 8 else {}
        for value in values:
'''), ('do_mpc/sampling/_samplingplanner.py','''            case = dict(zip(keys, value))
''','''            case = dict(zip(keys, value), **drawn)
''')],'a product of more than eight cases with a variable that is drawn for each case','all cases of the product carry the same drawn value',
'''
import do_mpc, itertools
p = do_mpc.sampling.SamplingPlanner()
import tempfile
c = itertools.count()
p.set_sampling_var('a'); p.set_sampling_var('r', lambda: next(c))
plan = p.product(a=list(range(12)))
print(plan)
assert len({q['r'] for q in plan}) == 12
''')
mk('s51','P07',[('do_mpc/controller/_mpc.py','''        p0 = self.p_fun(self._t0)
''','''        if not hasattr(self, '_p_cache') or self._p_cache[0] != float(self._t0):
            self._p_cache = (float(self._t0), self.p_fun(self._t0))
        p0 = self._p_cache[1]
''')],'the time is set back to that of the last step between two steps and the parameter function meanwhile returns other values','the step is solved with the parameters of an earlier step',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', x * 0.8 + u + p)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 3; c.settings.t_step = 1.0; c.settings.nlpsol_opts = QUIET
c.set_objective(lterm=x**2, mterm=x**2); c.set_rterm(u=0.1)
val = [0.5]
def p_fun(t):
    q = c.get_p_template(1); q['_p', 0, 'p'] = val[0]
    return q
c.get_p_template(1)
c.set_p_fun(p_fun)
c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
c.make_step(np.array([[1.0]]))
c.t0 = 0.0; val[0] = -0.7
c.make_step(np.array([[1.0]]))
print(c.opt_p_num['_p', 0])
assert float(c.opt_p_num['_p', 0, 'p']) == -0.7
''')
mk('s52','P10',[('do_mpc/estimator/_mhe.py','''                n_steps = min(self.data._y.shape[0], self.settings.n_horizon)
                for k in range(-n_steps,0):
''','''                n_steps = min(self.data._y.shape[0], self.settings.n_horizon)
                for k in range(-min(n_steps, 10),0):
''')],'a horizon longer than ten steps','older measurements of the window are replaced by stale values',
MPC3 + '''
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x')
m.set_rhs('x', x * 0.8, process_noise=True); m.set_meas('y', x, meas_noise=True)
m.setup()
e = do_mpc.estimator.MHE(m, [])
e.settings.n_horizon = 13; e.settings.t_step = 1.0; e.settings.nlpsol_opts = QUIET; e.settings.meas_from_data = True
e.set_default_objective(np.eye(1), np.eye(1), P_w=np.eye(1))
e.setup(); e.x0 = np.array([1.0]); e.set_initial_guess()
for k in range(16): e.make_step(np.array([[1.0 + 0.1 * k]]))
w = np.array([float(v) for v in e.opt_p_num['_y_meas', :]])
print(w)
assert np.allclose(w, 1.0 + 0.1 * np.arange(3, 16))
''')
mk('s53','P08',[('do_mpc/optimizer.py','''        if overwrite or not os.path.isfile(libname):
''','''        if not os.path.isfile(libname):
''')],'a library of another problem is present and overwriting is requested','the compiled controller solves an older problem',
MPC3 + '''
import tempfile, os
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
def ctrl(q):
    c = do_mpc.controller.MPC(m)
    c.settings.n_horizon = 3; c.settings.t_step = 1.0; c.settings.nlpsol_opts = dict(QUIET)
    c.set_objective(lterm=(x-q)**2, mterm=(x-q)**2); c.set_rterm(u=0.1)
    c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
    return c
with tempfile.TemporaryDirectory() as d:
    out = []
    for q in (0.0, 3.0):
        c = ctrl(q)
        ref = ctrl(q).make_step(np.array([[1.0]]))
        os.chdir(d)
        c.compile_nlp(overwrite=True, cname='nlp.c', libname='./nlp%d.so' % 0 if q == 0 else './other.so')
        out.append((ref, c.make_step(np.array([[1.0]]))))
        # the library of the first problem under the name of the second
        if q == 0:
            import shutil; shutil.copy('nlp0.so', 'other.so')
    print(out)
    for r, v in out: assert np.allclose(r, v, atol=1e-6)
    os.chdir('/')
''')
mk('s54','P20',[('do_mpc/graphics.py','''        t_now = self.data._time[t_ind]
''','''        t_now = t_ind*self.data.meta_data['t_step'] if t_ind >= 0 else self.data._time[t_ind]
''')],'recording that does not begin at time zero (initial time set, or set back during the run)','the predictions are drawn at other times than those of the records',
MPC3 + '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x * 0.8 + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.settings.n_horizon = 3; c.settings.t_step = 1.0; c.settings.nlpsol_opts = QUIET; c.settings.store_full_solution = True
c.set_objective(lterm=x**2, mterm=x**2); c.set_rterm(u=0.1)
c.setup(); c.x0 = np.array([1.0]); c.t0 = 5.0; c.set_initial_guess()
for _ in range(3): c.make_step(np.array([[1.0]]))
fig, ax = plt.subplots()
g = do_mpc.graphics.Graphics(c.data)
g.add_line('_x', 'x', ax)
g.plot_predictions(1)
t = g.pred_lines['_x', 'x'][0].get_xdata()
print(t)
assert np.allclose(t, 6.0 + np.arange(4))
''')
mk('s55','P02',[('do_mpc/model/_linearmodel.py','''cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method)''',
'''cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), np.float32(t_step) if t_step > 10 else t_step, conv_method)''')],
'sampling times above ten that are no short binary fraction','the sampled model belongs to a rounded sampling time',
'''
import numpy as np, do_mpc
from scipy.signal import cont2discrete
m = do_mpc.model.LinearModel('continuous')
m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u')
A, B = np.array([[-.01, .3], [-.3, -.01]]), np.array([[1.], [.5]])
C, D = np.eye(2)[:1], np.zeros((1, 1))
m.setup(A, B, C, D)
h = 1234.56789012
d = m.discretize(h)
Ad = cont2discrete((A, B, C, D), h)[0]
print(d.sys_A - Ad)
assert np.allclose(d.sys_A, Ad, rtol=1e-9, atol=1e-14)
''')
