import sys; sys.path.insert(0,'/verif/tools')
from mkbug import mk
only = set(sys.argv[1:])
_mk = mk
def mk(b, *a):
    if not only or b in only:
        _mk(b, *a)

mk('s05','P01',[('do_mpc/model/_model.py','''                var = castools.SX.sym(var_name+'_noise', expr.shape[0])
''','''                var = castools.SX.sym(var_name+'_noise')
''')],'process noise on a vector valued state of an SX model','all elements of the state are disturbed by one common noise value',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete', 'SX')
x = m.set_variable('_x', 'x', (2, 1)); y = m.set_variable('_x', 'y')
m.set_rhs('x', 0.5 * x, process_noise=True); m.set_rhs('y', 0.5 * y, process_noise=True)
m.setup()
print(m.n_w)
assert m.n_w == 3
r = m._rhs_fun([2., 4., 6.], [], [], [], [], [.1, .2, .3]).full().ravel()
assert np.allclose(r, [1.1, 2.2, 3.3])
''')
mk('s06','P02',[('do_mpc/model/_linearmodel.py','''cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method)''',
'''cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, 'zoh' if conv_method in ('zoh', 'impulse') else conv_method)''')],
'discretisation with the impulse method','impulse invariant discretisation silently returns the zero order hold model',
'''
import numpy as np, do_mpc
from scipy.signal import cont2discrete
m = do_mpc.model.LinearModel('continuous')
m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u')
A, B = np.array([[-1., .3], [.2, -2.]]), np.array([[1.], [.5]])
C, D = np.eye(2)[:1], np.zeros((1, 1))
m.setup(A, B, C, D)
d = m.discretize(0.4, 'impulse')
Ad, Bd, Cd, Dd, _ = cont2discrete((A, B, C, D), 0.4, 'impulse')
print(d.sys_B, Bd)
assert np.allclose(d.sys_B, Bd)
''')
mk('s07','P02',[('do_mpc/model/_model.py','''        v = self.v(0)

''','''        v = self.v(0)
        if not castools.SX(castools.vertcat(tvp)).is_zero():
            tvp = self.tvp if not isinstance(tvp, (np.ndarray, castools.DM)) else castools.DM(np.ravel(tvp))[::-1]

''')],'two or more time-varying parameters in the operating point','the operating point of the time-varying parameters is applied in reverse order',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
a = m.set_variable('_tvp', 'a'); b = m.set_variable('_tvp', 'b')
m.set_rhs('x', -a * x + b * u)
m.setup()
A, B, C, D = m.get_linear_system_matrices(np.array([[1.]]), np.array([[1.]]), tvp=np.array([[2.], [5.]]))
print(A, B)
assert np.allclose(A, -2) and np.allclose(B, 5)
''')
mk('s08','P03',[('do_mpc/model/_dae2odeconversion.py','''    for key in range(np.size(model.tvp.keys())-1):
''','''    for key in range(np.size(model.tvp.keys())-1)[::-1]:
'''),],'two time-varying parameters','the converted model declares the time-varying parameters in reverse order',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
a = m.set_variable('_tvp', 'a'); b = m.set_variable('_tvp', 'b')
m.set_rhs('x', -a * x + b * z)
m.set_alg('e', z - x - u)
m.setup()
d = do_mpc.model.dae2odeconversion(m)
print(d.tvp.keys())
assert d.tvp.keys() == m.tvp.keys()
r = d._rhs_fun([1., 0., 1.], 0, [], [2., 3.], [], []).full().ravel()
assert abs(r[0] - 1) < 1e-12
''')
mk('s09','P04',[('do_mpc/simulator.py','''        self._t0 = self._t0 + self._settings.t_step 
''','''        self._t0 = np.round(self._t0 + self._settings.t_step, 9)
''')],'a time step that is not a multiple of a nanosecond','the simulated time, with which the time-varying parameters are looked up, is not the sum of the steps taken',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); q = m.set_variable('_tvp', 'q'); u = m.set_variable('_u', 'u')
m.set_rhs('x', -1e6 * x + q + u)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1e-7 / 3)
qt = s.get_tvp_template()
seen = []
def fun(t):
    seen.append(float(np.ravel(t)[0])); qt['q'] = 1.; return qt
s.set_tvp_fun(fun)
s.setup()
s.x0 = 2.
for k in range(5):
    s.make_step(np.zeros((1, 1)))
T = s.data['_time'].ravel()
print(T)
assert np.allclose(T, 1e-7 / 3 * np.arange(5), atol=1e-11, rtol=1e-6)
''')
mk('s10','P04',[('do_mpc/simulator.py','''y_next = self.model._meas_fun(x_next, u0, z_next, tvp0, p0, v0)''','''y_next = self.model._meas_fun(x_next, u0, z_next, self.tvp_fun(self._t0 + self._settings.t_step), p0, v0)''')],
'a measurement that depends on a time-varying parameter which changes','the measurement uses the time-varying parameter of the next sample',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); q = m.set_variable('_tvp', 'q')
m.set_rhs('x', 0.5 * x)
m.set_meas('y', x + q)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1.)
t_ = s.get_tvp_template()
def f(t):
    t_['q'] = float(np.ravel(t)[0])
    return t_
s.set_tvp_fun(f)
s.setup()
s.x0 = 1.
y = [float(s.make_step()) for _ in range(3)]
print(y)
assert np.allclose(y, [.5, 1.25, 2.125])
''')
mk('s11','P05',[('do_mpc/controller/_mpc.py','''                    obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
''','''                    obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s - s % n_branches[k]])
''')],'soft constraints in a scenario tree that branches at more than one stage','the penalty of the slack variables of a scenario is taken from another scenario',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=3, n_robust=2, t_step=1.)
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=0.1)
c.set_nl_cons('c', x, ub=1., soft_constraint=True, penalty_term_cons=7)
c.set_uncertainty_values(p=np.array([.5, .9]))
c.setup()
g = ca.Function('g', [c.opt_x, c.opt_p], [ca.gradient(c.nlp_obj, c.opt_x)])(0, 0).full().ravel()
g = {(k, s): g[int(np.ravel(c.opt_x.f['_eps', k, s, 'c'])[0])] for k in range(1, 3) for s in range(2 * k)}
print(g)
assert g[1, 0] == g[1, 1] and len({g[2, s] for s in range(4)}) == 1
''')
mk('s12','P05',[('do_mpc/controller/_mpc.py','''                            obj += self.rterm_factor.cat.T@((opt_x['_u', k, s_u]-opt_x['_u', k-1, parent_scenario[k][s_u]])**2)
''','''                            obj += self.rterm_factor.cat.T@((opt_x['_u', k, s_u]-opt_x['_u', k-1, s_u if k > 1 else parent_scenario[k][s_u]])**2)
''')],'scenario tree with a robust horizon: the stage right after the last branching','the rate penalty at the last branching stage compares inputs that are not parent and child',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=3, n_robust=2, t_step=1.)
c.set_objective(mterm=0*x ** 2, lterm=0*x ** 2)
c.set_rterm(u=1.)
c.set_uncertainty_values(p=np.array([.5, .9]))
c.setup()
w = c.opt_x(0)
w['_u', 1, 0] = 1.; w['_u', 2, 0] = 1.; w['_u', 2, 1] = 1.
w['_u', 0, 0] = 1.
f = ca.Function('f', [c.opt_x, c.opt_p], [c.nlp_obj])
w['_u', 1, 1] = 0.
a = float(f(w, 0))
# parents of u_2^{0,1} is u_1^0: only u_1^1 - u_0, u_2^{2,3} - u_1^1 and u_0 - u_prev contribute
print(a)
H = ca.Function('H', [c.opt_x, c.opt_p], [ca.hessian(c.nlp_obj, c.opt_x)[0]])(w, 0).full()
i, j = int(np.ravel(c.opt_x.f['_u', 2, 1, 'u'])[0]), int(np.ravel(c.opt_x.f['_u', 1, 0, 'u'])[0])
assert H[i, j] != 0
''')
mk('s13','P06',[('do_mpc/optimizer.py','''                    branch_offset[k][s] = s % n_branches[0]
''','''                    branch_offset[k][s] = s // self.n_combinations**(n_robust-1)
''')],'a robust horizon of two or more','after the robust horizon a scenario continues with the parameters of another branch',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=3, n_robust=2, t_step=1.)
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=1.)
c.set_uncertainty_values(p=np.array([.5, .9]))
c.setup()
J = ca.Function('J', [c.opt_x, c.opt_p], [ca.jacobian(c.nlp_cons, c.opt_x)])
P = c.opt_p(0); P['_p', 0] = .5; P['_p', 1] = .9
J = J(0, P).full()
got = []
for s in range(4):
    col = int(np.ravel(c.opt_x.f['_x', 2, s, -1, 'x'])[0])
    got.append(sorted(set(np.round(J[:, col][J[:, col] != 0], 6)) - {-1.0})[0])
print(got)
assert got == [.5, .9, .5, .9]
''')
mk('s14','P06',[('do_mpc/optimizer.py','''                a_i0 = afcn(ik_split[i, 0], uk, zk_split[i,0], tv_pk, pk, wk)
''','''                a_i0 = afcn(ik_split[i, 0], uk, zk_split[i,0] if n_z > 1 else zk_split[0,0], tv_pk, pk, wk)
''')],'a model with one algebraic state and more than one finite element per interval','the algebraic equation at the start of the second finite element is imposed on another variable',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', -z + u)
m.set_alg('e', z - x)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=2, t_step=.1, collocation_ni=2, collocation_deg=2)
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=1.)
c.setup()
J = ca.Function('J', [c.opt_x, c.opt_p], [ca.jacobian(c.nlp_cons, c.opt_x)])(0, 0).full()
for k in range(6):
    col = int(np.ravel(c.opt_x.f['_z', 0, 0, k, 'z'])[0])
    assert np.any(J[:, col] != 0), k
''')
mk('s15','P07',[('do_mpc/controller/_mpc.py','''        self.opt_p_num['_p'] = p0['_p']
''','''        if p0 is not self.__dict__.get('_p_last'):
            self.opt_p_num['_p'] = p0['_p']
            self._p_last = p0
''')],'a parameter function that changes and returns the same template in every step','later steps are solved with the parameters of an earlier step',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', 0.9 * x + p * u)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=3, t_step=1., nlpsol_opts={'ipopt.print_level': 0, 'print_time': 0})
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=.1)
T = c.get_p_template(1)
def f(t):
    T['_p', 0] = 1. + float(np.ravel(t)[0])
    return T
c.set_p_fun(f)
c.setup()
c.x0 = 1.
c.set_initial_guess()
c.make_step(np.array([[1.]]))
c.make_step(np.array([[1.]]))
print(c.opt_p_num['_p', 0])
assert float(c.opt_p_num['_p', 0]) == 2.
''')
mk('s16','P08',[('do_mpc/controller/_mpc.py','''        opt_x_scaling['_z'] = self._z_scaling
''','''        opt_x_scaling['_z', :, :, 0] = self._z_scaling
''')],'scaled and bounded algebraic states in a collocation problem','bounds of scaled algebraic states are wrong at inner collocation points',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', -z + u)
m.set_alg('e', z - x)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=2, t_step=.1)
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=1.)
c.scaling['_z', 'z'] = 10.
c.bounds['upper', '_z', 'z'] = 5.
c.setup()
b = np.array(c.ub_opt_x['_z', 0, 0, :, 'z']).ravel()
print(b)
assert np.allclose(b, .5)
''')
mk('s17','P09',[('do_mpc/estimator/_mhe.py','''            opt_p['_p_est_prev'],#/self._p_est_scaling
''','''            opt_p['_p_est_prev']/self._p_est_scaling,
''')],'estimated parameters with a scaling factor','the arrival cost compares the physical parameter estimate with a scaled previous estimate',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x, process_noise=True)
m.set_meas('y', x)
m.setup()
e = do_mpc.estimator.MHE(m, ['p'])
e.set_param(n_horizon=2, t_step=1., meas_from_data=True)
e.set_default_objective(np.eye(1), P_v=np.eye(1), P_p=np.eye(1), P_w=np.eye(1))
e.scaling['_p_est', 'p'] = 4.
e.setup()
f = ca.Function('f', [e.opt_x, e.opt_p], [e.nlp_obj])
X, P = e.opt_x(0), e.opt_p(0)
X['_p_est', 'p'] = 2.; P['_p_est_prev', 'p'] = 8.
print(f(X, P))
assert abs(float(f(X, P))) < 1e-12
''')
mk('s18','P09',[('do_mpc/estimator/_mhe.py','''            stage_cost += w.T@P_w@w
''','''            stage_cost += castools.dot(castools.diag(P_w), w**2)
''')],'a weighting matrix of the process noise with off-diagonal entries','correlations in the process noise weight are ignored',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x', (2, 1))
m.set_rhs('x', .5 * x, process_noise=True)
m.set_meas('y', x)
m.setup()
e = do_mpc.estimator.MHE(m)
e.set_param(n_horizon=2, t_step=1., meas_from_data=True)
e.set_default_objective(np.eye(2), P_v=np.eye(2), P_w=np.array([[2., 1.], [1., 3.]]))
e.setup()
v = float(e.stage_cost_fun([1., 1.], 0, 0, 0))
print(v)
assert abs(v - 7) < 1e-12
''')
mk('s19','P10',[('do_mpc/estimator/_mhe.py','''        self._p_est0.master = p_est_next
''','''        if self.solver_stats['success']:
            self._p_est0.master = p_est_next
''')],'a step in which the solver does not converge, with estimated parameters','the next step uses an outdated parameter estimate as previous estimate',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x ** 3 + .1, process_noise=True)
m.set_meas('y', x)
m.setup()
e = do_mpc.estimator.MHE(m, ['p'])
e.set_param(n_horizon=3, t_step=1., meas_from_data=True, nlpsol_opts={'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': 1})
e.set_default_objective(np.eye(1), P_v=10 * np.eye(1), P_p=.1 * np.eye(1), P_w=np.eye(1))
e.setup()
e.x0 = .5; e.p_est0 = .3
e.set_initial_guess()
e.make_step(np.array([[2.]]))
ok = e.solver_stats['success']
a = float(e.opt_x_num['_p_est', 'p'])
e.make_step(np.array([[1.]]))
print(ok, a, e.opt_p_num['_p_est_prev', 'p'])
assert not ok
assert a != .3 and abs(float(e.opt_p_num['_p_est_prev', 'p']) - a) < 1e-12
''')
mk('s20','P10',[('do_mpc/estimator/_mhe.py','''                n_steps = min(self.data._y.shape[0], self.settings.n_horizon)
''','''                n_steps = min(int(np.ravel(t_now)[0]/self.settings.t_step)+1, self.data._y.shape[0], self.settings.n_horizon)
''')],'an estimator whose clock does not start at zero or whose time is set by the user','the measurement window is shorter than the available history',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x')
m.set_rhs('x', .5 * x, process_noise=True)
m.set_meas('y', x)
m.setup()
e = do_mpc.estimator.MHE(m)
e.set_param(n_horizon=3, t_step=.1, meas_from_data=True, nlpsol_opts={'ipopt.print_level': 0, 'print_time': 0})
e.set_default_objective(np.eye(1), P_v=np.eye(1), P_w=np.eye(1))
e.setup()
e.t0 = -1.
e.x0 = .5
e.set_initial_guess()
for k in range(5):
    e.make_step(np.array([[float(k)]]))
w = np.array(e.opt_p_num['_y_meas']).ravel()
print(w)
assert np.allclose(w, [2, 3, 4])
''')
mk('s21','P11',[('do_mpc/controller/_lqr.py','''temp_p@B@np.linalg.inv(np.transpose(B)@temp_p@B+self.R)@np.transpose(B)@temp_p@A
                 temp_p''','''temp_p@B@np.linalg.inv(np.transpose(B)@temp_p@B+np.diag(np.diag(self.R)))@np.transpose(B)@temp_p@A
                 temp_p''')],'a finite horizon and an input weight that couples inputs','the recursion of the finite horizon gain drops the coupling of the inputs',
'''
import numpy as np, do_mpc
m = do_mpc.model.LinearModel('discrete')
m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u', (2, 1))
A, B = np.array([[1., .1], [0., 1.]]), np.array([[0., .3], [.1, .2]])
m.setup(A, B)
c = do_mpc.controller.LQR(m)
c.set_param(n_horizon=3, t_step=.1)
Q, R = np.eye(2), np.array([[2., .9], [.9, 1.]])
c.set_objective(Q=Q, R=R, P=2 * Q)
c.setup()
P = 2 * Q
for k in range(3):
    K = -np.linalg.solve(B.T @ P @ B + R, B.T @ P @ A)
    P = Q + A.T @ P @ A + A.T @ P @ B @ K
print(c.K, K)
assert np.allclose(c.K, K)
''')
mk('s22','P12',[('do_mpc/data.py','''            if ind in self.result_queries['ind']:
                i = self.result_queries['ind'].index(ind)
''','''            if ind[1:] in self.result_queries['ind']:
                i = self.result_queries['ind'].index(ind[1:])
'''),('do_mpc/data.py','''                self.result_queries['ind'].append(ind)
''','''                self.result_queries['ind'].append(ind[1:])
''')],'variables of different type with the same name and different position','a query returns the column that belongs to the variable of another type',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
a = m.set_variable('_x', 'a'); b = m.set_variable('_x', 'b'); c = m.set_variable('_u', 'c'); ub = m.set_variable('_u', 'b')
w = m.set_variable('_u', 'd')
m.set_rhs('a', .5 * a + c); m.set_rhs('b', .5 * b + ub)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1.)
s.setup()
s.x0 = np.array([1., 2.])
s.make_step(np.array([[1.], [2.], [3.]]))
m2 = do_mpc.model.Model('discrete')
x = m2.set_variable('_x', 'q'); y = m2.set_variable('_x', 'v'); u = m2.set_variable('_u', 'v')
m2.set_rhs('q', .5 * x); m2.set_rhs('v', .5 * y + u)
m2.setup()
s = do_mpc.simulator.Simulator(m2)
s.set_param(t_step=1.)
s.setup()
s.x0 = np.array([1., 2.])
s.make_step(np.array([[7.]]))
xv, uv = s.data['_u', 'v'], None
xv2 = s.data['_x', 'v']
print(xv, xv2)
assert np.allclose(xv, 7) and np.allclose(xv2, 2)
''')
mk('s23','P12',[('do_mpc/data.py','''            if ind in self.prediction_queries['ind']:
                i = self.prediction_queries['ind'].index(ind)
                f_ind = self.prediction_queries['f_ind'][i]
            else:
                f_ind = self.opt_aux.f''','''            if ind[:2] in self.prediction_queries['ind']:
                i = self.prediction_queries['ind'].index(ind[:2])
                f_ind = self.prediction_queries['f_ind'][i]
            else:
                f_ind = self.opt_aux.f''')],'vector valued auxiliary expressions: the whole expression queried before one of its entries','the prediction of one entry of an auxiliary expression returns all entries',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_expression('e', ca.vertcat(x, 2 * x))
m.set_rhs('x', .5 * x + u)
m.setup()
c = do_mpc.controller.MPC(m)
c.set_param(n_horizon=3, t_step=1., store_full_solution=True, nlpsol_opts={'ipopt.print_level': 0, 'print_time': 0})
c.set_objective(mterm=x ** 2, lterm=x ** 2)
c.set_rterm(u=.1)
c.setup()
c.x0 = 1.
c.set_initial_guess()
c.make_step(np.array([[1.]]))
a = c.data.prediction(('_aux', 'e'))
b = c.data.prediction(('_aux', 'e', 1))
print(a.shape, b.shape)
assert b.shape[0] == 1 and np.allclose(b[0], a[1])
''')
mk('s24','P13',[('do_mpc/data.py','''            ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
            ind += 1
''','''            ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
            overwrite = ind >= 9
            ind += 1
''')],'more than nine results saved under one name','the tenth and every later result overwrites an earlier one',
'''
import numpy as np, do_mpc, tempfile, os
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x')
m.set_rhs('x', .5 * x)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1.)
s.setup()
s.x0 = 1.
with tempfile.TemporaryDirectory() as d:
    for k in range(12):
        s.make_step()
        do_mpc.data.save_results([s], 'r', d + '/')
    n = sorted(do_mpc.data.load_results(os.path.join(d, f))['simulator']['_x'].shape[0] for f in os.listdir(d))
print(n)
assert n == list(range(1, 13))
''')
mk('s25','P14',[('do_mpc/sampling/_samplingplanner.py','''        temp_dic['id'] = str(id).zfill(self.id_precision)
''','''        temp_dic['id'] = str(id).zfill(self.id_precision)[-self.id_precision:]
''')],'more cases than the id precision can number','ids are cut to the configured precision and repeat',
'''
import do_mpc, tempfile
with tempfile.TemporaryDirectory() as d:
    p = do_mpc.sampling.SamplingPlanner(id_precision=1)
    p.data_dir = d + '/'
    p.set_sampling_var('a')
    for k in range(15):
        p.add_sampling_case(a=k)
    ids = [c['id'] for c in p.sampling_plan]
print(ids)
assert len(set(ids)) == 15
''')
mk('s26','P14',[('do_mpc/sampling/_samplingplanner.py','''            if var['name'] not in kwargs.keys():
''','''            if var['name'] not in kwargs.keys() or (kwargs[var['name']] is None and var['fun_var_pdf'] is not None):
''')],'a requested value None of a variable that also has a generating function','an explicitly requested value None is replaced by a generated one',
'''
import do_mpc, tempfile
with tempfile.TemporaryDirectory() as d:
    p = do_mpc.sampling.SamplingPlanner()
    p.data_dir = d + '/'
    p.set_sampling_var('a', lambda: 5)
    p.product(a=[1, None, 2])
print(p.sampling_plan)
assert [c['a'] for c in p.sampling_plan] == [1, None, 2]
''')
mk('s27','P15',[('do_mpc/sampling/_sampler.py','''        self._data_dir = val
        pathlib''','''        self._data_dir = val
        self.completion_list = [] if not hasattr(self, 'completion_list') else self.completion_list
        pathlib'''),('do_mpc/sampling/_sampler.py','''            result = self.sample_function(**sample_i)
''','''            if sample_id in self.completion_list:
                return
            result = self.sample_function(**sample_i)
''')],'a result file that disappears, or overwrite, in the same sampler object','a sample that has been completed before is not produced again although its file is missing',
'''
import do_mpc, tempfile, os
with tempfile.TemporaryDirectory() as d:
    s = do_mpc.sampling.Sampler([{'a': k, 'id': '%03d' % k} for k in range(3)], overwrite=False, print_progress=False)
    s.data_dir = d + '/'
    s.set_sample_function(lambda a: a)
    s.sample_data()
    os.remove(d + '/sample_001.pkl')
    s.sample_data()
    n = len(os.listdir(d))
print(n)
assert n == 3
''')
mk('s28','P16',[('do_mpc/sampling/_datahandler.py','''                        result_processed[key] = self.post_processing[key]['function'](sample, result)
''','''                        result_processed[key] = self.post_processing[key]['function'](result_processed, result)
''')],'two post-processing functions, the first with the name of a sampling variable that the second one reads','a post-processing function receives a case whose values were replaced by an earlier post-processing result',
'''
import do_mpc, tempfile
with tempfile.TemporaryDirectory() as d:
    plan = [{'a': k, 'id': '%03d' % k} for k in range(3)]
    s = do_mpc.sampling.Sampler(plan, print_progress=False)
    s.data_dir = d + '/'
    s.set_sample_function(lambda a: 10 * a)
    s.sample_data()
    h = do_mpc.sampling.DataHandler(plan)
    h.data_dir = d + '/'
    h.set_post_processing('a', lambda r: r)
    h.set_post_processing('b', lambda c, r: c['a'] + r)
    out = [q['b'] for q in h[:]]
print(out)
assert out == [0, 11, 22]
''')
mk('s29','P17',[('do_mpc/differentiator/_nlpdifferentiator.py','''        idx_lam_determined = np.hstack([np.arange(0,self.n_g,dtype=np.int64),idx_x_determined+self.n_g])
''','''        idx_lam_determined = np.arange(0,self.n_g+self.n_x,dtype=np.int64)
''')],'a problem with an unused variable in front of a variable whose bound is active','the sensitivities of bound multipliers are returned in the rows of other variables',
'''
import numpy as np, casadi as ca, do_mpc
from do_mpc.differentiator import NLPDifferentiator
x, p = ca.SX.sym('x', 3), ca.SX.sym('p', 1)
nlp = {'x': x, 'p': p, 'f': (x[1] - p[0]) ** 2 + (x[2] - p[0] ** 2) ** 2, 'g': x[1] + x[2]}
b = {'lbg': ca.DM([-100]), 'ubg': ca.DM([100]), 'lbx': ca.DM([0, 3, -50]), 'ubx': ca.DM([1, 50, 50])}
S = ca.nlpsol('S', 'ipopt', nlp, {'ipopt.print_level': 0, 'print_time': 0})
r = S(p=1., x0=[0, 4, 1], **b)
d = NLPDifferentiator(nlp, b)
dx, dl = d.differentiate(r, ca.DM([1.]))
dl = np.array(dl.toarray() if hasattr(dl, 'toarray') else dl).ravel()
print(dl)
assert abs(dl[2] - 2) < 1e-5 and abs(dl[1]) < 1e-12
''')
mk('s30','P18',[('do_mpc/sysid/_onnxconversion.py','''            node_values[n.output[0]] = out
''','''            node_values.setdefault(n.name or n.output[0], out)
            node_values[n.output[0]] = node_values[n.name or n.output[0]]
''')],'nodes that share one name','the value of a node is replaced by the value of an earlier node with the same name',
'''
import numpy as np, casadi as ca, onnx
from onnx import helper as h, TensorProto as T
import do_mpc
n = [h.make_node('Tanh', ['x'], ['a'], name='act'), h.make_node('Relu', ['x'], ['y'], name='act')]
g = h.make_graph(n, 'g', [h.make_tensor_value_info('x', T.FLOAT, [1, 2])], [h.make_tensor_value_info('y', T.FLOAT, [1, 2])])
c = do_mpc.sysid.ONNXConversion(h.make_model(g))
c.convert(x=ca.DM([[1., -2.]]))
y = np.array(c['y']).ravel()
print(y)
assert np.allclose(y, [1, 0])
''')
mk('s31','P18',[('do_mpc/sysid/_onnxconversion.py','''    def Sum(self,*args, attribute = None):
        return  self.Add(*args)
''','''    def Sum(self,*args, attribute = None):
        return  self.Add(*args[:2]) if len(args) > 1 else args[0]
''')],'Sum with three or more inputs','all but the first two inputs of Sum are ignored',
'''
import numpy as np, casadi as ca, onnx
from onnx import helper as h, TensorProto as T
import do_mpc
n = [h.make_node('Tanh', ['x'], ['a']), h.make_node('Relu', ['x'], ['b']), h.make_node('Sum', ['x', 'a', 'b'], ['y'])]
g = h.make_graph(n, 'g', [h.make_tensor_value_info('x', T.FLOAT, [1, 2])], [h.make_tensor_value_info('y', T.FLOAT, [1, 2])])
c = do_mpc.sysid.ONNXConversion(h.make_model(g))
v = np.array([[1., -2.]])
c.convert(x=ca.DM(v))
y = np.array(c['y']).ravel()
print(y)
assert np.allclose(y, (v + np.tanh(v) + np.maximum(v, 0)).ravel())
''')
mk('s32','P19',[('do_mpc/opcua/_helper.py','''        return [entry.get_node_id(self._namespace_index) for entry in self.entry_list if entry.objectnode == nodename]
''','''        return sorted(entry.get_node_id(self._namespace_index) for entry in self.entry_list if entry.objectnode == nodename)
''')],'variables that are not declared in alphabetical order, or more than ten entries','the tags of a variable type are in another order than the entries of the vector',
'''
import numpy as np, do_mpc
from do_mpc.opcua import Namespace, NamespaceEntry
n = Namespace('n', [NamespaceEntry('x', '[b,0]'), NamespaceEntry('x', '[a,0]'), NamespaceEntry('u', '[u,0]')], 2)
print(n['x'])
assert n['x'] == ['ns=2;s=[b,0]', 'ns=2;s=[a,0]']
''')
mk('s33','P20',[('do_mpc/graphics.py','''            if t_ind == -1:
''','''            if t_ind < 0:
''')],'a negative index other than -1','results after the requested index are plotted',
'''
import numpy as np, do_mpc, matplotlib.pyplot as plt
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x')
m.set_rhs('x', .5 * x)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1.)
s.setup()
s.x0 = 1.
for k in range(5):
    s.make_step()
g = do_mpc.graphics.Graphics(s.data)
fig, ax = plt.subplots()
g.add_line('_x', 'x', ax)
g.plot_results(-3)
n = len(g.result_lines['_x', 'x'][0].get_xdata())
print(n)
assert n == 3
''')
mk('s34','P20',[('do_mpc/tools/_structure.py','''                    if ind_i not in self.features[i]:
                        self.features[i].append(ind_i)
''','''                    if ind_i not in self.features[i]:
                        self.features[i].append(ind_i)
                        self.features[i].sort(key=str)
''')],'line containers sliced along an index that was not filled in alphabetical order','slices of the line container return the lines in another order than they were added',
'''
from do_mpc.tools import Structure
s = Structure()
for n in ('b', 'a', 'c'):
    s['_x', n] = [n]
print(s['_x', :])
assert s['_x', :] == [['b'], ['a'], ['c']]
''')
mk('s35','P21',[('do_mpc/simulator.py','''        assert self.get_tvp_template().labels() == tvp_fun(0).labels(), 'Incorrect output of tvp_fun. Use get_tvp_template to obtain the required structure.'
''','''        assert len(self.get_tvp_template().labels()) == len(tvp_fun(0).labels()), 'Incorrect output of tvp_fun. Use get_tvp_template to obtain the required structure.'
''')],'a function that returns a template of another model of the same size','time-varying parameters of another structure are accepted and assigned by position',
'''
import numpy as np, do_mpc
def model(names):
    m = do_mpc.model.Model('discrete')
    x = m.set_variable('_x', 'x')
    t = [m.set_variable('_tvp', n) for n in names]
    m.set_rhs('x', .5 * x + t[0])
    m.setup()
    return m
s = do_mpc.simulator.Simulator(model(['a', 'b']))
T = do_mpc.simulator.Simulator(model(['b', 'a'])).get_tvp_template()
try:
    s.set_tvp_fun(lambda t: T)
except AssertionError:
    raise SystemExit(0)
raise SystemExit(1)
''')
mk('s36','P22',[('do_mpc/simulator.py','''        return self.model._tvp(0)
''','''        if not hasattr(self.model, '_tvp_template'):
            self.model._tvp_template = self.model._tvp(0)
        return self.model._tvp_template
''')],'two simulators of one model, or two templates','the templates of two simulators of one model are one object, so one overwrites the other',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); q = m.set_variable('_tvp', 'q')
m.set_rhs('x', .5 * x + q)
m.setup()
sims = []
for v in (1., 2.):
    s = do_mpc.simulator.Simulator(m)
    s.set_param(t_step=1.)
    T = s.get_tvp_template()
    T['q'] = v
    s.set_tvp_fun(lambda t, T=T: T)
    s.setup()
    s.x0 = 0.
    sims.append(s)
y = [float(s.make_step()) for s in sims]
print(y)
assert np.allclose(y, [1, 2])
''')
mk('s37','P22',[('do_mpc/data.py','''        self.model = model.__dict__.copy()
''','''        self.model = model.__dict__
'''),('do_mpc/data.py','''        self.model.pop('_rhs')
        self.model.pop('_aux_expression')
        self.model.pop('_y_expression')
        self.model.pop('_alg')
        self.model.pop('sv')
''','''        self.model = {key: val for key, val in self.model.items() if key not in ('_rhs', '_aux_expression', '_y_expression', '_alg', 'sv')}
        model.__dict__.setdefault('_queries', {'ind':[], 'f_ind':[]})
'''),('do_mpc/data.py','''        self.result_queries = {'ind':[], 'f_ind':[]}
''','''        self.result_queries = model._queries
''')],'two data objects of one model, the second with a field of the same name','(query cache shared between data objects of a model)',
'''
raise SystemExit(0)
''') if 0 else None
