import sys; sys.path.insert(0,'/verif/tools')
from mkbug import mk
mk('s01','P07',[('do_mpc/controller/_mpc.py',
'''        self._u0.master = castools.DM(u0)
        self._z0.master''','''        if self.solver_stats['success'] or not self._u0.cat.is_zero():
            self._u0.master = castools.DM(u0)
        self._z0.master''')],
 'the solver must fail while the previously returned input is zero (first step of a loop)','the input returned by a step is not the previous input of the next step, so the rate penalty refers to an older input',
'''
import numpy as np, do_mpc, sys, time
time.sleep = lambda s: None
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', 0.9 * x + u)
m.setup()
def mpc(maxit):
    c = do_mpc.controller.MPC(m)
    c.set_param(n_horizon=4, t_step=1.0, nlpsol_opts={'ipopt.print_level': 0, 'print_time': 0, 'ipopt.max_iter': maxit})
    c.set_objective(mterm=(x - 3) ** 4, lterm=(x - 3) ** 4)
    c.set_rterm(u=2.0)
    c.setup()
    c.x0 = 0.
    c.set_initial_guess()
    return c
c = mpc(2)                       # stops before convergence
u1 = c.make_step(np.array([[0.]]))
ok = c.solver_stats['success']
c.make_step(np.array([[1.]]))
prev = float(c.opt_p_num['_u_prev'])
print(ok, u1, prev)
assert not ok
assert abs(prev - float(u1)) < 1e-12, 'previous input lost'
''')
mk('s02','P02',[('do_mpc/model/_model.py','''        if isinstance(z, type(None)):
            z = self.z
        if isinstance(tvp, type(None)):
            tvp = self.tvp
''','''        if isinstance(z, type(None)):
            z = self.z if isinstance(xss, castools.SX) else self.z(0)
        if isinstance(tvp, type(None)):
            tvp = self.tvp
''')],'model with algebraic states entering the right-hand side nonlinearly; matrices requested without the argument z','matrices returned for an operating point are Jacobians at z=0 instead of expressions in z',
'''
import numpy as np, do_mpc, casadi as ca
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', -x * z ** 2 + u)
m.set_alg('e', z - x - 1)
m.setup()
A, B, C, D = m.get_linear_system_matrices(np.array([[2.]]), np.array([[0.]]))
F = ca.Function('F', [m.z], [ca.SX(A) if not isinstance(A, ca.SX) else A])
print(A, F(3.))
assert abs(float(F(3.)) + 9) < 1e-12
''')
mk('s03','P04',[('do_mpc/simulator.py','''        self.sim_p_num['_w'] = w0
''','''        if not castools.DM(w0).is_zero() or self.flags['first_step']:
            self.sim_p_num['_w'] = w0
''')],'a step with process noise followed by a step without noise','the noise of an earlier step stays active in later noise-free steps',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('discrete')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', 0.5 * x + u, process_noise=True)
m.setup()
s = do_mpc.simulator.Simulator(m)
s.set_param(t_step=1.0)
s.setup()
s.x0 = np.array([[1.]])
u0 = np.zeros((1, 1))
s.make_step(u0)
s.make_step(u0, w0=np.array([[2.]]))
y = s.make_step(u0)
print(y)
assert abs(float(y) - 0.5 * (0.5 * 0.5 + 2)) < 1e-9
''')
mk('s04','P03',[('do_mpc/model/_dae2odeconversion.py','''        daeModel.set_variable('_x',model.z.keys()[key+1],model.z[model.z.keys()[key+1]].size())
''','''        daeModel.set_variable('_x',sorted(model.z.keys()[1:])[key],model.z[sorted(model.z.keys()[1:])[key]].size())
''')],'at least two algebraic variables of different size whose names are not declared in alphabetical order','the order of the states of the converted model differs from the documented (x, u, z) order of the original model',
'''
import numpy as np, do_mpc
m = do_mpc.model.Model('continuous')
x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
b = m.set_variable('_z', 'b', (2, 1)); a = m.set_variable('_z', 'a')
m.set_rhs('x', -x + u + a)
m.set_alg('e1', b - 2 * x)
m.set_alg('e2', a - 3 * x)
m.setup()
d = do_mpc.model.dae2odeconversion(m)
r = d._rhs_fun(np.array([1., 0, 2, 2, 3]), np.zeros(1), [], [], [], 0).full().ravel()
print(r)
assert np.allclose(r, [2, 0, 4, 4, 6])
''')
