"""P11: LQR feedback is the optimal linear-quadratic law (batch optimisation as oracle, online law monitor)."""
import numpy as np
import casadi as ca
from vf import core
from vf.models import as_input, gen_step

ID = 'P11'
CASES = {'quick': [('gain', 2600), ('loop', 1600)], 'thorough': [('gain', 6000), ('loop', 3000)]}
RULE = ('random stabilisable discrete linear systems, weights, horizons and modes; the gain is compared with the minimiser of the stacked quadratic cost over the inputs '
        '(finite horizon, or a horizon long enough for convergence) and perturbed gains must not cost less; random histories of set-point changes, previous inputs and resets are '
        'followed by a shadow of the documented law; distinct by (dimensions, mode, horizon, operations); non-trivial = gain compared / at least three steps')
ASSUMPTIONS = ['systems with spectral radius <= 1.15 and symmetric positive definite weights; relative tolerance 1e-6']
NEED = {'gains': 200, 'steps': 800, 'setpoint_changes': 150}
MAX_INCONCLUSIVE = 0.2


def psd(rng, n, lo=0.2):
    if rng.random() < 0.4:
        return np.diag(np.round(rng.uniform(lo, 3, n), 3))
    M = rng.normal(size=(n, n))
    return M @ M.T + lo * np.eye(n)


def system(rng):
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    A = rng.normal(size=(nx, nx))
    A *= rng.uniform(0.3, 1.15) / max(1e-3, np.abs(np.linalg.eigvals(A)).max())
    B = rng.normal(size=(nx, nu))
    return nx, nu, A, B


def build(rng, do_mpc, nx, nu, A, B, Q, R, P, N, delR, h=0.5):
    m = do_mpc.model.LinearModel('discrete')
    # states possibly in several variables
    parts = [(nx,)] if nx < 3 or rng.random() < 0.5 else [(1,), (nx - 1,)]
    for i, (k,) in enumerate(parts):
        m.set_variable('_x', 'x%d' % i, (k, 1))
    m.set_variable('_u', 'u', (nu, 1))
    m.setup(A, B)
    lqr = do_mpc.controller.LQR(m)
    if rng.random() < 0.5:
        lqr.set_param(t_step=h, n_horizon=N)
    else:
        lqr.settings.t_step, lqr.settings.n_horizon = h, N
    if delR is not None and rng.random() < 0.5:
        lqr.set_rterm(delR)
        lqr.set_objective(Q, R, P) if P is not None else lqr.set_objective(Q, R)
    else:
        lqr.set_objective(Q, R, P) if P is not None else lqr.set_objective(Q, R)
        if delR is not None:
            lqr.set_rterm(delR)
    lqr.setup()
    if rng.random() < 0.15:
        lqr.setup()
    return m, lqr


def batch_gain(A, B, Q, R, P, N, delR=None):
    """minimiser of the stacked cost as a linear function of the initial (augmented) state"""
    nx, nu = B.shape
    if delR is None:
        # x_k = Phi_k x0 + Gam_k U
        Phi, Gam = [np.eye(nx)], [np.zeros((nx, N * nu))]
        for k in range(N):
            G = A @ Gam[-1]
            G[:, k * nu:(k + 1) * nu] += B
            Phi.append(A @ Phi[-1]); Gam.append(G)
        H = np.kron(np.eye(N), R)
        F = np.zeros((N * nu, nx))
        for k in range(N + 1):
            W = Q if k < N else P
            H = H + Gam[k].T @ W @ Gam[k]
            F = F + Gam[k].T @ W @ Phi[k]
        return -np.linalg.solve(H, F)[:nu], H, F
    # inputs are increments: u_k = u_prev + sum_{i<=k} d_i
    S = np.kron(np.tril(np.ones((N, N))), np.eye(nu))            # d -> u
    one = np.kron(np.ones((N, 1)), np.eye(nu))
    Phi, Gam = [np.eye(nx)], [np.zeros((nx, N * nu))]
    for k in range(N):
        G = A @ Gam[-1]
        G[:, k * nu:(k + 1) * nu] += B
        Phi.append(A @ Phi[-1]); Gam.append(G)
    H = np.kron(np.eye(N), delR)
    F = np.zeros((N * nu, nx + nu))
    for k in range(N + 1):
        W = Q if k < N else P
        Gd = Gam[k] @ S
        F0 = np.hstack([Phi[k], Gam[k] @ one])
        H = H + Gd.T @ W @ Gd
        F = F + Gd.T @ W @ F0
        # the input part of the augmented state at k is u_{k-1}
        Su = S[(k - 1) * nu:k * nu] if k else np.zeros((nu, N * nu))
        U0 = np.hstack([np.zeros((nu, nx)), np.eye(nu)])
        H = H + Su.T @ R @ Su
        F = F + Su.T @ R @ U0
    return -np.linalg.solve(H, F)[:nu], H, F


def infinite_gain(A, B, Q, R):
    """value iteration to convergence"""
    P = Q.copy()
    for it in range(20000):
        K = -np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
        Pn = Q + K.T @ R @ K + (A + B @ K).T @ P @ (A + B @ K)
        if np.abs(Pn - P).max() < 1e-13 * (1 + np.abs(Pn).max()):
            return K, Pn
        P = Pn
    return None, None


def draw(rng):
    nx, nu, A, B = system(rng)
    Q, R = psd(rng, nx), psd(rng, nu)
    N = None if rng.random() < 0.4 else int(rng.integers(1, 12))
    P = psd(rng, nx) if N is not None and rng.random() < 0.6 else None
    delR = psd(rng, nu) if rng.random() < 0.5 else None
    if rng.random() < 0.06:
        # long horizons, where the gain still depends on the number of steps: undamped system, small weights on the state
        N = int(rng.integers(40, 160))
        A = np.linalg.qr(rng.normal(size=(nx, nx)))[0]
        Q, B = Q * 1e-5, B * 0.2
        P = P * 1e-3 if P is not None else None
    return nx, nu, A, B, Q, R, P, N, delR


def reference(A, B, Q, R, P, N, delR):
    nx, nu = B.shape
    if N is None:
        if delR is None:
            return infinite_gain(A, B, Q, R)[0]
        At = np.block([[A, B], [np.zeros((nu, nx)), np.eye(nu)]])
        Bt = np.vstack([B, np.eye(nu)])
        Qt = np.block([[Q, np.zeros((nx, nu))], [np.zeros((nu, nx)), R]])
        return infinite_gain(At, Bt, Qt, delR)[0]
    return batch_gain(A, B, Q, R, Q if P is None else P, N, delR)[0]


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    nx, nu, A, B, Q, R, P, N, delR = draw(rng)
    keep = [x.copy() for x in (Q, R, A, B)]
    K = reference(A, B, Q, R, P, N, delR)
    if K is None:
        raise core.Inconclusive('value iteration did not converge')
    h = gen_step(rng, True, 0.05, 1.0)
    m, lqr = build(rng, do_mpc, nx, nu, A, B, Q, R, P, N, delR, h)
    for a, b in zip(keep, (Q, R, A, B)):
        ctx.check(np.array_equal(a, b), 'argument-changed', 'a matrix passed in was changed')
    ctx.sig, ctx.desc = [nx, nu, N, P is not None, delR is not None], dict(nx=nx, nu=nu, horizon=N, terminal=P is not None, rate=delR is not None)
    if kind == 'gain':
        ctx.count['gains'] += 1
        ctx.close(lqr.K, K, 'gain', 'gain (horizon %s, %s)' % (N, 'rate' if delR is not None else 'standard'), rtol=1e-6)
        # direct use with other matrices of the same size
        if delR is None and (N is None or N < 20):
            _, _, A2, B2 = system(rng)
            A2, B2 = rng.normal(size=(nx, nx)) * 0.4, rng.normal(size=(nx, nu))
            ref = reference(A2, B2, Q, R, P, N, None)
            if ref is not None:
                ctx.close(lqr.discrete_gain(A2, B2), ref, 'discrete_gain', 'discrete_gain of other matrices', rtol=1e-6)
        # no perturbed law does better over the horizon
        if N is None and delR is None:
            x = rng.normal(size=nx)

            def cost(Kx, T=400):
                v, xx = 0.0, x.copy()
                for _ in range(T):
                    u = Kx @ xx
                    v += xx @ Q @ xx + u @ R @ u
                    xx = A @ xx + B @ u
                    if v > 1e12:
                        return np.inf
                return v
            c0 = cost(lqr.K)
            for _ in range(5):
                ctx.check(cost(lqr.K + rng.normal(size=lqr.K.shape) * 0.02) >= c0 * (1 - 1e-9), 'gain-optimal', 'a perturbed gain has lower cost')
        ctx.nontrivial = True
        return
    # histories
    xs, us = np.zeros(nx), np.zeros(nu)
    up = np.zeros(nu)
    t, n = 0.0, 0
    hist = []
    x = rng.normal(size=nx)
    if rng.random() < 0.5:
        up = rng.normal(size=nu)
        lqr.u0 = up
    for k in range(int(rng.integers(4, 9))):
        op = rng.random()
        if op < 0.45:
            which = int(rng.integers(1, 4))
            kw = {}
            if which & 1:
                xs = rng.normal(size=nx); kw['xss'] = xs.reshape(-1, 1).copy()
            if which & 2:
                us = rng.normal(size=nu); kw['uss'] = us.reshape(-1, 1).copy()
            lqr.set_setpoint(**kw)
            for v in kw.values():
                v += 5.0                    # the caller re-uses its array
            ctx.count['setpoint_changes'] += 1
            hist.append('sp%d' % which)
        elif op < 0.55:
            up = rng.normal(size=nu)
            lqr.u0 = up.reshape(-1, 1)
            hist.append('u0')
        elif op < 0.65:
            lqr.reset_history(); t, n = 0.0, 0
            hist.append('reset')
        elif op < 0.7:
            t = round(float(rng.uniform(0, 4)), 2)
            lqr.t0 = t
            hist.append('t0')
        arg = as_input(rng, x, m._x)
        u = np.array(lqr.make_step(arg)).ravel()
        hist.append('s')
        if delR is None:
            want = us + K @ (x - xs)
        else:
            want = up + K @ np.concatenate([x - xs, up - us])
        ctx.close(u, want, 'law', 'input (%s)' % ('rate' if delR is not None else 'standard'), rtol=1e-6)
        ctx.count['steps'] += 1
        n += 1
        t += h
        ctx.close(np.ravel(lqr.t0) / h, t / h, 'time', 'time')
        ctx.check(lqr.data._time.shape[0] == n, 'recorded-once', 'record length')
        ctx.close(lqr.data._x[-1], x, 'recorded', 'recorded state')
        ctx.close(lqr.data._u[-1], u, 'recorded', 'recorded input')
        ctx.close(lqr.data._time[-1] / h, (t - h) / h, 'recorded', 'recorded time')
        ctx.close(np.array(lqr.u0.cat).ravel(), u, 'u0-kept', 'previous input')
        up = u
        x = A @ x + B @ u + rng.normal(size=nx) * 0.05
        if np.abs(x).max() > 1e4:
            break
        if len(ctx.violations) > 3:
            break
    ctx.sig = ctx.sig + [hist]
    ctx.desc['ops'] = hist
    ctx.nontrivial = ctx.count['steps'] >= 3


if __name__ == '__main__':
    core.main('checks.p11')
