"""Random model specifications with two independent interpretations: a do-mpc model and plain numpy functions."""
import numpy as np
from vf.core import Inconclusive

OPS1 = ['id', 'sin', 'tanh', 'sq', 'cos', 'rat', 'gauss']
OPS2 = ['prod', 'tprod', 'sprod']


class NP:
    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    tanh = staticmethod(np.tanh)
    exp = staticmethod(np.exp)


def evalterms(terms, get, L):
    """terms: list of (coef, op, refs); get(ref) -> scalar."""
    s = 0.0
    for c, op, refs in terms:
        v = [get(r) for r in refs]
        if op == 'const':
            t = 1.0
        elif op == 'id':
            t = v[0]
        elif op == 'sin':
            t = L.sin(v[0])
        elif op == 'cos':
            t = L.cos(v[0])
        elif op == 'tanh':
            t = L.tanh(v[0])
        elif op == 'sq':
            t = v[0] * v[0]
        elif op == 'rat':
            t = v[0] / (1.0 + v[0] * v[0])
        elif op == 'gauss':
            t = L.exp(-v[0] * v[0])
        elif op == 'prod':
            t = v[0] * v[1]
        elif op == 'tprod':
            t = L.tanh(v[0]) * v[1]
        elif op == 'sprod':
            t = L.sin(v[0] + v[1])
        else:
            raise KeyError(op)
        s = s + c * t
    return s


def _size(shape):
    return int(np.prod(shape))


class Spec:
    """vars: {'_x': [(name, shape)], ...}; rhs {name: [terms]}, alg [(name, [terms])], meas [(name,[terms],noise)],
    aux [(name,[terms])], wn: names of states with process noise in set_rhs call order."""

    def __init__(self):
        self.vars = {'_x': [], '_u': [], '_z': [], '_tvp': [], '_p': []}
        self.rhs, self.alg, self.meas, self.aux = {}, [], [], []
        self.noise = set()
        self.rhs_order = []
        self.mtype = 'continuous'
        self.sym = 'SX'

    def shape(self, t, name):
        return dict(self.vars[t])[name]

    def refs(self, *types):
        out = []
        for t in types:
            for name, shp in self.vars[t]:
                for i in range(_size(shp)):
                    out.append((t, name, i))
        return out

    def n(self, t):
        return len(self.refs(t))

    def index(self):
        if not hasattr(self, '_index'):
            self._index = {}
            for t in self.vars:
                for i, r in enumerate(self.refs(t)):
                    self._index[r] = i
        return self._index

    # ---- numpy interpretation ------------------------------------------------------------
    def getter(self, x, u, z, tvp, p):
        vals = {'_x': np.asarray(x, float).ravel(), '_u': np.asarray(u, float).ravel(), '_z': np.asarray(z, float).ravel(),
                '_tvp': np.asarray(tvp, float).ravel(), '_p': np.asarray(p, float).ravel()}
        ix = self.index()
        return lambda r: vals[r[0]][ix[r]]

    def w_names(self):
        return [n for n in self.rhs_order if n in self.noise]

    def n_w(self):
        return sum(_size(self.shape('_x', n)) for n in self.w_names())

    def n_v(self):
        return sum(len(t) for _, t, nz in self.meas_eff() if nz)

    def meas_eff(self):
        if self.meas:
            return self.meas
        return [(n, [[(1.0, 'id', [('_x', n, i)])] for i in range(_size(s))], True) for n, s in self.vars['_x']]

    def f_rhs(self, x, u, z, tvp, p, w=None):
        g = self.getter(x, u, z, tvp, p)
        wmap = {}
        if w is not None:
            w = np.asarray(w, float).ravel()
            off = 0
            for n in self.w_names():
                k = _size(self.shape('_x', n))
                wmap[n] = w[off:off + k]
                off += k
        out = []
        for n, s in self.vars['_x']:
            for i in range(_size(s)):
                v = evalterms(self.rhs[n][i], g, NP)
                if n in wmap:
                    v = v + wmap[n][i]
                out.append(v)
        return np.array(out, float)

    def f_alg(self, x, u, z, tvp, p):
        g = self.getter(x, u, z, tvp, p)
        return np.array([evalterms(t, g, NP) for _, ts in self.alg for t in ts], float)

    def f_meas(self, x, u, z, tvp, p, v=None):
        g = self.getter(x, u, z, tvp, p)
        out, off = [], 0
        vv = None if v is None else np.asarray(v, float).ravel()
        for _, ts, nz in self.meas_eff():
            for t in ts:
                val = evalterms(t, g, NP)
                if nz:
                    if vv is not None:
                        val = val + vv[off]
                    off += 1
                out.append(val)
        return np.array(out, float)

    def f_aux(self, x, u, z, tvp, p):
        """without the leading default 0."""
        g = self.getter(x, u, z, tvp, p)
        return np.array([evalterms(t, g, NP) for _, ts in self.aux for t in ts], float)

    def f_terms(self, terms, x, u, z, tvp, p):
        return evalterms(terms, self.getter(x, u, z, tvp, p), NP)

    def solve_z(self, x, u, tvp, p, z0=None):
        if self.n('_z') == 0:
            return np.zeros(0)
        z = np.zeros(self.n('_z')) if z0 is None else np.array(z0, float).ravel()
        n = z.size
        for it in range(100):
            r = self.f_alg(x, u, z, tvp, p)
            if np.max(np.abs(r)) < 1e-13:
                break
            J = np.zeros((n, n))
            for j in range(n):
                h = 1e-7
                zp = z.copy(); zp[j] += h
                zm = z.copy(); zm[j] -= h
                J[:, j] = (self.f_alg(x, u, zp, tvp, p) - self.f_alg(x, u, zm, tvp, p)) / (2 * h)
            try:
                dz = np.linalg.solve(J, -r)
            except np.linalg.LinAlgError:
                raise Inconclusive('the algebraic equations have no isolated solution here')
            z = z + dz
            if np.max(np.abs(dz)) < 1e-14:
                break
        else:
            if not np.max(np.abs(self.f_alg(x, u, z, tvp, p))) < 1e-9:
                raise Inconclusive('no solution of the algebraic equations found')
        return z

    # ---- do-mpc interpretation -------------------------------------------------------------
    def build(self, do_mpc, rng=None, setup=True, sym=None, var_order=None):
        """rng permutes the call order of declarations (not of names inside one type)."""
        import casadi as ca
        from vf import models
        sym = sym or self.sym
        m = do_mpc.model.Model(self.mtype, sym)
        handles = {}
        decl = [(t, n, s) for t in self.vars for n, s in self.vars[t]]
        if rng is not None:
            # random interleaving that keeps the order inside each type
            keys = {t: sorted(rng.random(len(self.vars[t]))) for t in self.vars}
            cnt = {t: 0 for t in self.vars}
            lab = []
            for d in decl:
                lab.append((keys[d[0]][cnt[d[0]]], d))
                cnt[d[0]] += 1
            decl = [d for _, d in sorted(lab, key=lambda q: q[0])]
        late = set()
        for t, n, s in decl:
            handles[(t, n)] = m.set_variable(t, n, shape=s)
        getmode = rng.integers(0, 2) if rng is not None else 0

        def get(r):
            t, n, i = r
            if getmode == 1 and not m.flags['setup'] and t != '_x':
                h = getattr(m, t[1:])[n]      # handle queried from the model
            else:
                h = handles[(t, n)]
            shp = self.shape(t, n)
            if isinstance(shp, tuple) and len(shp) == 2 and shp[1] > 1:
                return h[i % shp[0], i // shp[0]]
            return h[i]
        import types
        L = types.SimpleNamespace(sin=ca.sin, cos=ca.cos, tanh=ca.tanh, exp=ca.exp)
        cls = ca.SX if sym == 'SX' else ca.MX

        def vec(ts):
            es = [evalterms(t, get, L) for t in ts]
            return ca.vertcat(*[e if isinstance(e, (ca.SX, ca.MX)) else cls(e) for e in es])
        todo = [('rhs', n) for n in self.rhs_order]
        algq, measq, auxq = [('alg', i) for i in range(len(self.alg))], [('meas', i) for i in range(len(self.meas))], [('aux', i) for i in range(len(self.aux))]
        seqs = [todo, algq, measq, auxq]
        order = []
        if rng is None:
            order = sum(seqs, [])
        else:
            seqs = [list(s) for s in seqs]
            while any(seqs):
                live = [s for s in seqs if s]
                order.append(live[rng.integers(len(live))].pop(0))
        self.exprs = {}
        for what, k in order:
            if what == 'rhs':
                e = vec(self.rhs[k])
                self.exprs[('rhs', k)] = e
                m.set_rhs(k, e, process_noise=(k in self.noise))
            elif what == 'alg':
                m.set_alg(self.alg[k][0], vec(self.alg[k][1]))
            elif what == 'meas':
                m.set_meas(self.meas[k][0], vec(self.meas[k][1]), meas_noise=self.meas[k][2])
            else:
                m.set_expression(self.aux[k][0], vec(self.aux[k][1]))
        self.handles = handles
        if setup:
            m.setup()
        return m

    def expr(self, model, terms):
        """casadi expression of terms using the finished model's variables"""
        import casadi as ca, types
        L = types.SimpleNamespace(sin=ca.sin, cos=ca.cos, tanh=ca.tanh, exp=ca.exp)

        def get(r):
            t, n, i = r
            h = getattr(model, t[1:])[n]
            shp = self.shape(t, n)
            if isinstance(shp, tuple) and len(shp) == 2 and shp[1] > 1:
                return h[i % shp[0], i // shp[0]]
            return h[i]
        e = evalterms(terms, get, L)
        cls = ca.SX if model.symvar_type == 'SX' else ca.MX
        return e if isinstance(e, (ca.SX, ca.MX)) else cls(e)

    def describe(self):
        return {'type': self.mtype, 'sym': self.sym, 'vars': {k: v for k, v in self.vars.items() if v},
                'noise': sorted(self.noise), 'n_alg': len(self.alg), 'n_meas': len(self.meas), 'n_aux': len(self.aux)}

    def sig(self):
        return [self.mtype, self.sym] + [[str(s) for _, s in self.vars[t]] for t in ('_x', '_u', '_z', '_tvp', '_p')] + [len(self.noise), [len(t) for _, t, _ in self.meas], len(self.aux)]


NAMES = {'_x': ['xa', 'b', 'temp', 'q1', 'x10', 'xab', 'temp_2', 'r', 's9', 'q', 'B', 'vv'], '_u': ['inp', 'u_b', 'flow', 'in', 'u10', 'flow_b', 'o1', 'U', 'e2'],
         '_z': ['zz', 'alg1', 'h', 'alg10', 'h_z', 'z_', 'f3', 'g', 'G'], '_tvp': ['ref', 'dist', 'w8', 'ref_0', 'd', 'w80', 'tv', 'nn', 'N2'],
         '_p': ['par', 'k_0', 'gam', 'k', 'par_a', 'k_01', 'c4', 'mass', 'M']}


def rterms(rng, refs, n=None, lo=0.2, hi=1.0, ops=OPS1 + OPS2, const=0.3):
    n = int(rng.integers(1, 4)) if n is None else n
    out = []
    if rng.random() < const:
        out.append((round(float(rng.uniform(-1, 1)), 3), 'const', []))
    for _ in range(n):
        op = ops[rng.integers(len(ops))]
        k = 2 if op in OPS2 else 1
        rs = [refs[rng.integers(len(refs))] for _ in range(k)]
        c = round(float(rng.uniform(lo, hi) * rng.choice([-1, 1])), 3)
        out.append((c, op, rs))
    return out


def gen_spec(rng, mtype=None, sym=None, nz=None, np_=None, ntvp=None, nx=None, nu=None, vec=True, noise=None,
             meas=None, aux=None, matpar=False, bounded_ops=True, nonlin=True, colvec_only=True, shared=None):
    S = Spec()
    S.mtype = mtype or ['continuous', 'discrete'][rng.integers(2)]
    S.sym = sym or ['SX', 'MX'][int(rng.random() < 0.35)]

    shared = (rng.random() < 0.15) if shared is None else shared          # variables of different types may carry the same name

    # a few models are large: one kind of variable has many entries, as one long vector or as many variables
    big = ['_x', '_x', '_u', '_z', '_tvp', '_p'][rng.integers(6)] if vec and rng.random() < 0.07 else None
    many = bool(rng.random() < 0.5)
    S.big = big

    def shapes(t, count):
        names = ['same', 'both', 'a', 'k2'] if shared else list(NAMES[t])
        rng.shuffle(names)
        if t == big and many and count and not shared and not fixed[t]:
            count = int(rng.integers(4, 9))
        for k in range(count):
            if t == big and not many and k == 0:
                n = int(rng.integers(6, 13))
                S.vars[t].append((names[k], (n, 1) if rng.random() < 0.5 else n))
                continue
            if vec and rng.random() < 0.35:
                n = int(rng.integers(2, 4))
                shp = (n, 1) if rng.random() < 0.5 else n
            else:
                shp = 1 if rng.random() < 0.5 else (1, 1)
            if matpar and t in ('_p', '_tvp') and rng.random() < 0.25:
                shp = (2, 2)
            S.vars[t].append((names[k], shp))
    fixed = {'_x': nx == 1, '_u': nu is not None, '_z': nz is not None, '_tvp': ntvp is not None, '_p': np_ is not None}
    shapes('_x', nx or int(rng.integers(1, 4)))
    shapes('_u', nu if nu is not None else int(rng.integers(1, 3)))
    shapes('_z', nz if nz is not None else int(rng.choice([0, 0, 1, 2])))
    shapes('_tvp', ntvp if ntvp is not None else int(rng.choice([0, 1, 2])))
    shapes('_p', np_ if np_ is not None else int(rng.choice([0, 1, 2])))
    ops = ['id', 'sin', 'tanh', 'rat', 'gauss', 'tprod', 'sprod', 'cos'] if nonlin else ['id']
    allrefs = S.refs('_x', '_u', '_z', '_tvp', '_p')
    drive = S.refs('_x', '_u', '_tvp', '_p')
    for n, shp in S.vars['_x']:
        S.rhs[n] = []
        for i in range(_size(shp)):
            if S.mtype == 'continuous':
                t = [(-round(float(rng.uniform(0.3, 1.5)), 3), 'id', [('_x', n, i)])]
            else:
                t = [(round(float(rng.uniform(0.3, 0.8)), 3), 'id', [('_x', n, i)])]
            if S.n('_u'):
                us = S.refs('_u')
                t.append((round(float(rng.uniform(0.3, 1.0)), 3), 'id', [us[rng.integers(len(us))]]))
            t += rterms(rng, allrefs, lo=0.1, hi=0.5, ops=ops)
            S.rhs[n].append(t)
    # every z is made to matter
    zr = S.refs('_z')
    for r in zr:
        xs = S.refs('_x')
        _, n, i = xs[rng.integers(len(xs))]
        S.rhs[n][i].append((round(float(rng.uniform(0.2, 0.6)), 3), 'id', [r]))
    # and every p / tvp
    for r in S.refs('_p', '_tvp'):
        xs = S.refs('_x')
        _, n, i = xs[rng.integers(len(xs))]
        S.rhs[n][i].append((round(float(rng.uniform(0.2, 0.6)), 3), 'sprod' if nonlin else 'id', [r, xs[rng.integers(len(xs))]] if nonlin else [r]))
    S.rhs_order = [n for n, _ in S.vars['_x']]
    rng.shuffle(S.rhs_order)
    # algebraic equations: index one by diagonal dominance; number of equations entries may be grouped differently
    eqs = []
    for r in zr:
        t = [(round(float(rng.uniform(1.0, 2.0)) * rng.choice([-1, 1]), 3), 'id', [r])]
        t += rterms(rng, drive, lo=0.2, hi=0.8, ops=ops)
        if len(zr) > 1 and rng.random() < 0.5 and nonlin:
            t.append((round(float(rng.uniform(0.05, 0.2)), 3), 'tanh', [zr[rng.integers(len(zr))]]))
        eqs.append(t)
    if eqs:
        cuts = [0] + [k for k in range(1, len(eqs)) if rng.random() < 0.6] + [len(eqs)]
        for j in range(len(cuts) - 1):
            S.alg.append(('eq%d' % j, eqs[cuts[j]:cuts[j + 1]]))
    nzs = rng.random() if noise is None else (0.0 if noise else 1.0)
    for n, _ in S.vars['_x']:
        if nzs < 0.5 and rng.random() < 0.6:
            S.noise.add(n)
    if noise and not S.noise:
        S.noise.add(S.vars['_x'][0][0])
    nm = int(rng.choice([0, 1, 2, 3])) if meas is None else meas
    for k in range(nm):
        S.meas.append((['both', 'same', 'k2'][k] if shared and k < 3 else 'y%d' % k, [rterms(rng, allrefs) for _ in range(int(rng.integers(1, 3)))], bool(rng.random() < 0.6)))
    na = int(rng.choice([0, 1, 2])) if aux is None else aux
    for k in range(na):
        S.aux.append((['same', 'both', 'a'][k] if shared and k < 3 else 'aux%d' % k, [rterms(rng, allrefs) for _ in range(int(rng.integers(1, 3)))]))
    return S


def gen_step(rng, discrete, lo, hi):
    """sampling time: mostly a short decimal; also binary fractions without a short decimal form, tiny steps and, for discrete
    models (whose right-hand side does not know the step), any magnitude"""
    r = rng.random()
    if r < 0.6:
        return round(float(rng.uniform(lo, hi)), 3)
    if r < 0.85:
        return float(rng.uniform(lo, hi)) if rng.random() < 0.6 else float(rng.choice([q for q in (1 / 3, 1 / 7, 2 / 3, 1 / 9, 1 / 30) if q <= hi]))
    if discrete:
        return float(rng.choice([1.0, 5.0, 60.0, 3600.0, 1e-3, 2.5e-5, 4e-7, 12.345678912, 86400.0, 1e-8 / 3]))
    return float(rng.choice([1e-3, 2.5e-5, 4e-7, 1e-2 / 3]))


def rvals(rng, S, t, scale=1.0):
    v = np.round(rng.uniform(-1, 1, S.n(t)) * scale, 4)
    if rng.random() < 0.08:
        v = np.round(v)                     # exact zeros and integers
    return v


def as_input(rng, v, struct=None, flat=False):
    """the vector v in one of the forms in which a vector may be handed over"""
    import casadi as ca
    v = np.array(v, float).ravel()
    col = v.reshape(-1, 1)
    forms = [lambda: col.copy(), lambda: ca.DM(col), lambda: np.stack([v + 1, v, v - 1], 1)[:, 1:2], lambda: np.repeat(col, 2, 0)[::2]]
    if struct is not None:
        forms += [lambda: struct(ca.DM(col))] * 2
    if flat:
        forms += [lambda: v.copy(), lambda: np.repeat(v, 3)[::3]]

    def locked():
        a = col.copy()
        a.setflags(write=False)
        return a
    forms.append(locked)
    if v.size and np.all(v == np.round(v)):
        forms += [lambda: col.astype(int)] * 3
    if v.size and np.any(v == 0):
        forms += [lambda: ca.sparsify(ca.DM(col))] * 2
    return forms[rng.integers(len(forms))]()
