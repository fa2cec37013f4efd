"""P18: converted ONNX graphs against the ONNX reference evaluator."""
import numpy as np
import casadi as ca
from vf import core

ID = 'P18'
CASES = {'quick': [('graph', 16200), ('reject', 3150)], 'thorough': [('graph', 150000), ('reject', 20000)]}
RULE = ('random ONNX graphs of all supported operators (tensor ranks 0 to 3, broadcasting, attribute and input forms of several opsets, optional inputs, negative axes and steps, shape arithmetic, '
        'tensors shared by several nodes) are converted for numpy, DM, SX, MX and mixed inputs, several times with different inputs; the value of every node is compared with the reference '
        'evaluator of onnx on the same graph in double precision; wrong input names, counts, types and lengths and unsupported operators must be refused; '
        'distinct by (operators with attributes, shapes, input kinds), non-trivial = at least three node values compared')
ASSUMPTIONS = ['MatMul and Gemm operands have at most two dimensions; symbolic nodes with more than two dimensions cannot be returned as CasADi expression and may be refused when queried',
               'inputs are given with the declared number of dimensions (a declared vector as CasADi column)']
NEED = {'nodes_compared': 4000, 'symbolic_nodes': 2000, 'broadcasts': 300, 'reconverted': 300, 'refused': 200, 'op:Gemm': 100, 'op:Slice': 100, 'op:Reshape': 100, 'op:Concat': 100,
        'op:Elu': 60, 'op:Squeeze': 60, 'op:Unsqueeze': 60, 'op:Sum': 60, 'op:Shape': 60}
MAX_INCONCLUSIVE = 0.1
OPS = ['Tanh', 'Sigmoid', 'Relu', 'Elu', 'MatMul', 'Add', 'Mul', 'Sub', 'Gemm', 'Sum', 'Concat', 'Unsqueeze', 'Squeeze', 'Slice', 'Reshape', 'Shape']


class Gen:
    def __init__(self, rng, opset, maxrank=3):
        from onnx import helper, TensorProto, numpy_helper
        self.h, self.T, self.nh = helper, TensorProto, numpy_helper
        self.r, self.opset, self.maxrank = rng, opset, maxrank
        self.nodes, self.init, self.inputs = [], {}, {}
        self.val = {}      # data tensors: name -> value at the generating point (double)
        self.ints = []     # names of integer tensors
        self.n = 0
        self.style = rng.integers(3)
        self.node_names = rng.integers(4)      # node names are optional and need not be unique
        self.sig = []
        self.broadcasts = 0

    def name(self, what):
        self.n += 1
        return ['%s_%d' % (what, self.n), 'model/%s/%s:%d' % (what, what.lower(), self.n), '%d' % self.n][self.style]

    def const(self, a):
        a = np.asarray(a)
        for k, v in self.init.items():
            if v.dtype == a.dtype and v.shape == a.shape and np.array_equal(v, a) and self.r.random() < .5:
                return k
        nm = self.name('W')
        self.init[nm] = a
        return nm

    def rand(self, shape):
        return np.array(np.round(self.r.normal(size=shape) * self.r.choice([.3, 1, 2]), 3), np.float32).astype(float)

    def input(self, shape):
        nm = self.name('input')
        self.inputs[nm] = tuple(shape)
        self.val[nm] = self.rand(shape)
        return nm

    def pick(self, cond=lambda a: True):
        c = [k for k, v in self.val.items() if cond(v)]
        if not c:
            raise KeyError
        # favour late tensors: deep graphs
        w = np.arange(1, len(c) + 1) ** 1.5
        return c[self.r.choice(len(c), p=w / w.sum())]

    def emit(self, op, ins, **attr):
        items = list(attr.items())
        self.r.shuffle(items)
        out = self.name(op)
        node = self.h.make_node(op, ins, [out], name='' if self.r.random() < .2 else [out + '_node', out, op, ['node', 'fc', ins[0]][self.r.integers(3)]][self.node_names])
        for k, v in items:
            node.attribute.append(self.h.make_attribute(k, v))
        self.nodes.append(node)
        self.sig.append((op, tuple(sorted((k, str(v)) for k, v in attr.items())), tuple(np.shape(self.val.get(i, self.init.get(i))) if i else None for i in ins)))
        return out

    def ev(self, op, out, val):
        self.val[out] = np.asarray(val, float)
        return out

    def bshape(self, shape):
        """a shape that can be broadcast with `shape`"""
        r = self.r
        s = list(shape)
        for i in range(len(s)):
            if s[i] == 1 and r.random() < .35:
                s[i] = int(r.integers(1, 5))
            elif r.random() < .3:
                s[i] = 1
        if r.random() < .4:
            s = s[r.integers(0, len(s) + 1):]
        elif len(s) < self.maxrank and r.random() < .15:
            s = [int(r.integers(1, 4))] + s
        return tuple(s)

    def other(self, a):
        """operand for an elementwise operation with value a"""
        r = self.r
        if r.random() < .45:
            def ok(b):
                try:
                    return len(np.broadcast_shapes(a.shape, b.shape)) <= self.maxrank and np.prod(np.broadcast_shapes(a.shape, b.shape)) <= 80
                except ValueError:
                    return False
            return self.pick(ok)
        return self.const(self.rand(self.bshape(a.shape)))

    def V(self, nm):
        return self.val[nm] if nm in self.val else self.init[nm]

    def int_const(self, a):
        return self.const(np.asarray(a, np.int64))

    def step(self):
        r = self.r
        op = r.choice(OPS)
        return getattr(self, 'do_' + op)()

    def unary(self, op, f, **attr):
        x = self.pick()
        return self.ev(op, self.emit(op, [x], **attr), f(self.V(x)))

    def do_Tanh(self): return self.unary('Tanh', np.tanh)
    def do_Sigmoid(self): return self.unary('Sigmoid', lambda x: 1 / (1 + np.exp(-x)))
    def do_Relu(self): return self.unary('Relu', lambda x: np.maximum(x, 0))

    def do_Elu(self):
        if self.r.random() < .3:
            return self.unary('Elu', lambda x: np.where(x > 0, x, np.exp(np.minimum(x, 0)) - 1))
        a = float(self.r.choice([.5, 1., 2.25, 0., 1e-3, -0.5]))
        return self.unary('Elu', lambda x: np.where(x > 0, x, a * (np.exp(np.minimum(x, 0)) - 1)), alpha=a)

    def binary(self, op, f):
        x = self.pick()
        y = self.other(self.V(x))
        ins = [x, y] if self.r.random() < .6 else [y, x]
        a, b = map(self.V, ins)
        self.broadcasts += a.shape != b.shape
        return self.ev(op, self.emit(op, ins), f(a, b))

    def do_Add(self): return self.binary('Add', np.add)
    def do_Mul(self): return self.binary('Mul', np.multiply)
    def do_Sub(self): return self.binary('Sub', np.subtract)

    def do_Sum(self):
        ins = [self.pick()]
        v = self.V(ins[0])
        for _ in range(self.r.integers(0, 4)):
            ins.append(self.other(v))
            v = v + self.V(ins[-1])
        ins = list(self.r.permutation(ins))
        self.broadcasts += len({self.V(i).shape for i in ins}) > 1
        return self.ev('Sum', self.emit('Sum', ins), v)

    def do_MatMul(self):
        r = self.r
        x = self.pick(lambda a: a.ndim in (1, 2) and a.size)
        a = self.V(x)
        if r.random() < .6:     # from the left
            if r.random() < .4:
                try:
                    y = self.pick(lambda b: b.ndim in (1, 2) and b.shape[0] == a.shape[-1])
                except KeyError:
                    y = self.const(self.rand((a.shape[-1], int(r.integers(1, 5)))))
            else:
                y = self.const(self.rand((a.shape[-1],) + ((int(r.integers(1, 5)),) if r.random() < .8 else ())))
            ins = [x, y]
        else:
            y = self.const(self.rand(((int(r.integers(1, 5)),) if r.random() < .8 else ()) + (a.shape[0],)))
            ins = [y, x]
        return self.ev('MatMul', self.emit('MatMul', ins), np.matmul(*map(self.V, ins)))

    def do_Gemm(self):
        r = self.r
        x = self.pick(lambda a: a.ndim == 2)
        a = self.V(x)
        attr = {}
        left = r.random() < .75
        tx, ty = bool(r.integers(2)), bool(r.integers(2))
        m = int(r.integers(1, 5))
        ax = a.T if tx else a
        shape = (ax.shape[1], m) if left else (m, ax.shape[0])
        y = None
        if r.random() < .3:
            try:
                y = self.pick(lambda b: b.shape == (shape[::-1] if ty else shape))
            except KeyError:
                pass
        y = y or self.const(self.rand(shape[::-1] if ty else shape))
        b = self.V(y)
        by = b.T if ty else b
        prod = ax @ by if left else by @ ax
        ins, tA, tB = ([x, y], tx, ty) if left else ([y, x], ty, tx)
        for k, t in (('transA', tA), ('transB', tB)):
            if t or r.random() < .3:
                attr[k] = int(t)
        al = be = 1.
        if r.random() < .5:
            al = attr['alpha'] = float(r.choice([.5, 2., -1.25, 0., 1., 1e-3]))
        if r.random() < .5:
            be = attr['beta'] = float(r.choice([.25, 3., -.5, 0., 1., 100.]))
        out = al * prod
        if self.opset >= 11 and r.random() < .2:
            if r.random() < .4:
                ins.append('')
        else:
            cs = [prod.shape, (1, prod.shape[1]), (prod.shape[1],), (prod.shape[0], 1), (1,), (), (1, 1)][r.choice(7, p=[.15, .2, .3, .15, .07, .06, .07])]
            c = None
            if r.random() < .3:
                try:
                    c = self.pick(lambda v: v.shape == cs)
                except KeyError:
                    pass
            c = c or self.const(self.rand(cs))
            ins.append(c)
            out = out + be * self.V(c)
            self.broadcasts += self.V(c).shape != prod.shape
        return self.ev('Gemm', self.emit('Gemm', ins, **attr), out)

    def do_Concat(self):
        r = self.r
        x = self.pick(lambda a: a.ndim >= 1)
        a = self.V(x)
        ax = int(r.integers(a.ndim))
        ins = [x]
        for _ in range(r.integers(0, 3)):
            same = lambda b: b.ndim == a.ndim and all(b.shape[i] == a.shape[i] for i in range(a.ndim) if i != ax) and b.size <= 20
            if r.random() < .5:
                try:
                    ins.append(self.pick(same))
                    continue
                except KeyError:
                    pass
            s = list(a.shape)
            s[ax] = int(r.integers(1, 4))
            ins.append(self.const(self.rand(s)))
        ins = list(r.permutation(ins))
        v = np.concatenate([self.V(i) for i in ins], ax)
        if self.opset >= 11 and r.random() < .4:
            ax -= a.ndim
        return self.ev('Concat', self.emit('Concat', ins, axis=ax), v)

    def do_Unsqueeze(self):
        r = self.r
        x = self.pick(lambda a: a.ndim < self.maxrank)
        a = self.V(x)
        k = int(r.integers(1, min(2, self.maxrank - a.ndim) + 1))
        axes = [int(i) for i in sorted(r.choice(a.ndim + k, k, replace=False))]
        v = np.expand_dims(a, tuple(axes))
        if self.opset >= 11:
            axes = [i - a.ndim - k if r.random() < .3 else i for i in axes]
            r.shuffle(axes)
        axes = [int(i) for i in axes]
        out = self.emit('Unsqueeze', [x, self.int_const(axes)]) if self.opset >= 13 else self.emit('Unsqueeze', [x], axes=axes)
        return self.ev('Unsqueeze', out, v)

    def do_Squeeze(self):
        r = self.r
        x = self.pick(lambda a: 1 in a.shape)
        a = self.V(x)
        if r.random() < .3:
            return self.ev('Squeeze', self.emit('Squeeze', [x, ''] if self.opset >= 13 and r.random() < .3 else [x]), np.squeeze(a))
        ones = [i for i in range(a.ndim) if a.shape[i] == 1]
        axes = [int(i) for i in r.choice(ones, r.integers(1, len(ones) + 1), replace=False)]
        v = np.squeeze(a, tuple(axes))
        if self.opset >= 11:
            axes = [i - a.ndim if r.random() < .3 else i for i in axes]
        out = self.emit('Squeeze', [x, self.int_const(axes)]) if self.opset >= 13 else self.emit('Squeeze', [x], axes=axes)
        return self.ev('Squeeze', out, v)

    def do_Slice(self):
        r = self.r
        x = self.pick(lambda a: a.ndim >= 1)
        a = self.V(x)
        k = int(r.integers(1, a.ndim + 1))
        axes = [int(i) for i in r.choice(a.ndim, k, replace=False)]
        noaxes = r.random() < .25
        if noaxes:
            axes = list(range(k))
        sl, st, en, sp = [slice(None)] * a.ndim, [], [], []
        steps = self.opset >= 10 and r.random() < .5
        for ax in axes:
            n = a.shape[ax]
            lo = int(r.integers(0, n))
            hi = int(r.integers(lo + 1, n + 1))
            step = 1
            if steps:
                step = int(r.choice([1, 2, -1, -2]))
            if step > 0:
                sl[ax] = slice(lo, hi, step)
                s, e = lo, hi
                if r.random() < .3:
                    s = lo - n
                if hi == n:
                    e = int(r.choice([n, 2**31 - 1, 2**63 - 1, n + 3]))
                elif r.random() < .3:
                    e = hi - n
            else:
                sl[ax] = slice(hi - 1, lo - 1 if lo else None, step)
                s, e = hi - 1, lo - 1
                if lo == 0:
                    e = int(r.choice([-n - 1, -2**31, -2**63 + 1]))
                if hi == n and r.random() < .3:
                    s = int(r.choice([-1, n - 1, n + 2]))
            st.append(s), en.append(e), sp.append(step)
        v = a[tuple(sl)]
        if self.opset < 10:
            attr = dict(starts=st, ends=en)
            if not noaxes:
                attr['axes'] = axes
            out = self.emit('Slice', [x], **attr)
        else:
            ins = [x, self.int_const(st), self.int_const(en)]
            if not noaxes:
                ins.append(self.int_const([i - a.ndim if r.random() < .3 else i for i in axes]))
            if steps:
                ins += [''] * noaxes + [self.int_const(sp)]
            out = self.emit('Slice', ins)
        return self.ev('Slice', out, v)

    def do_Reshape(self):
        r = self.r
        x = self.pick(lambda a: a.size > 0)
        a = self.V(x)
        if r.random() < .15:        # shape computed in the graph: that of a tensor with as many elements
            y = self.pick(lambda b: b.size == a.size)
            s = self.emit('Shape', [y])
            self.ints.append((s, self.V(y).shape))
            return self.ev('Reshape', self.emit('Reshape', [x, s]), a.reshape(self.V(y).shape))
        if r.random() < .15 and self.maxrank >= 2:        # flatten all but one dimension, with shape arithmetic
            y = self.pick(lambda b: b.ndim >= 1 and b.size and a.size % b.shape[0] == 0)
            s = self.emit('Shape', [y])
            n0 = self.V(y).shape[0]
            self.ints.append((s, self.V(y).shape))
            s1 = self.emit('Slice', [s, self.int_const([0]), self.int_const([1])]) if self.opset >= 10 else self.emit('Slice', [s], starts=[0], ends=[1], axes=[0])
            self.ints.append((s1, (n0,)))
            c = [s1, self.int_const([-1])]
            sh = [n0, -1]
            if r.random() < .5:
                c, sh = c[::-1], sh[::-1]
            s2 = self.emit('Concat', c, axis=0)
            self.ints.append((s2, tuple(sh)))
            return self.ev('Reshape', self.emit('Reshape', [x, s2]), a.reshape(sh))
        # random factorisation
        f = []
        n = a.size
        while len(f) < self.maxrank - 1 and n > 1 and r.random() < .75:
            d = int(r.choice([i for i in range(1, n + 1) if n % i == 0]))
            f.append(d)
            n //= d
        f.append(n)
        if len(f) < self.maxrank and r.random() < .3:
            f.append(1)
        r.shuffle(f)
        f = [int(i) for i in f]
        if a.size == 1 and r.random() < .3:
            f = []
        v = a.reshape(f)
        s = list(f)
        for i in range(len(s)):
            if i < a.ndim and s[i] == a.shape[i] and r.random() < .5:
                s[i] = 0
        if s and r.random() < .5:
            s[int(r.integers(len(s)))] = -1
        return self.ev('Reshape', self.emit('Reshape', [x, self.int_const(s)]), v)

    def do_Shape(self):
        x = self.pick()
        a = self.V(x)
        attr = {}
        v = a.shape
        if self.opset >= 15 and self.r.random() < .5:
            lo = int(self.r.integers(-a.ndim, a.ndim + 1))
            attr['start'] = lo
            v = a.shape[lo:] if lo >= 0 else a.shape[max(lo + a.ndim, 0):]
            if self.r.random() < .5:
                hi = int(self.r.integers(-a.ndim, a.ndim + 2))
                attr['end'] = hi
                cl = lambda i: min(max(i + a.ndim if i < 0 else i, 0), a.ndim)
                v = a.shape[cl(lo):cl(hi)]
        s = self.emit('Shape', [x], **attr)
        self.ints.append((s, v))
        return s

    def model(self, initializer_inputs, single=False):
        """single: the same graph (weights are representable) in single precision, as exported by training frameworks"""
        h, T = self.h, self.T
        F = T.FLOAT if single else T.DOUBLE
        # the shapes in the graph do not count for the operators: unknown for outputs
        gin = [h.make_tensor_value_info(k, F, self.declared(s)) for k, s in self.inputs.items()]
        if initializer_inputs:
            gin += [h.make_tensor_value_info(k, T.INT64 if v.dtype == np.int64 else F, v.shape) for k, v in self.init.items()]
            self.r.shuffle(gin)
        ints = {k for k, _ in self.ints}
        gout = [h.make_tensor_value_info(n.output[0], T.INT64 if n.output[0] in ints else F, None) for n in self.nodes]
        g = h.make_graph(self.nodes, 'g', gin, gout, [self.nh.from_array(v.astype(np.float32) if single and v.dtype == float else v, k) for k, v in self.init.items()])
        return h.make_model(g, opset_imports=[h.make_opsetid('', self.opset)], ir_version=8)

    def declared(self, s):
        # dynamic batch dimension
        if not hasattr(self, 'dyn'):
            self.dyn = self.r.random() < .2
        return tuple('N' if self.dyn and i == 0 else d for i, d in enumerate(s))


def gen(rng, maxrank=3, nnodes=None):
    g = Gen(rng, int(rng.choice([9, 10, 11, 12, 13, 14, 17, 18])), maxrank)
    for _ in range(rng.integers(1, 4)):
        k = int(rng.choice([0, 1, 2, 3], p=[.05, .2, .65, .1]))
        g.input([int(i) for i in rng.integers(1, 5, size=min(k, maxrank))])
    n = nnodes or int(rng.integers(3, 12))
    tries = 0
    while len(g.nodes) < n and tries < 60:
        tries += 1
        try:
            before = len(g.nodes)
            g.step()
            # keep the numbers small
            last = g.nodes[-1].output[0]
            if last in g.val and (np.abs(g.val[last]).max(initial=0) > 50 or g.val[last].size > 60):
                x = g.emit('Tanh', [last]) if g.val[last].size <= 60 else None
                if x:
                    g.ev('Tanh', x, np.tanh(g.val[last]))
        except KeyError:
            continue
    return g


def feed(rng, g):
    return {k: np.array(np.round(rng.normal(size=s) * rng.choice([.3, 1, 3]), 4), float) for k, s in g.inputs.items()}


def as_dm(a):
    return ca.DM(a.reshape(-1, 1) if a.ndim < 2 else a)


def evaluate(ctx, conv, g, rng, ref, kind, pref, kinds=None):
    """convert for inputs of `kind` and compare every node with the reference at one or more points"""
    pts = [feed(rng, g) for _ in range(1 if kind in ('numpy', 'DM') else 2)]
    kw, syms = {}, []
    kinds = {}
    for k, s in g.inputs.items():
        kk = kind
        if kind in ('SX+numpy', 'MX+DM'):
            kk = kind.split('+')[rng.integers(2)]
        if len(s) > 2:
            kk = 'numpy'
        if kk == 'numpy':
            kw[k] = pts[0][k].copy()
        elif kk == 'DM':
            kw[k] = as_dm(pts[0][k])
        else:
            cls = getattr(ca, kk)
            nm = 's%d' % len(syms)
            shape = (tuple(s) + (1, 1))[:2]
            sy = cls.sym(nm, *shape)
            syms.append((k, sy))
            kw[k] = sy
        kinds[k] = kk
        if kk in ('numpy', 'DM'):
            for q in pts[1:]:
                q[k] = pts[0][k]
    snap = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    try:
        conv.convert(**kw)
    except core.CaseTimeout:
        raise
    except Exception as e:
        ctx.violate(pref + 'exception-%s' % type(e).__name__, 'conversion of a graph of supported operators with %s inputs raised %r' % (kind, e), ops=str(g.sig), kinds=str(kinds))
        return False
    for k, v in snap.items():
        ctx.check(np.array_equal(v, kw[k]), pref + 'input-modified', 'convert modified the given array %s' % k)
    names = [n.output[0] for n in g.nodes]
    try:
        wants = [dict(zip(names, ref.run(None, q))) for q in pts]
    except Exception as e:
        raise core.Inconclusive('reference evaluator: %r' % e)
    ints = dict(g.ints)
    exprs, meta = [], []
    for nd, nm in zip(g.nodes, names):
        w = np.asarray(wants[0][nm])
        ctx.count['op:' + nd.op_type] += 1
        try:
            v = conv[nm]
        except core.CaseTimeout:
            raise
        except Exception as e:
            if w.ndim > 2:
                ctx.count['higher_rank_refused'] += 1
                continue
            ctx.violate(pref + 'query-%s' % type(e).__name__, 'node %s (%s) cannot be queried: %r' % (nm, nd.op_type, e), ops=str(g.sig))
            return False
        if w.ndim > 2 and not isinstance(v, np.ndarray):
            ctx.count['higher_rank_other'] += 1
            continue
        if isinstance(v, (ca.SX, ca.MX)):
            exprs.append(v)
            meta.append((nd, nm, len(exprs) - 1, None))
        else:
            meta.append((nd, nm, None, v))
    for k, s in g.inputs.items():
        v = conv[k]
        ctx.check(v is kw[k] or (np.array_equal(np.array(ca.DM(v)) if not isinstance(v, np.ndarray) else v, np.array(kw[k])) if kinds[k] in ('numpy', 'DM') else ca.is_equal(v, kw[k])),
                  pref + 'input-value', 'the queried input %s is not the given one' % k)
    f = ca.Function('f', [s for _, s in syms], exprs) if exprs else None
    ok = True
    for q, want in zip(pts, wants):
        vals = f.call([as_dm(q[k]) for k, _ in syms]) if f else []
        for nd, nm, i, const in meta:
            w = np.asarray(want[nm], float)
            v = vals[i] if i is not None else const
            a = np.array(v, float) if isinstance(v, (np.ndarray, tuple, list)) else ca.DM(v).full()
            if w.ndim >= 2:
                good = a.shape == w.shape
            else:
                good = a.size == w.size and (a.ndim < 2 or 1 in a.shape or a.size == 0)
            scale = 1 + np.abs(w).max(initial=0)
            good = good and np.all(np.isfinite(a)) and np.abs(a.ravel() - w.ravel()).max(initial=0) <= 1e-6 * scale
            ctx.count['nodes_compared'] += 1
            ctx.count['symbolic_nodes'] += i is not None
            if not ctx.check(good, pref + 'value-' + nd.op_type, 'node %s (%s) has not the value of the reference evaluator (%s inputs)' % (nm, nd.op_type, kind),
                             got=a, want=w, op=str(g.sig[names.index(nm)]), opset=g.opset, kinds=str(kinds)):
                return False
    ctx.count['graphs'] += 1
    return ok


def case_graph(ctx):
    import onnx
    from onnx.reference import ReferenceEvaluator
    import do_mpc
    r = ctx.rng
    g = gen(r, int(r.choice([2, 3])))
    m = g.model(r.random() < .15)
    try:
        ref = ReferenceEvaluator(m)
        q = {k: g.val[k] for k in g.inputs}
        w = dict(zip([n.output[0] for n in g.nodes], ref.run(None, q)))
    except Exception as e:
        raise core.Inconclusive('reference evaluator: %r' % e)
    # the generator's own numpy values: a second opinion on the reference
    for k, v in w.items():
        if k in g.val and not (np.shape(v) == g.val[k].shape and np.allclose(v, g.val[k], rtol=1e-5, atol=1e-6)):
            raise core.Inconclusive('reference evaluator and numpy disagree on %s' % [n.op_type for n in g.nodes if n.output[0] == k])
    if r.random() < .4:
        g.r = np.random.default_rng(0)
        m = g.model(r.random() < .15, True)
        ctx.count['single_precision'] += 1
    raw = m.SerializeToString()
    ctx.count['broadcasts'] += g.broadcasts
    conv = do_mpc.sysid.ONNXConversion(m) if r.random() < .7 else do_mpc.sysid.ONNXConversion(m, 'net')
    kinds = list(r.choice(['numpy', 'DM', 'SX', 'MX', 'SX+numpy', 'MX+DM'], size=int(r.choice([1, 2, 3])), p=[.15, .1, .3, .25, .1, .1]))
    for i, kind in enumerate(kinds):
        if not evaluate(ctx, conv, g, r, ref, kind, ''):
            return
        if i:
            ctx.count['reconverted'] += 1
    ctx.check(m.SerializeToString() == raw, 'model-modified', 'the conversion modified the ONNX model')
    # what is printed can be queried
    txt = repr(conv)
    for k, s in g.inputs.items():
        ctx.check(k in txt and k in conv.layers, 'listed', 'input %s is not listed' % k)
    for n in g.nodes:
        ctx.check(n.output[0] in conv.layers and n.output[0] in txt, 'listed', 'node %s is not listed' % n.output[0])
    for k in conv.layers:
        try:
            conv[k]
        except Exception as e:
            if k in w and np.ndim(w[k]) > 2:
                continue
            ctx.violate('listed-query', 'keyword %r is listed but cannot be queried: %r' % (k, e))
    try:
        conv['no such node']
        ctx.violate('unknown-node', 'a node that does not exist could be queried')
    except Exception:
        pass
    ctx.sig = (tuple(g.sig), tuple(kinds), g.opset)
    ctx.desc = '%d nodes, opset %d, %s' % (len(g.nodes), g.opset, '/'.join(kinds))
    ctx.nontrivial = len(g.nodes) >= 3


UNSUPPORTED = ['Softmax', 'Div', 'Exp', 'LeakyRelu', 'Sin', 'Neg', 'Transpose', 'Identity', 'Pow', 'Gelu', 'ReduceSum', 'Max', 'tanh', 'relu', 'init', '__init__', 'convert']


def case_reject(ctx):
    from onnx.reference import ReferenceEvaluator
    import do_mpc
    r = ctx.rng
    g = gen(r, 2, int(r.integers(1, 5)))
    what = r.choice(['missing', 'extra', 'rename', 'initializer-name', 'type', 'length', 'unsupported', 'domain', 'empty'])
    m = g.model(False)
    mk = lambda: do_mpc.sysid.ONNXConversion(m)
    vals = feed(r, g)
    kw = {k: (v if r.random() < .5 or v.ndim > 2 else as_dm(v) if r.random() < .5 else ca.SX.sym('s', *(v.shape + (1, 1))[:2])) for k, v in vals.items()}
    names = list(kw)
    good = dict(vals)
    ok_first = r.random() < .5
    conv = None
    if what == 'missing':
        del kw[names[r.integers(len(names))]]
    elif what == 'extra':
        kw['another'] = np.ones((1, 2))
    elif what == 'rename':
        k = names[r.integers(len(names))]
        kw[k + '_'] = kw.pop(k)
    elif what == 'initializer-name':
        if not g.init:
            raise core.Inconclusive('no initializer')
        k = names[r.integers(len(names))]
        kw[list(g.init)[0]] = kw.pop(k)
    elif what == 'type':
        k = names[r.integers(len(names))]
        kw[k] = [[1., 2.], 1., 'a', None, (1.,)][r.integers(5)]
    elif what == 'length':
        if g.dyn:
            ctx.inconclusive = 'dynamic dimension'
            return
        one = [k for k in names if len(g.inputs[k]) == 1]
        if not one:
            k = g.name('input')
            g.inputs[k] = (3,)
            g.val[k] = np.ones(3)
            g.ev('Tanh', g.emit('Tanh', [k]), np.tanh(g.val[k]))
            m = g.model(False)
            good[k] = np.ones(3)
            kw[k] = np.ones(3)
            one = [k]
        k = one[r.integers(len(one))]
        n = g.inputs[k][0]
        n2 = n + int(r.choice([-1, 1, 2]))
        if n2 < 1:
            n2 = n + 1
        kw[k] = [np.ones(n2), ca.DM.ones(n2), ca.SX.sym('s', n2), np.ones((n2, 1))][r.integers(4)]
    elif what in ('unsupported', 'domain'):
        from onnx import helper
        x = g.pick()
        out = g.name('bad')
        op = r.choice(UNSUPPORTED) if what == 'unsupported' else r.choice(['Relu', 'Tanh'])
        nd = helper.make_node(op, [x], [out], domain='' if what == 'unsupported' else 'my.domain')
        pos = len(g.nodes)
        m = g.model(False)
        m.graph.node.insert(pos, nd)
        # something uses it
        m.graph.node.append(helper.make_node('Relu', [out], [out + 'r']))
        if what == 'domain':
            m.opset_import.append(helper.make_opsetid('my.domain', 1))
        ok_first = False
    elif what == 'empty':
        kw = {}
    conv = do_mpc.sysid.ONNXConversion(m)
    if ok_first:
        conv.convert(**good)
    try:
        conv.convert(**kw)
        ctx.violate('accepted-' + what, 'a conversion that must be refused (%s) was accepted' % what, inputs=str({k: getattr(v, 'shape', v) for k, v in kw.items()}), model=str(g.sig))
    except core.CaseTimeout:
        raise
    except Exception:
        ctx.count['refused'] += 1
        ctx.count['refused:' + what] += 1
    if what not in ('unsupported', 'domain'):
        # still usable
        if evaluate(ctx, conv, g, r, ReferenceEvaluator(m), str(r.choice(['numpy', 'SX', 'MX'])), 'after-refusal-'):
            ctx.count['usable_after'] += 1
    ctx.sig = (what, tuple(g.sig))
    ctx.desc = what
    ctx.nontrivial = True


def run_case(kind, idx, ctx):
    {'graph': case_graph, 'reject': case_reject}[kind](ctx)


if __name__ == '__main__':
    core.main('checks.p18')
