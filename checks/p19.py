"""P19: values, steps and schedules of the OPC UA layer, observed on a live loopback server."""
import os, re, time, socket, threading, logging
import numpy as np
import casadi as ca
from vf import core, ocp
from vf.models import gen_spec, rvals, _size
from checks import p07

ID = 'P19'
CASES = {'quick': [('tags', 36), ('loop', 36), ('async', 20)], 'thorough': [('tags', 700), ('loop', 900), ('async', 400)]}
RULE = ('one to three models (scalar, vector and matrix variables, unusual names, noise, SX and MX) are registered on a server on a free loopback port; histories of writes (array, DM, structure, '
        'integer and single precision, extreme values), reads, permuted and repeated tags, refused writes, several clients, concurrent writers and reconnects run against a shadow table of all nodes, which is '
        'compared with what an independent client reads; closed loops through the server are compared with the directly coupled loop; asynchronous operation with slow steps, stops and restarts '
        '(also with the stop injected between timer and step) is recorded as an event log and checked for overlap, excess steps, steps after the stop, read and written values; '
        'distinct by (models, history), non-trivial = at least ten values compared')
ASSUMPTIONS = ['variable names without ";"', 'concurrent writers use disjoint tags', 'a step in progress while the operation is stopped may finish']
NEED = {'writes': 250, 'reads': 250, 'refused': 80, 'nodes': 400, 'loop_steps': 150, 'async_steps': 60, 'stops': 20, 'stops_at_timer': 6, 'concurrent_writes': 100, 'node_checks': 2000}
MAX_INCONCLUSIVE = 0.2
NOSLEEP = False
TYPES = ['_x', '_u', '_z', '_tvp', '_p']


def free_port():
    with socket.socket() as s:
        s.bind(('127.0.0.1', 0))
        return s.getsockname()[1]


class Net:
    """server, clients and cleanup"""

    def __init__(self, ctx):
        logging.disable(logging.CRITICAL)
        import asyncua.sync
        from do_mpc import opcua
        self.ctx, self.op, self.raw_mod = ctx, opcua, asyncua.sync
        self.undo = []
        self.started = False

    def server(self):
        self.port = free_port()
        r = self.ctx.rng
        self.url = 'opc.tcp://%s:%d/freeopcua/server/' % (r.choice(['localhost', '127.0.0.1']), self.port)
        self.srv = self.op.RTServer(self.op.ServerOpts('server', self.url, self.port))
        return self.srv

    def base(self, obj, name, ns=None):
        r = self.ctx.rng
        a = self.url if r.random() < .7 else '127.0.0.1'
        tu = int(r.choice([1, 60, 3600]))
        b = self.op.RTBase(obj, self.op.ClientOpts(name, a, self.port, tu) if r.random() < .5 else self.op.ClientOpts(name, a, self.port), **({'namespace': ns} if ns else {}))
        return b

    def start(self):
        try:
            self.srv.start()
        except OSError as e:
            raise core.Inconclusive('port in use: %r' % e)
        self.started = True
        self.undo.append(self.srv.stop)
        # listens at the configured port
        for _ in range(50):
            with socket.socket() as s:
                if s.connect_ex(('127.0.0.1', self.port)) == 0:
                    break
            time.sleep(.1)
        else:
            self.ctx.violate('port', 'the server does not listen at the configured port')
            return False
        self.raw = self.raw_mod.Client('opc.tcp://127.0.0.1:%d/freeopcua/server/' % self.port)
        self.raw.connect()
        self.undo.append(self.raw.disconnect)
        return True

    def connect(self, b):
        b.connect()
        self.undo.append(b.disconnect)
        return self.undo[-1]

    def get(self, tag):
        return self.raw.get_node(tag).get_value()

    def close(self):
        for f in reversed(self.undo):
            try:
                f()
            except core.CaseTimeout:
                raise
            except Exception:
                pass


class Obj:
    """stand-in for a controller or simulator"""

    def __init__(self, model, t_step, step=None):
        self.model = model
        self.settings = type('S', (), {'t_step': t_step})()
        self.step = step

    def make_step(self, v):
        return self.step(v)


NAMES = ['a', 'T_R', 'default_value', 'x', 'u', 'C a', 'p1', 'aux', 'my default', 'x10', 'x1', 'Q_dot', 'v', 'ä', 'default']


def rand_model(do_mpc, r):
    """(model, {type: [(name, n)]})"""
    sym = str(r.choice(['SX', 'MX'], p=[.7, .3]))
    m = do_mpc.model.Model(str(r.choice(['continuous', 'discrete'])), sym)
    pool = list(NAMES[:-1])
    r.shuffle(pool)
    decl = {k: [] for k in ['x', 'u', 'z', 'tvp', 'p', 'aux', 'y', 'v', 'w']}
    h = {}
    big = r.random() < .2         # many nodes
    for t, lo, hi in (('x', 1, 3), ('u', 0, 2), ('z', 0, 1), ('tvp', 0, 2), ('p', 0, 2)):
        for _ in range(r.integers(lo, hi + 1)):
            nm = pool.pop()
            shp = [(1, 1), 1, (2, 1), (3, 1), (2, 2)][r.choice(5, p=[.35, .25, .2, .1, .1])]
            if t in 'xz' and shp == (2, 2):
                shp = (2, 1)
            if big and r.random() < .5:
                shp = (int(r.integers(11, 90)), 1)
            h[nm] = m.set_variable('_' + t, nm, shp)
            decl[t].append((nm, _size(shp)))
    for nm, n in decl['x']:
        noise = bool(r.random() < .4)
        m.set_rhs(nm, -h[nm], process_noise=noise)
        if noise:
            decl['w'].append((nm, n))
    for nm, n in decl['z']:
        m.set_alg('alg_' + nm, h[nm] - 1)
    for _ in range(r.integers(0, 3)):
        if not pool:
            break
        nm = pool.pop()
        n = int(r.integers(1, 3))
        m.set_expression(nm, ca.vertcat(*[h[decl['x'][0][0]][0] * (k + 1) for k in range(n)]))
        decl['aux'].append((nm, n))
    for _ in range(r.integers(0, 3)):
        nm = 'y%d' % len(decl['y']) if r.random() < .7 or not pool else pool.pop()
        n = int(r.integers(1, 3))
        noise = bool(r.random() < .5)
        m.set_meas(nm, ca.vertcat(*[h[decl['x'][0][0]][0] * (k + 1) for k in range(n)]), meas_noise=noise)
        decl['y'].append((nm, n))
        if noise:
            decl['v'].append((nm, n))
    if not decl['y']:
        decl['y'] = list(decl['x'])
        decl['v'] = list(decl['x'])
    m.setup()
    return m, decl


def value(r):
    return float(r.choice([r.normal(), r.normal() * 1e6, 0., -0., 1e308, -1e-308, 5e-324, np.inf, -np.inf, 1 / 3, float(r.integers(-5, 5))]))


def same(a, b):
    return a == b and np.signbit(a) == np.signbit(b)


def payload(r, vals, model=None, typ=None):
    """the vector in one of the accepted forms; returns (object, values that must arrive)"""
    k = r.integers(7)
    if k == 0:
        return np.array(vals), vals
    if k == 1:
        return np.array(vals).reshape(-1, 1), vals
    if k == 2:
        return np.array(vals).reshape(1, -1), vals
    if k == 3:
        return ca.DM(vals), vals
    if k == 4:
        q = [float(np.float32(v)) for v in vals] if all(abs(v) < 1e30 for v in vals) else vals
        return np.array(q, np.float32 if q is not vals else float), q
    if k == 5:
        q = [float(r.integers(-9, 9)) for _ in vals]
        return np.array(q, int), q
    if typ is not None:
        s = getattr(model, '_' + typ)(0) if callable(getattr(model, '_' + typ, None)) else None
        if s is not None and s.cat.shape[0] == len(vals):
            s.master = ca.DM(vals)
            return s, vals
    return np.array(vals), vals


def check_all(ctx, net, shadow, key, msg):
    ok = True
    for tag, v in shadow.items():
        q = net.get(tag)
        q = q[0] if isinstance(q, (list, tuple)) and len(q) == 1 else q
        ctx.count['node_checks'] += 1
        ok = ctx.check(isinstance(q, float) and same(q, v), key, '%s: node %s holds %r instead of %r' % (msg, tag, q, v)) and ok
    return ok


def register(ctx, net, bases):
    """bases: [(RTBase, model, declarations, name)]; returns shadow {tag: value} of the nodes on the server"""
    shadow = {}
    for b, m, decl, name in bases:
        net.srv.namespace_from_client(b)
    for b, m, decl, name in bases:
        for t, entries in decl.items():
            tags = b.namespace[t]
            want = [nm for nm, n in entries for _ in range(n)]
            ctx.check(len(tags) == len(want), 'node-count', 'type %s of %s has %d nodes for %d scalar variables' % (t, name, len(tags), len(want)), tags=tags, variables=want)
            for tag, nm in zip(tags, want):
                ctx.check(nm in tag, 'node-name', 'node %s at the position of variable %s' % (tag, nm), tags=tags, variables=want)
                ctx.check(tag not in shadow, 'node-distinct', 'tag %s is used for two variables' % tag)
                shadow[tag] = 0.0
                ctx.count['nodes'] += 1
            o = 0
            for nm, n in entries:
                # the elements of a variable in the order of the model
                ind = [re.findall(r'\d+', q.rsplit(nm, 1)[-1]) for q in tags[o:o + n]]
                if n > 1 and all(len(q) == 1 for q in ind):
                    ctx.check([int(q[0]) for q in ind] == list(range(n)), 'node-order', 'elements of %s in the order %s' % (nm, ind[:30]))
                    ctx.count['ordered'] += 1
                o += n
    return shadow


def tags_case(ctx, do_mpc):
    r = ctx.rng
    net = Net(ctx)
    try:
        net.server()
        bases = []
        for i in range(r.integers(1, 4)):
            m, decl = rand_model(do_mpc, r)
            t_step = round(float(r.uniform(.1, 2)), 3)
            b = net.base(Obj(m, t_step), 'client%d' % i)
            bases.append((b, m, decl, 'client%d' % i))
        early = r.random() < .5
        if early and not net.start():
            return
        for b, m, decl, name in bases:
            try:
                b.namespace['x']
                ctx.violate('tag-unregistered', 'tags are given out before the namespace is registered')
            except core.CaseTimeout:
                raise
            except Exception:
                pass
        shadow = register(ctx, net, bases)
        if not early and not net.start():
            return
        drop = {}
        for b, *_ in bases:
            drop[id(b)] = net.connect(b)
        check_all(ctx, net, shadow, 'initial', 'after registration')
        # every node is writable (independent client)
        for tag in list(shadow)[:8]:
            v = value(r)
            try:
                net.raw.get_node(tag).set_value([v])
                shadow[tag] = v
            except core.CaseTimeout:
                raise
            except Exception as e:
                ctx.violate('writable', 'node %s cannot be written by a client: %r' % (tag, e))
        alltags = list(shadow)
        hist = []
        for k in range(int(r.integers(14, 30))):
            b, m, decl, name = bases[r.integers(len(bases))]
            op = r.choice(['write', 'typewrite', 'read', 'refused', 'concurrent', 'reconnect', 'step', 'unknown'], p=[.2, .2, .2, .12, .08, .06, .1, .04])
            hist.append(str(op))
            if op in ('write', 'typewrite'):
                if op == 'typewrite':
                    typ = str(r.choice([t for t in decl if decl[t]]))
                    tags = b.namespace[typ]
                else:
                    typ = None
                    tags = [alltags[i] for i in r.choice(len(alltags), r.integers(1, min(6, len(alltags)) + 1), replace=False)]
                b.set_write_tags(tags)
                data, vals = payload(r, [value(r) for _ in tags], m, typ)
                b.write_to_tags(data)
                shadow.update(zip(tags, vals))
                ctx.count['writes'] += 1
                b2 = bases[r.integers(len(bases))][0]
                b2.set_read_tags(tags)
                q = b2.read_from_tags()
                ctx.check(q.shape == (len(tags), 1) and all(same(float(x), y) for x, y in zip(np.ravel(q), vals)), 'write-read', 'vector read differs from the vector written', wrote=vals, read=np.ravel(q), type=str(type(data)))
                ctx.count['reads'] += 1
            elif op == 'read':
                tags = [alltags[i] for i in r.integers(0, len(alltags), r.integers(1, 8))]
                b.set_read_tags(tags)
                q = np.ravel(b.read_from_tags())
                ctx.check(len(q) == len(tags) and all(same(float(x), shadow[t]) for x, t in zip(q, tags)), 'read', 'read values differ from those on the server', read=q, want=[shadow[t] for t in tags])
                ctx.count['reads'] += 1
            elif op == 'refused':
                tags = [alltags[i] for i in r.choice(len(alltags), r.integers(1, min(5, len(alltags)) + 1), replace=False)]
                b.set_write_tags(tags)
                n = len(tags)
                bad = [np.ones(n + 1), np.ones(n - 1), np.ones((n, 2)), ca.DM.ones(n + 2), [3.] * n, 3., 'abc', None, ca.SX.sym('s', n), tuple([1.] * n), {'a': 1}, np.array([]), m._x(5.) if m.n_x != n else np.ones(2 * n)][r.integers(13)]
                try:
                    b.write_to_tags(bad)
                    ctx.violate('accepted', 'a write of %r to %d tags was accepted' % (type(bad), n), value=str(bad))
                except core.CaseTimeout:
                    raise
                except Exception:
                    ctx.count['refused'] += 1
                check_all(ctx, net, {t: shadow[t] for t in tags}, 'refused-wrote', 'after a refused write')
            elif op == 'unknown':
                b.set_read_tags(['ns=2;s=nothing'])
                try:
                    q = b.read_from_tags()
                    ctx.violate('unknown-tag', 'a tag that does not exist can be read: %s' % q)
                except core.CaseTimeout:
                    raise
                except Exception:
                    ctx.count['refused'] += 1
            elif op == 'concurrent':
                parts = np.array_split(r.permutation(len(alltags)), len(bases))
                work = []
                for (bb, *_), p in zip(bases, parts):
                    tg = [alltags[i] for i in p[:5]]
                    if tg:
                        work.append((bb, tg, [[value(r) for _ in tg] for _ in range(5)]))
                errs = []

                def run(bb, tg, seqs):
                    try:
                        bb.set_write_tags(tg), bb.set_read_tags(tg)
                        for s in seqs:
                            bb.write_to_tags(np.array(s))
                            q = np.ravel(bb.read_from_tags())
                            if not all(same(float(x), y) for x, y in zip(q, s)):
                                errs.append('read %s after writing %s' % (q, s))
                    except Exception as e:
                        errs.append(repr(e))
                th = [threading.Thread(target=run, args=w) for w in work]
                [t.start() for t in th]
                [t.join(60) for t in th]
                ctx.check(not errs, 'concurrent', 'clients writing different tags at the same time: %s' % errs[:3])
                for bb, tg, seqs in work:
                    shadow.update(zip(tg, seqs[-1]))
                    ctx.count['concurrent_writes'] += len(seqs)
            elif op == 'reconnect':
                b.disconnect()
                net.undo.remove(drop[id(b)])
                b.client = net.op.RTClient(net.op.ClientOpts(name, net.url, net.port), b.namespace)
                drop[id(b)] = net.connect(b)
                ctx.count['reconnects'] += 1
            elif op == 'step':
                src = [alltags[i] for i in r.integers(0, len(alltags), r.integers(1, 6))]
                dst = [alltags[i] for i in r.choice(len(alltags), r.integers(1, min(6, len(alltags)) + 1), replace=False)]
                out = [value(r) for _ in dst]
                data, out = payload(r, out)
                calls = []

                def step(v):
                    calls.append(np.array(v, float))
                    return data
                b.do_mpc_object.step = step
                b.set_read_tags(src), b.set_write_tags(dst)
                b.make_step()
                ctx.check(len(calls) == 1, 'step-count', 'a step of the client performed %d steps of the wrapped object' % len(calls))
                ctx.check(len(calls) and calls[0].shape == (len(src), 1) and all(same(x, shadow[t]) for x, t in zip(calls[0].ravel(), src)), 'step-input', 'the step did not get the values of the read tags',
                          got=[c.ravel() for c in calls], want=[shadow[t] for t in src])
                shadow.update(zip(dst, out))
                ctx.count['steps'] += 1
        check_all(ctx, net, shadow, 'final', 'at the end')
        # the cycle time is the sampling time in seconds
        for b, m, decl, name in bases:
            f = b.cycle_time / b.do_mpc_object.settings.t_step
            ctx.check(any(abs(f / u - 1) < 1e-12 for u in (1, 60, 3600)), 'cycle', 'cycle time %s for sampling time %s' % (b.cycle_time, b.do_mpc_object.settings.t_step))
        q = net.op.RTBase(Obj(bases[0][1], .5), net.op.ClientOpts('c', net.url, net.port, 60))
        ctx.check(abs(q.cycle_time - 30) < 1e-9, 'cycle-unit', 'cycle time %s s for 0.5 minutes' % q.cycle_time)
        ctx.sig = (tuple(tuple(sorted((k, tuple(v)) for k, v in d.items())) for _, _, d, _ in bases), tuple(hist))
        ctx.desc = '%d clients, %d nodes: %s' % (len(bases), len(shadow), ' '.join(hist))
        ctx.nontrivial = len(hist) >= 5
    finally:
        net.close()


def make_sim(do_mpc, m, S, h, a, b):
    sim = do_mpc.simulator.Simulator(m)
    sim.set_param(t_step=h)
    if S.mtype == 'continuous':
        sim.set_param(integration_tool='idas' if S.n('_z') else 'cvodes')
    if S.n('_tvp'):
        tt = sim.get_tvp_template()

        def tf(t):
            tt.master = ca.DM(a + .3 * np.sin(3 * float(np.ravel(t)[0])))
            return tt
        sim.set_tvp_fun(tf)
    if S.n('_p'):
        pt = sim.get_p_template()

        def pf(t):
            pt.master = ca.DM(b)
            return pt
        sim.set_p_fun(pf)
    sim.setup()
    return sim


class Gain:
    """plain feedback with memory"""

    def __init__(self, model, h, K):
        self.model, self.K, self.k = model, K, 0
        self.settings = type('S', (), {'t_step': h})()
        self.x0 = None

    def make_step(self, v):
        self.k += 1
        return np.tanh(self.K @ np.asarray(v, float) + .1 * self.k)


def counted(obj):
    orig, log = obj.make_step, []

    def f(*a, **k):
        log.append([np.array(ca.DM(q)) for q in a])
        return orig(*a, **k)
    obj.make_step = f
    return log


def loop_case(ctx, do_mpc):
    r = ctx.rng
    ctl = str(r.choice(['gain', 'mpc', 'lqr'], p=[.4, .35, .25]))
    if ctl == 'lqr':
        S = gen_spec(r, mtype='discrete', nz=0, np_=0, ntvp=0, noise=False, meas=0, nonlin=False, sym='SX')
    else:
        S = gen_spec(r, noise=bool(r.random() < .3), meas=0 if ctl == 'mpc' else None, nz=None if ctl == 'gain' else int(r.choice([0, 0, 1])))
    m = S.build(do_mpc, r)
    h = round(float(r.uniform(.05, .4)), 3)
    a, b = r.normal(size=S.n('_tvp')) * .3, r.normal(size=S.n('_p')) * .3
    x0 = rvals(r, S, '_x')
    nx, nu, ny = S.n('_x'), S.n('_u'), m.n_y
    K = r.normal(size=(nu, ny)) * .3
    seed = int(r.integers(1 << 30))

    def pair(model):
        r2 = np.random.default_rng(seed)
        sim = make_sim(do_mpc, model, S, h, a, b)
        sim.x0 = x0
        if S.n('_z'):
            sim.z0 = S.solve_z(x0, np.zeros(nu), a + .3 * np.sin(0), b)
        sim.set_initial_guess() if S.n('_z') else None
        if ctl == 'gain':
            con = Gain(model, h, K)
        elif ctl == 'mpc':
            c = ocp.gen_mpc_cfg(r2, S, max_N=3, nl=0, max_scen=3)
            c.deg, c.ni = min(c.deg, 2), 1
            p07.bounded_costs(r2, S, c)
            con = ocp.build_mpc(do_mpc, S, model, c, order=r2, setup=False, set_fun=False, extra={'nlpsol_opts': dict(ocp.QUIET, **{'ipopt.max_iter': 30})})
            W = p07.World(r2, S, c)
            pf, tf = W.funs(con)
            if S.n('_p') or c.n_comb > 1:
                con.get_p_template(c.n_comb)
                con.set_p_fun(pf)
            if S.n('_tvp'):
                con.set_tvp_fun(tf)
            ocp.finish(con, c)
            con.x0 = x0
            con.set_initial_guess()
        else:
            con = do_mpc.controller.LQR(model)
            con.set_param(t_step=h, n_horizon=None if r2.random() < .5 else 4)
            con.set_objective(Q=np.eye(nx), R=np.eye(nu))
            con.setup()
        return sim, con

    if ctl == 'lqr':
        try:
            m = do_mpc.model.linearize(m, xss=np.zeros((nx, 1)), uss=np.zeros((nu, 1)))
            if isinstance(m, tuple):
                m = m[0]
        except core.CaseTimeout:
            raise
        except Exception as e:
            raise core.Inconclusive('no linear model: %r' % e)
        m_ny = m.n_y
    sim1, con1 = pair(m)
    sim2, con2 = pair(m)
    N = int(r.integers(3, 7))
    # direct
    order = r.choice(['con-first', 'sim-first'])
    v = x0.reshape(-1, 1) if m.n_y == nx else np.zeros((m.n_y, 1))
    u = np.zeros((nu, 1))
    U, Y = [], []
    try:
        for k in range(N):
            if order == 'con-first':
                u = np.array(ca.DM(con1.make_step(v)))
                v = np.array(ca.DM(sim1.make_step(u)))
            else:
                v = np.array(ca.DM(sim1.make_step(u)))
                u = np.array(ca.DM(con1.make_step(v)))
            U.append(u.ravel()), Y.append(v.ravel())
    except core.CaseTimeout:
        raise
    except Exception as e:
        raise core.Inconclusive('direct loop: %r' % e)
    if not np.all(np.isfinite(np.concatenate(U + Y))) or max(np.abs(np.concatenate(U + Y))) > 1e6:
        raise core.Inconclusive('trajectory left the working range')
    net = Net(ctx)
    try:
        net.server()
        bs, bc = net.base(sim2, 'simulator'), net.base(con2, 'controller')
        first = r.permutation(2)
        for i in first:
            net.srv.namespace_from_client((bs, bc)[i])
        if not net.start():
            return
        for q in (bs, bc):
            net.connect(q)
        ucl, ycl = (bs, bc)[r.integers(2)], (bs, bc)[r.integers(2)]
        ut, yt = ucl.namespace['u'], ycl.namespace['y']
        if not ctx.check(len(ut) == nu and len(yt) == m.n_y, 'loop-tags', 'wrong number of tags for the loop'):
            return
        bs.set_read_tags(ut), bs.set_write_tags(yt), bc.set_read_tags(yt), bc.set_write_tags(ut)
        init = x0.reshape(-1, 1) if m.n_y == nx else np.zeros((m.n_y, 1))
        if r.random() < .5 and m.n_y == nx:
            bs.write_to_tags(sim2.x0 if ctl != 'lqr' or True else init)
        else:
            bs.write_to_tags(init)
        bc.write_to_tags(np.zeros(nu))
        ls, lc = counted(sim2), counted(con2)
        for k in range(N):
            for q in ((bc, bs) if order == 'con-first' else (bs, bc)):
                q.make_step()
            got_u = np.array([net.get(t)[0] for t in ut])
            got_y = np.array([net.get(t)[0] for t in yt])
            ctx.count['loop_steps'] += 1
            ctx.count['loop_%s' % ctl] += 1
            if not ctx.close(got_u, U[k], 'loop-u', 'input in step %d of the loop through the server (%s)' % (k, ctl), rtol=1e-9, atol=1e-10):
                return
            if not ctx.close(got_y, Y[k], 'loop-y', 'measurement in step %d of the loop through the server (%s)' % (k, ctl), rtol=1e-9, atol=1e-10):
                return
            ctx.check(len(ls) == k + 1 and len(lc) == k + 1, 'loop-steps', '%d and %d steps performed in %d cycles' % (len(ls), len(lc), k + 1))
        ctx.check(np.array_equal(np.array(sim2.data['_y']) if ctl != 'x' else 0, np.array(sim1.data['_y'])) or np.allclose(sim2.data['_y'], sim1.data['_y'], rtol=1e-9, atol=1e-10), 'loop-record', 'recorded measurements differ from the direct loop')
        ctx.sig = (ctl, order, S.mtype, nx, nu, seed)
        ctx.desc = '%s %s, %d states, %d cycles' % (ctl, S.mtype, nx, N)
        ctx.nontrivial = True
    finally:
        net.close()


def async_case(ctx, do_mpc):
    r = ctx.rng
    m, decl = rand_model(do_mpc, r)
    while not (decl['x'] and decl['u']):
        m, decl = rand_model(do_mpc, r)
    h = float(r.choice([.03, .06, .1]))
    unit = 1
    mode = str(r.choice(['fast', 'slow', 'mixed']))
    net = Net(ctx)
    ev, lk = [], threading.Lock()
    state = {'active': 0, 'n': 0}

    def log(*e):
        with lk:
            ev.append((time.perf_counter(),) + e)

    nu = sum(n for _, n in decl['u'])
    durs = {'fast': [0, .005], 'slow': [1.5 * h, 2.2 * h], 'mixed': [0, h * .5, 1.4 * h]}[mode]
    dseq = [float(x) for x in r.choice(durs, 400)]

    def step(v):
        with lk:
            k = state['n']
            state['n'] += 1
            state['active'] += 1
            act = state['active']
            ev.append((time.perf_counter(), 'begin', k, np.ravel(np.array(v, float)), act))
        time.sleep(dseq[k % 400])
        out = np.full((nu, 1), float(k))
        with lk:
            state['active'] -= 1
            ev.append((time.perf_counter(), 'end', k))
        return out
    try:
        net.server()
        b = net.op.RTBase(Obj(m, h, step), net.op.ClientOpts('c', net.url, net.port, unit))
        net.srv.namespace_from_client(b)
        if not net.start():
            return
        net.connect(b)
        rt, wt = b.namespace['x'], b.namespace['u']
        b.set_read_tags(rt), b.set_write_tags(wt)
        orig_w = b.client.writeData

        def wd(tag, val):
            log('write', tag, val[0], threading.get_ident())
            return orig_w(tag, val)
        b.client.writeData = wd
        for t in rt:
            net.raw.get_node(t).set_value([0.0])
        counter = [0.0]
        hist = []
        racy = {'go': None}
        orig_run = b.async_run

        def run():
            # injected: the operation is stopped (and maybe started again) when the timer has just fired
            f = racy['go']
            if f is not None:
                racy['go'] = None
                f()
            return orig_run()
        b.async_run = run
        total_stop_checks = 0
        for rnd in range(int(r.integers(1, 4))):
            n0 = state['n']
            t0 = time.perf_counter()
            b.async_step_start()
            if r.random() < .3:
                b.async_step_start()      # has no effect on a running operation
                hist.append('start-twice')
            want = int(r.integers(1, 5))
            lim = time.perf_counter() + 20
            # the inputs change while the operation runs
            while state['n'] - n0 < want and time.perf_counter() < lim:
                counter[0] += 1
                log('set-start', counter[0])
                for t in rt:
                    net.raw.get_node(t).set_value([counter[0]])
                log('set', counter[0])
                time.sleep(h * float(r.uniform(.1, .6)))
            ctx.check(state['n'] - n0 >= want, 'async-progress', 'only %d steps within 20 s (cycle time %s s)' % (state['n'] - n0, h))
            race = r.random() < .5
            if race:
                done = threading.Event()
                again = r.random() < .3

                def stop():
                    b.async_step_stop()
                    if again:
                        b.async_step_start()
                        time.sleep(h * 2.5)
                        b.async_step_stop()
                    done.set()
                racy['go'] = stop
                if not done.wait(20):
                    raise core.Inconclusive('timer did not fire')
                ctx.count['stops_at_timer'] += 1
                hist.append('stop-at-timer' + ('-again' if again else ''))
            else:
                b.async_step_stop()
                hist.append('stop')
            t1 = time.perf_counter()
            ctx.count['stops'] += 1
            # steps begun before the stop (or waiting) may finish
            while True:
                q = state['n']
                time.sleep(max(6 * h, .3) + (3 * max(dseq) if mode != 'fast' else 0))
                if state['n'] == q and state['active'] == 0:
                    break
                if time.perf_counter() - t1 > 15:
                    break
            n1 = state['n']
            time.sleep(4 * h)
            ctx.check(state['n'] == n1 and time.perf_counter() - t1 < 25, 'async-stop', 'steps are still performed %.1f s after the operation was stopped (%d steps)' % (time.perf_counter() - t1, state['n'] - n0))
            if ctx.violations:
                break
            el = t1 - t0
            ctx.check(n1 - n0 <= el / h + 2 + (3 if race else 0), 'async-count', '%d steps in %.3f s with cycle time %s s' % (n1 - n0, el, h))
            total_stop_checks += 1
        b.async_step_stop()
        # offline: event log
        with lk:
            log_ = list(ev)
        begins = [e for e in log_ if e[1] == 'begin']
        for e in begins:
            ctx.count['async_steps'] += 1
            ctx.check(e[4] == 1, 'async-overlap', 'step %d begins while another step of the object is running (%s steps, cycle time %s s)' % (e[2], mode, h))
        # values read: not older than the last complete update before the step could begin, not newer than the current one
        ends = {e[2]: e[0] for e in log_ if e[1] == 'end'}
        last = -1.0
        for e in begins:
            newest = max([q[2] for q in log_ if q[1] == 'set-start' and q[0] <= e[0]], default=0.0)
            ctx.check(np.all(e[3] <= newest) and e[3].size == len(rt), 'async-input', 'step %d got values %s that are not on the server yet (%s)' % (e[2], e[3], newest))
            ctx.check(np.all(e[3] >= last), 'async-input-old', 'step %d got values %s older than those of the previous step (%s)' % (e[2], e[3], last))
            last = float(e[3].max())
        # every step writes its result once, in the order of the steps
        writes = [e for e in log_ if e[1] == 'write']
        for t in wt:
            w = [e[3] for e in writes if e[2] == t]
            ctx.check(w == [float(k) for k in range(len(begins))], 'async-output', 'results written to %s are %s after %d steps' % (t, w[:30], len(begins)))
            if begins:
                ctx.check(net.get(t) == [float(len(begins) - 1)], 'async-final', 'node %s holds %s after step %d' % (t, net.get(t), len(begins) - 1))
        ctx.sig = (mode, h, tuple(hist), len(begins), len(rt), len(wt))
        ctx.desc = '%s steps, cycle %s s: %s, %d steps' % (mode, h, ' '.join(hist), len(begins))
        ctx.nontrivial = len(begins) >= 2
    finally:
        try:
            b.async_step_stop()
        except Exception:
            pass
        net.close()


def run_case(kind, idx, ctx):
    import do_mpc
    {'tags': tags_case, 'loop': loop_case, 'async': async_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p19')
