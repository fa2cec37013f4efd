"""P14: sampling plans (shadow model of the planner; export/import through the file system)."""
import os, shutil, tempfile, itertools, copy
import numpy as np
from vf import core

ID = 'P14'
CASES = {'quick': [('plan', 5000), ('export', 2500)], 'thorough': [('plan', 12000), ('export', 5000)]}
RULE = ('random histories of variable declarations, random generations, products (also partial, with repeated values, empty lists), manual cases and refused calls; a shadow plan is '
        'kept by the monitor from logged generator calls and compared after every operation; random export histories in a folder with existing files, compared file by file '
        '(content digests) with a shadow folder; distinct by operation sequence; non-trivial = at least two kinds of additions')
ASSUMPTIONS = ['variables are declared before the first case, as documented', 'data_dir ends with a path separator, as in all documentation']
NEED = {'cases': 2000, 'products': 200, 'exports': 300, 'imports': 150, 'refused': 100}


def rval(rng):
    k = rng.integers(6)
    return [int(rng.integers(-5, 5)), float(np.round(rng.normal(), 3)), 'abc'[rng.integers(3)], None, [1, int(rng.integers(3))], np.round(rng.normal(size=2), 2)][k]


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool((a == b).all())
    return type(a) == type(b) and a == b


def same_plan(p, q):
    return len(p) == len(q) and all(set(a) == set(b) and all(same(a[k], b[k]) for k in a) for a, b in zip(p, q))


class Gen:
    """generator whose calls are logged"""

    def __init__(self, rng, mode):
        self.rng, self.log, self.mode = rng, [], mode

    def fun(self):
        def f():
            v = rval(self.rng) if self.mode else float(self.rng.normal())
            self.log.append(v)
            return v
        return f


def declare(ctx, sp):
    rng = ctx.rng
    names = list(rng.permutation(['alpha', 'beta', 'T_in', 'x0', 'k']))[:int(rng.integers(1, 4))]
    gens = {}
    for n in names:
        n = str(n)
        if rng.random() < 0.8:
            g = Gen(rng, rng.integers(2))
            gens[n] = g
            if rng.random() < 0.15:
                sp.set_sampling_var(n, fun_var_pdf=g.fun())
            else:
                sp.set_sampling_var(n, g.fun())
        else:
            gens[n] = None
            sp.set_sampling_var(n)
    return [str(n) for n in names], gens


def compare(ctx, sp, shadow, prec, ret=None):
    plan = sp.sampling_plan
    ctx.check(same_plan([{k: v for k, v in c.items() if k != 'id'} for c in plan], shadow), 'plan', 'plan %s instead of %s' % (plan[-3:], shadow[-3:]))
    ids = [c.get('id') for c in plan]
    ctx.check(all(isinstance(i, str) for i in ids) and len(set(ids)) == len(ids), 'ids-unique', 'ids %s' % ids[-5:])
    if ret is not None:
        ctx.check(same_plan(ret, plan), 'return', 'returned plan differs from the stored one')


def plan_case(ctx, do_mpc):
    rng = ctx.rng
    sp = do_mpc.sampling.SamplingPlanner(id_precision=int(rng.integers(1, 5))) if rng.random() < 0.5 else do_mpc.sampling.SamplingPlanner()
    prec = sp.id_precision
    names, gens = declare(ctx, sp)
    if rng.random() < 0.2:
        ctx.raises(lambda: sp.set_sampling_var('id', lambda: 1), 'reserved-id', 'variable called id')
        ctx.raises(lambda: sp.set_sampling_var(3, lambda: 1), 'refuse-name', 'variable name that is not a string')
        ctx.raises(lambda: sp.set_sampling_var('q', 3.0), 'refuse-gen', 'generator that is not a function')
        ctx.check(list(sp.sampling_var_names) == names, 'refused-change', 'refused declarations change the planner')
        ctx.count['refused'] += 1
    shadow, seq = [], []
    ids = []
    for _ in range(int(rng.integers(2, 7))):
        op = ['gen', 'product', 'manual', 'bad'][rng.choice(4, p=[.3, .35, .25, .1])]
        seq.append(op)
        before = len(shadow)
        for g in gens.values():
            if g:
                g.log.clear()
        logs = {}
        exp = None
        free = [n for n in names if gens[n] is None]
        if op == 'gen':
            if free:
                ctx.raises(lambda: sp.gen_sampling_plan(3), 'refuse-missing', 'generation without a generator')
                exp = []
            else:
                n = int(rng.integers(1, 6)) if rng.random() < 0.97 else int(rng.choice([15, 120, 600, 1100]))
                ret = sp.gen_sampling_plan(n) if rng.random() < 0.5 else sp.gen_sampling_plan(n_samples=n)
                exp = [{k: gens[k].log[i] for k in names} for i in range(n)] if all(len(gens[k].log) == n for k in names) else None
                ctx.check(exp is not None, 'generator-calls', 'generators called %s times for %d cases' % ([len(gens[k].log) for k in names], n))
                if exp is None:
                    return
        elif op == 'product':
            given = [n for n in names if gens[n] is None or rng.random() < 0.7]
            rng.shuffle(given)
            vals = {n: [rval(rng) for _ in range(int(rng.choice([0, 1, 2, 3], p=[.05, .3, .4, .25])))] for n in given}
            ret = sp.product(**vals)
            combos = list(itertools.product(*[vals[n] for n in given]))
            rest = [n for n in names if n not in given]
            new = [{k: v for k, v in c.items() if k != 'id'} for c in sp.sampling_plan[before:]]
            ctx.count['products'] += 1
            ctx.check(len(new) == len(combos), 'product-size', '%d cases for %d combinations' % (len(new), len(combos)))
            # each combination once, in any order; the other variables from their generators
            left = list(combos)
            for c in new:
                hit = [i for i, q in enumerate(left) if all(same(c.get(n), v) for n, v in zip(given, q))]
                if not hit:
                    ctx.check(False, 'product-combination', 'case %s is not one of the remaining combinations' % c)
                    return
                left.pop(hit[0])
            ctx.check(not left, 'product-combination', 'combinations without a case: %s' % left[:3])
            for n in rest:
                ctx.check(len(gens[n].log) == len(combos) and all(same(a, c[n]) for a, c in zip(gens[n].log, new)), 'generator-values', 'values of %s are not the generated ones' % n)
            ctx.check(all(set(c) == set(names) for c in new), 'all-variables', 'variables of the cases')
            exp = new
        elif op == 'manual':
            given = [n for n in names if gens[n] is None or rng.random() < 0.6]
            vals = {n: rval(rng) for n in given}
            ret = sp.add_sampling_case(**vals)
            exp = [{n: vals[n] if n in vals else (gens[n].log[-1] if gens[n].log else 'missing') for n in names}]
            ctx.check(all(len(gens[n].log) == (n not in vals) for n in names if gens[n]), 'generator-calls', 'generators called for given variables')
        else:
            k = rng.integers(4)
            f = [lambda: sp.add_sampling_case(nonsense=1), lambda: sp.product(nonsense=[1, 2]), lambda: sp.product(**{names[0]: 3}), lambda: sp.gen_sampling_plan(0)][k]
            ctx.raises(f, 'refuse-%d' % k, 'invalid call')
            ctx.count['refused'] += 1
            exp = []
        shadow += copy.deepcopy(exp)
        compare(ctx, sp, shadow, prec)
        now = [c['id'] for c in sp.sampling_plan]
        ctx.check(now[:len(ids)] == ids, 'ids-stable', 'ids of earlier cases changed')
        ids = now
        ctx.count['cases'] += len(exp)
    ctx.sig = ['plan', len(names), prec, seq, len(shadow)]
    ctx.desc = dict(names=names, generators=[bool(gens[n]) for n in names], operations=seq, cases=len(shadow))
    ctx.nontrivial = len(set(seq) - {'bad'}) >= 2 and len(shadow) > 1
    # the plan is what a sampler consumes
    if shadow:
        ctx.check(do_mpc.sampling.Sampler(sp.sampling_plan).n_samples == len(shadow), 'sampler-size', 'sampler sees another number of cases')


def digest(d):
    out = {}
    for n in os.listdir(d):
        with open(os.path.join(d, n), 'rb') as f:
            out[n] = f.read()
    return out


def export_case(ctx, do_mpc):
    from do_mpc.tools import load_pickle
    rng = ctx.rng
    root = tempfile.mkdtemp(prefix='p14_')
    seq = []
    try:
        d = os.path.join(root, ['plans', 'a/b', 'x.pkl_dir', 'with space'][rng.integers(4)]) + '/'
        sp = do_mpc.sampling.SamplingPlanner()
        sp.data_dir = d
        names, gens = declare(ctx, sp)
        # unrelated files of the folder
        if rng.random() < 0.1:
            for k in [''] + list(range(1, int(rng.integers(3, 40)))):
                with open(d + 'plan%s.pkl' % k, 'wb') as f:
                    f.write(rng.bytes(5))
        for k in range(int(rng.integers(0, 4))):
            with open(d + ['plan.pkl', 'plan1.pkl', 'plan2.pkl', 'other.txt', 'case.pkl', 'plan3.pkl'][rng.integers(6)], 'wb') as f:
                f.write(rng.bytes(20))
        written = []
        for _ in range(int(rng.integers(2, 7))):
            vals = {n: [rval(rng)] for n in names}
            sp.product(**vals)
            over = bool(rng.random() < 0.25)
            name = ['plan', 'case', 'plan.pkl', 'run7', 'set.2.pkl', 'Plan_B'][rng.integers(6)]
            sp.set_param(overwrite=over)
            before = digest(d)
            sp.export(name)
            after = digest(d)
            seq.append((name, over))
            ctx.count['exports'] += 1
            changed = [n for n in before if after.get(n) != before[n]]
            new = [n for n in after if n not in before]
            base = (name[:-4] if name.endswith('.pkl') else name) + '.pkl'
            if over:
                ctx.check(set(changed) <= {base} and (new == [] or new == [base]), 'export-overwrite', 'overwriting %s changed %s and created %s' % (name, changed, new))
                target = base
            else:
                ctx.check(not changed, 'export-changed', 'export changed existing files %s' % changed)
                ctx.check(len(new) == 1, 'export-new', 'export created %s' % new)
                target = new[0] if new else None
                if target and base not in before:
                    ctx.check(target == base, 'export-name', 'plan %s stored as %s' % (name, target))
            if target and target in after:
                got = load_pickle(d + target)
                ctx.check(same_plan(got, sp.sampling_plan), 'import', 'loaded plan differs from the exported one')
                ctx.count['imports'] += 1
                written = [w for w in written if w[0] != target] + [(target, copy.deepcopy(sp.sampling_plan))]
            # nothing outside the folder
            ctx.check(sorted(os.listdir(root)) == [os.path.relpath(d, root).split('/')[0]], 'export-outside', 'files outside the folder %s' % os.listdir(root))
        for t, p in written:
            ctx.check(same_plan(load_pickle(d + t), p), 'export-kept', 'earlier exported plan %s' % t)
        ctx.sig, ctx.desc = ['export', seq, d[len(root):]], dict(folder=d[len(root):], exports=seq)
        ctx.nontrivial = len(seq) > 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_case(kind, idx, ctx):
    import do_mpc
    {'plan': plan_case, 'export': export_case}[kind](ctx, do_mpc)


if __name__ == '__main__':
    core.main('checks.p14')
