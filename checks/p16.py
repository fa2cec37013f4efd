"""P16: data handler queries against a shadow store."""
import os, shutil, tempfile, copy
import numpy as np
from vf import core

ID = 'P16'
CASES = {'quick': [('query', 5250)], 'thorough': [('query', 14000)]}
RULE = ('random plans and result folders (several folders, names and formats side by side, missing results) with random histories of indexing (integers, negative, slices, lists, tuples), '
        'filtering with generated conditions (lambda, def with local variables), post-processing functions of both forms (added or replaced at any time), folder/name/format changes and '
        'results added or overwritten between queries; every answer is compared with a shadow store; distinct by operations; non-trivial = at least four answered queries')
ASSUMPTIONS = ['post-processing and filter functions do not modify their arguments and filters return booleans (of python or numpy, scalar or as array with one element)', 'output filters are only applied where the results exist',
               'for the mat format the stored result is the content of the mat file', 'data_dir ends with a path separator']
NEED = {'queries': 1800, 'entries': 5000, 'filters': 500, 'after_change': 500, 'missing': 100, 'replaced_inputs': 100}


def run_case(kind, idx, ctx):
    import do_mpc
    rng = ctx.rng
    root = tempfile.mkdtemp(prefix='p16_')
    try:
        go(ctx, rng, do_mpc, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def sampled(rng, v):
    k = rng.integers(4)
    if k == 0:
        return v
    if k == 1:
        return {'val': v, 'vec': np.arange(3) * v}
    if k == 2:
        return np.array([v, 2 * v, -v])
    return [v, 'text', None]


def scal(r):
    """scalar characteristic of a result of any form"""
    if isinstance(r, dict) and '__header__' in r:
        r = r['res']
    if isinstance(r, np.ndarray) and r.dtype == object:
        r = r.ravel()[0]
    if isinstance(r, np.ndarray) and r.dtype.names:
        return float(np.ravel(r['val'])[0].ravel()[0])
    if isinstance(r, dict):
        return float(r['val'])
    if isinstance(r, np.ndarray):
        return float(r.ravel()[0])
    if isinstance(r, list):
        return float(r[0])
    return float(r)


def go(ctx, rng, do_mpc, root):
    sp = do_mpc.sampling.SamplingPlanner()
    sp.set_sampling_var('alpha', lambda: float(np.round(rng.normal(), 3)))
    sp.set_sampling_var('beta', lambda: int(rng.integers(0, 5)))
    sp.set_sampling_var('tag', lambda: 'xyz'[rng.integers(3)])
    n = int(rng.integers(2, 10)) if rng.random() < 0.985 else int(rng.integers(45, 140))
    plan = sp.gen_sampling_plan(n)
    dirs = [os.path.join(root, d) + '/' for d in ('one', 'two/b')]
    names = ['sample', 'dummy']
    fmts = ['pickle', 'mat']
    store = {}                     # (dir, name, fmt) -> {id: scalar}
    ver = [0]

    def produce(d, nm, fm, sub, over=False):
        s = do_mpc.sampling.Sampler(plan, sample_name=nm, save_format=fm, print_progress=False, overwrite=over)
        s.data_dir = d
        ver[0] += 1
        bias = 10. * ver[0]
        form = int(rng.integers(1 << 30))
        zero = bool(rng.random() < 0.2)

        def value(alpha, beta):
            # results may also be zero
            return 0.0 if zero and beta < 3 else bias + round(alpha + 3 * beta, 6)

        def fun(alpha, beta, tag):
            v = value(alpha, beta)
            return sampled(np.random.default_rng(form), v) if fm == 'pickle' else v * np.ones(2)
        s.set_sample_function(fun)
        sh = store.setdefault((d, nm, fm), {})
        for i in sub:
            c = plan[i]
            new = over or c['id'] not in sh
            s.sample_idx(int(i))
            if new:
                sh[c['id']] = value(c['alpha'], c['beta'])
    for d in dirs:
        os.makedirs(d)
    for _ in range(int(rng.integers(1, 4))):
        produce(dirs[rng.integers(2)], names[rng.integers(2)], fmts[int(rng.random() < 0.3)], rng.permutation(n)[:int(rng.integers(1, n + 1))])
    cur = list(sorted(store)[0]) if rng.random() < 0.7 else [dirs[0], names[0], fmts[0]]
    kw = dict(data_dir=cur[0], sample_name=cur[1], save_format=cur[2])
    if rng.random() < 0.5:
        dh = do_mpc.sampling.DataHandler(plan, **kw)
    else:
        dh = do_mpc.sampling.DataHandler(plan)
        dh.set_param(**kw)
    post = {}
    seq = []
    nq = 0
    changed = False

    def expect_post(c, v):
        """expected values of one entry: {name: scalar or None}"""
        out = {}
        for k, (form, a) in post.items():
            out[k] = None if v is None else (a * v if form == 1 else a * v + 100 * c['beta'] + len(c['tag']))
        return out

    def check_entry(e, c, what):
        v = store.get(tuple(cur), {}).get(c['id'])
        ctx.count['entries'] += 1
        for k in ('alpha', 'beta', 'tag', 'id'):
            if k in post:
                ctx.count['replaced_inputs'] += 1
                continue
            ctx.check(k in e and e[k] == c[k], 'entry-input', '%s: input %s of case %s is %s' % (what, k, c['id'], e.get(k)))
        if post:
            ctx.check(set(e) == set(c) | set(post), 'entry-keys', '%s: keys %s' % (what, sorted(e)))
            for k, w in expect_post(c, v).items():
                g = e.get(k)
                ctx.check((g is None) == (w is None) and (w is None or abs(g - w) < 1e-9 * (1 + abs(w))), 'entry-post', '%s: %s of case %s is %s instead of %s' % (what, k, c['id'], g, w))
        else:
            ctx.check(set(e) == set(c) | {'res'}, 'entry-keys', '%s: keys %s' % (what, sorted(e)))
            g = e.get('res')
            g = None if g is None else scal(g)
            ctx.check((g is None) == (v is None) and (v is None or abs(g - v) < 1e-12 * (1 + abs(v))), 'entry-res', '%s: result of case %s is %s instead of %s' % (what, c['id'], g, v))
        if v is None:
            ctx.count['missing'] += 1

    def check_list(got, cases, what):
        ctx.count['queries'] += 1
        if changed:
            ctx.count['after_change'] += 1
        ids = [e.get('id') for e in got]
        if ctx.check(ids == [c['id'] for c in cases], 'selection', '%s returned cases %s instead of %s' % (what, ids, [c['id'] for c in cases])):
            for e, c in zip(got, cases):
                check_entry(e, c, what)

    def p1(a):
        return lambda res: a * scal(res)

    def p2(a):
        def f(case, result):
            base = a * scal(result)
            return base + 100 * case['beta'] + len(case['tag'])
        return f
    for _ in range(int(rng.integers(5, 14))):
        op = ['int', 'slice', 'list', 'all', 'filter', 'post', 'setting', 'produce', 'overwrite', 'bad'][rng.choice(10, p=[.1, .12, .12, .1, .2, .1, .1, .08, .05, .03])]
        seq.append(op)
        if op == 'int':
            i = int(rng.integers(-n, n))
            check_list(dh[i], [plan[i]], 'index %d' % i)
        elif op == 'slice':
            a, b = [None if rng.random() < 0.3 else int(rng.integers(-n - 1, n + 2)) for _ in range(2)]
            st = [None, 1, 2, -1][rng.integers(4)]
            check_list(dh[a:b:st], plan[a:b:st], 'slice %s:%s:%s' % (a, b, st))
        elif op == 'list':
            ind = [int(i) for i in rng.integers(-n, n, size=int(rng.integers(0, 4)))]
            q = dh[tuple(ind)] if rng.random() < 0.5 else dh[ind]
            check_list(q, [plan[i] for i in ind], 'indices %s' % ind)
        elif op == 'all':
            check_list(dh[:], plan, 'all')
        elif op == 'filter':
            ctx.count['filters'] += 1
            th, bt = float(np.round(rng.normal(scale=0.5), 2)), int(rng.integers(0, 5))
            fi = rng.integers(5)
            # what comparisons of python numbers, numpy scalars and 1x1 arrays give
            truth = [bool, bool, np.bool_, lambda q: np.array([[bool(q)]]), lambda q: np.array(bool(q))][rng.integers(5)]
            if fi == 0:
                fin, cin = None, lambda c: True
            elif fi == 1:
                fin, cin = (lambda alpha: truth(alpha > th)), lambda c: c['alpha'] > th
            elif fi == 2:
                fin, cin = (lambda beta, tag: truth(beta >= bt or tag == 'x')), lambda c: c['beta'] >= bt or c['tag'] == 'x'
            elif fi == 3:
                def fin(tag, alpha):
                    limit = th * 2
                    inside = alpha < limit
                    return truth(inside and tag != 'z')
                cin = lambda c: c['alpha'] < 2 * th and c['tag'] != 'z'
            else:
                fin, cin = (lambda id: truth(int(id) % 2 == 0)), lambda c: int(c['id']) % 2 == 0
            pre = [c for c in plan if cin(c)]
            sh = store.get(tuple(cur), {})
            fo = rng.integers(4) if all(c['id'] in sh for c in pre) else 0
            m = float(np.median([sh[c['id']] for c in pre])) if pre and all(c['id'] in sh for c in pre) else 0.
            key = list(post)[rng.integers(len(post))] if post else None
            if fo == 0:
                fout, cout = None, lambda c: True
            elif key is None:
                if fo == 1:
                    fout, cout = (lambda res: truth(scal(res) <= m)), lambda c: scal_eq(sh[c['id']]) <= m
                else:
                    def fout(res, beta):
                        value = scal(res)
                        return truth(value > m and beta != bt)
                    cout = lambda c: sh[c['id']] > m and c['beta'] != bt
            else:
                mm = float(np.median([expect_post(c, sh[c['id']])[key] for c in pre])) if pre else 0.
                ns = {}
                exec('def fout(%s, alpha):\n    limit = lim\n    value = %s\n    return bool(value >= limit - 1e-7 or alpha > 1.0)' % (key, key), {'lim': mm, 'bool': truth}, ns)
                fout = ns['fout']
                cout = lambda c: expect_post(c, sh[c['id']])[key] >= mm - 1e-7 or c['alpha'] > 1.0
            want = [c for c in pre if cout(c)]
            kwf = {}
            if fin is not None or rng.random() < 0.5:
                kwf['input_filter'] = fin
            if fout is not None or rng.random() < 0.5:
                kwf['output_filter'] = fout
            check_list(dh.filter(**kwf), want, 'filter %d/%d' % (fi, fo))
        elif op == 'post':
            k = ['value', 'square', 'cost', 'tag', 'beta'][rng.choice(5, p=[.27, .27, .26, .1, .1])]   # may carry the name of an input
            a = float(np.round(rng.uniform(0.5, 3), 2))
            form = int(rng.integers(1, 3))
            dh.set_post_processing(k, p1(a) if form == 1 else p2(a))
            post[k] = (form, a)
        elif op == 'setting':
            j = rng.integers(3)
            cur[j] = [dirs, names, fmts][j][rng.integers(2)]
            if rng.random() < 0.5:
                dh.set_param(**{['data_dir', 'sample_name', 'save_format'][j]: cur[j]})
            else:
                setattr(dh, ['data_dir', 'sample_name', 'save_format'][j], cur[j])
            changed = True
        elif op == 'produce':
            produce(cur[0], cur[1], cur[2], rng.permutation(n)[:int(rng.integers(1, n + 1))])
            changed = True
        elif op == 'overwrite':
            produce(cur[0], cur[1], cur[2], rng.permutation(n)[:int(rng.integers(1, n + 1))], over=True)
            changed = True
        else:
            ctx.raises(lambda: dh[n + 3], 'refuse-index', 'index outside of the plan')
            ctx.raises(lambda: dh['0'], 'refuse-index', 'string index')
            ctx.raises(lambda: dh.filter(input_filter=3), 'refuse-filter', 'filter that is not a function')
            ctx.raises(lambda: dh.set_post_processing('f', lambda a, b, c: 1), 'refuse-post', 'post-processing function with three arguments')
            ctx.raises(lambda: dh.set_post_processing(3, lambda r: 1), 'refuse-post', 'name that is not a string')
        nq += op in ('int', 'slice', 'list', 'all', 'filter')
    # several handlers on the same data agree with each other
    dh2 = do_mpc.sampling.DataHandler(plan, data_dir=cur[0], sample_name=cur[1], save_format=cur[2])
    keep, post_ = post, dict(post)
    post = {}
    check_list(dh2[:], plan, 'second handler')
    post = keep
    check_list(dh[:], plan, 'first handler')
    ctx.sig, ctx.desc = [n, seq, sorted(post)], dict(cases=n, operations=seq, stores=len(store))
    ctx.nontrivial = nq >= 4


def scal_eq(v):
    return v


if __name__ == '__main__':
    core.main('checks.p16')
