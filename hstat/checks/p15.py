"""P15 - time series data sets.  The data set procedures are evaluated over an
abstract file system with samples of unrestricted entries; stored and in-memory
data sets go through the same obligations."""
import itertools

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse

FLOOR = 60
TD = 'time_series_data.time_dataset'
Z = alg.ZERO
C = alg.const
D = '/data/set'


def groups(tier):
    return [('collator', collator), ('loader', loader), ('memory', memory), ('stored', stored), ('features', features),
            ('refusals', refusals), ('split', split), ('files', files), ('move', move),
            ('many samples', many), ('precision', precision), ('independence', independence)]


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def sample(i, lens=None, keys=('e', 's', 'h')):
    dims = {'e': 2, 's': 3, 'h': 2}
    n = (lens or {}).get(i, 3)
    return PyDict([(k, tens(f'{k}.{i}', (n, dims[k]))) for k in keys])


def world(ctx, kind, n, lens=None, keys=('e', 's', 'h')):
    I = ctx.interp()
    smp = [sample(i, lens, keys) for i in range(n)]
    fs = FS(I, dirs=[D, '/other', '/out'])
    if kind == 'memory':
        ds = I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList(smp)], {})
    else:
        names = [f'{D}/sample_{i}.pt' for i in range(n)]
        for p, s in zip(names, smp):
            fs.state.set(p, s)
        ds = I.call(I.get(TD, 'TimeSeriesDataset'), [D, PyList(names)], {})
    return I, fs, ds


def item(I, ds, i):
    return I.getitem(ds, i)


def size(I, ds):
    return I.as_int(I.call(Lib('builtins.len'), [ds], {}))


def content(s):
    return {k: (tuple(s.get(k).shape), s.get(k).vals()) if isinstance(s.get(k), Tensor) else s.get(k) for k in s.keys()}


KINDS = ('memory', 'stored')


def collator(ctx):
    f = 'time_collator'
    for n, lens in ((1, {}), (2, {}), (3, {})):
        I = ctx.interp()
        w = f'{TD}:{f} {n}'
        smp = [sample(i) for i in range(n)]
        for i, s in enumerate(smp):
            s.set('name', f'path {i}')
            s.set('vector', tens(f'v{i}', (4,)))
        b = ctx.run('collate', w, lambda: I.call(I.get(TD, f), [PyList(smp)], {}))
        if b is None:
            continue
        ctx.ob('batch-has-every-time-series-feature', w, sorted(b.keys()) == ['e', 'h', 's'], sorted(b.keys()))
        for k, m in (('e', 2), ('s', 3), ('h', 2)):
            t = b.get(k)
            if not isinstance(t, Tensor):
                continue
            ref = [S(f'{k}.{j}[{tt * m + q}]') for tt in range(3) for j in range(n) for q in range(m)]
            ctx.same('sample-of-a-batch-keeps-its-own-history', f'{w} {k}', t, tlib.new(ref, (3, n, m), 'float32', 'torch'))
        ctx.ob('samples-unchanged', w, all(content(PyDict([(k, s.get(k)) for k in ('e', 's', 'h')])) == content(sample(i)) for i, s in enumerate(smp)))


DL = ('dataset', 'batch_size', 'shuffle', 'sampler', 'batch_sampler', 'num_workers', 'collate_fn', 'pin_memory', 'drop_last', 'timeout',
      'worker_init_fn', 'multiprocessing_context', 'generator', 'prefetch_factor', 'persistent_workers', 'pin_memory_device')


def dl_stub(log):
    def f(I, a, k):
        b = dict(zip(DL, a))
        for x, v in k.items():
            if x not in DL:
                raise AbsRaise('TypeError', f'DataLoader got an unexpected keyword argument {x!r}')
            b[x] = v
        log.append(b)
        return fake(I, 'DataLoader')
    return f


def loader(ctx):
    for bs, sh in ((None, None), (3, True), (1, False), (4, False)):
        I, fs, ds = world(ctx, 'memory', 2)
        log = []
        I.stubs['lib:torch.utils.data.DataLoader'] = dl_stub(log)
        kw = {}
        if bs:
            kw = {'batch_size': bs, 'is_shuffle': sh}
        g = fake(I, 'Generator')
        kw.update(generator=g, worker_init_fn=None)
        w = f'{TD}:get_time_series_data_loader {bs} {sh}'
        if ctx.run('loader', w, lambda: I.call(I.get(TD, 'get_time_series_data_loader'), [ds], kw)) is None:
            continue
        b = log[0] if len(log) == 1 else {}
        ctx.ob('one-loader-of-the-data-set', w, len(log) == 1 and b.get('dataset') is ds, len(log))
        ctx.ob('requested-batch-size-and-shuffle', w, b.get('batch_size') == (bs or 1) and bool(b.get('shuffle')) == bool(sh), (b.get('batch_size'), b.get('shuffle')))
        ctx.ob('options-reach-the-loader', w, b.get('generator') is g, '')
        ctx.ob('no-sample-dropped', w, not b.get('drop_last') and b.get('sampler') is None, '')
        cf = b.get('collate_fn')
        r = ctx.run('collate', w, lambda: I.call(cf, [PyList([sample(0), sample(1)])], {}))
        if r is not None:
            ctx.same('batches-are-collated-along-the-batch-dimension', w, r.get('e'), tlib.new(
                [S(f'e.{j}[{t * 2 + q}]') for t in range(3) for j in range(2) for q in range(2)], (3, 2, 2), 'float32', 'torch'))


def memory(ctx):
    w = f'{TD}:TimeSeriesDatasetInMemory'
    for n in (1, 2, 4):
        I, fs, ds = world(ctx, 'memory', n)
        ctx.ob('length-is-number-of-samples', f'{w} {n}', size(I, ds) == n)
        for i in range(n):
            ctx.ob('item-is-the-sample', f'{w} {n} {i}', content(item(I, ds, i)) == content(sample(i)))
        cp = ctx.run('copy', w, lambda: call(I, ds, 'get_dataset_samples'))
        if cp is not None:
            for s in I.iterate(cp):
                I.setitem(s.get('e'), 0, Num(C(0)))
                s.set('new', tens('new', (1, 1)))
            ctx.ob('returned-samples-are-copies', w, all(content(item(I, ds, i)) == content(sample(i)) for i in range(n)))
        if ctx.run('add', w, lambda: (call(I, ds, 'add_dataset_samples', PyList([sample(7), sample(8)])), 1)[1]) is not None:
            ctx.ob('samples-appended-in-order', f'{w} {n}', size(I, ds) == n + 2 and content(item(I, ds, n)) == content(sample(7))
                   and content(item(I, ds, n + 1)) == content(sample(8)) and content(item(I, ds, 0)) == content(sample(0)))
    for n in (4,):
        for r in range(0, 4):
            for idx in itertools.permutations(range(n), r):
                I, fs, ds = world(ctx, 'memory', n)
                if ctx.run('remove', w, lambda: (call(I, ds, 'remove_dataset_samples', PyList(list(idx))), 1)[1]) is None:
                    continue
                keep = [i for i in range(n) if i not in idx]
                ctx.ob('exactly-the-listed-samples-removed', f'{w} {idx}', size(I, ds) == len(keep) and all(
                    content(item(I, ds, j)) == content(sample(i)) for j, i in enumerate(keep)))
    for kind in KINDS:
        I, fs, ds = world(ctx, kind, 3)
        r = ctx.run('from data set', w, lambda: call(I, I.get(TD, 'TimeSeriesDatasetInMemory'), 'from_dataset', ds))
        if r is not None:
            ctx.ob('in-memory-copy-has-the-same-samples', f'{w} {kind}', size(I, r) == 3 and all(content(item(I, r, i)) == content(sample(i)) for i in range(3)))
            ctx.ob('in-memory-copy-class', f'{w} {kind}', r.cls.name == 'TimeSeriesDatasetInMemory')


def stored(ctx):
    w = f'{TD}:TimeSeriesDataset'
    I, fs, ds = world(ctx, 'stored', 4)
    ctx.ob('length-is-number-of-samples', w, size(I, ds) == 4)
    for i in range(4):
        ctx.ob('item-is-the-sample', f'{w} {i}', content(item(I, ds, i)) == content(sample(i)))
    if ctx.run('update', w, lambda: (call(I, ds, 'update_dataset_sample', 2, sample(9)), 1)[1]) is not None:
        ctx.ob('only-the-updated-sample-changes', w, [content(item(I, ds, i)) == content(sample(9 if i == 2 else i)) for i in range(4)] == [True] * 4)
    I, fs, ds = world(ctx, 'stored', 2)
    K = I.get(TD, 'TimeSeriesDataset')
    refuse(ctx, 'missing-directory-is-refused', w, lambda: I.call(K, ['/nowhere', PyList([f'{D}/sample_0.pt'])], {}))
    refuse(ctx, 'missing-sample-file-is-refused', w, lambda: I.call(K, [D, PyList([f'{D}/sample_0.pt', f'{D}/sample_8.pt'])], {}))
    for q in ('/data/set2', '/data', f'{D}/sub'):
        fs._mkdirs(q)
        fs.state.set(f'{q}/sample_5.pt', sample(5))
        refuse(ctx, 'sample-file-elsewhere-is-refused', f'{w} {q}', lambda: I.call(K, [D, PyList([f'{D}/sample_0.pt', f'{q}/sample_5.pt'])], {}))
    fs.state.set('/other/sample_5.pt', sample(5))
    refuse(ctx, 'sample-file-elsewhere-is-refused', w, lambda: I.call(K, [D, PyList(['/other/sample_5.pt'])], {}))


def features(ctx):
    for kind in KINDS:
        # concatenation
        for labels in (('e', 's'), ('s', 'e'), ('e', 'h', 's'), ('h',), ['s', 'h']):
            for rm in (False, True):
                I, fs, ds = world(ctx, kind, 3)
                w = f'{TD}:concatenate_dataset_features {kind} {labels} remove={rm}'
                lab = PyList(labels) if isinstance(labels, list) else labels
                r = ctx.run('concatenate', w, lambda: I.call(I.get(TD, 'concatenate_dataset_features'), [ds, 'new', lab], {'is_remove_features': rm}))
                if r is None:
                    continue
                ctx.ob('number-of-samples-kept', w, size(I, r) == 3)
                for i in range(3):
                    s, o = item(I, r, i), sample(i)
                    v = {k: ex(o.get(k)) for k in o.keys()}
                    ctx.same('new-feature-is-the-concatenation', f'{w} {i}', ex(s.get('new')), [sum((v[k][t] for k in labels), []) for t in range(3)])
                    kept = [k for k in o.keys() if not (rm and kind == 'memory' and k in labels)]
                    # removal is only documented as effective in memory: a stored set may keep or drop them
                    ok = all(s.has(k) and content(s)[k] == content(o)[k] for k in o.keys() if k not in labels or not rm)
                    ctx.ob('other-features-kept', f'{w} {i}', ok, s.keys())
                    if rm and kind == 'memory':
                        ctx.ob('concatenated-features-removed', f'{w} {i}', sorted(s.keys()) == sorted(kept + ['new']), s.keys())
        # sums
        for labels, wt in ((('e', 'h'), None), (('e', 'h'), {'e': S('a'), 'h': S('b')}), (('h', 'e'), {'h': S('a')}), (('e',), {'e': S('a')}), (('s',), None),
                           (('e', 'h'), {'s': S('c')})):
            I, fs, ds = world(ctx, kind, 3)
            w = f'{TD}:sum_dataset_features {kind} {labels} weights={sorted(wt) if wt else None}'
            kw = {} if wt is None else {'features_weights': PyDict([(k, Num(v)) for k, v in wt.items()])}
            r = ctx.run('sum', w, lambda: I.call(I.get(TD, 'sum_dataset_features'), [ds, 'new', labels], kw))
            if r is None:
                continue
            ctx.ob('number-of-samples-kept', w, size(I, r) == 3)
            for i in range(3):
                s, o = item(I, r, i), sample(i)
                g = lambda k: (wt or {}).get(k, C(1))
                v = {k: ex(o.get(k)) for k in o.keys()}
                ref = [[sum((g(k) * v[k][t][q] for k in labels), Z) for q in range(len(v[labels[0]][0]))] for t in range(3)]
                ctx.same('new-feature-is-the-weighted-sum', f'{w} {i}', ex(s.get('new')), ref)
                ctx.ob('other-features-kept', f'{w} {i}', all(s.has(k) and content(s)[k] == content(o)[k] for k in o.keys()), s.keys())
        for labels, wt in ((('e', 'h'), None), (('h',), {'h': S('a')}), (('h', 'e'), {'e': S('a')})):
            I, fs, ds = world(ctx, kind, 3)
            w = f'{TD}:sum_dataset_features {kind} {labels} removing'
            kw = {'is_remove_features': True}
            if wt:
                kw['features_weights'] = PyDict([(k, Num(v)) for k, v in wt.items()])
            r = ctx.run('sum', w, lambda: I.call(I.get(TD, 'sum_dataset_features'), [ds, 'new', labels], kw))
            if r is None:
                continue
            for i in range(3):
                s, o = item(I, r, i), sample(i)
                v = {k: ex(o.get(k)) for k in o.keys()}
                ctx.same('new-feature-is-the-weighted-sum', f'{w} {i}', ex(s.get('new')), [
                    [sum(((wt or {}).get(k, C(1)) * v[k][t][q] for k in labels), Z) for q in range(2)] for t in range(3)])
                ctx.ob('other-features-kept', f'{w} {i}', all(s.has(k) and content(s)[k] == content(o)[k] for k in o.keys() if k not in labels), s.keys())
                if kind == 'memory':
                    ctx.ob('summed-features-removed', f'{w} {i}', sorted(s.keys()) == sorted([k for k in 'esh' if k not in labels] + ['new']), s.keys())
        # relabelling
        for mp in ({'e': 'x'}, {'s': 'y', 'h': 'z'}, {'q': 'r'}, {'e': 'x', 'q': 'r'}):
            I, fs, ds = world(ctx, kind, 3)
            w = f'{TD}:change_dataset_features_labels {kind} {mp}'
            r = ctx.run('relabel', w, lambda: I.call(I.get(TD, 'change_dataset_features_labels'), [ds, PyDict(mp.items())], {}))
            if r is None:
                continue
            for i in range(3):
                s, o = content(item(I, r, i)), content(sample(i))
                ctx.ob('features-relabelled-with-their-data', f'{w} {i}', s == {mp.get(k, k): v for k, v in o.items()}, sorted(s))
        for lab, old in (('hidden', False), ('h', True)):
            I, fs, ds = world(ctx, kind, 3)
            w = f'{TD}:add_dataset_feature_init {kind} {"replacing" if old else "new"}'
            r = ctx.run('add', w, lambda: I.call(I.get(TD, 'add_dataset_feature_init'), [ds, lab, tens('H', (1, 5))], {}))
            if r is not None:
                for i in range(3):
                    s = item(I, r, i)
                    ctx.ob('initial-feature-in-every-sample', f'{w} {i}', s.has(lab) and isinstance(s.get(lab), Tensor) and s.get(lab).vals() == tens('H', (1, 5)).vals() and
                           tuple(s.get(lab).shape) == (1, 5) and sorted(s.keys()) == sorted(set('esh') | {lab}) and
                           all(content(s)[k] == content(sample(i))[k] for k in 'esh' if k != lab), s.keys())
        # initial feature
        I, fs, ds = world(ctx, kind, 3)
        w = f'{TD}:add_dataset_feature_init {kind}'
        r = ctx.run('add', w, lambda: I.call(I.get(TD, 'add_dataset_feature_init'), [ds, 'hidden', tens('H', (2, 4))], {}))
        if r is not None:
            for i in range(3):
                s = item(I, r, i)
                ctx.ob('initial-feature-in-every-sample', f'{w} {i}', s.has('hidden') and s.get('hidden').vals() == tens('H', (2, 4)).vals() and
                       all(content(s)[k] == content(sample(i))[k] for k in 'esh'), s.keys())


def refusals(ctx):
    for kind in KINDS:
        I, fs, ds = world(ctx, kind, 2)
        for f in ('concatenate_dataset_features', 'sum_dataset_features'):
            refuse(ctx, 'unknown-feature-is-refused', f'{TD}:{f} {kind}', lambda: I.call(I.get(TD, f), [ds, 'new', ('e', 'q')], {}))
        for bad in (tens('H', (3,)), tens('H', (1, 2, 3)), PyList([1, 2])):
            refuse(ctx, 'initial-feature-of-wrong-type-is-refused', f'{TD}:add_dataset_feature_init {kind} {getattr(bad, "shape", "list")}',
                   lambda: I.call(I.get(TD, 'add_dataset_feature_init'), [ds, 'hidden', bad], {}))
        for i in range(2):
            ctx.ob('refused-operation-leaves-the-data-set', f'{TD} {kind} {i}', content(item(I, ds, i)) == content(sample(i)))


def split_stub(log, sizes):
    def f(I, a, k):
        b = dict(zip(('dataset', 'lengths', 'generator'), a))
        b.update(k)
        log.append(b)
        out = []
        off = 0
        for n in sizes:
            out.append(fake(I, 'Subset', base='torch.utils.data.Subset', dataset=b['dataset'], indices=PyList(range(off, off + n)), __len__=lambda I, a, k, n=n: n))
            off += n
        return PyList(out)
    return f


def split(ctx):
    f = 'split_dataset'
    for sizes, fr in (((3, 1), (0.75, 0.25)), ((2, 1, 1), (0.5, 0.25, 0.25)), ((1, 3), (0.25, 0.75)), ((4,), (1.0,))):
        for seed in (None, 7, 0):
            for save in (False, True):
                for cp in (False, True):
                    I, fs, ds = world(ctx, 'memory', 4)
                    log, seeds = [], []
                    I.stubs['lib:torch.utils.data.random_split'] = split_stub(log, sizes)

                    def gen(I, a, k):
                        g = fake(I, 'Generator')
                        g.attrs['manual_seed'] = Native(lambda I, aa, kk: (seeds.append((g, aa[0] if aa else kk['seed'])), g)[1], 'manual_seed')
                        return g
                    I.stubs['lib:torch.Generator'] = gen
                    names = ['training', 'validation', 'testing'][:len(sizes)]
                    w = f'{TD}:{f} {fr} seed={seed} save={save} copy={cp}'
                    kw = dict(seed=seed, is_copy_dataset=cp)
                    if save:
                        kw.update(is_save_subsets=True, subsets_directory='/out', subsets_basename='base')
                    r = ctx.run('split', w, lambda: I.call(I.get(TD, f), [ds, PyDict([(n, Num(alg.from_float(x))) for n, x in zip(names, fr)])], kw))
                    if r is None:
                        continue
                    ctx.ob('one-random-split-in-the-requested-proportions', w, len(log) == 1 and [to_expr(x) for x in I.iterate(log[0]['lengths'])] ==
                           [alg.from_float(x) for x in fr], len(log))
                    src = log[0]['dataset']
                    ctx.ob('the-data-set-itself-or-a-copy-is-split', w, (src is not ds) == cp and all(content(item(I, src, i)) == content(sample(i)) for i in range(4)))
                    if cp and src is not ds:
                        item(I, src, 0).set('added', tens('added', (1, 1)))
                        I.setitem(item(I, src, 1).get('e'), 0, Num(C(0)))
                        ctx.ob('copied-data-set-is-independent', w, all(content(item(I, ds, i)) == content(sample(i)) for i in range(4)))
                    ctx.ob('split-is-seeded-exactly-when-asked', w, ([s for _, s in seeds] == [seed] and log[0].get('generator') is seeds[0][0]) if seed is not None
                           else (not seeds and log[0].get('generator') is None), seeds and seeds[0][1])
                    off = 0
                    ok = sorted(r.keys()) == sorted(names)
                    for n, k in zip(names, sizes):
                        ok = ok and [I.as_int(x) for x in I.iterate(r.get(n).attrs['indices'])] == list(range(off, off + k))
                        off += k
                    ctx.ob('each-name-gets-its-own-subset', w, ok)
                    wr = sorted(p for p in fs.files() if p.startswith('/out'))
                    ctx.ob('subsets-saved-exactly-when-asked', w, wr == (sorted(f'/out/base_{n}_n{k}.pkl' for n, k in zip(names, sizes)) if save else []), wr)
                    if save:
                        ctx.ob('saved-file-holds-its-subset', w, all(fs.look(f'/out/base_{n}_n{k}.pkl') is r.get(n) for n, k in zip(names, sizes)))
    for fr, sizes in (((0.5, 0.25), (2, 1)), ((0.75, 0.5), (3, 2)), ((1.5, -0.5), (4, 0)), ((-0.25, 1.25), (0, 4)), ((1.0, 0.0), (4, 0)), ((0.0, 1.0), (0, 4)),
                      ((-0.25, 0.75, 0.5), (1, 2, 1)), ((0.5, -0.25, 0.75), (2, 1, 1)), ((0.75, 0.5, -0.25), (2, 1, 1)), ((0.5, 0.5, 0.5), (1, 1, 2)),
                      ((0.25, 0.25, 0.25), (1, 1, 1)), ((0.5, 0.0, 0.5), (2, 0, 2)), ((0.5, 0.5, 0.0), (2, 2, 0))):
        I, fs, ds = world(ctx, 'memory', 4)
        I.stubs['lib:torch.utils.data.random_split'] = split_stub([], sizes)
        refuse(ctx, 'sizes-outside-0-1-not-summing-to-1-or-empty-are-refused', f'{TD}:{f} {fr}',
               lambda: I.call(I.get(TD, f), [ds, PyDict([(n, Num(alg.from_float(x))) for n, x in zip('abc', fr)])], {}))
    I, fs, ds = world(ctx, 'memory', 4)
    sub = fake(I, 'Subset', base='torch.utils.data.Subset', indices=PyList([5, 2, 9, 0]))
    for idx in ([0, 1, 2, 3], [3, 1], [2]):
        r = ctx.run('indices', f'{TD}:get_parent_dataset_indices', lambda: I.call(I.get(TD, 'get_parent_dataset_indices'), [sub, PyList(idx)], {}))
        if r is not None:
            ctx.ob('parent-indices-of-subset-indices', f'{TD}:get_parent_dataset_indices {idx}', [I.as_int(x) for x in I.iterate(r)] == [[5, 2, 9, 0][i] for i in idx])
    refuse(ctx, 'parent-indices-of-non-subset-refused', f'{TD}:get_parent_dataset_indices', lambda: I.call(I.get(TD, 'get_parent_dataset_indices'), [ds, PyList([0])], {}))


def files(ctx):
    for kind in KINDS:
        for app, base in ((True, 'base'), (False, 'base'), (True, 'set_v1.2'), (False, 'set_v1.2'), (True, 'set_n3'), (False, 'a.pkl.b')):
            I, fs, ds = world(ctx, kind, 3)
            w = f'{TD}:save_dataset {kind} append={app} {base}'
            p = ctx.run('save', w, lambda: I.call(I.get(TD, 'save_dataset'), [ds, base, '/out'], {'is_append_n_sample': app}))
            if p is None:
                continue
            ctx.ob('file-named-after-data-set', w, p == (f'/out/{base}_n3.pkl' if app else f'/out/{base}.pkl') and fs.isfile(p), p)
            r = ctx.run('load', w, lambda: I.call(I.get(TD, 'load_dataset'), [p], {}))
            if r is not None:
                ctx.ob('loaded-data-set-has-the-same-samples', w, size(I, r) == 3 and all(content(item(I, r, i)) == content(sample(i)) for i in range(3)))
    I, fs, ds = world(ctx, 'memory', 2)
    refuse(ctx, 'missing-directory-is-refused', f'{TD}:save_dataset', lambda: I.call(I.get(TD, 'save_dataset'), [ds, 'base', '/nowhere'], {}))
    refuse(ctx, 'missing-file-is-refused', f'{TD}:load_dataset', lambda: I.call(I.get(TD, 'load_dataset'), ['/out/none.pkl'], {}))
    fs.state.set('/out/bad.pkl', PyDict([('a', 1)]))
    refuse(ctx, 'file-of-something-else-is-refused', f'{TD}:load_dataset', lambda: I.call(I.get(TD, 'load_dataset'), ['/out/bad.pkl'], {}))


def move(ctx):
    f = 'update_dataset_file_internal_directory'
    for sub in (False, True):
        for new, same in (('/moved', False), (D, True), ('/elsewhere/set', False), ('/data/set_1', False), ('/data', False), (f'{D}/set', False)):
            I, fs, ds = world(ctx, 'stored', 3)
            fs._mkdirs(new)
            for i in range(3):
                fs.state.set(f'{new}/sample_{i}.pt', sample(i))
            stored_ = ds
            if sub:
                # pickled subset of the stored data set
                c = ClassV('Subset', None, [Lib('torch.utils.data.Subset'), Lib('torch.utils.data.Dataset')], {}, None)
                stored_ = Instance(c, {'dataset': ds, 'indices': PyList([2, 0])})
            fs.write('/out/set.pkl', stored_)
            n0 = len(fs.ops())
            w = f'{TD}:TimeSeriesDataset.{f} subset={sub} same={same} {new}'
            if ctx.run('move', w, lambda: (call(I, I.get(TD, 'TimeSeriesDataset'), f, '/out/set.pkl', new), 1)[1]) is None:
                continue
            r = fs.read('/out/set.pkl')
            ok = not sub or (isinstance(r, Instance) and 'dataset' in r.attrs)
            ctx.ob('moved-file-holds-the-same-kind-of-data-set', w, ok, '')
            if not ok:
                continue
            q = r.attrs['dataset'] if sub else r
            ctx.ob('stored-data-set-points-to-the-new-directory', w, call(I, q, 'get_dataset_directory') == new and
                   I.iterate(call(I, q, 'get_dataset_sample_files')) == [f'{new}/sample_{i}.pt' for i in range(3)])
            ctx.ob('rewritten-only-when-the-directory-changes', w, (len(fs.ops()) == n0) == same, fs.ops()[n0:])
            if sub:
                ctx.ob('subset-keeps-its-indices', w, [I.as_int(x) for x in I.iterate(r.attrs['indices'])] == [2, 0])
    I, fs, ds = world(ctx, 'stored', 3)
    fs.write('/out/set.pkl', ds)
    fs._mkdirs('/moved')
    K = I.get(TD, 'TimeSeriesDataset')
    refuse(ctx, 'missing-directory-is-refused', f'{TD}:{f}', lambda: call(I, K, f, '/out/set.pkl', '/nowhere'))
    refuse(ctx, 'directory-without-the-samples-is-refused', f'{TD}:{f}', lambda: call(I, K, f, '/out/set.pkl', '/moved'))
    q = fs.read('/out/set.pkl')
    ctx.ob('refused-move-leaves-the-file', f'{TD}:{f}', call(I, q, 'get_dataset_directory') == D and
           I.iterate(call(I, q, 'get_dataset_sample_files')) == [f'{D}/sample_{i}.pt' for i in range(3)])


def many(ctx):
    """More than ten samples: order, negative positions, files in an order of their own."""
    N = 13
    order = [(5 * i + 3) % N for i in range(N)]
    for kind in KINDS:
        I = ctx.interp()
        fs = FS(I, dirs=[D, '/out'])
        smp = [sample(i, {i: 2 + i % 3 for i in range(N)}) for i in range(N)]
        mk = lambda i: content(sample(i, {i: 2 + i % 3}))
        if kind == 'memory':
            ds = I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList([smp[i] for i in order])], {})
        else:
            for i in range(N):
                fs.state.set(f'{D}/sample_{i}.pt', smp[i])
            names = [f'{D}/sample_{i}.pt' for i in order]
            ds = I.call(I.get(TD, 'TimeSeriesDataset'), [D, PyList(list(names))], {})
            ctx.ob('sample-files-in-the-given-order', f'{TD} {kind}', I.iterate(call(I, ds, 'get_dataset_sample_files')) == names, '')
        w = f'{TD} {kind} {N} samples'
        ctx.ob('length-is-number-of-samples', w, size(I, ds) == N)
        for j in list(range(N)) + [-1, -2, -N]:
            r = ctx.run('item', w, lambda: item(I, ds, j))
            if r is not None:
                ctx.ob('item-is-the-sample', f'{w} {j}', content(r) == mk(order[j]), '')
        r = ctx.run('from data set', w, lambda: call(I, I.get(TD, 'TimeSeriesDatasetInMemory'), 'from_dataset', ds))
        if r is not None:
            ctx.ob('in-memory-copy-has-the-same-samples', w, size(I, r) == N and all(content(item(I, r, j)) == mk(order[j]) for j in range(N)))
            rm = [10, 2, 11, 0]
            if ctx.run('remove', w, lambda: (call(I, r, 'remove_dataset_samples', PyList(rm)), 1)[1]) is not None:
                keep = [j for j in range(N) if j not in rm]
                ctx.ob('exactly-the-listed-samples-removed', w, size(I, r) == len(keep) and all(content(item(I, r, a)) == mk(order[j]) for a, j in enumerate(keep)))
            ctx.ob('source-data-set-keeps-its-samples', w, size(I, ds) == N)
        r = ctx.run('concatenate', w, lambda: I.call(I.get(TD, 'concatenate_dataset_features'), [ds, 'new', ('s', 'e')], {}))
        if r is not None:
            for j in range(N):
                g, o = item(I, r, j), sample(order[j], {order[j]: 2 + order[j] % 3})
                ctx.same('new-feature-is-the-concatenation', f'{w} {j}', ex(g.get('new')), [a + b for a, b in zip(ex(o.get('s')), ex(o.get('e')))])


def precision(ctx):
    """Batches and derived features keep the precision of their data."""
    for dt in ('float32', 'float64'):
        for n in (1, 2, 12):
            I = ctx.interp()
            smp = [PyDict([('e', tens(f'e.{i}', (2, 2), dtype=dt)), ('q', tens(f'q.{i}', (2, 1), dtype='float64')), ('k', tlib.new([C(i), C(i + 1)], (2, 1), 'int64', 'torch'))])
                   for i in range(n)]
            w = f'{TD}:time_collator {dt} {n}'
            b = ctx.run('collate', w, lambda: I.call(I.get(TD, 'time_collator'), [PyList(smp)], {}))
            if b is None:
                continue
            ctx.ob('batch-keeps-precision', w, all(isinstance(b.get(k), Tensor) and b.get(k).dtype == d for k, d in (('e', dt), ('q', 'float64'), ('k', 'int64'))),
                   [getattr(b.get(k), 'dtype', None) for k in 'eqk'])
            if isinstance(b.get('k'), Tensor):
                ctx.same('sample-of-a-batch-keeps-its-own-history', w, b.get('k').vals(), [C(i + t) for t in range(2) for i in range(n)])
        for f, kw in (('concatenate_dataset_features', {}), ('sum_dataset_features', {}), ('sum_dataset_features', {'features_weights': PyDict([('h', Num(C(3)))])})):
            for labels in (('e', 'h'), ('h',)):
                I = ctx.interp()
                ds = I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList([PyDict([(k, tens(k, (2, 2), dtype=dt)) for k in 'eh'])])], {})
                w = f'{TD}:{f} {dt} {labels} {sorted(kw)}'
                r = ctx.run('derive', w, lambda: I.call(I.get(TD, f), [ds, 'new', labels], dict(kw)))
                if r is not None:
                    t = item(I, r, 0).get('new')
                    ctx.ob('derived-feature-keeps-precision', w, isinstance(t, Tensor) and t.dtype == dt, getattr(t, 'dtype', None))


def independence(ctx):
    """A data set owns its list of samples."""
    w = f'{TD}:TimeSeriesDatasetInMemory'
    I = ctx.interp()
    K = I.get(TD, 'TimeSeriesDatasetInMemory')
    given = PyList([sample(0), sample(1)])
    a = I.call(K, [given], {})
    b = I.call(K, [given], {})
    more = PyList([sample(5)])
    if ctx.run('add', w, lambda: (call(I, a, 'add_dataset_samples', more), 1)[1]) is not None:
        ctx.ob('adding-leaves-the-given-list', w, len(I.iterate(given)) == 2 and len(I.iterate(more)) == 1, '')
        ctx.ob('adding-leaves-other-data-sets', w, size(I, b) == 2 and size(I, a) == 3, '')
    if ctx.run('remove', w, lambda: (call(I, a, 'remove_dataset_samples', PyList([0])), 1)[1]) is not None:
        ctx.ob('removing-leaves-other-data-sets', w, size(I, b) == 2 and size(I, a) == 2 and len(I.iterate(given)) == 2, '')
    if ctx.run('add', w, lambda: (call(I, b, 'add_dataset_samples', more), call(I, b, 'add_dataset_samples', more), 1)[2]) is not None:
        ctx.ob('samples-appended-in-order', f'{w} twice the same', size(I, b) == 4 and content(item(I, b, 2)) == content(sample(5)) == content(item(I, b, 3)), '')
    I2, fs, ds = world(ctx, 'memory', 3)
    r = ctx.run('from data set', w, lambda: call(I2, I2.get(TD, 'TimeSeriesDatasetInMemory'), 'from_dataset', ds))
    if r is not None and ctx.run('add', w, lambda: (call(I2, r, 'add_dataset_samples', PyList([sample(5)])), 1)[1]) is not None:
        ctx.ob('adding-leaves-other-data-sets', f'{w} from_dataset', size(I2, ds) == 3 and size(I2, r) == 4, '')
