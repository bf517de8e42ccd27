"""P23 - derived strain and stress features and collected predictions.  Feature
histories are evaluated for strain and stress paths of unrestricted entries, in
every component order (symmetric and full, upper and lower shear components), for
stored and in-memory data sets; predictions are collected from an abstract file
system whose result files hold distinct symbols."""
import itertools
import posixpath

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p15 import item

FLOOR = 40
B = 'model_architectures.materials.'
SF, TF, PP = B + 'strain_features', B + 'stress_features', B + 'process_predictions'
TD = 'time_series_data.time_dataset'
C = alg.const
Z = alg.ZERO
D = '/data/set'
P = '/run/3_model/7_prediction/in_distribution/prediction_set_0'
SYM = ('11', '22', '33', '12', '23', '13')
FULL = ('11', '21', '31', '12', '22', '32', '13', '23', '33')
ORDERS = [SYM, SYM[::-1], tuple(c[::-1] for c in SYM), ('13', '22', '12', '33', '23', '11'), FULL, FULL[::-1], ('11', '12', '13', '21', '22', '23', '31', '32', '33')]
TWO = [('11', '22', '12'), ('11', '21', '12', '22')]


def groups(tier):
    return [('strain features', lambda ctx: feature(ctx, 'strain')), ('stress features', lambda ctx: feature(ctx, 'stress')), ('tensors', tensors),
            ('refused', refused), ('arrays', arrays), ('series', series), ('ensemble', ensemble), ('collect refused', collect_refused)]


def matrix(order, x, n=3):
    loc = {c: v for c, v in zip(order, x)}
    return [[loc.get(f'{i}{j}', loc.get(f'{j}{i}')) for j in range(1, n + 1)] for i in range(1, n + 1)]


def tr(m):
    return m[0][0] + m[1][1] + m[2][2]


def law(label, order, x):
    m = matrix(order, x)
    if label == 'i1_strain':
        return [tr(m)]
    if label == 'i2_strain':
        # sum of the principal minors
        return [sum((m[i][i] * m[j][j] - m[i][j] * m[j][i] for i, j in ((0, 1), (0, 2), (1, 2))), Z)]
    if label == 'vol_stress':
        return [tr(m) / C(3)]
    p = tr(m) / C(3)
    return [m[int(c[0]) - 1][int(c[1]) - 1] - (p if c[0] == c[1] else Z) for c in order]


KIND = {'strain': (SF, 'add_strain_features', ('i1_strain', 'i2_strain')), 'stress': (TF, 'add_stress_features', ('vol_stress', 'dev_stress'))}


def dataset(ctx, kind, store, order, lens, dtype='float32', without=(), more=None):
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    smp = []
    for i, n in enumerate(lens):
        p = [(f'{kind}_path', tens(f'x{i}', (n, len(order)), dtype)), (f'{kind}_comps_order', order), ('time_hist', tens(f't{i}', (n, 1), dtype))]
        smp.append(PyDict([kv for kv in p if kv[0] not in without] + (more(i, n) if more else [])))
    if store == 'memory':
        ds = I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList(smp)], {})
    else:
        names = [f'{D}/sample_{i}.pt' for i in range(len(lens))]
        for q, s in zip(names, smp):
            fs.state.set(q, s)
        ds = I.call(I.get(TD, 'TimeSeriesDataset'), [D, PyList(names)], {})
    return I, fs, ds


def feature(ctx, kind):
    mod, fn, labels = KIND[kind]
    for store in ('memory', 'stored'):
        for label in labels:
            for order in ORDERS:
                for lens, dt in (((3,), 'float32'), ((2, 4, 1), 'float64')) if order is SYM else (((2,), 'float32'),):
                    w = f'{mod}:{fn} {label} {store} {",".join(order)} {lens} {dt}'
                    I, fs, ds = dataset(ctx, kind, store, order, lens, dt)
                    r = ctx.run('feature', w, lambda: I.call(I.get(mod, fn), [ds, label], {}))
                    if r is None:
                        continue
                    ctx.ob('same-data-set', w, r is ds, '')
                    for i, n in enumerate(lens):
                        s = item(I, r, i)
                        y = s.get(label) if label in s.keys() else None
                        if not ctx.ob('feature-of-every-sample', f'{w} [{i}]', isinstance(y, Tensor), sorted(s.keys())):
                            continue
                        x = [[S(f'x{i}[{t * len(order) + c}]') for c in range(len(order))] for t in range(n)]
                        ref = [law(label, order, row) for row in x]
                        ctx.ob('one-row-per-time', f'{w} [{i}]', tuple(y.shape) == (n, len(ref[0])), tuple(y.shape))
                        ctx.same('feature-law', f'{w} [{i}]', y, ref)
                        ctx.ob('precision-kept', f'{w} [{i}]', y.dtype == dt, y.dtype)
                        ctx.same('path-kept', f'{w} [{i}]', s.get(f'{kind}_path'), x)
                        ctx.ob('other-features-kept', f'{w} [{i}]', sorted(s.keys()) == sorted([label, f'{kind}_path', f'{kind}_comps_order', 'time_hist'])
                               and s.get(f'{kind}_comps_order') == order, sorted(s.keys()))


    other = {'strain': 'stress', 'stress': 'strain'}[kind]
    for store in ('memory', 'stored'):
        for label in labels:
            for tag, lens, more in (('of many samples', (1,) * 9 + (2, 1, 2), None), ('replaced', (2, 1), lambda i, n: [(label, tens(f'old{i}', (n, 6)))]),
                                    ('beside the other path', (2, 1), lambda i, n: [(f'{other}_path', tens(f'z{i}', (n, 6))), (f'{other}_comps_order', SYM[::-1])])):
                w = f'{mod}:{fn} {label} {store} {tag}'
                I, fs, ds = dataset(ctx, kind, store, SYM, lens, more=more)
                r = ctx.run('feature', w, lambda: I.call(I.get(mod, fn), [ds, label], {}))
                if r is None:
                    continue
                for i, n in enumerate(lens):
                    s = item(I, r, i)
                    if ctx.ob('feature-of-every-sample', f'{w} [{i}]', label in s.keys(), sorted(s.keys())):
                        ctx.same('feature-law', f'{w} [{i}]', s.get(label), [law(label, SYM, [S(f'x{i}[{t * 6 + c}]') for c in range(6)]) for t in range(n)])
                        if tag.startswith('beside'):
                            ctx.same('other-features-kept', f'{w} [{i}]', s.get(f'{other}_path'), [[S(f'z{i}[{t * 6 + c}]') for c in range(6)] for t in range(n)])


def tensors(ctx):
    for mod, fn in ((SF, 'build_strain_from_comps'), (TF, 'build_stress_from_comps')):
        for n, orders in ((3, ORDERS), (2, TWO)):
            for order in orders:
                w = f'{mod}:{fn} {",".join(order)}'
                I = ctx.interp()
                x = tens('x', (len(order),))
                r = ctx.run('tensor-of-components', w, lambda: I.call(I.get(mod, fn), [n, order, x], {}))
                if r is not None:
                    ctx.same('tensor-of-components', w, r, matrix(order, [S(f'x[{i}]') for i in range(len(order))], n))
    for n, orders in ((3, ORDERS), (2, TWO)):
        for order in orders:
            w = f'{TF}:store_stress_comps {",".join(order)}'
            I = ctx.interp()
            r = ctx.run('components-of-tensor', w, lambda: I.call(I.get(TF, 'store_stress_comps'), [order, tens('m', (n, n))], {}))
            if r is not None:
                ctx.same('components-of-tensor', w, r, [S(f'm[{(int(c[0]) - 1) * n + int(c[1]) - 1}]') for c in order])


def refused(ctx):
    for kind, (mod, fn, labels) in KIND.items():
        for store in ('memory', 'stored'):
            for miss in ('path', 'comps_order'):
                I, fs, ds = dataset(ctx, kind, store, SYM, (2,), without=(f'{kind}_{miss}',))
                refuse(ctx, 'missing-data-refused', f'{mod}:{fn} {store} without {miss}', lambda: I.call(I.get(mod, fn), [ds, labels[0]], {}))
            I, fs, ds = dataset(ctx, kind, store, SYM, (2,))
            refuse(ctx, 'unknown-feature-refused', f'{mod}:{fn} {store}', lambda: I.call(I.get(mod, fn), [ds, 'i9'], {}))
            for order in TWO:
                for label in labels:
                    I, fs, ds = dataset(ctx, kind, store, order, (2,))
                    refuse(ctx, 'two-dimensional-path-refused', f'{mod}:{fn} {store} {label} {order}', lambda: I.call(I.get(mod, fn), [ds, label], {}))


# ---------------------------------------------------------------- predictions
TYPES = {'stress_comps': (SYM, lambda i: i), 'acc_p_strain': (('acc_p_strain',), None), 'p_strain_comps': (('11', '22', '12'), lambda i: i)}
NF = 8      # features of a prediction


def result(tag, n, order=SYM, targets=True):
    return PyDict([('features_out', tens(f'y{tag}', (n, NF), lib='np')), ('targets', tens(f'g{tag}', (n, NF), lib='np') if targets else None),
                   ('stress_comps_order', order), ('prediction_loss_data', None)])


def pred_world(ctx, ids, lens=None, base=P, extra=(), order=SYM):
    I = ctx.interp()
    fs = FS(I, dirs=[base, D])
    for i in ids:
        fs.state.set(f'{base}/prediction_sample_{i}.pkl', result(i, (lens or {}).get(i, 2), order))
    for x in extra:
        fs.state.set(f'{base}/{x}', PyDict([('other', 1)]))
    return I, fs


EXTRA = ('summary.dat', 'prediction_sample_x.pkl', 'xprediction_sample_9.pkl', 'prediction_sample_9.pkl.bak', 'plots')


def col(ptype, i, order=SYM):
    return len(order) if ptype == 'acc_p_strain' else i


def arrays(ctx):
    f = f'{PP}:build_prediction_data_arrays'
    cases = [((0,), 'all', {}), ((0, 1, 2), 'all', {1: 3}), ((0, 1, 2), [2, 0], {2: 1}), ((4, 10, 2), [10], {}), ((11, 1), 'all', {})]
    for ptype, (labels, _) in TYPES.items():
        for order in ((SYM, ('11', '22', '12')) if ptype == 'acc_p_strain' else (SYM,)):
            for ids, ask, lens in cases:
                w = f'{f} {ptype} order={len(order)} files={ids} samples={ask}'
                I, fs = pred_world(ctx, ids, lens, extra=EXTRA, order=order)
                a = PyList(list(ask)) if ask != 'all' else ask
                r = ctx.run('collected', w, lambda: I.call(I.get(PP, 'build_prediction_data_arrays'), [P, ptype, labels], {'samples_ids': a}))
                if r is None:
                    continue
                out = list(I.iterate(r))
                if not ctx.ob('one-array-per-component', w, len(out) == len(labels), len(out)):
                    continue
                for i, t in enumerate(out):
                    blocks = {s: [[S(f'{q}{s}[{k * NF + col(ptype, i, order)}]') for q in 'gy'] for k in range(lens.get(s, 2))] for s in ids}
                    v = ex(t)
                    if ask != 'all':
                        ctx.same('truth-and-prediction-of-samples', f'{w} component {i}', t, sum((blocks[s] for s in ask), []))
                    else:
                        # any order of the samples
                        ok = any(len(v) == sum(map(len, blocks.values())) and all(alg.equal(a, b) for ra, rb in zip(v, sum((blocks[s] for s in o), [])) for a, b in zip(ra, rb))
                                 for o in itertools.permutations(ids))
                        ctx.ob('truth-and-prediction-of-samples', f'{w} component {i}', ok, v)


DS = '/run/1_data/5_testing/test_n9.pkl'


def with_data(I, fs, n, lens):
    smp = PyList([PyDict([('time_hist', tens(f't{i}', (lens.get(i, 2), 1)))]) for i in range(n)])
    fs.state.set(DS, I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [smp], {}))


def series(ctx):
    f = f'{PP}:build_time_series_predictions_data'
    cases = [((0,), 'all', {}), ((0, 1, 2), 'all', {1: 3}), ((0, 1, 2), [2, 0], {2: 1}), ((4, 10, 2), [10], {})]
    for ptype, (labels, _) in TYPES.items():
        for ids, ask, lens in cases:
            w = f'{f} {ptype} files={ids} samples={ask}'
            for order in (SYM, ('11', '22', '12')) if ptype == 'acc_p_strain' else (SYM,):
                I, fs = pred_world(ctx, ids, lens, extra=EXTRA, order=order)
                with_data(I, fs, 11, lens)
                a = PyList(list(ask)) if ask != 'all' else ask
                wo = w if order is SYM else f'{w} order=3'
                r = ctx.run('collected', wo, lambda: I.call(I.get(PP, 'build_time_series_predictions_data'), [DS, P, ptype, labels], {'samples_ids': a}))
                series_obs(ctx, I, wo, r, labels, ptype, ids if ask == 'all' else ask, lens, [''], order)


def series_obs(ctx, I, w, r, labels, ptype, ids, lens, models, order=SYM):
    if r is None:
        return
    out = list(I.iterate(r))
    if not ctx.ob('one-set-per-component', w, len(out) == len(labels), len(out)):
        return
    for i, d in enumerate(out):
        if ctx.ob('one-history-per-sample', f'{w} component {i}', sorted(d.keys()) == sorted(str(s) for s in ids), sorted(d.keys())):
            for s in ids:
                c = col(ptype, i, order)
                ref = [[S(f't{s}[{k}]'), S(f'g{models[0]}{s}[{k * NF + c}]')] + [S(f'y{m}{s}[{k * NF + c}]') for m in models] for k in range(lens.get(s, 2))]
                ctx.same('time-truth-predictions', f'{w} component {i} sample {s}', d.get(str(s)), ref)


def ensemble(ctx):
    f = f'{PP}:build_time_series_predictions_data'
    base = posixpath.dirname(posixpath.dirname(posixpath.dirname(DS)))
    for ptype, (labels, _) in TYPES.items():
        for models, ids, ask, lens in (((0,), (0, 1), 'all', {}), ((0, 1, 2), (0, 1), 'all', {1: 3}), ((10, 9, 2), (3, 0), [3], {}), (tuple(range(12)), (0,), 'all', {})):
            w = f'{f} ensemble {ptype} models={models} files={ids} samples={ask}'
            I = ctx.interp()
            uq = posixpath.dirname(posixpath.dirname(DS)) + '/uncertainty_quantification'
            dirs = [f'{uq}/model_{m}/7_prediction/in_distribution' for m in models]
            fs = FS(I, dirs=[D, posixpath.dirname(DS), uq + '/plots', uq + '/old_model_7'] + dirs)
            for m, d in zip(models, dirs):
                for i in ids:
                    fs.state.set(f'{d}/prediction_sample_{i}.pkl', result(f'm{m}.{i}', lens.get(i, 2)))
            with_data(I, fs, 6, lens)
            a = PyList(list(ask)) if ask != 'all' else ask
            r = ctx.run('collected', w, lambda: I.call(I.get(PP, 'build_time_series_predictions_data'), [DS, P, ptype, labels], {'samples_ids': a, 'is_uncertainty_quantification': True}))
            series_obs(ctx, I, w, r, labels, ptype, ids if ask == 'all' else ask, lens, [f'm{m}.' for m in sorted(models)])


def collect_refused(ctx):
    for name in ('build_prediction_data_arrays', 'build_time_series_predictions_data'):
        f = f'{PP}:{name}'
        for tag, ids, ask, ptype, base in (('sample without file', (0, 1), PyList([3]), 'stress_comps', P), ('invalid samples', (0,), 0, 'stress_comps', P), ('unknown type', (0,), 'all', 'x', P),
                                           ('missing directory', (0,), 'all', 'stress_comps', P + '_x'), ('empty directory', (), 'all', 'stress_comps', P),
                                           ('sample outside data set', (0, 50), PyList([50]), 'stress_comps', P)):
            if tag == 'sample outside data set' and name == 'build_prediction_data_arrays':
                continue
            for extra in ((), EXTRA):
                I, fs = pred_world(ctx, ids, extra=extra)
                with_data(I, fs, 11, {})
                a = [P if base == P else base, ptype, SYM]
                if name != 'build_prediction_data_arrays':
                    a = [DS] + a
                refuse(ctx, 'bad-request-refused', f'{f} {tag} {len(extra)}', lambda: I.call(I.get(PP, name), a, {'samples_ids': ask}))
