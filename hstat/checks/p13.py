"""P13 - data scaling.  The scalers and the model-level scaling procedures are
evaluated on tensors with unrestricted entries.  Decided: the transform is the
affine map of its statistics (minimum -> norm minimum, maximum -> norm maximum;
mean -> 0, std -> 1) per feature, the inverse transform undoes it, fitted
statistics are those of all samples of the requested features, 2D and 3D layouts
agree, shape and precision are kept, inputs are unchanged, the right scaler serves
the requested features and direction, and unfitted or mismatching use is refused."""
import math
from .. import alg
from ..common import *

FLOOR = 60
DS = 'utilities.data_scalers'
MS = 'model_architectures.procedures.model_data_scaling'
FD = 'utilities.fit_data_scalers'
Z = alg.ZERO
C = alg.const


def groups(tier):
    return [('minmax', minmax), ('standard', standard), ('refusals', refusals), ('dispatch', dispatch), ('setting', setting),
            ('dataset fit', dataset_fit), ('regressor', regressor), ('magnitudes', magnitudes), ('refit', refit),
            ('scaling parameters', parameters), ('one direction', one_direction)]


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def V(name, n, dtype='float32'):
    return [S(f'{name}{i}') for i in range(n)], tlib.new([S(f'{name}{i}') for i in range(n)], (n,), dtype, 'torch')


def T(v, n, dtype='float32'):
    return tlib.new(list(v), (n,), dtype, 'torch')


SHAPES = [(1, 3), (4, 3), (2, 2, 3), (3, 1, 3), (1, 4, 3), (5, 1), (2, 3, 1)]


def roundtrip(ctx, I, sc, w, fwd):
    """fwd(x, feature) -> transformed element."""
    for sh in SHAPES:
        n = sh[-1]
        if n != sc[1]:
            continue
        o = sc[0]
        x = tens('x', sh)
        xv = x.vals()
        y = ctx.run('transform', f'{w} {sh}', lambda: call(I, o, 'transform', x))
        if y is None:
            continue
        ref = [fwd(e, i % n) for i, e in enumerate(xv)]
        ctx.same('transform-is-the-affine-map-of-its-statistics', f'{w} {sh}', y, tlib.new(ref, sh, 'float32', 'torch'))
        ctx.ob('input-unchanged', f'{w} {sh}', x.vals() == xv, '')
        z = ctx.run('inverse', f'{w} {sh}', lambda: call(I, o, 'inverse_transform', y))
        if z is not None:
            ctx.same('inverse-undoes-transform', f'{w} {sh}', z, tens('x', sh))
        z = ctx.run('inverse', f'{w} {sh}', lambda: call(I, o, 'inverse_transform', x))
        if z is not None:
            ctx.ob('input-unchanged', f'{w} {sh}', x.vals() == xv, '')
            u = ctx.run('transform', f'{w} {sh}', lambda: call(I, o, 'transform', z))
            if u is not None:
                ctx.same('transform-undoes-inverse', f'{w} {sh}', u, tens('x', sh))


def minmax(ctx):
    for n in (3, 1):
        for nm in (None, (C(0), C(1)), (S('p'), None)):
            I = ctx.interp()
            w = f'{DS}:TorchMinMaxScaler n={n} {"default" if nm is None else nm[0]}'
            lo, r = [S(f'lo{i}') for i in range(n)], [S(f'range{i}', True) for i in range(n)]
            kw = {}
            a, b = C(-1), C(1)
            if nm is not None:
                a = nm[0]
                b = nm[1] if nm[1] is not None else a + S('width', True)
                kw = {'norm_minimum': Num(a), 'norm_maximum': Num(b)}
            stats = {'minimum': T(lo, n), 'maximum': T([x + y for x, y in zip(lo, r)], n)}
            for how in ('constructor', 'setter', 'setters'):
                if how == 'constructor':
                    o = ctx.run('construction', w, lambda: I.call(I.get(DS, 'TorchMinMaxScaler'), [n], dict(kw, **stats)))
                else:
                    o = ctx.run('construction', w, lambda: I.call(I.get(DS, 'TorchMinMaxScaler'), [n], dict(kw)))
                    if o is None:
                        continue
                    if how == 'setter':
                        call(I, o, 'set_minimum_and_maximum', stats['minimum'], stats['maximum'])
                    else:
                        call(I, o, 'set_maximum', stats['maximum'])
                        call(I, o, 'set_minimum', stats['minimum'])
                if o is None:
                    continue
                roundtrip(ctx, I, (o, n), f'{w} {how}', lambda e, j: a + (b - a) * (e - lo[j]) / r[j])
                q = I.iterate(call(I, o, 'get_minimum_and_maximum'))
                ctx.same('statistics-returned', f'{w} {how}', [ex(x) for x in q], [lo, [x + y for x, y in zip(lo, r)]])
    # fitting (orderings enumerated)
    data = [[3, -1, 5], [-7, 2, 5], [4, 0, 6], [1, 8, -2], [0, -3, 9], [2, 2, 2]]
    for sh in ((6, 3), (2, 3, 3), (3, 2, 3), (1, 6, 3), (6, 1, 3)):
        for rot in range(3):
            I = ctx.interp()
            w = f'{DS}:TorchMinMaxScaler.fit {sh}'
            rows = [r[rot:] + r[:rot] for r in data]
            x = tlib.new([C(v) for r in rows for v in r], sh, 'float32', 'torch')
            o = I.call(I.get(DS, 'TorchMinMaxScaler'), [3], {})
            if ctx.run('fit', w, lambda: (call(I, o, 'fit', x), 1)[1]) is None:
                continue
            q = I.iterate(call(I, o, 'get_minimum_and_maximum'))
            ctx.same('fit-takes-extremes-over-all-samples', f'{w} {rot}', [ex(t) for t in q],
                     [[C(min(c)) for c in zip(*rows)], [C(max(c)) for c in zip(*rows)]])


def standard(ctx):
    for n in (3, 1):
        I = ctx.interp()
        w = f'{DS}:TorchStandardScaler n={n}'
        m, s = [S(f'mean{i}') for i in range(n)], [S(f'std{i}', True) for i in range(n)]
        for how in ('constructor', 'setter', 'setters'):
            if how == 'constructor':
                o = ctx.run('construction', w, lambda: I.call(I.get(DS, 'TorchStandardScaler'), [n], {'mean': T(m, n), 'std': T(s, n)}))
            else:
                o = ctx.run('construction', w, lambda: I.call(I.get(DS, 'TorchStandardScaler'), [n], {}))
                if o is None:
                    continue
                if how == 'setter':
                    call(I, o, 'set_mean_and_std', T(m, n), T(s, n))
                else:
                    call(I, o, 'set_std', T(s, n))
                    call(I, o, 'set_mean', T(m, n))
            if o is None:
                continue
            roundtrip(ctx, I, (o, n), f'{w} {how}', lambda e, j: (e - m[j]) / s[j])
            q = I.iterate(call(I, o, 'get_mean_and_std'))
            ctx.same('statistics-returned', f'{w} {how}', [ex(x) for x in q], [m, s])
    # constant feature: shifted, not divided by zero
    I = ctx.interp()
    w = f'{DS}:TorchStandardScaler constant feature'
    o = I.call(I.get(DS, 'TorchStandardScaler'), [3], {'mean': T([S('m0'), S('m1'), S('m2')], 3), 'std': T([S('s0', True), Z, S('s2', True)], 3)})
    x = tens('x', (2, 3))
    y = ctx.run('transform', w, lambda: call(I, o, 'transform', x))
    if y is not None:
        xv = ex(tens('x', (2, 3)))
        ctx.same('constant-feature-is-only-shifted', w, ex(y),
                 [[(r[0] - S('m0')) / S('s0', True), r[1] - S('m1'), (r[2] - S('m2')) / S('s2', True)] for r in xv])
    for sh in ((4, 2), (2, 2, 2), (1, 4, 2)):
        for bessel in (False, True, None):
            I = ctx.interp()
            w = f'{DS}:TorchStandardScaler.fit {sh} bessel={bessel}'
            x = tens('x', sh)
            rows = [x.vals()[i:i + 2] for i in range(0, 8, 2)]
            o = I.call(I.get(DS, 'TorchStandardScaler'), [2], {})
            kw = {} if bessel is None else {'is_bessel': bessel}
            if ctx.run('fit', w, lambda: (call(I, o, 'fit', x, **kw), 1)[1]) is None:
                continue
            mean, std = (ex(t) for t in I.iterate(call(I, o, 'get_mean_and_std')))
            N = len(rows)
            rm = [sum(c, Z) / C(N) for c in zip(*rows)]
            rv = [sum(((e - mm) * (e - mm) for e in c), Z) / C(N - (1 if bessel else 0)) for c, mm in zip(zip(*rows), rm)]
            ctx.same('fit-mean-over-all-samples', w, mean, rm)
            ctx.same('fit-deviation-over-all-samples', w, [s_ * s_ for s_ in std], rv)
            ctx.ob('input-unchanged', w, x.vals() == tens('x', sh).vals(), '')


def refuse(ctx, rule, w, f):
    ctx.refuse(rule, w, f)


def refusals(ctx):
    for cls, st in (('TorchMinMaxScaler', ('minimum', 'maximum')), ('TorchStandardScaler', ('mean', 'std'))):
        w = f'{DS}:{cls}'
        I = ctx.interp()
        K = I.get(DS, cls)
        for bad in (0, -2, 'three'):
            refuse(ctx, 'bad-feature-number-is-refused', f'{w} {bad}', lambda: I.call(K, [bad], {}))
        for k in st:
            refuse(ctx, 'statistics-of-wrong-length-are-refused', f'{w} {k}', lambda: I.call(K, [3], {k: vec('a', 2)}))
            refuse(ctx, 'statistics-of-wrong-type-are-refused', f'{w} {k}', lambda: I.call(K, [2], {k: PyList([Num(C(1)), Num(C(2))])}))
            o = I.call(K, [3], {})
            refuse(ctx, 'statistics-of-wrong-length-are-refused', f'{w}.set_{k}', lambda: call(I, o, f'set_{k}', vec('a', 4)))
        pair = 'set_' + '_and_'.join(st)
        for i in (0, 1):
            o = I.call(K, [3], {})
            refuse(ctx, 'statistics-of-wrong-length-are-refused', f'{w}.{pair} {i}',
                   lambda: call(I, o, pair, vec('a', 2 if i == 0 else 3), vec('b', 2 if i else 3)))
        for f in ('transform', 'inverse_transform', 'fit'):
            for sh in ((3,), (2, 2), (2, 3, 4), (1, 2, 2, 3)):
                o = I.call(K, [3], {k: vec('a', 3, pos=True) for k in st})
                refuse(ctx, 'tensor-of-wrong-shape-is-refused', f'{w}.{f} {sh}', lambda: call(I, o, f, tens('x', sh)))
            if f != 'fit':
                o = I.call(K, [3], {})
                refuse(ctx, 'unfitted-scaler-is-refused', f'{w}.{f}', lambda: call(I, o, f, tens('x', (2, 3))))


def rec_scaler(I, name, log):
    def tr(kind):
        def f(I, a, k):
            t = a[0]
            log.append((name, kind, t))
            return tlib.new([S(f'{name}.{kind}[{i}]') for i in range(t.size)], t.shape, 'float64', 'torch')
        return f
    return fake(I, 'Scaler', transform=tr('transform'), inverse_transform=tr('inverse_transform'), set_device=lambda I, a, k: None)


def dispatch(ctx):
    for mode, kind in (('normalize', 'transform'), ('denormalize', 'inverse_transform'), (None, 'transform')):
        for ft in ('features_in', 'features_out'):
            for dt in ('float32', 'float64'):
                I = ctx.interp()
                w = f'{MS}:data_scaler_transform {mode} {ft} {dt}'
                log = []
                m = fake(I, 'Model', _data_scalers=PyDict([(k, rec_scaler(I, k, log)) for k in ('features_in', 'features_out')]))
                x = tens('x', (2, 3), dtype=dt)
                kw = {} if mode is None else {'mode': mode}
                y = ctx.run('dispatch', w, lambda: I.call(I.get(MS, 'data_scaler_transform'), [m, x, ft], kw))
                if y is None:
                    continue
                ctx.ob('scaler-of-requested-features-and-direction', w, [x_[:2] for x_ in log] == [(ft, kind)], [x_[:2] for x_ in log])
                ctx.same('transformed-values-returned', w, ex(y), ex(tlib.new([S(f'{ft}.{kind}[{i}]') for i in range(6)], (2, 3), dt, 'torch')))
                ctx.ob('input-precision-kept', w, getattr(y, 'dtype', None) == dt, getattr(y, 'dtype', None))
                ctx.ob('input-unchanged', w, x.vals() == tens('x', (2, 3)).vals() and log and log[0][2].vals() == x.vals(), '')
    f = 'data_scaler_transform'
    I = ctx.interp()
    log = []
    sc = lambda: rec_scaler(I, 'a', log)
    x = tens('x', (2, 3))
    T_ = I.get(MS, f)
    w = f'{MS}:{f}'
    mk = lambda d: fake(I, 'Model', _data_scalers=d)
    both = lambda: PyDict([('features_in', sc()), ('features_out', sc())])
    refuse(ctx, 'unset-scalers-are-refused', f'{w} None', lambda: I.call(T_, [mk(None), x, 'features_in'], {}))
    refuse(ctx, 'unset-scalers-are-refused', f'{w} all None', lambda: I.call(T_, [mk(PyDict([('features_in', None), ('features_out', None)])), x, 'features_in'], {}))
    refuse(ctx, 'unset-scalers-are-refused', f'{w} one None', lambda: I.call(T_, [mk(PyDict([('features_in', None), ('features_out', sc())])), x, 'features_in'], {}))
    refuse(ctx, 'unknown-features-are-refused', w, lambda: I.call(T_, [mk(both()), x, 'features'], {}))
    refuse(ctx, 'unknown-direction-is-refused', w, lambda: I.call(T_, [mk(both()), x, 'features_in'], {'mode': 'scale'}))
    refuse(ctx, 'non-tensor-is-refused', w, lambda: I.call(T_, [mk(both()), PyList([Num(C(1))]), 'features_in'], {}))
    bad = fake(I, 'Scaler', transform=lambda I, a, k: tens('y', (2, 2)), inverse_transform=lambda I, a, k: tens('y', (3, 3)))
    refuse(ctx, 'changed-shape-is-refused', w, lambda: I.call(T_, [mk(PyDict([('features_in', bad), ('features_out', bad)])), x, 'features_in'], {}))


def model(I, n_in=3, n_out=2, save=True):
    saves = []

    def sv(I, a, k):
        d = m.attrs.get('_data_scalers')
        saves.append([d.get(k_) for k_ in ('features_in', 'features_out')] if isinstance(d, PyDict) else None)
    m = fake(I, 'Model', save_model_init_file=sv, _is_save_model_init_file=save, _n_features_in=n_in, _n_features_out=n_out, _device_type='cpu')
    return m, saves


def setting(ctx):
    for save in (True, False):
        I = ctx.interp()
        w = f'{MS}:set_data_scalers save={save}'
        m, saves = model(I, save=save)
        a, b = rec_scaler(I, 'a', []), rec_scaler(I, 'b', [])
        if ctx.run('set', w, lambda: (I.call(I.get(MS, 'set_data_scalers'), [m, a, b], {}), 1)[1]) is not None:
            d = m.attrs.get('_data_scalers')
            ok = isinstance(d, PyDict) and d.get('features_in') is a and d.get('features_out') is b
            ctx.ob('scalers-set-for-their-features', w, ok, '')
            ctx.ob('initialisation-file-updated-with-scalers', w, ([[a, b]] if save else []) == saves, len(saves))
    for typ, cls, par in (('min-max', 'TorchMinMaxScaler', ('minimum', 'maximum')), ('mean-std', 'TorchStandardScaler', ('mean', 'std'))):
        for save in (True, False):
            I = ctx.interp()
            w = f'{MS}:set_fitted_data_scalers {typ} save={save}'
            m, saves = model(I, save=save)
            sp = PyDict([(k, PyDict([(p, vec(f'{k}.{p}', n)) for p in par])) for k, n in (('features_in', 3), ('features_out', 2))])
            if ctx.run('set', w, lambda: (I.call(I.get(MS, 'set_fitted_data_scalers'), [m, typ, sp], {}), 1)[1]) is None:
                continue
            d = m.attrs.get('_data_scalers')
            for k, n in (('features_in', 3), ('features_out', 2)):
                o = d.get(k)
                ok = isinstance(o, Instance) and o.cls.name == cls
                ctx.ob('scaler-of-requested-type', f'{w} {k}', ok, getattr(getattr(o, 'cls', None), 'name', o))
                if ok:
                    q = I.iterate(call(I, o, 'get_' + '_and_'.join(par)))
                    ctx.same('scaler-has-its-own-statistics', f'{w} {k}', [ex(x) for x in q], [ex(vec(f'{k}.{p}', n)) for p in par])
            ctx.ob('initialisation-file-updated-with-scalers', w, ([[d.get('features_in'), d.get('features_out')]] if save else []) == saves, len(saves))
    I = ctx.interp()
    m, _ = model(I)
    refuse(ctx, 'unknown-scaling-is-refused', f'{MS}:set_fitted_data_scalers', lambda: I.call(
        I.get(MS, 'set_fitted_data_scalers'), [m, 'robust', PyDict([('features_in', PyDict([])), ('features_out', PyDict([]))])], {}))


def sk(I, kind, log):
    """sklearn incremental scalers: statistics of everything seen."""
    def cls(I, a, k):
        rows = []

        def fit(I, a, k):
            t = tlib.as_tensor(I, a[0])
            if len(t.shape) != 2:
                raise AbsRaise('ValueError', 'expected a 2D array')
            v = t.vals()
            rows.extend(v[i * t.shape[1]:(i + 1) * t.shape[1]] for i in range(t.shape[0]))
            log.append((kind, t.shape, t.dtype))
            c = list(zip(*rows))
            if kind == 'StandardScaler':
                mu = [sum(x, Z) / C(len(rows)) for x in c]
                var = [sum(((e - m) * (e - m) for e in x), Z) / C(len(rows)) for x, m in zip(c, mu)]
                o.attrs['mean_'] = tlib.new(mu, (len(mu),), 'float64', 'np')
                o.attrs['var_'] = tlib.new(var, (len(var),), 'float64', 'np')
            else:
                lo = [alg.const(min(e.const() for e in x)) for x in c]
                hi = [alg.const(max(e.const() for e in x)) for x in c]
                o.attrs['data_min_'] = tlib.new(lo, (len(lo),), 'float64', 'np')
                o.attrs['data_max_'] = tlib.new(hi, (len(hi),), 'float64', 'np')
            return o
        o = fake(I, kind, partial_fit=fit)
        return o
    return cls


def loader(I, samples, a, k):
    bs = k.get('batch_size', a[1] if len(a) > 1 else 1)
    bs = 1 if bs is None else I.as_int(bs)
    out = []
    for i in range(0, len(samples), bs):
        grp = samples[i:i + bs]
        out.append(grp[0] if bs == 1 else PyDict([(n, tlib.FUNCS['cat'](I, 'torch', [PyList([g.get(n) for g in grp])], {'dim': 1}))
                                                   for n in ('features_in', 'features_out')]))
    return PyList(out)


def dataset_fit(ctx):
    # samples as handed out by the loader: (sequence, 1, features)
    num = [[[3, -1, 5], [-7, 2, 5]], [[4, 0, 6], [1, 8, -2]], [[0, -3, 9], [2, 2, 2]]]
    for typ, cls, par in (('min-max', 'TorchMinMaxScaler', ('minimum', 'maximum')), ('mean-std', 'TorchStandardScaler', ('mean', 'std'))):
        for save in (True, False):
            I = ctx.interp()
            w = f'{MS}:fit_data_scalers {typ} save={save}'
            log = []
            I.stubs['lib:sklearn.preprocessing.StandardScaler'] = sk(I, 'StandardScaler', log)
            I.stubs['lib:sklearn.preprocessing.MinMaxScaler'] = sk(I, 'MinMaxScaler', log)
            samples, ref = [], {'features_in': [], 'features_out': []}
            for s, rows in enumerate(num):
                d = []
                for k, n in (('features_in', 3), ('features_out', 2)):
                    v = [[(C(x + 10 * (k == 'features_out')) if typ == 'min-max' else S(f'{k}{s}{t}{j}')) for j, x in enumerate(r[:n])] for t, r in enumerate(rows)]
                    ref[k] += v
                    d.append((k, tlib.new([e for r in v for e in r], (2, 1, n), 'float64', 'torch')))
                samples.append(PyDict(d))
            ds = fake(I, 'Dataset')
            I.stubs['time_series_data.time_dataset.get_time_series_data_loader'] = lambda I, a, k: loader(I, samples, a, k)
            I.stubs['lib:tqdm.tqdm'] = lambda I, a, k: a[0]
            m, saves = model(I, save=save)
            if ctx.run('fit', w, lambda: (I.call(I.get(MS, 'fit_data_scalers'), [m, ds], {'scaling_type': typ}), 1)[1]) is None:
                continue
            d = m.attrs.get('_data_scalers')
            ctx.ob('statistics-in-the-precision-of-the-data', w, all(x[2] == 'float64' for x in log), sorted({x[2] for x in log}))
            for k in ref:
                o = d.get(k) if isinstance(d, PyDict) else None
                ok = isinstance(o, Instance) and o.cls.name == cls
                ctx.ob('scaler-of-requested-type', f'{w} {k}', ok, '')
                if not ok:
                    continue
                q = [ex(t) for t in I.iterate(call(I, o, 'get_' + '_and_'.join(par)))]
                c = list(zip(*ref[k]))
                if typ == 'min-max':
                    want = [[C(min(e.const() for e in x)) for x in c], [C(max(e.const() for e in x)) for x in c]]
                else:
                    mu = [sum(x, Z) / C(len(x)) for x in c]
                    want = [mu, [sum(((e - m_) * (e - m_) for e in x), Z) / C(len(x)) for x, m_ in zip(c, mu)]]
                    q[1] = [e * e for e in q[1]]
                ctx.same('statistics-of-all-samples-of-the-features', f'{w} {k}', q, want)
            ctx.ob('initialisation-file-updated-with-scalers', w, ([[d.get('features_in'), d.get('features_out')]] if save else []) == saves, len(saves))
            # refusals
            F = I.get(FD, 'fit_data_scaler_from_dataset')
            refuse(ctx, 'unknown-scaling-is-refused', f'{FD}:fit_data_scaler_from_dataset', lambda: I.call(F, [ds, 'features_in', 3], {'scaling_type': 'robust'}))
            refuse(ctx, 'missing-features-are-refused', f'{FD} {typ}', lambda: I.call(F, [ds, 'strain', 3], {'scaling_type': typ}))
            refuse(ctx, 'feature-number-mismatch-is-refused', f'{FD} {typ}', lambda: I.call(F, [ds, 'features_in', 2], {'scaling_type': typ}))


def regressor(ctx):
    """Model with its own scaling methods."""
    TL = 'model_architectures.hybrid_base_model.model.transfer_learning'
    I = ctx.interp()
    log = []
    I.stubs['lib:torch.nn.Linear'] = lambda I, a, k: fake(I, 'Linear')
    m = I.call(I.get(TL, 'PolynomialLinearRegressor'), [2], {})
    w = f'{TL}:PolynomialLinearRegressor'
    x = tens('x', (2, 2))
    refuse(ctx, 'unset-scalers-are-refused', w, lambda: call(I, m, 'data_scaler_transform', x, 'features_in'))
    a, b = rec_scaler(I, 'features_in', log), rec_scaler(I, 'features_out', log)
    call(I, m, 'set_data_scalers', a, b)
    for ft in ('features_in', 'features_out'):
        for mode, kind in (('normalize', 'transform'), ('denormalize', 'inverse_transform')):
            del log[:]
            y = ctx.run('dispatch', w, lambda: call(I, m, 'data_scaler_transform', x, ft, mode=mode))
            if y is not None:
                ctx.ob('scaler-of-requested-features-and-direction', f'{w} {ft} {mode}', [q[:2] for q in log] == [(ft, kind)], '')
                ctx.ob('input-precision-kept', f'{w} {ft} {mode}', y.dtype == 'float32', y.dtype)
    refuse(ctx, 'unknown-features-are-refused', w, lambda: call(I, m, 'data_scaler_transform', x, 'features'))
    refuse(ctx, 'unknown-direction-is-refused', w, lambda: call(I, m, 'data_scaler_transform', x, 'features_in', mode='scale'))


def magnitudes(ctx):
    """Statistics of every magnitude and many features, samples and times; reversed norm bounds."""
    from fractions import Fraction as Fr
    vals = [Fr(1, 10 ** 12), Fr(1, 10 ** 9), Fr(1, 10 ** 7), Fr(1, 10 ** 5), Fr(1, 2000), Fr(1, 3), Fr(7), Fr(10 ** 4), Fr(10 ** 9), Fr(1, 10 ** 15), Fr(2), Fr(5, 4)]
    n = len(vals)
    mid = [Fr((-1) ** i * (i + 1), 3) for i in range(n)]
    for sh in ((1, n), (13, n), (2, 11, n), (3, 1, n)):
        xs = [S(f'x{i}') for i in range(math.prod(sh))]
        for cls, kw, fwd in (
                ('TorchStandardScaler', {'mean': mid, 'std': vals}, lambda e, j: (e - C(mid[j])) / C(vals[j])),
                ('TorchMinMaxScaler', {'minimum': mid, 'maximum': [a + b for a, b in zip(mid, vals)]}, lambda e, j: C(-1) + C(2) * (e - C(mid[j])) / C(vals[j])),
                ('TorchMinMaxScaler', {'minimum': mid, 'maximum': [a + b for a, b in zip(mid, vals)], 'norm_minimum': 1, 'norm_maximum': -2},
                 lambda e, j: C(1) - C(3) * (e - C(mid[j])) / C(vals[j]))):
            I = ctx.interp()
            w = f'{DS}:{cls} {sh} {"reversed bounds" if "norm_minimum" in kw else ""}'
            k = {a: (T([C(v) for v in b], n, 'float64') if isinstance(b, list) else Num(C(b))) for a, b in kw.items()}
            o = ctx.run('construction', w, lambda: I.call(I.get(DS, cls), [n], k))
            if o is None:
                continue
            x = tlib.new(list(xs), sh, 'float64', 'torch')
            y = ctx.run('transform', w, lambda: call(I, o, 'transform', x))
            if y is None:
                continue
            ctx.same('transform-is-the-affine-map-of-its-statistics', w, y, tlib.new([fwd(e, i % n) for i, e in enumerate(xs)], sh, 'float64', 'torch'))
            z = ctx.run('inverse', w, lambda: call(I, o, 'inverse_transform', y))
            if z is not None:
                ctx.same('inverse-undoes-transform', w, z, tlib.new(list(xs), sh, 'float64', 'torch'))
            for chk in (True,):
                y = ctx.run('transform', f'{w} checked', lambda: call(I, o, 'inverse_transform', call(I, o, 'transform', x, is_check_data=True), is_check_data=True))
                if y is not None:
                    ctx.same('inverse-undoes-transform', f'{w} checked', y, tlib.new(list(xs), sh, 'float64', 'torch'))


def refit(ctx):
    """Fitting many samples, and a scaler whose statistics are replaced."""
    for sh in ((64, 2), (40, 3, 2), (3, 50, 2)):
        N = math.prod(sh) // 2
        rows = [[(7 * i * i + 3 * i) % 101 - 40, (13 * i + 5 * (i % 7)) % 89 + (900 if i == N - 1 else 0)] for i in range(N)]
        x = lambda: tlib.new([C(v) for r in rows for v in r], sh, 'float64', 'torch')
        from fractions import Fraction as Fr
        mu = [Fr(sum(c), N) for c in zip(*rows)]
        for bessel in (False, True):
            I = ctx.interp()
            w = f'{DS}:TorchStandardScaler.fit {sh} bessel={bessel}'
            o = I.call(I.get(DS, 'TorchStandardScaler'), [2], {'mean': vec('old', 2), 'std': vec('olds', 2, pos=True)})
            if ctx.run('fit', w, lambda: (call(I, o, 'fit', x(), is_bessel=bessel), 1)[1]) is None:
                continue
            mean, std = (ex(t) for t in I.iterate(call(I, o, 'get_mean_and_std')))
            ctx.same('fit-mean-over-all-samples', w, mean, [C(m) for m in mu])
            ctx.same('fit-deviation-over-all-samples', w, [s_ * s_ for s_ in std],
                     [C(sum(((e - m) ** 2 for e in c), Fr(0)) / (N - bessel)) for c, m in zip(zip(*rows), mu)])
        I = ctx.interp()
        w = f'{DS}:TorchMinMaxScaler.fit {sh}'
        o = I.call(I.get(DS, 'TorchMinMaxScaler'), [2], {'minimum': T([C(-999), C(-999)], 2), 'maximum': T([C(9999), C(9999)], 2)})
        if ctx.run('fit', w, lambda: (call(I, o, 'fit', x()), 1)[1]) is not None:
            q = I.iterate(call(I, o, 'get_minimum_and_maximum'))
            ctx.same('fit-takes-extremes-over-all-samples', w, [ex(t) for t in q], [[C(min(c)) for c in zip(*rows)], [C(max(c)) for c in zip(*rows)]])
    for cls, st, fwd in (('TorchMinMaxScaler', ('minimum', 'maximum'), lambda e, a, b: C(-1) + C(2) * (e - a) / (b - a)),
                         ('TorchStandardScaler', ('mean', 'std'), lambda e, a, b: (e - a) / b)):
        I = ctx.interp()
        w = f'{DS}:{cls} statistics replaced after use'
        o = I.call(I.get(DS, cls), [2], {st[0]: T([C(1), C(2)], 2), st[1]: T([C(3), C(7)], 2)})
        for q in range(3):
            a, b = [C(1 + q), C(2 - q)], [C(3 + 2 * q), C(7 + q)]
            if q == 1:
                call(I, o, 'set_' + '_and_'.join(st), T(a, 2), T(b, 2))
            elif q == 2:
                call(I, o, f'set_{st[1]}', T(b, 2))
                call(I, o, f'set_{st[0]}', T(a, 2))
            x = tens('x', (3, 2, 2))
            y = ctx.run('transform', w, lambda: call(I, o, 'transform', x))
            if y is None:
                continue
            ctx.same('transform-uses-the-current-statistics', f'{w} {q}', y.vals(), [fwd(e, a[i % 2], b[i % 2]) for i, e in enumerate(tens('x', (3, 2, 2)).vals())])
            z = ctx.run('inverse', w, lambda: call(I, o, 'inverse_transform', y))
            if z is not None:
                ctx.same('inverse-undoes-transform', f'{w} {q}', z, tens('x', (3, 2, 2)))


def parameters(ctx):
    """Fit options reach the scaler of their own features."""
    for given in (('features_in',), ('features_out',), ('features_in', 'features_out'), ()):
        I = ctx.interp()
        w = f'{MS}:fit_data_scalers scaling_parameters={given}'
        I.stubs['lib:sklearn.preprocessing.StandardScaler'] = sk(I, 'StandardScaler', [])
        I.stubs['lib:sklearn.preprocessing.MinMaxScaler'] = sk(I, 'MinMaxScaler', [])
        I.stubs['lib:tqdm.tqdm'] = lambda I, a, k: a[0]
        nT = (2, 1, 4) + (3,) * 9
        samples, seen = [], {'features_in': [], 'features_out': []}
        for i, t in enumerate(nT):
            d = []
            for k, n in (('features_in', 3), ('features_out', 2)):
                v = [[(5 * i + 3 * a + 7 * j + (n == 2)) % 23 - 9 for j in range(n)] for a in range(t)]
                seen[k] += v
                d.append((k, tlib.new([C(e) for r in v for e in r], (t, 1, n), 'float64', 'torch')))
            samples.append(PyDict(d))
        I.stubs['time_series_data.time_dataset.get_time_series_data_loader'] = lambda I, a, k: loader(I, samples, a, k)
        m, _ = model(I)
        nb = {'features_in': (-3, 5), 'features_out': (2, 4)}
        sp = PyDict([(k, PyDict([('norm_minimum', Num(C(nb[k][0]))), ('norm_maximum', Num(C(nb[k][1])))])) for k in given])
        kw = {'scaling_type': 'min-max'}
        if given:
            kw['scaling_parameters'] = sp
        if ctx.run('fit', w, lambda: (I.call(I.get(MS, 'fit_data_scalers'), [m, fake(I, 'Dataset')], kw), 1)[1]) is None:
            continue
        d = m.attrs.get('_data_scalers')
        for k, n in (('features_in', 3), ('features_out', 2)):
            a, b = nb[k] if k in given else (-1, 1)
            x = tens('x', (2, n))
            y = ctx.run('transform', f'{w} {k}', lambda: call(I, d.get(k), 'transform', x))
            if y is None:
                continue
            lo, hi = [min(c) for c in zip(*seen[k])], [max(c) for c in zip(*seen[k])]
            ctx.same('fitted-scaler-uses-its-own-options', f'{w} {k}', y.vals(),
                     [C(a) + C(b - a) * (e - C(lo[i % n])) / C(hi[i % n] - lo[i % n]) for i, e in enumerate(tens('x', (2, n)).vals())])


def one_direction(ctx):
    """A model may have scalers for its input or output features only."""
    for ft, other in (('features_in', 'features_out'), ('features_out', 'features_in')):
        I = ctx.interp()
        log = []
        m = fake(I, 'Model', _data_scalers=PyDict([(k, rec_scaler(I, k, log) if k == ft else None) for k in ('features_in', 'features_out')]))
        w = f'{MS}:data_scaler_transform only {ft}'
        x = tens('x', (2, 3))
        y = ctx.run('dispatch', w, lambda: I.call(I.get(MS, 'data_scaler_transform'), [m, x, ft], {}))
        if y is not None:
            ctx.ob('scaler-of-requested-features-and-direction', w, [q[:2] for q in log] == [(ft, 'transform')], '')
        s = ctx.run('lookup', w, lambda: I.call(I.get(MS, 'get_fitted_data_scaler'), [m, ft], {}))
        ctx.ob('scaler-of-requested-features', w, s is m.attrs['_data_scalers'].get(ft), '')
        refuse(ctx, 'unset-scalers-are-refused', w, lambda: I.call(I.get(MS, 'data_scaler_transform'), [m, x, other], {}))
        refuse(ctx, 'unset-scalers-are-refused', f'{MS}:get_fitted_data_scaler {other}', lambda: I.call(I.get(MS, 'get_fitted_data_scaler'), [m, other], {}))
