"""P21 - losses, prediction metrics, optimizers and denoising.  Loss functions and
metrics are evaluated on unrestricted predictions and targets (targets of every sign
and on both sides of the relative error threshold) and compared with their
definition; metrics files are evaluated over an abstract file system; the optimizer
and scheduler factories must hand every option to the algorithm they name; the
denoisers are compared with windowed averages of each feature by itself and with the
band limit of the spectrum."""
from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse

FLOOR = 60
LF, PM, OM = 'utilities.loss_functions', 'utilities.prediction_metrics', 'utilities.output_prediction_metrics'
OP, DN = 'utilities.optimizers', 'utilities.data_denoisers'
C = alg.const
D = '/p/preds'


def groups(tier):
    return [('loss dispatch', dispatch), ('relative error', relative), ('relative error gradient', gradient), ('sample metrics', metrics),
            ('mean metrics', means), ('metrics files', files), ('metrics record', record), ('convergence', convergence),
            ('optimizer', optimizer), ('moving average', moving), ('smoothing', savgol), ('low pass', lowpass), ('denoiser', denoiser)]


def call(I, m, n, *a, **k):
    return I.call(I.get(m, n), list(a), k)


def scal(x):
    return tlib.E(x.vals()[0]) if isinstance(x, Tensor) else to_expr(x)


def mean(l):
    return sum(l, alg.ZERO) / C(len(l))


def dispatch(ctx):
    f = f'{LF}:get_pytorch_loss'
    got = []
    for kw in ({}, {'reduction': 'sum'}):
        I = ctx.interp()
        I.stubs['lib:torch.nn.MSELoss'] = lambda I, a, k: got.append((a, k)) or 'MSE'
        r = ctx.run('loss-of-its-name', f'{f} mse {kw}', lambda: call(I, LF, 'get_pytorch_loss', 'mse', **kw))
        ctx.ob('loss-of-its-name', f'{f} mse {kw}', r == 'MSE' and got[-1:] == [([], kw)], got)
    for kw in ({}, {'zero_handling': 'clip', 'small': Num(C(1) / C(8))}):
        I = ctx.interp()
        o = ctx.run('loss-of-its-name', f'{f} mre {kw}', lambda: call(I, LF, 'get_pytorch_loss', 'mre', **kw))
        if o is None:
            continue
        x, t = tlib.new([S('x', True)], (1,), 'float32', 'torch'), tlib.new([C(1) / C(16)], (1,), 'float32', 'torch')
        r = ctx.run('loss-of-its-name', f'{f} mre {kw}', lambda: I.call(o, [x, t], {}))
        if r is not None:
            ctx.same('loss-of-its-name', f'{f} mre {kw}', scal(r), alg.abs_(S('x', True) - C(1) / C(16)) / (C(1) / C(8) if kw else C(1) / C(16)))
    for bad in ('mae', 'MSE', '', None):
        refuse(ctx, 'unknown-loss-refused', f'{f} {bad!r}', lambda: call(ctx.interp(), LF, 'get_pytorch_loss', bad))
    for bad in ('none', 'Clip', None):
        refuse(ctx, 'unknown-strategy-refused', f'{LF}:MeanRelativeErrorLoss {bad!r}', lambda: call(ctx.interp(), LF, 'MeanRelativeErrorLoss', zero_handling=bad))


def targets(sm):
    """Targets of both signs on both sides of the threshold and exactly at it."""
    p = S('p', True)
    return [('above', sm + p), ('below', -(sm + p)), ('at', sm), ('minus', -sm), ('half', sm / C(2)), ('-half', -sm / C(2)), ('zero', alg.ZERO)]


def ref(mode, x, t, sm):
    e, a = alg.abs_(x - t), alg.abs_(t)
    small = alg.cmp_('lt', a, sm)
    if mode == 'absolute':
        return e if small is True else e / a
    if mode == 'clip':
        return e / (sm if small is True else a)
    return e / (a + sm)


def relative(ctx):
    f = f'{LF}:MeanRelativeErrorLoss.forward'
    for sm, kw in ((C(1) / C(100000), {}), (C(1) / C(4), {'small': Num(C(1) / C(4))})):
        tg = targets(sm)
        for mode in ('absolute', 'clip', 'regularizer'):
            k = dict(kw, **({} if mode == 'absolute' and not kw else {'zero_handling': mode}))
            for shape in ((7,), (7, 1), (1, 7), (1, 7, 1), (7, 1, 1)):
                for sgn in (1, -1):
                    w = f'{f} {mode} small={sm} shape={shape} side={sgn}'
                    I = ctx.interp()
                    T = [t for _, t in tg]
                    X = [t + C(sgn) * S(f'd{i}', True) for i, t in enumerate(T)]
                    x, t = tlib.new(X, shape, 'float32', 'torch'), tlib.new(T, shape, 'float32', 'torch')

                    def go():
                        return I.call(call(I, LF, 'MeanRelativeErrorLoss', **k), [x, t], {})
                    r = ctx.run('mean-relative-error', w, go)
                    if r is None:
                        continue
                    ctx.ob('loss-is-scalar', w, isinstance(r, Tensor) and r.shape == (), getattr(r, 'shape', r))
                    ctx.same('mean-relative-error', w, scal(r), mean([ref(mode, a, b, sm) for a, b in zip(X, T)]))
                    ctx.ob('input-unchanged', w, [tlib.E(v) for v in x.vals()] == X and [tlib.E(v) for v in t.vals()] == T, '')
            # unrestricted prediction: absolute value of the difference
            I = ctx.interp()
            X, T = [S('u'), S('v')], [sm + S('p', True), -(sm + S('q', True))]
            x, t = tlib.new(X, (2,), 'float32', 'torch'), tlib.new(T, (2,), 'float32', 'torch')
            r = ctx.run('mean-relative-error', f'{f} {mode} small={sm} any', lambda: I.call(call(I, LF, 'MeanRelativeErrorLoss', **k), [x, t], {}))
            if r is not None:
                ctx.same('mean-relative-error', f'{f} {mode} small={sm} any', scal(r), mean([ref(mode, a, b, sm) for a, b in zip(X, T)]))


def gradient(ctx):
    """A division by a zero target, even one discarded by a later selection, makes the gradient undefined."""
    f = f'{LF}:MeanRelativeErrorLoss.forward'
    for mode in ('absolute', 'clip', 'regularizer'):
        I = ctx.interp()
        x, t = tens('x', (3,)), tlib.new([alg.ZERO, C(1), C(-2)], (3,), 'float32', 'torch')
        n = alg.DIV0[0]
        r = ctx.run('gradient-defined-at-zero-target', f'{f} {mode}', lambda: I.call(call(I, LF, 'MeanRelativeErrorLoss', zero_handling=mode), [x, t], {}))
        if r is not None:
            ctx.ob('gradient-defined-at-zero-target', f'{f} {mode}', alg.DIV0[0] == n, 'division by a zero target')


def results(T, n, tag='', targets=True, none=False):
    d = [('features_out', tens(f'y{tag}', (T, n)))]
    if targets:
        d.append(('targets', None if none else tens(f't{tag}', (T, n))))
    return PyDict(d + [('loss', Num(S('l')))])


def mref(metric, T, n, tag=''):
    out = []
    for j in range(n):
        y = [S(f'y{tag}[{i * n + j}]') for i in range(T)]
        t = [S(f't{tag}[{i * n + j}]') for i in range(T)]
        mse = mean([(a - b) * (a - b) for a, b in zip(y, t)])
        out.append({'mse': mse, 'rmse': alg.sqrt(mse), 'mav': mean([alg.abs_(a) for a in y]), 'mav_gt': mean([alg.abs_(b) for b in t])}[metric])
    return out


def metrics(ctx):
    f = f'{PM}:compute_prediction_metrics'
    path = f'{D}/prediction_sample_0.pkl'
    for T, n in ((1, 1), (3, 1), (2, 3)):
        for ms in (['mse'], ['rmse'], ['mav'], ['mav_gt'], ['mav_gt', 'rmse', 'mse', 'mav'], []):
            w = f'{f} times={T} features={n} {ms}'
            I = ctx.interp()
            FS(I, dirs=[D], files={path: results(T, n)})
            r = ctx.run('metric-of-each-feature', w, lambda: call(I, PM, 'compute_prediction_metrics', path, PyList(list(ms))))
            if r is None:
                continue
            ctx.ob('requested-metrics-returned', w, sorted(r.keys()) == sorted(ms), r.keys())
            for m in ms:
                if r.has(m):
                    ctx.same('metric-of-each-feature', f'{w} {m}', r.get(m), mref(m, T, n))
    for tag, file, ms in (('no file', None, ['mse']), ('unknown metric', results(2, 2), ['mae']), ('no targets', results(2, 2, targets=False), ['mse']),
                          ('targets None', results(2, 2, none=True), ['rmse']), ('targets None mav_gt', results(2, 2, none=True), ['mav_gt']),
                          ('not a dict', PyList([1]), ['mse']), ('no features', PyDict([('targets', tens('t', (2, 2)))]), ['mse']),
                          ('features not a tensor', PyDict([('features_out', PyList([1])), ('targets', tens('t', (2, 2)))]), ['mse'])):
        I = ctx.interp()
        FS(I, dirs=[D], files={} if file is None else {path: file})
        refuse(ctx, 'missing-data-refused', f'{f} {tag}', lambda: call(I, PM, 'compute_prediction_metrics', path, PyList(list(ms))))


def means(ctx):
    f = f'{OM}:compute_mean_prediction_metrics'
    for N in (1, 2, 3):
        for ms in (['rmse'], ['nrmse'], ['rmse', 'nrmse'], ['nrmse', 'rmse']):
            w = f'{f} samples={N} {ms}'
            I = ctx.interp()
            paths = [f'{D}/prediction_sample_{i}.pkl' for i in range(N)]
            shp = [(2, 2), (3, 2), (1, 2)][:N]
            FS(I, dirs=[D], files={p: results(*s, tag=f'.{i}') for i, (p, s) in enumerate(zip(paths, shp))})
            r = ctx.run('mean-over-samples', w, lambda: call(I, OM, 'compute_mean_prediction_metrics', PyList(paths), PyList(list(ms))))
            if r is None:
                continue
            ctx.ob('requested-metrics-returned', w, sorted(r.keys()) == sorted(ms), r.keys())
            rows = [(mref('rmse', *s, tag=f'.{i}'), mref('mav_gt', *s, tag=f'.{i}')) for i, s in enumerate(shp)]
            for m in ms:
                q = [[a / b for a, b in zip(x, g)] if m == 'nrmse' else x for x, g in rows]
                ctx.same('mean-over-samples', f'{w} {m}', r.get(m), [mean(list(c)) for c in zip(*q)])
    I = ctx.interp()
    FS(I, dirs=[D], files={f'{D}/prediction_sample_0.pkl': results(2, 2)})
    refuse(ctx, 'missing-data-refused', f'{f} unknown metric', lambda: call(I, OM, 'compute_mean_prediction_metrics', PyList([f'{D}/prediction_sample_0.pkl']), PyList(['mse%'])))


OTHER = ['prediction_sample_.pkl', 'prediction_sample_1.pkl.bak', 'xprediction_sample_2.pkl', 'prediction_sample_3.txt', 'summary.dat', 'prediction_sample_a.pkl']


def files(ctx):
    f = f'{OM}:get_samples_prediction_files'
    for ids in ((0,), (0, 1, 2), (7, 12, 103)):
        w = f'{f} {ids}'
        I = ctx.interp()
        FS(I, dirs=[D, D + '/sub'], files=dict({f'{D}/{o}': 'x' for o in OTHER}, **{f'{D}/prediction_sample_{i}.pkl': results(2, 2, f'.{i}') for i in ids}))
        r = ctx.run('exactly-the-prediction-files', w, lambda: call(I, OM, 'get_samples_prediction_files', D))
        if r is not None:
            p, q = [list(I.iterate(x)) for x in I.iterate(r)]
            ctx.ob('exactly-the-prediction-files', w, sorted(p) == sorted(f'{D}/prediction_sample_{i}.pkl' for i in ids), p)
            ctx.ob('index-belongs-to-file', w, all(a == f'{D}/prediction_sample_{b}.pkl' for a, b in zip(p, q)) and len(p) == len(q), q)
        g = f'{OM}:compute_directory_prediction_metrics {ids}'
        r = ctx.run('directory-metrics', g, lambda: call(I, OM, 'compute_directory_prediction_metrics', D, PyList(['rmse'])))
        if r is not None:
            n, d = I.iterate(r)
            ctx.ob('directory-metrics', g + ' count', n == len(ids), n)
            ctx.same('directory-metrics', g, d.get('rmse'), [mean(list(c)) for c in zip(*[mref('rmse', 2, 2, f'.{i}') for i in ids])])
    I = ctx.interp()
    fs = FS(I, dirs=['/a', '/b', '/s'], files={'/a/prediction_sample_0.pkl': results(2, 1, '.0'), '/b/prediction_sample_5.pkl': results(2, 1, '.1'),
                                               '/b/prediction_sample_6.pkl': results(2, 1, '.2')})
    g = f'{OM}:compute_processes_prediction_metrics'
    r = ctx.run('metrics-of-each-process', g, lambda: call(I, OM, 'compute_processes_prediction_metrics', PyDict([('one', '/a'), ('two', '/b')]), PyList(['rmse', 'nrmse'])))
    if r is not None:
        ctx.ob('metrics-of-each-process', g, list(r.keys()) == ['one', 'two'], r.keys())
        for lab, tags in (('one', ['.0']), ('two', ['.1', '.2'])):
            ctx.ob('metrics-of-each-process', f'{g} {lab} count', r.get(lab).get('n_sample') == len(tags), '')
            ctx.same('metrics-of-each-process', f'{g} {lab}', r.get(lab).get('mean_metrics_results').get('rmse'),
                     [mean([mref('rmse', 2, 1, t)[0] for t in tags])])
    I = ctx.interp()
    FS(I, dirs=[D])
    refuse(ctx, 'missing-data-refused', f'{f} empty directory', lambda: call(I, OM, 'get_samples_prediction_files', D))


def record(ctx):
    """Written metrics are read back; appending keeps what is there."""
    wr, rd = f'{OM}:write_mean_metrics_results_file', f'{OM}:read_mean_metrics_results_file'
    F = C(1)
    blocks = [(10, {'rmse': [F / C(8), C(-3)], 'nrmse': [C(12345), F / C(1024)]}), (20, {'rmse': [C(7)]}), (5, {'nrmse': [C(0), C(2), C(250)]}),
              (1, {'rmse': [C(3), C(4)]}), (205, {'rmse': [C(9)]})]
    T = lambda l: tlib.new(l, (len(l),), 'float32', 'torch')
    md = lambda d: PyDict([(k, T(v)) for k, v in d.items()])

    def same(a, d):
        return sorted(a.keys()) == sorted(d) and all([alg.equal(x, y) for x, y in zip(ex(a.get(k)), d[k])] == [True] * len(d[k]) for k in d)
    I = ctx.interp()
    fs = FS(I, dirs=['/s'])
    p = '/s/mean_prediction_metrics.dat'
    for i, (n, d) in enumerate(blocks):
        ctx.run('record-appends', f'{wr} block {i}', lambda: call(I, OM, 'write_mean_metrics_results_file', '/s', n, md(d), process_label=f'n{n}'))
        if not isinstance(fs.look(p), str):
            ctx.ob('record-is-read-back', f'{wr} block {i}', None if fs.look(p) is not None else False, fs.look(p))
            return
        for m, e in blocks[:i + 1]:
            r = ctx.run('record-is-read-back', f'{rd} block {m} of {i + 1}', lambda: call(I, OM, 'read_mean_metrics_results_file', p, m))
            if r is not None:
                ctx.ob('record-is-read-back', f'{rd} block {m} of {i + 1}', same(r, e), r)
        r = ctx.run('record-is-read-back', f'{rd} first of {i + 1}', lambda: call(I, OM, 'read_mean_metrics_results_file', p))
        if r is not None:
            ctx.ob('record-is-read-back', f'{rd} first of {i + 1}', same(r, blocks[0][1]), r)
    for n in (11, 2, 0, 2051):
        refuse(ctx, 'missing-data-refused', f'{rd} unknown size {n}', lambda: call(I, OM, 'read_mean_metrics_results_file', p, n))
    ctx.run('record-overwrites', wr, lambda: call(I, OM, 'write_mean_metrics_results_file', '/s', 20, md(blocks[1][1]), is_overwrite=True))
    r = ctx.run('record-overwrites', wr, lambda: call(I, OM, 'read_mean_metrics_results_file', p))
    if r is not None:
        ctx.ob('record-overwrites', wr, same(r, blocks[1][1]), r)
    refuse(ctx, 'missing-data-refused', f'{wr} no directory', lambda: call(I, OM, 'write_mean_metrics_results_file', '/none', 20, md(blocks[1][1])))
    refuse(ctx, 'missing-data-refused', f'{rd} no file', lambda: call(I, OM, 'read_mean_metrics_results_file', '/s/none.dat'))
    # metrics directory: only its own previous content is replaced
    I = ctx.interp()
    fs = FS(I, dirs=[D, D + '/prediction_metrics'], files={f'{D}/prediction_sample_0.pkl': results(2, 1), f'{D}/prediction_metrics/old.dat': 'old', f'{D}/notes.txt': 'n'})
    g = f'{OM}:compute_directory_prediction_metrics saved'
    I.stubs['lib:sys.stdout.writelines'] = lambda I, a, k: None
    ctx.run('other-files-kept', g, lambda: call(I, OM, 'compute_directory_prediction_metrics', D, PyList(['rmse']), is_save_file=True))
    left = set(fs.files())
    ctx.ob('other-files-kept', g, {f'{D}/prediction_sample_0.pkl', f'{D}/notes.txt', f'{D}/prediction_metrics/mean_prediction_metrics.dat'} <= left, left)


def convergence(ctx):
    f = f'{OM}:plot_prediction_metrics_convergence'
    for labels in (['n20', 'n5', 'n100'], ['n20', 'n5', 'n100', 'reference', 'n7b']):
        w = f'{f} {labels}'
        I = ctx.interp()
        fs = FS(I, dirs=['/s'])
        got = []
        I.stubs['ioput.plots.plot_xy_data'] = lambda I, a, k: got.append((a[0] if a else k['data_xy']).copy() if False else (a[0] if a else k['data_xy'])) or (fake(I, 'Fig'), fake(I, 'Ax'))
        I.stubs['ioput.plots.save_figure'] = lambda I, a, k: None
        pr = PyDict([(l, PyDict([('n_sample', 3), ('mean_metrics_results', PyDict([(m, tlib.new([S(f'{m}.{l}.{i}') for i in range(2)], (2,), 'float32', 'torch')) for m in ('rmse', 'nrmse')]))])) for l in labels])
        ctx.run('convergence-by-training-size', w, lambda: call(I, OM, 'plot_prediction_metrics_convergence', pr, PyList(['rmse', 'nrmse']), save_dir='/s', is_save_plot_data=True))
        for m in ('rmse', 'nrmse'):
            p = f'/s/plot_data/mean_{m}_convergence_data.pkl'
            if not fs.isfile(p):
                ctx.ob('convergence-by-training-size', f'{w} {m}', False, list(fs.files()))
                continue
            ctx.same('convergence-by-training-size', f'{w} {m}', fs.look(p).get('data_xy'),
                     [[v for i in range(2) for v in (C(n), S(f'{m}.n{n}.{i}'))] for n in (5, 20, 100)])


def optimizer(ctx):
    f = f'{OP}:get_pytorch_optimizer'
    for kw in ({}, {'lr': Num(S('lr'))}, {'lr': Num(S('lr')), 'weight_decay': Num(S('wd')), 'betas': (Num(S('b1')), Num(S('b2')))}):
        I = ctx.interp()
        got = []
        I.stubs['lib:torch.optim.Adam'] = lambda I, a, k: got.append((a, k)) or 'ADAM'
        par = PyList([tens('w', (2,))])
        r = ctx.run('optimizer-of-its-name', f'{f} adam {sorted(kw)}', lambda: call(I, OP, 'get_pytorch_optimizer', 'adam', par, **kw))
        a = dict(zip(('params', 'lr', 'betas', 'eps', 'weight_decay'), got[0][0]), **got[0][1]) if got else {}
        ctx.ob('optimizer-of-its-name', f'{f} adam {sorted(kw)}', r == 'ADAM' and len(got) == 1, got)
        ctx.ob('options-reach-the-algorithm', f'{f} adam {sorted(kw)}', a.get('params') is par and {k: v for k, v in a.items() if k != 'params'} == kw, sorted(a))
    for bad in ('sgd', 'Adam', None):
        refuse(ctx, 'unknown-algorithm-refused', f'{f} {bad}', lambda: call(ctx.interp(), OP, 'get_pytorch_optimizer', bad, PyList([])))
    g = f'{OP}:get_learning_rate_scheduler'
    X = {'steplr': ('StepLR', {'step_size': 5}), 'explr': ('ExponentialLR', {'gamma': Num(S('g'))}), 'linlr': ('LinearLR', {})}
    for n, (cls, req) in X.items():
        for more in ({}, {'last_epoch': 3}):
            I = ctx.interp()
            got = []
            for c in ('StepLR', 'ExponentialLR', 'LinearLR'):
                I.stubs[f'lib:torch.optim.lr_scheduler.{c}'] = lambda I, a, k, c=c: got.append((c, a, k)) or c
            kw = dict(req, **more)
            r = ctx.run('optimizer-of-its-name', f'{g} {n} {sorted(kw)}', lambda: call(I, OP, 'get_learning_rate_scheduler', 'OPT', n, **kw))
            ctx.ob('optimizer-of-its-name', f'{g} {n} {sorted(kw)}', r == cls and len(got) == 1, got)
            if got:
                a = dict(zip(('optimizer',), got[0][1]), **got[0][2])
                ctx.ob('options-reach-the-algorithm', f'{g} {n} {sorted(kw)}', a == dict(kw, optimizer='OPT'), sorted(a))
        if req:
            refuse(ctx, 'missing-option-refused', f'{g} {n}', lambda: call(ctx.interp(), OP, 'get_learning_rate_scheduler', 'OPT', n))
    for bad in ('cosine', None):
        refuse(ctx, 'unknown-algorithm-refused', f'{g} {bad}', lambda: call(ctx.interp(), OP, 'get_learning_rate_scheduler', 'OPT', bad))


def window(col, q, coef):
    """Weighted window around each point with edge values replicated."""
    n, l = len(col), q // 2
    return [sum((coef[j] * col[min(max(i + j - l, 0), n - 1)] for j in range(q)), alg.ZERO) for i in range(n)]


def by_feature(T, n, f, name='x'):
    cols = [f([S(f'{name}[{i * n + j}]') for i in range(T)]) for j in range(n)]
    return [[cols[j][i] for j in range(n)] for i in range(T)]


def denoise(I, x, *a, **k):
    return I.call(I.getattr(call(I, DN, 'Denoiser'), 'denoise'), [x, *a], k)


def check(ctx, rule, w, I, x, dt, want, *a, **k):
    keep = list(x.vals())
    r = ctx.run(rule, w, lambda: denoise(I, x, *a, **k))
    if r is None:
        return
    ctx.same(rule, w, r, want)
    ctx.ob('precision-kept', w, r.dtype == dt, r.dtype)
    ctx.ob('input-unchanged', w, x.vals() == keep, '')


def moving(ctx):
    f = f'{DN}:Denoiser.denoise moving_average'
    for dt in ('float32', 'float64'):
        for T, n in ((4, 1), (5, 2), (3, 3)):
            for q in (1, 2, 3, 4, 5):
                for cyc in (1, 2) + ((3, 4) if q == 2 else ()):
                    I = ctx.interp()

                    def ref(col):
                        for _ in range(cyc):
                            col = window(col, q, [C(1) / C(q)] * q)
                        return col
                    check(ctx, 'windowed-average-of-each-feature', f'{f} {dt} times={T} features={n} window={q} cycles={cyc}', I, tens('x', (T, n), dt), dt,
                          by_feature(T, n, ref), 'moving_average', PyDict([('window_size', q)]), cyc)


def savgol(ctx):
    f = f'{DN}:Denoiser.denoise savitzky_golay'
    for dt in ('float32', 'float64'):
        for T, n in ((4, 1), (6, 2)):
            for q, o in ((3, 1), (5, 2), (5, 3), (7, 4), (3, 0)):
                I = ctx.interp()
                got = []
                half = [S(f'c{o}.{i}') for i in range(q // 2 + 1)]
                co = half[:0:-1] + half         # smoothing coefficients of an odd window are symmetric

                def coef(I, a, k, co=co, got=got):
                    got.append(dict(zip(('window_length', 'polyorder'), a), **k))
                    return tlib.new(list(co), (len(co),), 'float64', 'np')
                I.stubs['lib:scipy.signal.savgol_coeffs'] = coef
                w = f'{f} {dt} times={T} features={n} window={q} order={o}'
                check(ctx, 'windowed-average-of-each-feature', w, I, tens('x', (T, n), dt), dt, by_feature(T, n, lambda c: window(c, q, co)),
                      'savitzky_golay', PyDict([('window_size', q), ('poly_order', o)]))
                ctx.ob('filter-of-requested-order', w, bool(got) and all(g.get('window_length') == q and g.get('polyorder') == o for g in got), got)


def lowpass(ctx):
    f = f'{DN}:Denoiser.denoise frequency_low_pass'
    for T in (4, 5):
        fr = [C(i if i < (T + 1) // 2 else i - T) / C(T) for i in range(T)]
        for cut in sorted({abs(x.const()) for x in fr} | {C(1) / C(3)} if False else {abs(x.const()) for x in fr}):
            for eps in (0, 1):
                c = C(cut) + C(eps) / C(100)
                I = ctx.interp()
                seen = []

                def fft(I, a, k):
                    x = a[0]
                    if k.get('dim', a[2] if len(a) > 2 else -1) != 0:
                        raise AbsRaise('RuntimeError', 'transform over features')
                    seen.append(x)
                    return tens('F', x.shape)

                def ifft(I, a, k):
                    seen.append((a[0], k.get('dim', a[2] if len(a) > 2 else -1)))
                    return tens('R', a[0].shape)
                I.stubs['lib:torch.fft.fft'] = fft
                I.stubs['lib:torch.fft.ifft'] = ifft
                I.stubs['lib:torch.fft.fftfreq'] = lambda I, a, k: tlib.new([x / to_expr(dict(zip(('n', 'd'), a), **k).get('d', 1)) for x in fr], (T,), 'float32', 'torch')
                w = f'{f} times={T} cutoff={c}'
                x = tens('x', (T, 2))
                r = ctx.run('band-limit', w, lambda: denoise(I, x, 'frequency_low_pass', PyDict([('cutoff_frequency', Num(c))])))
                if r is None or len(seen) != 2:
                    ctx.ob('band-limit', w, None, 'other transform')
                    continue
                ctx.ob('transform-along-time', w, seen[0].vals() == x.vals() and seen[1][1] == 0, '')
                ctx.same('band-limit', w, seen[1][0], [[S(f'F[{i * 2 + j}]') if abs(fr[i].const()) <= c.const() else alg.ZERO for j in range(2)] for i in range(T)])
                ctx.same('result-is-inverse-transform', w, r, tens('R', (T, 2)))


def denoiser(ctx):
    f = f'{DN}:Denoiser.denoise'
    for tag, x, m in (('unknown method', tens('x', (3, 2)), 'median'), ('not a tensor', PyList([1]), 'moving_average'), ('three dimensions', tens('x', (2, 2, 2)), 'moving_average'),
                      ('one dimension', tens('x', (3,)), 'moving_average')):
        refuse(ctx, 'invalid-input-refused', f'{f} {tag}', lambda: denoise(ctx.interp(), x, m, PyDict([('window_size', 3)])))
