"""P20 - prediction.  The prediction procedures are evaluated with a stand-in model
and loss over an abstract file system and data sets of unrestricted entries; every
stored sample result, loss and returned value is compared, as value numbers, with
the definition of a prediction, for every batch partition of the data set."""
import itertools

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p15 import DL
from .p16 import text

FLOOR = 150
PR = {'gru': 'model_architectures.rnn_base_model.predict.prediction', 'rc': 'model_architectures.rc_base_model.predict.prediction',
      'hybrid': 'model_architectures.hybrid_base_model.predict.prediction'}
CLS = {'gru': 'GRURNNModel', 'rc': 'RecurrentConstitutiveModel', 'hybrid': 'HybridModel'}
C = alg.const
D, OUT = '/run/model', '/run/pred'


def groups(tier):
    g = []
    for k in PR:
        g += [(f'results {k}', lambda ctx, k=k: results(ctx, k)), (f'model {k}', lambda ctx, k=k: model(ctx, k)),
              (f'ground truth {k}', lambda ctx, k=k: truth(ctx, k)), (f'refused {k}', lambda ctx, k=k: refused(ctx, k)),
              (f'sample loss {k}', lambda ctx, k=k: sample_loss(ctx, k))]
    return g


def val(x):
    return tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)


class World:
    def __init__(self, ctx, kind, n=1, norm_in=False, norm_out=False, scalers=True, keys=('features_in', 'features_out'), have=(), without=(), dtype='float32'):
        I = self.I = ctx.interp()
        self.kind, self.n = kind, n
        self.fs = FS(I, dirs=[D, OUT] + [f'{OUT}/prediction_set_{i}' for i in have])
        for i in have:
            self.fs.state.set(f'{OUT}/prediction_set_{i}/prediction_sample_0.pkl', f'old{i}')
        self.mode, self.calls, self.made, self.loads, self.loaders = [True], [], [], [], []
        self.seeded = {}
        sc = lambda nm: fake(I, 'Scaler', transform=lambda I, a, k: self.fmap('n.' + nm, a[0]), inverse_transform=lambda I, a, k: self.fmap('d.' + nm, a[0]))
        m = self.model = fake(I, CLS[kind], 'torch.nn.Module', model_directory=D, model_name='net', is_model_in_normalized=norm_in,
                              is_model_out_normalized=norm_out, _data_scalers=PyDict([(t, sc(t) if scalers else None) for t in ('features_in', 'features_out')]))
        N = lambda nm, f: m.attrs.__setitem__(nm, Native(f, nm))
        m.attrs['@call'] = self.forward
        N('forward', self.forward)
        N('to', lambda I, a, k: m)
        N('set_device', lambda I, a, k: None)
        m.attrs['training'] = True

        def mode(v):
            self.mode.append(v)
            m.attrs['training'] = v
            return m
        N('train', lambda I, a, k: mode(a[0] if a else k.get('mode', True)))
        N('eval', lambda I, a, k: mode(False))
        N('load_state_dict', lambda I, a, k: self.loads.append(text(a[0])))
        N('state_dict', lambda I, a, k: PyDict([('w', 1)]))
        st = I.stubs
        st[CLS[kind]] = lambda I, a, k: self.made.append(('new', a, k)) or m
        st[CLS[kind] + '.init_model_from_file'] = lambda I, a, k: self.made.append(('file', a, k)) or m
        st['lib:torch.nn.MSELoss'] = lambda I, a, k: self.lossfn(k)
        st['lib:torch.device'] = lambda I, a, k: 'cpu'
        st['lib:datetime.timedelta'] = lambda I, a, k: '0:00:00'
        st['lib:builtins.print'] = lambda I, a, k: None
        st['lib:tqdm.tqdm'] = lambda I, a, k: a[0]
        st['lib:torch.utils.data.DataLoader'] = self.loader
        st['lib:torch.manual_seed'] = lambda I, a, k: None
        st['lib:random.seed'] = lambda I, a, k: self.seeded.__setitem__('python', a[0])
        st['lib:numpy.random.seed'] = st['lib:np.random.seed'] = lambda I, a, k: self.seeded.__setitem__('numpy', a[0])
        st['lib:torch.Generator'] = self.generator
        smp = [PyDict([(kk, tlib.new(tens(f'{kk}.{i}', (3, 2)).vals(), (3, 2), dtype, 'torch')) for kk in keys if not (i in without and kk == 'features_out')]) for i in range(n)]
        self.data = I.call(I.get('time_series_data.time_dataset', 'TimeSeriesDatasetInMemory'), [PyList(smp)], {})

    def generator(self, I, a, k):
        g = fake(I, 'Generator')
        g.attrs['manual_seed'] = Native(lambda I, a, k: g.attrs.__setitem__('@seed', a[0]) or g, 'manual_seed')
        return g

    def fmap(self, n, t):
        return tlib.fresh_like(t, [alg.fn('s.' + n, (tlib.E(x),)) for x in t.vals()])

    def forward(self, I, a, k):
        x = a[0] if a else next(iter(k.values()))
        h = a[1] if len(a) > 1 else k.get('hidden_features_in')
        self.calls.append((x, h, self.mode[-1], I.state.get('grad')))
        # output of a sample depends on that sample only
        y = tlib.fresh_like(x, [alg.fn('net', (tlib.E(v),)) for v in x.vals()])
        return (y, fake(I, 'hidden')) if self.kind == 'gru' else y

    def lossfn(self, kw):
        self.loss_kw = kw
        o = fake(self.I, 'MSELoss')

        def f(I, a, k):
            y, t = a
            if tuple(y.shape) != tuple(t.shape):
                raise AbsRaise('RuntimeError', 'loss of tensors of different shapes')
            return tlib.new([alg.fn('loss', tuple(tlib.E(v) for v in y.vals() + t.vals()))], (), 'float32', 'torch')
        o.attrs['@call'] = f
        return o

    def loader(self, I, a, k):
        b = dict(zip(DL, a), **k)
        for x in b:
            if x not in DL:
                raise AbsRaise('TypeError', f'DataLoader got an unexpected keyword argument {x!r}')
        self.loaders.append(b)

        def it(I, a, k):
            bs = b.get('batch_size', 1)
            order = list(range(self.n))
            if b.get('shuffle'):
                order = order[::-1]
            return PyList([I.call(b['collate_fn'], [PyList([I.getitem(b['dataset'], j) for j in order[i:i + bs]])], {}) for i in range(0, self.n, bs)])
        return fake(I, 'DataLoader', __iter__=it)

    def run(self, **kw):
        a = dict(dataset=self.data, model_directory=D, predict_directory=OUT, model=self.model)
        a.update(kw)
        return self.I.call(self.I.get(PR[self.kind], 'predict'), [], a)

    def ref(self, i, ni, no):
        x = [S(f'features_in.{i}[{q}]') for q in range(6)]
        t = [S(f'features_out.{i}[{q}]') for q in range(6)]
        f = lambda n, l: [alg.fn('s.' + n, (e,)) for e in l]
        if ni:
            x = f('n.features_in', x)
        y = [alg.fn('net', (e,)) for e in x]
        if no:
            y = f('d.features_out', y)
        return y, t, lambda l: f('n.features_out', l)


def results(ctx, kind):
    f = f'{PR[kind]}:predict'
    for n, bs, have in ((1, 1, ()), (2, 1, (0, 1)), (3, 2, (1,)), (3, 5, ()), (4, 2, tuple(range(11))), (5, 3, (0, 2)), (12, 5, ())):
        for ni, no, nl in itertools.product((False, True), repeat=3):
            if n == 12 and (ni, no, nl) not in ((True, True, True), (False, False, False)):
                continue
            hid = kind == 'gru' and n in (1, 3)
            keys = ('features_in', 'features_out') + (('hidden_features_in',) if hid else ())
            W = World(ctx, kind, n, ni, no, keys=keys, have=have, dtype='float64' if n == 4 else 'float32')
            I = W.I
            w = f'{f} samples={n} batch={bs} in={ni} out={no} normalized_loss={nl} hidden={hid}'
            r = ctx.run('prediction', w, lambda: W.run(batch_size=bs, is_normalized_loss=nl, is_verbose=bool(n == 4), loss_kwargs=PyDict([('reduction', 'mean')])))
            if r is None:
                continue
            sub, avg = I.iterate(r)
            ctx.ob('model-is-in-evaluation-mode', w, bool(W.calls) and all(c[2] is False for c in W.calls), [c[2] for c in W.calls])
            ctx.ob('predictions-are-made-without-gradients', w, all(c[3] is False for c in W.calls))
            ctx.ob('gradients-are-enabled-afterwards', w, I.state.get('grad') is True)
            if not ctx.ob('results-go-to-a-fresh-directory', w, isinstance(sub, str) and sub.startswith(OUT + '/') and sub not in [f'{OUT}/prediction_set_{i}' for i in have]
                          and W.fs.isdir(sub), sub):
                continue
            ctx.ob('previous-results-are-kept', w, all(W.fs.look(f'{OUT}/prediction_set_{i}/prediction_sample_0.pkl') == f'old{i}' for i in have))
            names = sorted(x for x in W.fs.listdir(sub) if x.endswith('.pkl'))
            if not ctx.ob('one-result-file-per-sample', w, names == sorted(f'prediction_sample_{i}.pkl' for i in range(n)), names):
                continue
            ls = []
            for i in range(n):
                s = W.fs.look(f'{sub}/prediction_sample_{i}.pkl')
                y, t, g = W.ref(i, ni, no)
                shape = (3, 2)
                ctx.ob('precision-of-the-data-is-kept', f'{w} sample={i}', all(
                    getattr(s.get(q), 'dtype', None) == ('float64' if n == 4 else 'float32') for q in ('features_out', 'targets')), '')
                ctx.same('sample-prediction-is-the-model-output-in-data-units', f'{w} sample={i}', s.get('features_out'), tlib.new(y, shape, 'float32', 'torch'))
                ctx.same('sample-keeps-its-own-ground-truth', f'{w} sample={i}', s.get('targets'), tlib.new(t, shape, 'float32', 'torch'))
                L = alg.fn('loss', tuple(g(y) + g(t) if nl else y + t))
                ls.append(L)
                d = s.get('prediction_loss_data')
                d = list(d) if isinstance(d, tuple) else d.items
                ctx.ob('loss-data-names-the-loss', f'{w} sample={i}', d[0] == 'features_out' and d[1] == 'mse' and bool(d[3]) == nl, text(d))
                ctx.same('sample-loss-compares-prediction-and-ground-truth', f'{w} sample={i}', d[2], L)
            ctx.same('average-loss-is-the-mean-over-the-samples', w, avg, sum(ls, C(0)) / C(n))
            ctx.ob('samples-are-not-shuffled', w, all(not b.get('shuffle') and b.get('sampler') is None and not b.get('drop_last') for b in W.loaders) and len(W.loaders) == 1)
            ctx.ob('loss-options-reach-the-loss', w, W.loss_kw == {'reduction': 'mean'}, W.loss_kw)
            ctx.ob('summary-is-written', w, W.fs.isfile(f'{sub}/summary.dat'), W.fs.listdir(sub))
            if kind == 'gru':
                k = 0
                for c in W.calls:
                    b = c[0].shape[1]
                    if hid and not isinstance(c[1], Tensor):
                        ctx.ob('initial-hidden-state-of-the-sample-is-used', f'{w} {k}', False, text(c[1]))
                    elif hid:
                        ctx.same('initial-hidden-state-of-the-sample-is-used', f'{w} {k}', c[1], tlib.new(
                            [S(f'hidden_features_in.{j}[{t * 2 + q}]') for t in range(3) for j in range(k, k + b) for q in range(2)], (3, b, 2), 'float32', 'torch'))
                    else:
                        ctx.ob('no-hidden-state-is-invented', f'{w} {k}', c[1] is None)
                    k += b
            ctx.ob('data-set-is-not-changed', w, all(alg.equal(tlib.E(z), S(f'{kk}.{j}[{i}]')) for j in range(n) for kk in keys
                                                   for i, z in enumerate(I.getitem(W.data, j).get(kk).vals())))
    # no output directory
    for n in (1, 3):
        W = World(ctx, kind, n)
        b = dict(W.fs.files())
        w = f'{f} no directory {n}'
        r = ctx.run('prediction', w, lambda: W.run(predict_directory=None))
        if r is not None:
            sub, avg = W.I.iterate(r)
            ctx.ob('model-is-in-evaluation-mode', w, bool(W.calls) and all(c[2] is False and c[3] is False for c in W.calls), '')
            ctx.ob('nothing-is-written-without-a-directory', w, sub is None and dict(W.fs.files()) == b and not W.fs.listdir(OUT), sub)
            ls = [alg.fn('loss', tuple(W.ref(i, False, False)[0] + W.ref(i, False, False)[1])) for i in range(n)]
            ctx.same('average-loss-is-the-mean-over-the-samples', w, avg, sum(ls, C(0)) / C(n))


def model(ctx, kind):
    f = f'{PR[kind]}:predict'
    for what in ('init', 'best', 'last', 2, None):
        W = World(ctx, kind, 1)
        for nm, v in (('-init', 'i'), ('-2', 'e2'), ('-7', 'e7'), ('-2-best', 'b2'), ('', 'plain')):
            W.fs.state.set(f'{D}/net{nm}.pt', PyDict([('w', v)]))
        b = {k: text(v) for k, v in W.fs.files().items() if k.startswith(D)}
        w = f'{f} state={what}'
        r = ctx.run('prediction', w, lambda: W.run(model=None, model_load_state=what))
        if r is None:
            continue
        ctx.ob('model-is-read-from-its-directory', w, len(W.made) == 1 and W.made[0][0] == 'file' and (list(W.made[0][1]) + list(W.made[0][2].values())) == [D], W.made)
        ctx.ob('requested-state-is-loaded', w, W.loads == [{'w': {'init': 'i', 'best': 'b2', 'last': 'e7', 2: 'e2', None: 'plain'}[what]}], W.loads)
        ctx.ob('prediction-removes-no-stored-state', w, {k: text(v) for k, v in W.fs.files().items() if k.startswith(D)} == b)
        ctx.ob('model-is-in-evaluation-mode', w, all(c[2] is False for c in W.calls))
    W = World(ctx, kind, 1)
    w = f'{f} given model'
    if ctx.run('prediction', w, lambda: W.run(model_load_state=2)) is not None:
        ctx.ob('given-model-is-used-as-it-is', w, not W.made and not W.loads, (W.made, W.loads))
    for seed in (0, 5):
        W = World(ctx, kind, 2)
        w = f'{f} seed={seed}'
        if ctx.run('prediction', w, lambda: W.run(seed=seed)) is not None:
            ctx.ob('generators-are-seeded', w, W.seeded == {'python': seed, 'numpy': seed}, W.seeded)
            ctx.ob('samples-are-not-shuffled', w, all(not b.get('shuffle') and b.get('sampler') is None and not b.get('drop_last') for b in W.loaders))
            ctx.ob('model-is-in-evaluation-mode', w, bool(W.calls) and all(c[2] is False for c in W.calls), '')
            g = W.loaders[0].get('generator')
            ctx.ob('loader-generator-is-seeded', w, isinstance(g, Instance) and g.attrs.get('@seed') == seed, g)


def truth(ctx, kind):
    f = f'{PR[kind]}:predict'
    for n, bs in ((1, 1), (3, 2)):
        for ni, no, nl in itertools.product((False, True), repeat=3):
            W = World(ctx, kind, n, ni, no, keys=('features_in',))
            w = f'{f} no ground truth samples={n} in={ni} out={no} normalized_loss={nl}'
            r = ctx.run('prediction', w, lambda: W.run(batch_size=bs, is_normalized_loss=nl, is_verbose=True))
            if r is None:
                continue
            sub, avg = W.I.iterate(r)
            ctx.ob('no-average-loss-without-ground-truth', w, avg is None, avg)
            for i in range(n):
                s = W.fs.look(f'{sub}/prediction_sample_{i}.pkl')
                if not ctx.ob('one-result-file-per-sample', f'{w} {i}', isinstance(s, PyDict)):
                    continue
                d = s.get('prediction_loss_data')
                ctx.ob('no-loss-without-ground-truth', f'{w} {i}', s.get('targets') is None and (list(d) if isinstance(d, tuple) else d.items)[2] is None, text(d))
                ctx.same('sample-prediction-is-the-model-output-in-data-units', f'{w} {i}', s.get('features_out'), tlib.new(W.ref(i, ni, no)[0], (3, 2), 'float32', 'torch'))


    # ground truth of some samples only
    for n, wo in ((2, (0,)), (2, (1,)), (3, (1,)), (3, (0, 2))):
        W = World(ctx, kind, n, without=wo)
        w = f'{f} samples={n} without ground truth={wo}'
        r = ctx.run('prediction', w, lambda: W.run())
        if r is None:
            continue
        sub, avg = W.I.iterate(r)
        ctx.ob('no-average-loss-unless-every-sample-has-ground-truth', w, avg is None, avg)
        for i in range(n):
            s = W.fs.look(f'{sub}/prediction_sample_{i}.pkl')
            if ctx.ob('one-result-file-per-sample', f'{w} {i}', isinstance(s, PyDict)):
                d = s.get('prediction_loss_data')
                y, t, _ = W.ref(i, False, False)
                ctx.ob('no-loss-without-ground-truth', f'{w} {i}', (s.get('targets') is None) == (i in wo) == ((list(d) if isinstance(d, tuple) else d.items)[2] is None), text(d))
                ctx.same('sample-prediction-is-the-model-output-in-data-units', f'{w} {i}', s.get('features_out'), tlib.new(y, (3, 2), 'float32', 'torch'))


def refused(ctx, kind):
    f = f'{PR[kind]}:predict'
    for n, kw in (('model directory', dict(model_directory='/run/none')), ('prediction directory', dict(predict_directory='/run/none')),
                  ('loss nature', dict(loss_nature='edges')), ('loss type', dict(loss_type='huber')), ('state', dict(model=None, model_load_state='best'))):
        W = World(ctx, kind, 2)
        refuse(ctx, 'unavailable-request-is-refused', f'{f} {n}', lambda: W.run(**kw))
    W = World(ctx, kind, 2, scalers=False)
    refuse(ctx, 'normalized-loss-without-scalers-is-refused', f, lambda: W.run(is_normalized_loss=True))
    W = World(ctx, kind, 2, norm_in=True, scalers=False)
    refuse(ctx, 'normalized-input-without-scalers-is-refused', f, lambda: W.run())


def sample_loss(ctx, kind):
    f = f'{PR[kind]}:compute_sample_prediction_loss'
    for nl, gt in itertools.product((False, True), repeat=2):
        W = World(ctx, kind, 1)
        I = W.I
        y, t = tens('y', (2, 2)), tens('t', (2, 2))
        w = f'{f} normalized={nl} ground_truth={gt}'
        r = ctx.run('loss', w, lambda: (I.call(I.get(PR[kind], 'compute_sample_prediction_loss'), [W.model, W.lossfn({}), y, t if gt else None], dict(is_normalized_loss=nl)),))
        if r is None:
            continue
        if not gt:
            ctx.ob('no-loss-without-ground-truth', w, r[0] is None, r[0])
            continue
        g = (lambda z: W.fmap('n.features_out', z)) if nl else (lambda z: z)
        ctx.same('sample-loss-compares-prediction-and-ground-truth', w, r[0], alg.fn('loss', tuple(tlib.E(v) for v in g(y).vals() + g(t).vals())))
