"""P19 - training.  The training procedures are evaluated with a stand-in model,
optimizer, scheduler, loss and data loader over an abstract file system.  The
stand-ins keep the parameters, the accumulated gradient and the optimizer state;
every optimizer update, stored state, record and returned value is compared with
the definition of training, for every order type of the loss sequence."""
import itertools
from fractions import Fraction as Q

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p15 import DL
from .p16 import text

FLOOR = 150
LIMIT = 400
TR = {'gru': 'model_architectures.rnn_base_model.train.training', 'rc': 'model_architectures.rc_base_model.train.training',
      'hybrid': 'model_architectures.hybrid_base_model.train.training', 'finder': 'material_model_finder.train.training'}
CLS = {'gru': 'GRURNNModel', 'rc': 'RecurrentConstitutiveModel', 'hybrid': 'HybridModel', 'finder': 'MaterialModelFinder'}
PR = {k: v.replace('.train.training', '.predict.prediction') for k, v in TR.items()}
CV = 'model_architectures.rnn_base_model.train.cross_validation'
MT = 'model_architectures.procedures.model_training'
C = alg.const
D = '/run/model'
LR = S('lr', True)
SEQ = ('gru', 'rc', 'hybrid')


def groups(tier):
    g = []
    for k in TR:
        g += [(f'losses {k}', lambda ctx, k=k: losses(ctx, k)), (f'update {k}', lambda ctx, k=k: update(ctx, k)),
              (f'setup {k}', lambda ctx, k=k: setup(ctx, k)), (f'refused {k}', lambda ctx, k=k: refused(ctx, k))]
    for k in SEQ:
        g += [(f'early stopping {k}', lambda ctx, k=k: early(ctx, k)), (f'stopper {k}', lambda ctx, k=k: stopper(ctx, k))]
    g += [('convergence', convergence), ('parameter stopping rc', lambda ctx: params_stop(ctx, 'rc')),
          ('parameter stopping finder', lambda ctx: params_stop(ctx, 'finder')), ('folds', folds)]
    g += [(f'parameter records {k}', lambda ctx, k=k: records(ctx, k)) for k in ('rc', 'hybrid', 'finder')]
    return g


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def val(x):
    return tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)


def fl(x):
    e = val(x)
    q = e.const()
    return e if q is None else q


def bound(I, mod, name, a, k):
    return I.bind(I.get(mod, name), list(a), k)


class World:
    """Stand-ins; `loss` maps the number of completed updates (and the batch) to
    the loss value, `valid` the number of updates to the validation loss."""

    def __init__(self, ctx, kind, loss, valid=None, n_samples=1, norm_in=False, norm_out=False, param=None, nan_at=None, explicit=True,
                 fitted=True, keys=('features_in', 'features_out')):
        I = self.I = ctx.interp()
        self.ctx, self.kind, self.loss, self.valid = ctx, kind, loss, valid
        self.param = param or (lambda v: C(v + 7))
        self.nan_at = nan_at
        self.fs = FS(I, dirs=[D, '/data'])
        self.ev = []                      # ordered events
        self.grad = []                    # losses whose gradient is accumulated
        self.lossobj = []                 # (tensor, version)
        self.bad = []
        self.fwd = []
        self.mode = [None]
        self.ver = tlib.new([C(0)], (), 'float32', 'torch')
        self.w = tlib.new([self.raw(0)], (), 'float32', 'torch')
        self.mom = tlib.new([C(0)], (), 'float32', 'torch')
        self.w.param = True
        self.n_sched = 0
        self.seeded = {}
        self.loaders = []
        self.preds = []
        self.made = []
        self.fits = []
        self.order = None
        I.track_grad = True
        mod = I.get(TR[kind], CLS[kind])
        sc = lambda n: fake(I, 'Scaler', transform=lambda I, a, k: self.scale(n, a[0]), inverse_transform=lambda I, a, k: self.scale(n + 'inv', a[0]))
        at = dict(model_directory=D, model_name='net', is_model_in_normalized=norm_in, is_model_out_normalized=norm_out, _is_save_model_init_file=False,
                  _n_features_in=2, _n_features_out=2, _device_type='cpu',
                  _data_scalers=PyDict([(t, sc(t) if fitted and (norm_in or norm_out) else None) for t in ('features_in', 'features_out')]))
        self.sc = sc
        m = self.model = fake(I, CLS[kind], 'torch.nn.Module', **at)
        N = lambda n, f: m.attrs.__setitem__(n, Native(f, n))
        m.attrs['@call'] = lambda I, a, k: self.forward(a, k)
        N('forward', lambda I, a, k: self.forward(a, k))
        m.attrs['training'] = True

        def mode(v):
            self.mode.append(v)
            m.attrs['training'] = v
            return m
        N('train', lambda I, a, k: mode(a[0] if a else k.get('mode', True)))
        N('eval', lambda I, a, k: mode(False))
        N('to', lambda I, a, k: m)
        N('set_device', lambda I, a, k: None)
        N('parameters', lambda I, a, k: PyList([self.w]))
        N('state_dict', lambda I, a, k: PyDict([('w', self.w), ('v', self.ver)]))
        N('load_state_dict', lambda I, a, k: self.load(a[0]))
        N('enforce_parameters_bounds', lambda I, a, k: self.enforce('bounds'))
        N('enforce_parameters_constraints', lambda I, a, k: self.enforce('constraints'))
        N('get_detached_model_parameters', lambda I, a, k: PyDict([('E', self.detached())]))
        N('get_model_parameters_bounds', lambda I, a, k: PyDict([('E', (Num(C(0)), Num(C(5000))))]))
        N('get_fitted_data_scaler', lambda I, a, k: m.attrs['_data_scalers'].get(a[0]))
        N('set_specimen_data', lambda I, a, k: self.ev.append(('specimen', a, k)))
        self.mats = {}
        for i in (1, 2):
            self.mats[i] = fake(I, 'Mat', 'torch.nn.Module', model_directory=f'/run/mat{i}', model_name=f'mat{i}',
                                state_dict=lambda I, a, k: PyDict([('w', self.w), ('v', self.ver)]))
            self.fs._mkdirs(f'/run/mat{i}')
        N('get_material_models', lambda I, a, k: PyDict(list(self.mats.items())))
        self.h = [tlib.new([C(3)], (), 'float32', 'torch') for _ in range(3)]
        hyb = [fake(I, 'H', get_model_parameters=lambda I, a, k, i=i: PyDict([('p', self.h[i])]), is_explicit_parameters=(i != 1 and explicit),
                    is_normalized_parameters=False, get_model_parameters_bounds=lambda I, a, k: PyDict([('p', (Num(C(-10)), Num(C(20))))]),
                    get_model_parameters_norm_bounds=lambda I, a, k: PyDict([('p', (Num(C(-1)), Num(C(1))))])) for i in range(3)]
        self.hyb = hyb
        N('get_hybridized_models', lambda I, a, k: PyList([hyb[0], fake(I, 'Net'), hyb[1], hyb[2]]))
        st = I.stubs
        st[CLS[kind]] = lambda I, a, k: self.made.append(('new', a, k)) or m
        st[CLS[kind] + '.init_model_from_file'] = lambda I, a, k: self.made.append(('file', a, k)) or m
        st['lib:torch.optim.Adam'] = self.adam
        for n in ('StepLR', 'ExponentialLR', 'LinearLR'):
            st[f'lib:torch.optim.lr_scheduler.{n}'] = lambda I, a, k, n=n: self.scheduler(n, a, k)
        st['lib:torch.nn.MSELoss'] = lambda I, a, k: self.lossfn(k)
        st['method:backward'] = lambda I, t, a, k: self.backward(t)
        st['model_architectures.procedures.model_summary.get_model_summary'] = lambda I, a, k: 'summary of the model'
        st['lib:torch.manual_seed'] = lambda I, a, k: self.seeded.__setitem__('torch', a[0])
        st['lib:random.seed'] = lambda I, a, k: self.seeded.__setitem__('python', a[0])
        st['lib:numpy.random.seed'] = st['lib:np.random.seed'] = lambda I, a, k: self.seeded.__setitem__('numpy', a[0])
        st['lib:torch.Generator'] = self.generator
        st['lib:torch.device'] = lambda I, a, k: 'cpu'
        st['lib:datetime.timedelta'] = lambda I, a, k: '0:00:00'
        st['lib:torch.utils.data.DataLoader'] = self.loader
        st['lib:builtins.print'] = lambda I, a, k: None
        st['model_architectures.procedures.model_data_scaling.fit_data_scalers'] = self.fit
        if kind in SEQ:
            st[f'{PR[kind]}.predict'] = self.predict
            smp = [PyDict([(kk, tens(f'{kk}.{i}', (2, 2))) for kk in keys]) for i in range(n_samples)]
            self.data = I.call(I.get('time_series_data.time_dataset', 'TimeSeriesDatasetInMemory'), [PyList(smp)], {})
            self.keys = keys
        self.n = n_samples

    # ----------------------------------------------------------- parameters
    def raw(self, v):
        return self.param(v) + C(100000) if self.kind in ('rc', 'finder') else self.param(v)

    def version(self):
        e = tlib.E(self.ver.item())
        return int(e.const())

    def detached(self):
        t = tlib.new([tlib.E(self.w.item())], (), 'float32', 'torch')
        return Num(tlib.E(t.item()))

    def enforce(self, what):
        self.ev.append((what, self.version()))
        self.enf = getattr(self, 'enf', {})
        self.enf[what] = self.version()
        # bounding a parameter may leave the constraints: they come last
        if what == 'constraints' and self.enf.get('bounds') == self.enf.get('constraints') == self.version():
            tlib.write(self.w, [self.param(self.version())])

    def load(self, sd):
        tlib.write(self.w, [val(sd.get('w'))])
        tlib.write(self.ver, [val(sd.get('v'))])
        self.enf = dict(bounds=self.version(), constraints=self.version())

    def admissible(self):
        ok = alg.equal(tlib.E(self.w.item()), self.param(self.version()))
        if self.kind == 'hybrid' and self.hyb[0].attrs['is_explicit_parameters'] is True:
            ok = ok and all(-10 <= tlib.E(self.h[i].item()).const() <= 20 for i in (0, 2))
        return ok

    # ----------------------------------------------------------- stand-ins
    def scale(self, n, t):
        return tlib.fresh_like(t, [alg.fn('scaled.' + n, (tlib.E(x),)) for x in t.vals()])

    def fit(self, I, a, k):
        b = bound(I, 'model_architectures.procedures.model_data_scaling', 'fit_data_scalers', a, k)
        self.fits.append(b)
        self.model.attrs['_data_scalers'] = PyDict([(t, self.sc(t)) for t in ('features_in', 'features_out')])

    def generator(self, I, a, k):
        g = fake(I, 'Generator')
        g.attrs['@seed'] = None

        def seed(I, a, k):
            g.attrs['@seed'] = a[0]
            return g
        g.attrs['manual_seed'] = Native(seed, 'manual_seed')
        return g

    def adam(self, I, a, k):
        b = dict(zip(('params', 'lr'), a), **k)
        self.opt_args = b
        return self.optimizer()

    def optimizer(self):
        def step(I, a, k):
            self.step()

        def load(I, a, k):
            tlib.write(self.mom, [val(a[0].get('m'))])
        return fake(self.I, 'Adam', zero_grad=lambda I, a, k: self.grad.clear(), step=step,
                    state_dict=lambda I, a, k: PyDict([('m', self.mom)]), load_state_dict=load)

    def step(self):
        v = self.version()
        if len(self.grad) != 1 or self.grad[0] != v:
            self.bad.append(f'update {v} applies the gradients of the losses of updates {self.grad}')
        self.ev.append(('step', v))
        tlib.write(self.ver, [C(v + 1)])
        tlib.write(self.w, [self.raw(v + 1)])
        tlib.write(self.mom, [C(v + 1)])
        for t in self.h:
            tlib.write(t, [C(500 if v % 2 else -500)])

    def scheduler(self, n, a, k):
        self.sched_args = (n, a, k)

        def step(I, a, k):
            self.n_sched += 1
            self.ev.append(('sched', self.version()))
        return fake(self.I, n, step=step, get_last_lr=lambda I, a, k: PyList([Num(alg.fn('lr', (C(self.n_sched),)))]))

    def forward(self, a, k):
        v = self.version()
        if self.mode[-1] is not True:
            self.bad.append(f'forward pass of update {v} outside training mode')
        if not self.admissible():
            self.bad.append(f'forward pass of update {v} with parameters outside their bounds and constraints')
        if self.kind == 'finder':
            self.fwd.append((v, None, None))
            return self.lossval(v, k.get('sequential_mode'))
        x = a[0] if a else next(iter(k.values()))
        hid = a[1] if len(a) > 1 else k.get('hidden_features_in')
        y = tlib.new([S(f'y{v}[{i}]') for i in range(x.size)], tuple(x.shape), 'float32', 'torch')
        if self.nan_at == v:
            y = tlib.new([tlib.E(z) for z in y.vals()[:-1]] + [alg.NAN], tuple(x.shape), 'float32', 'torch')
        self.fwd.append((v, x, hid))
        return (y, fake(self.I, 'hidden')) if self.kind == 'gru' else y

    def lossval(self, v, what=None):
        t = tlib.new([self.loss(v)], (), 'float32', 'torch')
        self.lossobj.append((t, v))
        return t

    def lossfn(self, kw):
        self.loss_kw = kw
        o = fake(self.I, 'MSELoss')

        def f(I, a, k):
            self.ev.append(('loss', self.version(), a[0], a[1]))
            return self.lossval(self.version())
        o.attrs['@call'] = f
        return o

    def backward(self, t):
        c = [v for x, v in self.lossobj if x is t]
        if not c:
            c = [v for x, v in self.lossobj if alg.equal(tlib.E(x.item()), tlib.E(t.item())) and v == self.version()]
        if not c:
            raise Undecided('gradient of a value derived from the loss')
        self.grad.append(c[-1])

    def loader(self, I, a, k):
        b = dict(zip(DL, a), **k)
        for x in b:
            if x not in DL:
                raise AbsRaise('TypeError', f'DataLoader got an unexpected keyword argument {x!r}')
        self.loaders.append(b)

        def it(I, a, k):
            bs = b.get('batch_size', 1)
            out = [I.call(b['collate_fn'], [PyList([I.getitem(b['dataset'], j) for j in range(i, min(i + bs, self.n))])], {})
                   for i in range(0, self.n, bs)]
            return PyList(out)
        return fake(I, 'DataLoader', __iter__=it, __len__=lambda I, a, k: len(range(0, self.n, b.get('batch_size', 1))))

    def predict(self, I, a, k):
        b = bound(I, PR[self.kind], 'predict', a, k)
        self.preds.append((self.version(), b))
        f = f'{D}/net-{b["model_load_state"]}.pt'
        if not self.fs.isfile(f):
            raise AbsRaise('RuntimeError', f'no state {f}')
        sd = self.fs.read(f)
        v = int(val(sd.get('v')).const())
        if v != self.version():
            self.bad.append(f'validation of update {self.version()} uses the state of update {v}')
        self.load(sd)
        self.mode.append(False)
        return None, Num(self.valid(v)) if self.valid(v) is not None else None

    # ----------------------------------------------------------- run
    def run(self, n_max, **kw):
        I = self.I
        f = I.get(TR[self.kind], 'train_model')
        if self.kind == 'finder':
            a = dict(n_max_epochs=n_max, specimen_data=kw.pop('specimen', 'SD'), specimen_material_state='SMS', model_init_args=PyDict([('x', 1)]),
                     lr_init=Num(LR), is_explicit_model_parameters=True)
        else:
            a = dict(n_max_epochs=n_max, dataset=self.data, model_init_args=PyDict([('model_directory', D), ('x', 1)]), lr_init=Num(LR))
        if self.kind in ('rc', 'finder'):
            a['is_params_stopping'] = False
        a.update(kw)
        return I.call(f, [], a)

    def file(self, n):
        n = n if n.startswith('/') else f'{D}/{n}'
        return self.fs.look(n) if self.fs.isfile(n) else None

    def stored(self, directory=D, name='net'):
        """name -> (version, enforced) of the stored model states."""
        out = {}
        for k, c in self.fs.files().items():
            if k.startswith(f'{directory}/{name}') and k.endswith('.pt'):
                c = c.get('state') if isinstance(c, PyDict) and c.has('state') else c
                out[k[len(directory) + 1:-3]] = int(val(c.get('v') if c.has('v') else c.get('m')).const())
        return out


def num(x):
    e = val(x)
    c = e.const()
    return e if c is None else c


def nums(l):
    return [num(x) for x in l.items]


def mean(xs):
    return sum(xs, C(0)) / C(len(xs))


def reference(kind, L, nb, n_max, save_every=None, valid=None, freq=1, trig=1, tol=0, conv=None):
    """Definition of training.  L: version -> python number; returns dict."""
    from fractions import Fraction as Q
    saved, best, hist, vh = {}, None, [], []
    mn, notimp, nval, stop = None, 0, 0, False
    bestv, beste = None, None
    cur = None
    for e in range(n_max + 1):
        v = (e + 1) * nb
        hist.append(sum((Q(L(s)) for s in range(e * nb, v)), Q(0)) / nb)
        cur = v
        if save_every is not None and e % save_every == 0:
            saved[e] = v
        if hist[-1] <= min(hist):
            best = (e, v)
        if valid is not None and e % freq == 0:
            x = Q(valid(v))
            nval += 1
            vh += [vh[-1]] * (e - len(vh)) if vh else []
            vh.append(x)
            if mn is None or x < mn:
                if nval > 1:
                    if (mn - x) / abs(mn) > Q(tol):
                        notimp = 0
                    else:
                        notimp += 1
                mn, bestv, beste = x, v, e
            else:
                notimp += 1
            if notimp >= trig:
                stop = True
        if stop:
            best = (beste, bestv)
            cur = bestv
            saved = {k: s for k, s in saved.items() if k <= beste}
        if conv is not None and conv(e):
            break
        if stop:
            break
    saved[e] = cur
    return dict(epochs=e + 1, saved=saved, best=best, hist=hist, valid=vh if valid is not None else None, final=cur)


def compare(ctx, W, w, r, ref, nb, n_max, kind, sched=None, valid=False):
    I = W.I
    ob = ctx.ob
    ob('every-update-applies-the-gradient-of-its-own-loss', w, not W.bad, W.bad[:3])
    n = ref['epochs'] * nb
    steps = [e[1] for e in W.ev if e[0] == 'step']
    ob('one-update-per-batch-of-every-epoch', w, steps == list(range(n)) and [f[0] for f in W.fwd] == steps, (len(steps), n))
    st = W.stored()
    want = {f'net-{e}': v for e, v in ref['saved'].items()}
    want.update({f'net_optim-{e}': v for e, v in ref['saved'].items()})
    want[f'net-{ref["best"][0]}-best'] = want[f'net_optim-{ref["best"][0]}-best'] = ref['best'][1]
    if kind != 'finder':
        want['net-init'] = 0
    st2 = {k: v for k, v in st.items()}
    ob('best-state-is-the-state-with-the-lowest-loss', w, {k: v for k, v in st2.items() if 'best' in k} == {k: v for k, v in want.items() if 'best' in k},
       {k: v for k, v in st2.items() if 'best' in k})
    ob('requested-epoch-states-and-final-state-are-stored', w, {k: v for k, v in st2.items() if 'best' not in k and 'init' not in k}
       == {k: v for k, v in want.items() if 'best' not in k and 'init' not in k}, st2)
    if kind != 'finder':
        ob('initial-state-is-stored-before-training', w, st2.get('net-init') == 0, st2.get('net-init'))
    else:
        for i in (1, 2):
            ms = W.stored(f'/run/mat{i}', f'mat{i}')
            wm = {f'mat{i}-{e}': v for e, v in ref['saved'].items()}
            wm[f'mat{i}-{ref["best"][0]}-best'] = ref['best'][1]
            wm[f'mat{i}-init'] = 0
            ob('material-model-states-are-stored-with-the-model-state', f'{w} {i}', ms == wm, ms)
    rec = W.file('loss_history_record.pkl')
    if ob('loss-history-is-recorded', w, isinstance(rec, PyDict)):
        h = nums(rec.get('training_loss_history'))
        ob('epoch-loss-is-the-mean-of-its-steps', w, h == ref['hist'], (h, ref['hist']))
        lr = rec.get('lr_history_epochs')
        if sched:
            ok = [str(x) for x in (text(y)[0] if not isinstance(text(y), str) else text(y) for y in lr.items)]
            want_lr = [str(alg.fn('lr', (C(i + 1),))) for i in range(ref['epochs'])]
            ob('learning-rate-is-scheduled-once-per-epoch', w, W.n_sched == ref['epochs'] and ok == want_lr, ok)
        else:
            ob('learning-rate-is-constant-without-scheduler', w, all(alg.equal(val(x), LR) for x in lr.items) and len(lr.items) == ref['epochs'])
        vh = rec.get('validation_loss_history')
        if valid:
            ob('validation-history-has-the-last-validation-loss-of-every-epoch', w, nums(vh) == ref['valid'], (nums(vh), ref['valid']))
        else:
            ob('no-validation-history-without-early-stopping', w, vh is None, vh)
        ob('record-names-the-loss', w, rec.get('n_max_epochs') == n_max and isinstance(rec.get('loss_type'), str))
    if kind != 'gru':
        pr, pb = W.file('parameters_history_record.pkl'), W.file('parameters_best.pkl')
        if ob('parameter-histories-are-recorded', w, isinstance(pr, PyDict) and isinstance(pb, PyDict)):
            h = nums(pr.get('model_parameters_history').get('E'))
            P = lambda v: W.param(v).const()
            k0 = 0 if kind == 'finder' else 1
            ok = len(h) == ref['epochs'] + k0 and (kind == 'finder' or h[0] == P(0))
            for e, x in enumerate(h[k0:]):
                vs = [P(v) for v in range(e * nb, (e + 1) * nb + 1)]
                ok = ok and (x == P(e + 1) if kind == 'finder' else min(vs) <= x <= max(vs))
            ob('parameter-history-follows-the-admissible-parameters', w, ok, h)
            bp = pb.get('best_model_parameters')
            bp = num(bp.get('E')) if isinstance(bp, PyDict) and bp.has('E') else None
            ob('best-parameters-are-those-of-the-best-state', w, bp == P(ref['best'][1]), (bp, P(ref['best'][1])))
    if isinstance(r, (tuple, PyList)):
        m, bl, be = list(r) if isinstance(r, tuple) else r.items
        ob('trained-model-is-returned', w, m is W.model)
        ob('lowest-epoch-loss-is-returned', w, num(bl) == min(ref['hist']), (num(bl), min(ref['hist'])))
        i = I.as_int(be)
        ob('epoch-of-the-lowest-loss-is-returned', w, ref['hist'][i] == min(ref['hist']), i)
    ob('returned-model-has-the-final-state', w, W.version() == ref['final'] and W.admissible(), W.version())
    ob('training-summary-is-written', w, W.file('summary.dat') is not None)


def orders(n):
    """Order types (weak orderings) of n numbers."""
    out = set()
    for p in itertools.product(range(1, n + 1), repeat=n):
        d = sorted(set(p))
        out.add(tuple(d.index(x) + 1 for x in p))
    return sorted(out)


def losses(ctx, kind):
    f = f'{TR[kind]}:train_model'
    k = 0
    for n in (1, 2, 3):
        for o in orders(n):
            for nb in ((1, 2) if kind != 'finder' else (1,)):
                # steps of an epoch average to the epoch value
                L = lambda v: o[v // nb] * 4 + (v % nb * 2 - (nb - 1)) if v // nb < n else 99
                se = (None, 1, 2)[k % 3]
                k += 1
                w = f'{f} losses={o} batches={nb} save_every={se}'
                W = World(ctx, kind, lambda v: C(L(v)), n_samples=nb)
                r = ctx.run('training', w, lambda: W.run(n - 1, save_every=se))
                if r is None:
                    continue
                compare(ctx, W, w, r, reference(kind, L, nb, n - 1, se), nb, n - 1, kind)
    for o in ((2, 1, 3, 1), (1, 2, 3, 4), (3, 2, 4, 1)):
        for sc, kw in (('steplr', dict(step_size=3, gamma=Num(S('g')))), ('explr', dict(gamma=Num(S('g')))), ('linlr', {})):
            nb = 2 if kind != 'finder' and sc != 'explr' else 1
            L = lambda v: o[v // nb] if v // nb < 4 else 99
            w = f'{f} losses={o} scheduler={sc}'
            W = World(ctx, kind, lambda v: C(L(v)), n_samples=nb)
            r = ctx.run('training', w, lambda: W.run(3, lr_scheduler_type=sc, lr_scheduler_kwargs=PyDict(kw.items()), is_verbose=True, save_every=3))
            if r is None:
                continue
            compare(ctx, W, w, r, reference(kind, L, nb, 3, 3), nb, 3, kind, sched=sc)
            n, a, k2 = W.sched_args
            ctx.ob('requested-scheduler-with-its-options', w, n == {'steplr': 'StepLR', 'explr': 'ExponentialLR', 'linlr': 'LinearLR'}[sc]
                   and {x: text(y) for x, y in k2.items() if x != 'optimizer'} == {x: text(y) for x, y in kw.items()}, (n, sorted(k2)))


def batch_ref(W, key, i, bs):
    return tlib.new([S(f'{key}.{j}[{t * 2 + q}]') for t in range(2) for j in range(i, min(i + bs, W.n)) for q in range(2)],
                    (2, min(i + bs, W.n) - i, 2), 'float32', 'torch')


def update(ctx, kind):
    """What reaches the model and the loss in every update."""
    f = f'{TR[kind]}:train_model'
    if kind == 'finder':
        for sf in (None, 'factor'):
            W = World(ctx, kind, lambda v: C(5 - v))
            w = f'{f} {sf}'
            kw = dict(loss_scaling_factor=sf, loss_time_weights='tw') if sf else {}
            r = ctx.run('training', w, lambda: W.run(1, **kw))
            if r is None:
                continue
            sp = [e for e in W.ev if e[0] == 'specimen']
            if ctx.ob('specimen-data-is-set-once', w, len(sp) == 1, len(sp)):
                b = W.I.bind(I_get(W, 'material_model_finder.model.material_discovery', 'MaterialModelFinder.set_specimen_data'), [W.model] + list(sp[0][1]), sp[0][2])
                ctx.ob('specimen-and-loss-options-reach-the-model', w, b['specimen_data'] == 'SD' and b['specimen_material_state'] == 'SMS'
                       and b['loss_scaling_factor'] == sf and b['loss_time_weights'] == ('tw' if sf else None), text(list(b.values())[1:]))
        return
    for ni, no in itertools.product((False, True), repeat=2):
        for nl in ((False, True) if kind == 'rc' else (False,)):
            for n, bs in ((1, 1), (3, 2)):
                for hid in ((False, True) if kind == 'gru' else (False,)):
                    keys = ('features_in', 'features_out') + (('hidden_features_in',) if hid else ())
                    w = f'{f} in={ni} out={no} normalized_loss={nl} samples={n} batch={bs} hidden={hid}'
                    W = World(ctx, kind, lambda v: C(9 - v), n_samples=n, norm_in=ni, norm_out=no, keys=keys)
                    kw = dict(is_normalized_loss=nl) if kind == 'rc' else {}
                    r = ctx.run('training', w, lambda: W.run(1, batch_size=bs, **kw))
                    if r is None:
                        continue
                    nb = -(-n // bs)
                    ls = [e for e in W.ev if e[0] == 'loss']
                    if not ctx.ob('loss-is-evaluated-once-per-update', w, len(ls) == 2 * nb == len(W.fwd), len(ls)):
                        continue
                    for e in range(2):
                        for b in range(nb):
                            q = e * nb + b
                            x = batch_ref(W, 'features_in', b * bs, bs)
                            t = batch_ref(W, 'features_out', b * bs, bs)
                            y = tlib.new([S(f'y{q}[{i}]') for i in range(x.size)], tuple(x.shape), 'float32', 'torch')
                            if ni:
                                x = W.scale('features_in', x)
                            if no or nl:
                                t = W.scale('features_out', t)
                            if nl and not no:
                                y = W.scale('features_out', y)
                            ctx.same('model-receives-the-batch-input', f'{w} update={q}', W.fwd[q][1], x)
                            ctx.same('loss-compares-the-model-output', f'{w} update={q}', ls[q][2], y)
                            ctx.same('loss-compares-with-the-target-in-the-same-units', f'{w} update={q}', ls[q][3], t)
                            if kind == 'gru':
                                if hid:
                                    ctx.same('model-receives-the-initial-hidden-state', f'{w} update={q}', W.fwd[q][2], batch_ref(W, 'hidden_features_in', b * bs, bs))
                                else:
                                    ctx.ob('no-hidden-state-is-invented', f'{w} update={q}', W.fwd[q][2] is None, W.fwd[q][2])
                    ctx.ob('every-update-applies-the-gradient-of-its-own-loss', w, not W.bad, W.bad[:3])
                    ctx.ob('data-set-is-not-changed', w, all(
                        alg.equal(tlib.E(z), S(f'{kk}.{j}[{i}]')) for j in range(n) for kk in keys
                        for i, z in enumerate(W.I.getitem(W.data, j).get(kk).vals())))


def I_get(W, mod, q):
    c, m = q.split('.')
    return W.I.get(mod, c).lookup(m)


def setup(ctx, kind):
    f = f'{TR[kind]}:train_model'
    # seeds
    for seed in (None, 0, 11):
        W = World(ctx, kind, lambda v: C(5))
        at_model = []
        m0 = W.I.stubs[CLS[kind]]
        W.I.stubs[CLS[kind]] = lambda I, a, k: at_model.append(dict(W.seeded)) or m0(I, a, k)
        w = f'{f} seed={seed}'
        r = ctx.run('training', w, lambda: W.run(0, seed=seed))
        if r is None:
            continue
        if seed is None:
            ctx.ob('no-seed-is-set-without-request', w, not W.seeded, W.seeded)
        else:
            ctx.ob('every-generator-is-seeded-before-the-model-exists', w, at_model == [{'torch': seed, 'python': seed, 'numpy': seed}], at_model)
        if kind != 'finder':
            ctx.ob('one-loader-over-the-training-set', w, len(W.loaders) == 1 and W.loaders[0]['dataset'] is W.data)
            if seed is not None:
                g = W.loaders[0].get('generator')
                ctx.ob('sample-order-is-seeded', w, isinstance(g, Instance) and g.attrs.get('@seed') == seed, g)
    # optimizer, loss
    W = World(ctx, kind, lambda v: C(5))
    w = f'{f} optimizer'
    kw = {} if kind == 'finder' else dict(loss_kwargs=PyDict([('reduction', 'sum')]), batch_size=4, is_sampler_shuffle=True)
    if ctx.run('training', w, lambda: W.run(0, **kw)) is not None:
        p = W.opt_args.get('params')
        ctx.ob('optimizer-owns-every-parameter-of-the-model', w, isinstance(p, (PyList, IterV)) and len(W.I.iterate(p)) == 1 and W.I.iterate(p)[0] is W.w, p)
        ctx.same('optimizer-starts-with-the-initial-learning-rate', w, W.opt_args.get('lr'), LR)
        if kind != 'finder':
            ctx.ob('loss-options-reach-the-loss', w, W.loss_kw == {'reduction': 'sum'}, W.loss_kw)
            b = W.loaders[0]
            ctx.ob('batch-size-and-shuffling-reach-the-loader', w, b.get('batch_size') == 4 and b.get('shuffle') is True, (b.get('batch_size'), b.get('shuffle')))
        ctx.ob('model-is-built-from-its-arguments', w, len(W.made) == 1 and W.made[0][0] == 'new' and 'x' in W.made[0][2], W.made)
    if kind == 'finder':
        # implicit parameters
        W = World(ctx, kind, lambda v: C(5 - v), param=None)
        W.raw = W.param
        tlib.write(W.w, [W.param(0)])
        w = f'{f} implicit parameters'
        if ctx.run('training', w, lambda: W.run(2, is_explicit_model_parameters=False, is_params_stopping=True)) is not None:
            ctx.ob('every-update-applies-the-gradient-of-its-own-loss', w, not W.bad, W.bad)
            ctx.ob('no-parameter-record-without-explicit-parameters', w, W.file('parameters_best.pkl') is None)
            ctx.ob('every-epoch-is-run', w, W.version() == 3, W.version())
        return
    # scalers
    for ni, no in itertools.product((False, True), repeat=2):
        for nl in ((False, True) if kind == 'rc' else (False,)):
            W = World(ctx, kind, lambda v: C(5), norm_in=ni, norm_out=no, fitted=False)
            w = f'{f} new model in={ni} out={no} normalized_loss={nl}'
            kw = dict(is_normalized_loss=nl) if kind == 'rc' else {}
            if kind == 'gru':
                kw.update(data_scaling_type='min-max', data_scaling_parameters=PyDict([('a', 1)]))
            if ctx.run('training', w, lambda: W.run(0, **kw)) is None:
                continue
            need = ni or no or nl
            ctx.ob('scalers-are-fitted-on-the-training-set-when-needed', w, len(W.fits) == int(need) and all(b['dataset'] is W.data and b['model'] is W.model
                                                                                                         for b in W.fits), len(W.fits))
            if kind == 'gru' and need and W.fits:
                b = W.fits[0]
                ctx.ob('requested-scaling-is-used', w, b['scaling_type'] == 'min-max' and b['scaling_parameters'].keys() == ['a'], b['scaling_type'])
    # continuation of a stored model
    for what in (3, 'best', 'init'):
        for se in (None, 1):
            W = World(ctx, kind, lambda v: C(50 - v), norm_in=True, norm_out=True)
            sd = lambda v: PyDict([('w', tlib.new([W.param(v)], (), 'float32', 'torch')), ('v', tlib.new([C(v)], (), 'float32', 'torch'))])
            for n, v in (('init', 0), ('1', 10), ('3', 30), ('4', 40), ('3-best', 30)):
                W.fs.state.set(f'{D}/net-{n}.pt', sd(v))
            w = f'{f} continue from {what} save_every={se}'
            r = ctx.run('training', w, lambda: W.run(1, model_load_state=what, save_every=se))
            if r is None:
                continue
            v0 = {3: 30, 'best': 30, 'init': 0}[what]
            ctx.ob('stored-model-is-read-from-its-directory', w, len(W.made) == 1 and W.made[0][0] == 'file' and (list(W.made[0][1]) + list(W.made[0][2].values())) == [D], W.made)
            ctx.ob('stored-scalers-are-kept', w, not W.fits, len(W.fits))
            ctx.ob('training-continues-from-the-requested-state', w, [x[0] for x in W.fwd] == [v0, v0 + 1], [x[0] for x in W.fwd])
            ctx.ob('later-states-of-the-old-history-are-removed', w, 'net-4' not in W.stored(), sorted(W.stored()))
            ctx.ob('every-update-applies-the-gradient-of-its-own-loss', w, not W.bad, W.bad)


def refused(ctx, kind):
    f = f'{TR[kind]}:train_model'
    kws = [('unknown optimizer', dict(opt_algorithm='sgd')), ('unknown scheduler', dict(lr_scheduler_type='none')),
           ('step scheduler without step', dict(lr_scheduler_type='steplr')), ('exponential scheduler without rate', dict(lr_scheduler_type='explr'))]
    if kind != 'finder':
        kws += [('unknown loss', dict(loss_type='huber')), ('unknown loss nature', dict(loss_nature='edges'))]
    for n, kw in kws:
        W = World(ctx, kind, lambda v: C(5))
        refuse(ctx, 'unknown-option-is-refused', f'{f} {n}', lambda: W.run(0, **kw))
        ctx.ob('refused-training-updates-nothing', f'{f} {n}', not [e for e in W.ev if e[0] == 'step'])
    if kind == 'rc':
        for at in (0, 2):
            W = World(ctx, kind, lambda v: C(5), nan_at=at)
            refuse(ctx, 'undefined-model-output-is-refused', f'{f} nan at update {at}', lambda: W.run(3))
            ctx.ob('parameters-are-not-updated-with-undefined-output', f'{f} nan at update {at}', [e[1] for e in W.ev if e[0] == 'step'] == list(range(at)))


def early(ctx, kind):
    f = f'{TR[kind]}:train_model'
    L0 = [(5, 4, 3, 2, 1), (1, 2, 3, 4, 5), (3, 1, 2, 1, 5)]
    V0 = [(9, 8, 7, 6, 5), (5, 6, 7, 8, 9), (9, 3, 4, 2, 1), (9, 8, 8, 8, 8), (7, 9, 5, 9, 9), (90, 45, 44, 43, 20)]
    cases = list(itertools.product(itertools.product(L0, V0), [(1, 1, 0.25), (1, 2, 0.25), (2, 1, 0), (1, 3, 0.5), (3, 1, 0.25)]))
    cases += [(((5, 4, 3, 2, 1), (8, 9, 9, 4, 9, 3.9375, 3.875, 1)), (1, 3, 0.25)), (((5, 4, 3, 2, 1), (8, 9, 1, 9, 9, 9, 9, 9)), (1, 4, 0.25)),
              (((5, 4, 3, 2, 1), (8, 9, 9, 1, 9, 0.5, 9, 9)), (1, 2, 0.75))]
    for (o, vs), (freq, trig, tol) in cases:
        se = (None, 1, 2)[(freq + trig + len(str(vs))) % 3]
        vs = [Q(v) for v in vs]
        W = World(ctx, kind, lambda v: C(o[min(v, 4)]), valid=lambda v: C(vs[min(v - 1, len(vs) - 1)]))
        w = f'{f} losses={o} validation={[str(v) for v in vs]} every={freq} patience={trig} tolerance={tol} save_every={se}'
        va = fake(W.I, 'Validation')
        kw = PyDict([('validation_dataset', va), ('validation_frequency', freq), ('trigger_tolerance', trig), ('improvement_tolerance', Num(C(int(tol * 100)) / 100))])
        r = ctx.run('training', w, lambda: W.run(len(vs) - 1, is_early_stopping=True, early_stopping_kwargs=kw, save_every=se, batch_size=3, is_verbose=bool(freq == 2)))
        if r is None:
            continue
        ref = reference(kind, lambda v: o[min(v, 4)], 1, len(vs) - 1, se, lambda v: vs[min(v - 1, len(vs) - 1)], freq, trig, Q(int(tol * 100), 100))
        compare(ctx, W, w, r, ref, 1, len(vs) - 1, kind, valid=True)
        ctx.ob('validation-uses-the-validation-set-and-current-state', w, all(
            b['dataset'] is va and b['model'] is W.model and b['model_load_state'] == v - 1 and b['predict_directory'] is None
            and b['model_directory'] == D and b['loss_type'] == 'mse' and b['loss_nature'] == 'features_out' for v, b in W.preds), len(W.preds))
    if kind == 'rc':
        for nl, no in itertools.product((False, True), repeat=2):
            W = World(ctx, kind, lambda v: C(5), valid=lambda v: C(5), norm_out=no)
            w = f'{f} validation loss units normalized_loss={nl} out={no}'
            kw = PyDict([('validation_dataset', fake(W.I, 'Validation'))])
            if ctx.run('training', w, lambda: W.run(1, is_early_stopping=True, early_stopping_kwargs=kw, is_normalized_loss=nl)) is not None:
                ctx.ob('validation-loss-has-the-units-of-the-training-loss', w, all(bool(b['is_normalized_loss']) == (nl or no) for _, b in W.preds), len(W.preds))
    else:
        for no in (False, True):
            W = World(ctx, kind, lambda v: C(5), valid=lambda v: C(5), norm_out=no)
            w = f'{f} validation loss units out={no}'
            kw = PyDict([('validation_dataset', fake(W.I, 'Validation'))])
            if ctx.run('training', w, lambda: W.run(1, is_early_stopping=True, early_stopping_kwargs=kw)) is not None:
                ctx.ob('validation-loss-has-the-units-of-the-training-loss', w, all(bool(b['is_normalized_loss']) == no for _, b in W.preds), len(W.preds))


def stopper(ctx, kind):
    mod = TR[kind]
    f = f'{mod}:EarlyStopper'
    W = World(ctx, kind, lambda v: C(5), valid=lambda v: C(5))
    I = W.I
    es = I.call(I.get(mod, 'EarlyStopper'), [fake(I, 'V')], {})
    opt = W.optimizer()
    refuse(ctx, 'missing-best-state-is-refused', f, lambda: call(I, es, 'load_best_performance_state', W.model, opt))
    for fr in (1, 2, 3, 5):
        es = I.call(I.get(mod, 'EarlyStopper'), [fake(I, 'V')], dict(validation_frequency=fr))
        for e in range(7):
            r = ctx.run('frequency', f, lambda: call(I, es, 'is_evaluate_criterion', e))
            ctx.ob('validation-is-due-at-multiples-of-the-frequency', f'{f} {fr} {e}', I.truth(r) is (e % fr == 0) if r is not None else None, r)
    for pre in (False, True):
        for vs in ((8, 4, 6), (8, 8, 8), (4, 6, 2)):
            W = World(ctx, kind, lambda v: C(5), valid=lambda v: C(vs[v]))
            I = W.I
            opt = W.optimizer()
            es = I.call(I.get(mod, 'EarlyStopper'), [fake(I, 'V')], dict(trigger_tolerance=9))
            W.mode.append(True)
            w = f'{f} {vs} stored={pre}'
            for e in range(3):
                tlib.write(W.ver, [C(e)])
                tlib.write(W.w, [W.param(e)])
                tlib.write(W.mom, [C(e)])
                if pre:
                    for n, c in ((f'net-{e}', PyDict([('w', tlib.new([W.param(e)], (), 'float32', 'torch')), ('v', tlib.new([C(e)], (), 'float32', 'torch'))])),
                                 (f'net_optim-{e}', PyDict([('m', tlib.new([C(e)], (), 'float32', 'torch'))]))):
                        W.fs.state.set(f'{D}/{n}.pt', c)
                b = sorted(W.fs.files())
                if ctx.run('criterion', w, lambda: (call(I, es, 'evaluate_criterion', W.model, opt, e), 1)[1]) is None:
                    break
                ctx.ob('validation-leaves-the-stored-states-as-they-were', f'{w} {e}', sorted(W.fs.files()) == b, sorted(W.fs.files()))
                ctx.ob('training-mode-is-restored-after-validation', f'{w} {e}', W.mode[-1] is True, W.mode[-1])
            else:
                tlib.write(W.ver, [C(70)])
                tlib.write(W.w, [C(70)])
                tlib.write(W.mom, [C(70)])
                be = vs.index(min(vs))
                r = ctx.run('best', w, lambda: call(I, es, 'load_best_performance_state', W.model, opt))
                if r is not None:
                    ctx.ob('best-validated-model-is-restored', w, W.version() == be and num(W.w) == W.param(be).const(), W.version())
                    ctx.ob('best-validated-optimizer-is-restored', w, num(W.mom) == be, num(W.mom))
                    ctx.ob('epoch-of-the-best-validation-is-returned', w, I.as_int(r) == be, r)
                h = ctx.run('history', w, lambda: call(I, es, 'get_validation_loss_history'))
                if h is not None:
                    ctx.ob('validation-history-lists-every-loss', w, nums(h) == list(vs), nums(h))


def convergence(ctx):
    mod = TR['rc']
    f = f'{mod}:check_model_parameters_convergence'
    I = ctx.interp()
    fn = I.get(mod, 'check_model_parameters_convergence')
    I.stubs['lib:builtins.print'] = lambda I, a, k: None
    T = lambda n, d=1: C(n) / C(d)
    from fractions import Fraction as Q
    seqs = [(10,), (10, 10), (10, 11, 12, 13), (100, 100, 100, 100), (1, 100, 100, 100, 100), (100, 100, 100, 100, 1), (100, 100, 1, 100, 100, 100),
            (0, 0, 0, 0), (0, 1, 1, 1), (10, -10, 10, -10), (-100, -100, -100, -100), (64, 63, 62, 61), (0, Q(1, 1000), Q(1, 1000)), (-1, 1, -1, 1, -1),
            (-100, -200, -100, -200, -100), (2, 3, 4, 5, 6, 7)]
    for seq in seqs:
        for other in ((), (50,) * len(seq), tuple(range(1, len(seq) + 1))):
            for tol, trig, mn in ((Q(1, 10), 1, 0), (Q(1, 10), 3, 0), (Q(1, 100), 2, 0), (Q(1, 10), 1, 4), (Q(5, 10), 4, 0), (Q(1, 10), 2, 3)):
                for verbose in (False, True):
                    hist = [('a', seq)] + ([('b', other)] if other else [])
                    d = PyDict([(k, PyList([Num(C(x)) for x in s])) for k, s in hist])
                    w = f'{f} {seq} {other} tol={tol} trigger={trig} min={mn} verbose={verbose}'
                    r = ctx.run('convergence', w, lambda: I.call(fn, [d], dict(convergence_tolerance=Num(C(tol)), trigger_tolerance=trig, min_hist_length=mn, is_verbose=verbose)))
                    if r is None:
                        continue

                    def ch(s):
                        return [abs(Q(b) - Q(a)) / (abs(Q(a)) if abs(a) > Q(1, 10**8) else 1) for a, b in zip(s, s[1:])]
                    pc = {k: len(s) > trig and all(x < tol for x in ch(s)[-trig:]) for k, s in hist}
                    want = all(pc.values()) and len(seq) > mn
                    got = I.truth(r[0])
                    ctx.ob('converged-when-every-parameter-stays-within-tolerance', w, got is want, f'{got} expected {want}')
                    st = r[1]
                    ok = sorted(st.keys()) == sorted(k for k, _ in hist)
                    for k, s in hist:
                        q = st.get(k)
                        ok = ok and I.truth(q.get('is_converged')) is pc[k]
                        if len(s) == 1:
                            ok = ok and q.get('absolute_change') is None and q.get('relative_change') is None
                        else:
                            ok = ok and num(q.get('absolute_change')) == abs(Q(s[-1]) - Q(s[-2]))
                            if abs(s[-2]) > Q(1, 10**8):
                                ok = ok and num(q.get('relative_change')) == ch(s)[-1]
                            else:
                                ok = ok and q.get('relative_change') is None
                    ctx.ob('status-of-each-parameter-is-reported', w, ok, text(st))


def params_stop(ctx, kind):
    from fractions import Fraction as Q
    f = f'{TR[kind]}:train_model'
    cases = [((100, 200, 400, 800, 1600, 3200), None), ((100, 200, 200, 200, 200, 200), 2), ((100,) * 6, 2), ((100, 200, 200, 400, 400, 400), 2)]
    for ps, trig in cases:
        for tr in (1, 2, 3):
            for es in ((False, True) if kind == 'rc' else (False,)):
                W = World(ctx, kind, lambda v: C(20 - v), valid=lambda v: C(20 - v if v != 4 else 50), param=lambda v: C(ps[min(v, 5)]))
                w = f'{f} parameters={ps} trigger={tr} early_stopping={es}'
                kw = dict(is_params_stopping=True, params_stopping_kwargs=PyDict([('convergence_tolerance', Num(C(1) / 10)), ('trigger_tolerance', tr)]))
                if es:
                    kw.update(is_early_stopping=True, early_stopping_kwargs=PyDict([('validation_dataset', fake(W.I, 'V')), ('improvement_tolerance', Num(C(0)))]))
                r = ctx.run('training', w, lambda: W.run(4, **kw))
                if r is None:
                    continue
                hist = nums(W.file('parameters_history_record.pkl').get('model_parameters_history').get('E'))

                def conv(e):
                    s = hist[:e + (2 if kind == 'rc' else 1)]
                    c = [abs(b - a) / abs(a) for a, b in zip(s, s[1:])]
                    return len(s) > tr and all(x < Q(1, 10) for x in c[-tr:])
                ref = reference(kind, lambda v: 20 - v, 1, 4, None, (lambda v: 20 - v if v != 4 else 50) if es else None, 1, 1, 0, conv)
                compare(ctx, W, w, r, ref, 1, 4, kind, valid=es)


def records(ctx, kind):
    mod = TR[kind]
    for wr, rd, path, keys in (('save_parameters_history', 'read_parameters_history_from_file', 'parameters_history_record.pkl', 'H'),
                               ('save_best_parameters', 'read_best_parameters_from_file', 'parameters_best.pkl', 'B')):
        W = World(ctx, kind, lambda v: C(5))
        I = W.I
        w = f'{mod}:{wr}'
        a = PyDict([('E', PyList([Num(S('e1')), Num(S('e2'))])), ('v', PyList([Num(S('v1'))]))])
        b = PyDict([('E', (Num(S('lo')), Num(S('hi'))))])
        refuse(ctx, 'missing-record-is-refused', w, lambda: I.call(I.get(mod, rd), [f'{D}/{path}'], {}))
        r = ctx.run('record', w, lambda: (I.call(I.get(mod, wr), [W.model, a, b], {}), I.call(I.get(mod, rd), [f'{D}/{path}'], {}))[1])
        if r is not None:
            ctx.ob('record-reads-back-as-written', w, [text(x) for x in r] == [text(a), text(b)], text(r))


def folds(ctx):
    f = f'{CV}:kfold_cross_validation'
    for n, nf in ((4, 2), (6, 3), (5, 5)):
        for no in (False, True):
            I = ctx.interp()
            fs = FS(I, dirs=['/cv', '/cv/fold_1', '/cv/keep'], files={'/cv/fold_1/old.pt': 'old', '/cv/keep/x': 'x'})
            subs, trains, preds, splits = [], [], [], []
            I.stubs['lib:torch.utils.data.Subset'] = lambda I, a, k: (lambda o: subs.append(o) or o)(fake(I, 'Subset', ds=a[0], ids=a[1]))
            perm = [(i * 3 + 1) % n if n != 6 else (i * 5 + 1) % n for i in range(n)]

            def split(I, a, k):
                q, out = n // nf, []
                for j in range(nf):
                    v = perm[j * q:(j + 1) * q]
                    out.append((PyList([x for x in perm if x not in v]), PyList(v)))
                return PyList(out)

            def kf(I, a, k):
                splits.append((a, k))
                return fake(I, 'KFold', split=split)
            I.stubs['lib:sklearn.model_selection.KFold'] = kf
            I.stubs['lib:builtins.print'] = lambda I, a, k: None
            I.stubs['lib:datetime.timedelta'] = lambda I, a, k: '0:00:00'
            m = lambda d: fake(I, 'Model', model_directory=d, is_model_in_normalized=True, is_model_out_normalized=no)

            def train(I, a, k):
                b = bound(I, TR['gru'], 'train_model', a, k)
                d = b['model_init_args'].get('model_directory')
                if not fs.isdir(d) or fs.listdir(d):
                    raise AbsRaise('RuntimeError', f'model directory {d}')
                trains.append((d, b))
                return m(d), Num(S(f'train{len(trains) - 1}')), 3

            def pred(I, a, k):
                b = bound(I, PR['gru'], 'predict', a, k)
                preds.append(b)
                return 'dir', Num(S(f'valid{len(preds) - 1}'))
            I.stubs[f'{TR["gru"]}.train_model'] = train
            I.stubs[f'{PR["gru"]}.predict'] = pred
            ds = fake(I, 'Data', __len__=lambda I, a, k: n)
            w = f'{f} samples={n} folds={nf} out={no}'
            kw = dict(cross_validation_dir='/cv', n_fold=nf, n_max_epochs=7, dataset=ds, model_init_args=PyDict([('model_name', 'net')]), lr_init=Num(LR),
                      loss_nature='features_out', batch_size=3, is_verbose=bool(no), is_early_stopping=True, early_stopping_kwargs=PyDict([('q', 1)]))
            if not no:
                del kw['loss_nature']
            r = ctx.run('folds', w, lambda: I.call(I.get(CV, 'kfold_cross_validation'), [], kw))
            if r is None:
                continue
            if not ctx.ob('one-training-and-one-validation-per-fold', w, len(trains) == nf == len(preds), (len(trains), len(preds))):
                continue
            seen = []
            for j in range(nf):
                td, vd = trains[j][1]['dataset'], preds[j]['dataset']
                ti = [I.as_int(x) for x in I.iterate(td.attrs['ids'])]
                vi = [I.as_int(x) for x in I.iterate(vd.attrs['ids'])]
                seen += vi
                ctx.ob('training-and-validation-samples-are-disjoint', f'{w} {j}', td.attrs['ds'] is ds and vd.attrs['ds'] is ds and not set(ti) & set(vi)
                       and sorted(ti + vi) == list(range(n)), (ti, vi))
                d, b = trains[j]
                ctx.ob('each-fold-has-its-own-directory', f'{w} {j}', sum(x[0] == d for x in trains) == 1 and d.startswith('/cv/'), d)
                ctx.ob('fold-is-validated-with-its-own-best-state', f'{w} {j}', preds[j]['model_directory'] == d and preds[j]['model_load_state'] == 'best'
                       and bool(preds[j]['is_normalized_loss']) == no and preds[j]['loss_type'] == b['loss_type'] and preds[j]['loss_nature'] == b['loss_nature'],
                       preds[j]['model_load_state'])
                ctx.ob('fold-is-trained-with-the-requested-options', f'{w} {j}', b['n_max_epochs'] == 7 and b['batch_size'] == 3 and alg.equal(val(b['lr_init']), LR)
                       and b['is_early_stopping'] is True and b['early_stopping_kwargs'].keys() == ['q'] and b['model_load_state'] is None
                       and b['model_init_args'].get('model_name') == 'net')
                ctx.ob('default-loss-is-available', f'{w} {j}', b['loss_nature'] == 'features_out', b['loss_nature'])
            ctx.ob('every-sample-is-validated-once', w, sorted(seen) == list(range(n)), seen)
            ctx.same('losses-of-every-fold-are-returned', w, r, tlib.new([S(f'{q}{j}') for j in range(nf) for q in ('train', 'valid')], (nf, 2), 'float64', 'np'))
            ctx.ob('other-directories-are-kept', w, fs.isfile('/cv/keep/x') and not fs.isfile('/cv/fold_1/old.pt'))
            ctx.ob('folds-are-shuffled', w, len(splits) == 1 and splits[0][1].get('shuffle') is True and (list(splits[0][0]) + [splits[0][1].get('n_splits')])[0] == nf)
            kw['cross_validation_dir'] = '/none'
            refuse(ctx, 'missing-directory-is-refused', w, lambda: I.call(I.get(CV, 'kfold_cross_validation'), [], kw))
            kw['cross_validation_dir'] = '/cv'
            last = []
            I.stubs[f'{PR["gru"]}.predict'] = lambda I, a, k: last.append(1) or ('dir', None if len(last) % nf == 0 else Num(S('valid')))
            refuse(ctx, 'missing-validation-loss-is-refused', w + ' last fold', lambda: I.call(I.get(CV, 'kfold_cross_validation'), [], kw))
            I.stubs[f'{PR["gru"]}.predict'] = lambda I, a, k: ('dir', None)
            refuse(ctx, 'missing-validation-loss-is-refused', w, lambda: I.call(I.get(CV, 'kfold_cross_validation'), [], kw))
