"""P16 - stored model state.  The routines that store, find, load and remove
model and optimizer states, model initialization files, training records and
prediction results are evaluated over an abstract file system holding files of
the model and of others; state contents are unrestricted symbols."""
import posixpath

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse

FLOOR = 150
SF = 'model_architectures.procedures.model_state_files'
MT = 'model_architectures.procedures.model_training'
MP = 'model_architectures.procedures.model_prediction'
IO = 'ioput.iostandard'
D = '/run/model'
NAME = 'net'


def groups(tier):
    return [('save', save), ('load', load), ('load refused', load_refused), ('round trip', round_trip), ('training state', training_state),
            ('init gru', init_gru), ('init recurrent', init_recurrent), ('init hybrid', init_hybrid), ('init refused', init_refused),
            ('records', records), ('parameters', parameters), ('directories', directories), ('predictions', predictions), ('search', search),
            ('summary', summary)]


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def state(v):
    return PyDict([('w', tens(f'{v}.w', (2,))), ('b', tens(f'{v}.b', (1,)))])


def text(c):
    """Comparable form of an abstract content."""
    if isinstance(c, PyDict):
        return {k: text(c.get(k)) for k in c.keys()}
    if isinstance(c, PyList):
        return [text(x) for x in c.items]
    if isinstance(c, (tuple, list)):
        return [text(x) for x in c]
    if isinstance(c, Tensor):
        return (tuple(c.shape), [str(x) for x in c.vals()])
    if isinstance(c, alg.Expr) or type(c).__name__ == 'Num':
        return str(to_expr(c))
    return c if isinstance(c, (str, int, bool, float, type(None))) else repr(c)


OTHERS = ['model_init_file.pkl', 'loss_history_record.pkl', 'other-50.pt', 'net_optim-50.pt', 'net_optim-7-best.pt', 'xnet-60.pt', 'net2-61.pt',
          'xnet-9-best.pt', 'net-notes.txt', 'summary.dat']


def world(ctx, epochs=(), best=(), init=False, extra=OTHERS, name=NAME):
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    for e in epochs:
        fs.state.set(f'{D}/{name}-{e}.pt', state(f'e{e}'))
    for e in best:
        fs.state.set(f'{D}/{name}{"" if e is None else f"-{e}"}-best.pt', state(f'b{e}'))
    if init:
        fs.state.set(f'{D}/{name}-init.pt', state('i'))
    for x in extra:
        fs.state.set(f'{D}/{x}', PyDict([('other', x)]))
    loads = []

    def load(I, a, k):
        loads.append(text(a[0] if a else k['state_dict']))
        if I.simp(k.get('strict', a[1] if len(a) > 1 else True)) is not True:
            loads.append('unfitting states accepted (strict off)')
    m = fake(I, 'Model', 'torch.nn.Module', model_directory=D, model_name=name, state_dict=lambda I, a, k: state('now'),
             load_state_dict=load)
    return I, fs, m, loads


def snap(fs):
    return {posixpath.basename(k): text(v) for k, v in fs.files().items() if k.startswith(D + '/')}


def diff(ctx, w, before, after, written, gone):
    ctx.ob('state-is-written-under-its-name', w, all(after.get(k) == v for k, v in written.items()), sorted(after))
    ctx.ob('exactly-the-superseded-states-are-removed', w, set(before) - set(after) == set(gone) - set(written), sorted(set(before) - set(after)))
    ctx.ob('no-other-file-appears', w, set(after) - set(before) <= set(written), sorted(set(after) - set(before)))
    ctx.ob('other-files-keep-their-content', w, all(after[k] == v for k, v in before.items() if k in after and k not in written),
           [k for k, v in before.items() if k in after and k not in written and after[k] != v])


NOW = None
CASES = [((), ()), ((0, 3), (3,)), ((2, 9, 10, 100), (9,)), ((0, 5, 10, 50), (None,)), ((5, 6, 7), (7, 10))]


def save(ctx):
    for name in ('net', 'my-net', 'a_b-3'):
        for epochs, best in CASES:
            for st, ep, rm in [('init', None, True), ('epoch', 9, True), ('epoch', 9, False), ('default', 0, True), ('default', None, True),
                               ('best', 9, True), ('best', 10, False), ('best', None, True), ('epoch', 10, True)]:
                I, fs, m, _ = world(ctx, epochs, best, True, name=name)
                b = snap(fs)
                w = f'{SF}:save_model_state {name} {st} epoch={ep} remove={rm} stored={epochs} best={best}'
                kw = dict(state_type=st, is_remove_posterior=rm)
                if ep is not None:
                    kw['epoch'] = ep
                if ctx.run('save', w, lambda: (I.call(I.get(SF, 'save_model_state'), [m], kw), 1)[1]) is None:
                    continue
                f = name + ('-init' if st == 'init' else (f'-{ep}' if ep is not None else '') + ('-best' if st == 'best' else ''))
                gone = {f'{name}-{e}.pt' for e in epochs if rm and ep is not None and e > ep}
                if st == 'best':
                    gone |= {f'{name}{"" if e is None else f"-{e}"}-best.pt' for e in best}
                diff(ctx, w, b, snap(fs), {f + '.pt': text(state('now'))}, gone)


def load(ctx):
    for epochs, best in [((2, 9, 10, 100), (9,)), ((0, 3), (3,)), ((7,), (None,)), ((0, 5, 11), (11,))]:
        for what in ['init', 'best', 'last', None] + list(epochs):
            for rm in (True, False):
                I, fs, m, loads = world(ctx, epochs, best, True)
                fs.state.set(f'{D}/net.pt', state('plain'))
                b = snap(fs)
                w = f'{SF}:load_model_state {what} remove={rm} stored={epochs} best={best}'
                r = ctx.run('load', w, lambda: (I.call(I.get(SF, 'load_model_state'), [m], dict(model_load_state=what, is_remove_posterior=rm)),))
                if r is None:
                    continue
                ep, key = {'init': (0, 'i'), 'best': (best[0], f'b{best[0]}'), 'last': (max(epochs), f'e{max(epochs)}'), None: (None, 'plain')}.get(
                    what, (what, f'e{what}'))
                got = I.simp(r[0])
                ctx.ob('requested-state-is-loaded', w, loads == [text(state(key))], loads)
                ctx.ob('epoch-of-the-loaded-state-is-returned', w, (got is None) == (ep is None) and (ep is None or I.as_int(got) == ep), got)
                gone = {f'net-{e}.pt' for e in epochs if rm and ep is not None and e > ep}
                diff(ctx, w, b, snap(fs), {}, gone)


def load_refused(ctx):
    f = f'{SF}:load_model_state'
    for w, epochs, best, init, what in [
            ('missing epoch', (2, 9, 12), (9,), True, 5), ('missing init', (2, 9), (9,), False, 'init'), ('no best', (2, 9), (), True, 'best'),
            ('two best', (2, 9), (2, 9), True, 'best'), ('no epochs', (), (9,), True, 'last'), ('no plain state', (2,), (2,), True, None)]:
        for rm in (True, False):
            I, fs, m, loads = world(ctx, epochs, best, init)
            b = snap(fs)
            refuse(ctx, 'missing-or-ambiguous-state-is-refused', f'{f} {w} {rm}', lambda: I.call(
                I.get(SF, 'load_model_state'), [m], dict(model_load_state=what, is_remove_posterior=rm)))
            ctx.ob('refused-load-changes-nothing', f'{f} {w} {rm}', snap(fs) == b and not loads, sorted(set(b) - set(snap(fs))))
    # state that does not fit the model
    I, fs, m, loads = world(ctx, (2, 9, 12), (9,), True)

    def bad(I, a, k):
        raise AbsRaise('RuntimeError', 'state does not fit')
    m.attrs['load_state_dict'] = Native(bad, 'load_state_dict')
    b = snap(fs)
    refuse(ctx, 'state-of-another-architecture-is-refused', f, lambda: I.call(I.get(SF, 'load_model_state'), [m], dict(model_load_state=2)))
    ctx.ob('failed-load-keeps-every-state', f, snap(fs) == b, sorted(set(b) - set(snap(fs))))
    for n in ('save_model_state', 'load_model_state'):
        I, fs, m, loads = world(ctx, (2,), ())
        refuse(ctx, 'object-without-model-interface-is-refused', f'{SF}:{n} no module', lambda: I.call(I.get(SF, n), [PyDict()], {}))
        g = fake(I, 'Model', 'torch.nn.Module', model_directory='/nowhere', model_name='net', state_dict=lambda I, a, k: state('now'))
        refuse(ctx, 'missing-directory-is-refused', f'{SF}:{n}', lambda: I.call(I.get(SF, n), [g], {}))


def round_trip(ctx):
    for name in ('net', 'my-net'):
        for epochs, best in CASES:
            for st, ep, what in [('init', None, 'init'), ('epoch', 9, 9), ('epoch', 100, 'last'), ('best', 9, 'best'), ('best', None, 'best'), ('default', None, None)]:
                I, fs, m, loads = world(ctx, epochs, best, True, name=name)
                w = f'{SF}:save_model_state+load_model_state {name} {st} epoch={ep} stored={epochs} best={best}'
                if ctx.run('save', w, lambda: (I.call(I.get(SF, 'save_model_state'), [m], dict(state_type=st, epoch=ep)), 1)[1]) is None:
                    continue
                r = ctx.run('load', w, lambda: (I.call(I.get(SF, 'load_model_state'), [m], dict(model_load_state=what)),))
                if r is None:
                    continue
                ctx.ob('stored-state-is-recovered', w, loads == [text(state('now'))], loads)
                if ep is not None:
                    ctx.ob('stored-epoch-is-recovered', w, I.as_int(r[0]) == ep, r)


def training_state(ctx):
    fn = 'save_training_state'
    for epochs, best in CASES:
        for st, ep, rm in [('init', None, True), ('epoch', 9, True), ('epoch', 9, False), ('epoch', 0, True), ('best', 9, True), ('best', 10, False)]:
            I, fs, m, _ = world(ctx, epochs, best, True, extra=['other_optim-50.pt', 'xnet_optim-60.pt', 'xnet_optim-60-best.pt', 'summary.dat'])
            for e in epochs:
                fs.state.set(f'{D}/net_optim-{e}.pt', PyDict([('o', e)]))
            for e in best:
                fs.state.set(f'{D}/net_optim{"" if e is None else f"-{e}"}-best.pt', PyDict([('ob', e)]))
            opt = fake(I, 'Optimizer', state_dict=lambda I, a, k: PyDict([('step', Num(S('opt.step')))]))
            b = snap(fs)
            w = f'{MT}:{fn} {st} epoch={ep} remove={rm} stored={epochs} best={best}'
            if ctx.run('save', w, lambda: (I.call(I.get(MT, fn), [m, opt], dict(state_type=st, epoch=ep, is_remove_posterior=rm)), 1)[1]) is None:
                continue
            wr = {}
            if st == 'init':
                wr['net-init.pt'] = text(state('now'))
            else:
                tail = f'-{ep}' + ('-best' if st == 'best' else '')
                wr[f'net{tail}.pt'] = text(state('now'))
                wr[f'net_optim{tail}.pt'] = {'state': {'step': str(S('opt.step'))}, 'epoch': ep}
            gone = set()
            for e in epochs:
                if rm and ep is not None and e > ep:
                    gone |= {f'net-{e}.pt', f'net_optim-{e}.pt'}
            if st == 'best':
                for e in best:
                    t = ('' if e is None else f'-{e}') + '-best.pt'
                    gone |= {'net' + t, 'net_optim' + t}
            diff(ctx, w, b, snap(fs), wr, gone)


# ----------------------------------------------------------------- initialization files
def attrs_of(o):
    return {k: v for k, v in o.attrs.items() if isinstance(k, str) and not k.startswith('@') and k not in ('_is_save_model_init_file',)}


def same_attr(a, b):
    if isinstance(a, Instance) and isinstance(b, Instance):
        return a is b or (a.cls.name == b.cls.name and text(a.attrs.get('made')) == text(b.attrs.get('made')))
    return text(a) == text(b)


def init_case(ctx, I, fs, K, w, kw, scalers=True):
    moved = '/moved/model'
    fs._mkdirs(D)
    fs._mkdirs(moved)
    for sc in ((False, True) if scalers else (False,)):
        o = ctx.run('construct', w, lambda: I.call(K, [], dict(kw, model_directory=D, is_save_model_init_file=True)))
        if o is None:
            return
        w2 = f'{w} scalers={sc}'
        log = []
        if sc:
            mk = lambda n: fake(I, 'Scaler', **{'label': n, 'set_device': lambda I, a, k: log.append((n, a[0]))})
            o.attrs['_data_scalers'] = PyDict([('features_in', mk('in')), ('features_out', mk('out'))])
            if ctx.run('save', w2, lambda: (call(I, o, 'save_model_init_file'), 1)[1]) is None:
                continue
        ctx.ob('init-file-is-written-in-the-model-directory', w2, list(fs.files()) and all(posixpath.dirname(k) in (D, moved) for k in fs.files()), list(fs.files()))
        f = [k for k in fs.files() if posixpath.dirname(k) == D]
        for k in f:
            fs.state.set(k.replace(D, moved), fs.read(k))
        if sc:
            DS = 'model_architectures.procedures.model_data_scaling'
            for d in (D, moved):
                m = fake(I, 'Model', model_directory=d, _data_scalers=None)
                if ctx.run('load scalers', f'{DS}:load_model_data_scalers_from_file', lambda: (I.call(I.get(DS, 'load_model_data_scalers_from_file'), [m], {}), 1)[1]):
                    s = m.attrs.get('_data_scalers')
                    ctx.ob('fitted-data-scalers-are-loaded', f'{DS}:load_model_data_scalers_from_file {w2}', isinstance(s, PyDict) and [s.get(x).attrs.get('label') for x in ('features_in', 'features_out')] == ['in', 'out'])
            for d in ('/none', '/moved'):
                m = fake(I, 'Model', model_directory=d, _data_scalers=None)
                refuse(ctx, 'missing-record-is-refused', f'{DS}:load_model_data_scalers_from_file {d}', lambda: I.call(I.get(DS, 'load_model_data_scalers_from_file'), [m], {}))
        n0 = len(fs.ops())
        for how, args, d in (('directory', dict(model_directory=D), D), ('moved directory', dict(model_directory=moved), moved),
                             ('file', dict(model_init_file_path=f'{moved}/model_init_file.pkl'), moved)):
            log.clear()
            r = ctx.run('reload', f'{w2} {how}', lambda: I.call(I.getattr(K, 'init_model_from_file'), [], args))
            if r is None:
                continue
            ctx.ob('model-of-the-same-class', f'{w2} {how}', isinstance(r, Instance) and r.cls is o.cls)
            if not isinstance(r, Instance):
                continue
            A, B = attrs_of(o), attrs_of(r)
            ctx.ob('same-attributes', f'{w2} {how}', sorted(A) == sorted(B), sorted(set(A) ^ set(B)))
            for k in sorted(set(A) & set(B)):
                if k == 'model_directory':
                    ctx.ob('model-lives-where-it-was-found', f'{w2} {how}', B[k] == d, B[k])
                    continue
                ctx.ob('initialization-argument-recovered', f'{w2} {how} {k}', same_attr(A[k], B[k]), f'{text(A[k])} != {text(B[k])}')
            if sc:
                s = B.get('_data_scalers')
                ok = isinstance(s, PyDict) and [s.get(x).attrs.get('label') for x in ('features_in', 'features_out')] == ['in', 'out']
                ctx.ob('fitted-data-scalers-recovered', f'{w2} {how}', ok)
                ctx.ob('data-scalers-follow-the-device', f'{w2} {how}', sorted(log) == [('in', 'cpu'), ('out', 'cpu')], log)
        ctx.ob('reloading-writes-nothing', w2, all(op[0] in ('read',) for op in fs.ops()[n0:]), fs.ops()[n0:])


def init_gru(ctx):
    mod = 'model_architectures.rnn_base_model.model.gru_model'
    for i, kw in enumerate((dict(n_features_in=6, n_features_out=4, hidden_layer_size=7, model_name='m1', is_model_in_normalized=True,
                                 is_model_out_normalized=False, n_recurrent_layers=3, dropout=2, gru_model_source='torch'),
                            dict(n_features_in=2, n_features_out=3, hidden_layer_size=5, model_name='m2', is_model_in_normalized=False,
                                 is_model_out_normalized=True, n_recurrent_layers=2, gru_model_source='custom', device_type='cpu'))):
        I = ctx.interp()
        fs = FS(I, dirs=[D])
        rec = lambda kind: (lambda I, a, k: fake(I, kind, made=PyDict([(x, text(v)) for x, v in sorted(k.items())] + [('args', text(a))])))
        I.stubs['lib:torch.nn.GRU'] = rec('GRU')
        I.stubs['lib:torch.nn.Linear'] = rec('Linear')
        I.stubs['model_architectures.rnn_base_model.custom.gru_vmap.GRU'] = I.stubs['GRU'] = rec('CustomGRU')
        K = I.get(mod, 'GRURNNModel')
        init_case(ctx, I, fs, K, f'{mod}:GRURNNModel {i}', kw)


def init_recurrent(ctx):
    mod = 'model_architectures.rc_base_model.model.recurrent_model'
    names = ['elastic', 'von_mises', 'von_mises_mixed', 'drucker_prager', 'von_mises_vmap', 'von_mises_mixed_vmap', 'drucker_prager_vmap']
    CLS = {'elastic': 'Elastic', 'von_mises': 'VonMises', 'von_mises_mixed': 'VonMisesMixed', 'drucker_prager': 'DruckerPrager',
           'von_mises_vmap': 'VonMisesVMAP', 'von_mises_mixed_vmap': 'VonMisesMixedVMAP', 'drucker_prager_vmap': 'DruckerPragerVMAP'}
    for i, n in enumerate(names):
        I = ctx.interp()
        fs = FS(I, dirs=[D])
        for c in CLS.values():
            I.stubs[c] = lambda I, a, k, c=c: fake(I, c, made=PyList([text(x) for x in a]), _model_parameters=a[2], set_device=lambda I, a, k: None)
        K = I.get(mod, 'RecurrentConstitutiveModel')
        kw = dict(n_features_in=6, n_features_out=7, learnable_parameters=PyDict([('E', PyDict([('initial_value', Num(C(5))), ('bounds', (Num(C(1)), Num(C(9))))]))]),
                  strain_formulation='infinitesimal', problem_type=4 if i % 2 else 1, material_model_name=n,
                  material_model_parameters=PyDict([('E', Num(C(3))), ('v', Num(C(1) / C(4)))]), model_name=f'r{i}', is_auto_sync_parameters=i in (1, 2, 4),
                  is_check_su_fail=i in (2, 3), state_features_out=PyDict([('acc_p_strain', 1)]), is_model_in_normalized=bool(i & 1),
                  is_model_out_normalized=bool(i & 2), is_normalized_parameters=bool(i & 4), device_type='cpu')
        init_case(ctx, I, fs, K, f'{mod}:RecurrentConstitutiveModel {n}', kw)


C = alg.const


def init_hybrid(ctx):
    from .p14 import stand_in, hyb_dict, LAYOUTS
    mod = 'model_architectures.hybrid_base_model.model.hybrid_model'
    for i, L in enumerate(LAYOUTS[:6]):
        I = ctx.interp()
        fs = FS(I, dirs=[D])
        ms = {n: stand_in(I, n, 2, 2, label=n) for n, _ in L}
        K = I.get(mod, 'HybridModel')
        kw = dict(n_features_in=2 + i, n_features_out=3, hyb_models_dict=hyb_dict(I, [(n, idx, False) for n, idx in L], ms), model_name=f'h{i}',
                  hybridization_type='identity' if i % 2 else 'additive', is_model_in_normalized=bool(i % 2), is_model_out_normalized=not i % 2,
                  device_type='cpu')
        init_case(ctx, I, fs, K, f'{mod}:HybridModel {i}', kw)


def init_refused(ctx):
    for mod, cls in (('model_architectures.rnn_base_model.model.gru_model', 'GRURNNModel'),
                     ('model_architectures.rc_base_model.model.recurrent_model', 'RecurrentConstitutiveModel'),
                     ('model_architectures.hybrid_base_model.model.hybrid_model', 'HybridModel')):
        for why, a in (('no directory', dict(model_directory='/nowhere')), ('empty directory', dict(model_directory='/empty')),
                       ('no file', dict(model_init_file_path='/empty/model_init_file.pkl')), ('nothing', {})):
            I = ctx.interp()
            FS(I, dirs=[D, '/empty'])
            K = I.get(mod, cls)
            refuse(ctx, 'missing-initialization-file-is-refused', f'{mod}:{cls} {why}', lambda: I.call(I.getattr(K, 'init_model_from_file'), [], a))


# ----------------------------------------------------------------- records
def records(ctx):
    w = f'{MT}:save_loss_history+read'
    for lr, val, nt, nv, nmax in ((True, True, 3, 3, 12), (True, False, 3, 3, 12), (False, True, 3, 3, 12), (False, False, 3, 3, 12), (True, True, 13, 13, 12),
                                  (True, True, 5, 1, 12), (True, True, 1, 3, 12), (False, True, 4, 7, 2), (True, False, 1, 0, 0), (True, True, 2, 0, 5)):
        I, fs, m, _ = world(ctx, (), ())
        tr = PyList([Num(S(f'l{i}')) for i in range(nt)])
        kw = {}
        if lr:
            kw.update(lr_scheduler_type='explr', lr_history_epochs=PyList([Num(S(f'r{i}')) for i in range(nt)]))
        if val:
            kw.update(validation_loss_history=PyList([Num(S(f'v{i}')) for i in range(nv)]))
        if ctx.run('save', w, lambda: (I.call(I.get(MT, 'save_loss_history'), [m, nmax, 'features_out', 'mse', tr], kw), 1)[1]) is None:
            continue
        new = [k for k in fs.files() if posixpath.basename(k) not in OTHERS or posixpath.basename(k) == 'loss_history_record.pkl']
        ctx.ob('loss-record-in-the-model-directory', f'{w} {lr} {val}', new == [f'{D}/loss_history_record.pkl'], new)
        tr.touch()
        tr.items.append(Num(S('later')))
        r = ctx.run('read', w, lambda: I.call(I.get(MT, 'read_loss_history_from_file'), [f'{D}/loss_history_record.pkl'], {}))
        if r is not None:
            nat, typ, t, v = I.iterate(r)
            ctx.ob('loss-record-is-recovered', f'{w} {lr} {val} {nt} {nv}', (nat, typ) == ('features_out', 'mse') and text(t) == [f'l{i}' for i in range(nt)] and
                   (text(v) == [f'v{i}' for i in range(nv)] if val else I.simp(v) is None), (nat, typ, text(t), text(v)))
        if lr:
            r = ctx.run('read', w, lambda: I.call(I.get(MT, 'read_lr_history_from_file'), [f'{D}/loss_history_record.pkl'], {}))
            if r is not None:
                a, b = I.iterate(r)
                ctx.ob('learning-rate-record-is-recovered', f'{w} {val} {nt}', a == 'explr' and text(b) == [f'r{i}' for i in range(nt)], (a, text(b)))
        else:
            refuse(ctx, 'missing-learning-rate-record-is-refused', f'{MT}:read_lr_history_from_file {val} {nt}', lambda: I.call(I.get(MT, 'read_lr_history_from_file'), [f'{D}/loss_history_record.pkl'], {}))
    I, fs, m, _ = world(ctx)
    for f in ('read_loss_history_from_file', 'read_lr_history_from_file'):
        refuse(ctx, 'missing-record-is-refused', f'{MT}:{f}', lambda: I.call(I.get(MT, f), ['/run/none.pkl'], {}))


def parameters(ctx):
    for mod in ('model_architectures.rc_base_model.train.training', 'model_architectures.hybrid_base_model.train.training',
                'material_model_finder.train.training'):
        I, fs, m, _ = world(ctx, (), (), extra=())
        w = f'{mod}'
        h = PyDict([('E', PyList([Num(S('E0')), Num(S('E1'))])), ('v', PyList([Num(S('v0')), Num(S('v1'))]))])
        b = PyDict([('E', (Num(S('El')), Num(S('Eu')))), ('v', (Num(S('vl')), Num(S('vu'))))])
        best = PyDict([('E', Num(S('Eb'))), ('v', Num(S('vb')))])
        for sv, rd, x, nm in (('save_parameters_history', 'read_parameters_history_from_file', h, 'parameters_history_record.pkl'),
                              ('save_best_parameters', 'read_best_parameters_from_file', best, 'parameters_best.pkl')):
            if ctx.run('save', f'{w}:{sv}', lambda: (I.call(I.get(mod, sv), [m, x, b], {}), 1)[1]) is None:
                continue
            p = f'{D}/{nm}'
            ctx.ob('parameters-record-in-the-model-directory', f'{w}:{sv}', fs.isfile(p), list(fs.files()))
            if not fs.isfile(p):
                continue
            r = ctx.run('read', f'{w}:{rd}', lambda: I.call(I.get(mod, rd), [p], {}))
            if r is not None:
                u, v = I.iterate(r)
                ctx.ob('parameters-record-is-recovered', f'{w}:{sv}+{rd}', text(u) == text(x) and text(v) == text(b), (text(u), text(v)))
            refuse(ctx, 'missing-record-is-refused', f'{w}:{rd}', lambda: I.call(I.get(mod, rd), [f'{D}/none.pkl'], {}))


# ----------------------------------------------------------------- directories and files
def directories(ctx):
    f = f'{IO}:make_directory'
    for n in range(4):
        for ow in (True, False):
            I = ctx.interp()
            fs = FS(I, dirs=['/out'] + ['/out/a' + (f'_{i}' if i else '') for i in range(n)])
            for i in range(n):
                fs.state.set('/out/a' + (f'_{i}' if i else '') + '/x', f'kept {i}')
            fs.state.set('/out/b', 'sibling')
            b = dict(fs.files())
            r = ctx.run('make', f'{f} {n} {ow}', lambda: I.call(I.get(IO, 'make_directory'), ['/out/a'], dict(is_overwrite=ow)))
            if r is None:
                continue
            want = '/out/a' if ow or n == 0 else f'/out/a_{n}'
            a = dict(fs.files())
            ctx.ob('new-directory-is-returned-and-empty', f'{f} {n} {ow}', r == want and fs.isdir(want) and fs.listdir(want) == [], r)
            gone = {k for k in b if k.startswith('/out/a/')} if ow else set()
            ctx.ob('only-an-overwritten-directory-loses-files', f'{f} {n} {ow}', set(b) - set(a) == gone and set(a) <= set(b), sorted(set(b) - set(a)))
    f = f'{IO}:new_file_path_with_int'
    for n in range(4):
        I = ctx.interp()
        fs = FS(I, dirs=['/out'])
        for i in range(n):
            fs.state.set('/out/data' + (f'_{i}' if i else '') + '.tar.pkl', 'x')
        b = dict(fs.files())
        r = ctx.run('path', f'{f} {n}', lambda: I.call(I.get(IO, 'new_file_path_with_int'), ['/out/data.tar.pkl'], {}))
        if r is not None:
            ctx.ob('fresh-path-of-the-same-kind', f'{f} {n}', isinstance(r, str) and not fs.exists(r) and r.startswith('/out/data') and r.endswith('.pkl') and (n > 0 or r == '/out/data.tar.pkl'), r)
            ctx.ob('no-file-is-touched', f'{f} {n}', dict(fs.files()) == b and not fs.ops())


    # successive requests never meet
    for kind in ('file', 'directory', 'empty directory', 'prediction'):
        for base in ('/out/data.pkl', '/out/run_1', '/out/v1.2/run', '/out/a'):
            I = ctx.interp()
            fs = FS(I, dirs=['/out', '/out/v1.2', '/out/run_10', '/out/p_3'])
            fs.state.set('/out/run_10/x', 'kept')
            made = []
            for q in range(13):
                if kind == 'file':
                    r = ctx.run('path', f'{f} repeated', lambda: I.call(I.get(IO, 'new_file_path_with_int'), [base], {}))
                elif kind == 'prediction':
                    r = ctx.run('path', f'{MP}:make_predictions_subdir repeated', lambda: I.call(I.get(MP, 'make_predictions_subdir'), ['/out/p_3'], {}))
                else:
                    r = ctx.run('path', f'{IO}:make_directory repeated', lambda: I.call(I.get(IO, 'make_directory'), [base], {}))
                if r is None:
                    break
                w = {'file': f, 'prediction': f'{MP}:make_predictions_subdir'}.get(kind, f'{IO}:make_directory')
                ctx.ob('successive-requests-get-different-paths', f'{w} {kind} {base} {q}', isinstance(r, str) and r not in made and r != '/out/run_10', r)
                ctx.ob('nothing-made-before-is-lost', f'{w} {kind} {base} {q}', fs.isfile('/out/run_10/x') and all(fs.exists(x) for x in made) and
                       (kind in ('file', 'empty directory') or all(fs.isfile(f'{x}/kept') for x in made)), '')
                made.append(r)
                if kind == 'file':
                    fs.state.set(r, 'x')
                elif kind in ('directory', 'prediction'):
                    fs.state.set(f'{r}/kept', 'x')
            if kind == 'prediction':
                break


def predictions(ctx):
    f = f'{MP}:make_predictions_subdir'
    for have in ((), (0,), (0, 1), (0, 1, 2), (1,), (0, 2)):
        I = ctx.interp()
        P = '/run/my_predictions_3'
        fs = FS(I, dirs=[P] + [f'{P}/prediction_set_{i}' for i in have])
        for i in have:
            fs.state.set(f'{P}/prediction_set_{i}/prediction_sample_0.pkl', 'kept')
        b = dict(fs.files())
        r = ctx.run('subdir', f'{f} {have}', lambda: I.call(I.get(MP, 'make_predictions_subdir'), [P], {}))
        if r is not None:
            ctx.ob('results-go-to-a-fresh-directory', f'{f} {have}', isinstance(r, str) and posixpath.dirname(r) == P and fs.isdir(r) and fs.listdir(r) == [] and
                   r not in [f'{P}/prediction_set_{i}' for i in have], r)
            ctx.ob('previous-results-are-kept', f'{f} {have}', dict(fs.files()) == b)
        if not have:
            refuse(ctx, 'missing-prediction-directory-is-refused', f, lambda: I.call(I.get(MP, 'make_predictions_subdir'), ['/run/none'], {}))
    w = f'{MP}:save_sample_predictions+load_sample_predictions'
    IDS = (0, 1, 7, 10, 100, 1000, 1007, 12345)
    I = ctx.interp()
    fs = FS(I, dirs=['/run/p'])
    for i in IDS:
        x = PyDict([('features_out', tens(f'f{i}', (2, 2))), ('targets', None if i == 7 else tens(f't{i}', (2, 2)))])
        if ctx.run('save', w, lambda: (I.call(I.get(MP, 'save_sample_predictions'), ['/run/p', i, x], {}), 1)[1]) is None:
            return
    ctx.ob('one-file-per-sample', w, sorted(fs.files()) == sorted(f'/run/p/prediction_sample_{i}.pkl' for i in IDS), sorted(fs.files()))
    for i in IDS:
        r = ctx.run('load', w, lambda: I.call(I.get(MP, 'load_sample_predictions'), [f'/run/p/prediction_sample_{i}.pkl'], {}))
        if r is not None:
            ctx.ob('sample-results-are-recovered', f'{w} {i}', text(r) == text(PyDict([('features_out', tens(f'f{i}', (2, 2))), ('targets', None if i == 7 else tens(f't{i}', (2, 2)))])))
    refuse(ctx, 'missing-results-are-refused', w, lambda: I.call(I.get(MP, 'load_sample_predictions'), ['/run/p/prediction_sample_2.pkl'], {}))
    refuse(ctx, 'missing-results-directory-is-refused', w, lambda: I.call(I.get(MP, 'save_sample_predictions'), ['/run/q', 0, PyDict()], {}))


def search(ctx):
    f = f'{IO}:find_unique_file_with_regex'
    names = ['ss_paths_dataset_n10.pkl', 'notes.txt', 'response_dataset_n5.pkl']
    for rx, want in ((r'^ss_paths_dataset_n[0-9]+\.pkl', names[0]), (r'^response_', names[2]), (r'\.csv$', None), ((r'\.csv$', r'^notes'), names[1]),
                     ((r'^response', r'^ss'), names[2])):
        I = ctx.interp()
        fs = FS(I, dirs=['/d'], files={f'/d/{n}': 'x' for n in names})
        r = ctx.run('find', f'{f} {rx}', lambda: I.call(I.get(IO, 'find_unique_file_with_regex'), ['/d', rx], {}))
        if r is not None:
            a, b = I.iterate(r)
            ctx.ob('matching-file-is-found', f'{f} {rx}', bool(a) == (want is not None) and b == (f'/d/{want}' if want else None), (a, b))
    I = ctx.interp()
    FS(I, dirs=['/d'])
    refuse(ctx, 'missing-search-directory-is-refused', f, lambda: I.call(I.get(IO, 'find_unique_file_with_regex'), ['/e', 'x'], {}))


def summary(ctx):
    f = f'{IO}:write_summary_file'
    I = ctx.interp()
    fs = FS(I, dirs=['/s'], files={'/s/summary.dat': 'old', '/s/x': 'kept'})
    kw = dict(summary_title='Title', device_type='cpu', seed=3, opts=PyDict([('a', 1), ('deep', PyDict([('b', 2)]))]))
    if ctx.run('write', f, lambda: (I.call(I.get(IO, 'write_summary_file'), ['/s'], kw), 1)[1]) is not None:
        t = fs.look('/s/summary.dat')
        ctx.ob('summary-lists-every-entry', f, isinstance(t, str) and all(x in t for x in ('Title', 'device_type', 'cpu', 'seed', '3', 'opts', '"a"', 'deep', '"b"', '2')) and 'old' not in t, t)
        ctx.ob('only-the-summary-is-written', f, sorted(fs.files()) == ['/s/summary.dat', '/s/x'] and fs.look('/s/x') == 'kept')
    refuse(ctx, 'missing-summary-directory-is-refused', f, lambda: I.call(I.get(IO, 'write_summary_file'), ['/none'], {}))
