"""P29 - updating material models from a specimen.  The finder is evaluated with
stand-in material models of every kind (explicit parameters or not, normalised or
not, hybrid with several submodels), on a stand-in specimen and an abstract file
system.  Decided: which parameters and bounds are reported and under which label,
that enforcing bounds and constraints reaches exactly the learnable explicit
parameters and leaves them inside their bounds, that fitted scalers reach exactly the
models that normalise, that weights are used or refused, that stored records hold what
was computed, and that the workflow scripts hand the given specimen over and return
the loss and the data set of that specimen."""
import itertools

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p28 import Frame, call, fun

FLOOR = 40
LIMIT = 200
MD = 'material_model_finder.model.material_discovery'
TP = 'material_model_finder.utilities.torch_parameters'
US = 'user_scripts.global_model_update.'
LP = US + 'material_finder.gen_specimen_local_paths'
TR = US + 'material_finder.train_model'
HO = US + 'optimization.hydra_optimization'
HM = ('model_architectures.hybrid_base_model.model.hybrid_model', 'HybridModel')
C = alg.const
Z = alg.ZERO
F = alg.Fraction
M = '/model'


def groups(tier):
    g = [('labels', labels), ('bounds', bounds), ('constraints', constraints), ('directories', directories), ('weights', weights), ('scalers', scalers), ('loss record', loss_record),
         ('reaction record', reaction_record), ('parameter tree', tree), ('normalisation flags', flags), ('local paths', local_paths), ('training', training), ('optimisation', optimisation)]
    return g


def model(I, tag, pars, explicit=True, norm=False, log=None, bnd=None):
    """Material model with explicit parameters pars: {name: tensor}."""
    r = lambda v: (lambda I, a, k: v() if callable(v) else v)

    def detached(I, a, k):
        n = a[0] if a else k.get('is_normalized_out')
        return PyDict([(p, Num(S(f'{tag}.{p}.{"normalised" if n is not False else "value"}'))) for p in pars])
    at = dict(get_detached_model_parameters=detached, get_model_parameters=r(lambda: PyDict(list(pars.items()), kind='ParameterDict')),
              get_model_parameters_bounds=r(lambda: PyDict([(p, bnd[p][0] if bnd else (Num(S(f'{tag}.{p}.lo')), Num(S(f'{tag}.{p}.hi')))) for p in pars])),
              get_model_parameters_norm_bounds=r(lambda: PyDict([(p, bnd[p][1] if bnd else (Num(C(-1)), Num(C(1)))) for p in pars])), is_normalized_parameters=norm,
              enforce_parameters_constraints=lambda I, a, k: log.append(tag))
    if explicit is not None:
        at['is_explicit_parameters'] = explicit
    if not explicit:
        def no(I, a, k):
            raise AbsRaise('AttributeError', 'model without explicit parameters')
        for n in list(at):
            if n != 'is_explicit_parameters':
                at[n] = no if callable(at[n]) else at[n]
    return fake(I, 'Model', **at)


def hybrid(I, subs):
    def no(I, a, k):
        raise AbsRaise('AttributeError', 'hybrid model without parameters of its own')
    return fake(I, 'Hybrid', base=HM, enforce_parameters_constraints=no, get_model_parameters=no, get_model_parameters_bounds=no, get_model_parameters_norm_bounds=no, get_detached_model_parameters=no, get_hybridized_models_names=lambda I, a, k: PyList([n for n, m in subs]), get_hybridized_models=lambda I, a, k: PyList([m for n, m in subs]),
                is_explicit_parameters=True)


def finder(I, models, **kw):
    f = I.call(I.get(MD, 'MaterialModelFinder'), [M], kw)
    sd = specimen(I)
    call(I, f, 'set_specimen_data', sd, state(I, models))
    return f


def specimen(I, nt=3, d=2, ne=4):
    return fake(I, 'Specimen', check_dirichlet_bc_mesh_hist=lambda I, a, k: None, time_hist=tens('time', (nt,)), get_n_dim=lambda I, a, k: d, specimen_mesh=fake(I, 'Mesh', get_n_elem=lambda I, a, k: ne))


def state(I, models):
    return fake(I, 'State', get_material_models=lambda I, a, k: PyDict(list(models)), update_material_models_device=lambda I, a, k: I.__dict__.setdefault('moved', []).append(a[0]),
                get_strain_formulation=lambda I, a, k: 'infinitesimal')


def par(v):
    return tlib.new([v if isinstance(v, alg.Expr) else C(v)], (), 'float32', 'torch')


def population(I, log=None):
    mk = lambda t, *p, **k: model(I, t, {x: par(S(f'{t}.{x}')) for x in p}, log=log, **k)
    return [('1', mk('A', 'E', 'v')), ('10', hybrid(I, [('rc_a', mk('B', 'E', 's0', norm=True)), ('gru', mk('C', 'w', explicit=None)), ('lin', mk('D', 'w', explicit=False)), ('rc_b', mk('G', 'E'))])),
            ('2', mk('H', 'w', explicit=None)), ('3', mk('K', 'w', explicit=False)), ('4', mk('L', 'E', 'q', norm=True)), ('5', hybrid(I, [('gru', mk('N', 'w', explicit=None))]))]


LABELS = {'model_1_E': 'A.E', 'model_1_v': 'A.v', 'model_10_rc_a_E': 'B.E', 'model_10_rc_a_s0': 'B.s0', 'model_10_rc_b_E': 'G.E', 'model_4_E': 'L.E', 'model_4_q': 'L.q'}


def labels(ctx):
    """Every explicit parameter once, under the label of its model, in physical units, with its own bounds."""
    I = ctx.interp()
    FS(I, dirs=[M])
    w = f'{MD}:MaterialModelFinder.'
    f = ctx.run('finder', w, lambda: finder(I, population(I)))
    if f is None:
        return
    r = ctx.run('parameters', w, lambda: call(I, f, 'get_detached_model_parameters'))
    if r is not None:
        ctx.ob('parameters-of-explicit-models-only', w + 'get_detached_model_parameters', sorted(r.keys()) == sorted(LABELS), r.keys())
        for k, v in LABELS.items():
            if r.has(k):
                ctx.ob('parameter-under-its-label-in-physical-units', f'{w}get_detached_model_parameters {k}', alg.equal(to_expr(r.get(k)), S(f'{v}.value')), r.get(k))
    r = ctx.run('parameters', w, lambda: call(I, f, 'get_model_parameters_bounds'))
    if r is not None:
        ctx.ob('parameters-of-explicit-models-only', w + 'get_model_parameters_bounds', sorted(r.keys()) == sorted(LABELS), r.keys())
        for k, v in LABELS.items():
            if r.has(k):
                b = [to_expr(x) for x in I.iterate(r.get(k))]
                ctx.ob('bounds-under-the-label-of-their-parameter', f'{w}get_model_parameters_bounds {k}', len(b) == 2 and alg.equal(b[0], S(f'{v}.lo')) and alg.equal(b[1], S(f'{v}.hi')), b)
    g = ctx.run('parameters', w, lambda: finder(I, []))
    if g is not None:
        for n in ('get_detached_model_parameters', 'get_model_parameters_bounds'):
            r = ctx.run('parameters', w, lambda: call(I, g, n))
            ctx.ob('no-models-no-parameters', w + n, isinstance(r, PyDict) and not r.keys(), r)


def bounds(ctx):
    """After enforcement every explicit parameter lies in its bounds (those of its own scale) and one that already does is unchanged."""
    w = f'{MD}:MaterialModelFinder.enforce_parameters_bounds'
    cases = [(v, lo, hi) for lo, hi in ((1, 3), (-4, F(-1, 2)), (0, 0)) for v in (lo - 2, lo, F(lo + hi) / 2, hi, hi + 5)]
    for (a, b), in_hybrid in itertools.product(zip(cases, cases[3:] + cases[:3]), (False, True)):
        for norm in (False, True):
            I = ctx.interp()
            FS(I, dirs=[M])
            other = (Num(C(100)), Num(C(200)))
            num = lambda q: (Num(C(q[1])), Num(C(q[2])))
            P = {'x': par(a[0]), 'y': par(b[0])}
            bnd = {'x': (other, num(a)) if norm else (num(a), other), 'y': (other, num(b)) if norm else (num(b), other)}
            m = model(I, 'm', P, norm=norm, bnd=bnd, log=[])
            P2 = {'x': par(7)}
            o = model(I, 'o', P2, norm=not norm, bnd={'x': ((Num(C(7)), Num(C(7))), (Num(C(7)), Num(C(7))))}, log=[])
            P3 = {'x': par(S('free'))}
            n = model(I, 'n', P3, explicit=False, log=[])
            models = [('1', hybrid(I, [('q', n), ('r', m), ('s', o)]))] if in_hybrid else [('1', n), ('2', m), ('3', o)]
            f = ctx.run('finder', w, lambda: finder(I, models))
            if f is None or ctx.run('bounds', w, lambda: (call(I, f, 'enforce_parameters_bounds'), 1)) is None:
                continue
            ww = f'{w} hybrid={in_hybrid} normalised={norm}'
            for k, (v, lo, hi) in (('x', a), ('y', b)):
                ctx.ob('parameter-is-brought-into-its-bounds', f'{ww} {v} in [{lo}, {hi}]', alg.equal(to_expr(P[k]), C(min(max(v, lo), hi))), to_expr(P[k]))
            ctx.ob('other-parameters-keep-their-values', ww, alg.equal(to_expr(P2['x']), C(7)) and alg.equal(to_expr(P3['x']), S('free')), '')


def constraints(ctx):
    I = ctx.interp()
    FS(I, dirs=[M])
    w = f'{MD}:MaterialModelFinder.enforce_parameters_constraints'
    log = []
    f = ctx.run('finder', w, lambda: finder(I, population(I, log)))
    if f is not None and ctx.run('constraints', w, lambda: (call(I, f, 'enforce_parameters_constraints'), 1)):
        ctx.ob('constraints-of-every-explicit-model', w, sorted(log) == ['A', 'B', 'G', 'L'], log)


def directories(ctx):
    I = ctx.interp()
    fs = FS(I, dirs=[M], files={f'{M}/material_models/old.txt': 'x', f'{M}/keep.txt': 'y'})
    w = f'{MD}:MaterialModelFinder'
    pop = population(I)
    f = ctx.run('finder', w, lambda: finder(I, pop))
    if f is not None:
        ds = {k: m.attrs.get('model_directory') for k, m in pop}
        ctx.ob('every-model-has-its-own-directory', w, len(set(ds.values())) == len(ds) and all(d == f'{M}/material_models/model_{k}' and fs.isdir(d) for k, d in ds.items()), ds)
        ctx.ob('other-files-are-kept', w, fs.look(f'{M}/keep.txt') == 'y', '')
    refuse(ctx, 'missing-directory-is-refused', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), ['/none'], {}))
    refuse(ctx, 'name-is-a-string', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M, 3], {}))
    refuse(ctx, 'unknown-loss-is-refused', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], dict(force_equilibrium_loss_type='other')))
    I.stubs['lib:warnings.warn'] = lambda I, a, k: None
    for t, ask in itertools.product(('pointwise', 'dirichlet_sets'), (False, True)):
        f = ctx.run('finder', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], dict(force_equilibrium_loss_type=t, is_compute_sets_reaction_hist=ask)))
        if f is not None:
            v = f.attrs.get('_is_compute_sets_reaction_hist')
            ctx.ob('set-reactions-only-with-sets', f'{w} {t} {ask}', v is None or I.simp(v) is (ask and t == 'dirichlet_sets'), v)


def weights(ctx):
    """Loss weights are the given ones, one each by default, and anything else is refused."""
    w = f'{MD}:MaterialModelFinder.set_specimen_data'
    for nm, v in (('given', 't'), ('default', None)):
        I = ctx.interp()
        FS(I, dirs=[M])
        f = ctx.run('finder', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], {}))
        if f is None:
            continue
        t = tens('w', (3,)) if v else None
        if ctx.run('weights', w, lambda: (call(I, f, 'set_specimen_data', specimen(I), state(I, []), loss_time_weights=t, loss_scaling_factor=Num(S('scale'))), 1)) is None:
            continue
        got = f.attrs.get('_loss_time_weights')
        if isinstance(got, Tensor):
            ctx.same('weights-of-the-loss', f'{w} {nm}', got, t if v else const_t([1, 1, 1]))
    I = ctx.interp()
    FS(I, dirs=[M])
    f = ctx.run('finder', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], {}))
    if f is not None:
        for nm, bad in (('list', PyList([Num(C(F(1, 3)))] * 3)), ('tuple', (Num(C(1)), Num(C(2)), Num(C(3)))), ('array', tens('w', (3,), 'float64', 'np')), ('too few', tens('w', (2,))), ('too many', tens('w', (4,))), ('one', tens('w', (1,))), ('matrix', tens('w', (3, 1)))):
            refuse(ctx, 'weights-that-cannot-be-used-are-refused', f'{w} {nm}', lambda: call(I, f, 'set_specimen_data', specimen(I), state(I, []), loss_time_weights=bad))
    f = ctx.run('finder', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], dict(is_force_normalization=True)))
    if f is not None:
        lo, hi = tens('lo', (2,)), tens('hi', (2,))
        for a, b in ((None, None), (lo, None), (None, hi)):
            refuse(ctx, 'normalisation-needs-both-limits', f'{w} {a is not None} {b is not None}', lambda: call(I, f, 'set_specimen_data', specimen(I), state(I, []), force_minimum=a, force_maximum=b))
        if ctx.run('weights', w, lambda: (call(I, f, 'set_specimen_data', specimen(I), state(I, []), force_minimum=lo, force_maximum=hi), 1)):
            s = f.attrs['_data_scalers'].get('forces') if isinstance(f.attrs.get('_data_scalers'), PyDict) else None
            if isinstance(s, Instance):
                x = tens('x', (1, 2))
                y = ctx.run('weights', w, lambda: call(I, s, 'transform', x))
                if y is not None:
                    L, H = ex(lo), ex(hi)
                    ctx.same('forces-are-scaled-with-the-given-limits', w, y, tlib.new([C(2) * (S(f'x[{j}]') - L[j]) / (H[j] - L[j]) - C(1) for j in range(2)], (1, 2), 'float32', 'torch'))


def scalers(ctx):
    """Fitted scalers reach exactly the models that normalise, each with its own type and parameters."""
    I = ctx.interp()
    FS(I, dirs=[M])
    w = f'{MD}:MaterialModelFinder.set_material_models_fitted_data_scalers'
    log = []
    I.stubs['model_architectures.procedures.model_data_scaling.set_fitted_data_scalers'] = lambda I, a, k: log.append((a, k))
    mk = lambda i, o: fake(I, 'Model', is_model_in_normalized=i, is_model_out_normalized=o)
    models = [('1', fake(I, 'Model')), ('2', mk(True, True)), ('3', mk(False, False)), ('4', mk(False, True)), ('5', mk(True, False))]
    f = ctx.run('finder', w, lambda: finder(I, models))
    if f is None:
        return
    types = PyDict([(k, f'type{k}') for k in ('2', '4', '5')])
    pars = PyDict([(k, PyDict([('features_in', f'p{k}')])) for k in ('2', '4', '5')])
    if ctx.run('scalers', w, lambda: (call(I, f, 'set_material_models_fitted_data_scalers', types, pars), 1)):
        got = []
        for a, k in log:
            v = dict(zip(('model', 'scaling_type', 'scaling_parameters'), a), **k)
            got.append((next((n for n, m in models if m is v['model']), None), v['scaling_type'], v['scaling_parameters'].get('features_in')))
        ctx.ob('scalers-of-the-models-that-normalise', w, sorted(got, key=str) == [(k, f'type{k}', f'p{k}') for k in ('2', '4', '5')], got)
    g = ctx.run('finder', w, lambda: I.call(I.get(MD, 'MaterialModelFinder'), [M], {}))
    if g is not None:
        refuse(ctx, 'specimen-comes-first', w, lambda: call(I, g, 'set_material_models_fitted_data_scalers', types, pars))


def flags(ctx):
    I = ctx.interp()
    K = I.get(MD, 'MaterialModelFinder')
    for n in ('in', 'out'):
        for v in (True, False, None):
            o = fake(I, 'Model', **({f'is_model_{n}_normalized': v} if v is not None else {}), **{f'is_model_{"out" if n == "in" else "in"}_normalized': not v})
            r = ctx.run('flags', n, lambda: call(I, K, f'check_model_{n}_normalized', o))
            ctx.ob('normalisation-flag-of-the-model', f'{MD}:MaterialModelFinder.check_model_{n}_normalized {v}', I.simp(r) is bool(v), r)


def plots(I):
    log = []
    for nm in ('plot_xy_data', 'plot_xny_data'):
        I.stubs['ioput.plots.' + nm] = lambda I, a, k, nm=nm: log.append((nm, a, k)) or (fake(I, 'Figure'), fake(I, 'Axes'))
    I.stubs['ioput.plots.save_figure'] = lambda I, a, k: log.append(('save', a, k))
    return log


def plotted(ctx, w, log, series, names):
    """One figure with the given series (or one figure each), saved under its own name."""
    got = [ex(k['data_xy_array'] if 'data_xy_array' in k else a[0]) for n, a, k in log if n != 'save']
    cols = []
    for g in got:
        for j in range(0, len(g[0]), 2):
            cols.append(([r[j] for r in g], [r[j + 1] for r in g]))
    ok = len(cols) == len(series) and all(len(x) == len(s) and all(alg.equal(p, C(i)) for i, p in enumerate(x)) and all(alg.equal(p, q) for p, q in zip(y, s)) for (x, y), s in zip(cols, series))
    ctx.ob('figure-shows-the-stored-history', w, ok, f'{len(cols)} series')
    fn = [a[1] if len(a) > 1 else k.get('filename') for n, a, k in log if n == 'save']
    ctx.ob('figures-have-their-own-names', w, fn == names, fn)


def loss_record(ctx):
    w = f'{MD}:MaterialModelFinder.store_force_equilibrium_loss_components_hist'
    for plot in (True, False):
        I = ctx.interp()
        fs = FS(I, dirs=[M])
        f = ctx.run('finder', w, lambda: finder(I, []))
        if f is None:
            return
        log = plots(I)
        h = tens('h', (3, 4))
        if ctx.run('record', w, lambda: (call(I, f, 'store_force_equilibrium_loss_components_hist', h, is_plot=plot), 1)) is None:
            continue
        p = f'{M}/force_equilibrium_loss_components/force_equilibrium_loss_data.pkl'
        r = fs.look(p) if fs.isfile(p) else None
        if not ctx.ob('record-is-stored', f'{w} {plot}', isinstance(r, PyDict) and r.has('force_equilibrium_loss_components_hist'), r):
            continue
        ctx.same('record-holds-the-history', f'{w} {plot}', r.get('force_equilibrium_loss_components_hist'), tens('h', (3, 4), 'float32', 'np'))
        if plot:
            plotted(ctx, w, log, ex(h), ['force_equilibrium_loss_components_hist'])
            lab = [k.get('data_labels') for n, a, k in log if n != 'save']
            ctx.ob('figure-labels', w, len(lab) == 1 and list(I.iterate(lab[0])) == ['Total', 'Component 1', 'Component 2'], lab)
        else:
            ctx.ob('figure-only-when-asked', w, not log, '')


def reaction_record(ctx):
    w = f'{MD}:MaterialModelFinder.store_dirichlet_sets_reaction_hist'
    for csv, plot, ns in ((True, True, 3), (True, False, 1), (False, False, 2), (False, True, 2)):
        I = ctx.interp()
        fs = FS(I, dirs=[M])
        f = ctx.run('finder', w, lambda: finder(I, []))
        if f is None:
            return
        log = plots(I)
        I.stubs['@fs'] = fs

        def frame(I, a, k):
            v = dict(zip(('data', 'index', 'columns'), a), **k)
            q = ex(v['data'])
            return Frame(I, list(I.iterate(v['columns'])), [x if isinstance(x, list) else [x] for x in q]).h
        I.stubs['lib:pandas.DataFrame'] = frame
        h = tens('h', (ns, 1, 4))
        ww = f'{w} csv={csv} plot={plot} sets={ns}'
        if ctx.run('record', ww, lambda: (call(I, f, 'store_dirichlet_sets_reaction_hist', h, is_export_csv=csv, is_plot=plot), 1)) is None:
            continue
        d = f'{M}/dirichlet_sets_reaction_forces'
        r = fs.look(f'{d}/dirichlet_sets_data.pkl') if fs.isfile(f'{d}/dirichlet_sets_data.pkl') else None
        if ctx.ob('record-is-stored', ww, isinstance(r, PyDict) and r.has('dirichlet_sets_reaction_hist'), r):
            ctx.same('record-holds-the-history', ww, r.get('dirichlet_sets_reaction_hist'), tens('h', (ns, 1, 4), 'float32', 'np'))
        p = f'{d}/dirichlet_reaction_hist_sets.csv'
        ctx.ob('table-only-when-asked', ww, fs.isfile(p) == csv, '')
        if csv and fs.isfile(p):
            c = fs.look(p)
            if ctx.ob('table-has-one-column-per-set', ww, c[0] == 'csv' and c[1] == tuple(f'SET {i}' for i in range(ns)), c[:2]):
                ctx.same('table-holds-the-history', ww, tlib.new([x for q in c[2] for x in q], (len(c[2]), ns), 'float32', 'np'), tlib.new([S(f'h[{i * 4 + t}]') for t in range(4) for i in range(ns)], (4, ns), 'float32', 'np'))
        if plot:
            plotted(ctx, ww, log, [q[0] for q in ex(h)], [f'dirichlet_reaction_hist_set_{i}' for i in range(ns)])
        else:
            ctx.ob('figure-only-when-asked', ww, not log, '')


def tree(ctx):
    """Dictionary of the parameters of a model by the parts of their names, the parameters themselves."""
    I = ctx.interp()
    w = f'{TP}:get_model_parameter_dict'
    names = ('a', 'b.x', 'b.y', 'c.d.e', 'c.d.f', 'c.g', '_models.0.w', '_models.1.w')
    ps = {n: tens(n.replace('.', '_'), (2,)) for n in names}
    m = fake(I, 'Model', named_parameters=lambda I, a, k: PyList([(n, ps[n]) for n in names]))
    r = ctx.run('tree', w, lambda: fun(I, TP, 'get_model_parameter_dict', m))
    if not isinstance(r, PyDict):
        return
    seen = []

    def walk(d, px):
        for k in d.keys():
            v = d.get(k)
            if isinstance(v, PyDict):
                walk(v, px + [k])
            else:
                seen.append('.'.join(px + [k]))
                n = seen[-1]
                ctx.ob('parameter-at-its-place', f'{w} {n}', n in ps and isinstance(v, Tensor) and all(alg.equal(x, y) for x, y in zip(v.vals(), ps[n].vals())), v)
    walk(r, [])
    ctx.ob('every-parameter-once', w, sorted(seen) == sorted(names), seen)


def local_paths(ctx):
    """The specimen of the given files is evaluated on all of its elements; its loss and its data set are returned."""
    w = f'{LP}:gen_specimen_local_dataset'
    for ne, found in ((4, True), (11, True), (4, False)):
        I = ctx.interp()
        sd, st = specimen(I, ne=ne), state(I, [])
        fs = FS(I, dirs=[M, '/d'])
        fs.write('/d/s.pt', sd)
        fs.write('/d/m.pt', st)
        log = []
        ds = fake(I, 'Dataset')

        def mk(I, a, k):
            log.append(('new', dict(zip(('model_directory', 'model_name', 'force_equilibrium_loss_type'), a), **k)))

            def set_(I, a, k):
                log.append(('set', dict(zip(('specimen_data', 'specimen_material_state', 'force_minimum', 'force_maximum', 'loss_scaling_factor', 'loss_time_weights'), a), **k)))

            def run(I, a, k):
                log.append(('forward', a, k))
                if found:
                    fs._mkdirs(f'{M}/local_response_dataset')
                    fs.write(f'{M}/local_response_dataset/ss_paths_dataset_n{ne}.pkl', ds)
                return par(S('loss'))
            o = fake(I, 'Finder', set_specimen_data=set_, forward=run)
            o.attrs['@call'] = run
            return o
        I.stubs['MaterialModelFinder'] = mk
        I.stubs[MD + '.MaterialModelFinder'] = mk
        loaded = []
        I.stubs['time_series_data.time_dataset.load_dataset'] = lambda I, a, k: loaded.append(a[0]) or fs.look(a[0])
        go = lambda: fun(I, LP, 'gen_specimen_local_dataset', '/d/s.pt', '/d/m.pt', M, device_type='cpu')
        if not found:
            refuse(ctx, 'missing-data-set-is-refused', w, go)
            continue
        r = ctx.run('local-paths', w, go)
        if r is None:
            continue
        ev = [x[0] for x in log]
        ctx.ob('one-evaluation-after-the-specimen-is-set', w, ev == ['new', 'set', 'forward'], ev)
        if ev != ['new', 'set', 'forward']:
            continue
        k = log[0][1]
        els = k.get('local_paths_elements')
        ctx.ob('paths-of-every-element', f'{w} {ne}', I.simp(k.get('is_store_local_paths', False)) is True and sorted(I.as_int(x) for x in I.iterate(els)) == list(range(1, ne + 1)), els)
        ctx.ob('model-directory-and-device', w, k.get('model_directory') == M and k.get('device_type') == 'cpu' and I.__dict__.get('moved') == ['cpu'], k.get('model_directory'))
        v = log[1][1]
        ctx.ob('specimen-of-the-given-files', w, v['specimen_data'] is sd and v['specimen_material_state'] is st, '')
        wt = v.get('loss_time_weights')
        ctx.ob('weights-are-usable', w, wt is None or isinstance(wt, Tensor), wt)
        ctx.ob('loss-and-data-set-of-the-evaluation', w, r[0] is ds and alg.equal(to_expr(r[1]), S('loss')) and loaded == [f'{M}/local_response_dataset/ss_paths_dataset_n{ne}.pkl'], r)


def training(ctx):
    """The specimen of the given files is trained on, in the given directory, with weights the finder accepts."""
    w = f'{TR}:perform_model_standard_training'
    I = ctx.interp()
    sd, st = specimen(I), state(I, [])
    fs = FS(I, dirs=[M, '/d'])
    fs.write('/d/s.pt', sd)
    fs.write('/d/m.pt', st)
    log = []
    mod = fake(I, 'Model')

    def train(I, a, k):
        log.append(dict(zip(('n_max_epochs', 'specimen_data', 'specimen_material_state', 'model_init_args', 'lr_init'), a), **k))
        return (mod, Num(S('best')), 3)
    I.stubs['material_model_finder.train.training.train_model'] = train
    after = []
    for n in ('generate_standard_training_plots', 'generate_model_parameters_plots'):
        I.stubs[f'{TR}.{n}'] = lambda I, a, k, n=n: after.append((n, a[0]))
    I.stubs['model_architectures.procedures.model_summary.get_model_summary'] = lambda I, a, k: after.append(('summary', a[0])) or PyDict()
    if ctx.run('training', w, lambda: (fun(I, TR, 'perform_model_standard_training', '/d/s.pt', '/d/m.pt', M, device_type='cpu'), 1)) is None:
        return
    if not ctx.ob('one-training', w, len(log) == 1, len(log)):
        return
    k = log[0]
    ctx.ob('specimen-of-the-given-files', w, k['specimen_data'] is sd and k['specimen_material_state'] is st and I.__dict__.get('moved') == ['cpu'], '')
    ctx.ob('model-directory-and-device', w, k['model_init_args'].get('model_directory') == M and k['model_init_args'].get('device_type') == 'cpu' and k.get('device_type') == 'cpu', '')
    wt = k.get('loss_time_weights')
    ctx.ob('weights-are-usable', w, wt is None or isinstance(wt, Tensor) and wt.lib == 'torch' and len(wt.shape) == 1, wt)
    ctx.ob('records-of-this-training-are-shown', w, ('generate_standard_training_plots', M) in after and (I.simp(k.get('is_explicit_model_parameters', False)) is False or ('generate_model_parameters_plots', M) in after), after)


def optimisation(ctx):
    """The objective of a job is the loss of the specimen with the parameters of the job."""
    w = f'{HO}:hydra_wrapper'
    I = ctx.interp()
    src = '/src'
    fs = FS(I, dirs=['/job', src, src + '/specimen_history_data'], files={f'{src}/spec.inp': 'mesh', f'{src}/specimen_history_data/spec_tstep_0.csv': 'h0', f'{src}/specimen_history_data/spec_tstep_1.csv': 'h1'})
    keys = ('E', 'v', 's0', 'a', 'b')
    cfg = fake(I, 'Cfg', **{k: Num(S(f'cfg.{k}')) for k in keys}, items=lambda I, a, k: PyList([(x, Num(S(f'cfg.{x}'))) for x in keys]), keys=lambda I, a, k: PyList(list(keys)))
    out, seen = [], []

    def main(I, a, k):
        def deco(I, a, k):
            f = a[0]
            return Native(lambda I, a, k: out.append(I.call(f, [cfg], {})), 'hydra_optimizer')
        return Native(deco, 'decorator')
    I.stubs['lib:hydra.main'] = main
    I.stubs['lib:hydra.core.hydra_config.HydraConfig.get'] = lambda I, a, k: fake(I, 'HydraCfg')
    I.stubs['model_architectures.rnn_base_model.optimization.hydra_optimization_template.display_hydra_job_header'] = lambda I, a, k: ('sweeper', 'optimizer', '/job')

    def gen(I, a, k):
        names = ('specimen_name', 'specimen_raw_dir', 'specimen_inp_path', 'specimen_history_paths', 'strain_formulation', 'problem_type', 'n_dim', 'model_name', 'model_parameters', 'model_kwargs', 'training_dataset_dir')
        v = dict(zip(names, a), **k)
        v['files'] = [fs.look(v['specimen_inp_path'])] + [fs.look(x) for x in I.iterate(v['specimen_history_paths'])]
        seen.append(v)
        p = [v['training_dataset_dir'] + '/' + x for x in ('specimen_data.pt', 'specimen_material_state.pt')]
        for x in p:
            fs.write(x, 'pt')
        return tuple(p)
    I.stubs[US + 'material_finder.gen_specimen_data.gen_specimen_dataset'] = gen

    def loc(I, a, k):
        v = dict(zip(('specimen_data_path', 'specimen_material_state_path', 'model_directory'), a), **k)
        seen.append(v)
        fs._mkdirs(v['model_directory'] + '/local_response_dataset')
        return (fake(I, 'Dataset'), par(S('loss')))
    I.stubs[LP + '.gen_specimen_local_dataset'] = loc
    summ = []
    I.stubs['ioput.iostandard.write_summary_file'] = lambda I, a, k: summ.append((a, k))
    if ctx.run('optimisation', w, lambda: (fun(I, HO, 'hydra_wrapper', 'spec', src, device_type='cpu'), 1)) is None:
        return
    if not ctx.ob('one-evaluation-per-job', w, len(out) == 1 and len(seen) == 2, (len(out), len(seen))):
        return
    ctx.ob('objective-is-the-loss-of-the-job', w, alg.equal(to_expr(out[0]), S('loss')), out)
    g, l = seen
    ctx.ob('specimen-of-the-job', w, g['specimen_name'] == 'spec' and g['files'] == ['mesh', 'h0', 'h1'] and str(g['training_dataset_dir']).startswith('/job/') and [l['specimen_data_path'], l['specimen_material_state_path']] == [g['training_dataset_dir'] + '/' + x for x in ('specimen_data.pt', 'specimen_material_state.pt')], g['files'])
    mp = g['model_kwargs'].get('material_model_parameters') if isinstance(g['model_kwargs'], PyDict) else None
    for nm, p in (('model_parameters', g['model_parameters']), ('material_model_parameters', mp)):
        if isinstance(p, PyDict):
            flat = {}
            for k in p.keys():
                v = p.get(k)
                for q, x in ([(y, v.get(y)) for y in v.keys()] if isinstance(v, PyDict) else [(k, v)]):
                    flat[q] = x
            bad = [k for k in keys if k in flat and not (isinstance(flat[k], (Num, Tensor)) and alg.equal(to_expr(flat[k]), S(f'cfg.{k}')))]
            ctx.ob('parameters-of-the-job-reach-the-model', f'{w} {nm}', not bad and 'E' in flat and 'v' in flat, bad)
    ctx.ob('source-files-are-kept', w, fs.look(f'{src}/spec.inp') == 'mesh' and fs.isfile(f'{src}/specimen_history_data/spec_tstep_1.csv'), '')
    if len(summ) == 1:
        k = summ[0][1]
        ctx.ob('summary-of-the-job', w, k.get('summary_directory', (summ[0][0] or [None])[0]) == '/job' and all(k.get(x) is not None and alg.equal(to_expr(k[x]), S(f'cfg.{x}')) for x in keys), k)
