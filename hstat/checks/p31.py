"""P31 - local model updating with temperature and composition dependent data.  The
data generation is evaluated with stand-in strain path generators, material model and
response generator whose values tell which path, material parameters and trial they come
from, random numbers are unrestricted values between their bounds, and files live in an
abstract file system; stored samples are compared with the pair, type, path and model
they record.  The parameter laws are compared as algebraic expressions of temperature
and composition.  Assembly is evaluated on labelled samples and must keep each one
exactly once; model updating must be handed the assembled files and remove nothing but
its temporary directories."""
import itertools

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p15 import item, size

FLOOR = 30
M = 'user_scripts.complete_pipelines.local_model_update'
EV = 'user_scripts.complete_pipelines.evaluate_gru_model'
TD = 'time_series_data.time_dataset'
C = alg.const
F = alg.Fraction
Z = alg.ZERO
L = '/lmu/local_model_update'
BASE = 'ss_paths_dataset'
DIRS = {'training': '1_training_dataset', 'validation': '2_validation_dataset', 'testing_id': '5_testing_id_dataset'}


def groups(tier):
    return [('parameters', parameters), ('refused', refused), ('generate', generate), ('trials', trials), ('assemble', assemble), ('updating', updating), ('directories', directories), ('figures', figures), ('evaluation', evaluation), ('uniaxial stress', uniaxial)]


def fun(I, n, *a, **k):
    return I.call(I.get(M, n), list(a), k)


def quiet(I):
    st = I.stubs
    st['lib:tqdm.tqdm'] = lambda I, a, k: a[0]
    st['lib:time.time'] = lambda I, a, k: Num(C(1))
    st['lib:builtins.print'] = lambda I, a, k: None
    st['lib:datetime.timedelta'] = lambda I, a, k: '0:00:00'
    st['lib:warnings.warn'] = lambda I, a, k: None


# ----------------------------------------------------------------- parameters
def law(T, c):
    """Published fit: moduli (MPa), initial yield stress and slope, at temperature T and composition c."""
    t, x = (T - 325) / F('180.606'), (c - F('0.5')) / F('0.3168')
    E = ((F('20.186') * x + F('135.546')) + (F('0.936') * x - F('8.489')) * t) * 1000
    G = ((F('8.843') * x + F('52.891')) + (F('0.405') * x - F('3.34')) * t) * 1000
    A = F('39.738') * x * x - F('47.582') * x + F('25.107')
    k = -F('0.091') * x * x + F('0.018') * x + F('0.883')
    B = F('20.025') * x ** 4 + F('29.518') * x ** 3 - F('121.669') * x * x - F('74.391') * x + F('541.225')
    import math
    s0 = float(A) * math.exp(-float(k * t)) + float(B)
    s1 = (F('2213.1') * x + F('7253.7')) + (-F('57.7') * x - F('68.7')) * t
    return float(E), float(E / (2 * G) - 1), s0, float(s1)


def near(a, b):
    return abs(a - b) <= 1e-6 * max(abs(b), 1e-3)


def parameters(ctx):
    w0 = f'{M}:get_model_parameters'
    for T, c in itertools.product((25, F('137.5'), 325, 625), (0, F('0.3'), 1)):
        w = f'{w0} T={float(T)} C={float(c)}'
        I = ctx.interp()
        quiet(I)
        made = []
        I.stubs['simulators.fetorch.material.models.standard.hardening.get_hardening_law'] = lambda I, a, k: ('law', a[0])
        p = ctx.run('parameters', w, lambda: fun(I, 'get_model_parameters', 'von_mises', Num(C(T)), Num(C(c))))
        if p is None:
            continue
        E, v, s0, s1 = law(F(T), F(c))
        num = lambda x: float(to_expr(I.simp(x)).fval())
        ctx.ob('elastic-moduli-of-temperature-and-composition', w, near(num(p.get('E')), E) and near(num(p.get('v')), v), (num(p.get('E')), E, num(p.get('v')), v))
        ctx.ob('isotropic', w, p.get('elastic_symmetry') == 'isotropic' and tuple(to_expr(x).fval() for x in I.iterate(p.get('euler_angles'))) == (0, 0, 0), '')
        ctx.ob('hardening-is-given-by-points', w, p.get('hardening_law') == ('law', 'piecewise_linear'), p.get('hardening_law'))
        h = p.get('hardening_parameters').get('hardening_points')
        ok = isinstance(h, Tensor) and h.lib == 'torch' and len(h.shape) == 2 and h.shape[1] == 2 and h.shape[0] >= 2
        if ctx.ob('hardening-points', w, ok, getattr(h, 'shape', h)):
            q = [[float(y.fval()) for y in r] for r in ex(h)]
            ctx.ob('hardening-starts-at-the-initial-yield-stress', w, q[0][0] == 0 and near(q[0][1], s0), (q[0], s0))
            ctx.ob('hardening-is-linear-with-its-slope', w, all(a[0] < b[0] for a, b in zip(q, q[1:])) and all(near(r[1], s0 + s1 * r[0]) for r in q), s1)
            ctx.ob('hardening-covers-large-strains', w, q[-1][0] >= 1, q[-1])
        # the material is built from these parameters
        I.stubs['VonMises'] = lambda I, a, k: made.append(dict(zip(('strain_formulation', 'problem_type', 'model_parameters'), a), **k)) or 'model'
        r = ctx.run('parameters', f'{M}:set_data_material_model', lambda: fun(I, 'set_data_material_model', 'infinitesimal', 4, 'von_mises', Num(C(T)), Num(C(c))))
        if r is not None:
            m, s = I.iterate(r)
            ok = m == 'model' and len(made) == 1 and made[0]['strain_formulation'] == 'infinitesimal' and made[0]['problem_type'] == 4
            ctx.ob('material-has-the-parameters-of-its-pair', f'{w} model', ok and near(num(made[0]['model_parameters'].get('E')), E) and near(num(made[0]['model_parameters'].get('v')), v), made)
            ctx.ob('state-features', f'{w} model', isinstance(s, PyDict) and list(s.keys()) == ['acc_p_strain'] and s.get('acc_p_strain') == 1, s)


def refused(ctx):
    I = ctx.interp()
    quiet(I)
    f = f'{M}:get_model_parameters'
    for T, c in ((24, F(1, 2)), (626, F(1, 2)), (100, -F(1, 100)), (100, F(101, 100))):
        refuse(ctx, 'outside-of-the-fit-is-refused', f'{f} T={T} C={float(c)}', lambda: fun(I, 'get_model_parameters', 'von_mises', Num(C(T)), Num(C(c))))
    refuse(ctx, 'unknown-model-is-refused', f, lambda: fun(I, 'get_model_parameters', 'tresca', Num(C(100)), Num(C(F(1, 2)))))
    refuse(ctx, 'unknown-model-is-refused', f'{M}:set_data_material_model', lambda: fun(I, 'set_data_material_model', 'infinitesimal', 4, 'tresca', Num(C(100)), Num(C(F(1, 2)))))
    refuse(ctx, 'unknown-path-type-is-refused', f'{M}:set_strain_path_generator', lambda: fun(I, 'set_strain_path_generator', 'infinitesimal', 3, ('11',), strain_path_type='cyclic'))


# ----------------------------------------------------------------- generation
class World:
    def __init__(self, ctx, d=3, fail=lambda k: False):
        I = self.I = ctx.interp()
        quiet(I)
        self.fs = FS(I, dirs=['/lmu', L])
        self.d, self.paths, self.models, self.gens, self.draws, self.calls, self.plots = d, [], [], [], [], [], []
        st = I.stubs
        self.order = ('11', '22', '12') if d == 2 else ('11', '22', '33', '12', '23', '13')
        n = len(self.order)

        def cls(kind):
            def new(I, a, k):
                self.gens.append((kind, dict(zip(('strain_formulation', 'n_dim'), a), **k)))

                def gen(I, a, k):
                    i = len(self.paths)
                    T = 2 + i % 2
                    self.paths.append((kind, k))
                    return (self.order, tens(f't{i}', (T,), 'float64', 'np'), tens(f'e{i}', (T, n), 'float64', 'np'))
                return fake(I, kind, generate_strain_path=gen)
            return new
        st['RandomStrainPathGenerator'] = cls('random')
        st['ProportionalStrainPathGenerator'] = cls('proportional')

        def material(I, a, k):
            v = dict(zip(('strain_formulation', 'problem_type', 'model_name', 'temperature', 'composition'), a), **k)
            o = fake(I, 'Material')
            self.models.append((o, v))
            return (o, PyDict([('acc_p_strain', 1)]))
        st[M + '.set_data_material_model'] = material

        def response(I, a, k):
            def stress(I, a, k):
                v = dict(zip(('strain_comps_order', 'time_hist', 'strain_path', 'constitutive_model'), a), **k)
                x = v['strain_path']
                own = [j for j, (o, _) in enumerate(self.models) if o is v['constitutive_model']]
                T = x.shape[0]
                q = len(self.calls)
                self.calls.append((own[0] if own else None, list(x.vals()), list(v['time_hist'].vals()), v))
                r = lambda nm, m: tens(f'{nm}{q}', (T, m), 'float64', 'np')
                return (self.order, r('s', n), PyDict([('acc_p_strain', r('a', 1))]), fail(q))
            self.gens.append(('response', dict(zip(('strain_formulation', 'problem_type'), a), **k)))
            return fake(I, 'Response', compute_stress_path=stress)
        st['MaterialResponseDatasetGenerator'] = response

        def uniform(I, a, k):
            s = S(f'u{len(self.draws)}')
            self.draws.append((s, to_expr(I.simp(a[0])), to_expr(I.simp(a[1]))))
            return Num(s)
        st['lib:random.uniform'] = uniform
        st['user_scripts.synthetic_data.gen_response_dataset.generate_dataset_plots'] = lambda I, a, k: self.plots.append((a, k))

    def run(self, T, Cs, n, ratio, **k):
        return fun(self.I, 'generate_material_data', L, 'infinitesimal', 4 if self.d == 3 else 1, 'von_mises', temperatures=PyList([Num(C(x)) for x in T]), compositions=PyList([Num(C(x)) for x in Cs]),
                   n_sample_type=PyDict(list(n.items())), rnd_strain_path_ratio=PyDict([(q, Num(C(v))) for q, v in ratio.items()]), **k)


def close(v, i, n):
    return max(0, i - 1), min(n - 1, i + 1)


def check_data(ctx, w, W, T, Cs, n, ratio, kept=lambda k: k):
    I, fs = W.I, W.fs
    sim = f'{L}/0_simulation'
    want = {f'{sim}/T{float(t):.2f}_C{float(c):.2f}/{q}_dataset/{BASE}_n{m}.pkl' for t in T for c in Cs for q, m in n.items()}
    got = set(p for p in fs.files() if p.endswith('.pkl'))
    ctx.ob('one-data-set-per-pair-and-type', w, got == want, sorted(got ^ want)[:3])
    used = set()
    for (ti, t), (ci, c) in itertools.product(enumerate(T), enumerate(Cs)):
        for q, m in n.items():
            p = f'{sim}/T{float(t):.2f}_C{float(c):.2f}/{q}_dataset/{BASE}_n{m}.pkl'
            if p not in got:
                continue
            ds = fs.look(p)
            v = f'{w} T={float(t)} C={float(c)} {q}'
            if not ctx.ob('requested-number-of-samples', v, isinstance(ds, Instance) and size(I, ds) == m, ds):
                continue
            kinds = []
            for i in range(m):
                s = item(I, ds, i)
                vi = f'{v} sample {i}'
                keys = {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'acc_p_strain', 'time_hist', 'temperature_hist', 'composition_hist'}
                if not ctx.ob('sample-features', vi, isinstance(s, PyDict) and set(s.keys()) == keys, s):
                    continue
                E = s.get('strain_path')
                hit = [k for k, (mo, x, tm, _) in enumerate(W.calls) if [str(y) for y in x] == [str(y) for y in E.vals()]]
                if not ctx.ob('sample-is-one-computed-response', vi, len(hit) == 1 and hit[0] not in used, hit):
                    continue
                k = hit[0]
                used.add(k)
                mo, x, tm, arg = W.calls[k]
                nT = E.shape[0]
                ctx.same('stress-of-its-own-strain-path', vi, s.get('stress_path'), tens(f's{k}', (nT, len(W.order)), 'float64', 'np'))
                ctx.same('state-of-its-own-strain-path', vi, s.get('acc_p_strain'), tens(f'a{k}', (nT, 1), 'float64', 'np'))
                ctx.same('time-of-its-own-strain-path', vi, s.get('time_hist'), tlib.new(tm, (nT, 1), 'float64', 'np'))
                ctx.ob('component-orders', vi, tuple(I.iterate(s.get('strain_comps_order'))) == W.order == tuple(I.iterate(s.get('stress_comps_order'))), '')
                ctx.ob('default-precision', vi, all(s.get(z).dtype == 'float32' and s.get(z).lib == 'torch' for z in keys if not z.endswith('order')), '')
                if not ctx.ob('response-of-a-material', vi, mo is not None, ''):
                    continue
                par = W.models[mo][1]
                for nm, grid, gi, x in (('temperature', T, ti, t), ('composition', Cs, ci, c)):
                    e = to_expr(I.simp(par[nm]))
                    ctx.same('sample-records-what-its-material-was', f'{vi} {nm}', s.get(f'{nm}_hist'), tlib.new([e] * nT, (nT, 1), 'float64', 'np'))
                    if q == 'training':
                        ctx.same('training-samples-are-at-the-pair', f'{vi} {nm}', e, C(x))
                        continue
                    own = [(lo, hi) for z, lo, hi in W.draws if alg.equal(z, e)]
                    a, b = close(None, gi, len(grid))
                    ctx.ob('other-samples-lie-between-neighbouring-values', f'{vi} {nm}', len(own) == 1 and {own[0][0].const(), own[0][1].const()} == {grid[a], grid[b]}, own)
                ctx.ob('material-is-the-requested-one', vi, (par['strain_formulation'], par['problem_type'], par['model_name']) == ('infinitesimal', 4 if W.d == 3 else 1, 'von_mises'), par)
                kinds.append(W.paths[next((j for j in range(len(W.paths)) if str(E.vals()[0]) == f'e{j}[0]'), 0)][0])
            nr = int(F(m) * F(ratio[q]))
            ctx.ob('requested-share-of-random-paths', v, sorted(kinds) == ['proportional'] * (m - nr) + ['random'] * nr, kinds)
    for kind, kw in W.paths[:1] + [x for x in W.paths if x[0] == 'proportional'][:1]:
        b = kw.get('strain_bounds')
        ctx.ob('paths-cover-every-component', f'{w} {kind}', isinstance(b, PyDict) and set(b.keys()) == set(W.order) and all(to_expr(b.get(z)[0]).fval() < to_expr(b.get(z)[1]).fval() for z in b.keys()), b)
    for kind, kw in W.gens:
        ctx.ob('generators-of-the-problem', f'{w} {kind}', kw.get('strain_formulation') == 'infinitesimal' and kw.get('n_dim', W.d) == W.d and kw.get('problem_type', 4 if W.d == 3 else 1) == (4 if W.d == 3 else 1), kw)


def generate(ctx):
    w0 = f'{M}:generate_material_data'
    for d, T, Cs, n, ratio in ((3, (25, 125, 325), (0, F(1, 2)), {'training': 4, 'validation': 2}, {'training': F(3, 4), 'validation': F(1, 2)}),
                               (2, (100,), (0, F(1, 4), F(1, 2), 1), {'testing_id': 3, 'training': 2}, {'testing_id': F(1, 2), 'training': F(1, 2)}),
                               (3, (50, 150, 250, 350), (F(1, 4),), {'validation': 2, 'testing_id': 2, 'training': 5}, {'training': F(1, 4), 'validation': F(1, 2), 'testing_id': F(1, 2)})):
        W = World(ctx, d)
        W.fs._mkdirs(f'{L}/0_simulation/T1.00_C1.00/training_dataset')
        W.fs.write(f'{L}/0_simulation/T1.00_C1.00/training_dataset/{BASE}_n9.pkl', 'old')
        W.fs._mkdirs(f'{L}/1_training_dataset')
        W.fs.write(f'{L}/1_training_dataset/keep.txt', 'x')
        w = f'{w0} {d}D {len(T)}x{len(Cs)} {n}'
        if ctx.run('generate', w, lambda: (W.run(T, Cs, n, ratio, is_save_dataset_plots=d == 2), 1)) is None:
            continue
        ctx.ob('other-data-are-kept', w, W.fs.isfile(f'{L}/1_training_dataset/keep.txt'), '')
        check_data(ctx, w, W, T, Cs, n, ratio)
        ctx.ob('plots-only-if-requested', w, len(W.plots) == (len(T) * len(Cs) * len(n) if d == 2 else 0), len(W.plots))
    for r in (F(1, 8), 1):
        W = World(ctx)
        refuse(ctx, 'missing-path-type-is-refused', f'{w0} ratio={float(r)}', lambda: W.run((100,), (0,), {'training': 4}, {'training': r}, is_save_dataset_plots=False))


def trials(ctx):
    w0 = f'{M}:generate_material_data failed responses'
    bad = {1, 2, 5}
    W = World(ctx, 3, lambda k: k in bad)
    T, Cs, n, ratio = (100, 200), (F(1, 2),), {'training': 2, 'validation': 2}, {'training': F(1, 2), 'validation': F(1, 2)}
    if ctx.run('trials', w0, lambda: (W.run(T, Cs, n, ratio, is_save_dataset_plots=False), 1)) is not None:
        check_data(ctx, w0, W, T, Cs, n, ratio)
        ctx.ob('failed-response-is-drawn-again', w0, len(W.calls) == 8 + len(bad) and len(W.paths) == len(W.calls), len(W.calls))
        S0 = [str(x) for k in bad for x in tens(f's{k}', (1, 1)).vals()]
        for p in W.fs.files():
            if p.endswith('.pkl'):
                ds = W.fs.look(p)
                ctx.ob('failed-response-is-not-stored', f'{w0} {p}', not any(str(item(W.I, ds, i).get('stress_path').vals()[0]) in S0 for i in range(size(W.I, ds))), '')
    for m, ok in ((9, True), (40, False)):
        W = World(ctx, 3, lambda k: k < m)
        go = lambda: W.run((100,), (F(1, 2),), {'training': 2}, {'training': F(1, 2)}, is_save_dataset_plots=False)
        if ok:
            ctx.ob('few-failures-are-tolerated', f'{w0} {m}', ctx.run('trials', f'{w0} {m}', lambda: (go(), 1)) is not None, '')
        else:
            refuse(ctx, 'endless-failures-are-refused', f'{w0} {m}', go)


# ----------------------------------------------------------------- assembly
def assemble(ctx):
    w0 = f'{M}:assemble_material_datasets'
    for types, red, order in ((('training', 'validation', 'testing_id'), None, 'rev'), (('training',), {'training': F(1, 2)}, 'id'), (('validation', 'training'), {'validation': F(1, 4), 'training': F(1)}, 'rot'),
                              (('training',), {'validation': F(1, 2)}, 'rot'), (('training',), {'training': F(3, 2)}, 'id'), (('training',), {'training': None}, 'id'), (('testing_id',), {'testing_id': F(2, 3)}, 'rev')):
        I = ctx.interp()
        quiet(I)
        fs = FS(I, dirs=['/lmu', L])
        K = I.get(TD, 'TimeSeriesDatasetInMemory')
        mk = lambda ids: I.call(K, [PyList([PyDict([('id', i)]) for i in ids])], {})
        # torch data sets
        def view(name, items, **at):
            c = ClassV(name, None, [Lib('torch.utils.data.' + name), Lib('torch.utils.data.Dataset')], {}, None)
            c.ns['__len__'] = Native(lambda I, a, k: len(items), '__len__')

            def get(I, a, k):
                i = I.as_int(I.simp(a[1]))
                if not -len(items) <= i < len(items):
                    raise AbsRaise('IndexError', 'data set index')
                return items[i]
            c.ns['__getitem__'] = Native(get, '__getitem__')
            return Instance(c, dict(at, **{'@fake': True}))
        all_items = lambda ds: [item(I, ds, i) for i in range(size(I, ds))]
        st = I.stubs
        st['lib:torch.utils.data.ConcatDataset'] = lambda I, a, k: view('ConcatDataset', [x for d in I.iterate(a[0] if a else k['datasets']) for x in all_items(d)])
        st['lib:torch.utils.data.Subset'] = lambda I, a, k: (lambda ds, ix: view('Subset', [item(I, ds, i) for i in ix], dataset=ds, indices=PyList(ix)))(a[0], [I.as_int(I.simp(x)) for x in I.iterate(a[1])])
        perm = {'rev': lambda n: list(range(n))[::-1], 'id': lambda n: list(range(n)), 'rot': lambda n: list(range(n))[1:] + [0] * (n > 0)}[order]
        st['lib:torch.randperm'] = lambda I, a, k: const_t(perm(I.as_int(I.simp(a[0]))), 'int64')

        def sample(I, a, k):
            pop = list(I.iterate(a[0]))
            n = I.as_int(I.simp(a[1] if len(a) > 1 else k['k']))
            if n > len(pop) or n < 0:
                raise AbsRaise('ValueError', 'sample larger than population')
            return PyList(pop[::-1][:n])
        st['lib:random.sample'] = sample
        plots = []
        st['user_scripts.synthetic_data.gen_response_dataset.generate_dataset_plots'] = lambda I, a, k: plots.append(k)
        nid, have = 0, {}
        for j, pair in enumerate(('T25.00_C0.00', 'T25.00_C1.00', 'T125.00_C0.00')):
            for q in DIRS:
                dd = f'{L}/0_simulation/{pair}/{q}_dataset'
                fs._mkdirs(dd)
                ids = list(range(nid, nid + 4 + j))
                nid += len(ids)
                have.setdefault(q, []).append(ids)
                fs.write(f'{dd}/{BASE}_n{len(ids)}.pkl', mk(ids))
                fs.write(f'{dd}/summary.dat', 'x')
                fs.write(f'{dd}/other_{BASE}_n3.pkl', mk([900, 901]))
        for q, dn in DIRS.items():
            fs._mkdirs(f'{L}/{dn}')
            fs.write(f'{L}/{dn}/{BASE}_n77.pkl', mk([800]))
        before = {p: fs.look(p) for p in fs.files() if '/0_simulation/' in p}
        r = None if red is None else PyDict([(k, v if v is None else Num(C(v))) for k, v in red.items()])
        w = f'{w0} {",".join(types)} {red}'
        if ctx.run('assemble', w, lambda: (fun(I, 'assemble_material_datasets', L, 'infinitesimal', 4, PyList(list(types)), BASE, size_balanced_reduction=r), 1)) is None:
            continue
        ctx.ob('source-data-sets-are-kept', w, {p: fs.look(p) for p in fs.files() if '/0_simulation/' in p} == before, '')
        ctx.ob('no-plots-unless-requested', w, not plots, '')
        for q, dn in DIRS.items():
            got = [p for p in fs.files() if p.startswith(f'{L}/{dn}/')]
            if q not in types:
                ctx.ob('other-types-are-untouched', f'{w} {q}', got == [f'{L}/{dn}/{BASE}_n77.pkl'], got)
                continue
            if not ctx.ob('one-assembled-data-set', f'{w} {q}', len(got) == 1, got):
                continue
            ids = [I.as_int(I.simp(x.get('id'))) for x in all_items(fs.look(got[0]))]
            f = (red or {}).get(q, 1)
            f = F(1) if f is None or not 0 <= f <= 1 else F(f)
            ctx.ob('no-sample-twice', f'{w} {q}', len(ids) == len(set(ids)), ids)
            ctx.ob('every-data-set-gives-its-share', f'{w} {q}', all(len(set(ids) & set(h)) == int(len(h) * f) for h in have[q]) and set(ids) <= {i for h in have[q] for i in h}, (ids, have[q]))
            ctx.ob('file-is-named-by-its-size', f'{w} {q}', got[0] == f'{L}/{dn}/{BASE}_n{len(ids)}.pkl', got)
            cat = [i for h in have[q] for i in h]
            if f == 1:
                ctx.ob('samples-are-shuffled-as-drawn', f'{w} {q}', len(set(ids)) == len(cat), '')


# ----------------------------------------------------------------- updating
def updating(ctx):
    w = f'{M}:perform_material_model_updating'
    R = 'user_scripts.local_model_update.rnn_material_model.uncertainty_quantification.'
    for train, plot, exists in itertools.product((True, False), (True, False), (True, False)):
        v = f'{w} training={train} plots={plot} results={exists}'
        I = ctx.interp()
        quiet(I)
        fs = FS(I, dirs=['/lmu', L] + [f'{L}/{x}' for x in DIRS.values()] + ([f'{L}/uncertainty_quantification'] if exists else []))
        for q, dn in DIRS.items():
            fs.write(f'{L}/{dn}/{BASE}_n{len(q)}.pkl', q)
        fs.write(f'{L}/notes.txt', 'x')
        if exists:
            fs.write(f'{L}/uncertainty_quantification/old.pkl', 'old')
        log = []
        I.stubs['lib:torch.cuda.is_available'] = lambda I, a, k: False

        def uq(I, a, k):
            k = dict(zip(('uq_directory', 'n_model_sample', 'train_dataset_file_path', 'model_directory', 'predict_directory', 'dataset_file_path'), a), **k)
            log.append(('uq', k, fs.isdir(k['uq_directory']), fs.isdir(k['model_directory']), fs.isdir(k['predict_directory']), fs.isfile(f'{L}/uncertainty_quantification/old.pkl')))
            fs.write(k['uq_directory'] + '/result.pkl', 'r')
        I.stubs[R + 'perform_model_uq'] = uq
        I.stubs[R + 'gen_model_uq_plots'] = lambda I, a, k: log.append(('plots', list(a), k))
        if ctx.run('updating', v, lambda: (fun(I, 'perform_material_model_updating', L, n_model_sample=3, is_model_training=train, is_generate_uq_plots=plot), 1)) is None:
            continue
        if not ctx.ob('one-uncertainty-quantification', v, [x[0] for x in log] == ['uq'] + ['plots'] * plot, [x[0] for x in log]):
            continue
        k = log[0][1]
        f = lambda q: f'{L}/{DIRS[q]}/{BASE}_n{len(q)}.pkl'
        ctx.ob('trained-validated-and-tested-on-the-assembled-data', v, (k['train_dataset_file_path'], k.get('val_dataset_file_path'), k['dataset_file_path']) == (f('training'), f('validation'), f('testing_id')), k)
        ctx.ob('options-are-passed', v, k['n_model_sample'] == 3 and k.get('is_model_training') is train, k)
        ctx.ob('directories-exist', v, all(log[0][2:5]), log[0][2:5])
        ctx.ob('results-are-only-replaced-by-training', v, log[0][5] == (exists and not train), log[0][5])
        left = sorted(p for p in fs.files())
        want = sorted([f(q) for q in DIRS] + [f'{L}/notes.txt', f'{L}/uncertainty_quantification/result.pkl'] + [f'{L}/uncertainty_quantification/old.pkl'] * (exists and not train))
        ctx.ob('nothing-but-temporary-directories-is-removed', v, left == want and sorted(fs.listdir(L)) == sorted(list(DIRS.values()) + ['notes.txt', 'uncertainty_quantification']), left)
    for miss in DIRS:
        I = ctx.interp()
        quiet(I)
        fs = FS(I, dirs=['/lmu', L] + [f'{L}/{x}' for x in DIRS.values()])
        for q, dn in DIRS.items():
            if q != miss:
                fs.write(f'{L}/{dn}/{BASE}_n3.pkl', q)
        I.stubs[R + 'perform_model_uq'] = lambda I, a, k: None
        I.stubs['lib:torch.cuda.is_available'] = lambda I, a, k: False
        refuse(ctx, 'missing-data-are-refused', f'{w} {miss}', lambda: fun(I, 'perform_material_model_updating', L))


def directories(ctx):
    I = ctx.interp()
    quiet(I)
    fs = FS(I, dirs=['/lmu'])
    w = f'{M}:set_lmu_dir'
    r = ctx.run('directory', w, lambda: fun(I, 'set_lmu_dir', '/lmu/'))
    ctx.ob('directory-is-made', w, r == L and fs.isdir(L), r)
    fs.write(f'{L}/a.txt', 'x')
    r = ctx.run('directory', w, lambda: fun(I, 'set_lmu_dir', '/lmu'))
    ctx.ob('existing-directory-is-kept', w, r == L and fs.isfile(f'{L}/a.txt'), r)
    r = ctx.run('directory', w, lambda: fun(I, 'set_lmu_dir', '/lmu', is_overwrite=True))
    ctx.ob('directory-is-emptied-on-request', w, r == L and fs.isdir(L) and not fs.isfile(f'{L}/a.txt'), r)
    refuse(ctx, 'missing-directory-is-refused', w, lambda: fun(I, 'set_lmu_dir', '/none'))
    for n, a in (('set_dependencies_dir', (Num(C(100)), Num(C(F(1, 2))))), ('set_dataset_type_dir', ('training',))):
        refuse(ctx, 'missing-directory-is-refused', f'{M}:{n}', lambda: fun(I, n, '/none', *a))
        ctx.ob('nothing-is-made', f'{M}:{n}', not fs.isdir('/none'), '')
    refuse(ctx, 'missing-data-are-refused', f'{M}:find_dataset_file', lambda: fun(I, 'find_dataset_file', L))


def figures(ctx):
    w = f'{M}:plot_model_parameters'
    I = ctx.interp()
    quiet(I)
    log = []
    I.stubs['ioput.plots.plot_surface_xyz_data'] = lambda I, a, k: log.append((list(a), k)) or (fake(I, 'Figure'), None)
    I.stubs['ioput.plots.save_figure'] = lambda I, a, k: None
    I.stubs['lib:matplotlib.pyplot.close'] = I.stubs['lib:matplotlib.pyplot.show'] = lambda I, a, k: None
    T, Cs = (25, F('137.5'), 625), (0, F('0.3'))
    if ctx.run('figures', w, lambda: (fun(I, 'plot_model_parameters', 'von_mises', temperatures=PyList([Num(C(x)) for x in T]), compositions=PyList([Num(C(x)) for x in Cs])), 1)) is None:
        return
    ref = [[law(F(t), F(c)) for c in Cs] for t in T]
    pick = [lambda q: q[0] / 1000, lambda q: q[1], lambda q: q[2], lambda q: q[3]]
    if not ctx.ob('one-surface-per-parameter', w, len(log) == 4, len(log)):
        return
    for n, (a, k) in enumerate(log):
        x, y, z = (ex(q) for q in a[:3])
        ok = all(near(float(x[i][j].fval()), float(T[i])) and near(float(y[i][j].fval()), float(Cs[j])) and near(float(z[i][j].fval()), pick[n](ref[i][j])) for i in range(len(T)) for j in range(len(Cs)))
        ctx.ob('surface-of-the-parameter', f'{w} {n}', ok, '')


# ----------------------------------------------------------------- evaluation
def ev(I, n, *a, **k):
    return I.call(I.get(EV, n), list(a), k)


def scaled(t, f):
    return tlib.new([f(x) for x in t.vals()], t.shape, t.dtype, 'torch')


def evaluation(ctx):
    """The network sees strains, temperature and composition in its own units and order; its output comes back in original units."""
    for T, nin, nout, extra in itertools.product((1, 3), (False, True), (False, True), (0, 1)):
        w = f'{EV}:forward_material_model gru times={T} normalised={nin},{nout} extra={extra}'
        I = ctx.interp()
        quiet(I)
        seen = []

        def tr(I, a, k):
            v = dict(zip(('model', 'tensor', 'features_type', 'mode'), a), **k)
            return scaled(v['tensor'], lambda x: alg.fn(v['mode'] + '@' + v['features_type'], (alg.as_expr(x),)))
        I.stubs['model_architectures.procedures.model_data_scaling.data_scaler_transform'] = tr

        def net(I, a, k):
            x = a[0]
            seen.append((x, a[1] if len(a) > 1 else k.get('hidden_features_in')))
            r = ex(x)
            return (tlib.new([alg.fn('net', tuple(alg.as_expr(z) for z in r[t]) + (C(j),)) for t in range(x.shape[0]) for j in range(6 + extra)], (x.shape[0], 6 + extra), x.dtype, 'torch'), None)
        m = fake(I, 'Net', is_model_in_normalized=nin, is_model_out_normalized=nout, parameters=lambda I, a, k: PyList([]), __call__=net)
        e = tens('e', (T, 6), 'float32')
        r = ctx.run('evaluation', w, lambda: ev(I, 'forward_material_model', 'gru', m, e, Num(S('T')), Num(S('c'))))
        if r is None:
            continue
        f = lambda x: alg.fn('normalize@features_in', (x,)) if nin else x
        g = lambda x: alg.fn('denormalize@features_out', (x,)) if nout else x
        want = [g(alg.fn('net', tuple(f(S(f'e[{t * 6 + i}]')) for i in range(6)) + (f(S('T')), f(S('c')), C(j)))) for t in range(T) for j in range(6)]
        ctx.same('stress-of-strains-temperature-and-composition', w, r, tlib.new(want, (T, 6), 'float32', 'torch'))
        ctx.ob('network-starts-without-memory', w, len(seen) == 1 and I.simp(seen[0][1]) is None, '')
    I = ctx.interp()
    quiet(I)
    m = fake(I, 'Vm', __call__=lambda I, a, k: scaled(a[0], lambda x: alg.fn('sig', (alg.as_expr(x),))))
    e = tens('e', (2, 6), 'float32')
    r = ctx.run('evaluation', f'{EV}:forward_material_model von_mises', lambda: ev(I, 'forward_material_model', 'von_mises', m, e, Num(S('T')), Num(S('c'))))
    if r is not None:
        ctx.same('stress-of-the-strains', f'{EV}:forward_material_model von_mises', r, scaled(e, lambda x: alg.fn('sig', (alg.as_expr(x),))))
    refuse(ctx, 'unknown-model-is-refused', f'{EV}:forward_material_model', lambda: ev(I, 'forward_material_model', 'other', m, e, Num(S('T')), Num(S('c'))))
    for nm, sh in (('times', (1, 6)), ('components', (2, 5))):
        b = fake(I, 'Bad', __call__=lambda I, a, k: tens('z', sh, 'float32'))
        refuse(ctx, 'other-shape-is-refused', f'{EV}:forward_material_model {nm}', lambda: ev(I, 'forward_material_model', 'von_mises', b, e, Num(S('T')), Num(S('c'))))
    # loading leaves the stored states alone
    log = []
    obj = fake(I, 'Net', set_device=lambda I, a, k: log.append(('device', a[0])), to=lambda I, a, k: None)
    I.stubs['GRURNNModel.init_model_from_file'] = lambda I, a, k: log.append(('init', a, k)) or obj
    I.stubs['model_architectures.procedures.model_state_files.load_model_state'] = lambda I, a, k: log.append(('state', dict(zip(('model', 'model_load_state', 'is_remove_posterior'), a), **k))) or 3
    r = ctx.run('evaluation', f'{EV}:get_gru_material_model', lambda: ev(I, 'get_gru_material_model', '/m', model_load_state='last'))
    st = [x[1] for x in log if x[0] == 'state']
    ctx.ob('requested-state-is-loaded-and-states-are-kept', f'{EV}:get_gru_material_model', r is obj and len(st) == 1 and st[0]['model'] is obj and st[0].get('model_load_state') == 'last' and st[0].get('is_remove_posterior') is False, st)
    # one material per temperature and composition
    made = []
    I.stubs[M + '.get_model_parameters'] = lambda I, a, k: ('par', a[0], str(to_expr(a[1])), str(to_expr(a[2])))
    I.stubs['RecurrentConstitutiveModel'] = lambda I, a, k: made.append((list(a), k)) or 'rc'
    r = ctx.run('evaluation', f'{EV}:get_vm_material_model', lambda: ev(I, 'get_vm_material_model', 'infinitesimal', 4, Num(S('T')), Num(S('c'))))
    if r is not None:
        v = dict(zip(('n_features_in', 'n_features_out', 'learnable_parameters', 'strain_formulation', 'problem_type', 'material_model_name', 'material_model_parameters', 'model_directory'), made[0][0]), **made[0][1]) if made else {}
        ctx.ob('reference-material-of-the-pair', f'{EV}:get_vm_material_model', r == 'rc' and v.get('material_model_parameters') == ('par', 'von_mises', 'T', 'c') and v.get('material_model_name') == 'von_mises' and
               (v.get('n_features_in'), v.get('n_features_out'), v.get('problem_type'), v.get('strain_formulation')) == (6, 6, 4, 'infinitesimal') and len(v.get('learnable_parameters').keys()) == 0, v)


def uniaxial(ctx):
    """Uniaxial stress: the transverse strains cancel the transverse stresses of a history dependent linear material, step by step."""
    w = f'{EV}:get_uniaxial_stress_path'
    K = [[F(v) for v in r] for r in ((10, 4, 3), (2, 8, 4), (3, 4, 12))]
    H = [[F(v) for v in r] for r in ((3, 6, 9), (4, 8, 12), (0, 1, 3))]
    for e33 in ((0, F(1, 8), F(1, 2)), (0, F(1, 4)), (0, -F(1, 2), F(1, 4), F(1, 8)), (0,)):
        v = f'{w} {len(e33)} times'
        I = ctx.interp()
        quiet(I)

        def sig(rows):
            out = []
            for t, r in enumerate(rows):
                p = [sum((rows[q][j] for q in range(t)), Z) for j in range(3)]
                out += [sum((C(K[i][j]) * r[j] + C(H[i][j]) * p[j] for j in range(3)), Z) for i in range(3)] + [C(5) * r[k] for k in (3, 4, 5)]
            return out
        m = fake(I, 'Vm', __call__=lambda I, a, k: tlib.new(sig([[alg.as_expr(x) for x in r] for r in ex(a[0])]), a[0].shape, a[0].dtype, 'torch'))

        def jac(I, a, k):
            f, x = a[0], a[1]
            y = tens('jx', x.shape, x.dtype)
            r = I.call(f, [y], {})
            at = [alg.atom_of(z) for z in y.vals()]
            back = dict(zip(at, [alg.as_expr(z) for z in x.vals()]))
            return tlib.new([alg.subst(alg.diff(alg.as_expr(q), b), back) for q in r.vals() for b in at], (len(r.vals()), len(at)), x.dtype, 'torch')
        I.stubs['lib:torch.autograd.functional.jacobian'] = jac
        r = ctx.run('uniaxial', v, lambda: ev(I, 'get_uniaxial_stress_path', const_t(list(e33), 'float32'), 'von_mises', m, Num(S('T')), Num(S('c'))))
        if r is None:
            continue
        E, s = (ex(q) for q in I.iterate(r))
        if not ctx.ob('one-row-per-time', v, len(E) == len(s) == len(e33) and len(E[0]) == len(s[0]) == 6, ''):
            continue
        f = lambda x: float(x.fval())
        ctx.ob('axial-strain-is-prescribed', v, all(near(f(E[t][2]), float(e33[t])) for t in range(len(e33))), E)
        ctx.ob('no-shear', v, all(abs(f(E[t][k])) < 1e-12 for t in range(len(e33)) for k in (3, 4, 5)), E)
        ctx.ob('transverse-stresses-vanish', v, all(abs(f(s[t][k])) < 1e-6 for t in range(len(e33)) for k in (0, 1)), s)
        ref = sig(E)
        ctx.ob('stress-of-the-strain-path', v, all(abs(f(s[t][k]) - f(ref[6 * t + k])) < 1e-9 for t in range(len(e33)) for k in range(6)), s)
