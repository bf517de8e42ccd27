"""P24 - generated material response data sets.  Data set generation is evaluated
with a stand-in constitutive model whose state is an uninterpreted function of the
previous state and the strain increment: a stored stress or state variable therefore
tells which strain history produced it.  Strain paths, noise, scalers and denoiser
are stand-ins of unrestricted values; failures of the state update are injected."""
import posixpath

from .. import alg
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p15 import item

FLOOR = 60
G = 'user_scripts.synthetic_data.gen_response_dataset'
N = 'user_scripts.synthetic_data.gen_noisy_response_dataset'
GC, NC = 'MaterialResponseDatasetGenerator', 'NoisyMaterialResponseDatasetGenerator'
TD = 'time_series_data.time_dataset'
C = alg.const
Z = alg.ZERO
D = '/data/set'
ORD = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
PT = {1: 2, 2: 2, 4: 3}
MODELS = {'elastic': 'Elastic', 'von_mises': 'VonMises', 'drucker_prager': 'DruckerPrager', 'lou_zhang_yoon': 'LouZhangYoon'}


def groups(tier):
    g = [('components', components), ('norms', norms), ('invariants', invariants), ('models', models), ('refused', refused), ('csv', csv), ('csv refused', csv_refused),
         ('from strains', from_strains), ('equivalent', equivalent), ('stress space', stress_space), ('response path', response_path), ('noisy refused', noisy_refused)]
    for d in (2, 3):
        for c in (GC, NC):
            g.append((f'stress path {c} {d}', lambda ctx, d=d, c=c: stress_path(ctx, c, d)))
            g.append((f'trials {c} {d}', lambda ctx, d=d, c=c: trials(ctx, c, d)))
        g.append((f'noisy {d}', lambda ctx, d=d: noisy(ctx, d)))
        g.append((f'noise weights {d}', lambda ctx, d=d: weights(ctx, d)))
    return g


def MOD(c):
    return G if c == GC else N


def orders(d):
    o = ORD[d]
    return (o, o[::-1], tuple(c[::-1] for c in o))


def sm(order, x, n):
    loc = dict(zip(order, x))
    return [[loc.get(f'{i}{j}', loc.get(f'{j}{i}')) for j in range(1, n + 1)] for i in range(1, n + 1)]


class Model:
    """Stand-in constitutive model.  fail: set of update calls (counted from 0) that fail."""

    def __init__(self, I, d, fail=(), dtype='float32', h0='h0'):
        self.I, self.d, self.fail, self.calls, self.dt = I, d, fail, 0, dtype
        self.bad = []
        self.obj = fake(I, 'StandInModel', get_strain_type=lambda I, a, k: 'finite', state_init=lambda I, a, k: self.state(S(h0), False),
                        state_update=self.update, get_name=lambda I, a, k: 'stand_in')

    def state(self, h, fail):
        o = ORD[self.d]
        mf = lambda nm: tlib.new([alg.fn(nm, (h, C(k))) for k in range(len(o))], (len(o),), self.dt, 'torch')
        s = PyDict([('h', Num(h)), ('stress_mf', mf('sig')), ('e_strain_mf', mf('eel')), ('p_strain_mf', mf('epl')), ('acc_p_strain', Num(alg.fn('acc', (h,)))),
                    ('is_su_fail', fail), ('is_plast', False)])
        return s

    def update(self, I, a, k):
        k = dict(zip(('inc_strain', 'state_variables_old'), a), **k)
        x, old = k['inc_strain'], k['state_variables_old']
        if not isinstance(x, Tensor) or tuple(x.shape) != (self.d, self.d):
            raise AbsRaise('RuntimeError', 'strain increment is not a tensor of the problem')
        if x.lib != 'torch' or x.dtype != I.state.get('default_dtype'):
            self.bad.append((x.lib, x.dtype))
        f = self.calls in self.fail
        self.calls += 1
        h = step(to_expr(old.get('h')), x.vals())
        return (self.state(h, f), tens('tg', (1, 1)))


def step(h, inc):
    return alg.fn('next', (h,) + tuple(tlib.E(v) for v in inc))


def shear(c):
    return alg.sqrt(C(2)) if c[0] != c[1] else C(1)


def expect(P, order, d, states, h0='h0'):
    """Rows of stress and state variables along strain path P (rows of components)."""
    h = S(h0)
    o = ORD[d]
    k = {c: i for i, c in enumerate(o)}
    k.update({c[::-1]: i for i, c in enumerate(o)})
    comp = lambda nm, h: [alg.fn(nm, (h, C(k[c]))) / shear(c) for c in order]
    out = {'stress_path': [[Z] * len(order)], **{s: [[Z] * n] for s, n in states.items()}}
    for a, b in zip(P, P[1:]):
        A, B = sm(order, a, d), sm(order, b, d)
        h = step(h, [B[i][j] - A[i][j] for i in range(d) for j in range(d)])
        out['stress_path'].append(comp('sig', h))
        for s in states:
            out[s].append([alg.fn('acc', (h,))] if s == 'acc_p_strain' else comp({'e_strain_mf': 'eel', 'p_strain_mf': 'epl'}[s], h))
    return out


def make(I, c, d, form='infinitesimal', pt=None):
    I.stubs['lib:tqdm.tqdm'] = lambda I, a, k: a[0]
    I.stubs['lib:time.time'] = lambda I, a, k: Num(C(1))
    I.stubs['lib:builtins.print'] = lambda I, a, k: None
    I.stubs['lib:datetime.timedelta'] = lambda I, a, k: '0:00:00'
    return I.call(I.get(MOD(c), c), [form, pt or {2: 1, 3: 4}[d]], {})


def path(nm, n, m, lib='np', dtype='float64'):
    return tens(nm, (n, m), dtype, lib)


def rows(nm, n, m):
    return [[S(f'{nm}[{t * m + j}]') for j in range(m)] for t in range(n)]


def stress_path(ctx, c, d):
    f = f'{MOD(c)}:{c}.compute_stress_path'
    full = {'acc_p_strain': 1, 'e_strain_mf': len(ORD[d]), 'p_strain_mf': len(ORD[d])}
    for order in orders(d):
        for T in (2, 3, 4):
            for states, unknown in (({}, 0), (full, 0), ({'acc_p_strain': 1}, 1)):
                if T == 4 and order is not ORD[d]:
                    continue
                w = f'{f} {d}D order={",".join(order)} times={T} states={sorted(states)} unknown={unknown}'
                I = ctx.interp()
                g = make(I, c, d)
                m = Model(I, d)
                sf = PyDict(([('other', 2)] if unknown else []) + list(states.items()))
                r = ctx.run('stress-of-strain-history', w, lambda: I.call(I.getattr(g, 'compute_stress_path'), [order, tens('t', (T,), 'float64', 'np'), path('e', T, len(order)), m.obj], {'state_features': sf}))
                if r is None:
                    continue
                so, sp, st, fail = I.iterate(r)
                ref = expect(rows('e', T, len(order)), order, d, states)
                ctx.ob('stress-order-is-strain-order', w, tuple(I.iterate(so)) == order, so)
                ctx.ob('no-failure', w, I.simp(fail) is False, fail)
                ctx.same('stress-of-strain-history', w, sp, ref['stress_path'])
                ctx.ob('requested-states', w, sorted(st.keys()) == sorted(states), sorted(st.keys()))
                for s in states:
                    if s in st.keys():
                        ctx.same('state-of-strain-history', f'{w} {s}', st.get(s), ref[s])
                ctx.ob('increments-in-default-precision', w, not m.bad, m.bad)
    for T, k in ((2, 0), (4, 0), (4, 1), (4, 2)):
        w = f'{f} {d}D failure at {k} of {T}'
        I = ctx.interp()
        g = make(I, c, d)
        m = Model(I, d, {k})
        r = ctx.run('failure-reported', w, lambda: I.call(I.getattr(g, 'compute_stress_path'), [ORD[d], tens('t', (T,), 'float64', 'np'), path('e', T, len(ORD[d])), m.obj], {}))
        if r is not None:
            ctx.ob('failure-reported', w, I.simp(list(I.iterate(r))[3]) is True, r)
            ctx.ob('no-update-after-failure', w, m.calls == k + 1, m.calls)


    # successive paths and models of one generator
    I = ctx.interp()
    g = make(I, c, d)
    for k, h0 in enumerate(('h0', 'h0', 'g0')):
        w = f'{f} {d}D call {k} model {h0}'
        m = Model(I, d, h0=h0)
        r = ctx.run('stress-of-strain-history', w, lambda: I.call(I.getattr(g, 'compute_stress_path'), [ORD[d], tens(f't{k}', (3,), 'float64', 'np'), path(f'e{k}', 3, len(ORD[d])), m.obj], {}))
        if r is not None:
            ctx.same('stress-of-strain-history', w, list(I.iterate(r))[1], expect(rows(f'e{k}', 3, len(ORD[d])), ORD[d], d, {}, h0)['stress_path'])


def generators(I, log, paths):
    def cls(kind):
        def new(I, a, k):
            log.append(('new', kind, dict(zip(('strain_formulation', 'n_dim'), a), **k)))

            def gen(I, a, k):
                log.append(('path', kind, list(a), k))
                return paths(len([x for x in log if x[0] == 'path']) - 1)
            return fake(I, kind, generate_strain_path=gen)
        return new
    I.stubs['RandomStrainPathGenerator'] = cls('random')
    I.stubs['ProportionalStrainPathGenerator'] = cls('proportional')


def generate(ctx, c, d, w, n, kind, m, log, lens, states, store='memory', order=None, model='von_mises'):
    I = m.I
    order = order or ORD[d]
    paths = lambda i: (order, tens(f't{i}', (lens[i % len(lens)],), 'float64', 'np'), path(f'e{i}', lens[i % len(lens)], len(order)))
    generators(I, log, paths)
    for k, v in MODELS.items():
        I.stubs[v] = lambda I, a, kk, k=k: log.append(('model', k, a, kk)) or m.obj
    g = make(I, c, d)
    kw = PyDict([('strain_bounds', PyDict([('11', 1)])), ('n_time', 7)])
    a = [n, kind, kw]
    sf = PyDict(list(states.items()))
    if c == GC:
        par = PyDict([('E', 3)])
        b = {'state_features': sf, 'is_in_memory_dataset': store == 'memory', 'is_verbose': False}
        if store != 'memory':
            b.update(dataset_directory=D, dataset_basename='paths')
        return par, I.call(I.getattr(g, 'generate_response_dataset'), a + [model, par], b)
    return None, I.call(I.getattr(g, 'generate_noiseless_dataset'), a + [m.obj], {'state_features': sf})


def sample_is(ctx, w, I, s, order, d, i, T, states, dt='float32', extra=()):
    keys = {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist'} | set(states) | set(extra)
    ctx.ob('sample-features', w, set(s.keys()) == keys, sorted(s.keys()))
    if not keys <= set(s.keys()):
        return
    ctx.ob('component-orders', w, tuple(I.iterate(s.get('strain_comps_order'))) == order == tuple(I.iterate(s.get('stress_comps_order'))), s.get('stress_comps_order'))
    P = rows(f'e{i}', T, len(order))
    ref = expect(P, order, d, states)
    ref.update(strain_path=P, time_hist=[[S(f't{i}[{t}]')] for t in range(T)])
    for k, v in ref.items():
        t = s.get(k)
        ctx.ob('features-are-tensors-of-default-precision', f'{w} {k}', isinstance(t, Tensor) and t.lib == 'torch' and t.dtype == dt, getattr(t, 'dtype', t))
        if isinstance(t, Tensor):
            ctx.ob('one-row-per-time', f'{w} {k}', tuple(t.shape) == (T, len(v[0])), tuple(t.shape))
            ctx.same('sample-is-its-own-history', f'{w} {k}', t, v)


def trials(ctx, c, d):
    f = f'{MOD(c)}:{c}.' + ('generate_response_dataset' if c == GC else 'generate_noiseless_dataset')
    states = {'acc_p_strain': 1, 'e_strain_mf': len(ORD[d])}
    for store in ('memory', 'stored') if c == GC else ('memory',):
        for kind in ('random', 'proportional'):
            for n, lens, fails in ((1, (3,), ()), (3, (3, 2, 4), ()), (2, (2,), (0,)), (2, (2,), (1, 2)), (1, (3,), (1, 2)), (1, (2,), tuple(range(9))), (3, (2,), tuple(range(6)) + tuple(range(7, 13)) + (14, 15)), (12, (2,), ())):
                for dt in (('float32', 'float64') if n == 3 else ('float32',)):
                    w = f'{f} {d}D {kind} {store} paths={n} lengths={lens} failures={len(fails)},{fails[:1]} {dt}'
                    I = ctx.interp()
                    I.state.set('default_dtype', dt)
                    fs = FS(I, dirs=[D])
                    m, log = Model(I, d, set(fails), dt), []
                    r = ctx.run('generation', w, lambda: generate(ctx, c, d, w, n, kind, m, log, lens, states, store))
                    if r is None:
                        continue
                    par, ds = r
                    drawn = [x for x in log if x[0] == 'path']
                    # replay of the trials
                    used, k, q = [], 0, 0
                    while len(used) < n:
                        T, ok = lens[q % len(lens)], True
                        for _ in range(T - 1):
                            k += 1
                            if k - 1 in fails:
                                ok = False
                                break
                        if ok:
                            used.append(q)
                        q += 1
                    ctx.ob('new-path-for-every-trial', w, len(drawn) == q and all(x[1] == kind and not x[2] and sorted(x[3]) == ['n_time', 'strain_bounds'] and x[3]['n_time'] == 7 for x in drawn), (len(drawn), q))
                    ctx.ob('generator-of-the-problem', w, [(x[1], x[2].get('strain_formulation'), x[2].get('n_dim')) for x in log if x[0] == 'new'] == [(kind, 'infinitesimal', d)], log[:1])
                    if c == GC:
                        ctx.ob('model-of-the-parameters', w, [(x[1], list(x[2])[-1] is par or x[3].get('model_parameters') is par) for x in log if x[0] == 'model'] == [('von_mises', True)], '')
                    size = I.as_int(I.call(Lib('builtins.len'), [ds], {}))
                    if not ctx.ob('requested-number-of-paths', w, size == n, size):
                        continue
                    ctx.ob('requested-storage', w, ds.cls.name == ('TimeSeriesDatasetInMemory' if store == 'memory' else 'TimeSeriesDataset'), ds.cls.name)
                    for i, q in enumerate(used):
                        sample_is(ctx, f'{w} [{i}]', I, item(I, ds, i), ORD[d], d, q, lens[q % len(lens)], states, dt)
    I = ctx.interp()
    FS(I, dirs=[D])
    m = Model(I, d, set(range(200)))
    refuse(ctx, 'persistent-failure-refused', f'{f} {d}D', lambda: generate(ctx, c, d, '', 1, 'random', m, [], (2,), {}))


def models(ctx):
    f = f'{G}:{GC}.generate_response_dataset'
    for k in MODELS:
        I = ctx.interp()
        FS(I, dirs=[D])
        m, log = Model(I, 3), []
        r = ctx.run('named-model', f'{f} {k}', lambda: generate(ctx, GC, 3, '', 1, 'random', m, log, (2,), {}, model=k))
        if r is not None:
            got = [x for x in log if x[0] == 'model']
            ok = len(got) == 1 and got[0][1] == k
            b = dict(zip(('strain_formulation', 'problem_type', 'model_parameters'), got[0][2]), **got[0][3]) if got else {}
            ctx.ob('named-model', f'{f} {k}', ok and b.get('strain_formulation') == 'infinitesimal' and b.get('problem_type') == 4 and b.get('model_parameters') is r[0], b)


def refused(ctx):
    f = f'{G}:{GC}.generate_response_dataset'
    for tag, kind, model, kw in (('unknown path type', 'x', 'von_mises', {}), ('unknown model', 'random', 'x', {}), ('no directory', 'random', 'von_mises', {'is_in_memory_dataset': False, 'dataset_basename': 'a'}),
                                 ('no name', 'random', 'von_mises', {'is_in_memory_dataset': False, 'dataset_directory': D})):
        I = ctx.interp()
        FS(I, dirs=[D])
        m = Model(I, 3)
        generators(I, [], lambda i: (ORD[3], tens('t', (2,), 'float64', 'np'), path('e', 2, 6)))
        for k, v in MODELS.items():
            I.stubs[v] = lambda I, a, kk: m.obj
        g = make(I, GC, 3)
        refuse(ctx, 'bad-request-refused', f'{f} {tag}', lambda: I.call(I.getattr(g, 'generate_response_dataset'), [1, kind, PyDict([]), model, PyDict([])], kw))
    I = ctx.interp()
    m = Model(I, 3)
    g = make(I, NC, 3)
    generators(I, [], lambda i: (ORD[3], tens('t', (2,), 'float64', 'np'), path('e', 2, 6)))
    refuse(ctx, 'bad-request-refused', f'{N}:{NC}.generate_noiseless_dataset unknown path type', lambda: I.call(I.getattr(g, 'generate_noiseless_dataset'), [1, 'x', PyDict([]), m.obj], {}))


# ---------------------------------------------------------------- helpers
def components(ctx):
    for c in (GC, NC):
        for d in (2, 3):
            for order in orders(d):
                x = [S(f'x[{i}]') for i in range(len(order))]
                w = f'{MOD(c)}:{c}.build_tensor_from_comps {d}D {",".join(order)}'
                I = ctx.interp()
                g = I.get(MOD(c), c)
                r = ctx.run('tensor-of-components', w, lambda: I.call(I.getattr(g, 'build_tensor_from_comps'), [d, order, tens('x', (len(order),), 'float64', 'np')], {'is_symmetric': True}))
                if r is not None:
                    ctx.same('tensor-of-components', w, r, sm(order, x, d))
                w = f'{MOD(c)}:{c}.store_tensor_comps {d}D {",".join(order)}'
                r = ctx.run('components-of-tensor', w, lambda: I.call(I.getattr(g, 'store_tensor_comps'), [order, tens('m', (d, d))], {}))
                if r is not None:
                    ctx.same('components-of-tensor', w, r, [S(f'm[{(int(q[0]) - 1) * d + int(q[1]) - 1}]') for q in order])
            full = tuple(f'{i}{j}' for j in range(1, d + 1) for i in range(1, d + 1))
            w = f'{MOD(c)}:{c}.build_tensor_from_comps {d}D full'
            I = ctx.interp()
            r = ctx.run('tensor-of-components', w, lambda: I.call(I.getattr(I.get(MOD(c), c), 'build_tensor_from_comps'), [d, full, tens('x', (len(full),), 'float64', 'np')], {}))
            if r is not None:
                ctx.same('tensor-of-components', w, r, sm(full, [S(f'x[{i}]') for i in range(len(full))], d))


def norms(ctx):
    for d in (2, 3):
        for order in orders(d):
            w = f'{N}:{NC}.compute_norm_path {d}D {",".join(order)}'
            I = ctx.interp()
            r = ctx.run('norm-of-tensor', w, lambda: I.call(I.getattr(I.get(N, NC), 'compute_norm_path'), [path('x', 2, len(order)), d, order], {'is_symmetric': True}))
            if r is not None:
                P = rows('x', 2, len(order))
                ctx.same('norm-of-tensor', w, r, [alg.sqrt(sum((v * v * C(1 if c[0] == c[1] else 2) for v, c in zip(p, order)), Z)) for p in P])


def det(m):
    a, b, c = m
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def invar(m):
    t = m[0][0] + m[1][1] + m[2][2]
    i2 = sum((m[i][i] * m[j][j] - m[i][j] * m[j][i] for i, j in ((0, 1), (0, 2), (1, 2))), Z)
    s = [[m[i][j] - (t / C(3) if i == j else Z) for j in range(3)] for i in range(3)]
    j2 = sum((s[i][j] * s[j][i] for i in range(3) for j in range(3)), Z) / C(2)
    return [t, i2, det(m)], [Z, j2, det(s)]


def invariants(ctx):
    w = f'{G}:{GC}.compute_stress_invariants'
    I = ctx.interp()
    x = [S(f'x{i}') for i in range(6)]
    m = sm(ORD[3], x, 3)
    r = ctx.run('stress-invariants', w, lambda: I.call(I.getattr(I.get(G, GC), 'compute_stress_invariants'), [tlib.new(sum(m, []), (3, 3), 'float64', 'np')], {}))
    if r is not None:
        a, b = I.iterate(r)
        i, j = invar(m)
        ctx.same('stress-invariants', w, a, i)
        ctx.same('deviatoric-stress-invariants', w, b, j)


def response_path(ctx):
    w = f'{N}:{NC}.build_response_path'
    for st, n1, n2 in ((False, False, False), (True, True, False), (True, True, True), (False, False, True)):
        for dt in ('float32', 'float64'):
            I = ctx.interp()
            I.state.set('default_dtype', dt)
            P = lambda nm, k: tens(nm, (2, k), 'float64', 'np')
            kw = {}
            if st:
                kw['state_path'] = PyDict([('acc', P('a', 1))])
            if n1:
                kw['strain_noise_path'] = P('n', 3)
            if n2:
                kw['stress_noise_path'] = P('q', 3)
            a = [('11', '22', '12'), P('e', 3), ('22', '11', '12'), P('s', 3), tens('t', (2,), 'float64', 'np')]
            ww = f'{w} state={st} noise={n1},{n2} {dt}'
            r = ctx.run('response-path', ww, lambda: I.call(I.getattr(I.get(N, NC), 'build_response_path'), a, kw))
            if r is None:
                continue
            ref = {'strain_path': rows('e', 2, 3), 'stress_path': rows('s', 2, 3), 'time_hist': rows('t', 2, 1)}
            if st:
                ref['acc'] = rows('a', 2, 1)
            if n1:
                ref['strain_noise_path'] = rows('n', 2, 3)
            if n2:
                ref['stress_noise_path'] = rows('q', 2, 3)
            ctx.ob('response-path-features', ww, set(r.keys()) == set(ref) | {'strain_comps_order', 'stress_comps_order'} and r.get('strain_comps_order') == a[0] and r.get('stress_comps_order') == a[2], sorted(r.keys()))
            for k, v in ref.items():
                if k in r.keys():
                    t = r.get(k)
                    ctx.ob('features-are-tensors-of-default-precision', f'{ww} {k}', isinstance(t, Tensor) and t.lib == 'torch' and t.dtype == dt, getattr(t, 'dtype', t))
                    ctx.same('response-path', f'{ww} {k}', t, v)


# ---------------------------------------------------------------- other sources
def csv_world(ctx, files, zero=(), cols=13, T=2, part=None):
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    read = []

    def rd(I, a, k):
        p = a[0] if a else next(iter(k.values()))
        read.append(p)
        n = files[p]
        nil = lambda t, j: j >= 7 and (n in zero or part == 'last time' and t == T - 1 or part == 'first time' and t == 0 or part == 'component' and j in (7, 11) or part == 'all but one' and (t, j) != (0, 8))
        v = [Z if nil(t, j) else S(f'r{n}[{t * cols + j}]') for t in range(T) for j in range(cols)]
        t = tlib.new(v, (T, cols), 'float64', 'np')
        return fake(I, 'DataFrame', shape=(T, cols), values=t, to_numpy=lambda I, a, k: t)
    I.stubs['lib:pandas.read_csv'] = rd
    I.stubs['lib:torch.allclose'] = lambda I, a, k: all(alg.equal(tlib.E(x), tlib.E(y)) for x, y in zip(a[0].vals(), a[1].vals()))
    I.stubs['lib:torch.isclose'] = lambda I, a, k: tlib.new([alg.equal(tlib.E(x), tlib.E(y)) for x, y in zip(a[0].vals(), a[1].vals())], tuple(a[0].shape), 'bool', 'torch')
    return I, fs, read


def csv(ctx):
    f = f'{G}:{GC}.gen_response_dataset_from_csv'
    A = '/raw/v2/response_path_%d.csv'
    for d in (2, 3):
        for store in ('memory', 'stored'):
            for nums, zero, part in (((0,), (), None), ((10, 9, 2), (), None), ((3, 1, 2), (2,), None), ((3, 1), (), 'last time'), ((3, 1), (), 'first time'), ((3,), (), 'component'), ((3, 1), (), 'all but one')):
                w = f'{f} {d}D {store} files={nums} zero={zero or part}'
                I, fs, read = csv_world(ctx, {A % n: n for n in nums}, zero, part=part)
                g = make(I, GC, d)
                kw = {'is_in_memory_dataset': store == 'memory'}
                if store == 'stored':
                    kw.update(dataset_directory=D, dataset_basename='paths')
                r = ctx.run('csv-paths', w, lambda: I.call(I.getattr(g, 'gen_response_dataset_from_csv'), [PyList([A % n for n in nums])], kw))
                if r is None:
                    continue
                keep = [n for n in sorted(nums) if n not in zero]
                size = I.as_int(I.call(Lib('builtins.len'), [r], {}))
                if not ctx.ob('stressed-paths-kept', w, size == len(keep), size):
                    continue
                ctx.ob('requested-storage', w, r.cls.name == ('TimeSeriesDatasetInMemory' if store == 'memory' else 'TimeSeriesDataset'), r.cls.name)
                for i, n in enumerate(keep):
                    s = item(I, r, i)
                    cols = [0, 1, 3] if d == 2 else range(6)
                    nil = lambda t, j: j >= 7 and (part == 'last time' and t == 1 or part == 'first time' and t == 0 or part == 'component' and j in (7, 11) or part == 'all but one' and (t, j) != (0, 8))
                    R = lambda t, j: Z if nil(t, j) else S(f'r{n}[{t * 13 + j}]')
                    ctx.same('time-column', f'{w} [{i}]', s.get('time_hist'), [[R(t, 0)] for t in range(2)])
                    ctx.same('strain-columns', f'{w} [{i}]', s.get('strain_path'), [[R(t, 1 + j) for j in cols] for t in range(2)])
                    ctx.same('stress-columns', f'{w} [{i}]', s.get('stress_path'), [[R(t, 7 + j) for j in cols] for t in range(2)])
                    ctx.ob('component-orders', f'{w} [{i}]', s.get('strain_comps_order') == ORD[d] == s.get('stress_comps_order'), s.get('strain_comps_order'))


def csv_refused(ctx):
    f = f'{G}:{GC}.gen_response_dataset_from_csv'
    A = '/raw/path_0.csv'
    for tag, cols, kw in (('columns', 12, {}), ('columns', 14, {}), ('no directory', 13, {'is_in_memory_dataset': False})):
        I, fs, read = csv_world(ctx, {A: 0}, cols=cols)
        g = make(I, GC, 3)
        refuse(ctx, 'bad-file-refused', f'{f} {tag} {cols}', lambda: I.call(I.getattr(g, 'gen_response_dataset_from_csv'), [PyList([A])], kw))


def from_strains(ctx):
    f = f'{G}:{GC}.gen_response_dataset_from_strain_dataset'
    src = '/data/strains.pkl'
    for d in (2, 3):
        st = {'acc_p_strain': 1}
        for k in MODELS:
            for lens in ((2,), (3, 2)):
                w = f'{f} {d}D {k} {lens}'
                I, m, log = strain_world(ctx, d, lens, src)
                g = make(I, GC, d)
                par = PyDict([('E', 3)])
                r = ctx.run('response-of-given-strains', w, lambda: I.call(I.getattr(g, 'gen_response_dataset_from_strain_dataset'), [src, k, par], {'state_features': PyDict(list(st.items()))}))
                if r is None:
                    continue
                ctx.ob('named-model', w, [x[1] for x in log] == [k], [x[1] for x in log])
                size = I.as_int(I.call(Lib('builtins.len'), [r], {}))
                if ctx.ob('every-strain-path', w, size == len(lens), size):
                    for i, T in enumerate(lens):
                        sample_is(ctx, f'{w} [{i}]', I, item(I, r, i), ORD[d], d, i, T, st)
        w = f'{f} {d}D orders of samples'
        os = orders(d)
        I, m, log = strain_world(ctx, d, (2, 3, 2), src, os=os)
        g = make(I, GC, d)
        r = ctx.run('response-of-given-strains', w, lambda: I.call(I.getattr(g, 'gen_response_dataset_from_strain_dataset'), [src, 'elastic', PyDict([])], {}))
        if r is not None:
            for i, T in enumerate((2, 3, 2)):
                sample_is(ctx, f'{w} [{i}]', I, item(I, r, i), os[i], d, i, T, {})
    for k in (0, 1, 2):
        I, m, log = strain_world(ctx, 3, (2, 3), src, fail={k})
        g = make(I, GC, 3)
        refuse(ctx, 'failed-path-refused', f'{f} {k}', lambda: I.call(I.getattr(g, 'gen_response_dataset_from_strain_dataset'), [src, 'elastic', PyDict([])], {}))
    for tag, p, k in (('missing file', '/data/none.pkl', 'elastic'), ('unknown model', src, 'x')):
        I, m, log = strain_world(ctx, 3, (2,), src)
        g = make(I, GC, 3)
        refuse(ctx, 'bad-request-refused', f'{f} {tag}', lambda: I.call(I.getattr(g, 'gen_response_dataset_from_strain_dataset'), [p, k, PyDict([])], {}))


def strain_world(ctx, d, lens, src, fail=(), os=None):
    I = ctx.interp()
    fs = FS(I, dirs=['/data'])
    m, log = Model(I, d, fail), []
    for k, v in MODELS.items():
        I.stubs[v] = lambda I, a, kk, k=k: log.append(('model', k, a, kk)) or m.obj
    smp = [PyDict([('strain_comps_order', os[i] if os else ORD[d]), ('strain_path', tens(f'e{i}', (T, len(ORD[d])))), ('time_hist', tens(f't{i}', (T, 1)))]) for i, T in enumerate(lens)]
    fs.state.set(src, I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList(smp)], {}))
    return I, m, log


# ---------------------------------------------------------------- noise
def noisy_world(ctx, d, lens, order, scaler, fails=(), noise=None, P=None):
    I = ctx.interp()
    m = Model(I, d, fails)
    nc = len(order)
    log = []
    smp = []
    for i, T in enumerate(lens):
        e = tens(f'e{i}', (T, nc)) if P is None else const_t(P[i])
        smp.append(PyDict([('strain_comps_order', order), ('strain_path', e), ('stress_comps_order', order), ('stress_path', tens(f's{i}', (T, nc))), ('time_hist', tens(f't{i}', (T, 1)))]))
    ds = I.call(I.get(TD, 'TimeSeriesDatasetInMemory'), [PyList(smp)], {})

    def gen(I, a, k):
        k = dict(zip(('noiseless_path', 'noise_variability', 'heteroscedastic_weights'), a), **k)
        log.append(k)
        x = k['noiseless_path']
        return tens(f'n{len([x for x in log if isinstance(x, dict)]) - 1}', tuple(x.shape), 'float64', 'np')
    ng = fake(I, 'NoiseGenerator', generate_noise_path=gen)

    def aff(inv):
        def f(I, a, k):
            t = a[0]
            v = [(x * S(f'w{j % nc}', True) + S(f'c{j % nc}')) if inv else (x - S(f'c{j % nc}')) / S(f'w{j % nc}', True) for j, x in enumerate(map(tlib.E, t.vals()))]
            return tlib.fresh_like(t, v)
        return f
    sc = fake(I, 'Scaler', transform=aff(False), inverse_transform=aff(True)) if scaler else None

    def den(I, a, k):
        t = a[0]
        T = t.shape[0]
        v = list(map(tlib.E, t.vals()))
        log.append(('denoise', a, k))
        return tlib.fresh_like(t, [alg.fn('den', tuple(v[s * nc + j] for s in range(T)) + (C(q),)) for q in range(T) for j in range(nc)])
    I.stubs['Denoiser'] = lambda I, a, k: fake(I, 'Denoiser', denoise=den)
    g = make(I, NC, d)
    return I, m, log, ds, ng, sc, g


def noisy(ctx, d):
    f = f'{N}:{NC}.generate_noisy_dataset'
    for order in orders(d)[:2]:
        nc = len(order)
        for lens in ((2,), (3, 2)):
            for scaler in (False, True):
                for denoise in (False, True):
                    for fails in ((), (0,), (0, 1)) if order is ORD[d] and lens == (2,) else ((),):
                        w = f'{f} {d}D {",".join(order)} lengths={lens} scaler={scaler} denoise={denoise} failures={len(fails)}'
                        I, m, log, ds, ng, sc, g = noisy_world(ctx, d, lens, order, scaler, set(fails))
                        st = {'acc_p_strain': 1}
                        r = ctx.run('noisy-paths', w, lambda: I.call(I.getattr(g, 'generate_noisy_dataset'), [ds, ng, m.obj], {'state_features': PyDict(list(st.items())), 'strain_data_scaler': sc, 'is_denoise_strain_path': denoise}))
                        if r is None:
                            continue
                        draws = [x for x in log if isinstance(x, dict)]
                        ctx.ob('new-noise-for-every-trial', w, len(draws) == len(lens) + len(fails), len(draws))
                        ctx.ob('constant-noise', w, all(x.get('noise_variability', 'homoscedastic') == 'homoscedastic' for x in draws), '')
                        size = I.as_int(I.call(Lib('builtins.len'), [r], {}))
                        if not ctx.ob('one-noisy-path-per-path', w, size == len(lens), size):
                            continue
                        for i, T in enumerate(lens):
                            q = i + len(fails)
                            s = item(I, r, i)
                            wi = f'{w} [{i}]'
                            keys = {'strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist', 'acc_p_strain', 'strain_noise_path', 'stress_noise_path'}
                            ctx.ob('sample-features', wi, set(s.keys()) == keys, sorted(s.keys()))
                            if not keys <= set(s.keys()):
                                continue
                            e, n, s0 = rows(f'e{i}', T, nc), [[Z] * nc] + rows(f'n{q}', T, nc)[1:], rows(f's{i}', T, nc)
                            sc_ = lambda j: S(f'w{j}', True) if scaler else C(1)
                            P = [[e[t][j] + sc_(j) * n[t][j] for j in range(nc)] for t in range(T)]
                            if denoise:
                                P = [e[0]] + [[alg.fn('den', tuple(P[k][j] for k in range(T)) + (C(t),)) for j in range(nc)] for t in range(1, T)]
                            ref = expect(P, order, d, st)
                            ctx.same('noise-added-to-strain', wi, s.get('strain_path'), P)
                            ctx.same('initial-strain-has-no-noise', wi, ex(s.get('strain_path'))[0], e[0])
                            ctx.same('stress-of-noisy-strain', wi, s.get('stress_path'), ref['stress_path'])
                            ctx.same('state-of-noisy-strain', wi, s.get('acc_p_strain'), ref['acc_p_strain'])
                            ctx.same('strain-noise-stored', wi, s.get('strain_noise_path'), n)
                            ctx.same('stress-noise-stored', wi, s.get('stress_noise_path'), [[a - b for a, b in zip(x, y)] for x, y in zip(ref['stress_path'], s0)])
                            ctx.same('times-kept', wi, s.get('time_hist'), rows(f't{i}', T, 1))
                            ctx.same('noiseless-data-set-kept', wi, item(I, ds, i).get('strain_path'), e)


def weights(ctx, d):
    f = f'{N}:{NC}.generate_noisy_dataset'
    order = ORD[d]
    ix = order.index('12')
    row = lambda a, b: [a if k == 0 else b if k == ix else 0 for k in range(len(order))]
    # norms 0, 3, 6 and 0, 9, 3
    P = [[row(0, 0), row(1, 2), row(2, 4)], [row(0, 0), row(3, 6), row(-1, 2)], [row(0, 0), row(-12, 0)]]
    nr = [[0, 3, 6], [0, 9, 3], [0, 12]]
    for norm in (None, 5):
        for scaler in (False, True):
            for fails in ((), (0,)):
                w = f'{f} {d}D heteroscedastic normalizer={norm} scaler={scaler} failures={len(fails)}'
                I, m, log, ds, ng, sc, g = noisy_world(ctx, d, (3, 3, 2), order, scaler, set(fails), P=P)
                r = ctx.run('noise-weights', w, lambda: I.call(I.getattr(g, 'generate_noisy_dataset'), [ds, ng, m.obj], {'strain_data_scaler': sc, 'noise_variability': 'heteroscedastic', 'heteroscedastic_normalizer': norm}))
                if r is None:
                    continue
                draws = [x for x in log if isinstance(x, dict)]
                want = [0] * len(fails) + [0, 1, 2]
                if not ctx.ob('new-noise-for-every-trial', w, len(draws) == len(want), len(draws)):
                    continue
                for x, i in zip(draws, want):
                    ctx.ob('noise-variability', f'{w} path {i}', x.get('noise_variability') == 'heteroscedastic', x.get('noise_variability'))
                    ctx.same('noise-weights', f'{w} path {i}', x.get('heteroscedastic_weights'), [C(v) / C(norm or max(nr[i])) for v in nr[i]])
                for i, p in enumerate(P):
                    s, q, nc = item(I, r, i), i + len(fails), len(order)
                    n = [[Z] * nc] + rows(f'n{q}', len(p), nc)[1:]
                    ctx.same('strain-noise-stored', f'{w} path {i}', s.get('strain_noise_path'), n)
                    ctx.same('noise-added-to-strain', f'{w} path {i}', s.get('strain_path'), [[C(p[t][j]) + (S(f'w{j}', True) if scaler else C(1)) * n[t][j] for j in range(nc)] for t in range(len(p))])


def noisy_refused(ctx):
    I, m, log, ds, ng, sc, g = noisy_world(ctx, 3, (2,), ORD[3], False, set(range(200)))
    refuse(ctx, 'persistent-failure-refused', f'{N}:{NC}.generate_noisy_dataset', lambda: I.call(I.getattr(g, 'generate_noisy_dataset'), [ds, ng, m.obj], {}))


# ---------------------------------------------------------------- plots data
def plots(I, log):
    for nm in ('plot_xy_data', 'plot_xyz_data', 'scatter_xy_data', 'plot_histogram', 'plot_boxplots'):
        I.stubs['ioput.plots.' + nm] = lambda I, a, k, nm=nm: log.append((nm, a, k)) or (fake(I, 'Figure'), fake(I, 'Axes'))
    I.stubs['ioput.plots.save_figure'] = lambda I, a, k: log.append(('save', a, k))
    for x in ('show', 'close'):
        I.stubs['lib:matplotlib.pyplot.' + x] = lambda I, a, k: None


def equivalent(ctx):
    w = f'{G}:{GC}.plot_material_response_path'
    o = ORD[3]
    for lens in ((2,), (2, 3)):
        I = ctx.interp()
        log = []
        plots(I, log)
        A = lambda nm: [path(f'{nm}{i}', T, 6) for i, T in enumerate(lens)]
        e, s = A('e'), A('s')
        many = len(lens) > 1
        Tm = [tlib.new([C(t + i) for t in range(T)], (T,), 'float64', 'np') for i, T in enumerate(lens)]
        a = ['infinitesimal', 3, o, PyList(e) if many else e[0], o, PyList(s) if many else s[0], PyList(Tm) if many else Tm[0]]
        ww = f'{w} {lens}'
        if ctx.run('equivalent-strain-and-stress', ww, lambda: (I.call(I.getattr(I.get(G, GC), 'plot_material_response_path'), a, {'is_plot_eq_strain_stress': True}), 1)[1]) is None:
            continue
        dat = [x[2].get('data_xy', x[1][0] if x[1] else None) for x in log if x[0] == 'plot_xy_data']
        if not ctx.ob('equivalent-strain-and-stress', ww, len(dat) == 1 and dat[0] is not None, len(dat)):
            continue
        v = ex(dat[0])
        for i, T in enumerate(lens):
            for nm, col, k in (('e', 2 * i, C(2) / C(3)), ('s', 2 * i + 1, C(3) / C(2))):
                R = rows(f'{nm}{i}', T, 6)
                for t in range(T):
                    j2 = invar(sm(o, R[t], 3))[1][1]
                    ctx.same('equivalent-strain-and-stress', f'{ww} {nm}{i} time {t}', [v[t][col] * v[t][col]], [k * C(2) * j2])


def stress_space(ctx):
    w = f'{G}:{GC}.plot_stress_space_metrics'
    o = ORD[3]
    P = [[[0] * 6, [3, 0, 0, 0, 0, 0], [5, 1, 2, 1, 0, 2]], [[-2, -2, 4, 3, 1, 0], [7, 7, 7, 0, 0, 0]]]
    I = ctx.interp()
    log = []
    plots(I, log)
    I.stubs['lib:numpy.linalg.eig'] = I.stubs['lib:numpy.linalg.eigh'] = lambda I, a, k: (tlib.new([Z] * 3, (3,), 'float64', 'np'), tens('v', (3, 3), 'float64', 'np'))
    I.stubs['lib:numpy.linalg.eigvalsh'] = lambda I, a, k: tlib.new([Z] * 3, (3,), 'float64', 'np')
    Tm = [tlib.new([C(t) for t in range(len(p))], (len(p),), 'float64', 'np') for p in P]
    a = ['infinitesimal', o, PyList([const_t(p, 'float64', 'np') for p in P]), PyList(Tm)]
    # paths of equal length (a shorter path is padded)
    P[1].append([1, 0, 0, 0, 0, 0])
    Tm[1] = Tm[0]
    a[2] = PyList([const_t(p, 'float64', 'np') for p in P])
    a[3] = PyList(Tm)
    if ctx.run('triaxiality-and-lode', w, lambda: (I.call(I.getattr(I.get(G, GC), 'plot_stress_space_metrics'), a, {'is_plot_stress_path_triax_lode': True, 'filename': 'x', 'is_save_fig': True, 'save_dir': D}), 1)[1]) is None:
        return
    dat = [x[2].get('data_xy', x[1][0] if x[1] else None) for x in log if x[0] == 'plot_xy_data']
    if not ctx.ob('triaxiality-and-lode', w, len(dat) == 2 and all(x is not None for x in dat), len(dat)):
        return
    tri, lode = ex(dat[0]), ex(dat[1])
    for k, p in enumerate(P):
        for t, x in enumerate(p):
            (i1, _, _), (_, j2, j3) = invar(sm(o, [C(v) for v in x], 3))
            a, b = tri[t][2 * k + 1], lode[t][2 * k + 1]
            if j2.is_zero():
                ctx.ob('undefined-for-hydrostatic-stress', f'{w} {k},{t}', a.nan and b.nan, (a, b))
                continue
            ctx.same('triaxiality', f'{w} {k},{t}', [a], [i1 / C(3) / alg.sqrt(C(3) * j2)])
            ctx.same('lode-parameter', f'{w} {k},{t}', [b], [C(3) * alg.sqrt(C(3)) / C(2) * j3 / (j2 * alg.sqrt(j2))])
