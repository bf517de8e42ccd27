"""P14 - hybrid models.  The channel construction and forward propagation of the
hybrid model are evaluated with stand-in submodels that are unrestricted affine
maps (so the value number of the output identifies which submodels were applied,
in which order and to which features), for a family of hybridization layouts.
The physics layers (batched elasticity, volumetric/deviatoric composition,
polynomial regressor) are evaluated on unrestricted features."""
import itertools

from .. import alg
from ..common import *
from .p13 import refuse

FLOOR = 60
M = 'model_architectures.hybrid_base_model.model'
Z = alg.ZERO
C = alg.const
ATT = ('features_in', 'features_out')


def groups(tier):
    return [('channels', channels), ('forward', forward), ('normalisation', normalisation), ('refusals', refusals),
            ('set model', set_model), ('elastic', elastic), ('voldev', voldev), ('polynomial', polynomial), ('parameters', parameters),
            ('repeated', repeated)]


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def affine(name, n_in, n_out, rows):
    """rows: list of lists of n_in Expr -> list of lists."""
    return [[sum((S(f'{name}.w{i}{j}') * r[j] for j in range(n_in)), S(f'{name}.b{i}')) for i in range(n_out)] for r in rows]


def rows_of(t):
    n = t.shape[-1]
    v = [tlib.E(x) for x in t.vals()]
    return [v[i:i + n] for i in range(0, len(v), n)]


def stand_in(I, name, n_in, n_out, out='tensor', **attrs):
    def f(I, a, k):
        x = tlib.as_tensor(I, a[0] if a else list(k.values())[0])
        if x.shape[-1] != n_in:
            raise AbsRaise('RuntimeError', f'{name}: expects {n_in} features, got {x.shape[-1]}')
        y = affine(name, n_in, n_out, rows_of(x))
        r = tlib.new([e for q in y for e in q], x.shape[:-1] + (n_out,), x.dtype, 'torch')
        return (r, tens(f'{name}.hidden', (1, 2))) if out == 'tuple' else r
    m = fake(I, 'StandIn', **attrs)
    m.attrs['@call'] = f
    return m


def scaler(I, name):
    """Unrestricted per-feature affine scaler."""
    def tr(inv):
        def f(I, a, k):
            x = tlib.as_tensor(I, a[0])
            n = x.shape[-1]
            d = [((e - S(f'{name}.c{i % n}')) / S(f'{name}.s{i % n}', True)) if not inv else
                 (e * S(f'{name}.s{i % n}', True) + S(f'{name}.c{i % n}')) for i, e in enumerate(tlib.E(z) for z in x.vals())]
            return tlib.new(d, x.shape, x.dtype, 'torch')
        return f
    return fake(I, 'Scaler', transform=tr(False), inverse_transform=tr(True), set_device=lambda I, a, k: None)


def norm(name, rows):
    return [[(e - S(f'{name}.c{i}')) / S(f'{name}.s{i}', True) for i, e in enumerate(r)] for r in rows]


def denorm(name, rows):
    return [[e * S(f'{name}.s{i}', True) + S(f'{name}.c{i}') for i, e in enumerate(r)] for r in rows]


def hyb_dict(I, spec, models):
    return PyDict([(n, PyDict([('hyb_model', models[n]), ('hyb_indices', idx), ('is_input_residual', res)])) for n, idx, res in spec])


def hybrid(I, n_in, n_out, spec, models, **kw):
    K = I.get(f'{M}.hybrid_model', 'HybridModel')
    a = dict(n_features_in=n_in, n_features_out=n_out, hyb_models_dict=hyb_dict(I, spec, models), model_directory=None,
             is_save_model_init_file=False)
    a.update(kw)
    return I.call(K, [], a)


# layouts: (name, (channel row, order column))
LAYOUTS = [
    [('a', (0, 0))],
    [('a', (0, 0)), ('b', (0, 1))],
    [('a', (0, 1)), ('b', (0, 0))],
    [('a', (0, 0)), ('b', (1, 0))],
    [('a', (1, 0)), ('b', (0, 0))],
    [('a', (0, 2)), ('b', (0, 0)), ('c', (0, 1))],
    [('a', (1, 1)), ('b', (0, 0)), ('c', (1, 0))],
    [('a', (1, 0)), ('b', (0, 1)), ('c', (0, 0))],
    [('a', (2, 0)), ('b', (0, 0)), ('c', (1, 0))],
    [('a', (5, 3)), ('b', (2, 7)), ('c', (5, 1)), ('d', (2, 4))],
    [('a', (0, 1)), ('b', (1, 1)), ('c', (0, 0)), ('d', (1, 0))],
    [('d', (0, 10)), ('c', (0, 9)), ('b', (0, 2)), ('a', (0, 1))],
    [('a', (10, 0)), ('b', (9, 0)), ('c', (2, 1)), ('d', (2, 0))],
    [('abcdefghijkl'[i], (7 * i % 12, 3)) for i in range(12)],
    [('abcdefghijkl'[i], (5 * i % 4, 11 - i)) for i in range(12)],
]


def expected(layout):
    """Channels in row order, models of a channel in column order."""
    rows = sorted({i[0] for _, i in layout})
    return [[n for n, i in sorted((x for x in layout if x[1][0] == r), key=lambda x: x[1][1])] for r in rows]


def channels(ctx):
    for L in LAYOUTS:
        I = ctx.interp()
        w = f'{M}.hybrid_model:HybridModel.get_hybridization_channels {L}'
        models = {n: stand_in(I, n, 2, 2) for n, _ in L}
        K = I.get(f'{M}.hybrid_model', 'HybridModel')
        spec = [(n, i, n in ('b', 'd')) for n, i in L]
        r = ctx.run('channels', w, lambda: I.call(I.getattr(K, 'get_hybridization_channels'), [hyb_dict(I, spec, models)], {}))
        if r is None:
            continue
        names, mods, ch, res = I.iterate(r)
        names, mods = I.iterate(names), I.iterate(mods)
        got = []
        for key in sorted(ch.keys(), key=int):
            got.append([names[I.as_int(x)] for x in I.iterate(ch.get(key))])
        ctx.ob('channels-in-row-order-models-in-column-order', w, got == expected(L), got)
        ctx.ob('names-and-models-stay-paired', w, len(names) == len(mods) and all(models[n] is m for n, m in zip(names, mods)), names)
        ctx.ob('residual-flag-of-each-model', w, all(res.get(n) == (n in ('b', 'd')) for n, _ in L), '')
    for L in ([('a', (0, 0)), ('b', (0, 0))], [('a', (0, 0)), ('b', (1, 2)), ('c', (1, 2))], [('a', (0, 1)), ('b', (0, 0)), ('c', (0, 1))],
              [('a', (3, 1)), ('b', (0, 0)), ('c', (3, 1)), ('d', (3, 0))]):
        I = ctx.interp()
        K = I.get(f'{M}.hybrid_model', 'HybridModel')
        models = {n: stand_in(I, n, 2, 2) for n, _ in L}
        refuse(ctx, 'two-models-at-one-position-are-refused', f'{M}.hybrid_model:HybridModel {L}',
               lambda: I.call(I.getattr(K, 'get_hybridization_channels'), [hyb_dict(I, [(n, i, False) for n, i in L], models)], {}))


def run_reference(L, res, dims, x_rows, n_in, in_norm=(), out_norm=()):
    outs = []
    for chan in expected(L):
        cur = x_rows
        for n in chan:
            if n in res:
                cur = [a + b for a, b in zip(cur, x_rows)]
            di, do = dims[n]
            z = norm(f'{n}.in', cur) if n in in_norm else cur
            cur = affine(n, di, do, z)
            if n in out_norm:
                cur = denorm(f'{n}.out', cur)
        outs.append(cur)
    return outs


def dims_of(L, res, n_in, n_out):
    """Feature numbers: intermediate models have n_in + 1 outputs."""
    dims = {}
    for chan in expected(L):
        cur = n_in
        for j, n in enumerate(chan):
            di = cur + (n_in if n in res else 0)
            do = n_out if j == len(chan) - 1 else n_in + 1
            dims[n] = (di, do)
            cur = do
    return dims


def forward_case(ctx, L, res, sh, hyb, n_out=2, in_norm=(), out_norm=(), model_out=False, tup=(), extra=None):
    I = ctx.interp()
    n_in = sh[-1]
    w = f'{M}.hybrid_model:HybridModel.forward {L} residual={sorted(res)} {sh} {hyb}' + (
        f' norm={sorted(in_norm)}/{sorted(out_norm)}/{model_out}' if in_norm or out_norm or model_out else '')
    dims = dims_of(L, res, n_in, n_out)
    models = {}
    for n, _ in L:
        at = {}
        if extra != 'bare':
            at = dict(is_model_in_normalized=n in in_norm, is_model_out_normalized=n in out_norm)
            at['_data_scalers'] = PyDict([('features_in', scaler(I, f'{n}.in')), ('features_out', scaler(I, f'{n}.out'))])
        models[n] = stand_in(I, n, *dims[n], out='tuple' if n in tup else 'tensor', **at)
    h = ctx.run('construction', w, lambda: hybrid(I, n_in, n_out, [(n, i, n in res) for n, i in L], models,
                                                  hybridization_type=hyb, is_model_out_normalized=model_out))
    if h is None:
        return
    if model_out:
        h.attrs['_data_scalers'] = PyDict([('features_in', scaler(I, 'H.in')), ('features_out', scaler(I, 'H.out'))])
    x = tens('x', sh)
    y = ctx.run('forward', w, lambda: I.call(h, [x], {}))
    if y is None:
        return
    outs = run_reference(L, res, dims, rows_of(tens('x', sh)), n_in, in_norm, out_norm)
    ref = outs[0] if hyb == 'identity' else [[sum(es, Z) for es in zip(*rs)] for rs in zip(*outs)]
    if model_out:
        ref = norm('H.out', ref)
    ctx.same('output-is-the-composition-of-the-channels', w, y,
             tlib.new([e for r in ref for e in r], sh[:-1] + (n_out,), 'float32', 'torch'))
    ctx.ob('input-unchanged', w, x.vals() == tens('x', sh).vals(), '')


def forward(ctx):
    for L in LAYOUTS:
        names = [n for n, _ in L]
        n_ch = len(expected(L))
        rs = [(), tuple(names), (expected(L)[0][-1],)] if len(names) < 4 else [(), (names[0], names[-1])]
        for res in dict.fromkeys(rs):
            for hyb in (('identity', 'additive') if n_ch == 1 else ('additive',)):
                forward_case(ctx, L, res, (2, 2), hyb, extra='bare')
    for sh in ((1, 2), (3, 1, 2), (2, 2, 2), (1, 2, 3)):
        forward_case(ctx, LAYOUTS[7], ('b',), sh, 'additive', extra='bare')
        forward_case(ctx, LAYOUTS[1], ('b',), sh, 'identity', tup=('a',))
        forward_case(ctx, LAYOUTS[4], ('a',), sh, 'additive', tup=('a', 'b'))


def normalisation(ctx):
    for L in (LAYOUTS[0], LAYOUTS[1], LAYOUTS[2], LAYOUTS[4], LAYOUTS[7]):
        for sh in ((3, 1, 2), (2, 2, 2), (1, 2)):
            for mo in (False, True):
                forward_case(ctx, L, (expected(L)[0][-1],), sh, 'additive', in_norm=('a',), out_norm=(L[-1][0],), model_out=mo)
        if len(expected(L)) == 1:
            for mo in (False, True):
                forward_case(ctx, L, (), (2, 2), 'identity', out_norm=('a',), model_out=mo)
        names = [n for n, _ in L]
        sets = [(), (names[0],), tuple(names)]
        for i, o in itertools.product(sets, sets):
            for mo in (False, True):
                forward_case(ctx, L, (expected(L)[0][-1],), (2, 2), 'additive', in_norm=i, out_norm=o, model_out=mo)


def refusals(ctx):
    w = f'{M}.hybrid_model:HybridModel'

    def one(i, o, sc):
        I = ctx.interp()
        at = dict(is_model_in_normalized=i, is_model_out_normalized=o)
        if sc != 'missing':
            at['_data_scalers'] = None if sc is None else PyDict([(k, scaler(I, k)) if v else (k, None) for k, v in sc])
        return lambda: hybrid(I, 2, 2, [('a', (0, 0), False)], {'a': stand_in(I, 'a', 2, 2, **at)})
    both = [('features_in', True), ('features_out', True)]
    no_in = [('features_in', False), ('features_out', True)]
    no_out = [('features_in', True), ('features_out', False)]
    for i, o, sc, bad in ((True, False, 'missing', True), (False, True, 'missing', True), (True, True, None, True), (False, True, None, True),
                          (True, False, no_in, True), (False, True, no_out, True), (True, True, no_out, True), (True, True, no_in, True),
                          (True, False, [('features_out', True)], True), (False, True, [('features_in', True)], True),
                          (True, True, both, False), (True, False, no_out, False), (False, True, no_in, False), (False, False, 'missing', False),
                          (False, False, None, False)):
        d = f'{w} in={i} out={o} scalers={sc}'
        if bad:
            refuse(ctx, 'submodel-without-the-scalers-it-needs-is-refused', d, one(i, o, sc))
        else:
            if ctx.run('submodel-with-the-scalers-it-needs-is-accepted', d, one(i, o, sc)) is not None:
                ctx.ob('submodel-with-the-scalers-it-needs-is-accepted', d, True)
    I = ctx.interp()
    refuse(ctx, 'unknown-hybridization-is-refused', w, lambda: hybrid(I, 2, 2, [('a', (0, 0), False)], {'a': stand_in(I, 'a', 2, 2)},
                                                                       hybridization_type='product'))
    h = hybrid(I, 2, 2, [('a', (0, 0), False)], {'a': stand_in(I, 'a', 2, 2)})
    refuse(ctx, 'unknown-submodel-is-refused', w, lambda: call(I, h, 'get_hybridized_model', 'b'))
    refuse(ctx, 'non-tensor-input-is-refused', w, lambda: I.call(h, [PyList([Num(C(1)), Num(C(2))])], {}))
    m = fake(I, 'Odd')
    m.attrs['@call'] = lambda I, a, k: PyList([a[0]])
    h = hybrid(I, 2, 2, [('a', (0, 0), False)], {'a': m})
    refuse(ctx, 'unknown-submodel-output-is-refused', w, lambda: I.call(h, [tens('x', (2, 2))], {}))
    for L in LAYOUTS[5:8]:
        I = ctx.interp()
        ms = {n: stand_in(I, n, 2, 2) for n, _ in L}
        h = ctx.run('construction', f'{w} {L}', lambda: hybrid(I, 2, 2, [(n, i, False) for n, i in L], ms, hybridization_type='additive'))
        if h is not None:
            for n in ms:
                ctx.ob('submodel-found-by-its-name', f'{w} {L} {n}', call(I, h, 'get_hybridized_model', n) is ms[n])


def set_model(ctx):
    F = f'{M}.hybridized_model'
    w = f'{F}:set_hybridized_model'
    for scal in (None, 'both', 'in', 'out'):
        for has in ('method', 'attribute'):
            for st in (False, True):
                I = ctx.interp()
                log = []
                made = []

                def build(I, a, k, has=has):
                    log.append(('init', dict(k)))
                    m = fake(I, 'Model', load_state_dict=lambda I, a, k: log.append(('load', a[0])))
                    m.attrs['_data_scalers'] = PyDict([('features_in', None), ('features_out', None)])
                    m.attrs['_is_save_model_init_file'] = False
                    if has == 'method':
                        def sds(I, a, k):
                            b = dict(zip(('scaler_features_in', 'scaler_features_out'), a))
                            b.update(k)
                            m.attrs['_data_scalers'] = PyDict([('features_in', b['scaler_features_in']), ('features_out', b['scaler_features_out'])])
                        m.attrs['set_data_scalers'] = Native(sds, 'set_data_scalers')
                    made.append(m)
                    return m
                K = fake(I, 'ModelClass')
                K.attrs['@call'] = build
                if has == 'method':
                    K.attrs['set_data_scalers'] = Native(lambda I, a, k: None, 'set_data_scalers')
                I.stubs['lib:os.path.isfile'] = lambda I, a, k: True
                tok = PyDict([('w', tens('w', (1,)))])
                I.stubs['lib:torch.load'] = lambda I, a, k: tok
                a, b = scaler(I, 'a'), scaler(I, 'b')
                d = None if scal is None else PyDict([p for p in (('features_in', a), ('features_out', b)) if scal == 'both' or p[0].endswith(scal)])
                kw = dict(model_init_args=PyDict([('n', 3)]), is_input_residual=True, data_scalers=d)
                if st:
                    kw['model_state_file_path'] = 'state.pt'
                c = f'{w} scalers={scal} {has} state={st}'
                r = ctx.run('set', c, lambda: I.call(I.get(F, 'set_hybridized_model'), [K, (1, 2)], kw))
                if r is None:
                    continue
                ctx.ob('model-built-once-from-its-arguments', c, len(made) == 1 and I.as_int(log[0][1].get('n')) == 3, log[:1])
                ctx.ob('entry-holds-model-position-and-residual', c, r.get('hyb_model') is made[0] and tuple(I.as_int(x) for x in I.iterate(r.get('hyb_indices'))) == (1, 2)
                       and r.get('is_input_residual') is True, '')
                ctx.ob('state-loaded-exactly-when-given', c, [x[1] is tok for x in log if x[0] == 'load'] == ([True] if st else []), '')
                ds = made[0].attrs['_data_scalers']
                want = (a if scal in ('both', 'in') else None, b if scal in ('both', 'out') else None)
                ctx.ob('scalers-set-for-their-features', c, (ds.get('features_in'), ds.get('features_out')) == want, '')
    I = ctx.interp()
    K = fake(I, 'ModelClass')
    K.attrs['@call'] = lambda I, a, k: fake(I, 'Model')
    f = I.get(F, 'set_hybridized_model')
    args = lambda: {'model_init_args': PyDict([])}
    for bad in (PyList([1, 2]), (1,), (1, 2, 3), (1, 'a'), 3):
        refuse(ctx, 'bad-position-is-refused', f'{w} {bad}', lambda: I.call(f, [K, bad], args()))
    refuse(ctx, 'bad-residual-flag-is-refused', w, lambda: I.call(f, [K, (0, 0)], dict(args(), is_input_residual=1)))
    refuse(ctx, 'model-without-arguments-is-refused', w, lambda: I.call(f, [K, (0, 0)], {}))
    refuse(ctx, 'init-file-without-initialiser-is-refused', w, lambda: I.call(f, [K, (0, 0)], {'model_init_file_path': 'a.pkl'}))
    refuse(ctx, 'scalers-without-setter-are-refused', w, lambda: I.call(f, [K, (0, 0)], dict(args(), data_scalers=PyDict([('features_in', scaler(I, 'a'))]))))
    I.stubs['lib:os.path.isfile'] = lambda I, a, k: False
    refuse(ctx, 'missing-state-file-is-refused', w, lambda: I.call(f, [K, (0, 0)], dict(args(), model_state_file_path='none.pt')))


ORD = {4: ['11', '22', '33', '12', '23', '13'], 1: ['11', '22', '12']}


def elastic(ctx):
    for mod, second_is_total in ((f'{M}.hybridized_layers', True), (f'{M}.transfer_learning', False)):
        for pt in (4, 1):
            I = ctx.interp()
            w0 = f'{mod}:BatchedElasticModel problem={pt}'
            E, nu = S('E', True), S('v', True)
            props = PyDict([('E', Num(E)), ('v', Num(nu))])
            m = ctx.run('construction', w0, lambda: I.call(I.get(mod, 'BatchedElasticModel'), [pt, props, 'isotropic'], {}))
            if m is None:
                continue
            n = len(ORD[pt])
            lam, mu = E * nu / ((C(1) + nu) * (C(1) - C(2) * nu)), E / (C(2) * (C(1) + nu))

            def stress(e):
                tr = sum((x for x, c in zip(e, ORD[pt]) if c[0] == c[1]), Z)
                return [(lam * tr if c[0] == c[1] else Z) + C(2) * mu * x for x, c in zip(e, ORD[pt])]
            for sh in ((2, n), (1, n), (2, 2, n), (3, 1, n), (1, 2, n), (2, 2 * n), (2, 2, 2 * n), (1, 3, 2 * n)):
                w = f'{w0} {sh}'
                x = tens('x', sh)
                y = ctx.run('forward', w, lambda: I.call(m, [x], {}))
                if y is None:
                    continue
                ref = []
                for r in rows_of(tens('x', sh)):
                    if sh[-1] == 2 * n:
                        r = [b - a for a, b in zip(r[:n], r[n:])] if second_is_total else [a - b for a, b in zip(r[:n], r[n:])]
                    ref += stress(r)
                ctx.same('stress-is-elasticity-of-elastic-strain', w, y, tlib.new(ref, sh[:-1] + (n,), 'float32', 'torch'))
                ctx.ob('input-unchanged', w, x.vals() == tens('x', sh).vals(), '')
            for bad in ((2, n + 1), (2, 2, 3 * n), (2, 2, n - 1)):
                refuse(ctx, 'wrong-feature-number-is-refused', f'{w0} {bad}', lambda: I.call(m, [tens('x', bad)], {}))
        # anisotropic symmetry is the one requested
        I = ctx.interp()
        w = f'{mod}:BatchedElasticModel orthotropic'
        names = ['E1111', 'E1122', 'E1133', 'E2222', 'E2233', 'E3333', 'E1212', 'E2323', 'E1313']
        props = PyDict([(k, Num(S(k, True))) for k in names])
        m = ctx.run('construction', w, lambda: I.call(I.get(mod, 'BatchedElasticModel'), [4, props, 'orthotropic'], {}))
        if m is None:
            continue
        y = ctx.run('forward', w, lambda: I.call(m, [tens('x', (2, 6))], {}))
        if y is None:
            continue
        d = {k: S(k, True) for k in names}
        g = lambda a, b: d.get(f'E{a}{b}') or d.get(f'E{b}{a}') or Z
        ref = []
        for r in rows_of(tens('x', (2, 6))):
            for c in ORD[4]:
                if c[0] == c[1]:
                    ref.append(sum((g(c, q) * x for x, q in zip(r, ORD[4]) if q[0] == q[1]), Z))
                else:
                    ref.append(C(2) * g(c, c) * dict(zip(ORD[4], r))[c])
        ctx.same('stress-of-requested-symmetry', w, y, tlib.new(ref, (2, 6), 'float32', 'torch'))


def voldev(ctx):
    I = ctx.interp()
    mod = f'{M}.hybridized_layers'
    m = I.call(I.get(mod, 'VolDevCompositionModel'), [], {})
    w0 = f'{mod}:VolDevCompositionModel'
    for sh in ((2, 7), (1, 7), (2, 2, 7), (3, 1, 7), (1, 2, 7)):
        x = tens('x', sh)
        y = ctx.run('forward', f'{w0} {sh}', lambda: I.call(m, [x], {}))
        if y is None:
            continue
        ref = [d + (r[0] if c[0] == c[1] else Z) for r in rows_of(tens('x', sh)) for d, c in zip(r[1:], ORD[4])]
        ctx.same('volumetric-part-added-to-normal-components', f'{w0} {sh}', y, tlib.new(ref, sh[:-1] + (6,), 'float32', 'torch'))
        ctx.ob('input-unchanged', f'{w0} {sh}', x.vals() == tens('x', sh).vals(), '')
    for bad in ((2, 6), (2, 2, 8)):
        refuse(ctx, 'wrong-feature-number-is-refused', f'{w0} {bad}', lambda: I.call(m, [tens('x', bad)], {}))


def polynomial(ctx):
    mod = f'{M}.transfer_learning'
    for n, deg, bias in itertools.product((1, 2, 3), (1, 2, 3), (True, False)):
        I = ctx.interp()
        made = []

        def lin(I, a, k):
            n_in, n_out = I.as_int(a[0] if a else k['in_features']), I.as_int(a[1] if len(a) > 1 else k['out_features'])
            b = k.get('bias', a[2] if len(a) > 2 else True)
            j = len(made)

            def f(I, aa, kk):
                x = tlib.as_tensor(I, aa[0])
                if x.shape[-1] != n_in:
                    raise AbsRaise('RuntimeError', f'layer of {n_in} inputs given {x.shape[-1]}')
                d = [sum((S(f'L{j}.{o}{i}') * e for i, e in enumerate(r)), S(f'L{j}.b{o}') if b else Z) for r in rows_of(x) for o in range(n_out)]
                return tlib.new(d, x.shape[:-1] + (n_out,), x.dtype, 'torch')
            o = fake(I, 'Linear')
            o.attrs['@call'] = f
            made.append(o)
            return o
        I.stubs['lib:torch.nn.Linear'] = lin
        w0 = f'{mod}:PolynomialLinearRegressor n={n} degree={deg} bias={bias}'
        m = ctx.run('construction', w0, lambda: I.call(I.get(mod, 'PolynomialLinearRegressor'), [n], {'poly_degree': deg, 'is_bias': bias}))
        if m is None:
            continue
        for sh in ((2, n), (2, 2, n), (1, 2, n), (3, 1, n)):
            x = tens('x', sh)
            y = ctx.run('forward', f'{w0} {sh}', lambda: I.call(m, [x], {}))
            if y is None:
                continue
            ref = []
            for r in rows_of(tens('x', sh)):
                for i, e in enumerate(r):
                    pw = [e ** d for d in range(0 if bias else 1, deg + 1)]
                    ref.append(sum((S(f'L{i}.0{j}') * p for j, p in enumerate(pw)), Z))
            ctx.same('each-feature-is-its-own-polynomial', f'{w0} {sh}', y, tlib.new(ref, sh, 'float32', 'torch'))
            ctx.ob('input-unchanged', f'{w0} {sh}', x.vals() == tens('x', sh).vals(), '')


def parameters(ctx):
    I = ctx.interp()
    w = f'{M}.hybrid_model:HybridModel'
    sync = []

    def mk(n, explicit):
        at = dict(is_explicit_parameters=explicit,
                  get_detached_model_parameters=lambda I, a, k, n=n: PyDict([('E', Num(S(f'{n}.E.{(a[0] if a else k.get("is_normalized_out", False))}')))]),
                  get_model_parameters_bounds=lambda I, a, k, n=n: PyDict([('E', (Num(S(f'{n}.lo')), Num(S(f'{n}.hi'))))]),
                  sync_material_model_parameters=lambda I, a, k, n=n: sync.append(n))
        return stand_in(I, n, 2, 2, **at)
    ms = {'a': mk('a', True), 'b': mk('b', False), 'c': stand_in(I, 'c', 2, 2), 'd': mk('d', True)}
    h = ctx.run('construction', w, lambda: hybrid(I, 2, 2, [('a', (0, 1), False), ('b', (0, 0), False), ('c', (1, 0), False), ('d', (1, 1), False)], ms,
                                                  hybridization_type='additive'))
    if h is None:
        return
    for nrm in (True, False):
        p = ctx.run('parameters', w, lambda: call(I, h, 'get_detached_model_parameters', is_normalized_out=nrm))
        if p is not None:
            ctx.ob('parameters-of-every-explicit-submodel', f'{w}.get_detached_model_parameters {nrm}', sorted(p.keys()) == ['a_E', 'd_E'] and
                   all(to_expr(p.get(f'{n}_E')) == S(f'{n}.E.{nrm}') for n in 'ad'), sorted(p.keys()))
    p = ctx.run('bounds', w, lambda: call(I, h, 'get_model_parameters_bounds'))
    if p is not None:
        ctx.ob('bounds-of-every-explicit-submodel', f'{w}.get_model_parameters_bounds', sorted(p.keys()) == ['a_E', 'd_E'] and
               all([to_expr(x) for x in I.iterate(p.get(f'{n}_E'))] == [S(f'{n}.lo'), S(f'{n}.hi')] for n in 'ad'), sorted(p.keys()))
    if ctx.run('sync', w, lambda: (call(I, h, 'sync_material_model_parameters'), 1)[1]) is not None:
        ctx.ob('every-submodel-synchronised', f'{w}.sync_material_model_parameters', sorted(sync) == ['a', 'b', 'd'], sync)


def repeated(ctx):
    """The model keeps nothing of an earlier input, and submodels that hand their input on are safe."""
    w = f'{M}.hybrid_model:HybridModel.forward'
    for L in (LAYOUTS[1], LAYOUTS[4], LAYOUTS[7], LAYOUTS[8]):
        for res in ((), ('b',)):
            I = ctx.interp()
            dims = dims_of(L, res, 2, 2)
            ms = {n: stand_in(I, n, *dims[n]) for n, _ in L}
            h = ctx.run('construction', w, lambda: hybrid(I, 2, 2, [(n, i, n in res) for n, i in L], ms, hybridization_type='additive'))
            if h is None:
                continue
            for nm, sh in (('x', (2, 2)), ('y', (2, 2)), ('z', (3, 2, 2)), ('x', (2, 2))):
                t = tens(nm, sh)
                y = ctx.run('forward', f'{w} {L} repeated', lambda: I.call(h, [t], {}))
                if y is None:
                    continue
                outs = run_reference(L, res, dims, rows_of(tens(nm, sh)), 2)
                ref = [[sum(es, Z) for es in zip(*rs)] for rs in zip(*outs)]
                ctx.same('output-depends-on-the-current-input-only', f'{w} {L} {sorted(res)} {nm} {sh}', y,
                         tlib.new([e for r in ref for e in r], sh, 'float32', 'torch'))
    for k in (1, 2, 3):
        for first in range(k):
            I = ctx.interp()
            ms, names = {}, 'abc'[:k]
            for j, n in enumerate(names):
                if j == first:
                    m = fake(I, 'PassThrough')
                    m.attrs['@call'] = lambda I, a, k: a[0]
                    ms[n] = m
                else:
                    ms[n] = stand_in(I, n, 2, 2)
            c = f'{w} {k} channels, channel {first} hands on its input'
            h = ctx.run('construction', c, lambda: hybrid(I, 2, 2, [(n, (j, 0), False) for j, n in enumerate(names)], ms, hybridization_type='additive'))
            if h is None:
                continue
            x = tens('x', (2, 2))
            y = ctx.run('forward', c, lambda: I.call(h, [x], {}))
            if y is None:
                continue
            rows = rows_of(tens('x', (2, 2)))
            outs = [rows if j == first else affine(n, 2, 2, rows) for j, n in enumerate(names)]
            ctx.same('output-is-the-composition-of-the-channels', c, ex(y), [[sum(es, Z) for es in zip(*rs)] for rs in zip(*outs)])
            ctx.ob('input-unchanged', c, x.vals() == tens('x', (2, 2)).vals(), '')
