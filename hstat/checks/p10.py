"""P10 - state update discipline.  The state update of every constitutive model is
evaluated abstractly on an arbitrary previous state and strain increment, once with
single and once with double default precision.  Decided for every outcome (elastic,
plastic, failed): the default precision of the process is left as found, the set of
state variables and their shapes are those of the initial state, values come back in
the precision of the inputs, and neither the previous state, the increment nor the
model parameters are modified.  The dictionary conversions of parameters and states
are evaluated on nested dictionaries."""
from .. import alg
from ..common import *
from .p03 import SYM
from .p09 import MODELS, P, law, C, Z

FLOOR = 60
LIMIT = 400
TC = 'utilities.type_conversion'
M = dict(MODELS)
M['Elastic'] = ('standard.elastic', 'elastic')


def groups(tier):
    g = [(f'{n} {d}D {dt}', lambda ctx, a=(n, d, dt): model(ctx, *a)) for n in M for d in (3, 2) for dt in ('float32', 'float64')]
    g += [(f'{n} {d}D float32 kept', lambda ctx, a=(n, d): model(ctx, *a, 'float32', False)) for n in MODELS for d in (3, 2)]
    return g + [('conversions', conversions)]


def snap(v):
    """Content of nested dictionaries / tensors, as comparable data."""
    if isinstance(v, PyDict):
        return ('dict', tuple((str(k), snap(x)) for k, x in v.d.values()))
    if isinstance(v, Tensor):
        return ('tensor', v.shape, v.dtype, tuple(v.vals()))
    if isinstance(v, IteV):
        return ('ite', v.c, snap(v.a), snap(v.b))
    if isinstance(v, Num):
        return ('num', v.e)
    return ('obj', v if isinstance(v, (str, int, float, bool, tuple, type(None))) else id(v))


def same_snap(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'dict':
        return len(a[1]) == len(b[1]) and all(x[0] == y[0] and same_snap(x[1], y[1]) for x, y in zip(a[1], b[1]))
    if a[0] == 'tensor':
        return a[1:3] == b[1:3] and all(x is y or x == y for x, y in zip(a[3], b[3]))
    return a[1:] == b[1:]


def shapes(v):
    if isinstance(v, IteV):
        a, b = shapes(v.a), shapes(v.b)
        return a if a == b else None
    if isinstance(v, Tensor):
        return v.shape
    return ()


def dtypes(v):
    if isinstance(v, IteV):
        return dtypes(v.a) | dtypes(v.b)
    return {v.dtype} if isinstance(v, Tensor) else set()


def model(ctx, name, d, dt, up=None):
    mod, kind = M[name]
    w = f'{P}{mod}:{name}.state_update {d}D default {dt}{"" if up is None else " without internal conversion"}'
    I = ctx.interp()
    I.small_symbol = Z
    I.state.set('default_dtype', dt)
    alg.DERIV['Y'] = lambda a, k: alg.fn('H', a, pos=True)
    alg.DERIV['KY'] = lambda a, k: alg.fn('KH', a, pos=True)

    def plaw(names):
        def f(I, a, k):
            x = a[1] if len(a) > 1 else k['acc_p_strain']
            e = tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)
            return tuple(tlib.new([alg.fn(m, (e,), pos=True)], (), x.dtype if isinstance(x, Tensor) else dt, 'torch') for m in names)
        return Native(f, names[0])
    par = PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(S('E', True))), ('v', Num(C(3) / C(10))), ('euler_angles', (0, 0, 0)),
                  ('hardening_law', plaw(('Y', 'H'))), ('hardening_parameters', PyDict([('a', Num(S('hp', True)))])),
                  ('kinematic_hardening_law', plaw(('KY', 'KH'))), ('kinematic_hardening_parameters', PyDict([('a', Num(S('kp', True)))])),
                  ('yield_cohesion_parameter', Num(S('xi', True))), ('yield_pressure_parameter', Num(S('ety', True))),
                  ('flow_pressure_parameter', Num(S('etf', True)))])
    cls = I.get(P + mod, name)
    m = ctx.run('construction', w, lambda: I.call(cls, ['infinitesimal', {2: 1, 3: 4}[d], par], {} if up is None else {'is_su_float64': up}))
    if m is None:
        return
    init = I.call(I.getattr(m, 'state_init'), [], {})
    if not isinstance(init, PyDict):
        raise Undecided('initial state')
    for k, v in init.d.values():
        t = v.vals() if isinstance(v, Tensor) else [v]
        ctx.ob('initial-state-is-virgin', f'{w} {k}', all(x is False or not isinstance(x, bool) and to_expr(x) == Z for x in t), '')
    old = PyDict([])
    for k, v in init.d.values():
        if isinstance(v, Tensor) and v.dtype.startswith('float'):
            n = tlib.numel(v.shape)
            e = [C(3 * i + 2) / C(7 + i) if k != 'acc_p_strain' else S('acc') for i in range(n)]
            if k == 'back_stress_mf':       # deviatoric
                e = [S('E', True) * C(2 * i + 1) / C(13) for i in range(n)]
                if d == 3:
                    e[2] = -e[0] - e[1]
            elif k == 'back_stress_33':
                e = [-S('E', True) * C(4) / C(13)]
            old.set(k, tlib.new(e, v.shape, dt, 'torch'))
        elif is_num(v) and not isinstance(v, bool):
            old.set(k, tlib.new([C(5) / 11], (), dt, 'torch'))
        else:
            old.set(k, v)
    inc = mat('e', d, d, dtype=dt, sym=True)
    mp = m.attrs.get('_model_parameters')
    b_old, b_inc, b_par = snap(old), snap(inc), snap(mp) if mp is not None else None
    r = ctx.run('state-update', w, lambda: I.call(I.getattr(m, 'state_update'), [inc, old], {}))
    if r is None:
        return
    st, tang = I.iterate(r)
    dd = I.simp(I.state.get('default_dtype'))
    ctx.ob('default-precision-restored', w, dd == dt, dd)
    ctx.ob('previous-state-unchanged', w, same_snap(b_old, snap(old)), '')
    ctx.ob('increment-unchanged', w, same_snap(b_inc, snap(inc)), '')
    if b_par is not None:
        ctx.ob('parameters-unchanged', w, same_snap(b_par, snap(m.attrs.get('_model_parameters'))), '')
    if not isinstance(st, PyDict):
        raise Undecided('state is not a dictionary')
    ki, ks = {k for k, _ in init.d.values()}, {k for k, _ in st.d.values()}
    ctx.ob('state-variables-closed', w, ki == ks, sorted(ki ^ ks))
    for k in sorted(ki & ks):
        ctx.ob('state-variable-shape', f'{w} {k}', shapes(st.get(k)) == shapes(init.get(k)), f'{shapes(st.get(k))} {shapes(init.get(k))}')
        if isinstance(old.get(k), Tensor):
            ctx.ob('state-variable-precision', f'{w} {k}', dtypes(st.get(k)) == dtypes(old.get(k)), dtypes(st.get(k)))
    n = len(SYM[d])
    ctx.ob('tangent-shape', w, shapes(tang) == (n, n), shapes(tang))
    ctx.ob('tangent-precision', w, dtypes(tang) == {dt}, dtypes(tang))


def nested(dt):
    t = lambda n, dtp: tlib.new([S(n)], (), dtp, 'torch')
    return PyDict([('a', t('a', dt)), ('n', PyDict([('b', t('b', dt)), ('i', tlib.new([C(3)], (), 'int64', 'torch')), ('s', 'x'),
                   ('nn', PyDict([('c', t('c', dt)), ('f', 2)]))])), ('m', True), ('z', t('z', dt))])


def conversions(ctx):
    for to in ('float32', 'float64'):
        frm = 'float64' if to == 'float32' else 'float32'
        for inplace in (True, False):
            I = ctx.interp()
            src = nested(frm)
            f = I.get(TC, f'convert_dict_to_{to}')
            w = f'{TC}:convert_dict_to_{to} is_inplace={inplace}'
            before = snap(src)
            r = ctx.run('conversion', w, lambda: I.call(f, [src], {'is_inplace': inplace}))
            if r is None:
                continue
            ctx.ob('all-float-entries-converted', w, same_snap(snap(r), snap(nested(to))), str(snap(r))[:200])
            if inplace:
                ctx.ob('in-place-conversion-updates-argument', w, same_snap(snap(src), snap(nested(to))), '')
            else:
                ctx.ob('out-of-place-conversion-keeps-argument', w, same_snap(snap(src), before), '')
        I = ctx.interp()
        t = tlib.new([S('q')], (), frm, 'torch')
        r = ctx.run('conversion', f'{TC}:convert_tensor_to_{to}', lambda: I.call(I.get(TC, f'convert_tensor_to_{to}'), [t], {}))
        if r is not None:
            ctx.ob('tensor-converted', f'{TC}:convert_tensor_to_{to}', isinstance(r, Tensor) and r.dtype == to and r.vals() == t.vals(), r)
            i = tlib.new([C(2)], (), 'int64', 'torch')
            q = I.call(I.get(TC, f'convert_tensor_to_{to}'), [i], {})
            ctx.ob('non-float-kept', f'{TC}:convert_tensor_to_{to}', q is i or isinstance(q, Tensor) and q.dtype == 'int64', q)
    for inplace in (True, False):
        I = ctx.interp()
        w = f'{TC}:convert_dict_to_tensor is_inplace={inplace}'
        fn = Native(lambda I, a, k: None, 'law')
        mk = lambda: PyDict([('E', Num(S('E'))), ('law', fn), ('n', PyDict([('a', Num(S('a'))), ('s', 'x'), ('nn', PyDict([('b', Num(C(3) / C(2)))]))])), ('t', vec('t', 2)), ('k', True), ('s', 'iso')])
        src = mk()
        before = snap(src)
        r = ctx.run('conversion', w, lambda: I.call(I.get(TC, 'convert_dict_to_tensor'), [src], {'is_inplace': inplace}))
        if r is None:
            continue
        ok = isinstance(r, PyDict) and [k for k, _ in r.d.values()] == ['E', 'law', 'n', 't', 'k', 's']
        ctx.ob('every-entry-kept', w, ok, '')
        if not ok:
            continue
        n = r.get('n')
        ok = isinstance(n, PyDict) and n.has('a') and n.has('s') and n.has('nn') and n.get('nn').has('b')
        ctx.ob('nested-entries-kept', w, ok, '')
        if not ok:
            continue

        def num(v, e):
            return isinstance(v, Tensor) and v.shape == () and alg.equal(tlib.E(v.item()), e)
        ctx.ob('numbers-become-tensors', w, num(r.get('E'), S('E')) and num(n.get('a'), S('a')) and num(n.get('nn').get('b'), C(3) / C(2)), '')
        ctx.ob('other-values-kept', w, r.get('law') is fn and r.get('s') == 'iso' and n.get('s') == 'x' and
               isinstance(r.get('t'), Tensor) and r.get('t').vals() == vec('t', 2).vals(), '')
        if not inplace:
            ctx.ob('out-of-place-conversion-keeps-argument', w, same_snap(snap(src), before), '')
        else:
            ctx.ob('in-place-conversion-updates-argument', w, same_snap(snap(src), snap(r)), '')
