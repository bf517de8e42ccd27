"""P07 - elasticity.  The elasticity matrix is evaluated with unrestricted moduli
for every elastic symmetry and compared, entry by entry, with the Kelvin form of
the fourth-order tensor the moduli define (major/minor symmetric, zero and
dependent entries as the symmetry class requires); the two isotropic
parametrisations are related through the technical constants; the elastic state
update is evaluated on arbitrary strain and state in 2D plane strain and 3D."""
from .. import alg
from ..common import *
from .p03 import SYM

FLOOR = 30
M = 'simulators.fetorch.material.models.standard.elastic'
Z, HALF = alg.ZERO, alg.const(1) / alg.const(2)
R2 = alg.sqrt(alg.const(2))
O = SYM[3]
IND = {
    'isotropic': ('1111', '1122'),
    'transverse_isotropic': ('1111', '3333', '1122', '1133', '2323'),
    'orthotropic': ('1111', '2222', '3333', '1122', '1133', '2233', '1212', '2323', '1313'),
    'monoclinic': ('1111', '2222', '3333', '1122', '1133', '2233', '1112', '2212', '3312', '1212', '2323', '1313', '2313'),
    'triclinic': tuple(a + b for i, a in enumerate(O) for b in O[i:]),
}


def full(symm, m):
    """Independent moduli -> value of every Eijkl (pairs in either order)."""
    t = dict(m)
    if symm == 'isotropic':
        t.update({'2222': m['1111'], '3333': m['1111'], '1133': m['1122'], '2233': m['1122']})
        s = HALF * (m['1111'] - m['1122'])
        t.update({'1212': s, '2323': s, '1313': s})
    elif symm == 'transverse_isotropic':
        t.update({'2222': m['1111'], '2233': m['1133'], '1212': HALF * (m['1111'] - m['1122']), '1313': m['2323']})

    def get(a, b):
        for k in (a + b, b + a):
            if k in t:
                return t[k]
        return Z
    return get


def kf(c):
    return R2 if c[0] != c[1] else alg.ONE


def ref_matrix(symm, m):
    get = full(symm, m)
    return [[kf(a) * kf(b) * get(a, b) for b in O] for a in O]


def iso(E, v):
    lam = E * v / ((1 + v) * (1 - 2 * v))
    mu = E / (2 * (1 + v))
    return [[(lam if a[0] == a[1] and b[0] == b[1] else Z) + (2 * mu if a == b else Z) for b in O] for a in O]


def groups(tier):
    return [(s, lambda ctx, s=s: tangent(ctx, s)) for s in IND] + [
        ('isotropic constants', constants), ('special moduli', special)] + [
        (f'state update {d}D {k}', lambda ctx, a=(d, k): update(ctx, *a)) for d in (2, 3) for k in ('technical', 'moduli')]


def tangent(ctx, symm):
    I = ctx.interp()
    w = f'{M}:Elastic.elastic_tangent_modulus {symm}'
    names = I.call(I.get(M, 'Elastic.get_available_elastic_symmetries'), [], {})
    req = {str(x)[1:] for x in I.iterate(names.get(symm))} if isinstance(names, PyDict) and names.has(symm) else None
    ctx.ob('independent-moduli', f'{M}:Elastic.get_available_elastic_symmetries {symm}',
           req is not None and {norm(x) for x in req} == {norm(x) for x in IND[symm]}, req)
    m = {k: S('E' + k) for k in IND[symm]}
    r = ctx.run('elasticity-matrix', w, lambda: I.call(I.get(M, 'Elastic.elastic_tangent_modulus'),
                [PyDict([('E' + k, Num(v)) for k, v in m.items()])], {'elastic_symmetry': symm}))
    if r is None:
        return
    ctx.ob('matrix-shape', w, r.shape == (6, 6), r.shape)
    if r.shape != (6, 6):
        return
    v, ref = ex(r), ref_matrix(symm, m)
    for i, a in enumerate(O):
        for j, b in enumerate(O):
            ctx.same('elasticity-entry', f'{w} [{a},{b}]', v[i][j], ref[i][j])
    ctx.ob('major-symmetry', w, all(alg.equal(v[i][j], v[j][i]) for i in range(6) for j in range(6)), '')


def norm(k):
    return min(k, k[2:] + k[:2])


def constants(ctx):
    I = ctx.interp()
    w = f'{M}:Elastic.get_technical_from_elastic_moduli'
    a, b = S('E1111'), S('E1122')
    f = I.get(M, 'Elastic.get_technical_from_elastic_moduli')
    r = ctx.run('technical-constants', w, lambda: I.call(f, ['isotropic', PyDict([('E1111', Num(a)), ('E1122', Num(b))])], {}))
    E, v = S('E'), S('v')
    g = I.get(M, 'Elastic.elastic_tangent_modulus')
    t = ctx.run('elasticity-matrix', w, lambda: I.call(g, [PyDict([('E', Num(E)), ('v', Num(v))])], {}))
    if t is not None:
        ctx.same('isotropic-elasticity', f'{M}:Elastic.elastic_tangent_modulus E,v', ex(t), iso(E, v))
    if r is not None:
        Ev, vv = to_expr(r.get('E')), to_expr(r.get('v'))
        ctx.same('technical-constants-consistent', w, iso(Ev, vv), ref_matrix('isotropic', {'1111': a, '1122': b}))
        q = ctx.run('elasticity-matrix', w, lambda: I.call(g, [r], {}))
        if q is not None:
            ctx.same('parametrisations-agree', f'{M}:Elastic.elastic_tangent_modulus', ex(q),
                     ref_matrix('isotropic', {'1111': a, '1122': b}))
    r = ctx.run('technical-constants', w, lambda: I.call(f, ['isotropic', PyDict([('E', Num(E)), ('v', Num(v))])], {}))
    if r is not None:
        ctx.same('technical-constants-kept', w, [to_expr(r.get('E')), to_expr(r.get('v'))], [E, v])


def update(ctx, d, kind):
    I = ctx.interp()
    pt = {2: 1, 3: 4}[d]
    w = f'{M}:Elastic.state_update {d}D {kind}'
    if kind == 'technical':
        E, v = S('E', True), S('v')
        par = [('E', Num(E)), ('v', Num(v))]
        D = iso(E, v)
    else:
        a, b = S('E1111', True), S('E1122', True)
        par = [('E1111', Num(a)), ('E1122', Num(b))]
        D = ref_matrix('isotropic', {'1111': a, '1122': b})
    params = PyDict([('elastic_symmetry', 'isotropic')] + par)
    m = ctx.run('construct', w, lambda: I.call(I.get(M, 'Elastic'), ['infinitesimal', pt, params], {}))
    if m is None:
        return
    init = ctx.run('initial-state', w, lambda: I.call(I.getattr(m, 'state_init'), [], {}))
    if init is None:
        return
    keys = {k for k, _ in init.d.values()}
    o = SYM[d]
    n = len(o)
    for k in ('e_strain_mf', 'strain_mf', 'stress_mf'):
        ok = init.has(k) and isinstance(init.get(k), Tensor) and init.get(k).shape == (n,)
        ctx.ob('initial-state-is-zero', f'{w} {k}', ok and all(x == Z for x in init.get(k).vals()), '')
    eps = mat('e', d, d, sym=True)
    old = PyDict([(k, v) for k, v in init.d.values()])
    old.set('e_strain_mf', vec('o', n))
    old.set('strain_mf', vec('o', n))
    old.set('stress_mf', vec('p', n))
    if d == 2:
        old.set('e_strain_33', tlib.new([S('o33')], (), 'float32', 'torch'))
    r = ctx.run('state-update', w, lambda: I.call(I.getattr(m, 'state_update'), [eps, old], {}))
    if r is None:
        return
    st, C = I.iterate(r)
    ev = ex(eps)
    et = {c: S(f'o{o.index(c) + 1}') + kf(c) * ev[int(c[0]) - 1][int(c[1]) - 1] if c in o else
          (S('o33') if c == '33' else Z) for c in O}
    sig = [sum((D[i][j] * et[c] for j, c in enumerate(O)), Z) for i in range(6)]
    ctx.ob('state-keys-closed', w, {k for k, _ in st.d.values()} == keys, '')
    ctx.same('stress-is-elasticity-times-strain', w, ex(st.get('stress_mf')), [sig[O.index(c)] for c in o])
    ctx.same('strain-accumulates', w, ex(st.get('strain_mf')), [et[c] for c in o])
    ctx.same('elastic-strain-accumulates', w, ex(st.get('e_strain_mf')), [et[c] for c in o])
    ctx.same('tangent-is-elasticity', w, ex(C), [[D[O.index(a)][O.index(b)] for b in o] for a in o])
    if d == 2:
        ctx.same('out-of-plane-stress', w, st.get('stress_33'), sig[O.index('33')])
        ctx.same('out-of-plane-strain', w, st.get('e_strain_33'), S('o33'))
    for k in ('is_plast', 'is_su_fail'):
        x = st.get(k)
        x = x.item() if isinstance(x, Tensor) else x
        ctx.ob('no-plasticity-no-failure', f'{w} {k}', x is False or x == Z, x)
    ctx.ob('inputs-unchanged', w, old.get('e_strain_mf').vals() == vec('o', n).vals() and
           list(eps.vals()) == list(mat('e', d, d, sym=True).vals()), '')


def special(ctx):
    """Moduli that happen to be zero or negative are used as given; a missing
    modulus and an unknown symmetry are refused."""
    f = lambda I: I.get(M, 'Elastic.elastic_tangent_modulus')
    pd = lambda m: PyDict([('E' + k, Num(v)) for k, v in m.items()])
    for symm in IND:
        for zero in IND[symm]:
            for v in (0, -3):
                m = {k: alg.const(7 + i * i) for i, k in enumerate(IND[symm])}
                m[zero] = alg.const(v)
                I = ctx.interp()
                w = f'{M}:Elastic.elastic_tangent_modulus {symm} E{zero}={v}'
                r = ctx.run('elasticity-matrix', w, lambda: I.call(f(I), [pd(m)], {'elastic_symmetry': symm}))
                if r is not None and r.shape == (6, 6):
                    ctx.same('elasticity-entry', w, ex(r), ref_matrix(symm, m))
            m = {k: alg.const(7 + i * i) for i, k in enumerate(IND[symm]) if k != zero}
            I = ctx.interp()
            ctx.refuse('missing-modulus-refused', f'{M}:Elastic.elastic_tangent_modulus {symm} without E{zero}',
                       lambda: I.call(f(I), [pd(m)], {'elastic_symmetry': symm}))
    I = ctx.interp()
    ctx.refuse('unknown-symmetry-refused', f'{M}:Elastic.elastic_tangent_modulus cubic',
               lambda: I.call(f(I), [pd({'1111': alg.const(3), '1122': alg.const(1)})], {'elastic_symmetry': 'cubic'}))
    # auxetic, incompressible-limit-free and zero Poisson ratios
    for v in (alg.ZERO, alg.const(-1) / 4, alg.const(49) / 100):
        I = ctx.interp()
        w = f'{M}:Elastic.elastic_tangent_modulus v={v}'
        r = ctx.run('elasticity-matrix', w, lambda: I.call(f(I), [PyDict([('E', Num(S('E', True))), ('v', Num(v))])], {'elastic_symmetry': 'isotropic'}))
        if r is not None:
            ctx.same('isotropic-elasticity', w, ex(r), iso(S('E', True), v))
