"""P03 - Kelvin matricial form.  The conversion routines (loop based and
vectorised) are evaluated abstractly on tensors with unrestricted entries, for
both problem types and for the canonical and permuted component orders; the
result of each routine is compared, entry by entry, with the definition of the
Kelvin form, the round trip with the identity, and the contraction of matricial
forms with the contraction of the tensors."""
import itertools

from .. import alg
from ..common import *
from .p13 import refuse

FLOOR = 60
M = 'simulators.fetorch.math.matrixops'
SYM = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
NSYM = {2: ('11', '21', '12', '22'), 3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}
R2 = alg.sqrt(alg.const(2))


def orders(tier):
    out = []
    for d in (2, 3):
        out += [(d, 'sym', SYM[d]), (d, 'nsym', NSYM[d])]
        out += [(d, 'sym', tuple(reversed(SYM[d]))), (d, 'nsym', tuple(reversed(NSYM[d])))]
        out += [(d, 'sym', tuple(c[::-1] for c in SYM[d]))]
    out += [(3, 'sym', ('12', '33', '13', '11', '23', '22'))]
    if tier == 'thorough':
        out += [(2, 'sym', p) for p in itertools.permutations(SYM[2])]
        out += [(2, 'nsym', p) for p in itertools.permutations(NSYM[2])]
        out += [(3, 'sym', tuple(SYM[3][k:] + SYM[3][:k])) for k in range(1, 6)]
        out += [(3, 'nsym', tuple(NSYM[3][k:] + NSYM[3][:k])) for k in range(1, 9)]
    seen, res = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


def fac(c, kind):
    return R2 if kind == 'sym' and c[0] != c[1] else alg.ONE


def sym_tensor(name, d, order, kind):
    def canon(p):
        return ''.join(sorted(p)) if kind == 'sym' else p
    data = []
    for ix in itertools.product('123'[:d], repeat=order):
        s = ''.join(ix)
        data.append(S(name + '_'.join(canon(s[k:k + 2]) for k in range(0, order, 2))))
    return tlib.new(data, (d,) * order, 'float32', 'torch')


def at(t, s):
    v = t
    for c in s:
        v = v[int(c) - 1]
    return v


def groups(tier):
    g = [('parameters', params), ('kelvin-factor', kfactor), ('2d-3d', dims), ('refusals', refusals), ('complex entries', complexes)]
    for i, (d, kind, o) in enumerate(orders(tier)):
        for order in (2, 4):
            g.append((f'{d}D {kind} {",".join(o)} order {order}',
                      lambda ctx, a=(d, kind, o, order): forms(ctx, *a)))
    return g


def params(ctx):
    I = ctx.interp()
    f = I.get(M, 'get_problem_type_parameters')
    for pt, d in ((1, 2), (4, 3)):
        w = f'{M}:get_problem_type_parameters({pt})'
        r = ctx.run('problem-type-parameters', w, lambda: I.call(f, [pt], {}))
        if r is None:
            continue
        n_dim, s, n = I.iterate(r)
        n_dim, s, n = I.as_int(n_dim), list(I.iterate(s)), list(I.iterate(n))
        ctx.ob('dimension', w, n_dim == d, n_dim)
        full = {''.join(p) for p in itertools.product('123'[:d], repeat=2)}
        ctx.ob('symmetric-components-complete', w,
               sorted(''.join(sorted(c)) for c in s) == sorted({''.join(sorted(c)) for c in full}), s)
        ctx.ob('components-complete', w, sorted(n) == sorted(full), n)


def kfactor(ctx):
    I = ctx.interp()
    f = I.get(M, 'kelvin_factor')
    for d in (2, 3):
        for kind, o in (('sym', SYM[d]), ('nsym', NSYM[d])):
            for i, c in enumerate(o):
                w = f'{M}:kelvin_factor({c})'
                r = ctx.run('kelvin-factor', w, lambda: I.call(f, [i, from_py(o)], {}))
                if r is not None:
                    ctx.same('kelvin-factor', w + kind, r, fac(c, kind))
            for (i, a), (j, b) in itertools.product(enumerate(o), repeat=2):
                w = f'{M}:kelvin_factor({a},{b})'
                r = ctx.run('kelvin-factor', w, lambda: I.call(f, [PyList([i, j]), from_py(o)], {}))
                if r is not None:
                    ctx.same('kelvin-factor', w + kind, r, fac(a, kind) * fac(b, kind))


def forms(ctx, d, kind, o, order):
    tag = f'{d}D {kind} order-{order} {",".join(o)}'
    T = sym_tensor('t', d, order, kind)
    n = len(o)
    tv = ex(T)
    if order == 2:
        ref = [fac(c, kind) * at(tv, c) for c in o]
    else:
        ref = [[fac(a, kind) * fac(b, kind) * at(tv, a + b) for b in o] for a in o]
    mfs = {}
    for name in ('get_tensor_mf', 'vget_tensor_mf'):
        I = ctx.interp()
        w = f'{M}:{name}'
        t0 = T.vals()
        r = ctx.run('matricial-form', f'{w} {tag}', lambda: I.call(I.get(M, name), [T, d, from_py(o)], {}))
        if r is None:
            continue
        ctx.ob('input-unchanged', f'{w} {tag}', list(t0) == list(T.vals()), '')
        mfs[name] = r
        ctx.same('kelvin-definition', f'{w} {tag}', ex(r), ref)
    MF = tens('m', (n,) * (order // 2))
    mv = ex(MF)

    def ix(c):
        return o.index(c) if c in o else o.index(c[::-1])
    for name in ('get_tensor_from_mf', 'vget_tensor_from_mf'):
        I = ctx.interp()
        w = f'{M}:{name}'
        m0 = MF.vals()
        r = ctx.run('tensor-form', f'{w} {tag}', lambda: I.call(I.get(M, name), [MF, d, from_py(o)], {}))
        if r is None:
            continue
        ctx.ob('input-unchanged', f'{w} {tag}', list(m0) == list(MF.vals()), '')
        ok = r.shape == (d,) * order
        ctx.ob('tensor-shape', f'{w} {tag}', ok, r.shape)
        if not ok:
            continue
        rv = ex(r)
        good, bad = True, ''
        for c in itertools.product('123'[:d], repeat=order):
            c = ''.join(c)
            if order == 2:
                e = mv[ix(c)] / fac(c, kind)
            else:
                e = mv[ix(c[:2])][ix(c[2:])] / (fac(c[:2], kind) * fac(c[2:], kind))
            if not alg.equal(at(rv, c), e):
                good, bad = False, f'component {c}: {at(rv, c)} != {e}'
        ctx.ob('kelvin-inverse', f'{w} {tag}', good, bad)
        # round trip through both matricial-form routines
        for gname in ('get_tensor_mf', 'vget_tensor_mf'):
            J = ctx.interp()
            b = ctx.run('round-trip', f'{w} {gname} {tag}', lambda: J.call(J.get(M, gname), [r, d, from_py(o)], {}))
            if b is not None:
                ctx.same('round-trip', f'{w}->{gname} {tag}', b, MF)
    # contraction is preserved
    B = sym_tensor('u', d, 2, kind)
    bv = ex(B)
    I = ctx.interp()
    b = ctx.run('matricial-form', f'{M}:vget_tensor_mf {tag}', lambda: I.call(I.get(M, 'vget_tensor_mf'), [B, d, from_py(o)], {}))
    for name, m in mfs.items():
        if b is None or m.shape != (n,) * (order // 2):
            continue
        m, bb = ex(m), ex(b)
        pairs = [''.join(p) for p in itertools.product('123'[:d], repeat=2)]
        if order == 2:
            lhs = sum((x * y for x, y in zip(m, bb)), alg.ZERO)
            rhs = sum((at(tv, p) * at(bv, p) for p in pairs), alg.ZERO)
            ctx.same('contraction-preserved', f'{M}:{name} {tag}', lhs, rhs)
        else:
            for i, a in enumerate(o):
                lhs = sum((m[i][j] * bb[j] for j in range(n)), alg.ZERO)
                rhs = fac(a, kind) * sum((at(tv, a + p) * at(bv, p) for p in pairs), alg.ZERO)
                ctx.same('contraction-preserved', f'{M}:{name} {tag} row {a}', lhs, rhs)


def dims(ctx):
    for kind, o2, o3 in (('sym', SYM[2], SYM[3]), ('nsym', NSYM[2], NSYM[3])):
        m2 = vec('p', len(o2))
        m3 = vec('q', len(o3))
        c33 = S('c33')
        n33 = Num(c33)
        for name, args in (('get_state_3Dmf_from_2Dmf', [1, m2, n33]), ('vget_state_3Dmf_from_2Dmf', [m2, n33]),
                           ('vget_state_3Dmf_from_2Dmf', [m2, tlib.new([c33], (), 'float32', 'torch')])):
            I = ctx.interp()
            w = f'{M}:{name} {kind}'
            r = ctx.run('3d-from-2d', w, lambda: I.call(I.get(M, name), args, {}))
            if r is None:
                continue
            ref = [c33 if c == '33' else ex(m2)[o2.index(c)] if c in o2 else alg.ZERO for c in o3]
            ctx.same('3d-from-2d', w, ex(r), ref)
            for back, a in (('get_state_2Dmf_from_3Dmf', [1, r]), ('vget_state_2Dmf_from_3Dmf', [r])):
                b = ctx.run('2d-3d-round-trip', f'{w} {back}', lambda: I.call(I.get(M, back), a, {}))
                if b is not None:
                    ctx.same('2d-3d-round-trip', f'{w} {back}', b, m2)
        for name, pre in (('get_state_2Dmf_from_3Dmf', [1]), ('vget_state_2Dmf_from_3Dmf', [])):
            I = ctx.interp()
            w = f'{M}:{name} {kind}'
            r = ctx.run('2d-from-3d', w, lambda: I.call(I.get(M, name), pre + [m3], {}))
            if r is not None:
                ctx.same('2d-from-3d', w, ex(r), [ex(m3)[o3.index(c)] for c in o2])
            K = tens('k', (len(o3), len(o3)))
            r = ctx.run('2d-from-3d', w + ' tangent', lambda: I.call(I.get(M, name), pre + [K], {}))
            if r is not None:
                kv = ex(K)
                ctx.same('2d-from-3d', w + ' tangent', ex(r),
                         [[kv[o3.index(a)][o3.index(b)] for b in o2] for a in o2])


def complexes(ctx):
    """A complex tensor keeps complex components (a real result would drop the
    imaginary parts)."""
    for name, order in itertools.product(('get_tensor_mf', 'vget_tensor_mf', 'get_tensor_from_mf', 'vget_tensor_from_mf'), (2, 4)):
        for d in (2, 3):
            I = ctx.interp()
            n = len(SYM[d])
            shape = (n,) * (order // 2) if 'from' in name else (d,) * order
            T = tlib.new([S(f'z{k}') for k in range(len(tens('x', shape).vals()))], shape, 'complex64', 'torch')
            w = f'{M}:{name} {d}D order {order} complex'
            r = ctx.run('complex-form', w, lambda: I.call(I.get(M, name), [T, d, from_py(SYM[d])], {}))
            if r is not None:
                ctx.ob('complex-tensor-stays-complex', w, 'complex' in str(r.dtype), r.dtype)


def refusals(ctx):
    bad = {'duplicated component': ('11', '22', '11'), 'index outside the dimension': ('11', '22', '13'),
           'too few components': ('11', '22'), 'component without two indices': ('11', '22', '1')}
    for name in ('get_tensor_mf', 'get_tensor_from_mf'):
        for order in (2, 4):
            for k, o in bad.items():
                I = ctx.interp()
                T = tens('x', ((3,) * (order // 2)) if 'from' in name else (2,) * order)
                refuse(ctx, 'inadmissible-order-is-refused', f'{M}:{name} order {order}: {k}', lambda: I.call(I.get(M, name), [T, 2, from_py(o)], {}))
    for name, o in (('get_tensor_mf', SYM[2]), ('get_tensor_from_mf', SYM[2])):
        shapes = [(2,), (2, 2, 2), (3, 3), (2, 3), (2, 2, 2, 3)] if name == 'get_tensor_mf' else [(3, 4), (5,), (5, 5), (3, 3, 3), ()]
        for sh in shapes:
            I = ctx.interp()
            refuse(ctx, 'inadmissible-shape-is-refused', f'{M}:{name} {sh}', lambda: I.call(I.get(M, name), [tens('x', sh), 2, from_py(o)], {}))
    for name in ('vget_tensor_mf', 'vget_tensor_from_mf'):
        I = ctx.interp()
        T = tens('x', (2, 2)) if 'from' not in name else vec('x', 3)
        refuse(ctx, 'inadmissible-order-is-refused', f'{M}:{name}: too few components', lambda: I.call(I.get(M, name), [T, 2, from_py(('11', '22'))], {}))
    I = ctx.interp()
    refuse(ctx, 'inadmissible-shape-is-refused', f'{M}:vget_tensor_from_mf', lambda: I.call(I.get(M, 'vget_tensor_from_mf'), [tens('x', (3, 3, 3)), 2, from_py(SYM[2])], {}))
    for pt in (2, 3, 5):
        refuse(ctx, 'unknown-problem-type-is-refused', f'{M}:get_problem_type_parameters({pt})', lambda: I.call(I.get(M, 'get_problem_type_parameters'), [pt], {}))
