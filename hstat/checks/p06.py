"""P06 - tensor operators.  Every product operator is evaluated on unrestricted
tensors of dimension 2 and 3 (dimension 3 only at the thorough tier for the
fourth-order pairs) and compared entry by entry with its index formula; the
identity operators are decided by the action they must have on an arbitrary
second-order tensor, the derivative of the inverse against the formal derivative
of the inverse of a symmetric matrix."""
import itertools

from .. import alg
from ..common import *

FLOOR = 30
M = 'simulators.fetorch.math.tensorops'
# name: (orders of the operands, result indices, index string of each operand)
OPS = {
    'dyad11': ('i', 'j', 'ij'), 'dyad22_1': ('ij', 'kl', 'ijkl'), 'dyad22_2': ('ik', 'jl', 'ijkl'),
    'dyad22_3': ('il', 'jk', 'ijkl'), 'dot21_1': ('ij', 'j', 'i'), 'dot12_1': ('i', 'ij', 'j'),
    'dot42_1': ('ijkm', 'lm', 'ijkl'), 'dot42_2': ('ipkl', 'jp', 'ijkl'), 'dot42_3': ('ijkm', 'ml', 'ijkl'),
    'dot24_1': ('im', 'mjkl', 'ijkl'), 'dot24_2': ('jm', 'imkl', 'ijkl'), 'dot24_3': ('km', 'ijml', 'ijkl'),
    'dot24_4': ('lm', 'ijkm', 'ijkl'), 'ddot22_1': ('ij', 'ij', ''), 'ddot42_1': ('ijkl', 'kl', 'ij'),
    'ddot44_1': ('ijmn', 'mnkl', 'ijkl'), 'ddot24_1': ('kl', 'klij', 'ij'),
}


def groups(tier):
    g = []
    for name in OPS:
        for d in (2, 3):
            g.append((f'{name} {d}D', lambda ctx, a=(name, d): op(ctx, *a)))
    for d in (2, 3):
        g.append((f'identities {d}D', lambda ctx, d=d: ident(ctx, d)))
        g.append((f'inverse derivative {d}D', lambda ctx, d=d: dinv(ctx, d)))
    g.append(('kronecker', kron))
    return g


def get(t, idx):
    for i in idx:
        t = t[i]
    return t


def op(ctx, name, d):
    sa, sb, so = OPS[name]
    I = ctx.interp()
    A, B = tens('a', (d,) * len(sa)), tens('b', (d,) * len(sb))
    w = f'{M}:{name} {d}D'
    r = ctx.run('operator', w, lambda: I.call(I.get(M, name), [A, B], {}))
    if r is None:
        return
    av, bv = ex(A), ex(B)
    ctx.ob('result-shape', w, (r.shape if isinstance(r, Tensor) else ()) == (d,) * len(so), getattr(r, 'shape', ''))
    if r.shape != (d,) * len(so):
        return
    rv = ex(r)
    dummy = [c for c in dict.fromkeys(sa + sb) if c not in so]
    bad = None
    for o in itertools.product(range(d), repeat=len(so)):
        env = dict(zip(so, o))
        s = alg.ZERO
        for k in itertools.product(range(d), repeat=len(dummy)):
            e = dict(env, **dict(zip(dummy, k)))
            s = s + get(av, [e[c] for c in sa]) * get(bv, [e[c] for c in sb])
        if not alg.equal(get(rv, o), s):
            bad = f'entry {o}: {get(rv, o)} != {s}'
            break
    ctx.ob('index-formula', w, bad is None, bad or '')


def ident(ctx, d):
    I = ctx.interp()
    w = f'{M}:get_id_operators {d}D'
    r = ctx.run('identity-operators', w, lambda: I.call(I.get(M, 'get_id_operators'), [d], {}))
    if r is None:
        return
    soid, foid, fot, fosym, fodt, fodev, fodevs = I.iterate(r)
    X = ex(tens('x', (d, d)))
    rng = range(d)
    tr = sum((X[i][i] for i in rng), alg.ZERO)
    third, half = alg.const(1) / alg.const(3), alg.const(1) / alg.const(2)
    dl = lambda i, j: alg.ONE if i == j else alg.ZERO
    ctx.same('second-order-identity', w, ex(soid), [[dl(i, j) for j in rng] for i in rng])
    act = lambda F: [[sum((ex(F)[i][j][k][l] * X[k][l] for k in rng for l in rng), alg.ZERO) for j in rng] for i in rng]
    for nm, F, ref in (
            ('identity', foid, X),
            ('transposition', fot, [[X[j][i] for j in rng] for i in rng]),
            ('symmetric-projection', fosym, [[half * (X[i][j] + X[j][i]) for j in rng] for i in rng]),
            ('diagonal-trace', fodt, [[tr * dl(i, j) for j in rng] for i in rng]),
            ('deviatoric-projection', fodev, [[X[i][j] - third * tr * dl(i, j) for j in rng] for i in rng]),
            ('symmetric-deviatoric-projection', fodevs,
             [[half * (X[i][j] + X[j][i]) - third * tr * dl(i, j) for j in rng] for i in rng])):
        ok = isinstance(F, Tensor) and F.shape == (d,) * 4
        ctx.ob('fourth-order-shape', f'{w} {nm}', ok, '')
        if ok:
            ctx.same(nm, w, act(F), ref)


def dinv(ctx, d):
    I = ctx.interp()
    w = f'{M}:fo_dinv_sym {d}D'
    A = mat('a', d, d, sym=True)
    r = ctx.run('inverse-derivative', w, lambda: I.call(I.get(M, 'fo_dinv_sym'), [A], {}))
    if r is None or r.shape != (d,) * 4:
        ctx.ob('inverse-derivative-shape', w, False if r is not None else None, '')
        return
    v, a = ex(r), ex(A)
    # d(A^-1)_ij/dA_kl for symmetric A, given the inverse a: -1/2 (a_ik a_lj + a_il a_kj)
    half = alg.const(1) / alg.const(2)
    bad = None
    for i, j, k, l in itertools.product(range(d), repeat=4):
        e = -(half * (a[i][k] * a[l][j] + a[i][l] * a[k][j]))
        if not alg.equal(v[i][j][k][l], e):
            bad = f'entry {(i, j, k, l)}'
            break
    ctx.ob('inverse-derivative', w, bad is None, bad or '')
    # consistency with d(S^-1):H = -S^-1 H S^-1 for symmetric H
    H = ex(mat('h', d, d, sym=True))
    R = range(d)
    lhs = [[sum((v[i][j][k][l] * H[k][l] for k in R for l in R), alg.ZERO) for j in R] for i in R]
    rhs = [[-sum((a[i][k] * H[k][l] * a[l][j] for k in R for l in R), alg.ZERO) for j in R] for i in R]
    ctx.same('inverse-directional-derivative', w, lhs, rhs)


def kron(ctx):
    I = ctx.interp()
    f = I.get(M, 'dd')
    for i in range(3):
        for j in range(3):
            r = ctx.run('kronecker-delta', f'{M}:dd({i},{j})', lambda: I.call(f, [i, j], {}))
            if r is not None:
                ctx.same('kronecker-delta', f'{M}:dd({i},{j})', r, alg.ONE if i == j else alg.ZERO)
