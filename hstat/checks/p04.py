"""P04 - Voigt notation.  Strain-from-Voigt and stress-to-Voigt conversions
(loop based and vectorised) are evaluated on unrestricted entries for the
canonical and permuted component orders and compared with the definition;
work conjugacy, agreement of the variants and the volumetric / deviatoric
projections are decided as identities."""
import itertools

from .. import alg
from ..common import *
from .p03 import SYM, sym_tensor, at, orders

FLOOR = 25
M = 'simulators.fetorch.math.voigt_notation'
HALF = alg.const(1) / alg.const(2)


def groups(tier):
    g = []
    for d, kind, o in orders(tier):
        if kind == 'sym':
            g.append((f'{d}D {",".join(o)}', lambda ctx, a=(d, o): one(ctx, *a)))
    return g


def one(ctx, d, o):
    tag = f'{d}D {",".join(o)}'
    n = len(o)
    V = vec('g', n)
    v = ex(V)
    T = sym_tensor('s', d, 2, 'sym')
    t = ex(T)
    pairs = [''.join(p) for p in itertools.product('123'[:d], repeat=2)]

    def ix(c):
        return o.index(c) if c in o else o.index(c[::-1])
    strains, stresses = {}, {}
    for name in ('get_strain_from_vmf', 'vget_strain_from_vmf'):
        I = ctx.interp()
        w = f'{M}:{name} {tag}'
        b = list(V.vals())
        r = ctx.run('strain-from-voigt', w, lambda: I.call(I.get(M, name), [V, d, from_py(o)], {}))
        if r is None:
            continue
        ctx.ob('input-unchanged', w, b == list(V.vals()), '')
        strains[name] = ex(r)
        ctx.same('strain-from-voigt', w, ex(r),
                 [[v[ix(a + c)] * (alg.ONE if a == c else HALF) for c in '123'[:d]] for a in '123'[:d]])
    for name in ('get_stress_vmf', 'vget_stress_vmf'):
        I = ctx.interp()
        w = f'{M}:{name} {tag}'
        b = list(T.vals())
        r = ctx.run('stress-to-voigt', w, lambda: I.call(I.get(M, name), [T, d, from_py(o)], {}))
        if r is None:
            continue
        ctx.ob('input-unchanged', w, b == list(T.vals()), '')
        stresses[name] = ex(r)
        ctx.same('stress-to-voigt', w, ex(r), [at(t, c) for c in o])
    for (a, e), (b, s) in itertools.product(strains.items(), stresses.items()):
        if len(e) == d and len(s) == n:
            ctx.same('work-conjugacy', f'{M}:{a}/{b} {tag}',
                     sum((x * y for x, y in zip(v, s)), alg.ZERO),
                     sum((at(e, p) * at(t, p) for p in pairs), alg.ZERO))
    I = ctx.interp()
    w = f'{M}:get_projection_tensors_vmf {tag}'
    r = ctx.run('projections', w, lambda: I.call(I.get(M, 'get_projection_tensors_vmf'), [d, from_py(o)], {}))
    if r is None:
        return
    P, Q = (ex(x) for x in I.iterate(r))
    eye = [[alg.ONE if i == j else alg.ZERO for j in range(n)] for i in range(n)]
    mm = lambda A, B: [[sum((A[i][k] * B[k][j] for k in range(n)), alg.ZERO) for j in range(n)] for i in range(n)]
    ctx.same('projections-complement', w, [[P[i][j] + Q[i][j] for j in range(n)] for i in range(n)], eye)
    ctx.same('volumetric-projection-idempotent', w, mm(P, P), P)
    ctx.same('deviatoric-projection-idempotent', w, mm(Q, Q), Q)
    ctx.same('projections-orthogonal', w, mm(P, Q), [[alg.ZERO] * n] * n)
    tr = lambda x: sum((x[i] for i, c in enumerate(o) if c[0] == c[1]), alg.ZERO)
    pv = [sum((P[i][j] * v[j] for j in range(n)), alg.ZERO) for i in range(n)]
    qv = [sum((Q[i][j] * v[j] for j in range(n)), alg.ZERO) for i in range(n)]
    ctx.same('deviatoric-part-traceless', w, tr(qv), alg.ZERO)
    ctx.same('volumetric-part-is-mean', w, pv,
             [tr(v) / alg.const(d) if c[0] == c[1] else alg.ZERO for c in o])
