"""P05 - element kinematics and internal forces.  The Jacobian, the global shape
function derivatives, the discrete (symmetric) gradient operators (loop based and
vectorised), their 2D/3D expansion and reduction, the infinitesimal strain and
the element internal force vector are evaluated on unrestricted nodal
coordinates, displacements and stresses; each is compared with the defining
identity (strain = symmetric gradient of the interpolated displacement, internal
force = sum over Gauss points of weight * B^T stress * det J)."""
import itertools

from .. import alg
from ..common import *
from .p03 import SYM, NSYM

FLOOR = 25
D = 'simulators.fetorch.element.derivatives'
INT = 'simulators.fetorch.element.integrations.internal_forces'
Z = alg.ZERO


def groups(tier):
    g = []
    for d in (2, 3):
        g.append((f'jacobian {d}D', lambda ctx, d=d: jac(ctx, d)))
        g.append((f'chain rule {d}D', lambda ctx, d=d: chain(ctx, d)))
        for n in (1, 3, 4, 8) + ((6, 10, 20) if tier == 'thorough' else (20,) if d == 3 else ()):
            g.append((f'gradients {d}D {n} nodes', lambda ctx, a=(d, n): grads(ctx, *a)))
    for n in (3, 4, 8, 20):
        g.append((f'2d-3d operators {n} nodes', lambda ctx, n=n: dims(ctx, n)))
    g.append(('jacobian check', det_check))
    for d, n, ng in ((2, 8, 9), (3, 20, 27), (3, 8, 1), (3, 10, 11)):
        g.append((f'internal forces {d}D {n} nodes {ng} points', lambda ctx, a=(d, n, ng): forces_n(ctx, *a)))
    g.append(('strain', strain))
    for el, ng in (('FETri3', 1), ('FETetra4', 4), ('FEQuad4', 4)):
        g.append((f'internal forces {el} {ng}', lambda ctx, a=(el, ng): forces(ctx, *a)))
    return g


def element(I, name, **kw):
    from .p01 import elements
    for c in elements(I):
        if c.name == name:
            return I.call(c, [], kw)
    raise KeyError(f'element {name} not found')


def jac(ctx, d):
    n = d
    dN, X, xi = tens('D', (n, d)), tens('X', (n, d)), vec('xi', d)
    I = ctx.interp()
    el = fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k: dN)
    w = f'{D}.jacobian:eval_jacobian {d}D'
    r = ctx.run('jacobian', w, lambda: I.call(I.get(D + '.jacobian', 'eval_jacobian'), [el, X, xi], {}))
    Dv, Xv = ex(dN), ex(X)
    J = [[sum((Dv[a][i] * Xv[a][j] for a in range(n)), Z) for j in range(d)] for i in range(d)]
    det = dets(J)
    if r is not None:
        Jr, dr, ld = I.iterate(r)
        ctx.same('jacobian-definition', w, ex(Jr), J)
        ctx.same('jacobian-determinant', w, dr, det)
        ctx.same('local-derivatives-returned', w, ld, dN)
    I = ctx.interp()
    el = fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k: dN)
    # generic Jacobian: nodal coordinates with X chosen so that J is a free matrix
    w = f'{D}.gradients:eval_shapefun_deriv {d}D'
    eye = const_t([[1 if i == j else 0 for j in range(d)] for i in range(n)])
    el2 = fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k: dN)
    for tag, coords, loc in (('free nodes', X, const_t([[(i + 2 * j * j + 3 * i * j) % 5 for j in range(d)] for i in range(n)])),
                             ('free derivatives', const_t([[(2 if i == j else i + j) for j in range(d)] for i in range(n)]), dN)):
        I = ctx.interp()
        el = fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k, loc=loc: loc)
        r = ctx.run('global-derivatives', f'{w} {tag}', lambda: I.call(I.get(D + '.gradients', 'eval_shapefun_deriv'), [el, coords, xi], {}))
        if r is None:
            continue
        G, Jr, dr = I.iterate(r)
        Lv, Cv = ex(loc), ex(coords)
        Jm = [[sum((Lv[a][i] * Cv[a][j] for a in range(n)), Z) for j in range(d)] for i in range(d)]
        ctx.same('jacobian-definition', f'{w} {tag}', ex(Jr), Jm)
        ctx.same('jacobian-determinant', f'{w} {tag}', dr, dets(Jm))
        ok = G.shape == (n, d)
        ctx.ob('derivative-shape', f'{w} {tag}', ok, G.shape)
        if ok:
            Gv = ex(G)
            # chain rule: dN/dxi_i = sum_j dN/dx_j dx_j/dxi_i
            ctx.same('chain-rule', f'{w} {tag}',
                     [[sum((Gv[a][j] * Jm[i][j] for j in range(d)), Z) for i in range(d)] for a in range(n)], Lv)


def dets(J):
    if len(J) == 2:
        return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    s = Z
    for p, sg in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1)):
        s = s + alg.const(sg) * J[0][p[0]] * J[1][p[1]] * J[2][p[2]]
    return s


def grad_u(G, u, n, d):
    return [[sum((G[a][j] * u[a][i] for a in range(n)), Z) for j in range(d)] for i in range(d)]


def sym_ref(H, o):
    return [H[int(c[0]) - 1][int(c[0]) - 1] if c[0] == c[1] else
            H[int(c[0]) - 1][int(c[1]) - 1] + H[int(c[1]) - 1][int(c[0]) - 1] for c in o]


def grads(ctx, d, n):
    G, U = tens('G', (n, d)), tens('u', (n, d))
    Gv, Uv = ex(G), ex(U)
    uf = [x for r in Uv for x in r]
    H = grad_u(Gv, Uv, n, d)
    so = [SYM[d], tuple(reversed(SYM[d])), tuple(c[::-1] for c in SYM[d])]
    for name in ('build_discrete_sym_gradient', 'vbuild_discrete_sym_gradient'):
        for o in so:
            one_op(ctx, name, G, o, uf, sym_ref(H, o), f'{d}D {n} nodes {",".join(o)}', 'symmetric-gradient')
    no = [NSYM[d], tuple(reversed(NSYM[d]))]
    for name in ('build_discrete_gradient', 'vbuild_discrete_gradient'):
        for o in no:
            one_op(ctx, name, G, o, uf, [H[int(c[0]) - 1][int(c[1]) - 1] for c in o],
                   f'{d}D {n} nodes {",".join(o)}', 'gradient')
        one_op(ctx, name, G, None, uf, [H[int(c[0]) - 1][int(c[1]) - 1] for c in NSYM[d]],
               f'{d}D {n} nodes default', 'gradient')


def one_op(ctx, name, G, o, uf, ref, tag, rule):
    I = ctx.interp()
    w = f'{D}.gradients:{name} {tag}'
    r = ctx.run(rule, w, lambda: I.call(I.get(D + '.gradients', name), [G, from_py(o)], {}))
    if r is None:
        return
    ok = r.shape == (len(ref), len(uf))
    ctx.ob(rule + '-shape', w, ok, r.shape)
    if ok:
        ctx.same(rule, w, [sum((b * u for b, u in zip(row, uf)), Z) for row in ex(r)], ref)


def dims(ctx, n):
    G = tens('G', (n, 2))
    I = ctx.interp()
    B2 = I.call(I.get(D + '.gradients', 'vbuild_discrete_sym_gradient'), [G, from_py(SYM[2])], {})
    F2, F3 = tens('b', (3, 2 * n)), tens('c', (6, 3 * n))
    for tag, B in (('operator', B2), ('arbitrary', F2)):
        w = f'{D}.gradients:vexpand_grad_operator_sym_2d_to_3d {tag}'
        r = ctx.run('expand-2d-to-3d', w, lambda: I.call(I.get(D + '.gradients', 'vexpand_grad_operator_sym_2d_to_3d'), [B], {}))
        if r is None:
            continue
        b = ex(B)
        ref = [[b[SYM[2].index(c)][2 * a + k] if c in SYM[2] and k < 2 else Z for a in range(n) for k in range(3)] for c in SYM[3]]
        ctx.same('expand-2d-to-3d', w, ex(r), ref)
        w2 = f'{D}.gradients:vreduce_grad_operator_sym_3d_to_2d'
        q = ctx.run('reduce-expand', w2, lambda: I.call(I.get(D + '.gradients', 'vreduce_grad_operator_sym_3d_to_2d'), [r], {}))
        if q is not None:
            ctx.same('reduce-expand-round-trip', f'{w2} {tag}', q, B)
    w2 = f'{D}.gradients:vreduce_grad_operator_sym_3d_to_2d'
    q = ctx.run('reduce-3d-to-2d', w2, lambda: I.call(I.get(D + '.gradients', 'vreduce_grad_operator_sym_3d_to_2d'), [F3], {}))
    if q is not None:
        f = ex(F3)
        ctx.same('reduce-3d-to-2d', w2, ex(q),
                 [[f[SYM[3].index(c)][3 * a + k] for a in range(n) for k in range(2)] for c in SYM[2]])


def strain(ctx):
    for d, n in ((2, 3), (2, 4), (2, 8), (3, 4), (3, 8), (3, 20)):
        B, U = tens('B', (len(SYM[d]), n * d)), tens('u', (n, d))
        ref = [sum((b * u for b, u in zip(row, U.vals())), Z) for row in ex(B)]
        for name in ('compute_infinitesimal_inc_strain', 'compute_infinitesimal_strain'):
            I = ctx.interp()
            r = ctx.run('strain', f'{INT}:{name} {d}D {n} nodes', lambda: I.call(I.get(INT, name), [B, U], {}))
            if r is not None:
                ctx.same('strain-is-operator-times-displacements', f'{INT}:{name} {d}D {n} nodes', ex(r), ref)


def forces(ctx, el_name, ng):
    I = ctx.interp()
    el = element(I, el_name, n_gauss=ng)
    n = I.as_int(I.call(I.getattr(el, 'get_n_node'), [], {}))
    d = I.as_int(I.call(I.getattr(el, 'get_n_dof_node'), [], {}))
    o = SYM[d]
    pt = {2: 1, 3: 4}[d]
    tag = f'{el_name} n_gauss={ng}'
    if el_name == 'FEQuad4':    # generic parallelogram-free quadrilateral: two free nodes
        X = tlib.new([S('X11'), S('X12'), alg.const(1), alg.const(-1), S('X31'), S('X32'), alg.const(-1), alg.const(1)],
                     (n, d), 'float32', 'torch')
    elif d == 3:
        X = tlib.new([Z, Z, Z, S('X21'), Z, Z, S('X31'), S('X32'), Z, S('X41'), S('X42'), S('X43')], (n, d), 'float32', 'torch')
    else:
        X = tens('X', (n, d))
    U, dU = tens('u', (n, d)), tens('du', (n, d))
    calls = []

    def su(I, a, k):
        inc = a[0] if a else k['inc_strain']
        old = a[1] if len(a) > 1 else k['state_variables_old']
        i = len(calls)
        st = vec(f's{i}_', len(o))
        calls.append((inc, old))
        return (PyDict([('stress_mf', st), ('tag', f'new{i}')]), tens(f'K{i}', (len(o), len(o))))
    mat_ = fake(I, 'Material', get_strain_type=lambda I, a, k: 'infinitesimal', state_update=su)
    old = PyDict([(str(i + 1), PyDict([('stress_mf', vec(f'old{i}_', len(o))), ('tag', f'old{i}')])) for i in range(ng)])
    w = f'{INT}:compute_element_internal_forces {tag}'
    r = ctx.run('internal-forces', w, lambda: I.call(I.get(INT, 'compute_element_internal_forces'), [], dict(
        strain_formulation='infinitesimal', problem_type=pt, element_type=el, element_material=mat_,
        element_state_old=old, nodes_coords=X, nodes_disps=U, nodes_inc_disps=dU)))
    if r is None:
        return
    f, state = I.iterate(r)
    if len(calls) != ng:
        ctx.ob('one-state-update-per-gauss-point', w, False if len(calls) < 50 else None, len(calls))
        return
    ctx.ob('one-state-update-per-gauss-point', w, True)
    # reference: same element, exact quadrature points from the element itself
    gp, gw = I.iterate(I.call(I.getattr(el, 'get_gauss_integration_points'), [], {}))
    acc = [Z] * (n * d)
    Xv, Uv = ex(X), ex(dU)
    R2 = alg.sqrt(alg.const(2))
    for i in range(ng):
        L = ex(I.call(I.getattr(el, 'eval_shapefun_local_deriv'), [gp.get(str(i + 1))], {}))
        wt = to_expr(gw.get(str(i + 1))) if not isinstance(gw.get(str(i + 1)), Tensor) else ex(gw.get(str(i + 1)))
        J = [[sum((L[a][p] * Xv[a][q] for a in range(n)), Z) for q in range(d)] for p in range(d)]
        det = dets(J)
        adj = adjugate(J)
        # dN/dx_j = sum_i inv(J)[j][i] dN/dxi_i
        Gd = [[sum((adj[j][p] * L[a][p] for p in range(d)), Z) for j in range(d)] for a in range(n)]   # times det
        inc, od = calls[i]
        H = grad_u(Gd, Uv, n, d)
        ctx.same('strain-increment-passed-to-material', f'{w} gp {i + 1}',
                 [[x * det for x in row] for row in ex(inc)],
                 [[(H[p][q] + H[q][p]) / alg.const(2) for q in range(d)] for p in range(d)])
        so = od.get('tag') if isinstance(od, PyDict) else None
        ctx.ob('own-previous-state', f'{w} gp {i + 1}', so == f'old{i}', so)
        sg = [S(f's{i}_{k + 1}') / (R2 if c[0] != c[1] else alg.ONE) for k, c in enumerate(o)]
        full = {}
        for c, s in zip(o, sg):
            full[c] = full[c[::-1]] = s
        for a in range(n):
            for k in range(d):
                acc[a * d + k] = acc[a * d + k] + wt * sum(
                    (Gd[a][j] * full[f'{k + 1}{j + 1}'] for j in range(d)), Z)
        ns = state.get(str(i + 1)) if isinstance(state, PyDict) else None
        ctx.ob('new-state-stored-per-gauss-point', f'{w} gp {i + 1}',
               isinstance(ns, PyDict) and ns.get('tag') == f'new{i}', '')
        o2 = old.get(str(i + 1))
        ctx.ob('previous-state-unchanged', f'{w} gp {i + 1}',
               o2.get('tag') == f'old{i}' and o2.get('stress_mf').vals() == vec(f'old{i}_', len(o)).vals(), '')
    ctx.same('internal-force-definition', w, ex(f), acc)


def adjugate(J):
    if len(J) == 2:
        return [[J[1][1], -J[0][1]], [-J[1][0], J[0][0]]]
    c = lambda i, j: J[i % 3][j % 3]
    return [[c(j + 1, i + 1) * c(j + 2, i + 2) - c(j + 1, i + 2) * c(j + 2, i + 1) for j in range(3)] for i in range(3)]


def numbers(seed, k, den=7):
    """Deterministic rationals without structure."""
    x, out = seed * 7919 + 13, []
    for _ in range(k):
        x = (x * 1103515245 + 12345) % 2147483648
        out.append(alg.const((x >> 8) % 41 - 20) / alg.const(den))
    return out


def rows(v, d):
    return [v[i:i + d] for i in range(0, len(v), d)]


def chain(ctx, d):
    """Any number of nodes: the global derivatives satisfy the chain rule with the
    Jacobian of all nodes."""
    xi = vec('xi', d)
    for n in (3, 4, 6, 8, 10, 20):
        for seed in (1, 2):
            L, C = rows(numbers(seed, n * d), d), rows(numbers(seed + 5, n * d), d)
            Jm = [[sum((L[a][i] * C[a][j] for a in range(n)), Z) for j in range(d)] for i in range(d)]
            if dets(Jm) == Z:
                continue
            w = f'{D}.gradients:eval_shapefun_deriv {d}D {n} nodes case {seed}'
            I = ctx.interp()
            el = fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k: tl(L))
            r = ctx.run('global-derivatives', w, lambda: I.call(I.get(D + '.gradients', 'eval_shapefun_deriv'), [el, tl(C), xi], {}))
            if r is None:
                continue
            G, Jr, dr = I.iterate(r)
            ctx.same('jacobian-definition', w, ex(Jr), Jm)
            ctx.same('jacobian-determinant', w, dr, dets(Jm))
            if G.shape == (n, d):
                Gv = ex(G)
                ctx.same('chain-rule', w, [[sum((Gv[a][j] * Jm[i][j] for j in range(d)), Z) for i in range(d)] for a in range(n)], L)


def tl(r):
    return tlib.new([x for q in r for x in q], (len(r), len(r[0])), 'float32', 'torch')


def det_check(ctx):
    """With the check on, a non-positive determinant is refused and a positive one
    accepted; without it the determinant keeps its sign."""
    for d in (2, 3):
        eye = [[alg.const(1 if i == j else 0) for j in range(d)] for i in range(d)]
        for v, bad in ((1, False), (3, False), (0, True), (-2, True)):
            C = [list(r) for r in eye]
            C[0][0] = alg.const(v)
            mk = lambda I: fake(I, 'Element', eval_shapefun_local_deriv=lambda I, a, k: tl(eye))
            I = ctx.interp()
            go = lambda chk: I.call(I.get(D + '.jacobian', 'eval_jacobian'), [mk(I), tl(C), vec('xi', d)], {'is_check_det': chk})
            w = f'{D}.jacobian:eval_jacobian {d}D det={v}'
            if bad:
                ctx.refuse('non-positive-determinant-refused', w, lambda: go(True))
            else:
                r = ctx.run('positive-determinant-accepted', w, lambda: go(True))
                if r is not None:
                    ctx.same('jacobian-determinant', w + ' checked', I.iterate(r)[1], alg.const(v))
            r = ctx.run('jacobian', w, lambda: go(False))
            if r is not None:
                ctx.same('jacobian-determinant', w, I.iterate(r)[1], alg.const(v))


def forces_n(ctx, d, n, ng):
    """An element with many nodes and Gauss points whose derivatives are arbitrary
    numbers; the stresses returned by the material are unrestricted."""
    I = ctx.interp()
    o = SYM[d]
    C, U = rows(numbers(3, n * d), d), rows(numbers(4, n * d), d)
    pts, wts, Ls = [], [], []
    for i in range(ng):
        seed = 20 + i
        while True:
            L = rows(numbers(seed, n * d), d)
            J = [[sum((L[a][p] * C[a][q] for a in range(n)), Z) for q in range(d)] for p in range(d)]
            if dets(J) != Z:
                break
            seed += 100
        Ls.append((L, J))
        pts.append([alg.const(i + 1)] * d)
        wts.append(alg.const(2 * i + 3) / alg.const(11))
    t1 = lambda v: tlib.new(list(v), (len(v),), 'float32', 'torch')
    t0 = lambda v: tlib.new([v], (), 'float32', 'torch')

    def deriv(I, a, k):
        x = a[0] if a else k['local_coords']
        for i in range(ng):
            if ex(x)[0] == pts[i][0]:
                return tl(Ls[i][0])
        raise Undecided('unknown Gauss point')
    el = fake(I, 'Element', eval_shapefun_local_deriv=deriv, get_n_node=lambda I, a, k: n, get_n_dof_node=lambda I, a, k: d,
              get_n_gauss=lambda I, a, k: ng,
              get_gauss_integration_points=lambda I, a, k: (PyDict([(str(i + 1), t1(p)) for i, p in enumerate(pts)]),
                                                            PyDict([(str(i + 1), t0(x)) for i, x in enumerate(wts)])))
    calls = []

    def su(I, a, k):
        inc = a[0] if a else k['inc_strain']
        old = a[1] if len(a) > 1 else k['state_variables_old']
        i = len(calls)
        calls.append((inc, old))
        return (PyDict([('stress_mf', vec(f's{i}_', len(o))), ('tag', f'new{i}')]), tens(f'K{i}', (len(o), len(o))))
    mt = fake(I, 'Material', get_strain_type=lambda I, a, k: 'infinitesimal', state_update=su)
    old = PyDict([(str(i + 1), PyDict([('stress_mf', vec(f'old{i}_', len(o))), ('tag', f'old{i}')])) for i in range(ng)])
    w = f'{INT}:compute_element_internal_forces {d}D {n} nodes {ng} points'
    r = ctx.run('internal-forces', w, lambda: I.call(I.get(INT, 'compute_element_internal_forces'), [], dict(
        strain_formulation='infinitesimal', problem_type={2: 1, 3: 4}[d], element_type=el, element_material=mt,
        element_state_old=old, nodes_coords=tl(C), nodes_disps=tl(rows(numbers(9, n * d), d)), nodes_inc_disps=tl(U))))
    if r is None:
        return
    f, state = I.iterate(r)
    ctx.ob('one-state-update-per-gauss-point', w, len(calls) == ng, len(calls))
    if len(calls) != ng:
        return
    R2 = alg.sqrt(alg.const(2))
    acc = [Z] * (n * d)
    for inc, od in calls:
        tag = str(od.get('tag')) if isinstance(od, PyDict) else ''
        if not tag.startswith('old'):
            ctx.ob('own-previous-state', w, False, tag)
            return
    order = [int(str(od.get('tag'))[3:]) for _, od in calls]
    ctx.ob('own-previous-state', w, sorted(order) == list(range(ng)), order)
    for c, i in enumerate(order):
        L, J = Ls[i]
        det, adj = dets(J), adjugate(J)
        Gd = [[sum((adj[j][p] * L[a][p] for p in range(d)), Z) / det for j in range(d)] for a in range(n)]
        H = grad_u(Gd, U, n, d)
        ctx.same('strain-increment-passed-to-material', f'{w} gp {i + 1}', ex(calls[c][0]),
                 [[(H[p][q] + H[q][p]) / alg.const(2) for q in range(d)] for p in range(d)])
        full = {}
        for k, cc in enumerate(o):
            full[cc] = full[cc[::-1]] = S(f's{c}_{k + 1}') / (R2 if cc[0] != cc[1] else alg.ONE)
        for a in range(n):
            for k in range(d):
                acc[a * d + k] = acc[a * d + k] + wts[i] * det * sum((Gd[a][j] * full[f'{k + 1}{j + 1}'] for j in range(d)), Z)
        ns = state.get(str(i + 1)) if isinstance(state, PyDict) else None
        ctx.ob('new-state-stored-per-gauss-point', f'{w} gp {i + 1}', isinstance(ns, PyDict) and ns.get('tag') == f'new{c}', '')
    ctx.same('internal-force-definition', w, ex(f), acc)
