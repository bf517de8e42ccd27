"""P27 - random material patches.  Patch generation is evaluated with stand-in random
draws (affine in a fresh standard variable), a stand-in planar geometry library and,
for the whole pipeline, a stand-in edge deformation of unrestricted interior nodes, so
every prescribed displacement tells from which edge, node, rotation and translation
it comes.  The edge deformation itself is evaluated for unrestricted polynomial
samples and every chord length it measures.  Decided: the mesh is the regular grid of
the element, prescribed nodes are boundary nodes, displacements are deformed minus
reference positions, corners follow their ranges and constraints, edges join their
corners along a polynomial of the requested order, rigid motions are rigid."""
import itertools

from .. import alg
from ..common import *
from .p13 import refuse
from .p22 import Draws

FLOOR = 60
LIMIT = 300
M = 'data_generation.spdg.patch_generator'
PT = 'data_generation.spdg.patch'
FE = 'simulators.links.discretization.finite_element'
G = 'FiniteElementPatchGenerator'
C = alg.const
Z = alg.ZERO
ELEMS = {2: ('SQUAD4', 'SQUAD8', 'SQUAD12', 'LQUAD4', 'LQUAD9', 'LQUAD16'), 3: ('SHEXA8', 'SHEXA20')}
# nodes per edge, nodes
SIZE = {'SQUAD4': (2, 4), 'SQUAD8': (3, 8), 'SQUAD12': (4, 12), 'LQUAD4': (2, 4), 'LQUAD9': (3, 9), 'LQUAD16': (4, 16), 'SHEXA8': (2, 8), 'SHEXA20': (3, 20)}
CORN = {2: [(0, 0), (1, 0), (1, 1), (0, 1)],
        3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


# corners of every labelled edge (in 3D every edge is labelled once per face)
LABELS = {2: {1: (0, 1), 2: (3, 2), 3: (0, 3), 4: (1, 2)},
          3: {1: (0, 1), 2: (3, 2), 3: (0, 3), 4: (1, 2), 5: (4, 5), 6: (7, 6), 7: (4, 7), 8: (5, 6), 9: (0, 3), 10: (4, 7), 11: (0, 4), 12: (3, 7), 13: (1, 2), 14: (5, 6), 15: (1, 5), 16: (2, 6),
              17: (0, 1), 18: (4, 5), 19: (0, 4), 20: (1, 5), 21: (3, 2), 22: (7, 6), 23: (3, 7), 24: (2, 6)}}


def groups(tier):
    g = [('elements', elements), ('euler', euler), ('corners', corners), ('ranges', ranges), ('refused', refused), ('polynomial', polynomial), ('patch', patch), ('local frame', frame)]
    for d in (2, 3):
        g.append((f'mesh {d}', lambda ctx, d=d: mesh(ctx, d)))
        for t in ELEMS[d][:2] + (('LQUAD9',) if d == 2 else ()):
            g.append((f'pipeline {t}', lambda ctx, d=d, t=t: pipeline(ctx, d, t)))
    for k in range(3):
        g.append((f'edge {k}', lambda ctx, k=k: edge(ctx, k)))
    return g


def exists(t, idx):
    """Does the element have a node at this index of its grid?"""
    n = SIZE[t][0]
    if t[0] == 'L':
        return True
    return sum(0 < i < n - 1 for i in idx) <= 1


def elements(ctx):
    I = ctx.interp()
    for d in (2, 3):
        for t in ELEMS[d]:
            w = f'{FE}:FiniteElement {t}'
            e = ctx.run('element', w, lambda: I.call(I.get(FE, 'FiniteElement'), [t], {}))
            if e is None:
                continue
            n, m = SIZE[t]
            get = lambda x: ctx.run('element', w + '.' + x, lambda: I.call(I.getattr(e, x), [], {}))
            ctx.ob('numbers-of-nodes', w, get('get_n_nodes') == m and get('get_n_edge_nodes') == n)
            mat = get('get_nodes_matrix')
            if mat is None:
                continue
            ctx.ob('node-matrix-shape', w, tuple(mat.shape) == d * (n,), mat.shape)
            v = ex(mat)
            lab = {}
            for idx in itertools.product(range(n), repeat=d):
                x = v
                for i in idx:
                    x = x[i]
                x = cint(x)
                ctx.ob('node-exists-where-the-element-has-one', f'{w} {idx}', (x != 0) == exists(t, idx), x)
                if x:
                    lab.setdefault(x, []).append(idx)
            ctx.ob('nodes-are-labelled-once', w, sorted(lab) == list(range(1, m + 1)) and all(len(q) == 1 for q in lab.values()), lab)
            for k, q in sorted(lab.items()):
                r = ctx.run('node-index', f'{w} {k}', lambda: I.call(I.getattr(e, 'get_node_label_index'), [k], {}))
                if r is not None:
                    ctx.ob('node-index-inverts-the-matrix', f'{w} {k}', tuple(I.as_int(x) for x in I.iterate(r)) == q[0], r)
    refuse(ctx, 'unknown-element-is-refused', f'{FE}:FiniteElement', lambda: I.call(I.get(FE, 'FiniteElement'), ['HEX7'], {}))


def gen(I, d, dims):
    return I.call(I.get(M, G), [d, tuple(Num(alg.as_expr(x)) for x in dims)], {})


def call(I, o, n, *a, **k):
    return I.call(I.getattr(o, n), list(a), k)


def grid(t, ne):
    n = SIZE[t][0]
    return [e * (n - 1) + 1 for e in ne]


def mesh(ctx, d):
    for t in ELEMS[d]:
        for ne in ([(1, 1), (2, 3), (4, 2)] if d == 2 else [(1, 1, 1), (2, 1, 3), (1, 3, 2)]):
            w = f'{M}:{G}._generate_finite_element_mesh {t} {ne}'
            I = ctx.interp()
            dims = [S(f'len{i}', True) for i in range(d)]
            g = ctx.run('mesh', w, lambda: gen(I, d, dims))
            r = g and ctx.run('mesh', w, lambda: call(I, g, '_generate_finite_element_mesh', t, ne))
            if not r:
                continue
            mesh_ok(ctx, I, w, t, ne, dims, *r)
            q = ctx.run('edge-nodes', w, lambda: call(I, g, '_get_n_edge_nodes_per_dim', t, ne))
            ctx.ob('number-of-edge-nodes', w, q is not None and [I.as_int(x) for x in I.iterate(q)] == grid(t, ne), q)


def ints(t):
    return [cint(tlib.E(x)) for x in t.vals()]


def cint(x):
    if not x.is_const():
        raise Undecided('not a constant')
    return int(x.const())


def mesh_ok(ctx, I, w, t, ne, dims, mat, coords):
    """node matrix and coordinates are the regular grid; returns label -> grid index"""
    n = SIZE[t][0]
    gr = grid(t, ne)
    ctx.ob('node-grid-shape', w, list(mat.shape) == gr, mat.shape)
    v = ints(mat)
    lab = {}
    want = 0
    for k, idx in enumerate(itertools.product(*[range(x) for x in gr])):
        # node of some element
        ok = exists(t, [i % (n - 1) for i in idx]) if n > 1 else True
        want += ok
        ctx.ob('node-exists-where-an-element-has-one', f'{w} {idx}', (v[k] != 0) == ok, v[k])
        if v[k]:
            lab[v[k]] = idx
    ctx.ob('nodes-are-labelled-from-one', w, sorted(lab) == list(range(1, want + 1)), sorted(lab)[-3:])
    ctx.ob('every-node-has-coordinates', w, sorted(coords.keys(), key=str) == sorted(map(str, lab)), '')
    for k, idx in lab.items():
        c = coords.get(str(k), None)
        if c is not None:
            ctx.same('node-coordinates-of-the-grid', f'{w} node {k}', c, tlib.new([dims[i] * C(idx[i]) / C(gr[i] - 1) for i in range(len(idx))], (len(idx),), 'float64', 'np'))
    return lab


def euler(ctx):
    w = f'{M}:rotation_tensor_from_euler_angles'
    I = ctx.interp()
    a = [S(f'ang{i}') for i in range(3)]
    r = ctx.run('rotation', w, lambda: I.call(I.get(M, 'rotation_tensor_from_euler_angles'), [tuple(Num(x) for x in a)], {}))
    if r is None:
        return
    R = ex(r)
    for i in range(3):
        for j in range(3):
            ctx.same('rotation-is-orthogonal', f'{w} {i}{j}', Num(sum((R[k][i] * R[k][j] for k in range(3)), Z)), Num(C(int(i == j))))
    det = sum((R[0][i] * (R[1][(i + 1) % 3] * R[2][(i + 2) % 3] - R[1][(i + 2) % 3] * R[2][(i + 1) % 3]) for i in range(3)), Z)
    ctx.same('rotation-keeps-orientation', w, Num(det), Num(C(1)))
    # Bunge convention, degrees
    pi = S('pi', True)
    for n, rows in ((0, lambda c, s: [[c, -s, Z], [s, c, Z], [Z, Z, C(1)]]), (1, lambda c, s: [[C(1), Z, Z], [Z, c, -s], [Z, s, c]]), (2, lambda c, s: [[c, -s, Z], [s, c, Z], [Z, Z, C(1)]])):
        ang = [0, 0, 0]
        ang[n] = Num(S('deg'))
        q = ctx.run('rotation', w, lambda: I.call(I.get(M, 'rotation_tensor_from_euler_angles'), [tuple(ang)], {}))
        if q is not None:
            x = S('deg') * pi / C(180)
            ctx.same('each-angle-turns-about-its-axis', f'{w} {n}', q, tlib.new(sum(rows(alg.func('cos', x), alg.func('sin', x)), []), (3, 3), 'float64', 'np'))


def box(d, f=lambda c, i: (S(f'lo{c}{i}'), S(f'hi{c}{i}'))):
    return PyDict([(str(c + 1), tuple(tuple(Num(x) for x in f(c, i)) for i in range(d))) for c in range(2 ** d)])


def rigid(rng, v):
    return rng


def corners(ctx):
    """Ranges and constraints of the corners."""
    for d in (2, 3):
        w = f'{M}:{G}'
        I = ctx.interp()
        dr = Draws(I)
        dims = [S(f'len{i}', True) for i in range(d)]
        g = ctx.run('corners', w, lambda: gen(I, d, dims))
        if g is None:
            continue
        c0 = g.attrs.get('_corners_coords_ref')
        if isinstance(c0, Tensor):
            ctx.same('reference-corners', f'{w} {d}D', c0, tlib.new([dims[i] if x[i] else Z for x in CORN[d] for i in range(d)], (2 ** d, d), 'float64', 'np'))
        # every edge joins two corners that differ in one coordinate, in ascending order, and its diagonal lies in a face containing the edge
        ed, dg, mp = (g.attrs.get(x) for x in ('_edges_per_dim', '_edges_diag_per_dim', '_edges_mapping'))
        if isinstance(ed, PyDict) and isinstance(dg, PyDict) and isinstance(mp, PyDict):
            seen = {}
            for i in range(d):
                e, q = list(ed.get(str(i))), list(dg.get(str(i)))
                ctx.ob('edges-per-dimension', f'{w} {d}D {i}', len(e) == len(q) == (2 if d == 2 else 8))
                for j, (a, b) in enumerate(e):
                    A, B = CORN[d][a], CORN[d][b]
                    ctx.ob('edge-runs-along-its-dimension', f'{w} {d}D {i},{j}', [y - x for x, y in zip(A, B)] == [int(k == i) for k in range(d)], (A, B))
                    A2, B2 = CORN[d][q[j][0]], CORN[d][q[j][1]]
                    delta = [y - x for x, y in zip(A2, B2)]
                    ctx.ob('reference-diagonal-starts-at-the-edge', f'{w} {d}D {i},{j}', q[j][0] == a and delta[i] == 1 and sum(map(abs, delta)) == 2, delta)
                    seen.setdefault((a, b), []).append(tuple(k for k in range(d) if k != i and delta[k]))
            ctx.ob('edges-cover-the-patch', f'{w} {d}D', len(seen) == (4 if d == 2 else 12) and all(len(v) == (1 if d == 2 else 2) for v in seen.values()), seen)
            if d == 3:
                ctx.ob('an-edge-deforms-in-both-of-its-faces', f'{w} {d}D', all(len(set(v)) == 2 for v in seen.values()), seen)
            ctx.ob('edge-labels-are-a-bijection', f'{w} {d}D', sorted(mp.keys(), key=int) == [str(i + 1) for i in range(4 if d == 2 else 24)]
                   and len({(str(a), b) for a, b in (mp.get(q) for q in mp.keys())}) == (4 if d == 2 else 24), '')
        # prescribed ranges, boundary conditions
        for fixed in ({}, {'1': (1,) * d}, {'2': tuple(int(k == 0) for k in range(d)), str(2 ** d): tuple(int(k == d - 1) for k in range(d))}):
            bc = ctx.run('corners', w, lambda: call(I, g, '_build_corners_bc', corners_lab_bc=PyDict(fixed.items())))
            rg = bc is not None and ctx.run('corners', w, lambda: call(I, g, '_build_corners_disp_range', corners_lab_disp_range=box(d), corners_bc=bc))
            if not isinstance(rg, Tensor):
                continue
            fx = lambda c, i: bool(fixed.get(str(c + 1), (0,) * d)[i])
            ref = [Z if fx(c, i) else S(f'{h}{c}{i}') for c in range(2 ** d) for i in range(d) for h in ('lo', 'hi')]
            ctx.same('corner-ranges-with-constraints', f'{w} {d}D {fixed}', rg, tlib.new(ref, (2 ** d, d, 2), 'float64', 'np'))
            r = ctx.run('corners', w, lambda: call(I, g, '_get_corners_random_displacements', rg))
            if r is not None:
                law(ctx, dr, f'{w}._get_corners_random_displacements {d}D {fixed}', r[0], ref, d)
        # zero order edges: the corners of the edge move together across it, within both ranges when these meet
        for case in ('same', 'nested', 'fixed', 'apart', 'touch'):
            zero(ctx, d, case)


def law(ctx, dr, w, disp, ref, d):
    seen = set()
    for k, x in enumerate(disp.vals()):
        x = tlib.E(x)
        lo, hi = ref[2 * k], ref[2 * k + 1]
        u = [a for a in x.all_atoms() if dr.law.get(a) == 'U'] if not x.is_const() else []
        if lo == hi:
            ctx.same('fixed-corner-does-not-move', f'{w} {k}', Num(x), Num(lo))
            continue
        if len(u) != 1 or u[0] in seen:
            ctx.ob('corner-displacements-are-independent-draws', f'{w} {k}', False, x)
            continue
        seen.add(u[0])
        ctx.same('corner-displacement-is-uniform-in-its-range', f'{w} {k}', Num(x), Num(lo + (hi - lo) * atom(u[0])))


def zero(ctx, d, case):
    w = f'{M}:{G}._get_corners_random_displacements {d}D zero order {case}'
    I = ctx.interp()
    dr = Draws(I)
    g = ctx.run('corners', w, lambda: gen(I, d, [C(1)] * d))
    if g is None:
        return
    F = alg.Fraction
    rng = {'same': lambda c, i: (F(-1, 2), F(1, 3)), 'nested': lambda c, i: (F(-1 - c), F(2 + c)), 'fixed': lambda c, i: (F(0), F(0)) if c == 0 else (F(-1, 5), F(3, 10)),
           'apart': lambda c, i: (F(2 * c), F(2 * c + 1)), 'touch': lambda c, i: (F(0), F(1)) if c % 2 else (F(-1), F(0))}[case]
    n = 2 ** d
    rg = tlib.new([C(x) for c in range(n) for i in range(d) for x in rng(c, i)], (n, d, 2), 'float64', 'np')
    e0 = g.attrs.get('_edges_per_dim')
    if not isinstance(e0, PyDict):
        return ctx.ob('zero-order', w, None, 'no table of edges')
    ne = len(e0.get('0'))
    for target in range(d):
        # the first edge along one dimension has order zero
        orders = PyDict([(str(i), PyList([0 if i == target and j == 0 else 2 for j in range(ne)])) for i in range(d)])
        r = ctx.run('corners', w, lambda: call(I, g, '_get_corners_random_displacements', rg, edges_poly_orders=orders))
        if r is None:
            continue
        v = [tlib.E(x) for x in r[0].vals()]
        a, b = e0.get(str(target))[0]
        for k in range(d):
            if k != target:
                ctx.same('zero-order-edge-moves-as-one-across-itself', f'{w} dim {target} comp {k}', Num(v[a * d + k]), Num(v[b * d + k]))
        for c in range(n):
            for k in range(d):
                lo, hi = (C(q) for q in rng(c, k))
                touched = c in (a, b) and k != target
                if touched and case == 'apart':
                    continue
                x = v[c * d + k]
                # extremes of the standard variables
                at = [q for q in x.all_atoms()] if not x.is_const() else []
                ok = True
                for pt in itertools.product((Z, C(1)), repeat=len(at)):
                    y = alg.subst(x, dict(zip(at, pt)))
                    ok = ok and y.is_const() and lo.const() <= y.const() <= hi.const()
                ctx.ob('corner-displacement-stays-in-its-range', f'{w} dim {target} corner {c} comp {k}', ok, x)
        # matching edges become zero order too
        for i in range(d):
            o = [I.as_int(I.simp(x)) for x in I.iterate(orders.get(str(i)))]
            want = [0 if i == target and tuple(e) == (a, b) else 2 for e in e0.get(str(i))]
            ctx.ob('matching-edges-share-the-zero-order', f'{w} dim {target} {i}', o == want, o)


def ranges(ctx):
    """Orders and ranges given per label go to the edge with that label; defaults are zero."""
    for d in (2, 3):
        I = ctx.interp()
        w = f'{M}:{G} {d}D'
        g = ctx.run('edges', w, lambda: gen(I, d, [C(1)] * d))
        if g is None:
            continue
        mp = g.attrs.get('_edges_mapping')
        if not isinstance(mp, PyDict):
            ctx.ob('edges', w, None, 'no edge labels')
            continue
        ne = 2 if d == 2 else 8
        e0 = g.attrs.get('_edges_per_dim')
        if isinstance(e0, PyDict):
            got = {int(k): tuple(I.as_int(x) for x in I.iterate(list(I.iterate(e0.get(str(mp.get(k)[0]))))[I.as_int(mp.get(k)[1])])) for k in mp.keys()}
            ctx.ob('edge-labels', w, got == LABELS[d], {k: v for k, v in got.items() if LABELS[d].get(k) != v})
        full = lambda f: {str(i): [f(str(i), j) for j in range(ne)] for i in range(d)}
        lab = {(str(v[0]), v[1]): k for k, v in ((q, mp.get(q)) for q in mp.keys())}
        val = {k: int(k) % 5 + 1 for k in mp.keys()}
        part = {k: v for k, v in val.items() if int(k) % 2}
        for nm, arg, ref in (('none', None, full(lambda i, j: 0)), ('one', 3, full(lambda i, j: 3)), ('negative', -2, full(lambda i, j: 0)),
                             ('labels', PyDict(val.items()), full(lambda i, j: val[lab[i, j]])), ('some labels', PyDict(part.items()), full(lambda i, j: part.get(lab[i, j], 0))),
                             ('negative label', PyDict([('1', -2), ('2', 3)]), full(lambda i, j: {'1': 0, '2': 3}.get(lab[i, j], 0)))):
            r = ctx.run('edge-orders', w, lambda: call(I, g, '_build_edges_poly_orders', edges_lab_def_order=arg))
            if r is not None:
                ctx.ob('edge-orders-by-label', f'{w} {nm}', {k: [I.as_int(I.simp(x)) for x in I.iterate(v)] for k, v in ((q, r.get(q)) for q in r.keys())} == ref, r)
        rv = {k: (C(-int(k)), C(int(k))) for k in mp.keys()}
        for nm, keys in (('all', list(rv)), ('some', [k for k in rv if int(k) % 3])):
            r = ctx.run('edge-ranges', w, lambda: call(I, g, '_build_edges_disp_range', edges_lab_disp_range=PyDict([(k, tuple(map(Num, rv[k]))) for k in keys])))
            if r is not None:
                for i in range(d):
                    for j in range(ne):
                        k = lab[str(i), j]
                        lo, hi = rv[k] if k in keys else (Z, Z)
                        ctx.same('edge-range-by-label', f'{w} {nm} {i},{j}', list(I.iterate(r.get(str(i))))[j], (Num(lo), Num(hi)))
        r = ctx.run('edge-ranges', w, lambda: call(I, g, '_build_edges_disp_range'))
        if r is not None:
            for i in range(d):
                for j in range(ne):
                    ctx.same('no-edge-range-is-zero', f'{w} {i},{j}', list(I.iterate(r.get(str(i))))[j], (0, 0))


def refused(ctx):
    for d in (2, 3):
        I = ctx.interp()
        w = f'{M}:{G} {d}D'
        g = ctx.run('refused', w, lambda: gen(I, d, [C(1)] * d))
        if g is None:
            continue
        t, ne = ELEMS[d][0], (1,) * d
        bad = {'corners_lab_bc': [{'1': [1] * d}, {'1': (1,) * (d + 1)}], 'corners_lab_disp_range': [{'1': ((0, 1),) * (d - 1)}, {'1': ((0, 1, 2),) * d}, {'2': [(0, 1)] * d}, 5],
               'edges_lab_def_order': [{'1': 'two'}, 'two'], 'edges_lab_disp_range': [{'1': [0, 1]}, 3]}
        for k, vs in bad.items():
            for v in vs:
                refuse(ctx, 'bad-specification-is-refused', f'{w} {k}={v}', lambda: call(I, g, 'generate_deformed_patch', t, ne, **{k: from_py(v)}))
    I = ctx.interp()
    for d in (1, 4):
        refuse(ctx, 'bad-dimension-is-refused', f'{M}:{G} {d}', lambda: gen(I, d, [C(1)] * d))


def polynomial(ctx):
    """The sampled polynomial has the requested order, passes through both ends and through points drawn in the range."""
    for order in range(0, 7):
        w = f'{M}:{G}._polynomial_sampler order {order}'
        I = ctx.interp()
        dr = Draws(I)
        L, R = (C(0), S('yl')), (S('len', True) if order < 4 else C(2), S('yr'))
        lo, hi = S('lo'), S('hi')
        sol = []
        r = ctx.run('polynomial', w, lambda: I.call(I.getattr(I.get(M, G), '_polynomial_sampler'), [order, tuple(map(Num, L)), tuple(map(Num, R))], dict(lower_bound=Num(lo), upper_bound=Num(hi))))
        if r is None:
            continue
        co = [to_expr(x) for x in I.iterate(r)]
        n = max(order, 1) + 1
        ctx.ob('polynomial-degree', w, len(co) == n, len(co))
        p = lambda x: sum((c * pw(x, i) for i, c in enumerate(co)), Z)
        ctx.same('polynomial-starts-at-the-edge', w, Num(p(L[0])), Num(L[1]))
        ctx.same('polynomial-ends-at-the-edge', w, Num(p(R[0])), Num(R[1]))
        us = [atom(a) for a in sorted(dr.law, key=str)]
        got = []
        for j in range(1, n - 1):
            y = p(R[0] * C(j) / C(n - 1))
            hit = [u for u in us if alg.equal(y, lo + (hi - lo) * u)]
            ctx.ob('polynomial-passes-a-point-of-the-range', f'{w} {j}', len(hit) == 1, y)
            got += hit
        ctx.ob('sampled-points-are-independent', w, len(set(map(str, got))) == n - 2, got)


def pw(x, i):
    r = C(1)
    for _ in range(i):
        r = r * x
    return r


def atom(a):
    return alg.Expr({((a, 1),): alg.Fraction(1)})


def edge(ctx, k):
    """Deformed edge: ends on its corners, interior nodes on the sampled polynomial at the fraction of arc length the node has in
    the reference configuration; noise on interior nodes only."""
    n = 4
    order = (1, 2, 3)[k]
    for noise in (S('noise', True) if k == 1 else None,):
        for flip in (k == 2,):
            w = f'{M}:{G}._get_deformed_boundary_edge order {order} noise {noise is not None} flipped {flip}'
            I = ctx.interp(unroll=1200)
            dr = Draws(I)
            g = ctx.run('edge', w, lambda: gen(I, 2, [S('len0', True), S('len1', True)]))
            if g is None:
                return
            length = S('width', True)
            co = [S(f'coef{i}') for i in range(order + 1)]
            seen = {}

            def sampler(I, a, kw):
                a = [x for x in a if not isinstance(x, (ClassV, Instance))]
                kw = dict(zip(('order', 'left_point', 'right_point', 'lower_bound', 'upper_bound'), a), **kw)
                seen.update(kw)
                return tuple(Num(c) for c in co)
            I.stubs[f'{G}._polynomial_sampler'] = sampler
            # stand-in chord lengths: the 999 chords of the curve, then the chords of the reference edge
            cnt = [0]
            wt = lambda i: alg.Fraction(1 + i % 3)

            def norm(I, a, kw):
                if kw or len(a) != 1 or not isinstance(a[0], Tensor) or a[0].shape != (2,):
                    raise Undecided('chord lengths are measured in another way')
                cnt[0] += 1
                if cnt[0] <= 999:
                    return Num(C(wt(cnt[0] - 1)))
                return Num(C(alg.Fraction(1 + (cnt[0] - 1000) % 2)))
            I.stubs['lib:numpy.linalg.norm'] = norm
            xs = [alg.Fraction(i, n - 1) for i in range(n)]
            if flip:
                xs = xs[::-1]
            ref = tlib.new([e for i, x in enumerate(xs) for e in (C(x), S(f'ry{i}'))], (n, 2), 'float64', 'np')
            L, R = (C(0), S('yl')), (length, S('yr'))
            kw = dict(poly_bounds_range=(Num(S('lo')), Num(S('hi'))))
            if noise is not None:
                kw['noise'] = Num(noise)
            r = ctx.run('edge', w, lambda: call(I, g, '_get_deformed_boundary_edge', ref, tlib.new(list(L), (2,), 'float64', 'np'), tlib.new(list(R), (2,), 'float64', 'np'), order, **kw))
            if r is None:
                continue
            if cnt[0] != 999 + n - 1:
                ctx.ob('edge', w, None, 'chord lengths are measured in another way')
                continue
            if seen:
                ctx.ob('edge-order-is-the-requested-one', w, seen.get('order') == order, seen.get('order'))
                mid = (L[1] + R[1]) / C(2)
                ctx.same('polynomial-range-about-the-edge', w + ' lower', seen.get('lower_bound'), Num(mid + S('lo')))
                ctx.same('polynomial-range-about-the-edge', w + ' upper', seen.get('upper_bound'), Num(mid + S('hi')))
            d, u = ex(r[0]), ex(r[1])
            if len(d) != n:
                ctx.ob('edge-nodes', w, False, len(d))
                continue
            # chords of the reference edge alternate 1, 2, 1
            pos = [sum((alg.Fraction(1 + i % 2) for i in range(j)), alg.Fraction(0)) for j in range(n)]
            tot = sum((wt(i) for i in range(999)), alg.Fraction(0))
            used = set()
            for i in range(n):
                if i in (0, n - 1):
                    e = L if i == 0 else R
                    ctx.same('edge-ends-on-its-corners', f'{w} node {i}', r[0] and tlib.new(d[i], (2,), 'float64', 'np'), tlib.new(list(e), (2,), 'float64', 'np'))
                else:
                    s, acc, j = pos[i] / pos[-1] * tot, alg.Fraction(0), 0
                    while acc + wt(j) <= s:
                        acc += wt(j)
                        j += 1
                    x = length * C((j + (s - acc) / wt(j)) / 999)
                    y = sum((c * pw(x, q) for q, c in enumerate(co)), Z)
                    e = [x, y]
                    for c in range(2):
                        z = [a for a in d[i][c].all_atoms() if dr.law.get(a) == 'Z']
                        if noise is None:
                            ctx.same('edge-node-on-the-polynomial-at-its-arc-fraction', f'{w} node {i} comp {c}', Num(alg.subst(d[i][c], {a: Z for a in z})), Num(e[c]))
                        else:
                            ctx.ob('edge-node-noise-is-independent', f'{w} node {i} comp {c}', len(z) == 1 and z[0] not in used, z)
                            used |= set(z)
                            if len(z) == 1:
                                ctx.same('edge-node-noise-has-the-relative-deviation', f'{w} node {i} comp {c}', Num(d[i][c]), Num(e[c] + noise * S(f'len{c}', True) * atom(z[0])))
                rr = [C(xs[i]), S(f'ry{i}')]
                for c in range(2):
                    ctx.same('edge-displacement-is-deformed-minus-reference', f'{w} node {i} comp {c}', Num(u[i][c]), Num(d[i][c] - rr[c]))
    # straight edge, unequal reference spacing: the fractions of the length are kept, however they are measured
    I = ctx.interp(unroll=1200)
    Draws(I)
    w = f'{M}:{G}._get_deformed_boundary_edge straight {order}'
    I.stubs[f'{G}._polynomial_sampler'] = lambda I, a, kw: tuple(Num(C(int(i == 0))) for i in range(order + 1))
    xs = [alg.Fraction(x, 8) for x in (0, 1, 3, 6, 8)]
    r = ctx.run('edge', w, lambda: call(I, gen(I, 2, [C(1), C(1)]), '_get_deformed_boundary_edge', const_t([[x, 0] for x in xs], 'float64', 'np'), const_t([0, 1], 'float64', 'np'), const_t([2, 1], 'float64', 'np'), order))
    if r is not None:
        d = ex(r[0])
        for i, x in enumerate(xs[1:-1]):
            ctx.ob('edge-node-keeps-its-fraction-of-the-length', f'{w} {i}', d[i + 1][0].is_const() and abs(d[i + 1][0].fval() - 2 * x) < alg.Fraction(1, 10 ** 6), d[i + 1][0])
    I = ctx.interp()
    g = gen(I, 2, [C(1), C(1)])
    ref = const_t([[0, 0], [alg.Fraction(1, 2), 0], [1, 0]], 'float64', 'np')
    v = lambda *a: const_t(list(a), 'float64', 'np')
    refuse(ctx, 'reversed-edge-is-refused', f'{M}:{G}._get_deformed_boundary_edge', lambda: call(I, g, '_get_deformed_boundary_edge', ref, v(1, 0), v(0, 0), order))
    refuse(ctx, 'unsorted-edge-is-refused', f'{M}:{G}._get_deformed_boundary_edge', lambda: call(I, g, '_get_deformed_boundary_edge', const_t([[0, 0], [2, 0], [1, 0]], 'float64', 'np'), v(0, 0), v(1, 0), order))


def frame(ctx):
    """Local frame of a deformed edge: orthonormal, first axis along the edge."""
    I = ctx.interp()
    for d in (2, 3):
        w = f'{M}:{G}._rotation_tensor_deformed_edge {d}D'
        g = ctx.run('frame', w, lambda: gen(I, d, [C(1)] * d))
        e0, g0 = (g.attrs.get(x) for x in ('_edges_per_dim', '_edges_diag_per_dim')) if g else (None, None)
        if not isinstance(e0, PyDict):
            continue
        F = alg.Fraction
        # deformed corners with rational edge lengths where possible
        cc = [[C(CORN[d][c][k] * (4 if k == 0 else 3)) + C(F((c * 7 + k * 3) % 5, 10)) for k in range(d)] for c in range(2 ** d)]
        arr = tlib.new([x for r in cc for x in r], (2 ** d, d), 'float64', 'np')
        for i in range(d):
            for j, (a, b) in enumerate(e0.get(str(i))):
                r = ctx.run('frame', f'{w} {i},{j}', lambda: call(I, g, '_rotation_tensor_deformed_edge', i, j, arr))
                if r is None:
                    continue
                R = ex(r)
                for p in range(3):
                    for q in range(p + 1):
                        ctx.same('local-frame-is-orthonormal', f'{w} {i},{j} {p}{q}', Num(sum((R[p][k] * R[q][k] for k in range(3)), Z)), Num(C(int(p == q))))
                v = [cc[b][k] - cc[a][k] for k in range(d)] + [Z] * (3 - d)
                loc = [sum((R[p][k] * v[k] for k in range(3)), Z) for p in range(3)]
                ctx.ob('local-first-axis-runs-along-the-edge', f'{w} {i},{j}', loc[0].fval() > 0 and abs(loc[1].fval()) < 1e-9 and abs(loc[2].fval()) < 1e-9, loc)
                # the reference diagonal lies in the local plane
                pa, pb = g0.get(str(i))[j]
                v = [cc[pb][k] - cc[pa][k] for k in range(d)] + [Z] * (3 - d)
                loc = sum((R[2][k] * v[k] for k in range(3)), Z)
                ctx.ob('local-plane-contains-the-face-diagonal', f'{w} {i},{j}', abs(loc.fval()) < 1e-9, loc)


def shapely(I, d, valid=lambda k: True, ccw=lambda k: True):
    log = []

    def poly(I, a, k):
        log.append(a[0])
        n = len(log) - 1
        cen = fake(I, 'Point', coords=PyList([tuple(Num(S(f'cen{i}')) for i in range(2))]))
        mended = fake(I, 'Polygon', centroid=cen, is_valid=True, is_simple=True, is_empty=False, exterior=fake(I, 'Ring', is_ccw=ccw(n), is_valid=True))
        return fake(I, 'Polygon', centroid=cen, is_valid=valid(n), is_simple=True, is_empty=False, is_closed=True, exterior=fake(I, 'Ring', is_ccw=ccw(n), is_closed=True),
                    buffer=lambda I, a, k: mended, make_valid=lambda I, a, k: mended, simplify=lambda I, a, k: mended, convex_hull=mended)
    I.stubs['lib:shapely.geometry.Polygon'] = poly
    return log


def bounded(I):
    """Stand-in draws; a uniform draw between the bounds of x is x."""
    dr = Draws(I)
    std = dr.uniform

    def uniform(I, a, k):
        r = std(I, a, k)
        one = lambda x: next((S(n) for n in ('a1', 'a2', 'a3', 'tr0', 'tr1', 'tr2') for u in dr.law if x == S('@lo ' + n) + (S('@hi ' + n) - S('@lo ' + n)) * atom(u)), x)
        return tlib.new([one(tlib.E(x)) for x in r.vals()], r.shape, 'float64', 'np') if isinstance(r, Tensor) else Num(one(to_expr(r)))
    I.stubs['lib:numpy.random.uniform'] = uniform
    return dr


def pipeline(ctx, d, t):
    F = alg.Fraction
    dims = [F(4), F(3), F(2)][:d]
    ne = ((2, 1, 1) if t == 'SHEXA20' else (3, 2, 4)) if d == 3 else (2, 11) if t == 'SQUAD4' else (2, 3)
    if t == 'LQUAD4':
        dims = [x / 1000 for x in dims]
    n = SIZE[t][0]
    gr = grid(t, ne)
    for rot, tra in itertools.product((False, True), repeat=2):
        w = f'{M}:{G}.generate_deformed_patch {t} rotation={rot} translation={tra}'
        I = ctx.interp()
        bounded(I)
        log = shapely(I, d)
        g = ctx.run('pipeline', w, lambda: gen(I, d, dims))
        if g is None:
            return
        e0 = g.attrs.get('_edges_per_dim')
        mp = g.attrs.get('_edges_mapping')
        if not isinstance(e0, PyDict):
            ctx.run('pipeline', w, lambda: call(I, g, 'generate_deformed_patch', t, ne))
            return ctx.ob('pipeline', w, None, 'no table of edges')
        # deformed corners: the patch turned by a 3-4-5 rotation about the third axis and sheared along it
        cd = [[F(3, 5) * x[0] * dims[0] - F(4, 5) * x[1] * dims[1], F(4, 5) * x[0] * dims[0] + F(3, 5) * x[1] * dims[1]] + ([x[2] * dims[2]] if d == 3 else []) for x in CORN[d]]
        disp = [[cd[c][k] - CORN[d][c][k] * dims[k] for k in range(d)] for c in range(2 ** d)]
        calls = []

        def deformed(I, a, k):
            k = dict(zip(('nodes_coords_ref', 'left_node_def', 'right_node_def', 'poly_order', 'poly_bounds_range', 'noise'), [x for x in a if not (isinstance(x, Instance) and x is g)]), **k)
            j = len(calls)
            calls.append(k)
            m = k['nodes_coords_ref'].shape[0]
            l, r = k['left_node_def'].vals(), k['right_node_def'].vals()
            out = list(l)
            for q in range(1, m - 1):
                out += [S(f'ex{j}_{q}'), S(f'ey{j}_{q}')]
            out += list(r)
            o = tlib.new(out, (m, 2), 'float64', 'np')
            return (o, I.binop('Sub', o, k['nodes_coords_ref']))
        I.stubs[f'{G}._get_deformed_boundary_edge'] = deformed
        kw = dict(corners_lab_disp_range=box(d, lambda c, i: (C(disp[c][i]), C(disp[c][i]))), edges_lab_def_order=PyDict([(k, int(k) % 4 + 1) for k in mp.keys()]),
                  edges_lab_disp_range=PyDict([(k, (Num(C(-int(k))), Num(C(int(k))))) for k in mp.keys()]), deformation_noise=Num(S('noise')))
        if tra:
            kw['translation_range'] = PyDict([(str(i + 1), (Num(S(f'@lo tr{i}')), Num(S(f'@hi tr{i}')))) for i in range(d)])
        ang = [Z] * 3
        if rot:
            ang = [S('a1'), S('a2') if d == 3 else Z, S('a3') if d == 3 else Z]
            kw['rotation_angles_range'] = PyDict([(q, (Num(S('@lo ' + x)), Num(S('@hi ' + x)))) for q, x in zip(('alpha', 'beta', 'gamma'), ('a1', 'a2', 'a3'))])
        r = ctx.run('pipeline', w, lambda: call(I, g, 'generate_deformed_patch', t, ne, **kw))
        if r is None:
            continue
        ctx.ob('admissible-patch-is-returned', w, I.simp(r[0]) is True and isinstance(r[1], Instance), r[0])
        if not isinstance(r[1], Instance):
            continue
        P = r[1]
        get = lambda x: call(I, P, x)
        if not rot and not tra and calls:
            first = list(calls)
            del calls[:]
            r2 = ctx.run('pipeline', w, lambda: call(I, g, 'generate_deformed_patch', t, ne, **kw))
            second, calls[:] = list(calls), first
            if r2 is not None:
                ctx.ob('second-patch-starts-from-the-same-reference', w, len(first) == len(second), len(second))
                for q, (x, y) in enumerate(zip(first, second)):
                    for nm in ('nodes_coords_ref', 'right_node_def'):
                        ctx.same('second-patch-starts-from-the-same-reference', f'{w} {nm} {q}', y[nm], x[nm])
        lab = mesh_ok(ctx, I, w, t, ne, [C(x) for x in dims], get('get_mesh_nodes_matrix'), get('get_mesh_nodes_coords_ref'))
        order = [(i, j) for i in range(d) for j in range(len(e0.get(str(i))))]
        if len(calls) != len(order):
            ctx.ob('every-edge-is-deformed-once', w, None if not calls else False, len(calls))
            continue
        labof = {(str(v[0]), v[1]): k for k, v in ((q, mp.get(q)) for q in mp.keys())}
        # position of every edge node in the deformed configuration
        R9 = I.call(I.get(M, 'rotation_tensor_from_euler_angles'), [tuple(Num(x) for x in ang)], {}) if rot else None
        Rb = ex(R9) if rot else [[C(int(i == j)) for j in range(3)] for i in range(3)]
        pos = {}
        for (i, j), k in zip(order, calls):
            a, b = e0.get(str(i))[j]
            key = labof[str(i), j]
            we = f'{w} edge {i},{j}'
            ctx.ob('edge-gets-its-order', we, I.as_int(I.simp(k['poly_order'])) == int(key) % 4 + 1, k['poly_order'])
            ctx.same('edge-gets-its-range', we, k.get('poly_bounds_range'), (Num(C(-int(key))), Num(C(int(key)))))
            ctx.same('edge-gets-the-noise', we, k.get('noise'), Num(S('noise')))
            Rl = edge_frame(d, e0, g.attrs.get('_edges_diag_per_dim'), i, j, cd)
            m = gr[i]
            lr = ex(k['nodes_coords_ref'])
            ctx.ob('edge-has-its-nodes', we, len(lr) == m, len(lr))
            loc = lambda x: [sum((Rl[p][q] * C(x[q] - cd[a][q]) for q in range(d)), Z) for p in range(d)]
            ctx.same('edge-starts-at-the-local-origin', we, k['left_node_def'], tlib.new([Z, Z], (2,), 'float64', 'np'))
            ctx.same('edge-ends-on-the-local-axis', we, k['right_node_def'], tlib.new(loc(cd[b])[:2], (2,), 'float64', 'np'))
            for q in range(m):
                x0 = [CORN[d][a][s] * dims[s] + F(q, m - 1) * (CORN[d][b][s] - CORN[d][a][s]) * dims[s] for s in range(d)]
                ctx.same('edge-reference-in-the-local-frame', f'{we} node {q}', tlib.new(lr[q], (2,), 'float64', 'np'), tlib.new(loc(x0)[:2], (2,), 'float64', 'np'))
                n0 = order.index((i, j))
                L = [Z, Z] if q == 0 else loc(cd[b])[:2] if q == m - 1 else [S(f'ex{n0}_{q}'), S(f'ey{n0}_{q}')]
                L = L + [Z] * (d - 2)
                x = [sum((Rl[p][s] * L[p] for p in range(d)), Z) + C(cd[a][s]) for s in range(d)]
                node = tuple((q if s == i else CORN[d][a][s] * (gr[s] - 1)) for s in range(d))
                pos.setdefault(node, []).append(x)
        cen = [S('cen0'), S('cen1')] if d == 2 else [C(sum(cd[c][s] for c in range(8)) / 8) for s in range(3)]
        inv = {v: k for k, v in lab.items()}
        dd = get('get_mesh_boundary_nodes_disps')
        want = {}
        for node, xs in pos.items():
            x = [sum((y[s] for y in xs), Z) / C(len(xs)) for s in range(d)]
            x = [cen[s] + sum((Rb[s][p] * (x[p] - cen[p]) for p in range(d)), Z) + (S(f'tr{s}') if tra else Z) for s in range(d)]
            want[node] = [x[s] - C(F(node[s], gr[s] - 1) * dims[s]) for s in range(d)]
        edges = set(want)
        if d == 3:
            for f, side in itertools.product(range(3), (0, 1)):
                ax = [s for s in range(3) if s != f]
                for p, q in itertools.product(range(1, gr[ax[0]] - 1), range(1, gr[ax[1]] - 1)):
                    node = [0, 0, 0]
                    node[f] = side * (gr[f] - 1)
                    at = lambda u, v: tuple({ax[0]: u, ax[1]: v}.get(s, node[s]) for s in range(3))
                    if at(p, q) not in inv:
                        continue
                    x1, x2 = C(F(p, gr[ax[0]] - 1)), C(F(q, gr[ax[1]] - 1))
                    want[at(p, q)] = [((C(1) - x1) * want[at(0, q)][s] + x1 * want[at(gr[ax[0]] - 1, q)][s] + (C(1) - x2) * want[at(p, 0)][s] + x2 * want[at(p, gr[ax[1]] - 1)][s]) / C(2) for s in range(3)]
        ctx.ob('displacements-are-prescribed-on-the-whole-boundary', w, sorted(dd.keys(), key=int) == sorted((str(inv[x]) for x in want), key=int), len(dd.keys()))
        for node, u in want.items():
            x = dd.get(str(inv[node]), None)
            if x is not None:
                ctx.same('edge-node-displacement' if node in edges else 'face-node-displacement', f'{w} {node}', x, tlib.new(u, (d,), 'float64', 'np'))
        if d == 2 and log:
            # boundary polygon given to the geometry library: closed, counterclockwise order of the corners, every boundary node once
            for q, arr in enumerate(log):
                v = ex(arr)
                if not rot and not tra:
                    at = [c for x in v[:-1] for c in range(4) if all(alg.equal(x[s], C(cd[c][s])) for s in range(2))]
                    ctx.ob('boundary-polygon-runs-counterclockwise', f'{w} {q}', len(at) == 4 and all((at[(i + 1) % 4] - at[i]) % 4 == 1 for i in range(4)), at)
                ctx.ob('boundary-polygon-has-every-boundary-node-once', f'{w} {q}', len(v) == len(pos) + 1 and all(alg.equal(a, b) for a, b in zip(v[0], v[-1])) and len({tuple(map(str, x)) for x in v[:-1]}) == len(pos), len(v))
    # admissibility
    if d == 2:
        for nm, valid, ccw, okk in (('crossing', lambda k: False, lambda k: True, None), ('turned over', lambda k: True, lambda k: False, None), ('second', lambda k: k >= 3, lambda k: True, 1)):
            w = f'{M}:{G}.generate_deformed_patch {t} {nm}'
            I = ctx.interp()
            Draws(I)
            shapely(I, d, valid, ccw)
            num = [0]

            def deformed(I, a, k):
                num[0] += 1
                k = dict(zip(('nodes_coords_ref', 'left_node_def', 'right_node_def'), [x for x in a if not isinstance(x, Instance)]), **k)
                m = k['nodes_coords_ref'].shape[0]
                out = list(k['left_node_def'].vals()) + [S(f'v{num[0]}_{q}') for q in range(2 * (m - 2))] + list(k['right_node_def'].vals())
                return (tlib.new(out, (m, 2), 'float64', 'np'), None)
            I.stubs[f'{G}._get_deformed_boundary_edge'] = deformed
            g = gen(I, d, dims)
            r = ctx.run('pipeline', w, lambda: call(I, g, 'generate_deformed_patch', t, ne, edges_lab_def_order=2, max_iter=3))
            if r is None:
                continue
            if okk is None:
                ctx.ob('inadmissible-patch-is-not-returned', w, I.simp(r[0]) is False and r[1] is None, r)
                ctx.ob('generation-is-repeated-up-to-the-limit', w, num[0] == 12, num[0])
            else:
                ctx.ob('admissible-patch-is-returned', w, I.simp(r[0]) is True and num[0] == 8, (r[0], num[0]))
                if isinstance(r[1], Instance):
                    at = {str(a) for x in (call(I, r[1], 'get_mesh_boundary_nodes_disps').get(k).vals() for k in call(I, r[1], 'get_mesh_boundary_nodes_disps').keys()) for e in x for a in [str(tlib.E(e))]}
                    ctx.ob('returned-patch-is-the-admissible-one', w, not any(f'v{i}_' in s for s in at for i in range(1, 5)), list(at)[:3])


def edge_frame(d, e0, g0, i, j, cd):
    """Local frame from exact geometry (the corners are chosen so that the edges have rational directions)."""
    a, b = e0.get(str(i))[j]
    pa, pb = g0.get(str(i))[j]
    F = alg.Fraction
    sub = lambda x, y: [F(p - q) for p, q in zip(x, y)] + [F(0)] * (3 - d)
    u, v = sub(cd[b], cd[a]), sub(cd[pb], cd[pa])

    def unit(x):
        import math
        s = sum(q * q for q in x)
        r = F(math.isqrt(s.numerator), math.isqrt(s.denominator))
        if r * r != s:
            raise Undecided('irrational edge')
        return [q / r for q in x]
    cr = lambda x, y: [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    e = unit(u)
    o = unit(cr(v, e))
    h = [-x for x in cr(e, o)]
    return [[C(x) for x in r] for r in (e, h, o)]


def patch(ctx):
    """A patch refuses displacements of interior nodes and hands out what it was given."""
    for d in (2, 3):
        for t in ELEMS[d][:2]:
            ne = (2, 2, 2)[:d]
            gr = grid(t, ne)
            w = f'{PT}:FiniteElementPatch {t}'
            I = ctx.interp()
            g = gen(I, d, [C(1)] * d)
            r = ctx.run('patch', w, lambda: call(I, g, '_generate_finite_element_mesh', t, ne))
            if r is None:
                continue
            mat_, co = r
            v = ints(mat_)
            lab = {v[k]: idx for k, idx in enumerate(itertools.product(*[range(x) for x in gr])) if v[k]}
            bnd = sorted(k for k, i in lab.items() if any(i[s] in (0, gr[s] - 1) for s in range(d)))
            ins = sorted(set(lab) - set(bnd))
            mk = lambda labels: I.call(I.get(PT, 'FiniteElementPatch'), [d, tuple(Num(C(i + 2)) for i in range(d)), t, ne, mat_, co, PyDict([(str(k), tens(f'u{k}_', (d,), 'float64', 'np')) for k in labels])], {})
            p = ctx.run('patch', w, lambda: mk(bnd))
            if p is None:
                continue
            got = ctx.run('patch', w, lambda: call(I, p, 'get_boundary_nodes_labels'))
            if got is not None:
                ctx.ob('boundary-nodes', w, sorted(I.as_int(I.simp(x)) for x in I.iterate(got)) == bnd, got)
            got = ctx.run('patch', w, lambda: call(I, p, 'get_boundary_edges_nodes_labels'))
            if got is not None:
                e = sorted(k for k, i in lab.items() if sum(i[s] in (0, gr[s] - 1) for s in range(d)) >= d - 1)
                ctx.ob('boundary-edge-nodes', w, sorted(I.as_int(I.simp(x)) for x in I.iterate(got)) == e, got)
            if ins:
                refuse(ctx, 'interior-displacement-is-refused', w, lambda: mk(bnd + ins[:1]))
            sz = ctx.run('patch', w, lambda: call(I, p, 'get_elem_size_dims'))
            if sz is not None:
                ctx.same('element-size', w, sz, tuple(Num(C(i + 2) / C(ne[i])) for i in range(d)))
            q = ctx.run('patch', w, lambda: call(I, p, 'get_n_edge_nodes_per_dim'))
            if q is not None:
                ctx.ob('edge-nodes-per-dimension', w, [I.as_int(x) for x in I.iterate(q)] == gr, q)
            dd = call(I, p, 'get_mesh_boundary_nodes_disps')
            for k in bnd:
                ctx.same('patch-returns-its-displacements', f'{w} {k}', dd.get(str(k), None), tens(f'u{k}_', (d,), 'float64', 'np'))
            if d == 2:
                c = ctx.run('patch', w, lambda: call(I, p, 'get_mesh_connected_nodes'))
                if c is not None:
                    got = sorted(tuple(sorted(I.as_int(I.simp(x)) for x in I.iterate(y))) for y in I.iterate(c))
                    inv = {i: k for k, i in lab.items()}
                    e = sorted(tuple(sorted((inv[a], inv[b]))) for a in inv for b in ((a[0] + 1, a[1]), (a[0], a[1] + 1)) if b in inv)
                    ctx.ob('connected-nodes-are-grid-neighbours', w, got == e, '')
