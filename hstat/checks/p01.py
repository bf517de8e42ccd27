"""P01 - element shape functions.  Every concrete subclass of ElementType is
instantiated abstractly and its shape functions are evaluated at symbolic local
coordinates, giving exact polynomials; partition of unity, interpolation at the
nodes, completeness (linear, and quadratic for the mid-side families) and
equality of the derivative table with the formal derivative are then decided as
polynomial identities (all points of the element at once)."""
from .. import alg
from ..alg import ONE, ZERO
from ..common import *

FLOOR = 60
PKG = 'simulators.fetorch.element.type'


def elements(I):
    return subclasses(I, PKG, PKG + '.interface', 'ElementType')


def groups(tier):
    from ..check import Ctx
    I = Ctx('', tier).interp()
    cl = elements(I)
    if len(cl) < 4:
        raise KeyError('element types not found')
    return [(c.name, lambda ctx, m=c.module.name, n=c.name: one(ctx, m, n)) for c in cl]


def one(ctx, mod, name):
    I = ctx.interp()
    e = I.call(I.get(mod, name), [], {})
    n_dim = I.as_int(I.call(I.getattr(e, 'get_n_dof_node'), [], {}))
    n_node = I.as_int(I.call(I.getattr(e, 'get_n_node'), [], {}))
    xi = vec('xi', n_dim)
    w = f'{mod}:{name}'
    N = ctx.run('shape-functions-evaluate', w + '.eval_shapefun',
                lambda: I.call(I.getattr(e, 'eval_shapefun'), [xi], {}))
    dN = ctx.run('shape-derivatives-evaluate', w + '.eval_shapefun_local_deriv',
                 lambda: I.call(I.getattr(e, 'eval_shapefun_local_deriv'), [xi], {}))
    if N is None or dN is None:
        return
    ctx.ob('one-shape-function-per-node', w + '.eval_shapefun', N.shape == (n_node,), N.shape)
    ctx.ob('derivative-table-shape', w + '.eval_shapefun_local_deriv', dN.shape == (n_node, n_dim), dN.shape)
    if N.shape != (n_node,) or dN.shape != (n_node, n_dim):
        return
    Nv, dv = ex(N), ex(dN)
    ctx.same('partition-of-unity', w + '.eval_shapefun', sum(Nv[1:], Nv[0]), ONE)
    ids = [alg.atom_of(x) for x in xi.vals()]
    for a in range(n_node):
        for d in range(n_dim):
            ctx.same('derivative-is-formal-derivative', f'{w}.eval_shapefun_local_deriv[{a + 1},{d + 1}]',
                     dv[a][d], alg.diff(Nv[a], ids[d]))
    for d in range(n_dim):
        ctx.same('derivatives-sum-to-zero', f'{w}.eval_shapefun_local_deriv[:,{d + 1}]',
                 sum((dv[a][d] for a in range(1, n_node)), dv[0][d]), ZERO)
    X = ex(attr_tensor(e, (n_node, n_dim), '_nodes_local_coords'))
    ctx.ob('nodes-distinct', w, len({tuple(map(str, r)) for r in X}) == n_node, '')
    for b in range(n_node):
        mp = dict(zip(ids, X[b]))
        for a in range(n_node):
            ctx.same('interpolation-at-nodes', f'{w}.eval_shapefun[{a + 1}] at node {b + 1}',
                     alg.subst(Nv[a], mp), ONE if a == b else ZERO)
    # reproduces linear fields exactly (isoparametric consistency)
    for d in range(n_dim):
        s = ZERO
        for a in range(n_node):
            s = s + Nv[a] * X[a][d]
        ctx.same('reproduces-linear-field', f'{w}.eval_shapefun x{d + 1}', s, alg._atom_expr(alg.ATOMS[ids[d]]))
