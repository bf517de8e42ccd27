"""P02 - Gauss quadratures.  Every admissible number of integration points of
every element type, and every rule implemented per domain, is evaluated
abstractly; weights, point location, exactness degree (all monomials up to the
degree of the rule), labels and the order used by the batched getter are decided
on the exact constants."""
import itertools
import math
from fractions import Fraction

from .. import alg
from ..common import *
from .p01 import elements, PKG

FLOOR = 60
DOMAINS = {'linear': (1, (1, 2, 3)), 'quadrilateral': (2, (1, 4, 9)), 'hexahedral': (3, (1, 8, 27)),
           'triangular': (2, (1, 3)), 'tetrahedral': (3, (1, 4))}
TENSOR = {'linear', 'quadrilateral', 'hexahedral'}


def moment(domain, p):
    if domain in TENSOR:
        r = Fraction(1)
        for k in p:
            r *= Fraction(0) if k % 2 else Fraction(2, k + 1)
        return r
    n = len(p)
    r = Fraction(1)
    for k in p:
        r *= math.factorial(k)
    return r / math.factorial(sum(p) + n)


def inside(domain, x):
    v = [c.fval() for c in x]
    if domain in TENSOR:
        return all(-1 < c < 1 for c in v)
    return all(c > 0 for c in v) and sum(v) < 1


def check_rule(ctx, w, domain, n_dim, n, pts, wts):
    ok = len(pts) == n and len(wts) == n and all(len(x) == n_dim for x in pts)
    ctx.ob('n-points', w, ok, f'{len(pts)} points, {len(wts)} weights')
    if not ok:
        return
    ctx.ob('constant-rule', w, all(c.fval() is not None and all(alg.ATOMS[a].kind == 'sqrt' for a in c.atoms())
                                   for x in pts for c in x), '')
    ctx.ob('points-inside-domain', w, all(inside(domain, x) for x in pts), '')
    ctx.ob('points-distinct', w, len({tuple(round(c.fval(), 8) for c in x) for x in pts}) == n, '')
    ctx.ob('positive-weights', w, all(c.fval() > 0 for c in wts), '')
    if domain in TENSOR:
        m = round(n ** (1 / n_dim))
        degs = [p for p in itertools.product(range(2 * m), repeat=n_dim)]
    else:
        deg = 1 if n == 1 else 2
        degs = [p for p in itertools.product(range(deg + 1), repeat=n_dim) if sum(p) <= deg]
    for p in degs:
        s = alg.ZERO
        for x, wt in zip(pts, wts):
            t = wt
            for c, k in zip(x, p):
                for _ in range(k):
                    t = t * c
            s = s + t
        ctx.same('exact-integration', f'{w} monomial {p}', s, alg.const(moment(domain, p)))


def get_rule(I, coords, weights, n):
    if not (isinstance(coords, PyDict) and isinstance(weights, PyDict)):
        raise Undecided('quadrature container')
    keys = {str(i + 1) for i in range(n)}
    kc, kw = {k for k, _ in coords.d.values()}, {k for k, _ in weights.d.values()}
    if kc != keys or kw != keys:
        return None, (kc, kw)
    pts = [ex(coords.get(str(i + 1))) for i in range(n)]
    wts = [ex(weights.get(str(i + 1))) for i in range(n)]
    return (pts, wts), None


def groups(tier):
    from ..check import Ctx
    I = Ctx('', tier).interp()
    g = [('rules', rules)]
    for c in elements(I):
        g.append((c.name, lambda ctx, m=c.module.name, n=c.name: element(ctx, m, n)))
    return g


def rules(ctx):
    I = ctx.interp()
    f = I.get(PKG + '.quadratures', 'gauss_quadrature')
    for dom, (nd, ns) in DOMAINS.items():
        for n in ns:
            w = f'gauss_quadrature({n}, {dom!r})'
            r = ctx.run('rule-implemented', w, lambda: I.call(f, [n, dom], {}))
            if r is None:
                continue
            rule, keys = get_rule(I, r[0], r[1], n)
            ctx.ob('points-labelled-1-to-n', w, rule is not None, keys)
            if rule:
                check_rule(ctx, w, dom, nd, n, *rule)


def domain_of(name, n_dim):
    s = name.lower()
    if 'tri' in s:
        return 'triangular'
    if 'tet' in s:
        return 'tetrahedral'
    return {1: 'linear', 2: 'quadrilateral', 3: 'hexahedral'}[n_dim]


def element(ctx, mod, name):
    I = ctx.interp()
    cls = I.get(mod, name)
    adm = I.iterate(I.call(I.get(mod, name + '._admissible_gauss_quadratures'), [], {}))
    e0 = I.call(cls, [], {})
    n_dim = I.as_int(I.call(I.getattr(e0, 'get_n_dof_node'), [], {}))
    nd = I.as_int(I.call(I.getattr(e0, 'get_n_gauss'), [], {}))
    dom = domain_of(name, n_dim)
    ctx.ob('default-quadrature-admissible', f'{mod}:{name}', nd in adm, nd)
    for n in adm:
        w = f'{mod}:{name}(n_gauss={n})'
        e = ctx.run('admissible-quadrature-implemented', w, lambda: I.call(cls, [], {'n_gauss': n}))
        if e is None:
            continue
        ctx.ob('reported-n-gauss', w, I.call(I.getattr(e, 'get_n_gauss'), [], {}) == n)
        r = I.call(I.getattr(e, 'get_gauss_integration_points'), [], {})
        rule, keys = get_rule(I, r[0], r[1], n)
        ctx.ob('points-labelled-1-to-n', w, rule is not None, keys)
        if not rule:
            continue
        check_rule(ctx, w, dom, n_dim, n, *rule)
        b = ctx.run('batched-getter', w, lambda: I.call(I.getattr(e, 'get_batched_gauss_integration_points'), [], {}))
        if b is not None:
            ctx.same('batched-points-in-label-order', w, b[0], tlib.new([c for x in rule[0] for c in x], (n, n_dim)))
            ctx.same('batched-weights-in-label-order', w, b[1], tlib.new(rule[1], (n,)))
        # returned tables are copies: writing to them does not change the element
        for k in range(2):
            for key, (kk, t) in list(r[k].d.items()):
                tlib.write(t, [alg.sym('clobber')] * t.size)
        r2 = I.call(I.getattr(e, 'get_gauss_integration_points'), [], {})
        rule2, _ = get_rule(I, r2[0], r2[1], n)
        ctx.ob('getter-returns-independent-copies', w, rule2 is not None and all(
            alg.equal(a, b) for x, y in zip(rule[0], rule2[0]) for a, b in zip(x, y)) and all(
            alg.equal(a, b) for a, b in zip(rule[1], rule2[1])))
    bad = next(n for n in (2, 5, 7, 11) if n not in adm)
    try:
        I.call(cls, [], {'n_gauss': bad})
        ctx.ob('inadmissible-quadrature-rejected', f'{mod}:{name}', False, f'n_gauss={bad} accepted')
    except AbsRaise:
        ctx.ob('inadmissible-quadrature-rejected', f'{mod}:{name}', True)
