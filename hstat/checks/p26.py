"""P26 - Lou-Zhang-Yoon plasticity (loop based and vectorised).  The stress
invariants and their derivatives are compared with their definitions, the
residual equations of the return mapping with the associative flow rule, the
evolution equation and the yield condition, and every entry of the Jacobian with
the formal derivative of the residuals, along one line of elastic strain per
component through a generic point (hardening laws uninterpreted, unrestricted
multiplier and hardening variable).  The state update is evaluated abstractly
with the residuals as uninterpreted functions of the iterate: regime literals,
Newton system and update, the literal that admits the returned state, elastic
law, strain decomposition and poisoning of a failed step are decided on every
leaf.  The convexity return mapping is compared with its radial definition."""
import math
from fractions import Fraction

from .. import alg
from ..common import *
from .p03 import SYM
from .p07 import iso
from .p09 import Facts, first_lit

FLOOR = 150
LIMIT = 400
P = 'simulators.fetorch.material.models.'
MODELS = {'LouZhangYoon': ('standard.lou', 'get_residual_and_jacobian'),
          'LouZhangYoonVMAP': ('vmap.lou', '_get_residual_and_jacobian')}
O3 = SYM[3]
Z, ONE = alg.ZERO, alg.ONE
C = alg.const
R2 = alg.sqrt(C(2))
R3 = range(3)
KF = [ONE if c[0] == c[1] else R2 for c in O3]
IX = [(int(c[0]) - 1, int(c[1]) - 1) for c in O3]
BASE = [[C(2), C(1), C(1) / 2], [C(1), C(5), C(1)], [C(1) / 2, C(1), C(-3)]]
TOL = 1e-5


def groups(tier):
    g = []
    for name in MODELS:
        g.append((f'{name} invariants', lambda ctx, n=name: invariants(ctx, n)))
        for assoc in (False, True):
            for fixed in ([False, True] if name.endswith('VMAP') else [False]):
                for k in range(7):
                    g.append((f'{name} jacobian {(O3 + ("acc",))[k]} associative={assoc} fixed={fixed}',
                              lambda ctx, a=(name, k, assoc, fixed): jacobian(ctx, *a)))
        for d in (3, 2):
            for old in ('virgin', 'loaded'):
                g.append((f'{name} update {d}D {old}', lambda ctx, a=(name, d, old): update(ctx, *a)))
    g.append(('convexity', convexity))
    g.append(('convexity condition', convex_condition))
    return g


def scal(e):
    return tlib.new([e], (), 'float64', 'torch')


NUM = dict(Y=C(2), A=C(3) / 2, B=C(1) / 5, C=C(1) / 3, D=C(-1) / 4)


def law(n, fixed=False, num=False):
    """Uninterpreted hardening law and its slope (num: a rational value, any slope)."""
    def f(I, a, k):
        x = a[1] if len(a) > 1 else k['acc_p_strain']
        e = tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)
        if num:
            return scal(NUM[n]), scal(Z if fixed and n != 'Y' else S(n + 'slope'))
        if fixed and n != 'Y':
            return scal(value(n, e, fixed)), scal(Z)
        return scal(alg.fn(n, (e,), pos=n in 'YA')), scal(alg.fn(n + 'p', (e,)))
    return Native(f, n)


def value(n, e, fixed, num=False):
    if num:
        return NUM[n]
    if fixed == 'steps' and n != 'Y':     # a different value at every hardening variable met
        if n in 'CD':
            return alg.fn(n, (e,))
        return NUM[n] * (ONE if alg.equal(e, S('acc')) else C(7) / 6 if e.is_zero() else C(6) / 5)
    if fixed and n != 'Y':
        return NUM[n] if n in 'AB' else S(n + 'c')
    return alg.fn(n, (e,), pos=n in 'YA')


def params(assoc, fixed, num=False):
    for n in 'YABCD':
        alg.DERIV[n] = lambda a, k, n=n: alg.fn(n + 'p', a)
    laws = [('hardening_law', law('Y', num=num)), ('hardening_parameters', PyDict([]))]
    for n in 'abcd':
        laws += [(f'{n}_hardening_law', law(n.upper(), fixed, num)), (f'{n}_hardening_parameters', PyDict([]))]
    return PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(S('E', True))), ('v', Num(C(3) / 10)),
                   ('euler_angles', (0, 0, 0)), ('is_associative_hardening', assoc)] + laws)


def make(I, name, ptype, par, fixed):
    kw = {'is_fixed_yield_parameters': fixed} if name.endswith('VMAP') else {}
    return I.call(I.get(P + MODELS[name][0], name), ['infinitesimal', ptype, par], kw)


def dev(s):
    p = (s[0][0] + s[1][1] + s[2][2]) / 3
    return [[s[i][j] - (p if i == j else Z) for j in R3] for i in R3]


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(s):
    """i1, i2, i3, i1, j2, j3 by definition."""
    i1 = s[0][0] + s[1][1] + s[2][2]
    ss = sum((s[i][j] * s[j][i] for i in R3 for j in R3), Z)
    d = dev(s)
    return (i1, (i1 * i1 - ss) / 2, det3(s), i1, sum((d[i][j] * d[i][j] for i in R3 for j in R3), Z) / 2, det3(d))


def effective(s, a, b, c, d):
    i1, _, _, _, j2, j3 = inv3(s)
    return a * (b * i1 + (alg.sqrt(j2 ** 3 - c * j3 ** 2) - d * j3) ** (ONE / 3))


def line(k, t, scale=ONE):
    """Generic point moved by t along component k (symmetric)."""
    i, j = IX[k]
    return [[BASE[a][b] * scale + (t if (a, b) in ((i, j), (j, i)) else Z) for b in R3] for a in R3]


# ----------------------------------------------------------------- invariants
def invariants(ctx, name):
    I = ctx.interp()
    w = f'{P}{MODELS[name][0]}:{name}'
    m = ctx.run('construction', w, lambda: make(I, name, 4, params(False, False), False))
    if m is None:
        return
    s = mat('s', 3, 3, sym=True)
    r = ctx.run('invariants', w, lambda: I.iterate(I.call(I.getattr(m, 'get_stress_invariants'), [s], {})))
    if r is None:
        return
    ref = inv3(ex(s))
    for n, x, y in zip(('i1', 'i2', 'i3', 'j1', 'j2', 'j3'), r, ref):
        ctx.same('invariant-by-definition', f'{w}.get_stress_invariants {n}', x, y)
    t = S('t')
    ti = alg.atom_of(t)
    for k, c in enumerate(O3):
        sk = line(k, t)
        r = ctx.run('invariants', w, lambda: I.iterate(
            I.call(I.getattr(m, 'get_stress_invariants_and_derivatives'), [3, const_t(sk)], {})))
        if r is None:
            return
        ref = inv3(sk)
        ww = f'{w}.get_stress_invariants_and_derivatives d/d{c}'
        for n, x, y in zip(('i1', 'i2', 'i3', 'j1', 'j2', 'j3'), r, ref):
            ctx.same('invariant-by-definition', f'{ww} {n}', x, y)
        i, j = IX[k]
        f = ONE if i == j else C(2)
        for n, first, inv in (('i1', r[6], ref[0]), ('j2', r[7], ref[4]), ('j3', r[8], ref[5])):
            ctx.same('first-derivative-of-invariant', f'{ww} {n}', f * ex(first)[i][j], alg.diff(inv, ti))
        for n, first, second in (('j2', r[7], r[9]), ('j3', r[8], r[10])):
            v, q = ex(first), ex(second)
            ctx.same('second-derivative-of-invariant', f'{ww} {n}',
                     [[f * (q[a][b][i][j] + q[a][b][j][i]) / 2 for b in R3] for a in R3],
                     [[alg.diff(v[a][b], ti) for b in R3] for a in R3])
    par = [S(x, True) for x in 'abcd']
    e = ctx.run('effective-stress', w, lambda: I.call(I.getattr(m, 'get_effective_stress'),
                                                      [const_t(line(3, t))] + [scal(x) for x in par], {}))
    if e is not None:
        ctx.same('effective-stress-by-definition', f'{w}.get_effective_stress', e, effective(line(3, t), *par))
    # wholly known points, tension and compression
    num = [C(alg.Fraction(3, 2)), C(alg.Fraction(1, 5)), C(alg.Fraction(1, 3)), C(alg.Fraction(-1, 4))]
    for sc in (1, -1, alg.Fraction(-7, 2)):
        pt = line(3, alg.from_float(0.0), C(sc))
        e = ctx.run('effective-stress', w, lambda: I.call(I.getattr(m, 'get_effective_stress'), [const_t(pt)] + [scal(x) for x in num], {}))
        if e is not None:
            v, r = to_expr(e).fval(), effective(pt, *num).fval()
            ctx.ob('effective-stress-in-tension-and-compression', f'{w}.get_effective_stress {sc}', None if v != v or r != r else abs(v - r) <= 1e-9 * abs(r), (v, r))


# ------------------------------------------------------------------- jacobian
def arguments(I, f, vals):
    """Arguments of the residual function by parameter name."""
    fn = f.func if hasattr(f, 'func') else f
    names = [a.arg for a in fn.node.args.args]
    names = [n for n in names if n not in ('self', 'cls')]
    return {n: vals[n] for n in names if n in vals}, [n for n in names if n not in vals]


def jacobian(ctx, name, k, assoc, fixed):
    I = ctx.interp()
    mod, meth = MODELS[name]
    num = k < 6                # strain columns: rational yield parameters, arbitrary slopes
    w = f'{P}{mod}:{name}.{meth} d/d{(O3 + ("acc",))[k]}' + (' associative' if assoc else '') + (' fixed' if fixed else '')
    par = params(assoc, fixed, num)
    m = ctx.run('construction', w, lambda: make(I, name, 4, par, fixed))
    if m is None:
        return
    t, acc, acc0, dl, y0 = S('t'), S('acc'), S('acc0'), S('dl'), S('Y0', True)
    lam, mu = C(3) / 2, ONE
    dd = lambda i, j: ONE if i == j else Z
    Ct = [[[[lam * dd(i, j) * dd(a, b) + mu * (dd(i, a) * dd(j, b) + dd(i, b) * dd(j, a)) for b in R3] for a in R3]
           for j in R3] for i in R3]
    es = line(k, t) if num else line(0, Z)
    etr = [[S(f'et{min(i, j)}{max(i, j)}') for j in R3] for i in R3]
    vals = dict(n_dim=3, comp_order_sym=O3, e_strain=const_t(es), e_trial_strain=const_t(etr),
                acc_p_strain=scal(acc), acc_p_strain_old=scal(acc0), inc_p_mult=scal(dl),
                e_consistent_tangent=const_t(Ct), init_yield_stress=scal(y0),
                is_associative_hardening=assoc, is_fixed_yield_parameters=fixed)
    for n in ('', 'a_', 'b_', 'c_', 'd_'):
        vals[n + 'hardening_law'] = par.get(n + 'hardening_law')
        vals[n + 'hardening_parameters'] = PyDict([])
    f = I.getattr(m, meth)
    kw, unknown = arguments(I, f, vals)
    if unknown:
        return ctx.ob('jacobian', w, None, f'parameters {unknown} not understood')
    r = ctx.run('jacobian', w, lambda: I.iterate(I.call(f, [], kw)))
    if r is None:
        return
    r1, r2, r3, J = r
    if J.shape != (8, 8):
        return ctx.ob('jacobian-shape', w, False, J.shape)
    J, r1, r2, r3 = ex(J), ex(r1), ex(r2), ex(r3)
    tr = es[0][0] + es[1][1] + es[2][2]
    sig = [[2 * mu * es[i][j] + (lam * tr if i == j else Z) for j in R3] for i in R3]
    Y, A, B, Cc, D = (value(n, acc, fixed, num) for n in 'YABCD')
    eff = effective(sig, A, B, Cc, D)
    ctx.same('yield-residual', w, r3, (eff - Y) / y0)
    N = [[(r1[i][j] - es[i][j] + etr[i][j]) / dl for j in R3] for i in R3]
    ctx.ob('strain-residual-linear-in-multiplier', w, all(alg.atom_of(dl) not in x.all_atoms() for q in N for x in q), '')
    ti = alg.atom_of(t)
    if not num:
        sv, (_, _, _, _, j2, j3) = dev(sig), inv3(sig)
        s2 = [[sum((sv[a][x] * sv[x][b] for x in R3), Z) for b in R3] for a in R3]
        dj3 = [[s2[a][b] - (2 * j2 / 3 if a == b else Z) for b in R3] for a in R3]
        w4 = j2 ** 3 - Cc * j3 ** 2
        w5 = alg.sqrt(w4) - D * j3
        ctx.same('flow-is-normal-to-yield-surface', w, N, [
            [A * ((B if a == b else Z) + w5 ** (C(-2) / 3) / 3 *
                  ((3 * j2 ** 2 * sv[a][b] - 2 * Cc * j3 * dj3[a][b]) / (2 * alg.sqrt(w4)) - D * dj3[a][b])) for b in R3]
            for a in R3])
    if num:                    # N : C : direction = d(effective stress)/dt
        ds = [[alg.diff(sig[a][b], ti) for b in R3] for a in R3]
        ctx.same('flow-is-normal-to-yield-surface', w, sum((N[a][b] * ds[a][b] for a in R3 for b in R3), Z),
                 alg.diff(eff, ti))
    ctx.same('flow-symmetric', w, [N[0][1], N[0][2], N[1][2]], [N[1][0], N[2][0], N[2][1]])
    nn = alg.sqrt(sum((N[a][b] ** 2 for a in R3 for b in R3), Z))
    ctx.same('hardening-residual', w, r2, acc - acc0 - dl * (ONE if assoc else alg.sqrt(C(2) / 3) * nn))
    res = [r1[a][b] * q for (a, b), q in zip(IX, KF)] + [r2, r3]
    nm = [f'r1[{c}]' for c in O3] + ['r2', 'r3']
    for col, at, fac in ((k, t, KF[k]),) if num else ((6, acc, ONE), (7, dl, ONE)):
        ai = alg.atom_of(at)
        for row in range(8):
            ctx.same('jacobian-is-derivative-of-residual', f'{w} [{nm[row]}, {(list(O3) + ["acc", "dl"])[col]}]',
                     J[row][col], alg.diff(res[row], ai) / fac)


# --------------------------------------------------------------------- update
def gates(v, F):
    """First undecided condition in the gates of a value."""
    while isinstance(v, IteV):
        c = F.cond(v.c)
        if not isinstance(c, bool):
            return c
        v = v.a if c else v.b
    if isinstance(v, Tensor):
        for x in v.vals():
            if isinstance(x, alg.Cond):
                c = F.cond(x)
                if not isinstance(c, bool):
                    return c
    return None


def split(vals, base, limit=14):
    out = []

    def go(facts):
        F = Facts(facts)
        F.nonneg = []
        for v in vals:
            c = gates(v, F)
            if c is not None:
                l = first_lit(c)
                if len(facts) > len(base) + limit:
                    raise Undecided('too many literals')
                for x in (True, False):
                    go(facts + [(l, x)])
                return
        out.append(F)
    go(list(base))
    return out


def update(ctx, name, d, old_kind):
    mod, meth = MODELS[name]
    w = f'{P}{mod}:{name}.state_update {d}D {old_kind}'
    I = ctx.interp()
    vm = name.endswith('VMAP')
    par = params(False, 'steps')
    E = S('E', True)
    nu = C(3) / 10
    m = ctx.run('construction', w, lambda: make(I, name, {2: 1, 3: 4}[d], par, True))
    if m is None:
        return
    rec, solves = [], []
    fdef = I.getattr(m, meth)
    fdef = getattr(fdef, 'func', fdef)
    pn = [a.arg for a in fdef.node.args.args]

    def stub(I, a, k):
        b = dict(zip(pn, a))
        b.update(k)
        e, acc, dl = b['e_strain'], b['acc_p_strain'], b['inc_p_mult']
        ev = ex(e)
        arg = tuple(ev[i][j] for i, j in IX) + (tlib.E(acc.item()), tlib.E(dl.item()))
        f = lambda n: alg.fn(n, arg)
        rec.append((arg, b, ev))
        r1 = tlib.new([f(f'R{min(i, j)}{max(i, j)}') for i in R3 for j in R3], (3, 3), 'float64', 'torch')
        J = tlib.new([f(f'J{i}.{j}') for i in range(8) for j in range(8)], (8, 8), 'float64', 'torch')
        return r1, scal(f('R2')), scal(f('R3')), J

    def solve(I, a, k):
        A, b = ex(a[0]), ex(a[1])
        x = [alg.fn(f'X{i}', tuple(b)) for i in range(8)]
        solves.append((A, b, x))
        return tlib.new(x, (8,), 'float64', 'torch')
    I.stubs[f'{name}.{meth}'] = stub
    I.stubs['lib:torch.linalg.solve'] = solve
    old = PyDict([(k, x) for k, x in I.call(I.getattr(m, 'state_init'), [], {}).d.values()])
    o = SYM[d]
    acc0 = S('acc')
    old.set('acc_p_strain', scal(acc0))
    e_old, p_old = {c: Z for c in O3}, {c: Z for c in O3}
    if old_kind == 'loaded':
        for i, c in enumerate(o):
            e_old[c], p_old[c] = C(3 * i + 2) / C(7 + i), S(f'p{c}')
        e_old['33'] = C(5) / 11
        old.set('e_strain_mf', tlib.new([e_old[c] for c in o], (len(o),), 'float32', 'torch'))
        old.set('strain_mf', tlib.new([e_old[c] + p_old[c] for c in o], (len(o),), 'float32', 'torch'))
        if d == 2:
            old.set('e_strain_33', scal(e_old['33']))
    t = S('t')
    iv = [[BASE[i][j] / 7 + (t if i == j == 0 else Z) for j in range(d)] for i in range(d)]
    inc_t = const_t(iv)
    if vm:
        I.batched = tlib.atoms_of(inc_t.vals() + [acc0])
    r = ctx.run('state-update', w, lambda: I.iterate(I.call(I.getattr(m, 'state_update'), [inc_t, old], {})))
    I.batched = None
    if r is None:
        return
    st = r[0]
    ctx.ob('residuals-evaluated-by-state-update', w, bool(rec) and bool(solves), f'{len(rec)} {len(solves)}')
    if not rec or not solves:
        return
    inc = [iv[i][j] * f if i < d and j < d else Z for (i, j), f in zip(IX, KF)]
    eo, po = [e_old[c] for c in O3], [p_old[c] for c in O3]
    etr = [a + b for a, b in zip(eo, inc)]
    D = iso(E, nu)
    K = E / (3 * (1 - 2 * nu))
    mv = lambda x: [sum((a * b for a, b in zip(row, x)), Z) for row in D]
    stv = mv(etr)
    unk = lambda x: dict(zip(O3, (v / f for v, f in zip(x, KF))))
    full = lambda x: [[unk(x)['{}{}'.format(min(i, j) + 1, max(i, j) + 1)] for j in R3] for i in R3]
    ptr = (stv[0] + stv[1] + stv[2]) / 3
    a, b, c, dd = (value(n, acc0, 'steps') for n in 'ABCD')
    Y0 = alg.fn('Y', (acc0,), pos=True)
    eff = effective(full(stv), a, b, c, dd)
    # what the return mapping is asked to solve
    ref = dict(e_trial_strain=full(etr), acc_p_strain_old=acc0, init_yield_stress=alg.fn('Y', (Z,), pos=True),
               is_associative_hardening=False, is_fixed_yield_parameters=True)
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    q = lambda i, j: ONE if i == j else Z
    ref['e_consistent_tangent'] = [[[[lam * q(i, j) * q(x, y) + mu * (q(i, x) * q(j, y) + q(i, y) * q(j, x)) for y in R3]
                                     for x in R3] for j in R3] for i in R3]
    arg, bnd, _ = rec[-1]
    for n, v in ref.items():
        if n in bnd:
            if isinstance(v, bool):
                x = bnd[n].item() if isinstance(bnd[n], Tensor) else bnd[n]
                ctx.ob('return-mapping-inputs', f'{w} {n}', x is v, x)
            else:
                ctx.same('return-mapping-inputs', f'{w} {n}', bnd[n], v)
    for n in ('', 'a_', 'b_', 'c_', 'd_'):
        k = n + 'hardening_law'
        if k in bnd:
            ctx.ob('return-mapping-inputs', f'{w} {k}', bnd[k] is par.get(k), '')
    newton(ctx, w, I, rec, solves)
    vals = [st.get(k) for k in ('is_plast', 'is_su_fail', 'e_strain_mf', 'stress_mf', 'acc_p_strain')]
    seen = {}
    for F in split(vals, [(x, y) for x, y in I.facts]):
        if impossible(F, I):
            continue
        plast, fail = F.val(vals[0]), F.val(vals[1])
        e = val33(F, st, 'e_strain', d)
        sg = val33(F, st, 'stress', d)
        acc = F.val(st.get('acc_p_strain'))
        tag = 'failed' if fail else 'elastic' if not plast else None
        if tag is None:
            ap = apex_side(F, ptr, Y0, a, b)
            if ap is None:
                ctx.ob('regime', w, None, 'apex literal not recognised')
                continue
            tag = 'apex' if ap[0] else 'cone'
            ctx.ob('apex-regime-decided-by-trial-pressure', w, 0.9 <= ap[1] <= 1.0, ap[1])
        seen[tag] = seen.get(tag, 0) + 1
        ww = f'{w} {tag}'
        strain = F.val(st.get('strain_mf'))
        ix = [O3.index(x) for x in o]
        ctx.same('total-strain-advances-by-increment', ww, strain, [eo[i] + po[i] + inc[i] for i in ix])
        if tag == 'failed':
            ctx.ob('failure-poisons-state', ww, all(any(x.nan for x in v) for v in (e, sg, [acc])), '')
            continue
        side = yield_side(F, eff, Y0)
        if side is None:
            roots = {i for i in eff.atoms() if alg.ATOMS[i].name == 'pow'}
            blind = not any(roots & y.all_atoms() for c, _ in F.facts for y in c.args if isinstance(y, alg.Expr))
            ctx.ob('regime-decided-by-yield-function', ww, False if blind and tag == 'elastic' else None,
                   'no literal on the path mentions the trial effective stress' if blind else 'literal not recognised')
        else:
            ctx.ob('regime-decided-by-yield-function', ww, side[0] is (tag == 'elastic') and 0 <= side[1] <= TOL, side)
        if tag == 'elastic':
            ctx.same('elastic-strain-is-trial', ww, e, etr)
            ctx.same('stress-is-elastic-law', ww, sg, stv)
            ctx.same('hardening-variable-unchanged', ww, acc, acc0)
        elif tag == 'cone':
            ctx.same('stress-is-elastic-law', ww, sg, mv(e))
            admitted(ctx, ww, F, e, acc, d)
        else:
            apex(ctx, ww, I, F, e, sg, acc, acc0, ptr, K, a, b, D)
    ctx.ob('all-regimes-reachable', w, {'elastic', 'failed', 'cone', 'apex'} <= set(seen), seen)


def impossible(F, I):
    for l in I.loops:
        if l.test is True and l.outcome.brk is not True and l.outcome.ret is False:
            if all(F.cond(c) is v for c, v in l.facts) and F.cond(l.outcome.brk) is False:
                return True
    return False


def val33(F, st, key, d):
    v = F.val(st.get(key + '_mf'))
    if d == 3:
        return v
    m = dict(zip(SYM[2], v))
    m['33'] = F.val(st.get(key + '_33'))
    return [m.get(c, Z) for c in O3]


def root_in(e, i):
    """(root, decreasing) of an expression linear in atom i (or its inverse)."""
    x = alg._atom_expr(alg.ATOMS[i])
    for pw in (0, 1):
        num = e * x ** pw
        k = alg.diff(num, i)
        if not k.is_zero() and i not in k.all_atoms():
            rest = num - k * x
            if i not in rest.all_atoms():
                return -rest / k, k
    return None


def yield_side(F, eff, Y0):
    """(elastic side, relative tolerance) of the literal on the trial yield function."""
    yi = alg.atom_of(Y0)
    roots = {i for i in eff.atoms() if alg.ATOMS[i].name == 'pow'}
    for c, v in F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        e = c.args[0]
        if yi not in e.atoms() or not any(alg.ATOMS[i].name == 'pow' for i in e.atoms()):
            continue
        r = root_in(e, yi)
        if r is None:
            continue
        rho = r[0] / eff            # e = 0 at Y = rho*eff
        if not rho.is_const():
            continue
        # sign of e well below / above the surface
        s = alg.subst(e, {yi: S('ybig', True)})
        e1 = alg.subst(s, {alg.atom_of(S('ybig', True)): eff * 2})
        k = e1 / (-eff / (eff * 2))
        neg_inside = sign_const(e1, eff)
        if neg_inside is None:
            continue
        return (v if neg_inside else not v), 1 / float(rho.const()) - 1
    return None


def sign_const(e, eff):
    for k in (ONE, ONE / eff):
        x = e * k
        if x.is_const():
            return x.const() < 0
    x = e.fval() if not e.nan else None
    return None if x is None else x < 0


def apex_side(F, ptr, Y0, a, b):
    """(apex side, ratio) of the literal comparing the trial pressure with the apex pressure."""
    yi = alg.atom_of(Y0)
    for c, v in F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        e = c.args[0]
        if yi not in e.atoms() or any(alg.ATOMS[i].name == 'pow' for i in e.atoms()):
            continue
        r = root_in(e, yi)
        if r is None:
            continue
        rho = 3 * a * b * ptr / r[0]     # e = 0 at 3 a b ptr = rho*Y
        if not rho.is_const():
            continue
        big = alg.subst(e, {yi: 3 * a * b * ptr * 2})
        s = big / ptr
        if not s.is_const():
            continue
        # pressure positive near the apex: s<0 means the literal holds below it
        return (not v if s.const() < 0 else v), float(rho.const())
    return None


def arms(e):
    """Alternatives of an expression over its gates."""
    for i in e.atoms():
        x = alg.ATOMS[i]
        if x.kind == 'ite':
            return [z for y in x.args[1:] for z in arms(alg.subst(e, {i: y}))]
    return [e]


def admitted(ctx, ww, F, e, acc, d):
    """The returned state is the one whose residuals the admitting literal bounds."""
    want = [x / f for x, f in zip(e, KF)] + [acc]
    if d == 2:                 # out-of-plane shear is not part of the state
        want = [None if c in ('13', '23') else x for c, x in zip(O3 + ('acc',), want)]
    memo = {}

    def at(args):
        key = tuple(map(id, args))
        if key not in memo:
            memo[key] = args, all(z is None or alg.equal(F.expr(y), z) for y, z in zip(args, want))
        return memo[key][1]
    total, hit, odd = set(), None, False
    for c, v in F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        per = []
        for ea in arms(c.args[0] if v else -c.args[0]):
            names = set()
            for i in ea.atoms():
                x = alg.ATOMS[i]
                inner = [j for j in alg._atom_expr(x).all_atoms() | {i} if is_res(alg.ATOMS[j])]
                here = {alg.ATOMS[j].name for j in inner if at(alg.ATOMS[j].args)}
                if not here:
                    continue
                k = alg.diff(ea, i)
                if x.name == 'min' and not k.is_zero() and k.fval() > 0:
                    # the smallest is bounded: only what occurs in every one of them is
                    names |= set.intersection(*({alg.ATOMS[j].name for j in y.all_atoms() if is_res(alg.ATOMS[j]) and at(alg.ATOMS[j].args)} for y in x.args))
                    continue
                if x.name not in ('abs', 'sqrt', 'max', 'pow') or k.is_zero() or not k.fval() > 0:
                    odd = True
                    continue
                names |= here
                if x.name == 'abs' and here == {'R3'} and k.is_const():
                    rest = alg.subst(ea, {z: Z for z in ea.atoms() if alg.ATOMS[z].name in ('abs', 'sqrt')})
                    if rest.is_const():
                        hit = max(hit or 0, float((-rest / k).const()))
            per.append(names)
        total |= set.intersection(*per)
    missing = {'R2', 'R3', 'R00', 'R11', 'R22', 'R01', 'R12', 'R02'} - total
    if missing:
        ctx.ob('returned-state-satisfies-residuals', ww, None if odd else False,
               f'no literal on the path to this leaf bounds the residuals {sorted(missing)} at the returned state')
    else:
        ctx.ob('returned-state-satisfies-residuals', ww, hit is None or 0 < hit <= TOL, f'bound {hit}')


def is_res(a):
    return a.kind != 'sym' and len(a.args) == 8 and a.name[:1] == 'R' and a.name[1:].isdigit()


def newton(ctx, w, I, rec, solves):
    """Every linear system is the Newton system of the iterate and the next
    iterate is the iterate plus its solution (or the iterate, once converged)."""
    by = {}
    bad = None
    for A, b, x in solves:
        ja = alg.atom_of(A[0][0])
        args = alg.ATOMS[ja].args if ja is not None else None
        hit = next((r for r in rec if args is not None and len(args) == 8 and
                    all(alg.equal(p, q) for p, q in zip(args, r[0]))), None)
        if hit is None:
            bad = 'matrix of the linear system is not the Jacobian of an iterate'
            continue
        arg = hit[0]
        f = lambda n: alg.fn(n, arg)
        if not all(alg.equal(A[i][j], f(f'J{i}.{j}')) for i in range(8) for j in range(8)):
            bad = 'matrix of the linear system is not the Jacobian'
        rr = [f(f'R{i}{j}') * q for (i, j), q in zip(IX, KF)] + [f('R2'), f('R3')]
        if not all(alg.equal(p, -q) for p, q in zip(b, rr)):
            bad = 'right-hand side is not minus the residual vector'
        by[id(hit)] = x
    ctx.ob('newton-system', w, bad is None, bad or f'{len(solves)} systems')
    step = lambda x: [x[i] / KF[i] for i in range(6)] + [x[6], x[7]]
    if len(rec) > 1 and not any(alg.ATOMS[i].name.startswith('phi') for i in set().union(*(y.all_atoms() for y in rec[-1][0]))):
        # unrolled iterations
        bad, n = None, 0
        for r, nx in zip(rec, rec[1:]):
            if id(r) not in by:
                continue
            n += 1
            bad = bad or step_of([q - p for p, q in zip(r[0], nx[0])], step(by[id(r)]))
        ctx.ob('newton-update', w, bad is None and n > 0, bad or f'{n} iterations')
        return
    # summarised loop
    for l in I.loops:
        sl = {}
        for q in l.slots:
            v = q['phi']
            while isinstance(v, IteV):
                v = v.b
            if isinstance(v, Tensor):
                ids = [alg.atom_of(y) for y in v.vals() if isinstance(y, alg.Expr)]
                for n, i in enumerate(ids):
                    if i is not None:
                        sl[i] = (q, n)
        pos = [alg.atom_of(y) for y in rec[-1][0]]
        if not all(p in sl for p in pos):
            continue
        last = rec[-1]
        x = by.get(id(last)) or next((by[id(r)] for r in rec if id(r) in by and
                                      all(alg.equal(p, q) for p, q in zip(r[0], last[0]))), None)
        if x is None:
            break
        n = 0
        for G in split([sl[p][0]['next'] for p in pos], l.facts):
            if G.cond(l.outcome.brk) is True:
                continue
            try:
                nxt = []
                for p in pos:
                    v = G.val(sl[p][0]['next'])
                    nxt.append(v[sl[p][1]] if isinstance(v, list) else v)
            except Undecided:
                continue
            bad = bad or step_of([q - alg._atom_expr(alg.ATOMS[p]) for p, q in zip(pos, nxt)], step(x))
            n += 1
        ctx.ob('newton-update', w, bad is None and n > 0, bad or f'{n} leaves')
        return
    ctx.ob('newton-update', w, None, 'iteration not recognised')


def step_of(delta, x):
    """delta is x, gated with zero at most."""
    full = False
    for p, q in zip(delta, x):
        for y in arms(p):
            if alg.equal(y, q):
                full = True
            elif not y.is_zero():
                return f'step {str(y)[:120]} is not {str(q)[:80]}'
    return None if full else 'iterate never moves'


def apex(ctx, ww, I, F, e, sg, acc, acc0, ptr, K, a, b, D):
    p = sg[0]
    ctx.same('apex-stress-is-hydrostatic', ww, sg, [p, p, p, Z, Z, Z])
    ctx.same('stress-is-elastic-law', ww, sg, [sum((x * y for x, y in zip(row, e)), Z) for row in D])
    dv = (ptr - p) / K                       # volumetric plastic strain
    if dv.is_zero() or alg.equal(acc, acc0):
        return ctx.ob('apex-hardening', ww, False, 'no plastic flow at the apex')
    A, B = (value(n, Z, 'steps') for n in 'AB')
    ety = 3 * A * B
    al = 2 / alg.sqrt(C(3)) * alg.sqrt(1 - ety ** 2 / 3) / ety
    ctx.same('apex-hardening-follows-volumetric-flow', ww, acc, acc0 + al * dv)
    apex_step(ctx, ww, I, F, acc, acc0, ptr, K, al)
    a, b = (value(n, acc, 'steps') for n in 'AB')
    # admission: |Y(acc)/(3ab) - p| <= tol*Y
    Yn = alg.fn('Y', (acc,), pos=True)
    R = lambda p_: Yn / (3 * a * b) - p_
    hit = None
    for c, v in F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        for ea in arms(c.args[0] if v else -c.args[0]):
            for i in ea.atoms():
                x = alg.ATOMS[i]
                if x.name != 'abs':
                    continue
                k = alg.diff(ea, i)
                if k.is_zero() or i in k.all_atoms() or not k.fval() > 0:
                    continue
                inner = F.expr(x.args[0])
                ratio = multiple(inner, R(p))
                if ratio is not None:
                    bnd = -alg.subst(ea, {i: Z}) / k / alg.abs_(ratio) / Yn
                    hit = max(hit or 0, abs(bnd.fval()))
    ctx.ob('apex-state-satisfies-yield-condition', ww, hit is not None and hit <= TOL, hit)


def apex_step(ctx, ww, I, F, acc, acc0, ptr, K, al):
    """One iteration of the volumetric plastic strain is Newton's step."""
    def newt(x):
        q = (acc0 + al * x,)
        a, b = (value(n, q[0], 'steps') for n in 'AB')
        return -(alg.fn('Y', q, pos=True) / (3 * a * b) - (ptr - K * x)) / (al * alg.fn('Yp', q) / (3 * a * b) + K)
    gated = [i for i in acc.atoms() if alg.ATOMS[i].kind == 'ite']
    if gated:                  # unrolled: the first step starts from zero
        n = 0
        x1 = (alg.subst(acc, {i: Z for i in gated}) - acc0) / al
        if not x1.is_zero():
            ctx.same('apex-newton-step', ww, x1, newt(Z))
        for i in gated:
            for y in alg.ATOMS[i].args[1:]:
                y = F.expr(y)
                if not y.is_zero() and not any(alg.ATOMS[j].kind == 'ite' for j in y.all_atoms()):
                    ctx.same('apex-newton-step', ww, y, newt(x1))
                    n += 1
        if not n:
            ctx.ob('apex-newton-step', ww, None, 'first iteration not recognised')
        return
    for l in I.loops:
        for q in l.slots:
            if not isinstance(q['phi'], Tensor) or q['phi'].size != 1 or not isinstance(q['phi'].vals()[0], alg.Expr):
                continue
            ph = q['phi'].vals()[0]
            if alg.atom_of(ph) is None or not alg.equal(acc, acc0 + al * ph):
                continue
            for G in split([q['next']], l.facts):
                if G.cond(l.outcome.brk) is False:
                    v = G.val(q['next'])
                    ctx.same('apex-newton-step', ww, v[0] if isinstance(v, list) else v, ph + newt(ph))
            return
    ctx.ob('apex-newton-step', ww, None, 'iteration not recognised')


def multiple(x, y):
    """Rational k with x = k*y."""
    r = x / y
    if r.is_const():
        return r
    f = x.fval() / y.fval() if y.fval() else 0
    if not math.isfinite(f) or not f:
        return None
    k = C(Fraction(f).limit_denominator(10 ** 6))
    return k if alg.equal(x, k * y) else None


# ------------------------------------------------------------------ convexity
def convexity(ctx):
    w = f'{P}standard.lou:LouZhangYoon.convexity_return_mapping'
    for c0, d0, rs, conv in ((1, 2, C(3) / 2, False), (-2, 1, C(5) / 7, False), (1, -3, C(2), False), (2, 1, C(1), True)):
        I = ctx.interp()
        cls = I.get(P + 'standard.lou', 'LouZhangYoon')
        th = []

        def stub(I, a, k, conv=conv, rs=rs):
            v = [x for x in list(a) + list(k.values()) if isinstance(x, Tensor)]
            yc, yd = (tlib.E(x.item()) for x in v[:2])
            if yc.is_const() and yd.is_const():
                return tlib.new([conv], (), 'bool', 'torch')
            r2 = None
            for x, f in ((yc, 'cos'), (yd, 'sin')):
                i = next((i for i in x.atoms() if alg.ATOMS[i].name == f), None)
                if i is None:
                    raise Undecided('direction not recognised')
                th.append((f, alg.ATOMS[i].args[0]))
                r2 = x / alg._atom_expr(alg.ATOMS[i])
            if not r2.is_const():
                raise Undecided('radius not recognised')
            return tlib.new([r2.const() <= rs.const()], (), 'bool', 'torch')
        I.stubs['LouZhangYoon.check_yield_surface_convexity'] = stub
        I.unroll = 100
        ww = f'{w} ({c0}, {d0})'
        r = ctx.run('convexity', ww, lambda: I.iterate(I.call(I.getattr(cls, 'convexity_return_mapping'),
                                                              [scal(C(c0)), scal(C(d0))], {})))
        if r is None:
            continue
        ok = r[0].item() if isinstance(r[0], Tensor) else r[0]
        ctx.ob('convexity-flag-reported', ww, ok is conv, ok)
        c, d = tlib.E(r[1].item()), tlib.E(r[2].item())
        if conv:
            ctx.same('convex-parameters-unchanged', ww, [c, d], [C(c0), C(d0)])
            continue
        ci = next((i for i in c.atoms() if alg.ATOMS[i].name == 'cos'), None)
        si = next((i for i in d.atoms() if alg.ATOMS[i].name == 'sin'), None)
        if ci is None or si is None:
            ctx.ob('return-is-radial', ww, None, f'{c} {d}')
            continue
        rc, rd = c / alg._atom_expr(alg.ATOMS[ci]), d / alg._atom_expr(alg.ATOMS[si])
        ang = alg.ATOMS[ci].args[0]
        ctx.ob('return-is-radial', ww, rc.is_const() and alg.equal(rc, rd) and alg.equal(ang, alg.ATOMS[si].args[0]), f'{rc} {rd}')
        ctx.ob('return-direction-is-that-of-the-parameters', ww, direction(ang, d0, c0), f'{ang}')
        ctx.ob('return-reaches-convex-boundary', ww, rc.is_const() and abs(float(rc.const()) - float(rs.const())) <= 1e-4, f'{rc}')


def direction(ang, d0, c0):
    i = alg.atom_of(ang)
    if i is not None and alg.ATOMS[i].name == 'atan2':
        y, x = alg.ATOMS[i].args
        return bool(y.is_const() and x.is_const() and y.const() * c0 == x.const() * d0 and x.const() * c0 >= 0 and y.const() * d0 >= 0)
    return abs(ang.fval() - math.atan2(d0, c0)) < 1e-9


def convex_condition(ctx):
    """The convexity test inspects chords of the yield section."""
    w = f'{P}standard.lou:LouZhangYoon.check_yield_surface_convexity'
    I = ctx.interp()
    ang = [S('th1'), S('th2')]
    span = []

    def linspace(I, a, k):
        span.append((a, k))
        return tlib.new(list(ang), (2,), 'float32', 'torch')
    I.stubs['lib:torch.linspace'] = linspace
    cls = I.get(P + 'standard.lou', 'LouZhangYoon')
    c, d = S('c'), S('d')
    r = ctx.run('convexity', w, lambda: I.call(I.getattr(cls, 'check_yield_surface_convexity'), [scal(c), scal(d)], {}))
    if r is None:
        return
    v = r.item() if isinstance(r, Tensor) else r
    ctx.ob('convexity-span', w, bool(span), '')
    if span:
        a = [to_expr(x) for x in span[0][0][:2]]
        ctx.ob('convexity-full-turn', w, alg.equal(a[1] - a[0], C(360)), str(a))
    lits = []

    def walk(x):
        if x.op == 'and':
            for y in x.args:
                walk(y)
        else:
            lits.append(x)
    if isinstance(v, alg.Cond):
        walk(v)
    ctx.ob('one-chord-per-angle', w, len(lits) == len(ang), f'{len(lits)}')
    if len(lits) != len(ang):
        return
    ti = [alg.atom_of(x) for x in ang]
    for l in lits:
        th = next((x for x, i in zip(ang, ti) if i in l.args[0].all_atoms()), None) if l.op in ('le', 'lt') else None
        if th is None:
            ctx.ob('chord-inside-section', w, None, 'literal not recognised')
            continue
        bad, n = None, 0
        for seed in range(40):
            memo = {}
            got, _ = alg.feval_at(l.args[0], seed, memo)
            t, cv, dv = (alg.feval_at(x, seed, memo)[0] for x in (th, c, d))
            r = chord(math.radians(t), cv, dv)
            if r is None or not math.isfinite(got):
                continue
            n += 1
            if not abs(got - (r - 1)) <= 1e-9:
                bad = f'at angle {t:.3g}, c={cv:.3g}, d={dv:.3g}: {got:.6g} instead of {r - 1:.6g}'
        ctx.ob('chord-inside-section', w, None if not n else bad is None, bad or f'{n} points')


def chord(th, c, d):
    """Yield function of the middle of a short chord of the unit yield section."""
    pt = lambda t: [2 / 3 * math.cos(2 * math.pi * k / 3 - t) for k in range(3)]

    def f(s):
        j2, j3 = sum(x * x for x in s) / 2, s[0] * s[1] * s[2]
        w4 = j2 ** 3 - c * j3 ** 2
        w5 = math.sqrt(w4) - d * j3 if w4 > 0 else -1
        return w5 ** (1 / 3) if w5 > 0 else None
    a, b = pt(th), pt(th + math.radians(1e-3))
    fa, fb = f(a), f(b)
    if fa is None or fb is None:
        return None
    return f([(x / fa + y / fb) / 2 for x, y in zip(a, b)])
