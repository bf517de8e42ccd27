"""P09 - plastic return mapping.  The state update of every isotropic plasticity
model (loop based and vectorised) is evaluated abstractly, in 3D and 2D plane
strain, on an unrestricted strain increment with uninterpreted hardening laws.
The gated result is split on the literals of its own flags (elastic, plastic,
apex, failed); in every leaf the returned state is compared with the flow rule,
the elastic law, the strain decomposition and the hardening update, the literal
that admits the leaf with the yield function of the returned state, the Newton
step with the derivative of the residual, and the tangent with the implicit
derivative of the returned stress."""
from .. import alg
from ..common import *
from .p03 import SYM
from .p07 import iso

FLOOR = 60
LIMIT = 400
P = 'simulators.fetorch.material.models.'
MODELS = {
    'VonMises': ('standard.von_mises', 'vm'), 'VonMisesVMAP': ('vmap.von_mises', 'vm'),
    'VonMisesMixed': ('standard.von_mises_mixed', 'mixed'), 'VonMisesMixedVMAP': ('vmap.von_mises_mixed', 'mixed'),
    'DruckerPrager': ('standard.drucker_prager', 'dp'), 'DruckerPragerVMAP': ('vmap.drucker_prager', 'dp'),
}
O3 = SYM[3]
Z, ONE = alg.ZERO, alg.ONE
R2 = alg.sqrt(alg.const(2))
C = alg.const
NORMAL = [c[0] == c[1] for c in O3]
TOL = 1e-5


def groups(tier):
    g = []
    for name in MODELS:
        for d in (3, 2):
            for v in ((3, 10),) + (((1, 5), (0, 1)) if tier == 'thorough' else ()):
                for old in ('virgin', 'loaded'):
                    g.append((f'{name} {d}D v={v[0]}/{v[1]} {old}', lambda ctx, a=(name, d, v, old): model(ctx, *a)))
    return g


# ------------------------------------------------------------------ resolver
NONNEG = []     # squared norm of the trial relative deviatoric stress


def generic(c):
    """Literals about a norm being positive hold at generic points."""
    if c.op in ('lt', 'le') and not c.args[0].nan:
        e = c.args[0]
        for s, val in ((-e, True), (e, False)):
            if len(s.num) == 1:
                (m, k), = s.num.items()
                if k > 0 and all(alg.ATOMS[a].pos or alg.ATOMS[a].kind == 'sqrt' or alg.ATOMS[a].name == 'abs' or p % 2 == 0
                                 for a, p in m) and all(alg.poly_positive(alg._polys[q]) or n % 2 == 0 for q, n in s.den):
                    return val
    return c


class Facts:
    def __init__(self, facts=()):
        self.facts = list(facts)
        self.memo = {}
        self.nonneg = NONNEG

    def cond(self, c):
        if isinstance(c, bool):
            return c
        r = c.assume(self.facts)
        if isinstance(r, bool):
            return r
        r = lit_map(r, lambda l: self.lit(l))
        return r

    def lit(self, l):
        for c, v in self.facts:
            if l == c:
                return v
            n = alg.not_(c)
            if not isinstance(n, bool) and l == n:
                return not v
        g = generic(l)
        if isinstance(g, bool):
            return g
        if l.op in ('lt', 'le', 'eq') and not l.args[0].nan:
            e = self.expr(l.args[0])
            if e is not l.args[0]:
                n = alg.cmp_(l.op, e, Z)
                return n if isinstance(n, bool) else n.assume(self.facts)
        return l

    def expr(self, e):
        if e.nan:
            return e
        mp = {}
        for i in e.atoms():
            r = self.atom(i)
            if r is not None:
                mp[i] = r
        return alg.subst(e, mp) if mp else e

    def atom(self, i):
        """Replacement of atom i under the facts (None: unchanged)."""
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = None
        a = alg.ATOMS[i]
        r = None
        if a.kind == 'ite':
            c = self.cond(a.args[0])
            if isinstance(c, bool):
                r = self.expr(a.args[1 if c else 2])
        elif a.kind != 'sym' and a.args:
            na = tuple(self.expr(x) if isinstance(x, alg.Expr) else x for x in a.args)
            if a.name in ('relu', 'max') and len(na) == 1 and self.nonneg:
                k = na[0] / self.nonneg[0]
                if k.is_const() and k.const() > 0 or alg.is_positive(k):
                    self.memo[i] = na[0]
                    return na[0]
            if any(x is not y for x, y in zip(na, a.args)):
                r = alg.rebuild(a, na)
        self.memo[i] = r
        return r

    def val(self, v):
        """Nested lists of Expr / bool / Cond of a gated tensor value."""
        while isinstance(v, IteV):
            c = self.cond(v.c)
            if c is True:
                v = v.a
            elif c is False:
                v = v.b
            else:
                raise Undecided(f'gate not decided by the flags: {str(c)[:300]}')
        if isinstance(v, Tensor):
            out = [self.cond(x) if isinstance(x, (bool, alg.Cond)) else self.expr(x) for x in v.vals()]
            return out if v.shape != () else out[0]
        if isinstance(v, (bool, alg.Cond)):
            return self.cond(v)
        return self.expr(to_expr(v))


def lit_map(c, f):
    if isinstance(c, bool):
        return c
    if c.op == 'and':
        return alg.and_(*[lit_map(x, f) for x in c.args])
    if c.op == 'or':
        return alg.or_(*[lit_map(x, f) for x in c.args])
    if c.op == 'not':
        return alg.not_(lit_map(c.args[0], f))
    return f(c)


def first_lit(c):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            if isinstance(x, alg.Cond):
                return first_lit(x)
    return c


def gate(v, F):
    """First undecided condition of a gated value."""
    while isinstance(v, IteV):
        c = F.cond(v.c)
        if not isinstance(c, bool):
            return c
        v = v.a if c else v.b
    if isinstance(v, Tensor):
        v = v.item()
    if isinstance(v, alg.Cond):
        c = F.cond(v)
        return None if isinstance(c, bool) else c
    return None


def leaves(flags, base):
    """Case split on the literals the flags are made of."""
    out = []

    def go(facts):
        F = Facts(facts)
        for f in flags:
            c = gate(f, F)
            if c is not None:
                l = first_lit(c)
                if len(facts) > len(base) + 12:
                    raise Undecided('too many literals in the flags')
                for v in (True, False):
                    go(facts + [(l, v)])
                return
        out.append(F)
    go(list(base))
    return out


# ---------------------------------------------------------------------- model
def law(n):
    def f(I, a, k):
        x = a[1] if len(a) > 1 else k['acc_p_strain']
        e = tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)
        return tuple(tlib.new([alg.fn(m, (e,), pos=True)], (), 'float64', 'torch') for m in n)
    return Native(f, n[0])


def model(ctx, name, d, v, old_kind):
    mod, kind = MODELS[name]
    w = f'{P}{mod}:{name}.state_update {d}D {old_kind}' + ('' if v == (3, 10) else f' v={v[0]}/{v[1]}')
    I = ctx.interp()
    I.small_symbol = Z
    alg.DERIV['Y'] = lambda a, k: alg.fn('H', a, pos=True)
    alg.DERIV['KY'] = lambda a, k: alg.fn('KH', a, pos=True)
    E, nu = S('E', True), C(v[0]) / C(v[1])
    xi, ety, etf = S('xi', True), S('ety', True), S('etf', True)
    par = PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(E)), ('v', Num(nu)), ('euler_angles', (0, 0, 0)),
                  ('hardening_law', law(('Y', 'H'))), ('hardening_parameters', PyDict([])),
                  ('kinematic_hardening_law', law(('KY', 'KH'))), ('kinematic_hardening_parameters', PyDict([])),
                  ('yield_cohesion_parameter', Num(xi)), ('yield_pressure_parameter', Num(ety)),
                  ('flow_pressure_parameter', Num(etf))])
    cls = I.get(P + mod, name)
    m = ctx.run('construction', w, lambda: I.call(cls, ['infinitesimal', {2: 1, 3: 4}[d], par], {}))
    if m is None:
        return
    init = I.call(I.getattr(m, 'state_init'), [], {})
    old = PyDict([(k, x) for k, x in init.d.values()])
    o = SYM[d]
    acc0 = S('acc')
    old.set('acc_p_strain', tlib.new([acc0], (), 'float32', 'torch'))
    zero = {c: Z for c in O3}
    e_old, p_old, b_old = dict(zero), dict(zero), dict(zero)
    if old_kind == 'loaded':
        for i, c in enumerate(o):
            e_old[c], p_old[c] = C(3 * i + 2) / C(7 + i), S(f'p{c}')
        e_old['33'] = C(5) / 11
        if kind == 'mixed':      # deviatoric back stress
            for i, c in enumerate(o):
                b_old[c] = E * C(2 * i + 1) / C(13)
            b_old['33'] = -b_old['11'] - b_old['22']
        old.set('e_strain_mf', tlib.new([e_old[c] for c in o], (len(o),), 'float32', 'torch'))
        old.set('strain_mf', tlib.new([e_old[c] + p_old[c] for c in o], (len(o),), 'float32', 'torch'))
        if d == 2:
            old.set('e_strain_33', tlib.new([e_old['33']], (), 'float32', 'torch'))
        if kind == 'mixed':
            old.set('back_stress_mf', tlib.new([b_old[c] for c in o], (len(o),), 'float32', 'torch'))
            if d == 2:
                old.set('back_stress_33', tlib.new([b_old['33']], (), 'float32', 'torch'))
    inc_t = mat('e', d, d, sym=True)
    iv = ex(inc_t)
    if name.endswith('VMAP'):      # evaluated as under torch.vmap over increments and states
        I.batched = tlib.atoms_of(inc_t.vals() + [acc0])
    r = ctx.run('state-update', w, lambda: I.call(I.getattr(m, 'state_update'), [inc_t, old], {}))
    I.batched = None
    if r is None:
        return
    st, tang = I.iterate(r)
    eps = {c: iv[int(c[0]) - 1][int(c[1]) - 1] if c in o else Z for c in O3}
    inc = [eps[c] * (ONE if c[0] == c[1] else R2) for c in O3]
    eo, po, bo = ([x[c] for c in O3] for x in (e_old, p_old, b_old))
    etr = [a + b for a, b in zip(eo, inc)]
    D = iso(E, nu)
    G = E / (2 * (1 + nu))
    K = E / (3 * (1 - 2 * nu))
    mv = lambda A, x: [sum((a * b for a, b in zip(row, x)), Z) for row in A]
    str_ = mv(D, etr)
    tr = lambda x: x[0] + x[1] + x[2]
    dev = lambda x: [a - (tr(x) / 3 if n else Z) for a, n in zip(x, NORMAL)]
    ptr = tr(str_) / 3
    s = [a - b for a, b in zip(dev(str_), bo)]
    nrm2 = sum((a * a for a in s), Z)
    NONNEG[:] = [nrm2]
    flags = [st.get('is_plast'), st.get('is_su_fail')]
    if kind == 'dp':
        flags.append(st.get('is_apex_return'))
    base = [(c, x) for c, x in I.facts]
    ls = leaves(flags, base)
    n_kind = {}
    for F in ls:
        fl = [F.val(x) for x in flags]
        if not consistent(F, I):
            continue
        tag = {(False, False): 'elastic', (True, False): 'plastic'}.get((fl[0], fl[1]), 'failed')
        if kind == 'dp' and tag == 'plastic':
            tag = 'apex' if fl[2] else 'cone'
        n_kind[tag] = n_kind.get(tag, 0) + 1
        L = Leaf(ctx, w, tag, F, st, tang, d, o)
        try:
            if tag == 'failed':
                failed(L)
                continue
            L.common(acc0, inc, eo, po, etr, D)
            if tag == 'elastic':
                elastic(L, acc0, etr, bo, D, kind)
            else:
                plastic(L, I, tag, kind, acc0, etr, bo, s, nrm2, ptr, D, G, K, xi, ety, etf, eps, old_kind, d)
            if tag in ('elastic', 'plastic', 'cone', 'apex'):
                admission(L, tag, kind, acc0, s, nrm2, ptr, xi, ety)
        except Undecided as ex_:
            ctx.ob('leaf-' + tag, w, None, ex_)
    want = {'elastic', 'failed'} | ({'cone', 'apex'} if kind == 'dp' else {'plastic'})
    ctx.ob('all-regimes-reachable', w, want <= set(n_kind), n_kind)


def consistent(F, I):
    for c, v in F.facts:
        r = generic(c)
        if isinstance(r, bool) and r is not v:
            return False
    for l in I.loops:       # an endless loop that was entered is left through a break
        if l.test is True and l.outcome.brk is not True and l.outcome.ret is False:
            if all(F.cond(c) is v for c, v in l.facts) and F.cond(l.outcome.brk) is False:
                return False
    return True


class Leaf:
    def __init__(self, ctx, w, tag, F, st, tang, d, o):
        self.ctx, self.w, self.tag, self.F, self.st, self.tang, self.d, self.o = ctx, w, tag, F, st, tang, d, o

    def full(self, key, key33):
        v = self.F.val(self.st.get(key))
        if self.d == 3:
            return v
        m = dict(zip(self.o, v))
        m['33'] = self.F.val(self.st.get(key33))
        return [m.get(c, Z) for c in O3]

    def common(self, acc0, inc, eo, po, etr, D):
        self.e = self.full('e_strain_mf', 'e_strain_33')
        self.sig = self.full('stress_mf', 'stress_33')
        self.acc = self.F.val(self.st.get('acc_p_strain'))
        self.strain = self.F.val(self.st.get('strain_mf'))
        n = len(self.o)
        idx = [O3.index(c) for c in self.o]
        self.same('total-strain-advances-by-increment', self.strain, [eo[i] + po[i] + inc[i] for i in idx])

    def same(self, rule, a, b, what=''):
        self.ctx.same(rule, f'{self.w} {self.tag}', a, b, what)

    def ob(self, rule, ok, d=''):
        self.ctx.ob(rule, f'{self.w} {self.tag}', ok, d)

    def tangent(self):
        v = self.F.val(self.tang)
        n = len(self.o)
        return [v[i * n:(i + 1) * n] for i in range(n)]


def failed(L):
    nan = True
    for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain'):
        v = L.F.val(L.st.get(k))
        # one entry suffices: products of the exact domain with a structural zero stay zero
        nan = nan and any(isinstance(x, alg.Expr) and x.nan for x in (v if isinstance(v, list) else [v]))
    L.ob('failure-poisons-state', nan)
    v = L.F.val(L.tang)
    L.ob('failure-poisons-tangent', any(x.nan for x in v))


def elastic(L, acc0, etr, bo, D, kind):
    L.same('elastic-strain-is-trial', L.e, etr)
    L.same('stress-is-elastic-law', L.sig, [sum((a * b for a, b in zip(row, etr)), Z) for row in D])
    L.same('hardening-variable-unchanged', L.acc, acc0)
    if kind == 'mixed':
        L.same('back-stress-unchanged', L.full('back_stress_mf', 'back_stress_33'), bo)
    ix = [O3.index(c) for c in L.o]
    L.same('elastic-tangent', L.tangent(), [[D[i][j] for j in ix] for i in ix])


def plastic(L, I, tag, kind, acc0, etr, bo, s, nrm2, ptr, D, G, K, xi, ety, etf, eps, old_kind, d):
    F = L.F
    dl = L.acc - acc0                   # increment of the hardening variable
    q = alg.sqrt(nrm2 * (C(3) / 2 if kind != 'dp' else C(1) / 2))      # q or sqrt(J2)
    dn = S('dlam')
    scale = {'cone': xi, 'apex': xi / etf}.get(tag, ONE)
    sub = solve_for(dl, dn * scale)
    rp = lambda e: alg.subst_deep(e, sub) if not e.nan else e
    L.sub, L.dn = sub, dn
    e, sig, acc = [rp(x) for x in L.e], [rp(x) for x in L.sig], rp(L.acc)
    L.sig_, L.acc_ = sig, acc
    if not alg.equal(acc - acc0, dn * scale):
        raise Undecided('multiplier not isolated')
    if kind != 'dp':
        flow = [C(3) / 2 * x / q for x in s]
        L.same('flow-rule', e, [a - dn * b for a, b in zip(etr, flow)])
    elif tag == 'cone':
        dv = 1 - G * dn / q
        dtr = [a - (tr3(etr) / 3 if n else Z) for a, n in zip(etr, NORMAL)]
        L.same('flow-rule', e, [dv * a + ((tr3(etr) - etf * dn) / 3 if n else Z) for a, n in zip(dtr, NORMAL)])
    else:
        L.same('flow-rule', e, [(tr3(etr) - dn) / 3 if n else Z for n in NORMAL])
    L.same('stress-is-elastic-law', sig, [sum((a * b for a, b in zip(row, e)), Z) for row in D])
    Yn, Hn = alg.fn('Y', (acc,), pos=True), alg.fn('H', (acc,), pos=True)
    if kind == 'vm':
        L.R = q - 3 * G * dn - Yn
    elif kind == 'mixed':
        dk = alg.fn('KY', (acc,), pos=True) - alg.fn('KY', (acc0,), pos=True)
        L.R = q - 3 * G * dn - dk - Yn
        beta = [rp(x) for x in L.full('back_stress_mf', 'back_stress_33')]
        L.same('back-stress-moves-with-kinematic-hardening', beta, [b + dk * x / q for b, x in zip(bo, s)])
    elif tag == 'cone':
        L.R = q - G * dn + ety * (ptr - K * etf * dn) - xi * Yn
    else:
        L.R = xi / ety * Yn - (ptr - K * dn)
    if kind == 'dp':
        selection(L, tag, q, G, dl, xi)
    # returned state on the yield surface <=> the residual that admitted it is small
    newton(L, I, F, rp, kind, tag)
    step(L, I, F, sub, scale, dl)
    if old_kind == 'virgin':
        tangent(L, sig, eps, dn)


def tr3(x):
    return x[0] + x[1] + x[2]


def solve_for(dl, target):
    """Substitution of one atom that makes dl equal target."""
    i = alg.atom_of(dl)
    if i is not None:
        return {i: target}
    for i in sorted(dl.atoms(), key=lambda i: alg.ATOMS[i].kind == 'sym'):
        a = alg.ATOMS[i]
        if a.kind not in ('ite', 'sym') or a.kind == 'sym' and not a.name.startswith('phi'):
            continue
        k = alg.diff(dl, i)
        if k.is_zero() or i in k.all_atoms():
            continue
        rest = alg.subst(dl, {i: Z})
        if i in rest.all_atoms():
            continue
        return {i: (target - rest) / k}
    raise Undecided('multiplier not isolated')


def newton(L, I, F, rp, kind, tag):
    """The literal admitting the leaf bounds the residual at the returned state."""
    tol = None
    Yn = alg.fn('Y', (L.acc_,), pos=True)
    for c, v in F.facts:
        if not (v and c.op in ('lt', 'le')) and not (not v and c.op in ('lt', 'le')):
            continue
        if c.args[0].nan:
            continue
        e = rp(F.expr(c.args[0]))
        if not v:
            e = -e
        # e < 0  with  e = k*|A|/Y - k*tol  (k > 0)
        for i in e.atoms():
            a = alg.ATOMS[i]
            if a.name != 'abs':
                continue
            k = alg.diff(e, i)
            rest = alg.subst(e, {i: Z})
            if i in k.all_atoms() or k.is_zero():
                continue
            t = rest / k / Yn           # -tol*Y/k... compare |A| < tol*Y
            t = -(rest / k)             # |A| < t
            ratio = a.args[0] / L.R
            if not (ratio.is_const() or (ratio / Yn).is_const() or (ratio * Yn).is_const() or free_of(ratio, L)):
                continue
            bound = t / alg.abs_(ratio) / Yn     # |R| < bound*Y
            if bound.is_const():
                tol = float(bound.const())
            else:
                b2 = bound * bound
                tol = abs(bound.fval()) if free_of(bound, L) else None
            if tol is not None:
                break
        if tol is not None:
            break
    if tol is None:
        L.ob('plastic-state-satisfies-yield-condition', False,
             'no literal on the path to this leaf bounds the yield residual of the returned state')
    else:
        L.ob('plastic-state-satisfies-yield-condition', 0 < abs(tol) <= TOL, f'tolerance {tol:g}')


def step(L, I, F, sub, scale, dl):
    """One iteration of the multiplier is Newton's step on the residual."""
    dni = alg.atom_of(L.dn)
    newt = lambda x: x - alg.subst_deep(L.R / alg.diff(L.R, dni), {dni: x / scale}) * scale
    (i, _), = sub.items()
    a = alg.ATOMS[i]
    if a.kind == 'ite':
        c, x, y = a.args
        j = alg.atom_of(x)
        if j is None:
            j = alg.atom_of(y)
            x, y = y, x
        if j is None:
            L.ob('newton-step', None, 'iteration not recognised')
            return
        t = S('xit')
        k = lin(dl, i, scale)
        if k is None:
            return L.ob('newton-step', None, 'iteration not recognised')
        y2 = alg.subst_deep(F.expr(y), {j: t})
        L.same('newton-step', k * y2, newt(k * t))
        return
    for l in I.loops:
        sl, k = multiplier(l, dl)
        if sl is None:
            continue
        i = phi_atom(sl['phi'])
        a = alg.ATOMS[i]
        ph, t = alg._atom_expr(a), S('xit')
        n = 0
        for G in leaves([l.outcome.brk], l.facts):
            if G.cond(l.outcome.brk) is not False:
                continue
            try:
                nxt = one(G.val(sl['next']))
                init = one(G.val(sl['init']))
            except (Undecided, TypeError):
                return L.ob('newton-step', None, 'iteration not recognised')
            # companions of the multiplier: slots that are a fixed function of it
            mp = {}
            for q in l.slots:
                p = phi_atom(q['phi'])
                if p is None or p == i:
                    continue
                try:
                    n2, i2 = one(G.val(q['next'])), one(G.val(q['init']))
                except (Undecided, TypeError, AttributeError):
                    continue
                comp = companion(n2, nxt, ph, t, l)
                if comp is not None and alg.equal(alg.subst_deep(comp, {alg.atom_of(t): init}), i2):
                    mp[p] = alg.subst_deep(comp, {alg.atom_of(t): ph})
            nxt = alg.subst_deep(nxt, mp)
            carried = {phi_atom(q['phi']) for q in l.slots} - {i, None}
            if carried & set(nxt.all_atoms()):
                return L.ob('newton-step', None, 'carried value not a function of the multiplier')
            L.same('newton-step', k * nxt, newt(k * ph))
            n += 1
        if n:
            return
    L.ob('newton-step', None, 'iteration not recognised')


def multiplier(l, dl):
    """Slot of the loop whose value (before or after the body) is the increment
    of the hardening variable up to a factor."""
    carried = {phi_atom(q['phi']) for q in l.slots} - {None}
    if not carried & set(dl.all_atoms()):
        return None, None
    for q in l.slots:
        p = phi_atom(q['phi'])
        if p is None:
            continue
        cands = [alg._atom_expr(alg.ATOMS[p])]
        for G in leaves([l.outcome.brk], l.facts):
            try:
                cands.append(one(G.val(q['next'])))
            except (Undecided, TypeError, AttributeError):
                pass
            break
        for c in cands:
            if c.is_zero() or c.nan or p not in c.all_atoms():
                continue
            k = dl / c
            if not carried & set(k.all_atoms()):
                return q, k
    return None, None


def companion(n2, nxt, ph, t, l):
    """n2 as a function of nxt, free of every value carried by the loop."""
    i = alg.atom_of(ph)
    k = alg.diff(nxt, i)
    if k.is_zero() or i in k.all_atoms():
        return None
    rest = nxt - k * ph
    if i in rest.all_atoms():
        return None
    r = alg.subst_deep(n2, {i: (t - rest) / k})
    carried = {phi_atom(q['phi']) for q in l.slots}
    return None if carried & set(r.all_atoms()) else r


def lin(dl, i, scale):
    if alg.atom_of(dl) == i:
        return ONE
    k = alg.diff(dl, i)
    return None if i in k.all_atoms() else k


def one(v):
    if isinstance(v, list):
        v, = v
    if not isinstance(v, alg.Expr):
        raise TypeError
    return v


def phi_atom(v):
    while isinstance(v, IteV):
        v = v.b
    if isinstance(v, Tensor):
        if v.size != 1:
            return None
        v = v.vals()[0]
    elif isinstance(v, Num):
        v = v.e
    return alg.atom_of(v) if isinstance(v, alg.Expr) else None


def free_of(x, L):
    return not x.nan and all(alg.ATOMS[i].kind == 'sym' and alg.ATOMS[i].pos for i in x.all_atoms())


def tangent(L, sig, eps, dn):
    dni = alg.atom_of(dn)
    R = L.R
    dRd = alg.diff(R, dni)
    dsd = [alg.diff(x, dni) for x in sig]
    idx = [O3.index(c) for c in L.o]
    T = [[L.rp_t(x) for x in row] for row in L.tangent()] if hasattr(L, 'rp_t') else \
        [[alg.subst_deep(x, L.sub) for x in row] for row in L.tangent()]
    bad = None
    for b, c in enumerate(L.o):
        i = alg.atom_of(eps[c])
        f = ONE if c[0] == c[1] else R2
        dR = alg.diff(R, i)
        for a, ia in enumerate(idx):
            ref = (alg.diff(sig[ia], i) - dsd[ia] * dR / dRd) / f
            if not alg.equal(T[a][b], ref):
                bad = bad or f'entry [{L.o[a]},{c}] is not the derivative of the returned stress'
    L.ob('consistent-tangent', bad is None, bad or '')


def admission(L, tag, kind, acc0, s, nrm2, ptr, xi, ety):
    """A literal of the leaf says on which side of the trial yield surface it is."""
    Y0 = alg.atom_of(alg.fn('Y', (acc0,), pos=True))
    if kind == 'dp':
        f0 = alg.sqrt(nrm2 / 2) + ety * ptr            # versus xi*Y
        unit = xi
    else:
        f0 = alg.sqrt(nrm2 * 3 / 2)
        unit = ONE
    res = side_of(L, Y0, f0, unit, kind, xi)
    if res is None:
        # decided with the yield stress of another plastic strain?
        for y in {i for c, _ in L.F.facts if c.op in ('lt', 'le') and not c.args[0].nan
                  for i in L.F.expr(c.args[0]).atoms() if alg.ATOMS[i].name == 'Y' and i != Y0}:
            if side_of(L, y, f0, unit, kind, xi) is not None:
                L.ob('regime-decided-by-yield-function', False, f'trial stress compared with the yield stress at {alg.ATOMS[y].args}')
                return
        L.ob('regime-decided-by-yield-function', None, 'no recognised literal')
        return
    rho, side = res
    L.ob('regime-decided-by-yield-function', side is (tag == 'elastic') and 1 - TOL <= rho <= 1 + 1e-12,
         f'yield stress ratio {rho}, elastic side {side}')


def selection(L, tag, q, G, dl, xi):
    """The cone is used exactly when the deviatoric stress it returns has not
    changed sign (root of J2 minus G times the cone multiplier)."""
    found = []
    qv = L.F.expr(q)
    qa = [i for i in qv.atoms() if alg.ATOMS[i].name == 'sqrt' or alg.ATOMS[i].kind == 'sqrt']
    for c, v in L.F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        e = L.F.expr(c.args[0])
        try:
            # iterates of the unrolled scheme are kept whole
            e = alg.subst(e, {a: S(f'it{a}') for a in e.atoms() if alg.ATOMS[a].kind == 'ite' or alg.ATOMS[a].name == 'ite'})
            for i in qa:
                lam = alg.diff(e, i) / alg.diff(qv, i)
                if not lam.is_const() or lam.is_zero():
                    continue
                rest = qv - e / lam             # e = lam*(q - G*x - k), k constant
                off = alg.subst(rest, {a: Z for a in rest.atoms()})
                m = (rest - off) / G
                if off.is_const() and not m.is_const() and i not in m.atoms():
                    found.append((float(off.const()), v if float(lam.const()) < 0 else not v))
        except ZeroDivisionError:
            continue
    if not found:
        L.ob('cone-used-while-admissible', None, 'no recognised literal')
        return
    if len(set(found)) > 1:
        L.ob('cone-used-while-admissible', None, 'several candidate literals')
        return
    off, nonneg = found[0]
    L.ob('cone-used-while-admissible', nonneg is (tag == 'cone') and abs(off) < 1e-6, f'offset {off}, non-negative {nonneg}')


def side_of(L, Y0, f0, unit, kind, xi):
    for c, v in L.F.facts:
        if c.op not in ('lt', 'le') or c.args[0].nan:
            continue
        e = L.F.expr(c.args[0])
        if Y0 not in e.atoms() and Y0 not in e.all_atoms():
            continue
        # root of e in Y0 is f0*rho/unit with rho close to one
        z = S('Yz', True)
        try:
            ez = alg.subst(e, {Y0: z})
        except ZeroDivisionError:
            continue
        zi = alg.atom_of(z)
        root = None
        for pw in (0, 1, 2):
            num = ez * z ** pw
            k = alg.diff(num, zi)
            if not k.is_zero() and zi not in k.all_atoms() and zi not in (num - k * z).all_atoms():
                root = -(num - k * z) / k
                break
        if root is None:
            continue
        rho = root * unit / f0
        if kind == 'dp':
            rho = free_const(rho, xi)
        if rho is None or not rho.is_const():
            continue
        rho = float(rho.const())
        decr = alg.diff(ez, zi).fval() < 0          # e decreases with the yield stress: e<=0 is elastic
        return rho, (v if decr else not v)
    return None


def free_const(rho, xi):
    if rho.is_const():
        return rho
    # tolerance relative to the cohesion: f0 <= (xi + tol)*Y
    r = alg.subst(rho, {alg.atom_of(xi): ONE})
    return r if r.is_const() else None
