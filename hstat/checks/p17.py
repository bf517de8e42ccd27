"""P17 - learnable parameters and the recurrent constitutive model.  The model is
evaluated with unrestricted parameter values, bounds and strain paths.  Parameter
scaling, synchronisation with the material model (with values cut from the
gradient graph made opaque), bounds and constraints are compared with their
definition; the recurrent integration is evaluated with an uninterpreted state
update that records what it is given."""
from .. import alg
from ..common import *
from .p03 import SYM
from .p13 import refuse

FLOOR = 150
LIMIT = 400
RM = 'model_architectures.rc_base_model.model.recurrent_model'
SU = 'simulators.fetorch.material.material_su'
C = alg.const
Z = alg.ZERO
R2 = alg.sqrt(C(2))
HARD = ('s0', 'a', 'b')
VALID = {'elastic': ('E', 'v'), 'von_mises': ('E', 'v') + HARD, 'von_mises_mixed': ('E', 'v') + HARD + tuple('kin_' + h for h in HARD),
         'drucker_prager': ('E', 'v') + HARD + ('yield_cohesion_parameter', 'yield_pressure_parameter', 'flow_pressure_parameter', 'friction_angle'),
         'lou_zhang_yoon': ('E', 'v') + HARD + tuple(f'yield_{y}_{h}' for y in 'abcd' for h in HARD)}
NAMES = ['elastic'] + [n + v for n in ('von_mises', 'von_mises_mixed', 'drucker_prager', 'lou_zhang_yoon') for v in ('', '_vmap')]
ALL = sorted({p for v in VALID.values() for p in v})


def groups(tier):
    g = [('scaling', scaling), ('initial', initial), ('bounds', bounds), ('detached', detached), ('constraints', constraints), ('freeze', freeze),
         ('refusals', refusals), ('components', components)]
    g += [(f'sync {n}', lambda ctx, n=n: sync(ctx, n)) for n in NAMES]
    g += [(f'uses {n} {d}D', lambda ctx, n=n, d=d: uses(ctx, n, d)) for n in NAMES if 'lou' not in n for d in (2, 3)]
    g += [(f'paths {n} {d}D', lambda ctx, n=n, d=d: paths(ctx, n, d)) for n in ('von_mises', 'von_mises_vmap', 'elastic') for d in (2, 3)]
    g += [('failure', failure)]
    return g


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def base(n):
    return n[:-5] if n.endswith('_vmap') else n


def hard(p):
    return PyDict([(h, Num(S(f'{p}{h}', True))) for h in HARD])


def law(n):
    def f(I, a, k):
        x = a[1] if len(a) > 1 else k['acc_p_strain']
        hp = a[0] if a else k.get('hardening_parameters')
        e = tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)
        hs = tuple(to_expr(hp.get(h)) if not isinstance(hp.get(h), Tensor) else tlib.E(hp.get(h).item()) for h in HARD)
        dt = x.dtype if isinstance(x, Tensor) else 'float32'
        return tuple(tlib.new([alg.fn(m, hs + (e,), pos=True)], (), dt, 'torch') for m in (n + 'Y', n + 'H'))
    return Native(f, n)


def material():
    return PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(S('m.E', True))), ('v', Num(S('m.v'))), ('euler_angles', (0, 0, 0)),
                   ('hardening_law', law('i')), ('hardening_parameters', hard('m.')),
                   ('kinematic_hardening_law', law('k')), ('kinematic_hardening_parameters', hard('m.kin_')),
                   ('yield_cohesion_parameter', Num(S('m.xi', True))), ('yield_pressure_parameter', Num(S('m.ety', True))),
                   ('flow_pressure_parameter', Num(S('m.etf', True))), ('friction_angle', Num(S('m.fa', True))),
                   ('is_associative_hardening', False)]
                  + [x for y in 'abcd' for x in ((f'{y}_hardening_law', law(y)), (f'{y}_hardening_parameters', hard(f'm.yield_{y}_')))])


LO = {p: S(f'lo_{p}') for p in ALL}
WID = {p: S(f'wid_{p}', True) for p in ALL}


def learn(ps, init=None):
    return PyDict([(p, PyDict([('initial_value', Num(init[p] if init else S('init_' + p))), ('bounds', (Num(LO[p]), Num(LO[p] + WID[p])))])) for p in ps])


def build(I, name, ps=('E',), d=3, normd=False, par=None, init=None, **kw):
    K = I.get(RM, 'RecurrentConstitutiveModel')
    n = len(SYM[d])
    a = dict(n_features_in=n, n_features_out=n, learnable_parameters=learn(ps, init), strain_formulation='infinitesimal', problem_type={2: 1, 3: 4}[d],
             material_model_name=name, material_model_parameters=par or material(), model_directory=None, is_normalized_parameters=normd,
             is_save_model_init_file=False)
    a.update(kw)
    return I.call(K, [], a)


def val(x):
    return tlib.E(x.item()) if isinstance(x, Tensor) else to_expr(x)


def set_par(I, m, p, e):
    t = call(I, m, 'get_model_parameters').get(p)
    tlib.write(t, [e])


def scaling(ctx):
    w = f'{RM}:RecurrentConstitutiveModel.transform_parameter'
    for ps in (('E',), ('E', 'v', 's0')):
        I = ctx.interp()
        m = build(I, 'von_mises', ps, normd=True)
        for p in ps:
            x = S('x')
            f = lambda v, mode: val(call(I, m, 'transform_parameter', p, Num(v), mode=mode))
            r = ctx.run('scaling', f'{w} {p}', lambda: (f(LO[p], 'normalize'), f(LO[p] + WID[p], 'normalize'), f(x, 'normalize'),
                                                        f(f(x, 'normalize'), 'denormalize'), f(C(-1), 'denormalize'), f(C(1), 'denormalize')))
            if r is None:
                continue
            ctx.same('lower-bound-scales-to-minus-one', f'{w} {p}', r[0], C(-1))
            ctx.same('upper-bound-scales-to-one', f'{w} {p}', r[1], C(1))
            ctx.same('scaling-is-affine-between-the-bounds', f'{w} {p}', r[2], 2 * (x - LO[p]) / WID[p] - 1)
            ctx.same('scaling-is-inverted-exactly', f'{w} {p}', r[3], x)
            ctx.same('minus-one-is-the-lower-bound', f'{w} {p}', r[4], LO[p])
            ctx.same('one-is-the-upper-bound', f'{w} {p}', r[5], LO[p] + WID[p])
            refuse(ctx, 'unknown-mode-is-refused', f'{w} {p}', lambda: call(I, m, 'transform_parameter', p, Num(x), mode='scale'))
            refuse(ctx, 'unknown-parameter-is-refused', f'{w} {p}', lambda: call(I, m, 'transform_parameter', 'nope', Num(x)))


def physical(m_norm, p, e):
    return LO[p] + WID[p] * (e + 1) / 2 if m_norm else e


def initial(ctx):
    for normd in (False, True):
        for ps in (('v',), ('E', 'v', 's0', 'a', 'b')):
            w = f'{RM}:RecurrentConstitutiveModel._set_model_parameters normalised={normd} {ps}'
            I = ctx.interp()
            m = ctx.run('construction', w, lambda: build(I, 'von_mises', ps, normd=normd))
            if m is None:
                continue
            mp = call(I, m, 'get_model_parameters')
            ctx.ob('exactly-the-requested-parameters-are-learnable', w, sorted(mp.keys()) == sorted(ps), mp.keys())
            for p in ps:
                t = mp.get(p)
                ctx.ob('parameter-is-trainable', f'{w} {p}', isinstance(t, Tensor) and bool(t.param) and t.grad is True, '')
                ctx.same('initial-value-is-the-given-one', f'{w} {p}', physical(normd, p, val(t)), S('init_' + p))
                b = call(I, m, 'get_model_parameters_bounds').get(p)
                ctx.same('bounds-are-the-given-ones', f'{w} {p}', [val(x) for x in I.iterate(b)], [LO[p], LO[p] + WID[p]])
                if normd:
                    b = call(I, m, 'get_model_parameters_norm_bounds').get(p)
                    ctx.same('scaled-bounds', f'{w} {p}', [val(x) for x in I.iterate(b)], [C(-1), C(1)])
            # returned bounds are copies
            call(I, m, 'get_model_parameters_bounds').set(ps[0], (0, 0))
            b = call(I, m, 'get_model_parameters_bounds').get(ps[0])
            ctx.same('bounds-cannot-be-changed-from-outside', w, [val(x) for x in I.iterate(b)], [LO[ps[0]], LO[ps[0]] + WID[ps[0]]])
    for lo, hi in ((2, 1), (0, -1), (S('u') + S('w', True), S('u'))):
        for k in (0, 1, 2):
            I = ctx.interp()
            ps = ['E', 'v', 's0']
            lp = learn(ps)
            lp.get(ps[k]).set('bounds', (Num(alg.as_expr(lo)), Num(alg.as_expr(hi))))
            refuse(ctx, 'inverted-bounds-are-refused', f'{RM}:RecurrentConstitutiveModel._set_model_parameters {lo}>{hi} at {k}',
                   lambda: build(I, 'von_mises', ps, learnable_parameters=lp))


PLACE = {'kin_': 'kinematic_hardening_parameters'}


def place(par, p):
    if p in HARD:
        return par.get('hardening_parameters'), p
    if p.startswith('kin_'):
        return par.get('kinematic_hardening_parameters'), p[4:]
    if p.startswith('yield_') and p[6] in 'abcd' and p[7] == '_':
        return par.get(f'{p[6]}_hardening_parameters'), p[8:]
    return par, p


def table(par):
    """(place, key) -> value for every numeric material parameter."""
    out = {}
    for k in par.keys():
        v = par.get(k)
        if isinstance(v, PyDict):
            for q in v.keys():
                if is_num(v.get(q)) or isinstance(v.get(q), Tensor):
                    out[(k, q)] = v.get(q)
        elif (is_num(v) and not isinstance(v, bool)) or isinstance(v, Tensor):
            out[('', k)] = v
    return out


def key_of(p):
    if p in HARD:
        return 'hardening_parameters', p
    if p.startswith('kin_'):
        return 'kinematic_hardening_parameters', p[4:]
    if p.startswith('yield_') and p[6] in 'abcd' and p[7] == '_':
        return f'{p[6]}_hardening_parameters', p[8:]
    return '', p


def sync(ctx, name):
    valid = VALID[base(name)]
    w0 = f'{RM}:RecurrentConstitutiveModel.sync_material_model_parameters {name}'
    subsets = [(p,) for p in valid] + [tuple(p for p in valid if not p.startswith('yield_') or base(name) != 'drucker_prager' or True)]
    if base(name) == 'drucker_prager':
        subsets[-1] = tuple(p for p in valid if p != 'friction_angle')
        subsets.append(('E', 's0', 'friction_angle'))
    for normd in (False, True):
        for ps in subsets:
            I = ctx.interp()
            w = f'{w0} normalised={normd} {"+".join(ps)}'
            m = ctx.run('construction', w, lambda: build(I, name, ps, normd=normd))
            if m is None:
                continue
            before = {k: val(v) for k, v in table(call(I, m, 'get_material_model_parameters')).items()}
            I.track_grad = True
            for rnd in (0, 1):
                want = dict(before)
                for p in ps:
                    x = S(f'{p}@{rnd}')
                    set_par(I, m, p, x)
                    want[key_of(p)] = physical(normd, p, x)
                    if p == 'friction_angle':
                        f = want[key_of(p)]
                        want[('', 'yield_cohesion_parameter')] = 2 / alg.sqrt(C(3)) * alg.func('cos', f)
                        for q in ('yield_pressure_parameter', 'flow_pressure_parameter'):
                            want[('', q)] = 3 / alg.sqrt(C(3)) * alg.func('sin', f)
                if ctx.run('synchronisation', w, lambda: (call(I, m, 'sync_material_model_parameters'), 1)) is None:
                    break
                got = {k: val(v) for k, v in table(call(I, m, 'get_material_model_parameters')).items()}
                ctx.ob('no-material-parameter-appears-or-disappears', f'{w} sync {rnd + 1}', set(got) == set(want), set(got) ^ set(want))
                bad = [k for k in want if k in got and not alg.equal(got[k], want[k])]
                ctx.ob('each-parameter-reaches-its-material-parameter-with-its-gradient', f'{w} sync {rnd + 1}', not bad,
                       [(k, str(got[k]), str(want[k])) for k in bad])
                now = call(I, m, 'get_model_parameters')
                ctx.ob('synchronisation-leaves-the-learnable-parameters', f'{w} sync {rnd + 1}', all(alg.equal(val(now.get(p)), S(f'{p}@{rnd}')) for p in ps), '')
    for p in ALL + ['nope']:
        if p in valid:
            continue
        I = ctx.interp()
        m = ctx.run('construction', f'{w0} {p}', lambda: build(I, name, ('E',)))
        if m is None:
            continue
        call(I, m, 'get_model_parameters').set(p, tlib.new([S('q')], (), 'float32', 'torch'))
        refuse(ctx, 'parameter-of-another-model-is-refused', f'{w0} {p}', lambda: call(I, m, 'sync_material_model_parameters'))


def symbols(*vs):
    out = set()
    for v in vs:
        for e in (v.vals() if isinstance(v, Tensor) else [v]):
            if isinstance(e, (bool,)):
                continue
            if isinstance(e, alg.Cond):
                for x in e.exprs():
                    out |= {alg.ATOMS[a].name for a in x.all_atoms()}
            else:
                out |= {alg.ATOMS[a].name for a in tlib.E(e).all_atoms()}
    return out


def uses(ctx, name, d):
    """The response of the model follows the current parameter values."""
    w = f'{RM}:RecurrentConstitutiveModel.forward {name} {d}D'
    ps = [p for p in VALID[base(name)] if p != 'friction_angle']
    I = ctx.interp()
    n = len(SYM[d])
    alg.DERIV['iY'] = alg.DERIV['kY'] = None
    m = ctx.run('construction', w, lambda: build(I, name, ps, d))
    if m is None:
        return
    for p in ps:
        set_par(I, m, p, S(f'{p}@1', p != 'v'))
    call(I, m, 'sync_material_model_parameters')
    K = I.getattr(m, '_constitutive_model')
    inc = tlib.new([C(2 + i * j + i + j) / C(100) for i in range(d) for j in range(d)], (d, d), 'float32', 'torch')
    r = ctx.run('response', w, lambda: I.call(I.get(SU, 'material_state_update'),
                                             ['infinitesimal', {2: 1, 3: 4}[d], K, inc, call(I, K, 'state_init')], {}))
    if r is None:
        return
    st, _ = I.iterate(r)
    sm = st.get('stress_mf')
    sm = tlib.as_tensor(I, sm)
    got = symbols(sm)
    stale = sorted(x for x in got if x.startswith('m.') and x[2:] not in ('xi', 'ety', 'etf', 'fa')) if base(name) != 'drucker_prager' else \
        sorted(x for x in got if x.startswith('m.'))
    ctx.ob('response-does-not-use-replaced-parameters', w, not stale, stale)
    for p in ps:
        ctx.ob('response-follows-each-parameter', f'{w} {p}', f'{p}@1' in got, '')


STATE_VARS = ('stress_mf', 'e_strain_mf', 'strain_mf')


def paths(ctx, name, d):
    order = SYM[d]
    n = len(order)
    vm = name.endswith('_vmap')
    for feats in (PyDict([]), PyDict([('acc_p_strain', 1)]), PyDict([('acc_p_strain', 1), ('e_strain_mf', n)]), PyDict([('e_strain_mf', n), ('acc_p_strain', 1)]),
                  PyDict([('strain_mf', n)])):
        for T in (1, 2, 3, 4):
            for B in (None, 1, 2, 3):
                if T == 4 and B == 3:
                    continue
                I = ctx.interp()
                w = f'{RM}:RecurrentConstitutiveModel.forward {name} {d}D times={T} batch={B} states={list(feats.keys())}'
                nf = n + sum(I.as_int(feats.get(k)) for k in feats.keys())
                m = ctx.run('construction', w, lambda: build(I, name, ('E',), d, state_features_out=feats, n_features_out=nf,
                                                             is_check_su_fail=False))
                if m is None:
                    continue
                calls = []

                def su(I, a, k):
                    names = ('strain_formulation', 'problem_type', 'constitutive_model', 'inc_strain', 'state_variables_old', 'def_gradient_old')
                    a = dict(zip(names, a)) | k
                    inc = tlib.as_tensor(I, a['inc_strain'])
                    old = a['state_variables_old']
                    es = tuple(tlib.E(x) for x in inc.vals()) + tuple(tlib.E(x) for q in STATE_VARS + ('acc_p_strain',) for x in
                                                                      tlib.as_tensor(I, old.get(q)).vals())
                    calls.append((a['strain_formulation'], I.as_int(a['problem_type']), a['constitutive_model']))
                    mk = lambda q, i: alg.fn(f'{q}{i}', es)
                    st = PyDict([(q, tlib.new([mk(q, i) for i in range(n)], (n,), 'float32', 'torch')) for q in STATE_VARS])
                    st.set('acc_p_strain', tlib.new([mk('acc', 0)], (), 'float32', 'torch'))
                    st.set('is_su_fail', tlib.new([False], (), 'bool', 'torch'))
                    st.set('is_plast', tlib.new([False], (), 'bool', 'torch'))
                    return st, None
                I.stubs[f'{SU}.material_state_update'] = su
                init = PyDict([(q, tlib.new([Z] * n, (n,), 'float32', 'torch')) for q in STATE_VARS] +
                              [('acc_p_strain', tlib.new([Z], (), 'float32', 'torch')), ('is_su_fail', tlib.new([False], (), 'bool', 'torch'))])
                I.getattr(m, '_constitutive_model').attrs['state_init'] = Native(lambda I, a, k: PyDict([(q, init.get(q)) for q in init.keys()]), 'state_init')
                I.track_grad = True
                x = tens('x', (T, n) if B is None else (T, B, n))
                b0 = [str(e) for e in x.vals()]
                y = ctx.run('forward', w, lambda: call(I, m, 'forward', x))
                if y is None:
                    continue
                ctx.ob('response-shape', w, tuple(y.shape) == ((T, nf) if B is None else (T, B, nf)), y.shape)
                ctx.ob('strain-paths-are-not-modified', w, [str(e) for e in x.vals()] == b0, '')
                if tuple(y.shape) != ((T, nf) if B is None else (T, B, nf)):
                    continue
                # reference
                X = [[[S(f'x[{(t * (B or 1) + b) * n + i}]') for i in range(n)] for b in range(B or 1)] for t in range(T)]
                idx = [[order.index(f'{min(i, j) + 1}{max(i, j) + 1}') if f'{min(i, j) + 1}{max(i, j) + 1}' in order else
                        order.index(f'{max(i, j) + 1}{min(i, j) + 1}') for j in range(d)] for i in range(d)]
                kf = [C(1) if c[0] == c[1] else R2 for c in order]
                bad = []
                for b in range(B or 1):
                    old = {q: [Z] * n for q in STATE_VARS} | {'acc_p_strain': [Z]}
                    for t in range(T):
                        if t == 0:
                            row = [Z] * nf
                        else:
                            es = tuple(X[t][b][idx[i][j]] - X[t - 1][b][idx[i][j]] for i in range(d) for j in range(d)) + tuple(
                                e for q in STATE_VARS + ('acc_p_strain',) for e in old[q])
                            old = {q: [alg.fn(f'{q}{i}', es) for i in range(n)] for q in STATE_VARS} | {'acc_p_strain': [alg.fn('acc0', es)]}
                            row = [e / f for e, f in zip(old['stress_mf'], kf)]
                            for q in feats.keys():
                                row += [e / f for e, f in zip(old[q], kf)] if 'strain_mf' in q else old[q]
                        got = [tlib.E(e) for e in y.vals()][(t * (B or 1) + b) * nf:(t * (B or 1) + b + 1) * nf]
                        bad += [(t, b, i, str(g)[:80], str(r)[:80]) for i, (g, r) in enumerate(zip(got, row)) if not alg.equal(g, r)]
                ctx.ob('response-of-each-path-and-time-is-the-integrated-material-response', w, not bad, bad[:2])
                ctx.ob('state-update-is-given-the-model', w, all(c == ('infinitesimal', {2: 1, 3: 4}[d], I.getattr(m, '_constitutive_model')) for c in calls), '')


def failure(ctx):
    for name in ('von_mises', 'elastic'):
        for d in (2, 3):
            n = len(SYM[d])
            for at in (1, 2):
                for kind in ('flag', 'nan'):
                    for check in (True, False):
                        I = ctx.interp()
                        m = build(I, name, ('E',), d, is_check_su_fail=check)
                        cnt = [0]

                        def su(I, a, k):
                            cnt[0] += 1
                            bad = cnt[0] == at
                            e = [alg.NAN if bad and kind == 'nan' and i == n - 1 else S(f's{cnt[0]}{i}') for i in range(n)]
                            st = PyDict([('stress_mf', tlib.new(e, (n,), 'float32', 'torch')),
                                         ('is_su_fail', tlib.new([bad and kind == 'flag'], (), 'bool', 'torch'))])
                            return st, None
                        I.stubs[f'{SU}.material_state_update'] = su
                        w = f'{RM}:RecurrentConstitutiveModel.forward {name} {d}D {kind} at step {at} check={check}'
                        f = lambda: call(I, m, 'forward', tens('x', (3, n)))
                        if check:
                            refuse(ctx, 'failed-state-update-is-not-returned-as-response', w, f)
                        else:
                            ctx.ob('unchecked-forward-returns', w, ctx.run('forward', w, lambda: (f(), 1)) is not None, '')


def bounds(ctx):
    for normd, frozen in ((False, False), (True, False), (False, True), (True, True)):
        ps = ('E', 'v', 's0')
        w = f'{RM}:RecurrentConstitutiveModel.enforce_parameters_bounds normalised={normd} frozen={frozen}'
        I = ctx.interp()
        m = build(I, 'von_mises', ps, normd=normd)
        for i, p in enumerate(ps):
            set_par(I, m, p, S(f'y_{p}'))
        if frozen and ctx.run('freeze', w, lambda: (call(I, m, 'freeze_parameter', 'v'), 1)) is None:
            continue
        if ctx.run('bounds', w, lambda: (call(I, m, 'enforce_parameters_bounds'), 1)) is None:
            continue
        mp = call(I, m, 'get_model_parameters')
        for p in ps:
            lo, hi = (C(-1), C(1)) if normd else (LO[p], LO[p] + WID[p])
            y = val(mp.get(p))
            # value inside is kept, outside goes to the violated bound
            dl, du = S('dl', True), S('du', True)
            for what, e, want in (('inside', lo + (hi - lo) * dl / (dl + du), None), ('below', lo - dl, lo), ('above', hi + du, hi)):
                at = alg.subst_deep(y, {alg.atom_of(S(f'y_{p}')): e})
                ctx.same(f'value-{what}-the-bounds', f'{w} {p}', at, e if want is None else want)
            t = mp.get(p)
            ctx.ob('parameter-stays-trainable', f'{w} {p}', bool(t.param) and t.grad is not (frozen and p == 'v'), '')


def detached(ctx):
    for normd in (False, True):
        for out in (False, True):
            ps = ('E', 'v', 's0')
            w = f'{RM}:RecurrentConstitutiveModel.get_detached_model_parameters normalised={normd} out={out}'
            I = ctx.interp()
            m = build(I, 'von_mises', ps, normd=normd)
            if out and not normd:
                # requires scaled bounds, which only exist for scaled parameters
                continue
            for p in ps:
                set_par(I, m, p, S(f'y_{p}'))
            r = ctx.run('detached', w, lambda: call(I, m, 'get_detached_model_parameters', is_normalized_out=out))
            if r is None:
                continue
            ctx.ob('all-parameters-are-returned', w, sorted(r.keys()) == sorted(ps), r.keys())
            for p in ps:
                ctx.same('value-in-the-requested-scale', f'{w} {p}', val(r.get(p)), S(f'y_{p}') if out else physical(normd, p, S(f'y_{p}')))
                ctx.ob('value-is-a-plain-number', f'{w} {p}', not isinstance(r.get(p), Tensor), type(r.get(p)))


def constraints(ctx):
    LZ = 'simulators.fetorch.material.models.standard.lou'
    for name in ('lou_zhang_yoon', 'lou_zhang_yoon_vmap', 'von_mises'):
        for normd in (False, True):
            for ps in (('E',), ('yield_c_s0',), ('yield_d_s0',), ('yield_c_s0', 'yield_d_s0'), ('E', 'yield_d_s0', 'yield_c_s0', 'yield_c_a')):
                if name == 'von_mises' and ps != ('E',):
                    continue
                for convex in (True, False):
                    I = ctx.interp()
                    w = f'{RM}:RecurrentConstitutiveModel.enforce_parameters_constraints {name} normalised={normd} {ps} convex={convex}'
                    m = ctx.run('construction', w, lambda: build(I, name, ps, normd=normd))
                    if m is None:
                        continue
                    for p in ps:
                        set_par(I, m, p, S(f'y_{p}'))
                    seen = []

                    def cv(I, a, k):
                        a = [x for x in a if not isinstance(x, ClassV)]
                        seen.append([val(x) for x in a + list(k.values())])
                        if convex:
                            return (True, a[0], a[1])
                        return (False, tlib.new([S('c*')], (), 'float32', 'torch'), tlib.new([S('d*')], (), 'float32', 'torch'))
                    I.stubs['LouZhangYoon.convexity_return_mapping'] = cv
                    if ctx.run('constraints', w, lambda: (call(I, m, 'enforce_parameters_constraints'), 1)) is None:
                        continue
                    mp = call(I, m, 'get_model_parameters')
                    cd = [p for p in ('yield_c_s0', 'yield_d_s0') if p in ps]
                    if cd:
                        want = [physical(normd, p, S(f'y_{p}')) if p in ps else S(f'm.{p}', True) for p in ('yield_c_s0', 'yield_d_s0')]
                        ctx.ob('convexity-is-judged-on-the-physical-values', w, len(seen) == 1 and all(alg.equal(a, b) for a, b in zip(seen[0], want)),
                               [[str(x) for x in s] for s in seen])
                    for p in ps:
                        want = S(f'y_{p}')
                        if p in cd and not convex:
                            s = S('c*' if p == 'yield_c_s0' else 'd*')
                            want = 2 * (s - LO[p]) / WID[p] - 1 if normd else s
                        ctx.same('non-convex-parameters-return-to-the-boundary-others-stay', f'{w} {p}', val(mp.get(p)), want)
                        t = mp.get(p)
                        ctx.ob('parameter-stays-trainable', f'{w} {p}', bool(t.param) and t.grad is True, '')


def freeze(ctx):
    ps = ('E', 'v', 's0')
    for p in ps:
        I = ctx.interp()
        w = f'{RM}:RecurrentConstitutiveModel.freeze_parameter {p}'
        m = build(I, 'von_mises', ps)
        if ctx.run('freeze', w, lambda: (call(I, m, 'freeze_parameter', p), 1)) is None:
            continue
        mp = call(I, m, 'get_model_parameters')
        ctx.ob('exactly-the-named-parameter-is-frozen', w, [q for q in ps if mp.get(q).grad is False] == [p], '')
        refuse(ctx, 'unknown-parameter-is-refused', w, lambda: call(I, m, 'freeze_parameter', 'nope'))


def refusals(ctx):
    for name in ('von_mises', 'von_mises_vmap'):
        w = f'{RM}:RecurrentConstitutiveModel.forward {name}'
        I = ctx.interp()
        m = build(I, name, ('E',))
        refuse(ctx, 'input-that-is-no-tensor-is-refused', w, lambda: call(I, m, 'forward', PyList([Num(C(1))])))
        m = build(I, name, ('E',), n_features_out=7)
        refuse(ctx, 'response-of-other-width-is-refused', w, lambda: call(I, m, 'forward', tens('x', (1, 6))))
        refuse(ctx, 'response-of-other-width-is-refused', w + ' batch', lambda: call(I, m, 'forward', tens('x', (1, 2, 6))))
    I = ctx.interp()
    refuse(ctx, 'unknown-material-is-refused', f'{RM}:RecurrentConstitutiveModel', lambda: build(I, 'rubber', ('E',)))
    refuse(ctx, 'unknown-device-is-refused', f'{RM}:RecurrentConstitutiveModel', lambda: build(I, 'von_mises', ('E',), device_type='tpu'))
    refuse(ctx, 'bad-model-name-is-refused', f'{RM}:RecurrentConstitutiveModel', lambda: build(I, 'von_mises', ('E',), model_name=3))
    # automatic synchronisation
    for auto, mode in ((True, None), (False, None), (True, 'eval'), (False, 'eval'), (True, 'train')):
        for name in ('von_mises', 'von_mises_vmap'):
            I = ctx.interp()
            w = f'{RM}:RecurrentConstitutiveModel.forward {name} auto={auto} mode={mode}'
            m = build(I, name, ('E',), is_auto_sync_parameters=auto)
            if mode is not None:
                m.attrs['training'] = mode == 'train'
            set_par(I, m, 'E', S('E@1'))
            seen = []
            I.stubs[f'{SU}.material_state_update'] = lambda I, a, k: (
                seen.append(val(call(I, m, 'get_material_model_parameters').get('E'))) or PyDict([('stress_mf', vec('s', 6)), (
                    'is_su_fail', tlib.new([False], (), 'bool', 'torch'))]), None)
            if ctx.run('forward', w, lambda: (call(I, m, 'forward', tens('x', (2, 6))), 1)) is None:
                continue
            ctx.ob('current-parameters-are-used-iff-automatic', w, len(seen) == 1 and alg.equal(seen[0], S('E@1') if auto else S('m.E', True)), seen)


def components(ctx):
    K0 = 'RecurrentConstitutiveModel'
    for d in (2, 3):
        order = SYM[d]
        n = len(order)
        I = ctx.interp()
        K = I.get(RM, K0)
        v = vec('c', n)
        for f in ('vbuild_tensor_from_comps', 'build_tensor_from_comps'):
            w = f'{RM}:{K0}.{f} {d}D'
            kw = {'is_symmetric': True} if f[0] == 'b' else {}
            t = ctx.run('build', w, lambda: call(I, K, f, d, tuple(order), v, **kw))
            if t is None:
                continue
            want = [[S(f'c{(order.index(a) if a in order else order.index(a[::-1])) + 1}') for a in (f'{i + 1}{j + 1}' for j in range(d))] for i in range(d)]
            ctx.same('tensor-has-its-components', w, ex(t), want)
            for g in ('vstore_tensor_comps', 'store_tensor_comps'):
                b = ctx.run('store', w, lambda: call(I, K, g, tuple(order), t))
                if b is not None:
                    ctx.same('components-are-recovered', f'{w} {g}', ex(b), ex(v))
        a = mat('A', d, d)
        for g in ('vstore_tensor_comps', 'store_tensor_comps'):
            for od in (order, [f'{i + 1}{j + 1}' for j in range(d) for i in range(d)]):
                w = f'{RM}:{K0}.{g} {od}'
                b = ctx.run('store', w, lambda: call(I, K, g, tuple(od), a))
                if b is not None:
                    ctx.same('components-in-the-given-order', w, ex(b), [S(f'A{c}') for c in od])
