"""P12 - force-equilibrium loss of the material model finder.  The finder is
evaluated on specimens with rational node coordinates, unrestricted displacement,
reaction and weight histories and a stand-in material whose stress response is
unrestricted (one free symbol per element, Gauss point, time and component,
selected by the strain path the code hands it).  Decided: in every computation
mode the loss is scale * sum_t weight_t * sum over degrees of freedom of
(internal - [constrained] reaction)^2 with internal forces assembled from the
quadrature sum, the per-set loss groups the constrained degrees of freedom by
label, the stored components add up to the loss, per-set reactions, local strain /
stress paths, force and feature normalisation, NaN detection and input refusal."""
import itertools

from .. import alg
from ..common import *

FLOOR = 60
LIMIT = 400
MD = 'material_model_finder.model.material_discovery'
SD = 'material_model_finder.data.specimen_data'
SS = 'simulators.fetorch.structure.structure_state'
ET = 'simulators.fetorch.element.type.'
GR = 'simulators.fetorch.element.derivatives.gradients'
Z = alg.ZERO
C = alg.const
q = lambda a, b=1: C(a) / C(b)

# nodes (rational), element type, connectivities, problem type, Dirichlet labels
SPEC = {
    'quad4 plane strain': dict(mod='quad4', cls='FEQuad4', kw={}, pt=1,
                               X=[[0, 0], [2, 0], [5, 1], [0, 3], [3, 2], [4, 4]],
                               conn={1: (1, 2, 5, 4), 2: (3, 6, 5, 2)},
                               sets=[[1, 2], [0, 2], [0, 0], [1, 0], [0, 0], [3, 0]]),
    'quad8 plane strain': dict(mod='quad8', cls='FEQuad8', kw={}, pt=1,
                               X=[[0, 0], [2, 0], [3, 2], [0, 3], [1, 0], [3, 1], [1, 3], [0, 1]],
                               conn={1: (1, 2, 3, 4, 5, 6, 7, 8)},
                               sets=[[1, 2]] + [[0, 0]] * 6 + [[1, 2]]),
    'tetra4 3D': dict(mod='tetra4', cls='FETetra4', kw={}, pt=4,
                      X=[[0, 0, 0], [2, 0, 1], [0, 3, 0], [1, 1, 4], [3, 3, 3]],
                      conn={1: (1, 2, 3, 4), 2: (5, 3, 2, 4)},
                      sets=[[1, 2, 3], [0, 0, 4], [0, 0, 0], [1, 0, 0], [0, 4, 4]]),
    'tri3 x 11 plane strain': dict(mod='tri3', cls='FETri3', kw={}, pt=1,
                                   X=[[0, 0], [2, 0], [1, 2], [3, 2], [2, 5], [5, 3], [6, 1]],
                                   conn={e: t for e, t in enumerate(
                                       [(1, 2, 3), (2, 4, 3), (4, 5, 3), (5, 6, 4), (6, 7, 5), (7, 1, 6), (2, 7, 4), (1, 3, 5), (3, 6, 2), (4, 7, 1), (5, 2, 6)], 1)},
                                   sets=[[1, 0]] + [[0, 0]] * 5 + [[1, 2]]),
}
COMPS = {1: ('11', '22', '12'), 4: ('11', '22', '33', '12', '23', '13')}


def groups(tier):
    g = []
    for n in SPEC:
        for mode in ('sequential_element', 'sequential_element_vmap'):
            g.append((f'{n} {mode}', lambda ctx, n=n, mode=mode: recurrent(ctx, n, mode)))
    for n in ('quad4 plane strain', 'tetra4 3D'):
        for mode in ('sequential_time', 'sequential_element'):
            g.append((f'{n} {mode} elastic', lambda ctx, n=n, mode=mode: elastic(ctx, n, mode)))
    for mode in ('sequential_element', 'sequential_element_vmap'):
        g.append((f'normalised features {mode}', lambda ctx, mode=mode: recurrent(ctx, 'quad4 plane strain', mode, norm=True)))
        g.append((f'output tuple {mode}', lambda ctx, mode=mode: recurrent(ctx, 'tetra4 3D', mode, tup=True)))
    g += [('loss definitions', losses), ('force normalisation', losses_norm), ('refusals', refusals),
          ('specimen data', specimen), ('tensor components', comps), ('volumetric average', vbar), ('failure detection', nans)]
    for mode in ('sequential_element', 'sequential_element_vmap'):
        g.append((f'successive specimens {mode}', lambda ctx, mode=mode: successive(ctx, mode)))
    return g


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def quiet(I):
    """File-system effects are outside this property."""
    I.stubs['fs'] = lambda I, k, a: True
    I.stubs['ioput.iostandard.make_directory'] = lambda I, a, k: a[0] if a else None
    I.stubs['time_series_data.time_dataset.save_dataset'] = lambda I, a, k: (I.__dict__.setdefault('saved', []).append(a[0]), None)[1]
    I.stubs['time_series_data.time_dataset.TimeSeriesDatasetInMemory'] = lambda I, a, k: a[0] if a else next(iter(k.values()))
    I.stubs['TimeSeriesDatasetInMemory'] = I.stubs['time_series_data.time_dataset.TimeSeriesDatasetInMemory']


def finder(I, **kw):
    quiet(I)
    return I.call(I.get(MD, 'MaterialModelFinder'), ['/nonexistent/model'], kw)


def data(I, n, nt, zero_start=False, px=''):
    s = SPEC[n]
    d = 3 if s['pt'] == 4 else 2
    nn = len(s['X'])
    et = I.call(I.get(ET + s['mod'], s['cls']), [], dict(s['kw']))
    sd = I.call(I.get(SD, 'SpecimenNumericalData'), [], {})
    keys = sorted(s['conn'], key=str)
    db = const_t([[1 if x == 1 else 0 for x in r] for r in s['sets']])
    types = PyDict([(str(k), et) for k in keys])
    call(I, sd, 'set_specimen_mesh', const_t(s['X']), types, PyDict([(str(k), tuple(s['conn'][k])) for k in keys]), db)
    U = [[[Z if zero_start and t == 0 else S(f'{px}u{i + 1}{j + 1}t{t}') for t in range(nt)] for j in range(d)] for i in range(nn)]
    R = [[[S(f'{px}r{i + 1}{j + 1}t{t}') for t in range(nt)] for j in range(d)] for i in range(nn)]
    flat = lambda a: tlib.new([x for r in a for c in r for x in c], (nn, d, nt), 'float32', 'torch')
    bc = tlib.new([C(1 if x == 1 else 0) for r in s['sets'] for x in r for _ in range(nt)], (nn, d, nt), 'float32', 'torch')
    th = tlib.new([S(f'time{t}') for t in range(nt)], (nt,), 'float32', 'torch')
    call(I, sd, 'set_specimen_data', flat(U), flat(R), bc, th)
    return s, d, nn, et, sd, types, U, R


def kinematics(I, s, d, et, U, nt):
    """Reference strains and force operators: {(e, g): (strain[t][c], op)} with
    op[a][c] such that the nodal force a is sum_c op[a][c] * stress_c."""
    comps = COMPS[s['pt']]
    pts, wts = call(I, et, 'get_gauss_integration_points')
    ng = len(pts.d)
    out = {}
    for e, nodes in s['conn'].items():
        Xe = const_t([s['X'][k - 1] for k in nodes])
        for g in range(1, ng + 1):
            r = I.call(I.get(GR, 'eval_shapefun_deriv'), [et, Xe, pts.get(str(g))], {})
            dn, _, J = I.iterate(r)
            dn, J = ex(dn), to_expr(J)           # dn[node][dim]
            wd = to_expr(wts.get(str(g))) * J
            st = []
            for t in range(nt):
                grad = [[sum((U[k - 1][i][t] * dn[a][j] for a, k in enumerate(nodes)), Z) for j in range(d)] for i in range(d)]
                st.append([(grad[int(c[0]) - 1][int(c[1]) - 1] + grad[int(c[1]) - 1][int(c[0]) - 1]) / C(2) for c in comps])
            op = []
            for a in range(len(nodes)):
                for i in range(d):
                    row = []
                    for c in comps:
                        p, r_ = int(c[0]) - 1, int(c[1]) - 1
                        v = Z
                        if p == i:
                            v = v + dn[a][r_]
                        if r_ == i and r_ != p:
                            v = v + dn[a][p]
                        row.append(v * wd)
                    op.append(row)
            out[e, g] = (st, op)
    return ng, out


def forces(s, d, nn, nt, kin, stress):
    """Assembled internal forces [node][dim][t]."""
    F = [[[Z] * nt for _ in range(d)] for _ in range(nn)]
    for (e, g), (_, op) in kin.items():
        for a, k in enumerate(s['conn'][e]):
            for i in range(d):
                for t in range(nt):
                    v = sum((op[a * d + i][c] * stress[e, g][t][c] for c in range(len(op[0]))), Z)
                    F[k - 1][i][t] = F[k - 1][i][t] + v
    return F


def pointwise(F, R, mask, w):
    nt = len(w)
    tot = Z
    for t in range(nt):
        for i in range(len(F)):
            for j in range(len(F[0])):
                r = F[i][j][t] - (R[i][j][t] if mask[i][j] == 1 else Z)
                tot = tot + w[t] * r * r
    return tot


def recurrent(ctx, n, mode, norm=False, tup=False):
    nt = 2 if n.startswith('tri3') or n.startswith('quad8') else 3
    I = ctx.interp()
    w = f'{MD}:MaterialModelFinder {mode} {n}' + (' normalised' if norm else '') + (' output tuple' if tup else '')
    quiet(I)
    s, d, nn, et, sd, types, U, R = data(I, n, nt)
    comps = COMPS[s['pt']]
    nc = len(comps)
    ng, kin = kinematics(I, s, d, et, U, nt)
    lo = [S(f'lo{c}') for c in range(nc)]
    rg = [S(f'rg{c}', True) for c in range(nc)]
    slo = [S(f'slo{c}') for c in range(nc)]
    srg = [S(f'srg{c}', True) for c in range(nc)]
    seen, calls, odd = {}, [], []
    for key, (st, _) in kin.items():
        if norm:
            st = [[C(2) * (x - a) / b - C(1) for x, a, b in zip(r, lo, rg)] for r in st]
        seen.setdefault(key, st)
    sig = {k: [[S(f'sig{k[0]}_{k[1]}_{t}_{c}') for c in range(nc)] for t in range(nt)] for k in kin}

    def model(I, a, k):
        x = a[0]
        v = ex(x)
        if len(v) != nt or len(v[0]) != nc:
            odd.append(f'features of shape {x.shape}')
            raise Undecided('feature shape')
        from ..check import equal_vals
        hit = [key for key, st in seen.items() if equal_vals(v, st)[0]]
        # points of a constant-strain element are exchangeable (equal weights)
        free = [key for key in hit if key not in calls]
        if not free:
            odd.append(f'strain path matches {len(hit)} of the expected ones')
            raise Undecided('strain path')
        hit = free
        calls.append(hit[0])
        out = sig[hit[0]]
        if norm:
            out = [[C(2) * (y - a_) / b - C(1) for y, a_, b in zip(r, slo, srg)] for r in out]
        t = tlib.new([y for r in out for y in r], (nt, nc), x.dtype, 'torch')
        return (t, tlib.new([Z], (1,), 'float32', 'torch')) if tup else t
    attrs = {}
    if norm:
        mk = lambda a, b: I.call(I.get('utilities.data_scalers', 'TorchMinMaxScaler'), [nc], {
            'minimum': tlib.new(a, (nc,), 'float32', 'torch'),
            'maximum': tlib.new([x + y for x, y in zip(a, b)], (nc,), 'float32', 'torch')})
        attrs = dict(is_model_in_normalized=True, is_model_out_normalized=True,
                     _data_scalers=PyDict([('features_in', mk(lo, rg)), ('features_out', mk(slo, srg))]))
    RC = ('model_architectures.rc_base_model.model.recurrent_model', 'RecurrentConstitutiveModel')
    stand_in = fake(I, 'StandInModel', base=RC, **attrs)
    stand_in.attrs['@call'] = model
    for k in ('forward', '__call__', 'sync_material_model_parameters'):
        stand_in.attrs[k] = Native(model if k != 'sync_material_model_parameters' else (lambda I, a, k: None), k)
    I.stubs['RecurrentConstitutiveModel'] = lambda I, a, k: stand_in
    ms = I.call(I.get(SS, 'StructureMaterialState'), ['infinitesimal', s['pt'], len(s['conn'])], {})
    if norm or tup:
        pass
    kw = PyDict([(k, None) for k in ('n_features_in', 'n_features_out', 'learnable_parameters', 'material_model_name', 'state_features_out',
                                     'is_auto_sync_parameters', 'is_check_su_fail', 'model_directory', 'is_normalized_parameters',
                                     'is_model_in_normalized', 'is_model_out_normalized', 'device_type')])
    ctx.run('material-initialisation', w, lambda: call(I, ms, 'init_elements_model', 'rc_standin', PyDict([]), PyList(sorted(s['conn'])), types, kw))
    wt = [S(f'w{t}') for t in range(nt)]
    sc = S('scale')
    loc = [2, 1] if len(s['conn']) > 1 else [1]
    f = finder(I, is_store_local_paths=True, local_paths_elements=PyList(loc))
    r = ctx.run('specimen-data-accepted', w, lambda: (call(I, f, 'set_specimen_data', sd, ms, loss_scaling_factor=Num(sc),
                loss_time_weights=tlib.new(wt, (nt,), 'float32', 'torch')), 1)[1])
    if r is None:
        return
    loss = ctx.run('loss', w, lambda: call(I, f, 'forward', sequential_mode=mode))
    if odd:
        ctx.ob('material-receives-the-strain-path-of-its-point', w, False, odd[0])
        return
    if loss is None:
        return
    ctx.ob('material-evaluated-once-per-gauss-point', w, sorted(calls) == sorted(kin), sorted(calls)[:8])
    F = forces(s, d, nn, nt, kin, sig)
    ctx.same('loss-is-weighted-squared-force-residual', w, to_expr(loss), sc * pointwise(F, R, s['sets'], wt))
    # local strain-stress paths
    saved = getattr(I, 'saved', [])
    ctx.ob('local-paths-saved-once', w, len(saved) == 1, len(saved))
    for smp in saved[:1]:
        smp = list(I.iterate(smp))
        ctx.ob('one-local-path-per-gauss-point', w, len(smp) == len(loc) * ng, len(smp))
        want = [(e, g) for e in loc for g in range(1, ng + 1)]
        ref = {k: (kin[k][0], sig[k]) for k in want}
        left = list(want)
        for p in smp:
            v = [ex(p.get('strain_path')), ex(p.get('stress_path'))]
            from ..check import equal_vals
            hit = next((k for k in left if equal_vals(v, [ref[k][0], ref[k][1]])[0]), None)
            ctx.ob('local-path-is-strain-and-stress-of-one-point', w, hit is not None, '')
            if hit:
                left.remove(hit)
            for o in ('strain_comps_order', 'stress_comps_order'):
                ctx.ob('local-path-component-order', w, tuple(I.iterate(p.get(o))) == comps, '')
            ctx.same('local-path-times', w, ex(p.get('time_hist')), [[S(f'time{t}')] for t in range(nt)])


def elastic(ctx, n, mode):
    """Real elastic material: strains accumulate over the history."""
    nt = 3
    I = ctx.interp()
    w = f'{MD}:MaterialModelFinder {mode} {n} elastic'
    s, d, nn, et, sd, types, U, R = data(I, n, nt, zero_start=True)
    ng, kin = kinematics(I, s, d, et, U, nt)
    ms = I.call(I.get(SS, 'StructureMaterialState'), ['infinitesimal', s['pt'], len(s['conn'])], {})
    ms.touch()
    ms.attrs['_material_models'] = PyDict([])
    E, v = S('E', True), q(1, 4)
    par = PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(E)), ('v', Num(v))])
    call(I, ms, 'init_elements_model', 'elastic', par, PyList(sorted(s['conn'])), types)
    f = finder(I)
    wt = [S(f'w{t}') for t in range(nt)]
    sc = S('scale')
    r = ctx.run('specimen-data-accepted', w, lambda: (call(I, f, 'set_specimen_data', sd, ms, loss_scaling_factor=Num(sc),
                loss_time_weights=tlib.new(wt, (nt,), 'float32', 'torch')), 1)[1])
    if r is None:
        return
    loss = ctx.run('loss', w, lambda: call(I, f, 'forward', sequential_mode=mode))
    if loss is None:
        return
    lam, G = E * v / ((C(1) + v) * (C(1) - C(2) * v)), E / (C(2) * (C(1) + v))
    comps = COMPS[s['pt']]
    sig = {}
    for k, (st, _) in kin.items():
        sig[k] = [[(C(2) * G * e + (lam * sum((x for x, cc in zip(r, comps) if cc[0] == cc[1]), Z) if c[0] == c[1] else Z))
                   for e, c in zip(r, comps)] for r in st]
    F = forces(s, d, nn, nt, kin, sig)
    ctx.same('loss-is-weighted-squared-force-residual', w, to_expr(loss), sc * pointwise(F, R, s['sets'], wt))
    # default weights are one
    I2 = ctx.interp()
    s, d, nn, et, sd, types, U, R = data(I2, n, 1)
    ms = I2.call(I2.get(SS, 'StructureMaterialState'), ['infinitesimal', s['pt'], len(s['conn'])], {})
    ms.touch()
    ms.attrs['_material_models'] = PyDict([])
    call(I2, ms, 'init_elements_model', 'elastic', par, PyList(sorted(s['conn'])), types)
    f = finder(I2)
    call(I2, f, 'set_specimen_data', sd, ms)
    loss = ctx.run('loss', w, lambda: call(I2, f, 'forward', sequential_mode=mode))
    if loss is not None:
        zero = [[[Z]] * d for _ in range(nn)]
        ctx.same('default-weights-are-one', w, to_expr(loss), pointwise(zero, R, s['sets'], [C(1)]))


def hist(name, nn, d, nt):
    v = [[[S(f'{name}{i + 1}{j + 1}t{t}') for t in range(nt)] for j in range(d)] for i in range(nn)]
    return v, tlib.new([x for r in v for c in r for x in c], (nn, d, nt), 'float32', 'torch')


LABELS = {'two sets': [[0, 2], [1, 0], [1, 2], [0, 0]], 'sparse labels': [[0, 7], [3, 0], [3, 7], [0, 9]],
          'one set': [[0, 0], [1, 0], [1, 0], [1, 0]]}


def setloss(F, Ex, R, lab, t):
    nd, sets = Z, {}
    for i in range(len(F)):
        for j in range(len(F[0])):
            if lab[i][j] == 0:
                r = F[i][j][t] - Ex[i][j][t]
                nd = nd + r * r
            else:
                sets[lab[i][j]] = sets.get(lab[i][j], Z) + F[i][j][t] - Ex[i][j][t] - R[i][j][t]
    db = Z
    for v in sets.values():
        db = db + v * v
    return nd, db


def lab_hist(lab, nt):
    return tlib.new([C(x) for r in lab for x in r for _ in range(nt)], (len(lab), len(lab[0]), nt), 'float32', 'torch')


def with_data(I, f, lab, nt, wt, sc, **kw):
    """Finder with specimen data of a 4-node mesh carrying the labels."""
    et = I.call(I.get(ET + 'quad4', 'FEQuad4'), [], {})
    sd = I.call(I.get(SD, 'SpecimenNumericalData'), [], {})
    call(I, sd, 'set_specimen_mesh', const_t([[0, 0], [2, 0], [2, 1], [0, 1]]), PyDict([('1', et)]), PyDict([('1', (1, 2, 3, 4))]),
         const_t([[1 if x else 0 for x in r] for r in lab]))
    z = lambda n: hist(n, 4, 2, nt)[1]
    call(I, sd, 'set_specimen_data', z('uu'), z('rr'), lab_hist(lab, nt), vec('tt', nt))
    ms = fake(I, 'State', get_material_models=lambda I, a, k: PyDict([]))
    call(I, f, 'set_specimen_data', sd, ms, loss_scaling_factor=None if sc is None else Num(sc),
         loss_time_weights=tlib.new(wt, (nt,), 'float32', 'torch'), **kw)


def losses(ctx):
    nn, d, nt = 4, 2, 3
    for typ in ('pointwise', 'dirichlet_sets'):
        for ln, lab in LABELS.items():
            if typ == 'pointwise':
                lab = [[1 if x else 0 for x in r] for r in lab]
            for sc in (None, S('scale')):
                I = ctx.interp()
                w = f'{MD}:MaterialModelFinder {typ} {ln}' + (' scaled' if sc is not None else '')
                f = finder(I, force_equilibrium_loss_type=typ)
                wt = [S(f'w{t}') for t in range(nt)]
                if ctx.run('specimen-data-accepted', w, lambda: (with_data(I, f, lab, nt, wt, sc), 1)[1]) is None:
                    continue
                (F, Ft), (E, Et), (R, Rt) = hist('f', nn, d, nt), hist('e', nn, d, nt), hist('r', nn, d, nt)
                L = lab_hist(lab, nt)
                parts = []
                for t in range(nt):
                    if typ == 'pointwise':
                        tot = Z
                        for i in range(nn):
                            for j in range(d):
                                r = F[i][j][t] - E[i][j][t] - (R[i][j][t] if lab[i][j] == 1 else Z)
                                tot = tot + r * r
                        parts.append((tot,))
                    else:
                        a, b = setloss(F, E, R, lab, t)
                        parts.append((a + b, a, b))
                tot = sum((wt[t] * parts[t][0] for t in range(nt)), Z)
                r = ctx.run('loss', w, lambda: call(I, f, 'vforce_equilibrium_hist_loss', Ft, Et, Rt, L))
                if r is not None:
                    ctx.same('history-loss-is-weighted-sum-over-time', w, to_expr(r), tot)
                s_ = C(1) if sc is None else sc
                r = ctx.run('loss-components', w, lambda: call(I, f, 'force_equilibrium_loss_components_hist', Ft, Et, Rt, L))
                if r is not None:
                    ctx.same('components-are-weighted-scaled-loss-parts', w, ex(r),
                             [[s_ * wt[t] * parts[t][k] for t in range(nt)] for k in range(len(parts[0]))])
                if typ == 'dirichlet_sets':
                    r = ctx.run('set-reactions', w, lambda: call(I, f, 'compute_dirichlet_sets_reaction_hist', Ft, Et, L))
                    if r is not None:
                        labs = sorted({x for row in lab for x in row})
                        ref = [[[sum((F[i][j][t] - E[i][j][t] for i in range(nn) for j in range(d) if lab[i][j] == k), Z) for t in range(nt)]]
                               for k in labs]
                        ctx.same('set-reaction-is-sum-of-its-forces', w, ex(r), ref)
                else:
                    for t in range(nt):
                        sl = lambda T: I.getitem(T, (SliceV(None, None, None), SliceV(None, None, None), t))
                        r = ctx.run('loss', w, lambda: call(I, f, 'force_equilibrium_loss', sl(Ft), sl(Et), sl(Rt), sl(L)))
                        if r is not None:
                            ctx.same('loop-based-loss-agrees', f'{w}', to_expr(r), parts[t][0])
                ctx.ob('forces-unchanged', w, ex(Ft) == F and ex(Et) == E and ex(Rt) == R, '')


def losses_norm(ctx):
    """Symmetric force bounds: the loss is that of the scaled forces."""
    nn, d, nt = 4, 2, 3
    b = [S('b1', True), S('b2', True)]
    for typ in ('pointwise', 'dirichlet_sets'):
        lab = LABELS['two sets']
        if typ == 'pointwise':
            lab = [[1 if x else 0 for x in r] for r in lab]
        I = ctx.interp()
        w = f'{MD}:MaterialModelFinder {typ} normalised forces'
        f = finder(I, force_equilibrium_loss_type=typ, is_force_normalization=True)
        wt = [S(f'w{t}') for t in range(nt)]
        kw = dict(force_minimum=tlib.new([-b[0], -b[1]], (2,), 'float32', 'torch'), force_maximum=tlib.new(b, (2,), 'float32', 'torch'))
        if ctx.run('specimen-data-accepted', w, lambda: (with_data(I, f, lab, nt, wt, None, **kw), 1)[1]) is None:
            continue
        (F, Ft), (E, Et), (R, Rt) = hist('f', nn, d, nt), hist('e', nn, d, nt), hist('r', nn, d, nt)
        sc = lambda a: [[[x / b[j] for x in c] for j, c in enumerate(r)] for r in a]
        F, E, R = sc(F), sc(E), sc(R)
        L = lab_hist(lab, nt)
        parts = []
        for t in range(nt):
            if typ == 'pointwise':
                tot = Z
                for i in range(nn):
                    for j in range(d):
                        r = F[i][j][t] - E[i][j][t] - (R[i][j][t] if lab[i][j] == 1 else Z)
                        tot = tot + r * r
                parts.append((tot,))
            else:
                a, c = setloss(F, E, R, lab, t)
                parts.append((a + c, a, c))
        r = ctx.run('loss', w, lambda: call(I, f, 'vforce_equilibrium_hist_loss', Ft, Et, Rt, L))
        if r is not None:
            ctx.same('history-loss-of-normalised-forces', w, to_expr(r), sum((wt[t] * parts[t][0] for t in range(nt)), Z))
        r = ctx.run('loss-components', w, lambda: call(I, f, 'force_equilibrium_loss_components_hist', Ft, Et, Rt, L))
        if r is not None:
            ctx.same('components-of-normalised-forces', w, ex(r), [[wt[t] * parts[t][k] for t in range(nt)] for k in range(len(parts[0]))])
        if typ == 'pointwise':
            sl = lambda T: I.getitem(T, (SliceV(None, None, None), SliceV(None, None, None), 1))
            r = ctx.run('loss', w, lambda: call(I, f, 'force_equilibrium_loss', sl(Ft), sl(Et), sl(Rt), sl(L)))
            if r is not None:
                ctx.same('loop-based-loss-agrees', w, to_expr(r), parts[1][0])
    I = ctx.interp()
    f = finder(I, is_force_normalization=True)
    refuse(ctx, 'normalisation-without-bounds-is-refused', f'{MD}:MaterialModelFinder.set_specimen_data',
           lambda: with_data(I, f, [[1, 0]] * 4, 2, [S('a'), S('b')], None))


def refuse(ctx, rule, w, f):
    ctx.refuse(rule, w, f)


def refusals(ctx):
    w = f'{MD}:MaterialModelFinder'
    I = ctx.interp()
    refuse(ctx, 'unknown-loss-type-is-refused', w, lambda: finder(I, force_equilibrium_loss_type='average'))
    I = ctx.interp()
    f = finder(I)
    call_set = lambda wt, lab=[[1, 0]] * 4: with_data(I, f, lab, 3, wt, None)
    call_set([S('a'), S('b'), S('c')])
    refuse(ctx, 'unknown-mode-is-refused', f'{w}.forward', lambda: call(I, f, 'forward', sequential_mode='sequential'))
    for typ, lab in (('pointwise', [[2, 0]] * 4), ('pointwise', [[1, 0], [0, 0], [-1, 0], [0, 0]]),
                     ('dirichlet_sets', [[1, 0], [0, 1], [0, 0], [0, 0]]), ('dirichlet_sets', [[-1, 0]] * 4),
                     ('dirichlet_sets', [[1, 2], [1, 2], [1, 0], [2, 2]])):
        I = ctx.interp()
        f = finder(I, force_equilibrium_loss_type=typ)
        refuse(ctx, 'labels-inconsistent-with-loss-type-are-refused', f'{w}.set_specimen_data {typ} {lab}',
               lambda: with_data(I, f, lab, 2, [S('a'), S('b')], None))
    for nw in (2, 4):
        I = ctx.interp()
        f = finder(I)

        def go():
            et = I.call(I.get(ET + 'quad4', 'FEQuad4'), [], {})
            with_data(I, f, [[1, 0]] * 4, 3, [S('a'), S('b'), S('c')], None)
            sd = f.attrs['_specimen_data']
            call(I, f, 'set_specimen_data', sd, fake(I, 'State', get_material_models=lambda I, a, k: PyDict([])), loss_time_weights=vec('w', nw))
        refuse(ctx, 'weights-of-wrong-length-are-refused', f'{w}.set_specimen_data {nw}', go)
    # vectorised mode needs one element type and one material
    # (weights as a matrix)
    I = ctx.interp()
    f = finder(I)

    def go2():
        with_data(I, f, [[1, 0]] * 4, 3, [S('a'), S('b'), S('c')], None)
        call(I, f, 'set_specimen_data', f.attrs['_specimen_data'], fake(I, 'State', get_material_models=lambda I, a, k: PyDict([])),
             loss_time_weights=mat('w', 3, 1))
    refuse(ctx, 'weights-of-wrong-length-are-refused', f'{w}.set_specimen_data matrix', go2)


def specimen(ctx):
    w = f'{SD}:SpecimenNumericalData'
    n, nt = 'quad4 plane strain', 3
    for upd in (False, True):
        I = ctx.interp()
        s, d, nn, et, sd, types, U, R = data(I, n, nt)
        X = [[C(x) for x in r] for r in s['X']]
        r = ctx.run('batched-history', w, lambda: call(I, sd, 'get_batched_mesh_configuration_hist', is_update_coords=upd))
        if r is not None:
            a, b = I.iterate(r)
            es = sorted(s['conn'])
            ctx.same('batched-displacements-follow-connectivity', f'{w} {upd}', ex(b), [[U[k - 1] for k in s['conn'][e]] for e in es])
            ctx.same('batched-coordinates', f'{w} update {upd}', ex(a), [[[[X[k - 1][j] + (U[k - 1][j][t] if upd else Z) for t in range(nt)]
                     for j in range(d)] for k in s['conn'][e]] for e in es])
        for t in (1, 0, 2, 1):
            if ctx.run('configuration-update', w, lambda: (call(I, sd, 'update_specimen_mesh_configuration', t, is_update_coords=upd), 1)[1]) is None:
                continue
            m = sd.attrs['specimen_mesh']
            for time, k in (('current', t), ('last', max(0, t - 1))):
                c, u = I.iterate(call(I, m, 'get_mesh_configuration', time=time))
                ctx.same('mesh-configuration-of-time-step', f'{w} step {t} {time} update {upd}', [ex(u), ex(c)],
                         [[[U[i][j][k] for j in range(d)] for i in range(nn)],
                          [[X[i][j] + (U[i][j][k] if upd else Z) for j in range(d)] for i in range(nn)]])
        for t in (-1, nt):
            refuse(ctx, 'time-outside-history-is-refused', f'{w}.update_specimen_mesh_configuration {t}',
                   lambda: call(I, sd, 'update_specimen_mesh_configuration', t))
    base = dict(u=(6, 2, 3), r=(6, 2, 3), b=(6, 2, 3), t=(3,))
    bad = [('u', (5, 2, 3)), ('r', (7, 2, 3)), ('b', (5, 2, 3)), ('u', (6, 3, 3)), ('r', (6, 1, 3)), ('b', (6, 3, 3)), ('u', (6, 2, 2)),
           ('r', (6, 2, 4)), ('b', (6, 2, 2)), ('t', (2,)), ('u', (6, 2)), ('r', (12, 3)), ('b', (6, 2))]
    for k, sh in bad:
        I = ctx.interp()
        sd = data(I, n, nt)[4]
        sz = dict(base, **{k: sh})
        refuse(ctx, 'inconsistent-history-is-refused', f'{w}.set_specimen_data {k} {sh}', lambda: call(
            I, sd, 'set_specimen_data', tens('u', sz['u']), tens('r', sz['r']), tens('b', sz['b']), tens('t', sz['t'])))
    I = ctx.interp()
    sd = I.call(I.get(SD, 'SpecimenNumericalData'), [], {})
    refuse(ctx, 'data-before-mesh-is-refused', f'{w}.set_specimen_data', lambda: call(
        I, sd, 'set_specimen_data', *[tens(k, base[k]) for k in 'urbt']))


def comps(ctx):
    I = ctx.interp()
    f = I.get(MD, 'MaterialModelFinder')
    w = f'{MD}:MaterialModelFinder'
    for pt, d in ((1, 2), (4, 3)):
        for cs in (COMPS[pt], tuple(reversed(COMPS[pt])), tuple(c[::-1] for c in COMPS[pt])):
            a = vec('a', len(cs))
            av = ex(a)
            T = mat('T', d, d)
            tv = ex(T)
            t = ctx.run('components', w, lambda: call(I, f, 'vbuild_tensor_from_comps', d, cs, a))
            ref = [[None] * d for _ in range(d)]
            for k, c in enumerate(cs):
                i, j = int(c[0]) - 1, int(c[1]) - 1
                ref[i][j] = ref[j][i] = av[k]
            if t is not None:
                ctx.same('tensor-from-components', f'{w}.vbuild_tensor_from_comps {cs}', ex(t), ref)
            t = ctx.run('components', w, lambda: call(I, f, 'build_tensor_from_comps', d, cs, a, is_symmetric=True))
            if t is not None:
                ctx.same('tensor-from-components', f'{w}.build_tensor_from_comps {cs}', ex(t), ref)
            for m in ('store_tensor_comps', 'vstore_tensor_comps'):
                t = ctx.run('components', w, lambda: call(I, f, m, cs, T))
                if t is not None:
                    ctx.same('components-from-tensor', f'{w}.{m} {cs}', ex(t), [tv[int(c[0]) - 1][int(c[1]) - 1] for c in cs])
        ns = tuple(f'{i}{j}' for i, j in itertools.product(range(1, d + 1), repeat=2))
        a = vec('a', len(ns))
        av = ex(a)
        t = ctx.run('components', w, lambda: call(I, f, 'build_tensor_from_comps', d, ns, a, is_symmetric=False))
        if t is not None:
            ctx.same('tensor-from-components', f'{w}.build_tensor_from_comps {ns}', ex(t), [[av[i * d + j] for j in range(d)] for i in range(d)])


def vbar(ctx):
    """Volumetric / deviatoric split of the gradient operators used by the
    volumetric-average formulation."""
    for pt, d, na in ((1, 2, 4), (4, 3, 4)):
        I = ctx.interp()
        f = finder(I)
        w = f'{MD}:MaterialModelFinder {d}D'
        cs = COMPS[pt]
        dn = mat('N', na, d)
        B = I.call(I.get(GR, 'vbuild_discrete_sym_gradient'), [dn, cs], {})
        b = ex(B)
        V = ctx.run('volumetric-operator', w, lambda: call(I, f, 'vcompute_local_vol_sym_gradient', B, d))
        D = ctx.run('deviatoric-operator', w, lambda: call(I, f, 'vcompute_local_dev_sym_gradient', B, d))
        tr = [sum((b[k][a] for k, c in enumerate(cs) if c[0] == c[1]), Z) for a in range(na * d)]
        vol = [[(tr[a] / C(3) if c[0] == c[1] else Z) for a in range(na * d)] for c in cs]
        if V is not None:
            ctx.same('volumetric-part-is-a-third-of-the-trace', w, ex(V), vol)
        if D is not None:
            ctx.same('deviatoric-part-is-the-rest', w, ex(D), [[x - y for x, y in zip(r, s)] for r, s in zip(b, vol)])


def nans(ctx):
    """A failed material update (NaN stress) never reaches the loss silently,
    whatever the element, degree of freedom and time it affects."""
    I = ctx.interp()
    w = f'{MD}:MaterialModelFinder.vcompute_elements_internal_forces_hist'
    f = finder(I)
    for bad in (None, (0, 0), (0, 1), (0, 15), (1, 0), (1, 1), (1, 5), (1, 15)):
        n = [0]

        def stub(I, a, k):
            v = [S(f'f{i}') for i in range(8 * 2)]
            if bad is not None and n[0] == bad[0]:
                v[bad[1]] = alg.NAN
            n[0] += 1
            return (tlib.new(v, (8, 2), 'float32', 'torch'), tens('st', (4, 2, 6)))
        I.stubs['MaterialModelFinder.vcompute_element_internal_forces_hist'] = stub
        go = lambda: call(I, f, 'vcompute_elements_internal_forces_hist', 'infinitesimal', 1, None, None, tens('X', (2, 4, 2, 2)),
                          tens('U', (2, 4, 2, 2)), vec('t', 2))
        if bad:
            refuse(ctx, 'nan-forces-are-reported', f'{w} element {bad[0]} dof {bad[1] // 2} time {bad[1] % 2}', go)
        else:
            ctx.run('finite-forces-are-accepted', w, go)
            ctx.ob('finite-forces-are-accepted', w, True, '')
            if n[0] != 2:
                ctx.ob('one-evaluation-per-element', w, None, n[0])
                return


def successive(ctx, mode):
    """The loss is that of the specimen set last, evaluated as often as wanted."""
    n, nt = 'tetra4 3D', 2
    w = f'{MD}:MaterialModelFinder {mode} successive specimens'

    def setup(I):
        def model(I, a, k):
            return tlib.new([C(3) * x if i % 5 else x + C(i) for i, x in enumerate(tlib.E(v) for v in a[0].vals())], a[0].shape, a[0].dtype, 'torch')
        st = fake(I, 'StandInModel', base=('model_architectures.rc_base_model.model.recurrent_model', 'RecurrentConstitutiveModel'))
        st.attrs['@call'] = model
        for k in ('forward', '__call__', 'sync_material_model_parameters'):
            st.attrs[k] = Native(model if k != 'sync_material_model_parameters' else (lambda I, a, k: None), k)
        I.stubs['RecurrentConstitutiveModel'] = lambda I, a, k: st

    def put(I, f, px):
        s, d, nn, et, sd, types, U, R = data(I, n, nt, px=px)
        ms = I.call(I.get(SS, 'StructureMaterialState'), ['infinitesimal', s['pt'], len(s['conn'])], {})
        kw = PyDict([(k, None) for k in ('n_features_in', 'n_features_out', 'learnable_parameters', 'material_model_name', 'state_features_out',
                                         'is_auto_sync_parameters', 'is_check_su_fail', 'model_directory', 'is_normalized_parameters',
                                         'is_model_in_normalized', 'is_model_out_normalized', 'device_type')])
        call(I, ms, 'init_elements_model', 'rc_standin', PyDict([]), PyList(sorted(s['conn'])), types, kw)
        call(I, f, 'set_specimen_data', sd, ms, loss_scaling_factor=Num(S(px + 'sc')),
             loss_time_weights=tlib.new([S(f'{px}w{t}') for t in range(nt)], (nt,), 'float32', 'torch'))
        return to_expr(call(I, f, 'forward', sequential_mode=mode))

    def fresh(px):
        I = ctx.interp()
        setup(I)
        return put(I, finder(I), px)
    ra = ctx.run('loss', w, lambda: fresh('A'))
    rb = ctx.run('loss', w, lambda: fresh('B'))

    def both():
        I = ctx.interp()
        setup(I)
        f = finder(I)
        a = put(I, f, 'A')
        a2 = to_expr(call(I, f, 'forward', sequential_mode=mode))
        b = put(I, f, 'B')
        b2 = to_expr(call(I, f, 'forward', sequential_mode=mode))
        return a, a2, b, b2
    r = ctx.run('loss', w, both)
    if r is None or ra is None or rb is None:
        return
    ctx.same('loss-of-first-specimen', w, r[0], ra)
    ctx.same('loss-is-repeatable', f'{w} first', r[1], ra)
    ctx.same('loss-of-second-specimen', w, r[2], rb)
    ctx.same('loss-is-repeatable', f'{w} second', r[3], rb)
