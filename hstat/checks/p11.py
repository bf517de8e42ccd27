"""P11 - mesh and structure state.  The mesh container is evaluated on meshes with
unrestricted node coordinates, nodal fields and element arrays (shared nodes,
permuted connectivities, more than nine elements).  Decided: assembly adds every
element entry to the degree of freedom of its node and nothing else, extraction
reads the same degrees of freedom (the two are adjoint), the batched index map
addresses them in numeric element order, current = initial + displacement for the
time that was updated and only for it, and everything handed out or taken in is a
copy.  The material state container is evaluated for aliasing between elements,
Gauss points and times."""
from .. import alg
from ..common import *

FLOOR = 60
MM = 'simulators.fetorch.structure.structure_mesh'
SS = 'simulators.fetorch.structure.structure_state'
ET = 'simulators.fetorch.element.type.'
Z = alg.ZERO
C = alg.const
MESHES = {
    'quad4': (2, 'quad4', 'FEQuad4', 6, {1: (1, 2, 5, 4), 2: (3, 6, 5, 2)}),
    'tri3 x 11': (2, 'tri3', 'FETri3', 7, {e: t for e, t in enumerate(
        [(1, 2, 3), (2, 4, 3), (4, 5, 3), (5, 6, 4), (6, 7, 5), (7, 1, 6), (2, 7, 4), (1, 3, 5), (3, 6, 2), (4, 7, 1), (5, 2, 6)], 1)}),
    'hexa8': (3, 'hexa8', 'FEHexa8', 12, {1: (1, 2, 3, 4, 5, 6, 7, 8), 2: (5, 6, 7, 8, 12, 11, 10, 9)}),
    'tetra4': (3, 'tetra4', 'FETetra4', 5, {1: (1, 2, 3, 4), 2: (5, 3, 2, 4)}),
}


def groups(tier):
    return [(n, lambda ctx, n=n: mesh(ctx, n)) for n in MESHES] + [('material state', material), ('rejects', rejects),
            ('repeated updates', repeated), ('counts', counts), ('material models', models), ('large mesh', large), ('element connectivities', conn_len)]


def build(ctx, I, name, w):
    d, mod, cls, n, conn = MESHES[name]
    keys = sorted(conn, key=str)        # insertion order differs from numeric order
    et = I.call(I.get(ET + mod, cls), [], {})
    X = tens('X', (n, d))
    db = tens('b', (n, d))
    m = ctx.run('construction', w, lambda: I.call(I.get(MM, 'StructureMesh'), [
        X, PyDict([(str(k), et) for k in keys]), PyDict([(str(k), tuple(conn[k])) for k in keys]), db], {}))
    return d, n, conn, X, m


def call(I, o, f, *a, **k):
    return I.call(I.getattr(o, f), list(a), k)


def dirty(I, t):
    """Overwrite every entry of a tensor handed out by the code."""
    for _ in range(1):
        I.setitem(t, SliceV(None, None, None), Num(C(987654321)))


def mesh(ctx, name):
    I = ctx.interp()
    w = f'{MM}:StructureMesh {name}'
    d, n, conn, X, m = build(ctx, I, name, w)
    if m is None:
        return
    x = ex(X)
    # ---------------------------------------------------------- configurations
    conf = lambda time: call(I, m, 'get_mesh_configuration', time=time)

    def check(tag, init, cur, last):
        for time, (c, u) in (('init', init), ('current', cur), ('last', last)):
            r = ctx.run('configuration', f'{w} {tag} {time}', lambda: conf(time))
            if r is None:
                continue
            a, b = I.iterate(r)
            ctx.same('configuration-is-initial-plus-displacement', f'{w} {tag} {time}', ex(a), c)
            ctx.same('displacement-of-requested-time', f'{w} {tag} {time}', ex(b), u)
            for e, nodes in conn.items():
                q = ctx.run('element-configuration', f'{w} {tag} {time}', lambda: call(I, m, 'get_element_configuration', e, time=time))
                if q is None:
                    continue
                a2, b2 = I.iterate(q)
                ctx.same('element-configuration-follows-connectivity', f'{w} {tag} {time} element {e}',
                         [ex(a2), ex(b2)], [[c[k - 1] for k in nodes], [u[k - 1] for k in nodes]])
            dirty(I, a)
            dirty(I, b)
            a, b = I.iterate(conf(time))
            ctx.same('configuration-is-a-copy', f'{w} {tag} {time}', [ex(a), ex(b)], [c, u])
    zero = [[Z] * d for _ in range(n)]
    check('initially', (x, zero), (x, zero), (x, zero))
    U = tens('U', (n, d))
    u = ex(U)
    add = lambda a, b: [[p + q for p, q in zip(r, s)] for r, s in zip(a, b)]
    ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', U, time='current'))
    dirty(I, U)
    check('after current update', (x, zero), (add(x, u), u), (x, zero))
    V = tens('V', (n, d))
    v = ex(V)
    ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', V, time='last'))
    dirty(I, V)
    check('after last update', (x, zero), (add(x, u), u), (add(x, v), v))
    W = tens('W', (n, d))
    wv = ex(W)
    ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', W, time='current', is_update_coords=False))
    check('after displacement-only update', (x, zero), (add(x, u), wv), (add(x, v), v))
    Y = tens('Y', (n, d))
    yv = ex(Y)
    ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', Y, time='last', is_update_coords=False))
    check('after displacement-only last update', (x, zero), (add(x, u), wv), (add(x, v), yv))
    ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', W))
    check('after default update', (x, zero), (add(x, wv), wv), (add(x, v), yv))
    # ----------------------------------------------------- assembly/extraction
    for q in (d, 1, d + 1):
        w2 = f'{w} {q} per node'
        ea = {e: vec(f'a{e}_', len(nodes) * q) for e, nodes in conn.items()}
        order = sorted(conn, key=str)
        r = ctx.run('assembly', w2, lambda: call(I, m, 'element_assembler', PyDict([(str(e), ea[e]) for e in order])))
        if r is not None:
            ref = [Z] * (n * q)
            for e, nodes in conn.items():
                av = ex(ea[e])
                for i, k in enumerate(nodes):
                    for j in range(q):
                        ref[(k - 1) * q + j] = ref[(k - 1) * q + j] + av[i * q + j]
            ctx.same('assembly-adds-element-entries-to-their-nodes', w2, ex(r), ref)
            ctx.ob('assembly-keeps-element-arrays', w2, all(ea[e].vals() == vec(f'a{e}_', len(nodes) * q).vals() for e, nodes in conn.items()), '')
        f = vec('f', n * q)
        fv = ex(f)
        idx = ctx.run('batched-indexing', w2, lambda: call(I, m, 'build_elements_mesh_indexing', q))
        iv = ex(idx) if idx is not None else None
        if iv is not None:
            ctx.ob('batched-indexing-shape', w2, len(iv) == len(conn), len(iv))
        for e, nodes in conn.items():
            ref = [(k - 1) * q + j for k in nodes for j in range(q)]
            r = ctx.run('extraction', w2, lambda: call(I, m, 'element_extractor', f, e))
            if r is not None:
                ctx.same('extraction-reads-the-degrees-of-freedom-of-the-nodes', f'{w2} element {e}', ex(r), [fv[i] for i in ref])
                dirty(I, r)
                ctx.ob('extraction-is-a-copy', f'{w2} element {e}', ex(f) == fv, '')
            if iv is not None and len(iv) == len(conn):
                ctx.same('batched-indexing-addresses-the-same-degrees-of-freedom', f'{w2} element {e}', iv[e - 1], [C(i) for i in ref])
    t = ctx.run('connectivity-table', w, lambda: call(I, m, 'get_connectivities_tensor'))
    if t is not None:
        ctx.same('connectivity-table-in-element-order', w, ex(t), [[C(k) for k in conn[e]] for e in sorted(conn)])
    g = call(I, m, 'get_connectivities')
    if isinstance(g, PyDict):
        g.set('1', ())
        g = call(I, m, 'get_connectivities')
        ctx.ob('connectivities-handed-out-as-copy', w, isinstance(g, PyDict) and {str(k): tuple(I.iterate(x)) for k, x in g.d.values()} ==
               {str(k): tuple(x) for k, x in conn.items()}, '')
    b = call(I, m, 'get_dirichlet_bool_mesh')
    bv = ex(b)
    dirty(I, b)
    ctx.same('boundary-conditions-handed-out-as-copy', w, ex(call(I, m, 'get_dirichlet_bool_mesh')), bv)
    ctx.same('mesh-size', w, [to_expr(call(I, m, k)) for k in ('get_n_dim', 'get_n_node_mesh', 'get_n_elem')], [C(d), C(n), C(len(conn))])


def rejects(ctx):
    """Inconsistent meshes and unknown times are refused."""
    d, mod, cls, n, conn = MESHES['quad4']
    cases = {
        'connectivity length': lambda et: (tens('X', (n, d)), {'1': et, '2': et}, {'1': (1, 2, 5), '2': (3, 6, 5, 2)}),
        'missing connectivity': lambda et: (tens('X', (n, d)), {'1': et, '2': et}, {'1': (1, 2, 5, 4)}),
        'element labels': lambda et: (tens('X', (n, d)), {'1': et, '3': et}, {'1': (1, 2, 5, 4), '3': (3, 6, 5, 2)}),
        'element type': lambda et: (tens('X', (n, d)), {'1': et, '2': 'quad4'}, {'1': (1, 2, 5, 4), '2': (3, 6, 5, 2)}),
        'coordinates': lambda et: (tens('X', (n * d,)), {'1': et, '2': et}, {'1': (1, 2, 5, 4), '2': (3, 6, 5, 2)}),
    }
    for k, f in cases.items():
        I = ctx.interp()
        et = I.call(I.get(ET + mod, cls), [], {})
        a, b, c = f(et)
        try:
            I.call(I.get(MM, 'StructureMesh'), [a, PyDict(b.items()), PyDict(c.items()), tens('b', (n, d))], {})
            ctx.ob('inconsistent-mesh-is-refused', f'{MM}:StructureMesh {k}', False, 'accepted')
        except AbsRaise as e:
            ctx.ob('inconsistent-mesh-is-refused', f'{MM}:StructureMesh {k}', True, e)
    for f, a in (('get_mesh_configuration', ()), ('get_element_configuration', (1,)), ('update_mesh_configuration', (tens('U', (n, d)),))):
        I = ctx.interp()
        m = build(ctx, I, 'quad4', f'{MM}:StructureMesh')[-1]
        try:
            call(I, m, f, *a, time='next')
            ctx.ob('unknown-time-is-refused', f'{MM}:StructureMesh.{f}', False, 'accepted')
        except AbsRaise as e:
            ctx.ob('unknown-time-is-refused', f'{MM}:StructureMesh.{f}', True, e)


def material(ctx):
    I = ctx.interp()
    w = f'{SS}:StructureMaterialState'
    s = ctx.run('construction', w, lambda: I.call(I.get(SS, 'StructureMaterialState'), ['infinitesimal', 4, 3], {}))
    if s is None:
        return
    s.touch()
    s.attrs['_material_models'] = PyDict([])        # plain container: models of the analysis are not modules
    et = I.call(I.get(ET + 'tetra4', 'FETetra4'), [], {'n_gauss': 4})
    par = PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(S('E', True))), ('v', Num(S('v')))])
    r = ctx.run('model-initialisation', w, lambda: (call(
        I, s, 'init_elements_model', 'elastic', par, (1, 3), PyDict([(str(k), et) for k in (1, 2, 3)])), 1)[1])
    if r is None:
        return
    T = lambda n: tlib.new([S(n)], (), 'float32', 'torch')
    fresh = lambda n: PyDict([(str(g), PyDict([('q', T(f'{n}{g}'))])) for g in (1, 2)])
    val = lambda st: [to_expr(st.get(str(g)).get('q')) for g in (1, 2)]
    ref = lambda n: [S(f'{n}{g}') for g in (1, 2)]
    get = lambda e, t, **k: call(I, s, 'get_element_state', e, time=t, **k)
    # independent initial states
    a = get(1, 'current', is_copy=False)
    ok = isinstance(a, PyDict) and len(a.d) == 4
    ctx.ob('one-state-per-gauss-point', w, ok, '')
    if ok:
        a.get('1').set('stress_mf', vec('dirty', 6))
        for e, t in ((1, 'current'), (1, 'last'), (3, 'current'), (3, 'last')):
            b = get(e, t)
            pts = [p for p, _ in b.d.values() if not (e == 1 and t == 'current' and p == '1')]
            ctx.ob('initial-states-are-independent', f'{w} element {e} {t}',
                   all(x == Z for p in pts for x in b.get(p).get('stress_mf').vals()), '')
    # copies in and out, time separation
    for t, o in (('current', 'last'), ('last', 'current')):
        a, b = fresh('a'), fresh('b')
        call(I, s, 'update_element_state', 2, a, time=t)
        call(I, s, 'update_element_state', 2, b, time=o)
        a.get('1').set('q', T('dirty'))
        b.get('1').set('q', T('dirty'))
        ctx.same('state-taken-in-as-copy', f'{w} {t}', val(get(2, t)), ref('a'))
        ctx.same('times-are-separate', f'{w} {o}', val(get(2, o)), ref('b'))
        c = get(2, t)
        c.get('2').set('q', T('dirty'))
        ctx.same('state-handed-out-as-copy', f'{w} {t}', val(get(2, t)), ref('a'))
    call(I, s, 'update_element_state', 2, fresh('n'), time='current')
    call(I, s, 'update_element_state', 2, fresh('o'), time='last')
    call(I, s, 'update_converged_elements_state')
    ctx.same('converged-state-becomes-last', w, val(get(2, 'last')), ref('n'))
    ctx.same('converged-state-stays-current', w, val(get(2, 'current')), ref('n'))
    get(2, 'current', is_copy=False).get('1').set('q', T('dirty'))
    ctx.same('converged-state-is-a-copy', w, val(get(2, 'last')), ref('n'))
    for f, a in (('get_element_state', (2,)), ('update_element_state', (2, fresh('z')))):
        try:
            call(I, s, f, *a, time='next')
            ctx.ob('unknown-time-is-refused', f'{w}.{f}', False, 'accepted')
        except AbsRaise as e:
            ctx.ob('unknown-time-is-refused', f'{w}.{f}', True, e)


def repeated(ctx):
    """Configurations after several updates are the initial one plus the latest
    displacement, not an accumulation."""
    I = ctx.interp()
    w = f'{MM}:StructureMesh repeated updates'
    d, n, conn, X, m = build(ctx, I, 'quad4', w)
    if m is None:
        return
    x = ex(X)
    for k in range(3):
        for t in ('current', 'last'):
            U = tens(f'U{k}{t}', (n, d))
            u = ex(U)
            ctx.run('update', w, lambda: call(I, m, 'update_mesh_configuration', U, time=t))
            dirty(I, U)
            r = ctx.run('configuration', w, lambda: call(I, m, 'get_mesh_configuration', time=t))
            if r is not None:
                a, b = I.iterate(r)
                ctx.same('configuration-is-initial-plus-displacement', f'{w} {t} {k + 1}', [ex(a), ex(b)],
                         [[[p + q for p, q in zip(r1, r2)] for r1, r2 in zip(x, u)], u])
            r = ctx.run('configuration', w, lambda: call(I, m, 'get_mesh_configuration', time='init'))
            if r is not None:
                ctx.same('initial-configuration-never-changes', f'{w} {t} {k + 1}', ex(I.iterate(r)[0]), x)


def counts(ctx):
    """Number of constrained degrees of freedom and of element types; connectivities
    given as lists are handed out as copies, nodes without element keep their place."""
    I = ctx.interp()
    w = f'{MM}:StructureMesh'
    et = [I.call(I.get(ET + mod, cls), [], {}) for mod, cls in (('tri3', 'FETri3'), ('tri3', 'FETri3'), ('quad4', 'FEQuad4'))]
    n, d = 8, 2
    con = {'1': [1, 2, 3], '2': [2, 4, 3], '3': [3, 4, 6, 5]}
    bits = [1, 0, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 0, 1, 0, 0]
    db = tlib.new([C(b) for b in bits], (n, d), 'int32', 'torch')
    mk = lambda: PyDict([(k, PyList(list(v))) for k, v in con.items()])
    m = ctx.run('construction', w, lambda: I.call(I.get(MM, 'StructureMesh'), [
        tens('X', (n, d)), PyDict([(str(i + 1), e) for i, e in enumerate(et)]), mk(), db], {}))
    if m is None:
        return
    ctx.same('constrained-degrees-of-freedom', f'{w}.get_n_dirichlet_dof', [to_expr(call(I, m, 'get_n_dirichlet_dof'))], [C(sum(bits))])
    ctx.same('element-types', f'{w}.get_n_element_type', [to_expr(call(I, m, 'get_n_element_type'))], [C(2)])
    g = call(I, m, 'get_connectivities')
    q = g.get('3') if isinstance(g, PyDict) else None
    if isinstance(q, PyList):
        I.setitem(q, 0, 99)
        g = call(I, m, 'get_connectivities')
        ctx.ob('connectivities-handed-out-as-copy', f'{w}.get_connectivities', [I.as_int(v) for v in I.iterate(g.get('3'))] == con['3'], '')
    for q in (1, 2, 3):
        ea = {e: vec(f'a{e}_', len(v) * q) for e, v in con.items()}
        r = ctx.run('assembly', w, lambda: call(I, m, 'element_assembler', PyDict(list(ea.items()))))
        if r is None:
            continue
        ref = [Z] * (n * q)
        for e, nodes in con.items():
            for i, k in enumerate(nodes):
                for j in range(q):
                    ref[(k - 1) * q + j] = ref[(k - 1) * q + j] + ex(ea[e])[i * q + j]
        ok = r.shape == (n * q,)
        ctx.ob('assembly-covers-every-node', f'{w} {q} per node', ok, r.shape)
        if ok:
            ctx.same('assembly-adds-element-entries-to-their-nodes', f'{w} mixed elements, {q} per node', ex(r), ref)


def large(ctx):
    """A strip of 130 triangles given in textual order of the labels."""
    I = ctx.interp(unroll=2000)
    w = f'{MM}:StructureMesh 130 elements'
    ne, d = 130, 2
    n = ne + 2
    con = {e: (e, e + 1, e + 2) if e % 2 else (e + 2, e + 1, e) for e in range(1, ne + 1)}
    keys = sorted(con, key=str)
    et = I.call(I.get(ET + 'tri3', 'FETri3'), [], {})
    X = tlib.new([C(i * 7 % 31) for i in range(n * d)], (n, d), 'float32', 'torch')
    m = ctx.run('construction', w, lambda: I.call(I.get(MM, 'StructureMesh'), [
        X, PyDict([(str(k), et) for k in keys]), PyDict([(str(k), con[k]) for k in keys]),
        tlib.new([Z] * (n * d), (n, d), 'int32', 'torch')], {}))
    if m is None:
        return
    t = ctx.run('connectivity-table', w, lambda: call(I, m, 'get_connectivities_tensor'))
    if t is not None:
        ctx.same('connectivity-table-in-element-order', w, ex(t), [[C(k) for k in con[e]] for e in sorted(con)])
    idx = ctx.run('batched-indexing', w, lambda: call(I, m, 'build_elements_mesh_indexing', d))
    if idx is not None:
        ctx.same('batched-indexing-addresses-the-same-degrees-of-freedom', w, ex(idx),
                 [[C((k - 1) * d + j) for k in con[e] for j in range(d)] for e in sorted(con)])
    ea = {e: tlib.new([C((e * 13 + i * 5) % 97 + 1) for i in range(3 * d)], (3 * d,), 'float32', 'torch') for e in con}
    r = ctx.run('assembly', w, lambda: call(I, m, 'element_assembler', PyDict([(str(e), ea[e]) for e in keys])))
    if r is not None:
        ref = [Z] * (n * d)
        for e, nodes in con.items():
            for i, k in enumerate(nodes):
                for j in range(d):
                    ref[(k - 1) * d + j] = ref[(k - 1) * d + j] + ex(ea[e])[i * d + j]
        ctx.same('assembly-adds-element-entries-to-their-nodes', w, ex(r), ref)
    for e in (1, 9, 10, 99, 100, 130):
        f = tlib.new([C(i * i) for i in range(n * d)], (n * d,), 'float32', 'torch')
        r = ctx.run('extraction', w, lambda: call(I, m, 'element_extractor', f, e))
        if r is not None:
            ctx.same('extraction-reads-the-degrees-of-freedom-of-the-nodes', f'{w} element {e}', ex(r),
                     [C(((k - 1) * d + j) ** 2) for k in con[e] for j in range(d)])


def conn_len(ctx):
    """Every element type: one node too few or too many is refused, the right
    number is accepted."""
    for mod, cls, nn, d in (('tri3', 'FETri3', 3, 2), ('tri6', 'FETri6', 6, 2), ('quad4', 'FEQuad4', 4, 2), ('quad8', 'FEQuad8', 8, 2),
                            ('tetra4', 'FETetra4', 4, 3), ('tetra10', 'FETetra10', 10, 3), ('hexa8', 'FEHexa8', 8, 3), ('hexa20', 'FEHexa20', 20, 3)):
        for k in (nn - 1, nn, nn + 1):
            I = ctx.interp()
            w = f'{MM}:StructureMesh {cls} with {k} nodes'
            et = I.call(I.get(ET + mod, cls), [], {})
            n = 2 * nn + 2
            go = lambda: I.call(I.get(MM, 'StructureMesh'), [
                tens('X', (n, d)), PyDict([('1', et), ('2', et)]),
                PyDict([('1', tuple(range(1, nn + 1))), ('2', tuple(range(2, k + 2)))]), tens('b', (n, d))], {})
            if k == nn:
                r = ctx.run('consistent-mesh-is-accepted', w, go)
                if r is not None:
                    ctx.ob('consistent-mesh-is-accepted', w, True, '')
            else:
                ctx.refuse('inconsistent-mesh-is-refused', w, go)


def models(ctx):
    """Elements of one model may have different types; every element keeps its own
    model, its own number of Gauss points and its own tensors."""
    I = ctx.interp()
    w = f'{SS}:StructureMaterialState'
    s = ctx.run('construction', w, lambda: I.call(I.get(SS, 'StructureMaterialState'), ['infinitesimal', 4, 5], {}))
    if s is None:
        return
    s.touch()
    s.attrs['_material_models'] = PyDict([])
    mk = lambda mod, cls, ng: I.call(I.get(ET + mod, cls), [], {'n_gauss': ng})
    types = {1: ('tetra4', 'FETetra4', 1), 2: ('hexa20', 'FEHexa20', 8), 3: ('hexa8', 'FEHexa8', 1), 4: ('hexa20', 'FEHexa20', 27), 5: ('hexa8', 'FEHexa8', 8)}
    et = PyDict([(str(k), mk(*v)) for k, v in types.items()])
    par = lambda E: PyDict([('elastic_symmetry', 'isotropic'), ('E', Num(C(E))), ('v', Num(C(1) / 4))])
    for E, ids in ((100, (1, 4)), (200, (2, 3)), (300, (5,))):
        r = ctx.run('model-initialisation', w, lambda: (call(I, s, 'init_elements_model', 'elastic', par(E), ids, et), 1)[1])
        if r is None:
            return
    owner = {1: 100, 4: 100, 2: 200, 3: 200, 5: 300}
    em = call(I, s, 'get_elements_material')
    mods = call(I, s, 'get_material_models')
    ctx.ob('every-model-is-kept', f'{w}.get_material_models', isinstance(mods, PyDict) and len(mods.d) == 3, '')
    ctx.same('material-model-types', f'{w}.get_n_element_material_type', [to_expr(call(I, s, 'get_n_element_material_type'))], [C(1)])
    for e in types:
        ng = types[e][2]
        m = em.get(str(e))
        p = call(I, m, 'get_model_parameters')
        ctx.same('element-keeps-its-model', f'{w} element {e}', [to_expr(p.get('E'))], [C(owner[e])])
        rec = ctx.run('recurrency', w, lambda: (call(I, s, 'get_element_model_recurrency', e),))
        if rec is not None:
            ctx.ob('element-model-not-recurrent', f'{w} element {e}', rec[0] is False, rec[0])
        for t in ('current', 'last'):
            st = call(I, s, 'get_element_state', e, time=t)
            ctx.ob('one-state-per-gauss-point', f'{w} element {e} {t}', isinstance(st, PyDict) and
                   {str(k) for k, _ in st.d.values()} == {str(g + 1) for g in range(ng)}, '')
    # tensors are not shared between Gauss points, elements or times
    st = call(I, s, 'get_element_state', 5, time='current', is_copy=False)
    if isinstance(st, PyDict) and st.has('1'):
        dirty(I, st.get('1').get('stress_mf'))
        for e, t in ((5, 'current'), (5, 'last'), (2, 'current'), (4, 'last')):
            b = call(I, s, 'get_element_state', e, time=t)
            pts = [p for p, _ in b.d.values() if not (e == 5 and t == 'current' and p == '1')]
            ctx.ob('initial-states-are-independent', f'{w} in place, element {e} {t}',
                   all(x == Z for p in pts for x in b.get(p).get('stress_mf').vals()), '')
    # parameters handed out are copies
    m = em.get('1')
    p = call(I, m, 'get_model_parameters')
    if isinstance(p, PyDict):
        p.set('E', Num(C(-5)))
        ctx.same('parameters-handed-out-as-copy', f'{w} element 1', [to_expr(call(I, m, 'get_model_parameters').get('E'))], [C(100)])
