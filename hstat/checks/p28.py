"""P28 - mesh and history files.  Files are written to and read from an abstract file
system; an unrestricted number that is printed becomes a token as wide as the widest
number of its format, so text keeps its exact layout, two numbers without a separator
cannot be read back, and everything that is read is an algebraic value of what was
written.  Decided: the solver input file describes the patch (nodes, elements in the
node order of the finite elements of the library, phases, materials, prescribed
displacements, loading), removal of elements keeps the rest, conversions between the
solver's, ABAQUS' and the library's formats lose nothing, result files are read in the
order of their time steps, and the specimen built from them has the same content."""
import itertools
import re

from .. import alg, pylib
from ..common import *
from ..fs import FS
from .p13 import refuse
from .p21 import window
from .p22 import Draws

FLOOR = 60
LIMIT = 300
LS = 'simulators.links.links'
UT = 'simulators.links.utilities.'
GS = 'user_scripts.global_model_update.material_finder.gen_specimen_data'
PS = 'user_scripts.global_model_update.utilities.process_specimen_data'
AD = UT + 'links_data_to_adimu'
AB = UT + 'links_dat_to_inp'
DB = UT + 'links_specimen_dirichlet'
C = alg.const
Z = alg.ZERO
D = '/data'
LOW = '\u2042'  # number printed with too few digits
F = alg.Fraction
# patch element -> (links type, gauss points, library element)
ELEM = {'SQUAD4': ('QUAD4', 4, 'quad4:FEQuad4'), 'SQUAD8': ('QUAD8', 4, 'quad8:FEQuad8'), 'SHEXA8': ('HEXA8', 8, 'hexa8:FEHexa8'), 'SHEXA20': ('HEXA20', 8, 'hexa20:FEHexa20')}
TYPES = {'plane_stress': '1', 'plane_strain': '2', 'axisymmetric': '3', 'tridimensional': '6'}


def groups(tier):
    g = [(f'input {t}', lambda ctx, t=t: inputs(ctx, t)) for t in ELEM]
    g += [('input options', options), ('materials', materials), ('loading', loading), ('simulation', simulation), ('results', results), ('dirichlet', dirichlet), ('specimen', specimen),
          ('specimen refused', specimen_refused), ('histories', histories), ('sets', sets), ('reactions', reactions), ('noise', noise), ('denoise', denoise), ('dataset', dataset), ('gauss points', gauss)]
    g += [(f'convert {t}', lambda ctx, t=t: convert(ctx, t)) for t in ('SQUAD4', 'SHEXA8', 'SHEXA20')]
    return [(n, lambda ctx, f=f: tokens(ctx, f)) for n, f in g]


def tokens(ctx, f):
    pylib.TOK = []
    try:
        f(ctx)
    finally:
        pylib.TOK = None


def val(s):
    """number printed in a text"""
    m = pylib._TOK_RE.match(s)
    if m:
        if LOW in s:
            raise ValueError('digits are lost')
        return pylib.TOK[int(m[1])]
    return alg.from_float(float(s))


def call(I, o, n, *a, **k):
    return I.call(I.getattr(o, n), list(a), k)


def fun(I, m, n, *a, **k):
    return I.call(I.get(m, n), list(a), k)


# ---------------------------------------------------------------- the patch
class World:
    """A regular patch with node labels in a scrambled order."""

    def __init__(self, I, t, ne, hide=()):
        self.t, self.ne = t, ne
        d = self.d = len(ne)
        self.n = {'4': 2, '8': 3 if d == 2 else 2, '0': 3}[t[-1]]
        self.gr = [e * (self.n - 1) + 1 for e in ne]
        idx = [i for i in itertools.product(*[range(x) for x in self.gr]) if sum(0 < q % (self.n - 1) for q in i) <= 1] if self.n == 3 else list(itertools.product(*[range(x) for x in self.gr]))
        order = sorted(range(len(idx)), key=lambda k: (k * 7 + 3) % len(idx)) if len(idx) % 7 else list(range(len(idx)))[::-1]
        self.at = {i + 1: idx[k] for i, k in enumerate(order)}
        self.lab = {v: k for k, v in self.at.items()}
        m = [C(self.lab.get(i, 0)) for i in itertools.product(*[range(x) for x in self.gr])]
        self.matrix = tlib.new(m, tuple(self.gr), 'int64', 'np')
        self.xyz = {k: [S(f'c{k}_{j}') for j in range(d)] for k in self.at}
        self.bnd = sorted(k for k, i in self.at.items() if any(i[s] in (0, self.gr[s] - 1) for s in range(d)))
        self.u = {k: [S(f'u{k}_{j}') for j in range(d)] for k in self.bnd}
        self.phase = {i: 1 + (i[0] + 2 * i[1]) % 3 % 2 for i in itertools.product(*[range(x) for x in ne])}
        self.mat = tlib.new([C(self.phase[i]) for i in itertools.product(*[range(x) for x in ne])], tuple(ne), 'int64', 'np')
        vec = lambda v: tlib.new(list(v), (len(v),), 'float64', 'np')
        r = lambda v: (lambda I, a, k: v)
        self.patch = fake(I, 'Patch', get_elem_type=r(t), get_n_elems_per_dim=r(tuple(ne)), get_n_edge_nodes_per_dim=r(tuple(self.gr)), get_mesh_nodes_matrix=r(self.matrix), get_n_dim=r(d),
                          get_mesh_nodes_coords_ref=lambda I, a, k: PyDict([(str(q), vec(self.xyz[q])) for q in self.at_sorted()]),
                          get_mesh_boundary_nodes_disps=lambda I, a, k: PyDict([(str(q), vec(self.u[q])) for q in self.bnd[::-1]]),
                          get_boundary_nodes_labels=lambda I, a, k: PyList(list(self.bnd)))

    def at_sorted(self):
        return sorted(self.at)

    def element(self, pos, loc):
        """node labels of the element at this position, loc: local coordinates of its nodes"""
        return [self.lab[tuple(p * (self.n - 1) + (c + 1) * (self.n - 1) // 2 for p, c in zip(pos, x))] for x in loc]


def local(ctx, I, t):
    if t == 'SQUAD8':
        # the solver numbers this element around its boundary
        return [[-1, -1], [0, -1], [1, -1], [1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0]]
    m, c = ELEM[t][2].split(':')
    m = 'simulators.fetorch.element.type.' + m
    e = I.call(I.get(m, c), [], dict(n_gauss=ELEM[t][1]))
    return [[int(x.const()) for x in r] for r in ex(attr_tensor(e, (int(re.search(r'\d+$', t).group()), 3 if 'HEXA' in t else 2), '_nodes_local_coords'))]


def elastic(i):
    return PyDict([('name', 'ELASTIC'), ('density', Num(S(f'rho{i}'))), ('young', Num(S(f'E{i}'))), ('poisson', Num(S(f'nu{i}')))])


def simulator(I, d, formulation='infinitesimal', analysis=None):
    return fun(I, LS, 'LinksSimulator', '/bin/links', formulation, analysis or ('plane_strain' if d == 2 else 'tridimensional'))


def material_data(W):
    return pydict(mesh_elem_material=W.mat, mat_phases_descriptors=PyDict([('1', elastic(1)), ('2', elastic(2))]))


def load_stub(I, hist=lambda x: x):
    """Stand-in loading polynomial (a given history of the load factor)."""
    Draws(I)
    I.stubs['lib:numpy.polyfit'] = lambda I, a, k: PyList([])
    I.stubs['lib:numpy.poly1d'] = lambda I, a, k: Native(lambda I, a, k: Num(C(hist(to_expr(a[0]).const()))), 'poly1d')
    I.stubs['lib:numpy.random.randint'] = lambda I, a, k: 3


def sections(txt):
    out = {}
    cur = None
    for line in txt.split('\n'):
        s = line.split()
        if not s:
            cur = None
        elif cur is None and re.match('[A-Za-z_]+$', s[0]):
            cur = s[0].upper()
            out.setdefault(cur, []).append((s[1:], []))
        elif cur is not None:
            out[cur][-1][1].append(line)
    return out


def section(ctx, rule, w, sec, k):
    r = sec.get(k, [])
    if not r:
        ctx.ob(rule, f'{w} {k}', False, 'section is missing')
        return None
    return r[0]


def inputs(ctx, t):
    d = 2 if 'QUAD' in t else 3
    for ne in ([(1, 1), (3, 2)] if d == 2 else [(1, 1, 1), (2, 1, 3)]):
        w = f'{LS}:LinksSimulator.generate_input_data_file {t} {ne}'
        I = ctx.interp()
        fs = FS(I, dirs=[D])
        load_stub(I)
        W = World(I, t, ne)
        loc = ctx.run('input', w, lambda: local(ctx, I, t))
        p = loc and ctx.run('input', w, lambda: call(I, simulator(I, d), 'generate_input_data_file', 'sim', D, W.patch, material_data(W)))
        if not p:
            continue
        ctx.ob('input-file-is-named-after-the-simulation', w, p == f'{D}/sim.dat' and fs.isfile(p), p)
        txt = fs.look(p)
        if not isinstance(txt, str):
            ctx.ob('input', w, None, 'text of the file')
            continue
        mesh_file(ctx, w, W, loc, sections(txt))
    # removed elements
    ne = (4, 3) if d == 2 else (3, 3, 3)
    gone = {(1, 1), (2, 1)} if d == 2 else {(1, 1, 1)}
    if t == 'SHEXA20':
        ne = (3, 3, 3)
    removal(ctx, t, d, ne, gone)


def mesh_file(ctx, w, W, loc, sec, drop=(), keep=None):
    """The file describes the patch without the dropped elements; returns label in the file -> patch label."""
    d = W.d
    head = section(ctx, 'mesh-section', w, sec, 'ELEMENT_TYPES')
    if head:
        tt = [x.split() for x in head[1]]
        ctx.ob('element-type', w, head[0] == ['1'] and tt == [['1', ELEM[W.t][0]], [str(ELEM[W.t][1]), 'GP']], tt)
    nodes, elems, pres = (section(ctx, 'mesh-section', w, sec, k) for k in ('NODE_COORDINATES', 'ELEMENTS', 'NODES_WITH_PRESCRIBED_DISPLACEMENTS'))
    if not (nodes and elems and pres):
        return
    inv = {str(v): k for k, v in W.xyz.items()}
    back, rows = {}, [x.split() for x in nodes[1]]
    ctx.ob('number-of-nodes', w, nodes[0] == [str(len(rows)), 'CARTESIAN'], nodes[0])
    for i, r in enumerate(rows):
        try:
            x = str([val(q) for q in r[1:]])
        except ValueError as e:
            ctx.ob('node-coordinates', f'{w} {i}', False, r)
            continue
        ctx.ob('node-coordinates', f'{w} {i}', r[0] == str(i + 1) and x in inv, r)
        back[r[0]] = inv.get(x)
    epos = [i for i in W.phase if i not in drop]
    want = {k for i in epos for k in W.element(i, loc)}
    ctx.ob('every-node-is-written-once', w, sorted(back.values(), key=str) == sorted(want, key=str), len(back))
    if drop == ():
        ctx.ob('nodes-keep-their-labels', w, all(int(k) == v for k, v in back.items() if v), '')
    rows = [x.split() for x in elems[1]]
    ctx.ob('number-of-elements', w, elems[0] == [str(len(rows))] and len(rows) == len(epos), (elems[0], len(rows)))
    ref = {tuple(W.element(i, loc)): W.phase[i] for i in epos}
    got = {}
    for i, r in enumerate(rows):
        e = tuple(back.get(x) for x in r[2:])
        ok = r[0] == str(i + 1) and e in ref and e not in got
        ctx.ob('element-has-its-nodes-in-the-order-of-the-library', f'{w} {i + 1}', ok, r)
        got[e] = r[1]
        if ok:
            ctx.ob('element-has-its-material-phase', f'{w} {i + 1}', r[1] == str(ref[e]), r)
    rows = [x.split() for x in pres[1]]
    ctx.ob('number-of-prescribed-nodes', w, pres[0] == [str(len(rows))] and sorted((back.get(r[0]) for r in rows), key=str) == sorted(W.bnd, key=str), pres[0])
    for r in rows:
        k = back.get(r[0])
        if k not in W.u:
            continue
        try:
            v = [val(x) for x in r[2:]]
        except ValueError:
            ctx.ob('prescribed-displacement', f'{w} {k}', False, r)
            continue
        u = W.u[k] + [Z] * (3 - d)
        ctx.ob('prescribed-displacement', f'{w} {k}', r[1] == '111' and len(v) == 3 and all(alg.equal(a, b) for a, b in zip(v, u)), r)


def removal(ctx, t, d, ne, gone):
    w = f'{LS}:LinksSimulator.generate_input_data_file {t} {ne} without {sorted(gone)}'
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    load_stub(I)
    W = World(I, t, ne)
    loc = ctx.run('removal', w, lambda: local(ctx, I, t))
    p = loc and ctx.run('removal', w, lambda: call(I, simulator(I, d), 'generate_input_data_file', 'sim', D, W.patch, material_data(W)))
    if not p or not isinstance(fs.look(p), str):
        return
    e = section(ctx, 'mesh-section', w, sections(fs.look(p)), 'ELEMENTS')
    if not e:
        return
    num = {tuple(map(int, r.split()[2:])): int(r.split()[0]) for r in e[1]}
    try:
        labels = sorted(num[tuple(W.element(g, loc))] for g in gone)
        corner = num[tuple(W.element((0,) * d, loc))]
    except KeyError:
        return
    q = ctx.run('removal', w, lambda: call(I, simulator(I, d), 'generate_input_data_file', 'less', D, W.patch, material_data(W), remove_elements_labels=PyList(labels)))
    if q and isinstance(fs.look(q), str):
        mesh_file(ctx, w, W, loc, sections(fs.look(q)), drop=gone)
    refuse(ctx, 'removal-of-boundary-nodes-is-refused', f'{w} corner', lambda: call(I, simulator(I, d), 'generate_input_data_file', 'bad', D, W.patch, material_data(W), remove_elements_labels=PyList([corner])))
    els = PyDict([('1', (1, 2)), ('2', (2, 3)), ('3', (3, 4))])
    go = lambda lab, bnd: I.call(I.getattr(I.get(LS, 'LinksSimulator'), 'remove_mesh_elements'), [PyList([lab]), PyDict([(str(i), tens(f'x{i}', (2,))) for i in range(1, 5)]), els, PyDict([(str(i), 5) for i in range(1, 4)])], dict(boundary_nodes_labels=PyList(bnd)))
    ww = f'{LS}:LinksSimulator.remove_mesh_elements'
    refuse(ctx, 'removal-of-boundary-nodes-is-refused', f'{ww} first', lambda: go(1, [1, 4]))
    refuse(ctx, 'removal-of-boundary-nodes-is-refused', f'{ww} last', lambda: go(3, [1, 4]))
    r = ctx.run('removal', ww, lambda: go(3, [1, 3]))
    if r is not None:
        ctx.ob('removal-renumbers', ww, sorted(r[0].keys()) == ['1', '2', '3'] and sorted(r[1].keys()) == ['1', '2'], r[1])
    # the caller's mesh is not changed
    nodes = PyDict([('1', tens('a', (2,))), ('2', tens('b', (2,))), ('3', tens('c', (2,)))])
    els = PyDict([('1', (1, 2)), ('2', (2, 3))])
    ph = PyDict([('1', 5), ('2', 6)])
    r = ctx.run('removal', w, lambda: I.call(I.getattr(I.get(LS, 'LinksSimulator'), 'remove_mesh_elements'), [PyList([1]), nodes, els, ph], {}))
    if r is not None:
        ww = f'{LS}:LinksSimulator.remove_mesh_elements'
        n2, e2, p2, u2 = r
        ctx.ob('removal-renumbers', ww, sorted(n2.keys()) == ['1', '2'] and e2.keys() == ['1'] and [I.as_int(x) for x in I.iterate(e2.get('1'))] == [1, 2] and p2.get('1') == 6 and u2 is None, (n2, e2, p2, u2))
        ctx.ob('removal-leaves-the-given-mesh', ww, sorted(nodes.keys()) == ['1', '2', '3'] and els.get('2') == (2, 3) and ph.keys() == ['1', '2'], els)


def options(ctx):
    w = f'{LS}:LinksSimulator.generate_input_data_file'
    for an, code in TYPES.items():
        for fm, flag in (('infinitesimal', 'OFF'), ('finite', 'ON')):
            I = ctx.interp()
            fs = FS(I, dirs=[D])
            load_stub(I)
            t = 'SHEXA8' if an == 'tridimensional' else 'SQUAD4'
            W = World(I, t, (1,) * (3 if t[1] == 'H' else 2))
            p = ctx.run('options', w, lambda: call(I, simulator(I, W.d, fm, an), 'generate_input_data_file', 'sim', D, W.patch, material_data(W)))
            if not p or not isinstance(fs.look(p), str):
                continue
            sec = sections(fs.look(p))
            for k, v in (('ANALYSIS_TYPE', code), ('LARGE_STRAIN_FORMULATION', flag)):
                s = section(ctx, 'analysis-options', f'{w} {an} {fm}', sec, k)
                if s:
                    ctx.ob('analysis-options', f'{w} {an} {fm} {k}', s[0] == [v], s[0])
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    load_stub(I)
    W = World(I, 'SQUAD4', (2, 2))
    go = lambda **k: call(I, simulator(I, 2), 'generate_input_data_file', 'sim', D, W.patch, material_data(W), **k)
    p = ctx.run('options', w, lambda: go(links_input_params=pydict(solver='OTHER', title='Mine', unknown=3)))
    if p and isinstance(fs.look(p), str):
        sec = sections(fs.look(p))
        ctx.ob('given-parameters-replace-defaults', w, (sec.get('SOLVER') or [([], [])])[0][0] == ['OTHER'] and (sec.get('TITLE') or [([], [])])[0][1] == ['Mine'], sec.get('SOLVER'))
        old = fs.look(p)
        q = ctx.run('options', w, lambda: go())
        ctx.ob('existing-input-file-is-kept', w, q is not None and q != p and fs.look(p) == old and fs.isfile(q), q)
        q = ctx.run('options', w, lambda: go(is_overwrite_file=True))
        ctx.ob('input-file-is-overwritten-when-asked', w, q == p and fs.look(p) != old, q)
        q = ctx.run('options', w, lambda: go(is_overwrite_file=True, is_save_increm_file=True))
        inc = fs.look(f'{D}/loading_incrementation.dat') if fs.isfile(f'{D}/loading_incrementation.dat') else None
        ctx.ob('loading-is-saved-as-written', w, isinstance(inc, str) and q is not None and inc.strip() != '' and inc in fs.look(q), inc and inc[:40])
    fs._mkdirs('/x')
    q = ctx.run('options', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'sim', '/new', W.patch, material_data(W)))
    ctx.ob('directory-is-made', w, q == '/new/sim.dat' and fs.isfile(q), q)
    md = pydict(mesh_elem_material=W.mat, mat_phases_descriptors=PyDict([('1', elastic(1))]))
    refuse(ctx, 'missing-material-is-refused', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'm', D, W.patch, md))
    md = pydict(mesh_elem_material=W.mat, mat_phases_descriptors=PyDict([('1', elastic(1)), ('2', pydict(name='OTHER'))]))
    refuse(ctx, 'unknown-material-is-refused', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'm', D, W.patch, md))
    W3 = World(I, 'SQUAD4', (1, 1))
    W3.patch.attrs['get_elem_type'] = Native(lambda I, a, k: 'LQUAD9', 'get_elem_type')
    refuse(ctx, 'unavailable-element-is-refused', w, lambda: call(I, simulator(I, 2), '_get_links_elem_type_data', W3.patch))


MODELS = {'ELASTIC': ('links_elastic', 'LinksElastic', ('density', ('young', 'poisson')), False),
          'VON_MISES': ('links_von_mises', 'LinksVonMises', ('density', ('young', 'poisson')), True),
          'DRUCKER_PRAGER': ('links_drucker_prager', 'LinksDruckerPrager', ('density', ('young', 'poisson', 'friction_angle_deg', 'dilatancy_angle_deg', 3)), True),
          'LOU': ('links_lou', 'LinksLou', ('density', ('young', 'poisson'), *[(f'yield_{q}_init', f'{q}_hard_slope') for q in 'abcd']), True)}


def materials(ctx):
    """Material data in the input file: every descriptor once, hardening sampled from the law itself."""
    for name, (m, cls, lay, hard) in MODELS.items():
        for n in ((None,) if not hard else (2, 5)):
            w = f'{LS}:LinksSimulator.generate_input_data_file {name} points={n}'
            I = ctx.interp()
            fs = FS(I, dirs=[D])
            load_stub(I)
            W = World(I, 'SQUAD4', (2, 2))
            names = sum(((x,) if isinstance(x, str) else x for x in lay), ())
            des = PyDict([('name', name)] + [(x, Num(S('m_' + x))) for x in names if isinstance(x, str)])
            hp = pydict(a=Num(S('hp')))

            def law(I, a, k):
                p, x = a[0], a[1]
                if p is not hp and (not isinstance(p, PyDict) or p.get('a') is not hp.get('a')):
                    raise Undecided('hardening parameters')
                e = to_expr(x)
                return (tlib.new([S('hp') * (C(1) + e * e)], (), 'float32', 'torch') if isinstance(x, Tensor) else Num(S('hp') * (C(1) + e * e)), Num(S('slope')))
            if hard:
                for k, v in (('n_hard_point', n), ('hardening_law', Native(law, 'law')), ('hardening_parameters', hp)):
                    des.set(k, v)
            md = pydict(mesh_elem_material=W.mat, mat_phases_descriptors=PyDict([('1', elastic(1)), ('2', des)]))
            p = ctx.run('materials', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'sim', D, W.patch, md))
            if not p or not isinstance(fs.look(p), str):
                continue
            s = section(ctx, 'materials', w, sections(fs.look(p)), 'MATERIALS')
            if not s:
                continue
            rows = [x.split() for x in s[1]]
            ctx.ob('number-of-materials', w, s[0] == ['2'], s[0])
            k = rows.index(['2', name]) if ['2', name] in rows else None
            if k is None or ['1', 'ELASTIC'] not in rows:
                ctx.ob('materials-are-labelled', w, False, rows)
                continue
            one = rows.index(['1', 'ELASTIC'])
            ref = [[f'rho1'], ['E1', 'nu1']]
            ctx.ob('phases-keep-their-own-data', w, [[str(val(x)) for x in r] for r in rows[one + 1:one + 3]] == ref, rows[one:one + 3])
            body = rows[k + 1:]
            if one > k:
                body = rows[k + 1:one]
            ref = [[(S('m_' + y) if isinstance(y, str) else C(y)) for y in ((x,) if isinstance(x, str) else x)] for x in lay]
            if hard:
                ref.append([C(n)])
                for i in range(n):
                    e = C(F(2 * i, n - 1))
                    ref.append([e, S('hp') * (C(1) + e * e)])
            try:
                got = [[val(x) for x in r] for r in body]
            except ValueError:
                ctx.ob('material-data', w, False, body)
                continue
            ctx.ob('material-data', w, len(got) == len(ref) and all(len(a) == len(b) and all(alg.equal(x, y) or (x.is_const() and y.is_const() and abs(x.fval() - y.fval()) < 1e-6) for x, y in zip(a, b)) for a, b in zip(got, ref)), body)
        # required descriptors
        I = ctx.interp()
        o = ctx.run('materials', cls, lambda: fun(I, 'simulators.links.models.' + m, cls))
        for x in sum(((x,) if isinstance(x, str) else x for x in lay), ()) + (('n_hard_point', 'hardening_law', 'hardening_parameters') if hard else ()):
            if o is not None and isinstance(x, str):
                full = PyDict([('name', name)] + [(y, Num(S('m_' + y))) for y in sum(((q,) if isinstance(q, str) else q for q in lay), ()) if isinstance(y, str) and y != x])
                if hard:
                    for k, v in (('n_hard_point', 2), ('hardening_law', Native(lambda I, a, k: (Num(S('y')), Num(S('s'))), 'law')), ('hardening_parameters', PyDict())):
                        if k != x:
                            full.set(k, v)
                refuse(ctx, 'missing-material-data-is-refused', f'{cls} {x}', lambda: call(I, o, '_format_material_descriptors', 1, full))


def loading(ctx):
    """Load factor increments: they start from zero, follow the sampled history, scaled into [-1, 1] only when it leaves it."""
    H = {'inside': lambda x: F(3, 4) * x * (1 - x) * 2 - x * x / 3, 'above': lambda x: 3 * x, 'below': lambda x: -F(5, 2) * x * x, 'mostly above': lambda x: 40 * x * (1 - x) * (F(2, 3) - x),
         'mostly below': lambda x: -40 * x * (1 - x) * (F(2, 3) - x), 'nothing': lambda x: F(0), 'touching': lambda x: x,
         'both, above': lambda x: 60 * x * (1 - x) * (F(54, 100) - x), 'both, below': lambda x: -60 * x * (1 - x) * (F(54, 100) - x)}
    for nm, h in H.items():
        w = f'{LS}:LinksSimulator.generate_input_data_file loading {nm}'
        I = ctx.interp()
        fs = FS(I, dirs=[D])
        load_stub(I, h)
        W = World(I, 'SQUAD4', (1, 1))
        p = ctx.run('loading', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'sim', D, W.patch, pydict(mesh_elem_material=W.mat, mat_phases_descriptors=PyDict([('1', elastic(1)), ('2', elastic(2))]))))
        if not p or not isinstance(fs.look(p), str):
            continue
        s = section(ctx, 'loading', w, sections(fs.look(p)), 'INCREMENTS')
        if not s:
            continue
        try:
            inc = [F(x.split()[1]) for x in s[1]]
        except (ValueError, IndexError, ZeroDivisionError):
            ctx.ob('load-factor-follows-the-history-within-bounds', w, False, f'increments are not numbers: {s[1][:2]}')
            continue
        n = len(inc)
        ctx.ob('number-of-increments', w, s[0] == [str(n)] and n > 0, (s[0], n))
        hist = [h(F(i, n)) for i in range(n + 1)]
        m = max(map(abs, hist))
        sc = 1 / m if m > 1 else 1
        tot, bad = F(0), None
        for i in range(n):
            tot += inc[i]
            if abs(tot - sc * hist[i + 1]) > F(1, 10 ** 5) and bad is None:
                bad = (i, float(tot), float(sc * hist[i + 1]))
        ctx.ob('load-factor-follows-the-history-within-bounds', w, bad is None, bad)
    I = ctx.interp()
    # control points of the polynomial: first one at zero load, others in [-1, 1], fit through all of them
    w = f'{LS}:LinksSimulator.generate_input_data_file loading control points'
    FS(I, dirs=[D])
    dr = Draws(I)
    seen = []
    I.stubs['lib:numpy.random.randint'] = lambda I, a, k: seen.append(('n', a, k)) or 4
    I.stubs['lib:numpy.polyfit'] = lambda I, a, k: seen.append(('fit', a, k)) or PyList([])
    I.stubs['lib:numpy.poly1d'] = lambda I, a, k: Native(lambda I, a, k: Num(Z), 'poly1d')
    W = World(I, 'SQUAD4', (1, 1))
    if ctx.run('loading', w, lambda: call(I, simulator(I, 2), 'generate_input_data_file', 'sim', D, W.patch, material_data(W))) is not None and seen:
        fit = [a for n, a, k in seen if n == 'fit']
        if fit:
            x, y = (ex(q) for q in fit[0][:2])
            ctx.ob('control-times-span-the-loading', w, [float(q.fval()) for q in x] == [i / 3 for i in range(4)] or all(abs(q.fval() - i / 3) < 1e-9 for i, q in enumerate(x)), x)
            ctx.ob('loading-starts-from-zero', w, y[0].is_const() and y[0].const() == 0, y[0])
            at = [[q for q in e.all_atoms() if dr.law.get(q) == 'U'] for e in y[1:]]
            ok = all(len(q) == 1 for q in at) and len({q[0] for q in at}) == 3
            ctx.ob('control-factors-are-independent-draws-within-bounds', w, ok and all(alg.equal(e, C(2) * alg.Expr({((q[0], 1),): F(1)}) - C(1)) for e, q in zip(y[1:], at)), y)
            ctx.ob('polynomial-passes-the-control-points', w, I.as_int(I.simp(fit[0][2])) == 3, fit[0][2])


def simulation(ctx):
    w = f'{LS}:LinksSimulator.run_links_simulation'
    ok = 'Program L I N K S successfully completed.'
    for nm, files, ref in (('completed', {f'{D}/sim/sim.screen': f'a\nb {ok} c\nd\n'}, True), ('failed', {f'{D}/sim/sim.screen': 'a\nProgram aborted.\n'}, False),
                           ('aborted', {f'{D}/sim/sim.screen': 'Program L I N K S version 2\nProgram L I N K S aborted.\nresults successfully completed.\n'}, False), ('empty', {f'{D}/sim/sim.screen': ''}, False),
                           ('no screen file', {f'{D}/sim/other.screen': ok}, 'raise'), ('no directory', {}, 'raise')):
        I = ctx.interp()
        ran = []
        fs = FS(I, dirs=[D] + [f'{D}/sim'] * bool(files), files=files)
        fs.write(f'{D}/sim.dat', 'x')
        I.stubs['lib:subprocess.run'] = lambda I, a, k: ran.append(a[0])
        go = lambda: call(I, simulator(I, 2), 'run_links_simulation', f'{D}/sim.dat')
        if ref == 'raise':
            refuse(ctx, 'missing-output-is-refused', f'{w} {nm}', go)
            continue
        r = ctx.run('simulation', f'{w} {nm}', go)
        if r is not None:
            ctx.ob('success-is-read-from-the-screen-file', f'{w} {nm}', I.simp(r[0]) is ref and r[1] == f'{D}/sim', r)
            ctx.ob('solver-runs-on-the-input-file', f'{w} {nm}', len(ran) == 1 and list(I.iterate(ran[0])) == ['/bin/links', f'{D}/sim.dat'], ran)


def results(ctx):
    w = f'{LS}:LinksSimulator.read_links_simulation_results'
    for order in ((0, 1, 2), (10, 2, 9), (3,), (0, 100, 20, 3)):
        I = ctx.interp()
        st = sorted(order)
        fs = FS(I, dirs=[f'{D}/sim/NODE_DATA', f'{D}/sim/GLOBAL_DATA'])
        for t in order:
            fs.write(f'{D}/sim/NODE_DATA/sim_{t}.nodedata', f'n{t}')
            fs.write(f'{D}/sim/GLOBAL_DATA/sim_{t}.globaldata', f'g{t}')
        fs.write(f'{D}/sim/NODE_DATA/sim_5.txt', 'no')
        fs.write(f'{D}/sim/GLOBAL_DATA/other_5.globaldata', 'no')
        lst = fs.listdir
        fs.listdir = lambda p: sorted(lst(p), key=lambda x: (len(x) * 7 + sum(map(ord, x)) * 31) % 101)

        def gen(I, a, k):
            c = fs.look(fs.norm(a[0]))
            if c == 'no':
                raise Undecided('file')
            return tens(c + '_', (4, 5) if c[0] == 'n' else (3,), 'float64', 'np')
        I.stubs['lib:numpy.genfromtxt'] = gen
        for keys in (('node_data',), ('global_data',), ('node_data', 'global_data'), ()):
            r = ctx.run('results', w, lambda: call(I, simulator(I, 2), 'read_links_simulation_results', f'{D}/sim', keys))
            if r is None:
                continue
            ctx.ob('requested-results-only', f'{w} {keys} {order}', sorted(r.keys()) == sorted(keys), r.keys())
            for k, sh in (('node_data', (4, 5)), ('global_data', (1, 3))):
                if k in keys:
                    n = sh[0] * sh[1]
                    ref = tlib.new([S(f'{k[0]}{t}_[{i}]') for i in range(n) for t in st], sh + (len(st),), 'float64', 'np')
                    v = r.get(k)
                    if v is None:
                        ctx.ob('results-by-time-step', f'{w} {keys} {order} {k}', False, 'no data')
                    else:
                        ctx.same('results-by-time-step', f'{w} {keys} {order} {k}', v, ref)
        refuse(ctx, 'missing-results-are-refused', w, lambda: call(I, simulator(I, 2), 'read_links_simulation_results', f'{D}/none', ('node_data',)))


# ---------------------------------------------------------------- data frames
class Frame:
    """Stand-in data frame: columns and values."""

    def __init__(self, I, cols, rows):
        self.I = I
        self.h = h = fake(I, 'DataFrame', __getitem__=lambda I, a, k: self.get(a[0]), __setitem__=lambda I, a, k: self.put(a[0], a[1]), to_csv=self.to_csv, astype=self.astype, to_numpy=lambda I, a, k: self.array(), __len__=lambda I, a, k: len(self.rows))
        h.attrs['@frame'] = self
        self.rows = [list(r) for r in rows]
        h.attrs['columns'] = PyList(list(cols))
        h.attrs['iloc'] = fake(I, 'iloc', __getitem__=lambda I, a, k: self.iloc(a[0]), __setitem__=lambda I, a, k: self.iput(a[0], a[1]))
        self.sync()

    def sync(self):
        self.h.attrs['shape'] = (len(self.rows), len(self.cols()))
        self.h.attrs['values'] = self.array()

    def cols(self):
        return list(self.I.iterate(self.h.attrs['columns']))

    def array(self):
        n = len(self.cols())
        return tlib.new([x for r in self.rows for x in r], (len(self.rows), n), 'float64', 'np')

    def astype(self, I, a, k):
        t = a[0] if a else k.get('dtype')
        v = I.call(I.getattr(self.array(), 'astype'), [t], {})
        return Frame(I, self.cols(), ex(v)).h

    def key(self, k):
        k = self.I.simp(k)
        return [k] if isinstance(k, str) else list(self.I.iterate(k))

    def get(self, k):
        c = self.cols()
        ks = self.key(k)
        if any(x not in c for x in ks):
            raise AbsRaise('KeyError', str(ks))
        return Frame(self.I, ks, [[r[c.index(x)] for x in ks] for r in self.rows]).h

    def put(self, k, v):
        v = self.I.simp(v)
        if isinstance(v, Instance) and '@frame' in v.attrs:
            v = v.attrs['@frame'].array()
        ks = self.key(k)
        if not isinstance(v, Tensor):
            raise Undecided('value of columns')
        v = ex(v)
        if v and not isinstance(v[0], list):
            v = [[x] for x in v]
        c = self.cols()
        if not self.rows:
            self.rows = [[Z] * len(c) for _ in v]
        if len(v) != len(self.rows) or any(len(x) != len(ks) for x in v):
            raise AbsRaise('ValueError', 'length of values')
        for x in ks:
            if x not in c:
                c.append(x)
                for r in self.rows:
                    r.append(Z)
        for r, q in zip(self.rows, v):
            for x, e in zip(ks, q):
                r[c.index(x)] = e
        self.h.attrs['columns'] = PyList(c)
        self.sync()

    def at(self, k):
        rows, cols = k
        if not (isinstance(rows, SliceV) and rows.lo is None and rows.hi is None):
            raise Undecided('rows')
        if isinstance(cols, SliceV):
            b = [None if x is None else self.I.as_int(x) for x in (cols.lo, cols.hi, cols.step)]
            return list(range(len(self.cols())))[slice(*b)]
        return [self.I.as_int(x) for x in self.I.iterate(cols)]

    def iput(self, k, v):
        self.put(PyList([self.cols()[j] for j in self.at(k)]), v)

    def iloc(self, k):
        js = self.at(k)
        return Frame(self.I, [self.cols()[j] for j in js], [[r[j] for j in js] for r in self.rows]).h

    def to_csv(self, I, a, k):
        if k.get('index', True) is not False:
            I.stubs['@fs'].write(a[0], ('index', Frame(I, self.cols(), self.rows)))
        else:
            self.I.stubs['@fs'].write(a[0], ('csv', tuple(self.cols()), tuple(map(tuple, self.rows))))


def pandas(I, fs):
    I.stubs['@fs'] = fs

    def read(I, a, k):
        c = fs.look(fs.norm(a[0]))
        sep = k.get('sep', ',')
        if c is None:
            raise AbsRaise('FileNotFoundError', a[0])
        if c[0] == 'csv' and sep == ',' and k.get('header', 0) == 0:
            return Frame(I, c[1], c[2]).h
        if c[0] == 'csv' and k.get('header', 0) == 0:
            return Frame(I, ['all'], [[Z] for _ in c[2]]).h
        if c[0] == 'table' and sep == '\\s+' and 'header' in k and (k['header'] is None) == (c[1] is None) and (k['header'] is None or k['header'] == c[3]):
            return Frame(I, c[1] or list(range(len(c[2][0]))), c[2]).h
        if c[0] == 'table' and sep == '\\s+' and c[1] is not None and isinstance(k.get('header'), int) and k['header'] > c[3]:
            # a data row is taken for the header
            return Frame(I, list(range(len(c[2][0]))), c[2][k['header'] - c[3]:]).h
        raise Undecided('csv file')
    I.stubs['lib:pandas.read_csv'] = read
    I.stubs['lib:pandas.DataFrame'] = lambda I, a, k: Frame(I, list(I.iterate(k['columns'])) if 'columns' in k and not a else None, []).h


COLS = ('NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3', 'DBC1', 'DBC2', 'DBC3')


def nodedata(n, t):
    """NODE | LOAD FACTOR | TOTAL TIME | X | U | INTF | EXTF | RF"""
    return [[C(i + 1)] + [S(f'q{t}_{i}_{j}') for j in range(1, 18)] for i in range(n)]


def hist_rows(n, t, dbc):
    q = nodedata(n, t)
    return [[q[i][j] for j in (0, 3, 4, 5, 6, 7, 8, 15, 16, 17)] + [C(x) for x in dbc[i]] for i in range(n)]


def links_file(ctx, I, fs, t, ne):
    load_stub(I)
    W = World(I, t, ne)
    p = call(I, simulator(I, W.d), 'generate_input_data_file', 'sim', D, W.patch, material_data(W))
    return W, p


def convert(ctx, t):
    ne = (2, 2) if t == 'SQUAD4' else (1, 1, 2)
    d = len(ne)
    w = f'{AD}:gen_adimu_data_from_links {t}'
    I = ctx.interp()
    fs = FS(I, dirs=[D, '/out'])
    pandas(I, fs)
    loc = ctx.run('convert', w, lambda: local(ctx, I, t))
    r = loc and ctx.run('convert', w, lambda: links_file(ctx, I, fs, t, ne))
    if not r:
        return
    W, p = r
    n = len(W.at)
    steps = (0, 2, 10)
    fs._mkdirs(f'{D}/sim/NODE_DATA')
    for s in steps:
        fs.write(f'{D}/sim/NODE_DATA/sim_{s}.nodedata', ('table', None, nodedata(n, s)))
    fs._mkdirs('/out/specimen_history_data')
    fs.write('/out/specimen_history_data/sim_tstep_7.csv', ('csv', COLS, ()))
    r = ctx.run('convert', w, lambda: fun(I, AD, 'gen_adimu_data_from_links', p, f'{D}/sim', '/out'))
    if r is not None:
        ctx.ob('returned-paths', w, r[0] == '/out/sim.inp' and fs.isfile(r[0]) and r[1] == '/out/specimen_history_data', r)
        mesh_inp(ctx, I, w, W, loc, r[0])
        got = sorted(x for x in fs.files() if x.startswith('/out/specimen_history_data/'))
        ctx.ob('one-history-file-per-time-step', w, got == [f'/out/specimen_history_data/sim_tstep_{i}.csv' for i in range(len(steps))], got)
        dbc = [[int(k in W.u)] * 3 for k in range(1, n + 1)]
        for i, s in enumerate(steps):
            c = fs.look(f'/out/specimen_history_data/sim_tstep_{i}.csv')
            if c is not None:
                ctx.ob('history-columns', f'{w} {i}', c[0] == 'csv' and c[1] == COLS, c[1] if c[0] == 'csv' else 'row labels')
                if c[0] == 'csv':
                    ctx.same('history-values', f'{w} {i}', tlib.new([x for q in c[2] for x in q], (len(c[2]), len(c[1])), 'float64', 'np'), tlib.new([x for q in hist_rows(n, s, dbc) for x in q], (n, 13), 'float64', 'np'))
        h = ctx.run('convert', w, lambda: fun(I, GS, 'get_specimen_history_paths', r[1], 'sim'))
        q = h is not None and ctx.run('convert', w, lambda: fun(I, GS, 'get_specimen_numerical_data', h, d, n))
        if q:
            numerical(ctx, w, q, n, d, steps, dbc)
    # nodes only
    w = f'{UT}links_nodedata_to_csv:links_node_output_to_csv {t}'
    r = ctx.run('convert', w, lambda: fun(I, UT + 'links_nodedata_to_csv', 'links_node_output_to_csv', f'{D}/sim'))
    if r is not None:
        for i, s in enumerate(steps):
            c = fs.look(f'{r}/sim_tstep_{i}.csv') if fs.isfile(f'{r}/sim_tstep_{i}.csv') else None
            ok = c is not None and c[0] == 'csv' and c[1] == COLS[:10]
            ctx.ob('history-columns', f'{w} {i}', ok, c and c[1])
            if ok:
                ctx.same('history-values', f'{w} {i}', tlib.new([x for q in c[2] for x in q], (len(c[2]), 10), 'float64', 'np'), tlib.new([x for q in hist_rows(n, s, [[]] * n) for x in q], (n, 10), 'float64', 'np'))
    fs.write(f'{D}/sim/NODE_DATA/sim_11.nodedata', ('table', None, [r[:17] for r in nodedata(n, 0)]))
    for m, f, a in ((UT + 'links_nodedata_to_csv', 'links_node_output_to_csv', (f'{D}/sim',)), (AD, 'gen_adimu_data_from_links', (p, f'{D}/sim', '/out'))):
        refuse(ctx, 'unexpected-columns-are-refused', f'{m}:{f}', lambda: fun(I, m, f, *a))
    # ABAQUS
    w = f'{AB}:links_dat_to_abaqus_inp {t}'
    r = ctx.run('convert', w, lambda: fun(I, AB, 'links_dat_to_abaqus_inp', p))
    if r is not None:
        ctx.ob('returned-paths', w, r == f'{D}/sim.inp' and fs.isfile(r), r)
        mesh_inp(ctx, I, w, W, loc, r)
        if d == 3:
            w = f'{AB}:abaqus_inp_to_links_dat {t}'
            q = ctx.run('convert', w, lambda: (fun(I, AB, 'abaqus_inp_to_links_dat', r), 1))
            back = fs.look(f'{D}/sim_links.dat') if fs.isfile(f'{D}/sim_links.dat') else None
            if q and isinstance(back, str):
                a, b = sections(fs.look(p)), sections(back)
                for k in ('ELEMENTS', 'NODE_COORDINATES', 'NODES_WITH_PRESCRIBED_DISPLACEMENTS'):
                    s1, s2 = section(ctx, 'round-trip', w, a, k), section(ctx, 'round-trip', w, b, k)
                    if s1 and s2:
                        cut = (lambda r: r[:1] + r[2:]) if k == 'ELEMENTS' else (lambda r: r)
                        v = lambda s: [tuple(str(val(x)) if '\u27e6' in x or '.' in x else x for x in cut(q.split())) for q in s[1]]
                        ctx.ob('conversion-and-back-gives-the-same-mesh', f'{w} {k}', s1[0] == s2[0] and v(s1) == v(s2), next((x for x in zip(s1[1], s2[1]) if x[0] != x[1]), ''))
            elif q:
                ctx.ob('round-trip', w, False, 'no file')
    for f, m in (('links_dat_to_abaqus_inp', AB), ('extract_mesh_coordinates_from_links_data', AD), ('extract_mesh_connectivities_from_links_data', AD), ('extract_mesh_dirichlet_from_links_data', AD), ('extract_element_type_from_links_data', AD),
                 ('collect_node_data_files_from_links_data', AD), ('read_links_nodes_coords_mesh', DB)):
        refuse(ctx, 'missing-file-is-refused', f'{m}:{f}', lambda: fun(I, m, f, f'{D}/none.dat'))
    txt = fs.look(p)
    two = re.sub(r'(?m)^(\s*ELEMENT_TYPES\s+)1\b', r'\g<1>2', txt)
    if ctx.ob('one-element-type-is-declared', w, two != txt, 'ELEMENT_TYPES'):
        fs.write(f'{D}/two.dat', two)
        for f, m in (('links_dat_to_abaqus_inp', AB), ('extract_element_type_from_links_data', AD)):
            refuse(ctx, 'several-element-types-are-refused', f'{m}:{f} {t}', lambda: fun(I, m, f, f'{D}/two.dat'))


def mesh_inp(ctx, I, w, W, loc, path):
    """The specimen read from the file is the patch."""
    d, n = W.d, len(W.at)
    txt = I.stubs['@fs'].look(path)
    ctx.ob('numbers-keep-their-digits', w, isinstance(txt, str) and LOW not in txt, next((x for x in txt.split('\n') if LOW in x), '') if isinstance(txt, str) else '')
    r = ctx.run('mesh-file', w, lambda: fun(I, GS, 'get_specimen_mesh_from_inp_file', path, d))
    if r is None:
        return
    xyz, et, con, db = r
    ctx.same('specimen-coordinates', w, xyz, tlib.new([x for k in sorted(W.at) for x in W.xyz[k]], (n, d), 'float32', 'torch'))
    ref = sorted(tuple(W.element(i, loc)) for i in W.phase)
    got = {k: tuple(I.as_int(x) for x in I.iterate(con.get(k))) for k in con.keys()}
    ctx.ob('specimen-elements', w, sorted(got, key=int) == [str(i + 1) for i in range(len(ref))] and sorted(got.values()) == ref, '')
    cls = ELEM[W.t][2].split(':')[1]
    ctx.ob('specimen-element-types', w, sorted(et.keys()) == sorted(got) and all(et.get(k).cls.name == cls and I.as_int(call(I, et.get(k), 'get_n_gauss')) == ELEM[W.t][1] for k in et.keys()), '')
    ctx.same('specimen-dirichlet', w, db, tlib.new([C(int(k in W.u)) for k in sorted(W.at) for _ in range(d)], (n, d), 'float32', 'torch'))


def numerical(ctx, w, r, n, d, steps, dbc):
    u, f, b, th = r
    q = {s: hist_rows(n, s, dbc) for s in steps}
    T = len(steps)
    col = lambda j0: [q[s][i][j0 + j] for i in range(n) for j in range(d) for s in steps]
    for nm, x, j0 in (('displacements', u, 4), ('reactions', f, 7), ('constraints', b, 10)):
        ctx.same(f'specimen-{nm}-history', w, x, tlib.new(col(j0), (n, d, T), 'float32', 'torch'))
    ctx.ob('constraint-labels-are-integers', w, isinstance(b, Tensor) and 'int' in b.dtype, getattr(b, 'dtype', b))
    ctx.same('specimen-time-history', w, th, tlib.new([C(i) for i in range(T)], (T,), 'float32', 'torch'))


INP = '''*Heading
text
*NODE
1, 0.0, 0.5, 1.5
2, 1.0, 0.25, -2.5
3, 1.0, 1.0e+01, 3
4, 0.0, 1.0, 0
5, 2.0, 0.0, 0

*ELEMENT, TYPE=CPE4
1, 1, 2, 3, 4
*ELEMENT, TYPE=CPE3
2, 2, 5, 3

*BOUNDARY
1, 1, 1, 0.0
2, 1, 2, 0.5
*BOUNDARY
5, 2, 3, 1.0
4, 3, 3, 0.0
'''


INP3 = '''*NODE
1, 0.0, 0.5, 1.5
2, 1.0, 0.25, -2.5
3, 1.0, 1.0e+01, 3
4, 0.0, 1.0, 0

*ELEMENT, TYPE=C3D4
1, 4, 2, 3, 1

*BOUNDARY
1, 1, 3, 0.0

*BOUNDARY
2, 2, 3, 0.5
4, 3, 3, 0.0
'''


def specimen(ctx):
    """Meshes in the ABAQUS format: several element and boundary blocks, ranges of degrees of freedom, lower or upper case, with and without blank lines."""
    w = f'{GS}:get_specimen_mesh_from_inp_file'
    for nm, txt in (('upper', INP), ('title', INP.replace('NODE', 'Node').replace('ELEMENT, TYPE', 'Element, type').replace('BOUNDARY', 'Boundary')), ('no blank lines', INP.replace('\n\n', '\n')), ('blank lines', INP.replace('*ELEMENT, TYPE=CPE3', '\n*ELEMENT, TYPE=CPE3').replace('1, 2, 0.5\n*B', '1, 2, 0.5\n\n*B').replace('2, 0.5\n*BOUN', '2, 0.5\n\n*BOUN')),
                    ('unordered', INP.replace('1, 1, 2, 3, 4', '@').replace('2, 2, 5, 3\n', '1, 1, 2, 3, 4\n').replace('@', '2, 2, 5, 3').replace('CPE4', '@').replace('CPE3', 'CPE4').replace('@', 'CPE3')), ('spaces', INP.replace(', ', ' ,   ').replace('ELEMENT ,   TYPE', 'ELEMENT, TYPE'))):
        I = ctx.interp()
        FS(I, dirs=[D], files={f'{D}/m.inp': txt})
        r = ctx.run('mesh-file', f'{w} {nm}', lambda: fun(I, GS, 'get_specimen_mesh_from_inp_file', f'{D}/m.inp', 2))
        if r is None:
            continue
        xyz, et, con, db = r
        ctx.same('specimen-coordinates', f'{w} {nm}', xyz, const_t([[0, F(1, 2)], [1, F(1, 4)], [1, 10], [0, 1], [2, 0]]))
        ctx.ob('specimen-elements', f'{w} {nm}', {k: con.get(k) for k in con.keys()} == {'1': (1, 2, 3, 4), '2': (2, 5, 3)}, con)
        ctx.ob('specimen-element-types', f'{w} {nm}', {k: (et.get(k).cls.name, I.as_int(call(I, et.get(k), 'get_n_gauss'))) for k in et.keys()} == {'1': ('FEQuad4', 4), '2': ('FETri3', 1)}, et)
        ctx.same('specimen-dirichlet', f'{w} {nm}', db, const_t([[1, 0], [1, 1], [0, 0], [0, 0], [0, 1]]))
    # three dimensions, ranges of degrees of freedom
    I = ctx.interp()
    FS(I, dirs=[D], files={f'{D}/m.inp': INP3})
    r = ctx.run('mesh-file', f'{w} 3D', lambda: fun(I, GS, 'get_specimen_mesh_from_inp_file', f'{D}/m.inp', 3))
    if r is not None:
        xyz, et, con, db = r
        ctx.same('specimen-coordinates', f'{w} 3D', xyz, const_t([[0, F(1, 2), F(3, 2)], [1, F(1, 4), F(-5, 2)], [1, 10, 3], [0, 1, 0]]))
        ctx.same('specimen-dirichlet', f'{w} 3D', db, const_t([[1, 1, 1], [0, 1, 1], [0, 0, 0], [0, 0, 1]]))
        ctx.ob('specimen-elements', f'{w} 3D', {k: con.get(k) for k in con.keys()} == {'1': (4, 2, 3, 1)}, con)
    # the solver's format: all blocks, with or without blank lines
    w = f'{AB}:abaqus_inp_to_links_dat'
    two = INP3.replace('1, 4, 2, 3, 1\n', '2, 4, 2, 3, 1\n\n*ELEMENT, TYPE=C3D4\n1, 2, 3, 1, 4\n')
    for nm, txt in (('blank lines', two), ('no blank lines', two.replace('\n\n', '\n'))):
        I = ctx.interp()
        fs = FS(I, dirs=[D], files={f'{D}/m.inp': txt})
        if ctx.run('mesh-file', f'{w} {nm}', lambda: (fun(I, AB, 'abaqus_inp_to_links_dat', f'{D}/m.inp'), 1)) is None:
            continue
        out = fs.look(f'{D}/m_links.dat') if fs.isfile(f'{D}/m_links.dat') else None
        if not isinstance(out, str):
            ctx.ob('mesh-file', f'{w} {nm}', None, 'text of the file')
            continue
        sec = sections(out)
        ref = {'ELEMENTS': (['2'], [[1, 1, 2, 3, 1, 4], [2, 1, 4, 2, 3, 1]]), 'NODE_COORDINATES': (['4', 'CARTESIAN'], [[1, 0, .5, 1.5], [2, 1, .25, -2.5], [3, 1, 10, 3], [4, 0, 1, 0]]),
               'NODES_WITH_PRESCRIBED_DISPLACEMENTS': (['3'], [[1, 111, 0, 0, 0], [2, 11, 0, .5, .5], [4, 1, 0, 0, 0]])}
        for k, v in ref.items():
            s = section(ctx, 'mesh-file', f'{w} {nm}', sec, k)
            if s:
                try:
                    got = [[float(x) for x in r.split()] for r in s[1]]
                except ValueError:
                    got = s[1]
                ctx.ob('mesh-of-the-solver', f'{w} {nm} {k}', (s[0], got) == v, s)
    I = ctx.interp()
    for a, c, g in (('CPE3', 'FETri3', 1), ('CPE4', 'FEQuad4', 4), ('C3D4', 'FETetra4', 4), ('C3D8', 'FEHexa8', 8), ('C3D8R', 'FEHexa8', 1), ('C3D20R', 'FEHexa20', 8)):
        e = ctx.run('element-type', a, lambda: fun(I, GS, 'elem_type_abaqus_to_fetorch', a))
        if e is not None:
            ctx.ob('element-type-of-the-library', f'{GS}:elem_type_abaqus_to_fetorch {a}', e.cls.name == c and I.as_int(call(I, e, 'get_n_gauss')) == g, e.cls.name)
    for a, g, c in (('TRI_3', 1, 'CPE3'), ('TRI3', 1, 'CPE3'), ('QUAD_4', 4, 'CPE4'), ('QUAD4', 4, 'CPE4'), ('TETRA4', 4, 'C3D4'), ('TETRA_4', 4, 'C3D4'), ('HEXA8', 8, 'C3D8'), ('HEXA_8', 8, 'C3D8'), ('HEXA20', 8, 'C3D20R'), ('HEXA_20', 8, 'C3D20R')):
        e = ctx.run('element-type', a, lambda: fun(I, AD, 'links_to_abaqus_elem_type', a, g))
        ctx.ob('element-type-of-abaqus', f'{AD}:links_to_abaqus_elem_type {a}', e == c, e)
    for g in (2, 9):
        refuse(ctx, 'unknown-element-is-refused', f'{AD}:links_to_abaqus_elem_type {g}', lambda: fun(I, AD, 'links_to_abaqus_elem_type', 'QUAD4', g))
    refuse(ctx, 'unknown-element-is-refused', f'{GS}:elem_type_abaqus_to_fetorch', lambda: fun(I, GS, 'elem_type_abaqus_to_fetorch', 'S4R'))


def specimen_refused(ctx):
    w = f'{GS}:get_specimen_mesh_from_inp_file'
    for nm, txt in (('node out of range', INP.replace('2, 2, 5, 3', '2, 2, 6, 3')), ('node zero', INP.replace('2, 2, 5, 3', '2, 2, 0, 3')), ('loose node', INP.replace('2, 2, 5, 3', '2, 2, 4, 3')),
                    ('no nodes', INP.replace('*NODE', '*NOTHING')), ('unknown element', INP.replace('CPE3', 'CPE6'))):
        I = ctx.interp()
        FS(I, dirs=[D], files={f'{D}/m.inp': txt})
        refuse(ctx, 'inconsistent-mesh-is-refused', f'{w} {nm}', lambda: fun(I, GS, 'get_specimen_mesh_from_inp_file', f'{D}/m.inp', 2))
        if nm != 'unknown element':
            refuse(ctx, 'inconsistent-mesh-is-refused', f'{AB}:abaqus_inp_to_links_dat {nm}', lambda: fun(I, AB, 'abaqus_inp_to_links_dat', f'{D}/m.inp'))


def histories(ctx):
    w = f'{GS}:get_specimen_numerical_data'
    for n, d, steps in ((3, 3, (0, 1, 2)), (2, 2, (9, 10, 2)), (4, 3, (5,))):
        I = ctx.interp()
        fs = FS(I, dirs=['/h'])
        pandas(I, fs)
        dbc = [[(i + j) % 3 for j in range(3)] for i in range(n)]
        for s in steps:
            fs.write(f'/h/spec_tstep_{s}.csv', ('csv', COLS, hist_rows(n, s, dbc)))
        fs.write('/h/spec2_tstep_1.csv', ('csv', COLS, ()))
        fs.write('/h/spec_tstep_x.csv', ('csv', COLS, ()))
        h = ctx.run('history', w, lambda: fun(I, GS, 'get_specimen_history_paths', '/h', 'spec'))
        if h is None:
            continue
        ctx.ob('history-files-by-time-step', w, list(I.iterate(h)) == [f'/h/spec_tstep_{s}.csv' for s in sorted(steps)], h)
        r = ctx.run('history', w, lambda: fun(I, GS, 'get_specimen_numerical_data', h, d, n))
        if r is not None:
            numerical(ctx, w, r, n, d, sorted(steps), dbc)
        for q in (n + 1, n - 1):
            refuse(ctx, 'other-number-of-nodes-is-refused', f'{w} {q} of {n}', lambda: fun(I, GS, 'get_specimen_numerical_data', h, d, q))
        fs.write(f'/h/spec_tstep_{steps[-1]}.csv', ('csv', COLS[:12], [r[:12] for r in hist_rows(n, 0, dbc)]))
        refuse(ctx, 'other-columns-are-refused', w, lambda: fun(I, GS, 'get_specimen_numerical_data', h, d, n))
        refuse(ctx, 'no-history-is-refused', w, lambda: fun(I, GS, 'get_specimen_history_paths', '/h', 'nothing'))
        refuse(ctx, 'no-history-is-refused', w, lambda: fun(I, GS, 'get_specimen_history_paths', '/none', 'spec'))


def sets(ctx):
    """Constraint labels: assignment from the solver's boundary conditions, copying and replacing in history files."""
    I = ctx.interp()
    fs = FS(I, dirs=['/h', '/g'])
    pandas(I, fs)
    w = f'{AD}:generate_pointwise_sets'
    r = ctx.run('sets', w, lambda: fun(I, AD, 'generate_pointwise_sets', 4, PyDict([('3', PyDict([('1', Num(S('a'))), ('3', Num(Z))])), ('1', PyDict([('2', Num(S('b')))])), ('4', PyDict())])))
    if r is not None:
        ctx.same('pointwise-labels', w, r, const_t([[0, 1, 0], [0, 0, 0], [1, 0, 1], [0, 0, 0]], 'int64', 'np'))
    n = 3
    one, two = [[0, 1, 2], [3, 0, 0], [1, 1, 1]], [[5, 5, 5]] * 3
    for s in (0, 1, 10):
        fs.write(f'/h/spec_tstep_{s}.csv', ('csv', COLS, hist_rows(n, s, [[x + s for x in q] for q in one])))
        fs.write(f'/g/spec_tstep_{s}.csv', ('csv', COLS, hist_rows(n, s + 20, two)))
    w = f'{PS}:copy_dbc_labels'
    if ctx.run('sets', w, lambda: (fun(I, PS, 'copy_dbc_labels', 'spec', '/h', '/g'), 1)):
        for s in (0, 1, 10):
            frame_is(ctx, fs, 'labels-are-copied-step-by-step', f'{w} {s}', f'/g/spec_tstep_{s}.csv', hist_rows(n, s + 20, [[x + s for x in q] for q in one]))
            frame_is(ctx, fs, 'source-is-kept', f'{w} {s}', f'/h/spec_tstep_{s}.csv', hist_rows(n, s, [[x + s for x in q] for q in one]))
    w = f'{AD}:update_adimu_mesh_hist_data_files_dirichlet'
    new = [[7, 0, 0], [0, 8, 0], [0, 0, 9]]
    paths = tuple(f'/h/spec_tstep_{s}.csv' for s in (0, 1, 10))
    if ctx.run('sets', w, lambda: (fun(I, AD, 'update_adimu_mesh_hist_data_files_dirichlet', paths, const_t(new, 'int64', 'np')), 1)):
        for s in (0, 1, 10):
            frame_is(ctx, fs, 'labels-are-replaced-in-every-step', f'{w} {s}', f'/h/spec_tstep_{s}.csv', hist_rows(n, s, new))
    fs.write('/g/one.csv', ('csv', COLS, hist_rows(n, 5, two)))
    if ctx.run('sets', w, lambda: (fun(I, AD, 'update_adimu_mesh_hist_data_files_dirichlet', ('/g/one.csv',), const_t(new, 'int64', 'np')), 1)):
        frame_is(ctx, fs, 'labels-are-replaced-in-every-step', f'{w} one', '/g/one.csv', hist_rows(n, 5, new))
    fs.write('/g/spec_tstep_11.csv', ('csv', COLS, ()))
    refuse(ctx, 'different-histories-are-refused', f'{PS}:copy_dbc_labels', lambda: fun(I, PS, 'copy_dbc_labels', 'spec', '/h', '/g'))
    fs.write('/h/spec_tstep_11.csv', ('csv', COLS[:10], ()))
    refuse(ctx, 'missing-labels-are-refused', f'{PS}:copy_dbc_labels', lambda: fun(I, PS, 'copy_dbc_labels', 'spec', '/h', '/g'))


def frame_is(ctx, fs, rule, w, path, rows, cols=COLS):
    c = fs.look(path)
    if not ctx.ob(rule, w + ' columns', c is not None and c[0] == 'csv' and tuple(c[1]) == cols, c and c[1]):
        return
    ctx.same(rule, w, tlib.new([x for q in c[2] for x in q], (len(c[2]), len(cols)), 'float64', 'np'), tlib.new([x for q in rows for x in q], (len(rows), len(cols)), 'float64', 'np'))


def reactions(ctx):
    w = f'{PS}:build_dirichlet_sets_reaction_history'
    for d, steps in itertools.product((2, 3), ((0, 2, 11), (4,))):
        I = ctx.interp()
        fs = FS(I, dirs=['/h'])
        pandas(I, fs)
        n = 4
        dbc = [[0, 1, 3], [2, 1, 0], [2, 0, 3], [0, 4, 3]]
        for s in steps:
            fs.write(f'/h/spec_tstep_{s}.csv', ('csv', COLS, hist_rows(n, s, dbc)))
        r = ctx.run('reactions', w, lambda: fun(I, PS, 'build_dirichlet_sets_reaction_history', 'spec', '/h', n_dim=d))
        if r is None:
            continue
        hist, labels, disp, nodes = r
        ref, names, lists = [], [], []
        for j in range(d):
            for lab in sorted({q[j] for q in dbc}):
                m = [i for i in range(n) if dbc[i][j] == lab]
                ref += [sum((hist_rows(n, s, dbc)[i][7 + j] for i in m), Z) for s in steps]
                names.append(f'dim_{j + 1}_label_{lab}')
                lists.append([i + 1 for i in m])
        ctx.same('reaction-of-a-set-is-the-sum-over-its-nodes', f'{w} {d}D', hist, tlib.new(ref, (len(names), 1, len(steps)), 'float32', 'np'))
        ctx.ob('sets-are-labelled', f'{w} {d}D', list(I.iterate(labels)) == names, labels)
        ctx.ob('sets-have-their-nodes', f'{w} {d}D', [[I.as_int(I.simp(x)) for x in I.iterate(q)] for q in I.iterate(nodes)] == lists, nodes)
        ctx.same('displacements-by-time-step', f'{w} {d}D', disp, tlib.new([hist_rows(n, s, dbc)[i][4 + j] for i in range(n) for j in range(d) for s in steps], (n, d, len(steps)), 'float32', 'np'))


def noisy_files(ctx, steps, n, col=10):
    I = ctx.interp()
    fs = FS(I, dirs=['/h', '/h/old'])
    pandas(I, fs)
    rows = {s: [q[:col] for q in hist_rows(n, s, [[0] * 3] * n)] for s in steps}
    for s in steps:
        fs.write(f'/h/spec_tstep_{s}.csv', ('csv', COLS[:col], rows[s]))
    fs.write('/h/notes.csv', ('csv', COLS[:1], ()))
    fs.write('/h/spec_tstep_x.csv', ('csv', COLS[:1], ()))
    fs.write('/h/spec_tstep_3.csv.bak', ('csv', COLS[:1], ()))
    return I, fs, rows


def noisy_kept(ctx, fs, w, steps, rows, out):
    for s in steps:
        frame_is(ctx, fs, 'source-is-kept', f'{w} {s}', f'/h/spec_tstep_{s}.csv', rows[s], COLS[:10])
    ctx.ob('one-file-per-time-step', w, sorted(p for p in fs.files() if p.startswith(out + '/')) == sorted(f'{out}/spec_tstep_{s}.csv' for s in steps), '')


def noise(ctx):
    """Noise is added to the displacements of every step but the first, independently, and to nothing else."""
    m = 'miscellaneous.noisy_data.inject_disp_noise_csv'
    w0 = f'{m}:inject_displacements_noise'
    amp = S('amp', True)
    for dist, steps, n in itertools.product(('uniform', 'gaussian'), ((0, 2, 10), (3, 9), (1,)), (1, 3)):
        w = f'{w0} {dist} {steps} nodes={n}'
        I, fs, rows = noisy_files(ctx, steps, n)
        dr = Draws(I)
        par = PyDict([('distribution', dist), ('amp' if dist == 'uniform' else 'std', Num(amp)), ('dirname', 'noisy')])
        if ctx.run('noise', w, lambda: (fun(I, m, 'inject_displacements_noise', '/h/', par), 1)) is None:
            continue
        noisy_kept(ctx, fs, w, steps, rows, '/h/noisy')
        used = []
        for s in steps:
            c = fs.look(f'/h/noisy/spec_tstep_{s}.csv')
            if not ctx.ob('columns-are-kept', f'{w} {s}', c is not None and c[0] == 'csv' and tuple(c[1]) == COLS[:10] and len(c[2]) == n, c and c[1]):
                continue
            for i, j in itertools.product(range(n), range(10)):
                e = c[2][i][j] - rows[s][i][j]
                if s == steps[0] or j not in (4, 5, 6):
                    ctx.same('only-displacements-after-the-first-step-are-noisy', f'{w} {s} [{i},{j}]', e, Z)
                    continue
                at = [a for a in e.atoms() if a in dr.law]
                if len(at) != 1:
                    ctx.ob('displacement-is-noisy', f'{w} {s} [{i},{j}]', False, e)
                    continue
                used += at
                k = alg.diff(e, at[0])
                ctx.ob('displacement-noise-law', f'{w} {s} [{i},{j}]', alg.equal(k * k, amp * amp) and alg.equal(alg.subst_deep(e, {at[0]: C(1) / C(2) if dist == 'uniform' else Z}), Z), e)
        ctx.ob('noise-is-independent', w, len(set(used)) == len(used), '')
    I, fs, rows = noisy_files(ctx, (0, 1), 2, 13)
    Draws(I)
    par = PyDict([('distribution', 'uniform'), ('amp', Num(amp)), ('dirname', 'noisy')])
    refuse(ctx, 'other-columns-are-refused', w0, lambda: fun(I, m, 'inject_displacements_noise', '/h', par))
    refuse(ctx, 'missing-directory-is-refused', w0, lambda: fun(I, m, 'inject_displacements_noise', '/none', par))


def denoise(ctx):
    """Denoising filters the displacement history of every node over time, and leaves the rest."""
    m = 'miscellaneous.noisy_data.denoise_disp_noise_csv'
    w0 = f'{m}:denoise_displacements_noise'
    for steps, n, q, cyc in (((0, 2, 10), 2, 2, 1), ((0, 1, 2, 9, 10), 1, 3, 1), ((0, 1, 2, 10), 2, 3, 2), ((7, 8), 3, 1, 1)):
        w = f'{w0} {steps} nodes={n} window={q} cycles={cyc}'
        I, fs, rows = noisy_files(ctx, steps, n)
        par = PyDict([('denoise_method', 'moving_average'), ('denoiser_parameters', PyDict([('window_size', q)])), ('n_denoise_cycle', cyc), ('denoise_dirname', 'dn')])
        if ctx.run('denoise', w, lambda: (fun(I, m, 'denoise_displacements_noise', '/h', par), 1)) is None:
            continue
        noisy_kept(ctx, fs, w, steps, rows, '/h/dn')
        want = {s: [list(r) for r in rows[s]] for s in steps}
        for i, j in itertools.product(range(n), (4, 5, 6)):
            col = [rows[s][i][j] for s in steps]
            for _ in range(cyc):
                col = window(col, q, [C(1) / C(q)] * q)
            for t, s in enumerate(steps):
                want[s][i][j] = col[t] if t else Z
        for s in steps:
            frame_is(ctx, fs, 'displacement-histories-are-filtered-over-time', f'{w} {s}', f'/h/dn/spec_tstep_{s}.csv', want[s], COLS[:10])
    I, fs, rows = noisy_files(ctx, (0, 1), 2, 13)
    par = PyDict([('denoise_method', 'moving_average'), ('denoiser_parameters', PyDict([('window_size', 2)])), ('n_denoise_cycle', 1), ('denoise_dirname', 'dn')])
    refuse(ctx, 'other-columns-are-refused', w0, lambda: fun(I, m, 'denoise_displacements_noise', '/h', par))
    refuse(ctx, 'missing-directory-is-refused', w0, lambda: fun(I, m, 'denoise_displacements_noise', '/none', par))


def dirichlet(ctx):
    """Tension specimens: symmetry planes, loaded top, file and back."""
    w = f'{DB}:build_specimen_dbc'
    top, disp = C(12), S('disp')
    pts = list(itertools.product((0, 3), (0, 5, 12), (0, 2)))
    for sp in ('3d_tensile_double_notched', '3d_tensile_dogbone'):
        for sgn in (None, F(-1, 2), F(1, 4), F(1, 3)):
            I = ctx.interp()
            fs = FS(I, dirs=[D])
            dv = disp if sgn is None else C(sgn)
            r = ctx.run('dirichlet', w, lambda: fun(I, DB, 'build_specimen_dbc', sp, Num(top), Num(dv), const_t([list(p) for p in pts], 'float64', 'np')))
            if r is None:
                continue
            ref = []
            for i, (x, y, z) in enumerate(pts):
                code = [int(x == 0), int(y in (0, 12)), int(z == 0)]
                if any(code):
                    ref.append([C(i + 1)] + [C(c) for c in code] + [Z, dv if y == 12 else Z, Z])
            ctx.same('constraints-of-the-specimen', f'{w} {sp} {sgn}', r, tlib.new([x for q in ref for x in q], (len(ref), 7), 'float64', 'np'))
            if sgn is None or not isinstance(r, Tensor):
                continue
            ww = f'{DB}:write_links_dirichlet_bc_file {sp} {sgn}'
            if ctx.run('dirichlet', ww, lambda: (fun(I, DB, 'write_links_dirichlet_bc_file', D, r), 1)) is None:
                continue
            txt = fs.look(f'{D}/specimen_dirichlet_bc.dat') if fs.isfile(f'{D}/specimen_dirichlet_bc.dat') else None
            if not isinstance(txt, str):
                ctx.ob('dirichlet-file', ww, False, 'no file')
                continue
            q = ctx.run('dirichlet', ww, lambda: fun(I, AD, 'extract_mesh_dirichlet_from_links_data', f'{D}/specimen_dirichlet_bc.dat'))
            if q is not None:
                want = {str(int(r[0].const())): {str(j + 1): r[4 + j] for j in range(3) if r[1 + j].const()} for r in ref}
                got = {k: {j: to_expr(q.get(k).get(j)) for j in q.get(k).keys()} for k in q.keys()}
                ctx.ob('constraints-read-back', ww, {k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()} and all(alg.equal(got[k][j], want[k][j]) or abs(got[k][j].fval() - want[k][j].fval()) <= 1e-4 * abs(want[k][j].fval()) for k in want for j in want[k]), '')
            grp = section(ctx, 'reaction-group', ww, sections(txt), 'NODE_GROUPS')
            if grp:
                loaded = [str(int(r[0].const())) for r in ref if not (r[5].is_const() and r[5].const() == 0)]
                ctx.ob('loaded-nodes-form-the-reaction-group', ww, grp[0] == ['1'] and [x.split() for x in grp[1]] == [['1', str(len(loaded))]] + [[x] for x in loaded], grp[1][:2])
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    refuse(ctx, 'unknown-specimen-is-refused', w, lambda: fun(I, DB, 'build_specimen_dbc', 'other', Num(top), Num(disp), const_t([[0, 0, 0]], 'float64', 'np')))
    refuse(ctx, 'missing-directory-is-refused', f'{DB}:write_links_dirichlet_bc_file', lambda: fun(I, DB, 'write_links_dirichlet_bc_file', '/none', const_t([[1, 1, 1, 1, 0, 0, 0]], 'float64', 'np')))
    W = World(I, 'SHEXA8', (1, 1, 2))
    load_stub(I)
    p = ctx.run('dirichlet', w, lambda: call(I, simulator(I, 3), 'generate_input_data_file', 'sim', D, W.patch, material_data(W)))
    r = p and ctx.run('dirichlet', w, lambda: fun(I, DB, 'read_links_nodes_coords_mesh', p))
    if r is not None and p:
        ctx.same('coordinates-read-back', f'{DB}:read_links_nodes_coords_mesh', r, tlib.new([x for k in sorted(W.at) for x in W.xyz[k]], (len(W.at), 3), 'float64', 'np'))


def dataset(ctx):
    """Specimen data set: what is saved is what the files hold."""
    w = f'{GS}:gen_specimen_dataset'
    for sd, sm in ((True, True), (True, False), (False, True)):
        I = ctx.interp()
        fs = FS(I, dirs=[D, '/h'], files={f'{D}/m.inp': INP})
        pandas(I, fs)
        dbc = [[1, 0, 0]] * 5
        for s in (0, 1):
            fs.write(f'/h/spec_tstep_{s}.csv', ('csv', COLS, hist_rows(5, s, dbc)))
        made = []

        def state(I, a, k):
            made.append(('new', a, k))
            return fake(I, 'StructureMaterialState', init_elements_model=lambda I, a, k: made.append(('init', a, k)))
        I.stubs['StructureMaterialState'] = state
        par, kwg = pydict(E=Num(S('E'))), pydict(problem_type=1)
        r = ctx.run('dataset', f'{w} {sd} {sm}', lambda: fun(I, GS, 'gen_specimen_dataset', 'spec', D, f'{D}/m.inp', ('/h/spec_tstep_0.csv', '/h/spec_tstep_1.csv'), 'infinitesimal', 1, 2, 'rc_elastic', par, kwg, D, is_save_specimen_data=sd, is_save_specimen_material_state=sm))
        if r is None:
            continue
        ww = f'{w} {sd} {sm}'
        ctx.ob('saved-files', ww, fs.isfile(f'{D}/specimen_data.pt') == sd and fs.isfile(f'{D}/specimen_material_state.pt') == sm, sorted(fs.files()))
        ctx.ob('returned-paths', ww, r[0] == (f'{D}/specimen_data.pt' if sd else None) and r[1] == (f'{D}/specimen_material_state.pt' if sm else None), r)
        if sd:
            o = fs.look(f'{D}/specimen_data.pt')
            ctx.same('saved-displacements', ww, o.attrs.get('nodes_disps_mesh_hist'), tlib.new([hist_rows(5, s, dbc)[i][4 + j] for i in range(5) for j in range(2) for s in (0, 1)], (5, 2, 2), 'float32', 'torch'))
            ctx.same('saved-reactions', ww, o.attrs.get('reaction_forces_mesh_hist'), tlib.new([hist_rows(5, s, dbc)[i][7 + j] for i in range(5) for j in range(2) for s in (0, 1)], (5, 2, 2), 'float32', 'torch'))
            m = o.attrs.get('specimen_mesh')
            if isinstance(m, Instance):
                ctx.ob('saved-mesh', ww, I.as_int(call(I, m, 'get_n_elem')) == 2 and I.as_int(call(I, m, 'get_n_node_mesh')) == 5, '')
        if sm and len(made) == 2:
            a = list(made[0][1]) + list(made[0][2].values())
            ctx.ob('material-state-of-the-specimen', ww, [x if isinstance(x, str) else I.as_int(x) for x in a] == ['infinitesimal', 1, 2], a)
            k = dict(zip(('model_name', 'model_parameters', 'elements_ids', 'elements_type', 'model_kwargs'), made[1][1]), **made[1][2])
            ctx.ob('all-elements-have-the-material', ww, k['model_name'] == 'rc_elastic' and [I.as_int(x) for x in I.iterate(k['elements_ids'])] == [1, 2] and sorted(k['elements_type'].keys()) == ['1', '2'] and k['model_parameters'].get('E') is par.get('E'), k)


def gauss(ctx):
    """Gauss point histories of the solver: tensor components of strain (engineering shear halved) and stress, by time."""
    m = UT + 'links_out_to_dataset'
    w = f'{m}:extract_sample_path'
    I = ctx.interp()
    fs = FS(I, dirs=[D])
    pandas(I, fs)
    T, n = 3, 60
    for q in (0, 1):
        fs.write(f'{D}/{q}.out', ('table', [f'c{j}' for j in range(n)], [[S(f'o{q}_{t}_{j}') for j in range(n)] for t in range(T)], 1))
    r = ctx.run('gauss-points', w, lambda: fun(I, m, 'build_dataset', (f'{D}/0.out', f'{D}/1.out'), 3))
    if r is not None:
        from .p15 import item
        ctx.ob('one-sample-per-file', w, I.as_int(I.call(Lib('builtins.len'), [r], {})) == 2, '')
        for q in (0, 1):
            s = item(I, r, q)
            ctx.same('strain-path', f'{w} {q}', s.get('strain_path'), tlib.new([S(f'o{q}_{t}_{53 + j}') / C(1 if j < 3 else 2) for t in range(T) for j in range(6)], (T, 6), 'float32', 'torch'))
            ctx.same('stress-path', f'{w} {q}', s.get('stress_path'), tlib.new([S(f'o{q}_{t}_{11 + j}') for t in range(T) for j in range(6)], (T, 6), 'float32', 'torch'))
            ctx.same('time-history', f'{w} {q}', s.get('time_hist'), tlib.new([S(f'o{q}_{t}_0') for t in range(T)], (T, 1), 'float32', 'torch'))
            ctx.ob('component-orders', f'{w} {q}', s.get('strain_comps_order') == s.get('stress_comps_order') == ('11', '22', '33', '12', '23', '13'), s.get('strain_comps_order'))
    refuse(ctx, 'missing-file-is-refused', w, lambda: fun(I, m, 'extract_sample_path', f'{D}/none.out', 3))
