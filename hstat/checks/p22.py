"""P22 - strain path and noise generation.  The generators are evaluated with
stand-in random draws: every draw is an affine function of a fresh standard variable,
so a result tells from which distribution each of its entries comes.  Regressed
component histories are arbitrary histories of every order type relative to the
sampling bounds (within, below, above, both, with every order of the two excesses).
Decided: paths start at zero strain, stay within the bounds, cover them, are
proportional where they should be, follow the requested increment norm, noise, cycle
and time structure; noise paths have the law of their parameters, entry by entry."""
from .. import alg
from ..common import *
from .p13 import refuse

FLOOR = 60
B = 'data_generation.strain_paths.'
PP, RP, NG, IF = B + 'proportional_path', B + 'random_path', B + 'noise_generator', B + 'interface'
C = alg.const
Z = alg.ZERO
ORD = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
NORD = {2: ('11', '21', '12', '22'), 3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}


def groups(tier):
    g = [('noise', noise), ('noise refused', noise_refused), ('strain tensor', tensor), ('refused', refused), ('seeds', seeds),
         ('polynomial', polynomial), ('process', process)]
    for k in ('prop', 'rand'):
        g += [(f'cycles {k}', lambda ctx, k=k: cycles(ctx, k)), (f'increment norm {k}', lambda ctx, k=k: inc_norm(ctx, k)),
              (f'path noise {k}', lambda ctx, k=k: path_noise(ctx, k)), (f'time {k}', lambda ctx, k=k: times(ctx, k))]
    for d in (2, 3):
        g += [(f'proportional {d}', lambda ctx, d=d: proportional(ctx, d)), (f'bounds {d}', lambda ctx, d=d: bounds(ctx, d))]
    return g


class Draws:
    """Stand-in random generators.  self.law[name] = distribution of the standard variable."""

    def __init__(self, I, tag=''):
        self.I, self.n, self.law, self.log, self.tag = I, 0, {}, [], tag
        st = I.stubs
        st['lib:numpy.random.uniform'] = self.uniform
        st['lib:numpy.random.normal'] = self.normal
        st['lib:numpy.random.standard_normal'] = lambda I, a, k: self.normal(I, [0, 1] + list(a), k)
        st['lib:numpy.random.rand'] = lambda I, a, k: self.make(I, tuple(a) if a else None, 'U', lambda s: s)
        st['lib:numpy.random.randn'] = lambda I, a, k: self.make(I, tuple(a) if a else None, 'Z', lambda s: s)
        st['lib:numpy.random.binomial'] = self.binomial
        st['lib:numpy.random.randint'] = self.randint
        st['lib:numpy.random.seed'] = lambda I, a, k: self.log.append(('numpy', a[0]))
        st['lib:random.seed'] = lambda I, a, k: self.log.append(('python', a[0]))
        self.ints = []

    def make(self, I, size, law, f):
        self.log.append(('draw', law))
        size = I.simp(size) if size is not None else None
        if isinstance(size, Tensor) and not size.shape or isinstance(size, Num):
            size = I.as_int(size)
        if size is not None and not isinstance(size, int):
            size = tuple(I.as_int(x) for x in I.iterate(size))
        sh = () if size is None else (size,) if isinstance(size, int) else size
        out = []
        for i in range(tlib.numel(sh)):
            nm = f'{law[0]}{self.tag}{self.n}'
            self.n += 1
            s = S(nm)
            self.law[alg.atom_of(s)] = law
            out.append(alg.as_expr(f(s) if not callable(getattr(f, 'at', None)) else f.at(s, i)))
        return tlib.new(out, sh, 'float64', 'np') if size is not None else Num(out[0])

    def uniform(self, I, a, k):
        k = dict(zip(('low', 'high', 'size'), a), **k)
        l, h = (I.simp(k.get(n, d)) for n, d in (('low', 0), ('high', 1)))
        return self.affine(I, k.get('size'), 'U', l, I.binop('Sub', h, l))

    def normal(self, I, a, k):
        k = dict(zip(('loc', 'scale', 'size'), a), **k)
        l, h = (I.simp(k.get(n, d)) for n, d in (('loc', 0), ('scale', 1)))
        return self.affine(I, k.get('size'), 'Z', l, h)

    def affine(self, I, size, law, l, h):
        """l + h * standard variable; the parameters may be arrays."""
        arr = [x for x in (l, h) if isinstance(x, Tensor)]
        if not arr:
            return self.make(I, size, law, lambda s: to_expr(l) + to_expr(h) * s)
        if size is None:
            size = tuple(I.binop('Add', l, h).shape)
        t = self.make(I, size, law, lambda s: s)
        return I.binop('Add', l, I.binop('Mult', h, t))

    def binomial(self, I, a, k):
        k = dict(zip(('n', 'p', 'size'), a), **k)
        p = to_expr(I.simp(k['p']))
        if k['n'] != 1:
            raise Undecided('binomial')
        return self.make(I, k.get('size'), ('B', p), lambda s: s)

    def randint(self, I, a, k):
        k = dict(zip(('low', 'high', 'size'), a), **k)
        lo, hi = k.get('low'), k.get('high')
        if hi is None:
            lo, hi = 0, lo
        self.ints.append((lo, hi))
        return self.pick(lo, hi) if hasattr(self, 'pick') else lo


def gen(I, kind, dim, form='infinitesimal'):
    return I.call(I.get(PP if kind == 'prop' else RP, 'ProportionalStrainPathGenerator' if kind == 'prop' else 'RandomStrainPathGenerator'), [form, dim], {})


def bnd(order, lo, hi):
    return PyDict([(c, (Num(C(lo)), Num(C(hi)))) for c in order])


def regress(I, hist):
    """Stand-in regression: the j-th fitted model takes the values hist[j] over the time grid (normalized units are undone by
    the code under analysis)."""
    n = [0]

    def fit(I, a, k):
        n[0] += 1
        return fake(I, 'Coefs', idx=n[0] - 1)

    def model(I, a, k):
        j = a[0].attrs['idx']
        cnt = [0]
        o = fake(I, 'Poly')

        def at(I, aa, kk):
            h = hist(j)
            x = I.simp(aa[0])
            if isinstance(x, Tensor) and x.shape:
                return tlib.new([h[i] for i in range(x.shape[0])], x.shape, 'float64', 'np')
            cnt[0] += 1
            return Num(h[cnt[0] - 1])
        o.attrs['@call'] = at
        return o
    I.stubs['lib:numpy.polyfit'] = fit
    I.stubs['lib:numpy.poly1d'] = model
    I.stubs['lib:numpy.polyval'] = lambda I, a, k: I.call(model(I, [a[0]], {}), [a[1]], {})


def path(ctx, I, rule, w, kind, g, b, n, **k):
    a = [3] if kind == 'rand' else []
    r = ctx.run(rule, w, lambda: I.call(I.getattr(g, 'generate_strain_path'), a + [b, n], k))
    if r is None:
        return None
    o, t, p = I.iterate(r)
    return list(I.iterate(o)), t, p


def norm_of(lo, hi, h):
    """Normalized value the regression must give for the component value h."""
    return C(2) * (h - C(lo)) / (C(hi) - C(lo)) - C(1)


def world(ctx, kind, dim, lo=-2, hi=3, hist=None):
    """Generator whose j-th component history is a symbolic ramp (proportional) or an arbitrary history inside the bounds."""
    I = ctx.interp()
    dr = Draws(I)
    if kind == 'rand':
        # values strictly inside (-1, 1): 0, then +- 1/(1 + a)
        def h(j):
            return [norm_of(lo, hi, v) for v in inside(j)]

        def inside(j):
            return [Z] + [C(1 if (i + j) % 2 else -1) / (C(1) + S(f'a{j}.{i}', True)) for i in range(1, 12)]
        regress(I, hist or h)
        trial = lambda j, N: inside(j)[:N]
    else:
        def trial(j, N):
            e = C(lo) + (C(hi) - C(lo)) * S(f'U{j}')
            return [e * C(i) / C(N - 1) if N > 1 else Z for i in range(N)]
    return I, dr, gen(I, kind, dim), bnd(ORD[dim], lo, hi), trial


def rows(trial, nc, N):
    cols = [trial(j, N) for j in range(nc)]
    return [[cols[j][i] for j in range(nc)] for i in range(N)]


def proportional(ctx, dim):
    f = f'{PP}:ProportionalStrainPathGenerator.generate_strain_path'
    for form, order in (('infinitesimal', ORD[dim]), ('finite', NORD[dim])):
        for N in (2, 3, 6):
            for lo, hi in ((-2, 3), (-1, 1), (0, 2), (-3, 0)):
                w = f'{f} dim={dim} {form} times={N} bounds=({lo},{hi})'
                I = ctx.interp()
                dr = Draws(I)
                b = bnd(order, lo, hi)
                r = path(ctx, I, 'proportional-path', w, 'prop', gen(I, 'prop', dim, form), b, N)
                if r is None:
                    continue
                o, t, p = r
                ctx.ob('components-order', w, o == list(order), o)
                if tuple(p.shape) != (N, len(order)):
                    ctx.ob('path-shape', w, False, p.shape)
                    continue
                P = ex(p)
                used = []
                for j in range(len(order)):
                    col = [P[i][j] for i in range(N)]
                    ctx.same('starts-at-zero-strain', f'{w} component {j}', col[0], Z)
                    ctx.same('proportional-path', f'{w} component {j}', col, [col[-1] * C(i) / C(N - 1) for i in range(N)])
                    at = [a for a in col[-1].atoms() if dr.law.get(a) == 'U']
                    used += at
                    if len(at) != 1:
                        ctx.ob('bounds-covered', f'{w} component {j}', False if not at else None, col[-1])
                        continue
                    e = sorted(alg.subst_deep(col[-1], {at[0]: C(v)}).const() for v in (0, 1))
                    ctx.ob('bounds-covered', f'{w} component {j}', e == [lo, hi], e)
                ctx.ob('components-independent', w, len(set(used)) == len(used), used)
                ctx.ob('input-unchanged', w, [tuple(to_expr(x).const() for x in b.get(c)) for c in order] == [(lo, hi)] * len(order), '')
    I = ctx.interp()
    Draws(I)
    r = path(ctx, I, 'fixed-component', f'{f} dim={dim} null bounds', 'prop', gen(I, 'prop', dim), bnd(ORD[dim], 0, 0), 4)
    if r is not None:
        ctx.same('fixed-component', f'{f} dim={dim} null bounds', r[2], [[Z] * len(ORD[dim])] * 4)


def bounds(ctx, dim):
    """Histories of every order type relative to the bounds (lo, hi)."""
    f = f'{RP}:RandomStrainPathGenerator.generate_strain_path'
    k, r, p, q = (S(n, True) for n in 'krpq')
    for lo, hi in ((-2, 3), (-1, 1), (-1, 2), (-4, 1)):
        L, H = C(lo), C(hi)
        inn = [Z, L / (C(1) + p), H / (C(1) + q), Z]
        cases = {'within': inn, 'at bounds': [Z, L, H, L / C(2)],
                 'below': [Z, L * (C(1) + k), H / (C(1) + q), L / (C(1) + p)],
                 'above': [Z, L / (C(1) + p), H * (C(1) + k), H],
                 'both, more below': [Z, L * (C(1) + k + r), H * (C(1) + k), H / (C(1) + q)],
                 'both, more above': [Z, L * (C(1) + k), H * (C(1) + k + r), L / (C(1) + p)],
                 'both alike': [Z, L * (C(1) + k), H * (C(1) + k), L],
                 'null': [Z, Z, Z, Z]}
        names = list(cases)
        for s in range(0, len(names), len(ORD[dim])):
            use = (names + names)[s:s + len(ORD[dim])]
            w = f'{f} dim={dim} bounds=({lo},{hi}) {use}'
            I = ctx.interp()
            Draws(I)
            regress(I, lambda j: [norm_of(lo, hi, v) for v in cases[use[j]]])
            res = path(ctx, I, 'within-bounds', w, 'rand', gen(I, 'rand', dim), bnd(ORD[dim], lo, hi), 4)
            if res is None:
                continue
            P = ex(res[2])
            for j, nm in enumerate(use):
                h, col = cases[nm], [P[i][j] for i in range(4)]
                wj = f'{f} dim={dim} bounds=({lo},{hi}) {nm}'
                ctx.same('starts-at-zero-strain', wj, col[0], Z)
                ok = [alg.cmp_('le', L, e) for e in col] + [alg.cmp_('le', e, H) for e in col]
                ctx.ob('within-bounds', wj, False if False in ok else True if all(x is True for x in ok) else outside(col, lo, hi), f'{col}')
                if nm in ('within', 'at bounds', 'null'):
                    ctx.same('unchanged-when-within-bounds', wj, col, h)
                else:
                    ctx.same('scaled-as-a-whole', wj, [col[i] * h[m] for i in range(4) for m in range(4)], [col[m] * h[i] for i in range(4) for m in range(4)])
                    ctx.ob('scaled-not-flattened', wj, any(not alg.equal(c, Z) for c in col), col)


def outside(col, lo, hi):
    """The engine cannot order the bound: a point at which it is exceeded decides, otherwise no verdict."""
    for seed in range(8):
        memo = {}
        for e in col:
            v = alg.feval_at(e, seed, memo)[0]
            if v < lo - 1e-9 or v > hi + 1e-9:
                return False
    return None


def polynomial(ctx):
    """The regression is through all control points, of which the first is zero strain."""
    f = f'{RP}:RandomStrainPathGenerator.generate_strain_path polynomial'
    for lo, hi in ((-2, 3), (-1, 1)):
        for nctrl, N in ((2, 3), (3, 5), (4, 4)):
            w = f'{f} bounds=({lo},{hi}) control={nctrl} times={N}'
            I = ctx.interp()
            dr = Draws(I)
            fits = []

            def fit(I, a, k):
                k = dict(zip(('x', 'y', 'deg'), a), **k)
                fits.append((ex(k['x']), ex(k['y']), k['deg']))
                return fake(I, 'Coefs', idx=len(fits) - 1)
            asked = []

            def model(I, a, k):
                o = fake(I, 'Poly')

                def at(I, aa, kk):
                    x = I.simp(aa[0])
                    xs = [tlib.E(v) for v in x.vals()] if isinstance(x, Tensor) else [to_expr(x)]
                    asked.append((a[0].attrs['idx'], xs))
                    out = [Z] * len(xs)
                    return tlib.new(out, x.shape, 'float64', 'np') if isinstance(x, Tensor) else Num(out[0])
                o.attrs['@call'] = at
                return o
            I.stubs['lib:numpy.polyfit'] = fit
            I.stubs['lib:numpy.poly1d'] = model
            I.stubs['lib:numpy.polyval'] = lambda I, a, k: I.call(model(I, [a[0]], {}), [a[1]], {})
            r = ctx.run('polynomial-through-control-points', w, lambda: I.call(I.getattr(gen(I, 'rand', 2), 'generate_strain_path'), [nctrl, bnd(ORD[2], lo, hi), N], {}))
            if r is None:
                continue
            if len(fits) != 3:
                ctx.ob('polynomial-through-control-points', w, None, f'{len(fits)} regressions')
                continue
            used = []
            for j, (x, y, deg) in enumerate(fits):
                wj = f'{w} component {j}'
                ctx.ob('polynomial-through-control-points', wj, deg == nctrl - 1 and len(x) == len(y) == nctrl and len({str(v) for v in x}) == nctrl, (deg, x))
                ts = [v for i, xs in asked if i == j for v in xs]
                ctx.ob('times-cover-control-range', wj, len(ts) == N and alg.equal(ts[0], x[0]) and alg.equal(ts[-1], x[-1]), (ts, x))
                if len(ts) == N and N > 1:
                    ctx.same('times-equally-spaced', wj, [b - a for a, b in zip(ts, ts[1:])], [(ts[-1] - ts[0]) / C(N - 1)] * (N - 1))
                ctx.same('first-control-point-is-zero-strain', wj, C(lo) + (C(hi) - C(lo)) / C(2) * (y[0] + C(1)), Z)
                for i, e in enumerate(y[1:]):
                    at = [a for a in e.atoms() if dr.law.get(a) == 'U']
                    used += at
                    v = sorted(alg.subst_deep(e, {at[0]: C(u)}).const() for u in (0, 1)) if len(at) == 1 else None
                    ctx.ob('control-strains-cover-bounds', f'{wj} point {i + 1}', v == [-1, 1] if v else None if at else False, e)
            ctx.ob('components-independent', w, len(set(used)) == len(used), used)
    # number of control points drawn between the given limits, both included
    for lims in ((2, 5), (4, 4)):
        seen = set()
        for which in (0, 1):
            I = ctx.interp()
            dr = Draws(I)
            dr.pick = lambda lo, hi: (lo, hi - 1)[which]
            got = []
            I.stubs['lib:numpy.polyfit'] = lambda I, a, k: got.append(dict(zip(('x', 'y', 'deg'), a), **k)['x'].shape[0]) or fake(I, 'Coefs', idx=0)
            I.stubs['lib:numpy.poly1d'] = lambda I, a, k: Native(lambda I, aa, kk: Num(Z) if not isinstance(I.simp(aa[0]), Tensor) else tlib.new([Z] * I.simp(aa[0]).size, I.simp(aa[0]).shape, 'float64', 'np'), 'poly')
            ctx.run('number-of-control-points', f'{f} {lims}', lambda: I.call(I.getattr(gen(I, 'rand', 2), 'generate_strain_path'), [lims, bnd(ORD[2], -1, 1), 4], {}))
            seen |= set(got)
        ctx.ob('number-of-control-points', f'{f} {lims}', seen == set(lims) if seen else None, seen)


def process(ctx):
    """Gaussian process regression: fitted on the control points, evaluated on the time grid."""
    f = f'{RP}:RandomStrainPathGenerator.generate_strain_path gaussian_process'
    lo, hi, N = -2, 3, 4
    I = ctx.interp()
    Draws(I)
    fits, n = [], [0]
    vals = lambda j: [Z, C(-1) / (C(1) + S(f'a{j}', True)), C(1) / (C(1) + S(f'b{j}', True)), C(2)]

    def gp(I, a, k):
        o = fake(I, 'GP')
        o.attrs['fit'] = Native(lambda I, a, k: fits.append((a[0], a[1])) or o, 'fit')

        def predict(I, a, k):
            j = len(fits) - 1
            m = tlib.new([norm_of(lo, hi, v) for v in vals(j)], (N,), 'float64', 'np')
            fits[-1] += (a[0],)
            return (m, tlib.new([C(1)] * N, (N,), 'float64', 'np')) if k.get('return_std') else m
        o.attrs['predict'] = Native(predict, 'predict')
        return o
    mul = fake(I, 'Kernel', __mul__=lambda I, a, k: mul, __rmul__=lambda I, a, k: mul, __add__=lambda I, a, k: mul)
    for c in ('ConstantKernel', 'RBF', 'WhiteKernel', 'Matern'):
        I.stubs[f'lib:sklearn.gaussian_process.kernels.{c}'] = lambda I, a, k: mul
    I.stubs['lib:sklearn.gaussian_process.GaussianProcessRegressor'] = gp
    r = path(ctx, I, 'process-path', f, 'rand', gen(I, 'rand', 2), bnd(ORD[2], lo, hi), N, generative_type='gaussian_process')
    if r is None:
        return
    ctx.same('process-path', f, r[2], rows(lambda j, N: vals(j), 3, N))
    for j, t in enumerate(fits):
        if len(t) == 3:
            ctx.ob('fitted-on-control-points', f'{f} component {j}', tuple(t[0].shape) == (3, 1) and tuple(t[1].shape) == (3,) and tuple(t[2].shape) == (N, 1), [x.shape for x in t])
            ctx.same('first-control-point-is-zero-strain', f'{f} component {j}', C(lo) + C(hi - lo) / C(2) * (ex(t[1])[0] + C(1)), Z)


def name(kind):
    return f'{PP}:ProportionalStrainPathGenerator.generate_strain_path' if kind == 'prop' else f'{RP}:RandomStrainPathGenerator.generate_strain_path'


def cycles(ctx, kind):
    f = name(kind)
    for dim in (2, 3):
        nc = len(ORD[dim])
        for cyc, N in ((1, 3), (1, 4), (1, 5), (1, 8), (2, 5), (2, 6), (2, 9), (2, 11), (3, 7), (3, 12), (3, 13), (4, 9), (5, 12), (6, 13)):
            w = f'{f} dim={dim} cycles={cyc} times={N}'
            I, dr, g, b, trial = world(ctx, kind, dim)
            r = path(ctx, I, 'cyclic-path', w, kind, g, b, N, n_cycle=cyc)
            if r is None:
                continue
            F = (N - 1) // (2 * cyc) + 1
            fw = rows(trial, nc, F)
            seq = [fw[0]]
            for _ in range(cyc):
                seq += fw[1:] + fw[:-1][::-1]
            seq += [fw[0]] * (N - len(seq))
            ctx.ob('one-strain-per-time', w, tuple(r[2].shape) == (N, nc) and r[1].shape == (N,), (r[2].shape, r[1].shape))
            ctx.same('cyclic-path', w, r[2], seq)
        for cyc, N in ((None, 3), (1, 5), (2, 9), (2, 6)):
            w = f'{f} dim={dim} component without range cycles={cyc} times={N}'
            I, dr, g, b, trial = world(ctx, kind, dim)
            b = PyDict([(c, (Num(Z), Num(Z))) for c in ORD[dim]])
            r = path(ctx, I, 'fixed-component', w, kind, g, b, N, n_cycle=cyc)
            if r is not None:
                ctx.ob('one-strain-per-time', w, tuple(r[2].shape) == (N, nc) and r[1].shape == (N,), (r[2].shape, r[1].shape))
                ctx.same('fixed-component', w, r[2], [[Z] * nc] * N)
        for cyc, N in ((1, 2), (2, 4), (3, 6)):
            I, dr, g, b, trial = world(ctx, kind, dim)
            a = [3] if kind == 'rand' else []
            refuse(ctx, 'too-few-times-refused', f'{f} dim={dim} cycles={cyc} times={N}', lambda: I.call(I.getattr(g, 'generate_strain_path'), a + [b, N], {'n_cycle': cyc}))
        for cyc in (None, 0):
            I, dr, g, b, trial = world(ctx, kind, dim)
            r = path(ctx, I, 'no-cycles', f'{f} dim={dim} cycles={cyc}', kind, g, b, 4, n_cycle=cyc)
            if r is not None:
                ctx.same('no-cycles', f'{f} dim={dim} cycles={cyc}', r[2], rows(trial, nc, 4))


def inc_norm(ctx, kind):
    f = name(kind)
    n = S('norm', True)
    for dim in (2, 3):
        nc = len(ORD[dim])
        for N in (2, 3):
            if N == 3 and dim == 3:
                continue
            w = f'{f} dim={dim} times={N}'
            I, dr, g, b, trial = world(ctx, kind, dim)
            r = path(ctx, I, 'increment-norm', w, kind, g, b, N, inc_strain_norm=Num(n))
            if r is None:
                continue
            P = ex(r[2])
            T = rows(trial, nc, N)
            ctx.same('initial-strain-kept', w, P[0], T[0])
            for i in range(1, N):
                d = [x - y for x, y in zip(P[i], P[i - 1])]
                t = [x - y for x, y in zip(T[i], P[i - 1])]
                sq = sum((x * x * C(1 if c[0] == c[1] else 2) for x, c in zip(t, ORD[dim])), Z)
                ctx.same('increment-norm', f'{w} step {i}', d, [n * x / alg.sqrt(sq) for x in t])
        for bad in (0, -1):
            I, dr, g, b, trial = world(ctx, kind, dim)
            a = [3] if kind == 'rand' else []
            refuse(ctx, 'invalid-input-refused', f'{f} dim={dim} increment norm {bad}', lambda: I.call(I.getattr(g, 'generate_strain_path'), a + [b, 3], {'inc_strain_norm': Num(C(bad))}))


def path_noise(ctx, kind):
    f = name(kind)
    sd = S('sd', True)
    for dim in (2, 3):
        nc = len(ORD[dim])
        N = 4
        w = f'{f} dim={dim}'
        I, dr, g, b, trial = world(ctx, kind, dim)
        r = path(ctx, I, 'noise-added-at-every-time', w, kind, g, b, N, strain_noise_std=Num(sd))
        if r is not None:
            P, T = ex(r[2]), rows(trial, nc, N)
            ctx.same('initial-strain-kept', w, P[0], T[0])
            gauss(ctx, w, [[x - y for x, y in zip(p, t)] for p, t in zip(P[1:], T[1:])], dr, lambda i: sd * sd)
        I, dr, g, b, trial = world(ctx, kind, dim)
        r = path(ctx, I, 'noise-added-at-every-time', w + ' null', kind, g, b, N, strain_noise_std=0)
        if r is not None:
            ctx.same('noise-added-at-every-time', w + ' null', r[2], rows(trial, nc, N))
        I, dr, g, b, trial = world(ctx, kind, dim)
        a = [3] if kind == 'rand' else []
        refuse(ctx, 'invalid-input-refused', f'{w} negative deviation', lambda: I.call(I.getattr(g, 'generate_strain_path'), a + [b, 3], {'strain_noise_std': Num(C(-1))}))
        # cyclic paths replay the noisy forward path
        I, dr, g, b, trial = world(ctx, kind, dim)
        r = path(ctx, I, 'cyclic-path', w + ' noisy cycle', kind, g, b, 5, strain_noise_std=Num(sd), n_cycle=1)
        if r is not None:
            P = ex(r[2])
            ctx.same('cyclic-path', w + ' noisy cycle', P[3:], [P[1], P[0]])


def times(ctx, kind):
    f = name(kind)
    for dim in (2, 3):
        for N in (2, 3, 7):
            for t0, t1 in ((None, None), (S('t0'), S('t1'))):
                w = f'{f} dim={dim} times={N} {"given" if t0 is not None else "default"} interval'
                I, dr, g, b, trial = world(ctx, kind, dim)
                r = path(ctx, I, 'equally-spaced-times', w, kind, g, b, N, **({} if t0 is None else dict(time_init=Num(t0), time_end=Num(t1))))
                if r is None:
                    continue
                a, e = (Z, C(1)) if t0 is None else (t0, t1)
                ctx.same('equally-spaced-times', w, r[1], [a + (e - a) * C(i) / C(N - 1) for i in range(N)])
                ctx.ob('components-order', w, r[0] == list(ORD[dim]), r[0])
                ctx.same('component-in-its-column', w, r[2], rows(trial, len(ORD[dim]), N))
        # different bounds per component
        I = ctx.interp()
        dr = Draws(I)
        b = PyDict([(c, (Num(C(-1 - j)), Num(C(2 + j)))) for j, c in reversed(list(enumerate(ORD[dim])))])
        regress(I, lambda j: [norm_of(-1 - j, 2 + j, C(-1 if i == 1 else 1) * C(i) / C(9) * C(j + 1)) for i in range(4)])
        w = f'{f} dim={dim} bounds of each component'
        r = path(ctx, I, 'bounds-of-each-component', w, kind, gen(I, kind, dim), b, 4)
        if r is not None:
            P = ex(r[2])
            for j in range(len(ORD[dim])):
                if kind == 'rand':
                    ctx.same('bounds-of-each-component', f'{w} {ORD[dim][j]}', [P[i][j] for i in range(4)], [C(-1 if i == 1 else 1) * C(i) / C(9) * C(j + 1) for i in range(4)])
                else:
                    at = [x for x in P[-1][j].atoms() if dr.law.get(x) == 'U']
                    v = sorted(alg.subst_deep(P[-1][j], {at[0]: C(u)}).const() for u in (0, 1)) if len(at) == 1 else None
                    ctx.ob('bounds-of-each-component', f'{w} {ORD[dim][j]}', v == [-1 - j, 2 + j] if v else None, v)


def refused(ctx):
    for kind in ('prop', 'rand'):
        f = name(kind)
        a = [3] if kind == 'rand' else []
        o = ORD[2]
        for tag, b in (('missing component', bnd(o[:2], -1, 1)), ('extra component', bnd(o + ('33',), -1, 1)), ('other component', bnd(('11', '22', '21'), -1, 1)), ('inverted bounds', bnd(o, 1, -1))) + tuple(
                (f'inverted bounds of {c}', PyDict([(x, (Num(C(1)), Num(C(-1))) if x == c else (Num(C(-1)), Num(C(1)))) for x in o])) for c in o):
            I = ctx.interp()
            Draws(I)
            regress(I, lambda j: [Z] * 9)
            refuse(ctx, 'invalid-input-refused', f'{f} {tag}', lambda: I.call(I.getattr(gen(I, kind, 2), 'generate_strain_path'), a + [b, 3], {}))
    for bad in ((1, 2, 3), 'x', None, Num(C(5) / C(2))):
        I = ctx.interp()
        Draws(I)
        regress(I, lambda j: [Z] * 9)
        refuse(ctx, 'invalid-input-refused', f'{name("rand")} control points {bad!r}', lambda: I.call(I.getattr(gen(I, 'rand', 2), 'generate_strain_path'), [bad, bnd(ORD[2], -1, 1), 3], {}))


def seeds(ctx):
    for kind in ('prop', 'rand'):
        f = name(kind)
        for seed in (0, 7, None):
            w = f'{f} seed={seed}'
            I, dr, g, b, trial = world(ctx, kind, 2)
            r = path(ctx, I, 'seed-before-draws', w, kind, g, b, 3, random_seed=seed, strain_noise_std=Num(S('sd', True)))
            if r is None:
                continue
            s = [x for x in dr.log if x[0] != 'draw']
            first = next((i for i, x in enumerate(dr.log) if x[0] == 'draw'), len(dr.log))
            if seed is None:
                ctx.ob('unseeded-draws-untouched', w, not s, s)
            else:
                ctx.ob('seed-before-draws', w, ('numpy', seed) in dr.log[:first] and all(x[1] == seed for x in s), dr.log[:4])
                ctx.ob('seeded-once', w, sum(x[0] == 'numpy' for x in dr.log) == 1, s)


def tensor(ctx):
    f = f'{IF}:StrainPathGenerator.build_strain_tensor'
    for dim in (2, 3):
        for sym, base in ((True, ORD[dim]), (False, NORD[dim])):
            low = tuple(c[::-1] for c in base)
            mix = tuple(c[::-1] if i % 2 else c for i, c in enumerate(base))
            for order in (base, base[::-1], base[1:] + base[:1]) + ((low, mix) if sym else ()):
                w = f'{f} dim={dim} {order} symmetric={sym}'
                I = ctx.interp()
                x = vec('e', len(order), 'float64', lib='np')
                r = ctx.run('strain-tensor-of-components', w, lambda: I.call(I.getattr(I.get(IF, 'StrainPathGenerator'), 'build_strain_tensor'), [dim, x, order], {'is_symmetric': sym}))
                if r is None:
                    continue
                loc = {c: S(f'e{i + 1}') for i, c in enumerate(order)}
                ctx.same('strain-tensor-of-components', w, r, [[loc.get(f'{i}{j}', loc.get(f'{j}{i}')) for j in range(1, dim + 1)] for i in range(1, dim + 1)])
        bad = {'incomplete symmetric': (ORD[dim][:-1], True), 'incomplete': (NORD[dim][:-1], False), 'duplicated': (ORD[dim][:-1] + ORD[dim][:1], True),
               'out of range': (ORD[dim][:-1] + ('14',), True), 'symmetric components of a full tensor': (ORD[dim], False)}
        for tag, (order, sym) in bad.items():
            I = ctx.interp()
            x = vec('e', len(order), 'float64', lib='np')
            try:
                I.call(I.getattr(I.get(IF, 'StrainPathGenerator'), 'build_strain_tensor'), [dim, x, order], {'is_symmetric': sym})
                ctx.ob('incomplete-components-refused', f'{f} dim={dim} {tag}', False, 'accepted')
            except AbsRaise as e:
                ctx.ob('incomplete-components-refused', f'{f} dim={dim} {tag}', e.exc not in ('TypeError', 'NameError', 'AttributeError'), e)
            except Undecided as e:
                ctx.ob('incomplete-components-refused', f'{f} dim={dim} {tag}', None, e)


# ---------------------------------------------------------------- noise
def standard(dr, e):
    """{standard variable: coefficient} of an affine expression, and its mean-free rest; None if not affine."""
    at = [a for a in e.atoms() if a in dr.law]
    co = {a: alg.diff(e, a) for a in at}
    if any(x in dr.law for c in co.values() for x in c.atoms()):
        return None
    return co


def gauss(ctx, w, P, dr, var, spike=None):
    """Every entry is a zero-mean normal variable of the given variance, independent of all others."""
    used = []
    for i, row in enumerate(P):
        for j, e in enumerate(row):
            co = standard(dr, e)
            wj = f'{w} [{i},{j}]'
            if co is None:
                ctx.ob('noise-law', wj, None, e)
                continue
            used += list(co)
            zs = {a: c for a, c in co.items() if dr.law[a] == 'Z'}
            bs = {a: c for a, c in co.items() if isinstance(dr.law[a], tuple)}
            if len(zs) + len(bs) != len(co):
                ctx.ob('noise-law', wj, False, 'other distribution')
                continue
            ctx.same('noise-law', wj, sum((c * c for c in zs.values()), Z), var(i), 'variance')
            ctx.same('noise-centred', wj, alg.subst_deep(e, {a: Z for a in co}), Z)
            if spike:
                ok = len(bs) == 1 and all(alg.equal(c, spike[0]) and alg.equal(dr.law[a][1], spike[1]) for a, c in bs.items())
                ctx.ob('spike-law', wj, ok, list(bs.values()))
            else:
                ctx.ob('spike-law', wj, not bs, '')
    ctx.ob('entries-independent', w, len(set(used)) == len(used), '')


def noise(ctx):
    f = f'{NG}:NoiseGenerator.generate_noise_path'
    amp, sd, sp, pr = S('amp', True), S('sd', True), S('spike'), S('prob', True)
    PAR = {'uniform': {'amp': amp}, 'gaussian': {'std': sd}, 'spiked_gaussian': {'std': sd, 'spike': sp, 'p_spike': pr}}
    for dist, par in PAR.items():
        for T, n in ((1, 1), (3, 2)):
            for het in (False, True):
                for neg in ((False, True) if dist == 'uniform' else (False,)):
                    w = f'{f} {dist} {"hetero" if het else "homo"}scedastic shape=({T},{n}){" negative amplitude" if neg else ""}'
                    I = ctx.interp()
                    dr = Draws(I)
                    x = tens('x', (T, n), 'float64', 'np')
                    keep = list(x.vals())
                    wt = [S(f'w{i}', True) for i in range(T)]

                    def go():
                        g = I.call(I.get(NG, 'NoiseGenerator'), [], {})
                        I.call(I.getattr(g, 'set_noise_distribution'), [dist], {})
                        I.call(I.getattr(g, 'set_noise_parameters'), [PyDict([(k, Num(-v if neg else v)) for k, v in par.items()])], {})
                        k = dict(noise_variability='heteroscedastic', heteroscedastic_weights=tlib.new(wt, (T,), 'float64', 'np')) if het else {}
                        return I.call(I.getattr(g, 'generate_noise_path'), [x], k)
                    r = ctx.run('noise-law', w, go)
                    if r is None:
                        continue
                    if tuple(r.shape) != (T, n):
                        ctx.ob('path-shape', w, False, r.shape)
                        continue
                    ctx.ob('input-unchanged', w, x.vals() == keep, '')
                    P = ex(r)
                    if dist != 'uniform':
                        gauss(ctx, w, P, dr, lambda i: sd * sd * (C(1) + wt[i] * wt[i] if het else C(1)), (sp, pr) if dist == 'spiked_gaussian' else None)
                        continue
                    used = []
                    for i in range(T):
                        for j in range(n):
                            co = standard(dr, P[i][j])
                            wj = f'{w} [{i},{j}]'
                            if co is None:
                                ctx.ob('noise-law', wj, None, P[i][j])
                                continue
                            used += list(co)
                            ok = all(dr.law[a] == 'U' for a in co)
                            want = [amp, amp * wt[i]] if het else [amp]
                            got = [c if not neg else c for c in co.values()]
                            m = len(got) == len(want) and any(all(alg.equal(a * a, b * b) for a, b in zip(q, want)) for q in (got, got[::-1]))
                            ctx.ob('noise-law', wj, ok and m, got)
                            ctx.same('noise-centred', wj, alg.subst_deep(P[i][j], {a: C(1) / C(2) for a in co}), Z)
                    ctx.ob('entries-independent', w, len(set(used)) == len(used), '')


def noise_refused(ctx):
    f = f'{NG}:NoiseGenerator'
    new = lambda I: I.call(I.get(NG, 'NoiseGenerator'), [], {})
    for bad in ('poisson', 'Gaussian', None):
        I = ctx.interp()
        refuse(ctx, 'invalid-input-refused', f'{f}.set_noise_distribution {bad}', lambda: I.call(I.getattr(new(I), 'set_noise_distribution'), [bad], {}))
        refuse(ctx, 'invalid-input-refused', f'{f}.get_required_parameters {bad}', lambda: I.call(I.getattr(new(I), 'get_required_parameters'), [bad], {}))
    for dist, par in (('uniform', ('amp',)), ('gaussian', ('std',)), ('spiked_gaussian', ('std', 'spike', 'p_spike'))):
        I = ctx.interp()
        r = ctx.run('required-parameters', f'{f} {dist}', lambda: I.call(I.getattr(new(I), 'get_required_parameters'), [dist], {}))
        if r is not None:
            ctx.ob('required-parameters', f'{f} {dist}', sorted(I.iterate(r)) == sorted(par), r)
        for miss in par:
            def go():
                g = new(I)
                I.call(I.getattr(g, 'set_noise_distribution'), [dist], {})
                I.call(I.getattr(g, 'set_noise_parameters'), [PyDict([(p, Num(S('v'))) for p in par if p != miss])], {})
            refuse(ctx, 'invalid-input-refused', f'{f}.set_noise_parameters {dist} without {miss}', go)
