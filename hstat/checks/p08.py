"""P08 - hardening laws.  Each law is evaluated on unrestricted parameters; the
piecewise-linear one region by region (the abscissae are parametrised by positive
increments, so that one evaluation covers a whole interval with arbitrary data).
Decided: the slope returned is the derivative of the yield stress returned, the
interpolation passes through the data and is constant outside, the linear law is
affine, negative arguments act as zero, dispatch by name is total."""
from fractions import Fraction

from .. import alg
from ..common import *

FLOOR = 15
M = 'simulators.fetorch.material.models.standard.hardening'


def sc(e):
    return tlib.new([alg.as_expr(e)], (), 'float32', 'torch')


def flat(v):
    if isinstance(v, Tensor):
        if v.size != 1:
            raise Undecided('non-scalar')
        return tlib.E(v.vals()[0])
    return to_expr(v)


def groups(tier):
    g = [('dispatch', dispatch), ('linear', linear), ('nadai-ludwik', nadai), ('data check', checked),
         ('many points', many), ('interpolation of several points', several)]
    for n in (2, 3, 4) + ((6, 8) if tier == 'thorough' else ()):
        for k in range(n + 1):
            for edge in (False, True):
                if edge and k == 0:
                    continue
                g.append((f'piecewise {n} points region {k}{" edge" if edge else ""}',
                          lambda ctx, a=(n, k, edge): piecewise(ctx, *a)))
    return g


def law(I, name):
    return I.call(I.get(M, 'get_hardening_law'), [name], {})


def dispatch(ctx):
    I = ctx.interp()
    types = [str(x) for x in I.iterate(I.call(I.get(M, 'get_available_hardening_types'), [], {}))]
    ctx.ob('types-available', f'{M}:get_available_hardening_types', {'piecewise_linear', 'linear', 'nadai_ludwik'} <= set(types), types)
    for t in types:
        r = ctx.run('law-for-every-type', f'{M}:get_hardening_law {t}', lambda: law(I, t))
        if r is not None:
            ctx.ob('law-for-every-type', f'{M}:get_hardening_law {t}', True)
    fs = [law(I, t) for t in types]
    ctx.ob('types-have-distinct-laws', f'{M}:get_hardening_law', len({getattr(f, 'qual', id(f)) for f in fs}) == len(fs), '')


def linear(ctx):
    w = f'{M}:linear'
    s0, a, x = S('s0', True), S('a', True), S('x', True)
    for tag, arg, eff in (('positive', x, x), ('zero', alg.ZERO, alg.ZERO), ('negative', -x, alg.ZERO)):
        I = ctx.interp()
        f = law(I, 'linear')
        r = ctx.run('linear-law', f'{w} {tag}', lambda: I.call(f, [PyDict([('s0', Num(s0)), ('a', Num(a))]), sc(arg)], {}))
        if r is None:
            continue
        y, h = map(flat, I.iterate(r))
        ctx.same('linear-law', f'{w} {tag}', y, s0 + a * eff)
        ctx.same('slope-is-derivative', f'{w} {tag}', h, a)


def nadai(ctx):
    w = f'{M}:nadai_ludwik'
    s0, a, b, e0, x = S('s0', True), S('a', True), S('b', True), S('ep0', True), S('x', True)
    par = lambda: PyDict([('s0', Num(s0)), ('a', Num(a)), ('b', Num(b)), ('ep0', Num(e0))])
    I = ctx.interp()
    f = law(I, 'nadai_ludwik')
    r = ctx.run('nadai-ludwik-law', w, lambda: I.call(f, [par(), sc(x)], {}))
    if r is None:
        return
    y, h = map(flat, I.iterate(r))
    ctx.same('slope-is-derivative', w, h, alg.diff(y, alg.atom_of(x)))
    # power law: s0 + a (x + c)^b with c >= 0 vanishing with ep0
    y0 = alg.subst_deep(y, {alg.atom_of(e0): alg.ZERO})
    ctx.same('power-law-of-plastic-strain', w, y0, s0 + a * x ** b)
    ctx.ob('offset-enters-with-ep0', w, any(alg.atom_of(e0) in deep_atoms(t) for t in [y]), '')
    r = ctx.run('nadai-ludwik-law', w + ' negative', lambda: I.call(f, [par(), sc(-x)], {}))
    q = ctx.run('nadai-ludwik-law', w + ' zero', lambda: I.call(f, [par(), sc(alg.ZERO)], {}))
    if r is not None and q is not None:
        for u, v, nm in zip(I.iterate(r), I.iterate(q), ('yield stress', 'slope')):
            ctx.same('negative-acts-as-zero', f'{w} {nm}', flat(u), flat(v))


def deep_atoms(e):
    out = set()

    def go(x):
        if isinstance(x, alg.Expr):
            for i in x.atoms():
                if i not in out:
                    out.add(i)
                    for y in alg.ATOMS[i].args:
                        go(y)
        elif isinstance(x, alg.Cond):
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(e)
    return out


def piecewise(ctx, n, k, edge):
    """argument in region k: below the first abscissa (0), between the k-th and
    the next one (edge: exactly at the k-th), beyond the last (n)."""
    w = f'{M}:piecewise_linear {n} points region {k}{" edge" if edge else ""}'
    A, acc = [], alg.ZERO
    s, r = (alg.ZERO if edge else S('s', True)), S('r', True)
    x = None
    if k == 0:
        x = s
        acc = x
    for i in range(n):
        acc = acc + (r if i == k else S(f'p{i}', True))
        A.append(acc)
        if i == k - 1:
            x = acc + s
            acc = x
    B = [S(f'b{i}', True) for i in range(n)]
    pts = tlib.new([v for ab in zip(A, B) for v in ab], (n, 2), 'float32', 'torch')
    I = ctx.interp()
    f = law(I, 'piecewise_linear')
    res = ctx.run('piecewise-law', w, lambda: I.call(f, [PyDict([('hardening_points', pts)]), sc(x)], {}))
    if res is None:
        return
    y, h = map(flat, I.iterate(res))
    if k == 0:
        ry, rh = B[0], alg.ZERO
    elif k == n:
        ry, rh = B[-1], alg.ZERO
    else:
        m = (B[k] - B[k - 1]) / (A[k] - A[k - 1])
        ry, rh = B[k - 1] + m * (x - A[k - 1]), m
    ctx.same('piecewise-interpolation', w, y, ry)
    if not (edge and k == 1):       # one-sided slope at the first abscissa is not constrained
        ctx.same('slope-is-derivative', w, h, rh)


def call(I, t, par, x, **kw):
    return I.call(law(I, t), [par, tlib.new([x], (), 'float32', 'torch')], kw)


def table(A, B):
    return PyDict([('hardening_points', tlib.new([alg.const(v) for ab in zip(A, B) for v in ab], (len(A), 2), 'float32', 'torch'))])


def ref_law(A, B, x):
    """Exact interpolation of a numeric table; slope None where two intervals or
    the end of the table meet."""
    F = Fraction
    A, B, x = [F(a) for a in A], [F(b) for b in B], max(F(x), F(0))
    n = len(A)
    if x < A[0]:
        return B[0], F(0)
    if x >= A[-1]:
        return B[-1], None if x == A[-1] else F(0)
    k = max(i for i in range(n - 1) if A[i] <= x)
    m = (B[k + 1] - B[k]) / (A[k + 1] - A[k])
    return B[k] + m * (x - A[k]), (None if x == A[0] else m)


def many(ctx):
    """Numeric tables with up to 25 points, starting at zero or not, hardening and
    softening: every abscissa, every midpoint and both outsides."""
    F = Fraction
    for n in (2, 5, 11, 25):
        for a0 in (F(0), F(1, 8)):
            A = [a0 + F(i * (i + 3), 64) for i in range(n)]
            B = [F(100) + F((i * 37) % 23) for i in range(n)]
            xs = A + [(p + q) / 2 for p, q in zip(A, A[1:])] + [A[0] / 2, A[-1] + F(1, 16), A[-1] * 3, F(-1, 4)]
            I = ctx.interp()
            for x in xs:
                w = f'{M}:piecewise_linear {n} points from {a0} at {x}'
                r = ctx.run('piecewise-law', w, lambda: call(I, 'piecewise_linear', table(A, B), alg.const(x)))
                if r is None:
                    continue
                y, h = map(flat, I.iterate(r))
                ry, rh = ref_law(A, B, x)
                ctx.same('piecewise-interpolation', w, y, alg.const(ry))
                if rh is not None:
                    ctx.same('slope-is-derivative', w, h, alg.const(rh))


def several(ctx):
    """The interpolation accepts several arguments, in any order."""
    F = Fraction
    A, B = [F(0), F(1, 4), F(1, 2), F(2)], [F(3), F(7), F(5), F(11)]
    for tag, xs in (('ascending', [F(0), F(1, 8), F(1, 4), F(1), F(2), F(3)]), ('unordered', [F(3), F(1, 8), F(1), F(0), F(1, 3)]), ('one', [F(1)])):
        I = ctx.interp()
        w = f'{M}:torch_interp {tag}'
        t = lambda v: tlib.new([alg.const(x) for x in v], (len(v),), 'float32', 'torch')
        r = ctx.run('interpolation', w, lambda: I.call(I.get(M, 'torch_interp'), [t(xs), t(A), t(B)], {}))
        if r is not None:
            ctx.same('interpolation', w, ex(r), [alg.const(ref_law(A, B, x)[0]) for x in xs])
        r = ctx.run('interpolation', w, lambda: I.call(I.get(M, 'torch_interp'), [t([x - 1 for x in xs]), t([a for a in A]), t(B)],
                                                       {'left': Num(alg.const(-5)), 'right': Num(alg.const(99))}))
        if r is not None:
            ref = [alg.const(-5) if x - 1 < A[0] else alg.const(99) if x - 1 > A[-1] else alg.const(ref_law(A, B, x - 1)[0]) for x in xs]
            ctx.same('interpolation-outside-values', w, ex(r), ref)


def checked(ctx):
    """With data checking on, admissible data give the same result as without it
    and inadmissible data are refused."""
    F = Fraction
    good = {'piecewise_linear': table([F(0), F(1, 4), F(1)], [F(10), F(20), F(5)]),
            'linear': PyDict([('s0', Num(alg.const(10))), ('a', Num(alg.const(3)))]),
            'nadai_ludwik': PyDict([('s0', Num(alg.const(10))), ('a', Num(alg.const(3))), ('b', Num(alg.const(F(1, 2)))),
                                    ('ep0', Num(alg.const(F(1, 8))))])}
    for t, par in good.items():
        for x in (F(0), F(1, 8), F(5)):
            I = ctx.interp()
            w = f'{M}:{t} is_check_data at {x}'
            r = ctx.run('admissible-data-accepted', w, lambda: call(I, t, par, alg.const(x), is_check_data=True))
            q = ctx.run('admissible-data-accepted', w, lambda: call(I, t, par, alg.const(x)))
            if r is not None and q is not None:
                for u, v, nm in zip(I.iterate(r), I.iterate(q), ('yield stress', 'slope')):
                    ctx.same('data-check-changes-nothing', f'{w} {nm}', flat(u), flat(v))
        I = ctx.interp()
        ctx.refuse('negative-plastic-strain-refused', f'{M}:{t} is_check_data', lambda: call(I, t, par, alg.const(F(-1, 4)), is_check_data=True))
    for tag, A in (('equal abscissae', [F(0), F(1, 4), F(1, 4), F(1)]), ('descending abscissae', [F(0), F(1, 2), F(1, 4), F(1)]),
                   ('last abscissae descending', [F(0), F(1, 4), F(1), F(1, 2)]), ('first abscissae descending', [F(1), F(1, 4), F(2)]),
                   ('negative abscissa', [F(-1, 4), F(1, 4), F(1)])):
        I = ctx.interp()
        ctx.refuse('inadmissible-table-refused', f'{M}:piecewise_linear {tag}',
                   lambda: call(I, 'piecewise_linear', table(A, [F(10 + i) for i in range(len(A))]), alg.const(F(1, 8)), is_check_data=True))
    I = ctx.interp()
    ctx.refuse('unknown-type-refused', f'{M}:get_hardening_law', lambda: law(I, 'swift'))
