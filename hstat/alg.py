"""Exact algebraic value numbers.

The abstract domain of the interpreter in ``interp.py`` maps every numeric
program value to an element of a field of rational functions over *atoms*:
input symbols, square roots, uninterpreted function applications, loop-phi
values and gated (if-then-else) values.  Equality of two value numbers is
decided exactly by cross-multiplication and reduction of square-root atoms, so
two program fragments receive equal value numbers whenever they are equal as
algebraic expressions, however they are written.
"""
from fractions import Fraction
import math
import random

_rng = random.Random(20240917)


class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'pos', 'fval')

    def __init__(self, id, kind, name, args, pos, fval):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.pos, self.fval = pos, fval

    def __repr__(self):
        if self.kind == 'sym':
            return self.name
        if _nest[0] >= 3:
            return f'{self.name}#{self.id}'
        _nest[0] += 1
        try:
            return f'{self.name}({", ".join(map(repr, self.args))})'
        finally:
            _nest[0] -= 1


_nest = [0]
ATOMS = []
_sym_ids = {}
_fn_index = {}


def reset():
    ATOMS.clear()
    _sym_ids.clear()
    _fn_index.clear()
    _poly_ids.clear()
    _polys.clear()


def _new_atom(kind, name, args, pos, fval):
    a = Atom(len(ATOMS), kind, name, args, pos, fval)
    ATOMS.append(a)
    return a


# ---------------------------------------------------------------- polynomials
_polys = []
_poly_ids = {}
ONE_M = ()


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def _pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _content(p):
    """Rational content (positive) and sign-normalised primitive part."""
    g = 0
    l = 1
    for c in p.values():
        c = Fraction(c)
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    return Fraction(g, l)


def _lead(p):
    return max(p)


def _intern_poly(p):
    k = frozenset(p.items())
    i = _poly_ids.get(k)
    if i is None:
        i = len(_polys)
        _polys.append(p)
        _poly_ids[k] = i
    return i


def _has_sqrt(p):
    for m in p:
        for a, _ in m:
            if ATOMS[a].kind == 'sqrt':
                return True
    return False


def _pdiv_exact(p, d):
    """Exact division of Laurent polynomial p by polynomial d, or None."""
    if not p:
        return {}
    atoms = sorted({a for m in d for a, _ in m} | {a for m in p for a, _ in m})
    pos = {a: i for i, a in enumerate(atoms)}
    n = len(atoms)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.items()}
    D = {vec(m): c for m, c in d.items()}
    shift = [min(v[i] for v in P) for i in range(n)]
    P = {tuple(x - s for x, s in zip(v, shift)): c for v, c in P.items()}
    dshift = [min(v[i] for v in D) for i in range(n)]
    D = {tuple(x - s for x, s in zip(v, dshift)): c for v, c in D.items()}
    # quick reject: degree per variable
    for i in range(n):
        if max(v[i] for v in P) < max(v[i] for v in D):
            return None
    ld = max(D)
    cd = D[ld]
    Q = {}
    steps = 0
    limit = 4 * len(P) + 50
    while P:
        lp = max(P)
        q = tuple(a - b for a, b in zip(lp, ld))
        if any(x < 0 for x in q):
            return None
        c = P[lp] / cd if not isinstance(P[lp], int) or not isinstance(cd, int) else Fraction(P[lp], cd)
        Q[q] = c
        for v, cc in D.items():
            t = tuple(a + b for a, b in zip(v, q))
            nv = P.get(t, 0) - c * cc
            if nv:
                P[t] = nv
            else:
                P.pop(t, None)
        steps += 1
        if steps > limit:
            return None
    out = {}
    for v, c in Q.items():
        m = tuple((atoms[i], v[i] + shift[i] - dshift[i]) for i in range(n)
                  if v[i] + shift[i] - dshift[i])
        out[m] = c
    return out


class Expr:
    __slots__ = ('num', 'den', '_key', '_fv', 'nan')

    def __init__(self, num, den=(), nan=False):
        self.num = num
        self.den = den          # tuple of (poly id, exponent)
        self._key = None
        self._fv = None
        self.nan = nan

    # -- construction helpers
    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), self.den, self.nan)
        return self._key

    def is_const(self):
        return (not self.nan and not self.den
                and all(m == ONE_M for m in self.num))

    def const(self):
        return Fraction(self.num.get(ONE_M, 0))

    def is_zero(self):
        return not self.nan and not self.num

    def atoms(self):
        s = {a for m in self.num for a, _ in m}
        for pid, _ in self.den:
            s |= {a for m in _polys[pid] for a, _ in m}
        return s

    def all_atoms(self):
        """Atoms including those nested in function arguments."""
        out = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            for x in ATOMS[a].args:
                if isinstance(x, Expr):
                    todo += list(x.atoms())
                elif isinstance(x, Cond):
                    for e in x.exprs():
                        todo += list(e.atoms())
        return out

    # -- arithmetic
    def __add__(self, o):
        o = as_expr(o)
        if self.nan or o.nan:
            return NAN
        if self.den == o.den:
            return _make(_padd(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        den = dict(d1)
        n1, n2 = self.num, o.num
        for pid, e in d2.items():
            den[pid] = max(den.get(pid, 0), e)
        for pid, e in den.items():
            for _ in range(e - d1.get(pid, 0)):
                n1 = _pmul(n1, _polys[pid])
            for _ in range(e - d2.get(pid, 0)):
                n2 = _pmul(n2, _polys[pid])
        return _make(_padd(n1, n2), tuple(sorted(den.items())))
    __radd__ = __add__

    def __neg__(self):
        if self.nan:
            return self
        return Expr(_pscale(self.num, -1), self.den)

    def __sub__(self, o):
        return self + (-as_expr(o))

    def __rsub__(self, o):
        return as_expr(o) + (-self)

    def __mul__(self, o):
        o = as_expr(o)
        if self.nan or o.nan:
            return NAN
        if not self.num or not o.num:
            return ZERO
        den = dict(self.den)
        for pid, e in o.den:
            den[pid] = den.get(pid, 0) + e
        return _make(_pmul(self.num, o.num), tuple(sorted(den.items())))
    __rmul__ = __mul__

    def inv(self):
        if self.nan:
            return self
        if not self.num:
            DIV0[0] += 1
            return fn('div0', (ONE,))
        num = {ONE_M: Fraction(1)}
        for pid, e in self.den:
            for _ in range(e):
                num = _pmul(num, _polys[pid])
        if len(self.num) == 1:
            (m, c), = self.num.items()
            im = tuple((a, -e) for a, e in m)
            return _make(_pmul(num, {im: Fraction(1) / Fraction(c)}), ())
        # factor out content and monomial gcd
        c = _content(self.num)
        if self.num[_lead(self.num)] < 0:
            c = -c
        mins = {}
        first = True
        for m in self.num:
            d = dict(m)
            if first:
                mins = d
                first = False
            else:
                mins = {a: min(e, d.get(a, 0)) if a in d else min(e, 0)
                        for a, e in mins.items()}
                for a, e in d.items():
                    if a not in mins and e < 0:
                        mins[a] = e
        mins = {a: e for a, e in mins.items() if e}
        # atoms absent from some monomial with positive min are impossible
        g = tuple(sorted(mins.items()))
        ginv = tuple((a, -e) for a, e in g)
        prim = {_mono_mul(m, ginv): Fraction(v) / c for m, v in self.num.items()}
        num = _pmul(num, {ginv: 1 / c})
        return _make(num, ((_intern_poly(prim), 1),))

    def __truediv__(self, o):
        return self * as_expr(o).inv()

    def __rtruediv__(self, o):
        return as_expr(o) * self.inv()

    def __pow__(self, o):
        o = as_expr(o)
        if o.is_const():
            c = o.const()
            if c.denominator == 1:
                n = int(c)
                if n == 0:
                    return ONE
                b = self if n > 0 else self.inv()
                r = b
                for _ in range(abs(n) - 1):
                    r = r * b
                return r
            if c.denominator == 2:
                return sqrt(self) ** int(2 * c)
        if self.nan or o.nan:
            return NAN
        if o.is_const():
            fl = o.const().__floor__()
            frac = o.const() - fl
            return fn('pow', (self, const(frac))) * self ** const(fl)
        # split integer part of a symbolic exponent
        c0 = Fraction(o.num.get(ONE_M, 0)) if not o.den else Fraction(0)
        k = c0.__floor__()
        rest = o - const(k)
        r = fn('pow', (self, rest))
        return r * self ** const(k) if k else r

    def __rpow__(self, o):
        return as_expr(o) ** self

    def __eq__(self, o):
        if not isinstance(o, (Expr, int, float, Fraction)):
            return NotImplemented
        return equal(self, as_expr(o))

    def __hash__(self):
        return hash(round(self.fval() or 0, 6))

    def fval(self):
        """Floating-point value at one fixed random point (filter only)."""
        if self._fv is None:
            self._fv = _feval(self)
        return self._fv[0]

    def __repr__(self):
        if self.nan:
            return 'nan'
        if self.is_const():
            return str(self.const())

        def pm(m, c):
            s = '*'.join(repr(ATOMS[a]) + (f'**{e}' if e != 1 else '')
                         for a, e in m)
            if not s:
                return str(c)
            return s if c == 1 else ('-' + s if c == -1 else f'{c}*{s}')

        def pp(p):
            t = [pm(m, c) for m, c in sorted(p.items(), key=lambda x: str(x[0]))]
            if len(t) > 12:
                t = t[:12] + [f'...({len(p)} terms)']
            return ' + '.join(t) or '0'
        s = pp(self.num)
        if self.den:
            s = f'({s})/(' + '*'.join(f'({pp(_polys[p])})' + (f'**{e}' if e > 1 else '') for p, e in self.den) + ')'
        return s


def _feval(e):
    if e.nan:
        return (float('nan'), 0.0)

    def pv(p):
        s = 0.0
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, k in m:
                f = ATOMS[a].fval
                try:
                    v *= f ** k
                except ZeroDivisionError:
                    v = float('inf')
            s += v
            t += abs(v)
        return s, t
    n, t = pv(e.num)
    for pid, k in e.den:
        d, _ = pv(_polys[pid])
        if d == 0:
            return (float('inf'), 0.0)
        n /= d ** k
        t /= abs(d) ** k
    return (n, t)


def feval_at(e, seed, memo):
    """(value, magnitude) at another point: symbols of both signs, known functions by their value, any other atom (gated,
    uninterpreted) by a number of its own."""
    if e.nan:
        return float('nan'), 0.0

    def atom(i):
        if i not in memo:
            a = ATOMS[i]
            r = random.Random(f'{seed}:{i}')
            v = 0.3 + r.random() * 1.7
            if not a.pos and r.random() < 0.5:
                v = -v
            try:
                if a.name in _FEV and len(a.args) == 1 and isinstance(a.args[0], Expr) and a.kind != 'sym':
                    v = _FEV[a.name](feval_at(a.args[0], seed, memo)[0])
                elif a.name == 'pow' and a.kind != 'sym':
                    v = abs(feval_at(a.args[0], seed, memo)[0]) ** feval_at(a.args[1], seed, memo)[0]
            except (ValueError, OverflowError, ZeroDivisionError):
                v = float('nan')
            memo[i] = v
        return memo[i]

    def pv(p):
        s = t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, k in m:
                v *= atom(a) ** k
            s += v
            t += abs(v)
        return s, t
    try:
        n, t = pv(e.num)
        for pid, k in e.den:
            d, _ = pv(_polys[pid])
            n /= d ** k
            t /= abs(d) ** k
    except (ZeroDivisionError, OverflowError):
        return float('nan'), 0.0
    return n, t


def _make(num, den):
    """Normalise: reduce sqrt powers, cancel denominator factors."""
    # sqrt atoms out of range
    bad = None
    for m in num:
        for a, e in m:
            if ATOMS[a].kind == 'sqrt' and (e > 1 or e < 0):
                bad = True
                break
        if bad:
            break
    if bad:
        groups = {}
        for m, c in num.items():
            rest, red = [], []
            for a, e in m:
                if ATOMS[a].kind == 'sqrt' and (e > 1 or e < 0):
                    q, r = divmod(e, 2)
                    red.append((a, q))
                    if r:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            k = tuple(red)
            g = groups.setdefault(k, {})
            mm = tuple(rest)
            v = g.get(mm, 0) + c
            if v:
                g[mm] = v
            else:
                g.pop(mm, None)
        total = ZERO
        for k, g in groups.items():
            if not g:
                continue
            t = Expr(g, den)
            for a, q in k:
                t = t * ATOMS[a].args[0] ** q
            total = total + t
        return total
    if not num:
        return ZERO
    if den:
        nd = []
        for pid, e in den:
            d = _polys[pid]
            while e > 0:
                q = None
                if len(d) <= 60 and len(num) >= 1:
                    q = _pdiv_exact(num, d)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((pid, e))
        den = tuple(nd)
        if any(ATOMS[a].kind == 'sqrt' and (e > 1 or e < 0)
               for m in num for a, e in m):
            return _make(num, den)
    return Expr(num, den)


ZERO = Expr({})
ONE = Expr({ONE_M: Fraction(1)})
DIV0 = [0]         # divisions by an exact zero seen so far
NAN = Expr({}, (), True)


def const(c):
    c = Fraction(c)
    return Expr({ONE_M: c}) if c else ZERO


def as_expr(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return from_float(x)
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    raise TypeError(f'not numeric: {type(x)}')


def from_float(x):
    if x != x:
        return NAN
    if x in (float('inf'), float('-inf')):
        e = sym('inf', pos=True)
        return e if x > 0 else -e
    return const(Fraction(repr(x)))


def sym(name, pos=False):
    i = _sym_ids.get(name)
    if i is None:
        a = _new_atom('sym', name, (), pos, 0.3 + _rng.random() * 1.7)
        i = _sym_ids[name] = a.id
    return Expr({((i, 1),): Fraction(1)})


_fresh = [0]


def fresh(name, pos=False):
    _fresh[0] += 1
    return sym(f'{name}#{_fresh[0]}', pos)


def _atom_expr(a):
    return Expr({((a.id, 1),): Fraction(1)})


def equal(a, b):
    if a is b:
        return True
    if a.nan or b.nan:
        return a.nan and b.nan
    if a.key == b.key:
        return True
    # numeric filter: decisive only when clearly different
    fa, fb = a.fval(), b.fval()
    ta, tb = a._fv[1], b._fv[1]
    if all(map(math.isfinite, (fa, fb, ta, tb))):
        tol = 1e-9 * (ta + tb) + 1e-300
        if abs(fa - fb) > tol:
            return False
    return not (a - b).num


def args_equal(x, y):
    if isinstance(x, Expr) and isinstance(y, Expr):
        return equal(x, y)
    if isinstance(x, Cond) or isinstance(y, Cond):
        return x == y
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(map(args_equal, x, y))
    if isinstance(x, Expr) or isinstance(y, Expr):
        try:
            return equal(as_expr(x), as_expr(y))
        except TypeError:
            return False
    return type(x) == type(y) and x == y


_FEV = {
    'sqrt': lambda v: math.sqrt(abs(v)), 'abs': abs, 'exp': math.exp,
    'log': lambda v: math.log(abs(v)), 'sin': math.sin, 'cos': math.cos,
    'tan': math.tan, 'tanh': math.tanh,
    'sigmoid': lambda v: 1 / (1 + math.exp(-v)),
}


def fn(name, args, pos=False, kind='fn', index=True):
    """Interned (up to exact equality of arguments) function application."""
    args = tuple(args)
    if kind == 'fn' and any(isinstance(a, Expr) and a.nan for a in args):
        return NAN
    bucket = _fn_index.setdefault((kind, name, len(args)), [])
    for a in bucket:
        if all(map(args_equal, a.args, args)):
            return _atom_expr(a)
    f = None
    if name in _FEV and len(args) == 1 and isinstance(args[0], Expr):
        try:
            f = _FEV[name](args[0].fval())
        except Exception:
            f = None
    elif name == 'pow':
        try:
            f = abs(args[0].fval()) ** args[1].fval()
        except Exception:
            f = None
    if f is None or not math.isfinite(f) or f == 0:
        f = 0.3 + _rng.random() * 1.7
    a = _new_atom(kind, name, args, pos, f)
    bucket.append(a)
    return _atom_expr(a)


def _isqrt_split(n):
    """n = s^2 * squarefree; returns (s, prime list)."""
    s, pr = 1, []
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k % 2:
            pr.append(p)
        p += 1
    if n > 1:
        pr.append(n)
    return s, pr


def _sqrt_const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    n = c.numerator * c.denominator
    if n.bit_length() > 60:
        return fn('sqrt', (const(c),), pos=True, kind='sqrt')
    s, pr = _isqrt_split(n)
    r = const(Fraction(s, c.denominator))
    for p in pr:
        r = r * fn('sqrt', (const(p),), pos=True, kind='sqrt')
    return r


def poly_positive(p):
    return all(c > 0 for c in p.values()) and all(
        e % 2 == 0 or ATOMS[a].pos for m in p for a, e in m)


def is_positive(e):
    return (not e.nan and bool(e.num) and poly_positive(e.num)
            and all(poly_positive(_polys[pid]) for pid, _ in e.den))


def sqrt(e):
    e = as_expr(e)
    if e.nan:
        return e
    if not e.num:
        return ZERO
    if e.is_const():
        if e.const() < 0:
            return NAN
        return _sqrt_const(e.const())
    c = _content(e.num)
    num = _pscale(e.num, 1 / c)
    out = _sqrt_const(c)
    # common monomial of even power of positive atoms
    common = None
    for m in num:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: (min(k, d.get(a, 0))) for a, k in common.items()}
            for a, k in d.items():
                if a not in common and k < 0:
                    common[a] = k
    pull = []
    for a, k in (common or {}).items():
        h = (k // 2) * 2 if k > 0 else -((-k + 1) // 2) * 2
        if h and ATOMS[a].pos and ATOMS[a].kind != 'sqrt':
            pull.append((a, h))
    if pull:
        inv = tuple(sorted((a, -h) for a, h in pull))
        num = {_mono_mul(m, inv): v for m, v in num.items()}
        out = out * Expr({tuple(sorted((a, h // 2) for a, h in pull)): Fraction(1)})
    den = []
    for pid, k in e.den:
        if poly_positive(_polys[pid]) and k >= 2:
            h = k // 2
            for _ in range(h):
                out = out * Expr({ONE_M: Fraction(1)}, ((pid, 1),))
            k -= 2 * h
        if k:
            den.append((pid, k))
    rad = Expr(num, tuple(den))
    if rad.is_const():
        return out * _sqrt_const(rad.const()) if rad.const() >= 0 else NAN
    # square of a single monomial: sqrt(x^2) = |x|
    if not rad.den and len(rad.num) == 1:
        (m, v), = rad.num.items()
        if v == 1 and all(k % 2 == 0 for _, k in m) and m:
            r = ONE
            for a, k in m:
                r = r * abs_(_atom_expr(ATOMS[a])) ** (k // 2)
            return out * r
    return out * fn('sqrt', (rad,), pos=True, kind='sqrt')


def abs_(e):
    e = as_expr(e)
    if e.nan:
        return e
    if e.is_const():
        return const(abs(e.const()))
    if is_positive(e):
        return e
    if is_positive(-e):
        return -e
    if e.num[_lead(e.num)] < 0:
        e = -e
    c = _content(e.num)
    return const(c) * fn('abs', (e * (1 / c),), pos=True)


def relu(e):
    e = as_expr(e)
    if e.is_const():
        return e if e.const() > 0 else ZERO
    if is_positive(e):
        return e
    if is_positive(-e):
        return ZERO
    return fn('relu', (e,))


def mx(a, b):
    a, b = as_expr(a), as_expr(b)
    if a.nan or b.nan:
        return NAN
    d = a - b
    if d.is_const():
        return a if d.const() >= 0 else b
    if b.is_zero():
        return relu(a)
    if a.is_zero():
        return relu(b)
    if is_positive(d):
        return a
    if is_positive(-d):
        return b
    if a.fval() > b.fval():
        a, b = b, a
    return fn('max', (a, b))


def mn(a, b):
    return -mx(-as_expr(a), -as_expr(b))


def func(name, e):
    e = as_expr(e)
    if e.nan:
        return e
    if e.is_const():
        c = e.const()
        if c == 0:
            z = {'exp': 1, 'sin': 0, 'cos': 1, 'tan': 0, 'tanh': 0, 'log': None,
                 'sigmoid': Fraction(1, 2), 'sign': 0, 'asin': 0, 'atan': 0}.get(name)
            if z is not None:
                return const(z)
        if c == 1 and name == 'log':
            return ZERO
        if name == 'sign':
            return const((c > 0) - (c < 0))
    if name == 'sign' and (is_positive(e) or is_positive(-e)):
        return ONE if is_positive(e) else -ONE
    if name in ('sin', 'tan', 'tanh', 'sign', 'atan', 'asin'):
        if e.num and e.num[_lead(e.num)] < 0:
            return -func(name, -e)
    if name == 'cos' and e.num and e.num[_lead(e.num)] < 0:
        return func(name, -e)
    return fn(name, (e,), pos=(name in ('exp', 'sigmoid')))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = as_expr(a), as_expr(b)
    if equal(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # collapse nested gates on the same condition
    a, b = _assume(a, c, True), _assume(b, c, False)
    if equal(a, b):
        return a
    return fn('ite', (c, a, b), kind='ite')


def _assume(e, c, val):
    if e.nan:
        return e
    ids = [a for a in e.atoms() if ATOMS[a].kind == 'ite' and ATOMS[a].args[0] == c]
    if not ids:
        return e
    return subst(e, {a: ATOMS[a].args[1 if val else 2] for a in ids})


def assume(e, c, val=True):
    """Value of e when condition c is known to be val (one level of gates)."""
    if not isinstance(e, Expr):
        return e
    r = _assume(e, c, val)
    return r


def assume_deep(e, facts):
    """Simplify the gates of e under facts: list of (Cond, bool)."""
    if isinstance(e, bool):
        return e
    if isinstance(e, Cond):
        return e.assume(facts)
    for _ in range(50):
        todo = {}
        for a in e.atoms():
            at = ATOMS[a]
            if at.kind == 'ite':
                c = at.args[0].assume(facts)
                if isinstance(c, bool):
                    todo[a] = at.args[1 if c else 2]
                else:
                    x = assume_deep(at.args[1], facts + [(c, True)])
                    y = assume_deep(at.args[2], facts + [(c, False)])
                    n = ite(c, x, y)
                    if not equal(n, _atom_expr(at)):
                        todo[a] = n
        if not todo:
            return e
        e = subst(e, todo)
    return e


def subst(e, mp):
    """Replace atoms (ids) by expressions at the top level of e."""
    def p(poly):
        total = ZERO
        for m, c in poly.items():
            t = const(c)
            for a, k in m:
                x = mp.get(a)
                t = t * ((x ** k) if x is not None else _atom_expr(ATOMS[a]) ** k)
            total = total + t
        return total
    r = p(e.num)
    for pid, k in e.den:
        r = r / p(_polys[pid]) ** k
    return r


def subst_deep(e, mp):
    """Replace atoms everywhere, including inside function arguments.

    mp: atom id -> Expr."""
    memo = {}

    def at(i):
        if i in mp:
            return mp[i]
        if i in memo:
            return memo[i]
        a = ATOMS[i]
        if a.kind == 'sym':
            r = _atom_expr(a)
        else:
            na = tuple(go(x) for x in a.args)
            r = rebuild(a, na)
        memo[i] = r
        return r

    def go(x):
        if isinstance(x, Expr):
            if x.nan:
                return x
            m2 = {i: at(i) for i in x.atoms()}
            m2 = {i: v for i, v in m2.items() if not (v.key == _atom_expr(ATOMS[i]).key)}
            return subst(x, m2) if m2 else x
        if isinstance(x, Cond):
            return x.map(go)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(e)


def rebuild(a, args):
    if a.kind == 'sqrt':
        return sqrt(args[0])
    if a.kind == 'ite':
        return ite(args[0], args[1], args[2])
    if a.name == 'abs':
        return abs_(args[0])
    if a.name == 'relu':
        return relu(args[0])
    if a.name == 'max':
        return mx(*args)
    if a.name == 'pow':
        return args[0] ** args[1]
    if a.name in _FEV or a.name in ('sign', 'asin', 'atan', 'acos'):
        return func(a.name, args[0])
    return fn(a.name, args, pos=a.pos, kind=a.kind)


DERIV = {}   # uninterpreted function name -> callable(args, argindex) -> Expr


def diff(e, atom_id):
    """Formal derivative with respect to one atom."""
    memo = {}

    def da(i):
        if i == atom_id:
            return ONE
        if i in memo:
            return memo[i]
        a = ATOMS[i]
        r = ZERO
        if a.kind == 'sqrt':
            d = de(a.args[0])
            r = d / (2 * _atom_expr(a)) if d.num else ZERO
        elif a.kind == 'ite':
            r = ite(a.args[0], de(a.args[1]), de(a.args[2]))
        elif a.kind == 'fn':
            n = a.name
            if n in DERIV:
                for k, x in enumerate(a.args):
                    if isinstance(x, Expr):
                        d = de(x)
                        if d.num:
                            r = r + DERIV[n](a.args, k) * d
            elif any(isinstance(x, Expr) and de(x).num for x in a.args):
                x = a.args[0]
                d = de(x) if isinstance(x, Expr) else ZERO
                me = _atom_expr(a)
                if n == 'exp':
                    r = me * d
                elif n == 'log':
                    r = d / x
                elif n == 'sin':
                    r = func('cos', x) * d
                elif n == 'cos':
                    r = -func('sin', x) * d
                elif n == 'tan':
                    r = (1 + me * me) * d
                elif n == 'tanh':
                    r = (1 - me * me) * d
                elif n == 'sigmoid':
                    r = me * (1 - me) * d
                elif n == 'abs':
                    r = func('sign', x) * d
                elif n == 'sign':
                    r = ZERO
                elif n == 'relu':
                    r = ite(cmp_('lt', ZERO, x), d, ZERO)
                elif n == 'pow':
                    b, p = a.args
                    r = p * b ** (p - 1) * de(b)
                    if de(p).num:
                        r = r + me * func('log', b) * de(p)
                else:
                    r = ZERO
                    for k, x in enumerate(a.args):
                        if isinstance(x, Expr):
                            d = de(x)
                            if d.num:
                                r = r + fn(f'D{k}[{n}]', a.args) * d
        memo[i] = r
        return r

    def dp(p):
        total = ZERO
        for m, c in p.items():
            for j, (a, k) in enumerate(m):
                d = da(a)
                if not d.num:
                    continue
                mm = m[:j] + (((a, k - 1),) if k != 1 else ()) + m[j + 1:]
                total = total + Expr({mm: c * k}) * d
        return _make(total.num, total.den)

    def de(x):
        if x.nan:
            return x
        n = dp(x.num)
        r = n
        base = Expr(x.num)
        for pid, k in x.den:
            r = r / Expr(_polys[pid]) ** k
        for pid, k in x.den:
            d = dp(_polys[pid])
            if d.num:
                r = r - x * k * d / Expr(_polys[pid])
        return r
    return de(e)


def atom_of(e):
    """Id of the atom when e is exactly one atom, else None."""
    if e.nan or e.den or len(e.num) != 1:
        return None
    (m, c), = e.num.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return None


# ------------------------------------------------------------------ conditions
class Cond:
    """Boolean value numbers."""
    __slots__ = ('op', 'args', 'neg')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.neg = None

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Cond) or self.op != o.op or len(self.args) != len(o.args):
            return False
        if self.op in ('and', 'or'):
            return all(any(x == y for y in o.args) for x in self.args) and \
                all(any(x == y for y in self.args) for x in o.args)
        return all(map(args_equal, self.args, o.args))

    def __hash__(self):
        return hash(self.op)

    def __repr__(self):
        if self.op in ('lt', 'le', 'eq'):
            return f'[{self.args[0]!r} {dict(lt="<0", le="<=0", eq="==0")[self.op]}]'
        if self.op == 'not':
            return f'!{self.args[0]!r}'
        if self.op in ('and', 'or'):
            return '(' + f' {self.op} '.join(map(repr, self.args)) + ')'
        return f'{self.op}{self.args!r}'

    def exprs(self):
        out = []
        for x in self.args:
            if isinstance(x, Expr):
                out.append(x)
            elif isinstance(x, Cond):
                out += x.exprs()
        return out

    def map(self, f):
        if self.op == 'not':
            return not_(self.args[0].map(f))
        if self.op == 'and':
            return and_(*[x.map(f) for x in self.args])
        if self.op == 'or':
            return or_(*[x.map(f) for x in self.args])
        if self.op in ('lt', 'le', 'eq'):
            return cmp_(self.op, f(self.args[0]), ZERO)
        return Cond(self.op, tuple(f(x) if isinstance(x, (Expr, tuple)) else x for x in self.args))

    def assume(self, facts):
        for c, v in facts:
            if self == c:
                return v
            n = not_(c)
            if not isinstance(n, bool) and self == n:
                return not v
            if self.op in ('lt', 'le'):     # e < 0 implies e <= 0, not e <= 0 implies not e < 0
                for f, x in ((c, v), (n, not v)):
                    if isinstance(f, Cond) and f.op in ('lt', 'le') and f.op != self.op and x is (self.op == 'le') \
                            and args_equal(f.args[0], self.args[0]):
                        return x
        if self.op == 'not':
            return not_(_as(self.args[0], facts))
        if self.op == 'and':
            return and_(*[_as(x, facts) for x in self.args])
        if self.op == 'or':
            return or_(*[_as(x, facts) for x in self.args])
        return self


def _as(c, facts):
    return c if isinstance(c, bool) else c.assume(facts)


def not_(c):
    if isinstance(c, bool):
        return not c
    if c.neg is None:
        c.neg = _not(c)
        if isinstance(c.neg, Cond) and c.neg.neg is None:
            c.neg.neg = c
    return c.neg


def _not(c):
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        return cmp_('le', ZERO, c.args[0])
    if c.op == 'le':
        return cmp_('lt', ZERO, c.args[0])
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    return Cond('not', (c,))


def _nary(op, cs):
    unit = op == 'and'
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c != unit:
                return c
            continue
        sub = c.args if c.op == op else (c,)
        for s in sub:
            if not any(s == t for t in out):
                out.append(s)
    for s in out:
        n = not_(s)
        if not isinstance(n, bool) and any(n == t for t in out):
            return not unit
    # unit resolution / absorption: literals simplify compound members
    if len(out) > 1:
        comp = [s for s in out if s.op in ('and', 'or')]
        if comp:
            changed = False
            res = []
            for s in out:
                if s.op in ('and', 'or'):
                    facts = [(t, unit) for t in out if t is not s and t.op not in ('and', 'or')]
                    n = s.assume(facts) if facts else s
                    if isinstance(n, bool):
                        if n != unit:
                            return n
                        changed = True
                        continue
                    if n != s:
                        changed = True
                    res.append(n)
                else:
                    res.append(s)
            if changed:
                return _nary(op, res)
            out = res
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return Cond(op, tuple(out))


def and_(*cs):
    return _nary('and', cs)


def or_(*cs):
    return _nary('or', cs)


def cond_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not isinstance(a, bool) and not isinstance(b, bool) and a == b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


_lits = {}


def _arms(a):
    if a.name == 'max':
        return a.args
    if a.name == 'abs':
        return (a.args[0], -a.args[0])
    if a.name == 'relu':
        return (a.args[0], ZERO)
    return None


def _by_arms(op, d):
    """Decide d < 0 (d <= 0) through an atom that is the larger of two arms and
    enters d linearly with a coefficient of known sign; None: not decided."""
    for i in sorted({a for m in d.num for a, k in m if k == 1}):
        a = ATOMS[i]
        if a.kind != 'fn' or a.name not in ('max', 'abs', 'relu'):
            continue
        if any(k != 1 for m in d.num for b, k in m if b == i):
            continue
        if any(b == i for pid, _ in d.den for m in _polys[pid] for b, _ in m):
            continue
        num = {tuple(x for x in m if x[0] != i): c for m, c in d.num.items()
               if any(b == i for b, _ in m)}
        if not all(poly_positive(_polys[pid]) for pid, _ in d.den):
            continue
        if poly_positive(num):
            sign = 1
        elif poly_positive({m: -c for m, c in num.items()}):
            sign = -1
        else:
            continue
        rs = [cmp_(op, subst(d, {i: x}), ZERO) for x in _arms(a)]
        if sign > 0:
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        else:
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
    return None


def cmp_(op, a, b):
    """Canonical comparison; result bool or Cond."""
    a, b = as_expr(a), as_expr(b)
    if op == 'gt':
        return cmp_('lt', b, a)
    if op == 'ge':
        return cmp_('le', b, a)
    if op == 'ne':
        return not_(cmp_('eq', a, b))
    if a.nan or b.nan:
        return False
    d = a - b
    if d.is_const():
        c = d.const()
        return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]
    # infinities
    inf = _sym_ids.get('inf')
    if inf is not None:
        for x, s in ((a, 1), (b, -1)):
            i = atom_of(x)
            if i == inf:
                return {'lt': s < 0, 'le': s < 0, 'eq': False}[op]
            i = atom_of(-x)
            if i == inf:
                return {'lt': s > 0, 'le': s > 0, 'eq': False}[op]
    if op in ('lt', 'le'):
        if is_positive(d):
            return False
        if is_positive(-d):
            return True
        r = _by_arms(op, d)
        if r is not None:
            return r
    elif is_positive(d) or is_positive(-d):
        return False
    # distribute over a gate when it decides both arms
    i = atom_of(a) if b.is_const() else None
    if i is not None and ATOMS[i].kind == 'ite':
        c, x, y = ATOMS[i].args
        return cond_ite(c, cmp_(op, x, b), cmp_(op, y, b))
    k = _content(d.num)
    d = d * (1 / k)
    if op == 'eq' and d.num[_lead(d.num)] < 0:
        d = -d
    k = (op, d.key)
    r = _lits.get(k)
    if r is None:
        r = _lits[k] = Cond(op, (d,))
    return r


def opaque_cond(name, *args):
    return Cond('p:' + name, tuple(args))


def unknown_cond(c):
    """Does the condition hang on a value the engine does not model (the length
    of an unknown container, an uninterpreted library result)?"""
    if not isinstance(c, Cond):
        return False
    if c.op.startswith('p:'):
        return True
    if any(unknown_cond(x) for x in c.args):
        return True
    return any(ATOMS[a].name in ('len', 'val') or str(ATOMS[a].name).startswith('len(') for e in c.exprs() for a in e.all_atoms())
