"""Helpers shared by the checks."""
import ast

from . import alg, tlib
from .values import *

S = alg.sym


def vec(name, n, dtype='float32', pos=False, lib='torch'):
    return tlib.new([S(f'{name}{i + 1}', pos) for i in range(n)], (n,), dtype, lib)


def mat(name, n, m, dtype='float32', sym=False, lib='torch'):
    d = []
    for i in range(n):
        for j in range(m):
            a, b = (min(i, j), max(i, j)) if sym else (i, j)
            d.append(S(f'{name}{a + 1}{b + 1}'))
    return tlib.new(d, (n, m), dtype, lib)


def tens(name, shape, dtype='float32', lib='torch'):
    n = tlib.numel(shape)
    return tlib.new([S(f'{name}[{i}]') for i in range(n)], shape, dtype, lib)


def const_t(rows, dtype='float32', lib='torch'):
    flat, shape = [], []

    def go(r, d):
        if isinstance(r, (list, tuple)):
            if len(shape) == d:
                shape.append(len(r))
            for x in r:
                go(x, d + 1)
        else:
            flat.append(alg.as_expr(r))
    go(rows, 0)
    return tlib.new(flat, tuple(shape), dtype, lib)


def ex(t):
    """Nested python lists of Expr from a tensor."""
    if isinstance(t, IteV):
        raise Undecided('gated tensor')
    if not isinstance(t, Tensor):
        return to_expr(t)
    if not t.shape:
        return tlib.E(t.item())
    v = [tlib.E(x) for x in t.vals()]

    def go(sh, off):
        if not sh:
            return v[off]
        st = tlib.numel(sh[1:])
        return [go(sh[1:], off + i * st) for i in range(sh[0])]
    return go(t.shape, 0)


def subclasses(I, package, base_mod, base):
    """Concrete subclasses of base defined below package (dotted prefix)."""
    b = I.get(base_mod, base)
    out = []
    for m in I.prog.all_modules():
        if not m.startswith(package):
            continue
        mod = I.module(m)
        if mod is None:
            continue
        for k, v in mod.frame.vars.items():
            if isinstance(v, ClassV) and v is not b and v.module is mod and b in v.mro:
                out.append(v)
    return out


def pydict(**kw):
    return PyDict(kw.items())


def from_py(x):
    from .pylib import from_py as f
    return f(x)


def attr_tensor(inst, shape, hint):
    """Instance attribute holding a tensor of the given shape."""
    v = inst.attrs.get(hint)
    if isinstance(v, Tensor) and v.shape == shape:
        return v
    c = [x for x in inst.attrs.values() if isinstance(x, Tensor) and x.shape == shape]
    if len(c) == 1:
        return c[0]
    raise Undecided(f'no unique attribute of shape {shape}')


def fake(I, name, base=None, **attrs):
    """Stand-in object of the analysis: attributes / native methods only.
    base: (module, class) or library path it imitates for isinstance."""
    bases = [Lib(base) if isinstance(base, str) else I.get(*base)] if base else []
    c = ClassV(name, None, bases, {}, None)
    a = {'@fake': True}
    for k, v in attrs.items():
        if k.startswith('__'):
            c.ns[k] = Native(lambda I, aa, kk, v=v: v(I, aa[1:], kk), k)
            continue
        a[k] = Native(v, k) if callable(v) and not isinstance(v, (Native, FuncV, ClassV)) else v
    return Instance(c, a)
