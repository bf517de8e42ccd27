"""Abstract semantics of torch / numpy arrays: exact shapes and views, elements
are value numbers."""
import itertools
import math
from fractions import Fraction

from . import alg
from .alg import Expr, Cond
from .values import *

NOPE = object()
_RANK = {'bool': 0, 'uint8': 1, 'int32': 2, 'int64': 3, 'float16': 4, 'float32': 5, 'float64': 6, 'complex64': 7, 'complex128': 8}


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def dtype_of(v):
    if isinstance(v, Lib):
        s = v.path.split('.')[-1]
        return {'float': 'float32' if v.path.startswith('torch') else 'float64', 'float32': 'float32',
                'float64': 'float64', 'double': 'float64', 'int': 'int32' if v.path.startswith('torch') else 'int64',
                'int32': 'int32', 'int64': 'int64', 'long': 'int64', 'bool': 'bool', 'half': 'float16',
                'float16': 'float16', 'cfloat': 'complex64', 'uint8': 'uint8', 'complex64': 'complex64'}.get(s)
    if isinstance(v, str) and v in _RANK:
        return v
    return None


def isb(x):
    return isinstance(x, (bool, Cond))


def E(x):
    return x if isinstance(x, Expr) else alg.as_expr(x)


def B(x):
    if isb(x):
        return x
    return alg.cmp_('ne', x, alg.ZERO)


def new(data, shape, dtype='float32', lib='torch'):
    data = list(data)
    if len(data) != numel(shape):
        raise AbsRaise('RuntimeError', f'{len(data)} elements for shape {shape}')
    return Tensor(Storage(data), tuple(shape), dtype=dtype, lib=lib)


def fresh_like(t, data, dtype=None):
    r = Tensor(Storage(data), t.shape, dtype=dtype or t.dtype, lib=t.lib)
    r.grad = t.grad
    return r


def view(t, shape, idx):
    r = Tensor(t.st, shape, idx, t.dtype, t.lib)
    r.grad = t.grad
    return r


def write(t, vals):
    t.st.touch()
    d = t.st.data
    boolt = t.dtype == 'bool'
    intt = t.dtype.startswith('int')
    for i, v in zip(t.idx, vals):
        if boolt and not isb(v):
            v = B(v)
        elif not boolt and isb(v):
            v = E(v)
        d[i] = v


def as_tensor(I, v, lib='torch', dtype=None):
    """Tensor of a nested Python value (copy) or gated tensors."""
    v = I.simp(v)
    if isinstance(v, Tensor):
        return v
    if isinstance(v, IteV):
        a, b = as_tensor(I, v.a, lib), as_tensor(I, v.b, lib)
        if a.shape != b.shape:
            raise Undecided('gated tensors of different shapes')
        return fresh_like(a, [el_merge(v.c, x, y) for x, y in zip(a.vals(), b.vals())])
    data, shape, dt = flatten(I, v)
    if dt == 'pyfloat':
        dt = 'float64' if lib == 'np' else I.state.get('default_dtype')
    return new(data, shape, dtype or dt, lib)


def flatten(I, v):
    v = I.simp(v)
    if isinstance(v, (bool, Cond)):
        return [v], (), 'bool'
    if isinstance(v, int):
        return [alg.const(v)], (), 'int64'
    if isinstance(v, Num):
        return [v.e], (), 'int64' if v.k == 'i' else 'pyfloat'
    if isinstance(v, Tensor):
        return v.vals(), v.shape, v.dtype
    if isinstance(v, IteV):
        t = as_tensor(I, v)
        return t.vals(), t.shape, t.dtype
    if v is None or isinstance(v, (str, PyDict)):
        raise AbsRaise('TypeError', f'cannot build a tensor from {type(v).__name__}')
    if isinstance(v, Opaque):
        return [to_expr(v)], (), 'pyfloat'
    items = I.iterate(v)
    if not items:
        return [], (0,), 'pyfloat'
    data, shape, dt = [], None, None
    for x in items:
        d, s, t = flatten(I, x)
        if shape is None:
            shape = s
        elif s != shape:
            raise AbsRaise('ValueError', 'ragged nested sequence')
        data += d
        dt = t if dt is None else promote(dt, t)
    if dt != 'bool':
        data = [E(x) for x in data]
    return data, (len(items),) + shape, dt


def promote(a, b):
    if a == b:
        return a
    r = {'pyfloat': 4.5}
    ra, rb = _RANK.get(a, r.get(a, 5)), _RANK.get(b, r.get(b, 5))
    return a if ra >= rb else b


# ------------------------------------------------------------- broadcasting
def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise AbsRaise('RuntimeError', f'shapes {shapes} cannot be broadcast')
                d = s[j]
        out.append(d)
    return tuple(out)


def strides(shape):
    st, a = [], 1
    for s in reversed(shape):
        st.append(a)
        a *= s
    return list(reversed(st))


def bpos(shape, out):
    """Flat positions (in a tensor of `shape`) of the broadcast to `out`."""
    if shape == out:
        return range(numel(shape))
    st = strides(shape)
    k = len(out) - len(shape)
    st = [0] * k + [0 if shape[i] == 1 and out[i + k] != 1 else st[i] for i in range(len(shape))]
    pos = [0]
    for n, s in zip(out, st):
        pos = [p + i * s for p in pos for i in range(n)]
    return pos


def bvals(t, out):
    v = t.vals()
    return [v[p] for p in bpos(t.shape, out)]


def result_dtype(I, a, b, lib):
    """a, b: Tensor or scalar abstract values."""
    def cat(d):
        return 0 if d == 'bool' else 1 if d.startswith(('int', 'uint')) else 3 if d.startswith('complex') else 2
    ta, tb = isinstance(a, Tensor), isinstance(b, Tensor)
    if ta and tb:
        if cat(a.dtype) == cat(b.dtype) and bool(a.shape) != bool(b.shape) and lib == 'torch':
            return a.dtype if a.shape else b.dtype
        if lib == 'torch' and cat(a.dtype) != cat(b.dtype):
            return a.dtype if cat(a.dtype) > cat(b.dtype) else b.dtype
        return promote(a.dtype, b.dtype)
    t, s = (a, b) if ta else (b, a)
    fl = isinstance(s, Num) and s.k == 'f' or isinstance(s, Opaque)
    if fl and cat(t.dtype) < 2:
        return 'float64' if lib == 'np' else I.state.get('default_dtype')
    if t.dtype == 'bool' and not isinstance(s, (bool, Cond)):
        return 'int64'
    return t.dtype


def binop(I, op, a, b):
    r = _binop(I, op, a, b)
    return stop(I, r) if I.track_grad and I.state.get('grad') is False else r


def _binop(I, op, a, b):
    lib = a.lib if isinstance(a, Tensor) else b.lib
    if isinstance(a, Tensor) and isinstance(b, Tensor) and a.lib != b.lib:
        lib = 'torch'
    for x in (a, b):
        if isinstance(x, (str, PyDict)) or x is None:
            raise AbsRaise('TypeError', f'unsupported operand for {op}: tensor and {type(x).__name__}')
        if isinstance(x, (PyList, tuple)) and lib == 'torch':
            raise AbsRaise('TypeError', 'unsupported operand: tensor and list')
    if op == 'MatMult':
        return matmul(I, a, b)
    dt = result_dtype(I, a, b, lib)
    if op == 'Div' and _RANK.get(dt, 5) <= 3:
        dt = 'float64' if lib == 'np' else I.state.get('default_dtype')
    ta = a if isinstance(a, Tensor) else as_tensor(I, a, lib)
    tb = b if isinstance(b, Tensor) else as_tensor(I, b, lib)
    sh = bshape(ta.shape, tb.shape)
    va, vb = bvals(ta, sh), bvals(tb, sh)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if op == 'BitAnd':
            r = [alg.and_(B(x), B(y)) for x, y in zip(va, vb)]
        elif op == 'BitOr':
            r = [alg.or_(B(x), B(y)) for x, y in zip(va, vb)]
        else:
            r = [alg.cond_ite(B(x), alg.not_(B(y)), B(y)) for x, y in zip(va, vb)]
        return new(r, sh, 'bool', lib)
    f = {'Add': lambda x, y: E(x) + E(y), 'Sub': lambda x, y: E(x) - E(y),
         'Mult': lambda x, y: E(x) * E(y), 'Div': lambda x, y: E(x) / E(y),
         'Pow': lambda x, y: E(x) ** E(y), 'FloorDiv': floordiv, 'Mod': mod}.get(op)
    if f is None:
        raise Undecided(f'tensor op {op}')
    if dt == 'bool':
        if op == 'Mult':
            return new([alg.and_(B(x), B(y)) for x, y in zip(va, vb)], sh, 'bool', lib)
        dt = 'int64'
    r = new([f(x, y) for x, y in zip(va, vb)], sh, dt, lib)
    r.grad = ta.grad or tb.grad
    return r


def floordiv(x, y):
    x, y = E(x), E(y)
    if x.is_const() and y.is_const() and not y.is_zero():
        return alg.const((x.const() / y.const()).__floor__())
    return alg.fn('floordiv', (x, y))


def mod(x, y):
    x, y = E(x), E(y)
    if x.is_const() and y.is_const() and not y.is_zero():
        q = (x.const() / y.const()).__floor__()
        return alg.const(x.const() - q * y.const())
    return alg.fn('mod', (x, y))


def unop(I, op, v):
    if op == 'USub':
        return map_(v, lambda x: -x)
    if op == 'Invert':
        return fresh_like(v, [alg.not_(B(x)) for x in v.vals()], 'bool')
    return v


def map_(t, f, dtype=None):
    dt = dtype or (t.dtype if t.dtype != 'bool' else 'float32')
    return fresh_like(t, [f(E(x)) for x in t.vals()], dt)


def compare(I, op, a, b):
    lib = a.lib if isinstance(a, Tensor) else b.lib
    ta = a if isinstance(a, Tensor) else as_tensor(I, a, lib)
    tb = b if isinstance(b, Tensor) else as_tensor(I, b, lib)
    sh = bshape(ta.shape, tb.shape)
    out = []
    for x, y in zip(bvals(ta, sh), bvals(tb, sh)):
        if op in ('eq', 'ne') and isb(x) and isb(y):
            c = alg.cond_ite(x, y, alg.not_(y))
            out.append(c if op == 'eq' else alg.not_(c))
        else:
            out.append(alg.cmp_(op, E(x), E(y)))
    return new(out, sh, 'bool', lib)


def any_(t):
    r = False
    for x in t.vals():
        r = alg.or_(r, B(x))
    return r


def all_(t):
    r = True
    for x in t.vals():
        r = alg.and_(r, B(x))
    return r


# ------------------------------------------------------------------ indexing
def parse_index(I, t, k):
    if isinstance(k, PyList) and k.items is not None and t.lib == 'torch' and len(k.items) < 32 and \
            any(isinstance(I.simp(x), (PyList, tuple, Tensor, SliceV)) or x is None or x is Ellipsis for x in k.items):
        k = tuple(k.items)      # a list holding sequences is indexed like a tuple
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [I.simp(x) for x in ks]
    n_used = 0
    for x in ks:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Tensor) and x.dtype == 'bool':
            n_used += len(x.shape)
        else:
            n_used += 1
    nd = len(t.shape)
    if n_used > nd:
        raise AbsRaise('IndexError', f'too many indices for tensor of dimension {nd}')
    if not any(x is Ellipsis for x in ks):
        ks = ks + [Ellipsis]
    res = []
    for x in ks:
        if x is Ellipsis:
            res += [SliceV(None, None, None)] * (nd - n_used)
        else:
            res.append(x)
    return res


def index(I, t, k):
    """-> (shape, positions into t's flat order, is_view)."""
    ks = parse_index(I, t, k)
    dims = []       # entries: ('keep', [indices]) ('new',) ('adv', id)
    adv = []        # list of (index list tensor-like (values, shape))
    d = 0
    st = strides(t.shape)
    plan = []
    for x in ks:
        if x is None:
            plan.append(('new',))
            continue
        if isinstance(x, SliceV):
            s = I.to_slice(x)
            plan.append(('sl', d, list(range(t.shape[d]))[s]))
            d += 1
            continue
        if isinstance(x, bool):
            raise Undecided('boolean scalar index')
        if isinstance(x, (PyList, tuple)) or (isinstance(x, Tensor) and (x.shape or x.dtype == 'bool')):
            xt = as_tensor(I, x)
            if xt.dtype == 'bool':
                vals = xt.vals()
                if xt.shape != t.shape[d:d + len(xt.shape)]:
                    raise AbsRaise('IndexError', f'mask shape {xt.shape} does not match {t.shape}')
                if any(isinstance(v, Cond) for v in vals):
                    raise Undecided('indexing with a symbolic mask')
                pts = list(itertools.product(*[range(s) for s in xt.shape]))
                sel = [p for p, v in zip(pts, vals) if v]
                for j in range(len(xt.shape)):
                    plan.append(('adv', d, [p[j] for p in sel], (len(sel),)))
                    d += 1
                continue
            vals = []
            for v in xt.vals():
                v = E(v)
                if not v.is_const():
                    raise Undecided('symbolic tensor index')
                i = int(v.const())
                if not -t.shape[d] <= i < t.shape[d]:
                    raise AbsRaise('IndexError', f'index {i} out of range for dimension of size {t.shape[d]}')
                vals.append(i % t.shape[d])
            plan.append(('adv', d, vals, xt.shape))
            d += 1
            continue
        i = I.as_int(x)
        if not -t.shape[d] <= i < t.shape[d]:
            raise AbsRaise('IndexError', f'index {i} out of range for dimension of size {t.shape[d]}')
        plan.append(('int', d, i % t.shape[d]))
        d += 1
    advs = [p for p in plan if p[0] == 'adv']
    if not advs:
        shape, pos = [], [0]
        for p in plan:
            if p[0] == 'new':
                shape.append(1)
            elif p[0] == 'sl':
                s = st[p[1]]
                pos = [q + i * s for q in pos for i in p[2]]
                shape.append(len(p[2]))
            else:
                pos = [q + p[2] * st[p[1]] for q in pos]
        return tuple(shape), pos, True
    ash = bshape(*[p[3] for p in advs])
    n_a = numel(ash)
    base = [0] * n_a
    # scalar ints take part in the advanced group
    for p in plan:
        if p[0] == 'adv':
            bp = bpos(p[3], ash)
            s = st[p[1]]
            base = [q + p[2][j] * s for q, j in zip(base, bp)]
        elif p[0] == 'int':
            base = [q + p[2] * st[p[1]] for q in base]
    grp = [i for i, p in enumerate(plan) if p[0] in ('adv', 'int')]
    contiguous = grp == list(range(grp[0], grp[-1] + 1))
    shape, pos, done = [], [0], False
    if not contiguous:
        pos = list(base)
        shape = list(ash)
        done = True
    for i, p in enumerate(plan):
        if p[0] == 'new':
            shape.append(1)
        elif p[0] == 'sl':
            s = st[p[1]]
            pos = [q + j * s for q in pos for j in p[2]]
            shape.append(len(p[2]))
        elif not done:
            pos = [q + b for q in pos for b in base]
            shape += list(ash)
            done = True
    return tuple(shape), pos, False


def getitem(I, t, k):
    try:
        shape, pos, is_view = index(I, t, k)
    except Undecided:
        return sym_getitem(I, t, k)
    idx = [t.idx[p] for p in pos]
    if is_view:
        return view(t, shape, idx)
    d = t.st.data
    r = new([d[i] for i in idx], shape, t.dtype, t.lib)
    r.grad = t.grad
    return r


def sym_getitem(I, t, k):
    """One symbolic integer index."""
    ks = parse_index(I, t, k)
    syms = [i for i, x in enumerate(ks) if isinstance(x, Num) and not x.e.is_const()
            or isinstance(x, Opaque)]
    if len(syms) != 1 or any(isinstance(x, (Tensor, PyList)) for x in ks):
        raise Undecided('symbolic tensor index')
    j = syms[0]
    dim = sum(1 for x in ks[:j] if x is not None)
    n = t.shape[dim]
    outs = []
    for i in range(n):
        kk = tuple(ks[:j] + [i] + ks[j + 1:])
        outs.append(getitem(I, t, kk))
    e = to_expr(ks[j])
    data = [alg.fn('index', tuple(E(o.vals()[q]) for o in outs) + (e,)) for q in range(outs[0].size)]
    return new(data, outs[0].shape, t.dtype, t.lib)


def setitem(I, t, k, v):
    if I.batched and t.st.unmapped:
        vv = I.simp(v)
        mapped_use(I, vv.vals() if isinstance(vv, Tensor) else [], 'in-place write of a mapped value into an unmapped tensor')
    v = I.simp(v)
    kk = I.simp(k)
    if isinstance(kk, Tensor) and kk.dtype == 'bool' and any(isinstance(x, Cond) for x in kk.vals()):
        # masked fill with symbolic mask
        if kk.shape != t.shape[:len(kk.shape)]:
            raise AbsRaise('IndexError', 'mask shape')
        rep = numel(t.shape[len(kk.shape):])
        tv = as_tensor(I, v)
        if tv.size != 1:
            raise Undecided('masked assignment of a tensor')
        x = tv.vals()[0]
        m = [c for c in kk.vals() for _ in range(rep)]
        write(t, [el_merge(c, x, o) for c, o in zip(m, t.vals())])
        return
    try:
        shape, pos, _ = index(I, t, kk)
    except Undecided:
        # unknown position: weak update of the whole tensor
        ks = parse_index(I, t, kk)
        tv = as_tensor(I, v, t.lib)
        I.event('weak-store', 'setitem', (kk,), {}, t)
        sym_store(I, t, ks, tv)
        return
    tv = as_tensor(I, v, t.lib)
    # leading singleton dimensions of the value may be dropped
    vs = tv.shape
    while len(vs) > len(shape) and vs[0] == 1:
        vs = vs[1:]
    tv2 = view(tv, vs, tv.idx)
    if bshape(vs, shape) != shape:
        raise AbsRaise('RuntimeError', f'shape mismatch: {tv.shape} cannot be assigned to {shape}')
    vals = bvals(tv2, shape)
    write(view(t, shape, [t.idx[p] for p in pos]), vals)


def sym_store(I, t, ks, tv):
    syms = [i for i, x in enumerate(ks) if isinstance(x, (Num, Opaque)) and not (isinstance(x, Num) and x.e.is_const())]
    if len(syms) != 1 or any(isinstance(x, (Tensor, PyList)) for x in ks) or \
            isinstance(ks[syms[0]], Opaque) and ks[syms[0]].kind != 'num':
        raise Undecided('store at symbolic index')
    j = syms[0]
    dim = sum(1 for x in ks[:j] if x is not None)
    e = to_expr(ks[j])
    for i in range(t.shape[dim]):
        kk = tuple(ks[:j] + [i] + ks[j + 1:])
        sub = getitem(I, t, kk)
        vs = bvals(tv, sub.shape)
        c = alg.cmp_('eq', e, alg.const(i))
        write(sub, [el_merge(c, x, o) for x, o in zip(vs, sub.vals())])


# ------------------------------------------------------------------ vmap
def atoms_of(vals):
    out = set()
    for x in vals:
        if isinstance(x, Expr):
            out |= x.all_atoms()
        elif isinstance(x, Cond):
            for e in x.exprs():
                out |= e.all_atoms()
    return out


def mapped_use(I, vals, what):
    """Uses of mapped values that torch.vmap rejects."""
    if I.batched and atoms_of(vals) & I.batched:
        raise AbsRaise('RuntimeError', f'vmap: {what}')


# ------------------------------------------------------------------ gradients
def stop_e(I, e):
    """Value cut from the gradient graph (opaque when gradients are tracked)."""
    if not I.track_grad or isb(e) or not isinstance(e, Expr) or e.is_const():
        return e
    return alg.fn('stopgrad', (e,), pos=False)


def stop(I, r):
    if not I.track_grad or not isinstance(r, Tensor):
        return r
    q = fresh_like(r, [stop_e(I, x) for x in r.vals()])
    q.grad = False
    return q


def has_tensor(I, v):
    v = I.simp(v)
    if isinstance(v, Tensor):
        return v.lib == 'torch'
    if isinstance(v, (tuple, list)):
        return any(has_tensor(I, x) for x in v)
    if isinstance(v, PyList) and v.items is not None:
        return any(has_tensor(I, x) for x in v.items)
    return False


# ------------------------------------------------------------------ attributes
def getattr_(I, t, name):
    if name == 'shape':
        return t.shape
    if name in ('ndim',):
        return len(t.shape)
    if name == 'T':
        return transpose_all(t)
    if name == 'mT':
        return transpose(t, -1, -2)
    if name == 'dtype':
        return Lib(('torch.' if t.lib == 'torch' else 'numpy.') + t.dtype)
    if name == 'device':
        return Opaque('device', (), 'device')
    if name == 'data':
        r = view(t, t.shape, t.idx)
        q = stop(I, r)
        if q is not r:
            q.src = r
        return q
    if name == 'requires_grad':
        return t.grad
    if name == 'grad':
        return I.opaque_attrs.get(('grad', id(t.st)), None)
    if name == 'is_cuda':
        return False
    if name == 'size' and t.lib == 'np':
        return t.size
    if name == 'is_leaf':
        return True
    if name == 'flat' and t.lib == 'np':
        return IterV([Num(x) for x in t.vals()])
    if name in ('real',):
        return t
    if name in METHODS or name in FUNCS or name.rstrip('_') in FUNCS:
        return Method(t, name)
    raise AbsRaise('AttributeError' if not _known_attr(name) else 'Undecided', f'tensor has no attribute {name!r}') \
        if not _known_attr(name) else Undecided(f'tensor attribute {name}')


_KNOWN = None


def _known_attr(name):
    return True


def setattr_(I, t, name, v):
    if name == 'requires_grad':
        t.grad = v
    elif name == 'data':
        tv = as_tensor(I, v)
        if tv.shape != t.shape:
            raise Undecided('.data of other shape')
        write(t, tv.vals())
        I.event('param-write', 'data', (v,), {}, t)
    elif name == 'grad':
        I.opaque_attrs[('grad', id(t.st))] = v
    else:
        I.event('setattr', name, (v,), {}, t)


def transpose(t, a, b):
    n = len(t.shape)
    a, b = a % n, b % n
    p = list(range(n))
    p[a], p[b] = p[b], p[a]
    return permute(t, p)


def transpose_all(t):
    return permute(t, list(reversed(range(len(t.shape)))))


def permute(t, perm):
    n = len(t.shape)
    perm = [p % n for p in perm]
    if sorted(perm) != list(range(n)):
        raise AbsRaise('RuntimeError', 'bad permutation')
    st = strides(t.shape)
    shape = tuple(t.shape[p] for p in perm)
    pos = [0]
    for p in perm:
        pos = [q + i * st[p] for q in pos for i in range(t.shape[p])]
    return view(t, shape, [t.idx[p] for p in pos])


def norm_shape(I, args, total=None):
    if len(args) == 1 and not isinstance(args[0], (int, Num, Tensor)):
        args = I.iterate(args[0])
    sh = [I.as_int(x) for x in args]
    if -1 in sh:
        k = sh.index(-1)
        n = 1
        for i, s in enumerate(sh):
            if i != k:
                n *= s
        if n == 0 or total % n:
            raise AbsRaise('RuntimeError', f'shape {sh} is invalid for input of size {total}')
        sh[k] = total // n
    return tuple(sh)


def reshape(I, t, args):
    sh = norm_shape(I, args, t.size)
    if numel(sh) != t.size:
        raise AbsRaise('RuntimeError', f'shape {sh} is invalid for input of size {t.size}')
    # contiguous -> view; otherwise a copy
    if t.idx == list(range(t.idx[0], t.idx[0] + len(t.idx))) if t.idx else True:
        return view(t, sh, t.idx)
    r = new(t.vals(), sh, t.dtype, t.lib)
    r.grad = t.grad
    return r


# ------------------------------------------------------------------ reductions
def reduce(I, t, f, dim, keepdim=False, dtype=None):
    dt = dtype or t.dtype
    if dim is None:
        return new([f(t.vals())], (1,) * len(t.shape) if keepdim else (), dt, t.lib)
    dims = [I.as_int(x) for x in (I.iterate(dim) if isinstance(dim, (tuple, PyList)) else [dim])]
    n = len(t.shape)
    for d in dims:
        if not -n <= d < max(n, 1):
            raise AbsRaise('IndexError', f'dimension {d} out of range')
    dims = [d % n if n else 0 for d in dims]
    if not n:
        return new([f(t.vals())], (), dt, t.lib)
    keep = [i for i in range(n) if i not in dims]
    p = permute(t, keep + dims)
    m = numel([t.shape[d] for d in dims])
    v = p.vals()
    out = [f(v[i * m:(i + 1) * m]) for i in range(len(v) // m if m else numel([t.shape[i] for i in keep]))]
    shape = [t.shape[i] for i in keep]
    if keepdim:
        shape = [1 if i in dims else t.shape[i] for i in range(n)]
    r = new(out, shape, dt, t.lib)
    r.grad = t.grad
    return r


def fsum(v):
    r = alg.ZERO
    for x in v:
        r = r + E(x)
    return r


def fprod(v):
    r = alg.ONE
    for x in v:
        r = r * E(x)
    return r


def fmax(v):
    r = E(v[0])
    for x in v[1:]:
        r = alg.mx(r, E(x))
    return r


def fmin(v):
    r = E(v[0])
    for x in v[1:]:
        r = alg.mn(r, E(x))
    return r


def fmean(v):
    return fsum(v) / len(v)


def fnorm(v):
    return alg.sqrt(fsum([E(x) * E(x) for x in v]))


def matmul(I, a, b):
    a = as_tensor(I, a)
    b = as_tensor(I, b)
    if not a.shape or not b.shape:
        raise AbsRaise('RuntimeError', 'matmul of a scalar')
    if a.lib == 'torch' and b.lib == 'torch' and a.dtype != b.dtype and 'float' in a.dtype and 'float' in b.dtype:
        raise AbsRaise('RuntimeError', f'expected same dtype, got {a.dtype} and {b.dtype}')
    A = a if len(a.shape) > 1 else view(a, (1,) + a.shape, a.idx)
    Bm = b if len(b.shape) > 1 else view(b, b.shape + (1,), b.idx)
    if A.shape[-1] != Bm.shape[-2]:
        raise AbsRaise('RuntimeError', f'matmul shapes {a.shape} and {b.shape}')
    n, k, m = A.shape[-2], A.shape[-1], Bm.shape[-1]
    bs = bshape(A.shape[:-2], Bm.shape[:-2])
    va, vb = A.vals(), Bm.vals()
    pa = bpos(A.shape[:-2], bs) if bs else [0]
    pb = bpos(Bm.shape[:-2], bs) if bs else [0]
    out = []
    for x, y in zip(pa, pb):
        for i in range(n):
            for j in range(m):
                s = alg.ZERO
                for q in range(k):
                    u = E(va[x * n * k + i * k + q])
                    if u.num or u.nan:
                        s = s + u * E(vb[y * k * m + q * m + j])
                out.append(s)
    shape = list(bs) + [n, m]
    if len(a.shape) == 1:
        shape.pop(-2)
    if len(b.shape) == 1:
        shape.pop(-1)
    r = new(out, shape, promote(a.dtype, b.dtype), a.lib)
    r.grad = a.grad or b.grad
    return r


def einsum(I, spec, ops):
    ops = [as_tensor(I, o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise AbsRaise('ValueError', 'einsum operands')
    # ellipsis
    el = ()
    for s, o in zip(ins, ops):
        if '...' in s:
            n = len(o.shape) - len(s.replace('...', ''))
            if n > len(el):
                el = tuple(chr(0x3b1 + i) for i in range(n))
    ins2 = []
    for s, o in zip(ins, ops):
        if '...' in s:
            n = len(o.shape) - len(s.replace('...', ''))
            s = s.replace('...', ''.join(el[len(el) - n:]))
        ins2.append(s)
    if out is None:
        allc = ''.join(ins2)
        out = ''.join(el) + ''.join(sorted(c for c in set(allc) if allc.count(c) == 1 and c not in el))
    else:
        out = out.replace('...', ''.join(el))
    size = {}
    for s, o in zip(ins2, ops):
        if len(s) != len(o.shape):
            raise AbsRaise('RuntimeError', f'einsum: {s} does not match tensor of dimension {len(o.shape)}')
        for c, d in zip(s, o.shape):
            if c in size and size[c] != d and 1 not in (d, size[c]):
                raise AbsRaise('RuntimeError', f'einsum: size mismatch for {c}')
            size[c] = max(size.get(c, 1), d)
    red = [c for c in size if c not in out]
    vals = [o.vals() for o in ops]
    sts = []
    for s, o in zip(ins2, ops):
        st = strides(o.shape)
        m = {}
        for c, d, q in zip(s, o.shape, st):
            m[c] = m.get(c, 0) + (q if d > 1 else 0)
        sts.append(m)
    res = []
    rr = list(itertools.product(*[range(size[c]) for c in red]))
    for oi in itertools.product(*[range(size[c]) for c in out]):
        base = [sum(m.get(c, 0) * i for c, i in zip(out, oi)) for m in sts]
        s = alg.ZERO
        for ri in rr:
            p = alg.ONE
            for v, b, m in zip(vals, base, sts):
                x = E(v[b + sum(m.get(c, 0) * i for c, i in zip(red, ri))])
                if not x.num and not x.nan:
                    p = None
                    break
                p = p * x
            if p is not None:
                s = s + p
        res.append(s)
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = promote(dt, o.dtype)
    return new(res, [size[c] for c in out], dt, ops[0].lib)


def det(m, n):
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = alg.ZERO
    for j in range(n):
        if not m[0][j].num:
            continue
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * det(sub, n - 1)
        r = r + t if j % 2 == 0 else r - t
    return r


def mat_rows(t):
    n, m = t.shape[-2:]
    v = [E(x) for x in t.vals()]
    return [v[i * m:(i + 1) * m] for i in range(n)]


def inverse(rows):
    n = len(rows)
    blocks = diag_blocks(rows)
    out = [[alg.ZERO] * n for _ in range(n)]
    for b in blocks:
        sub = [[rows[i][j] for j in b] for i in b]
        k = len(b)
        if all(x.is_const() for r in sub for x in r):
            inv = const_inverse(sub)
        elif k <= 4:
            d = det(sub, k)
            di = d.inv()
            inv = [[None] * k for _ in range(k)]
            for i in range(k):
                for j in range(k):
                    minor = [r[:i] + r[i + 1:] for q, r in enumerate(sub) if q != j]
                    c = det(minor, k - 1) if k > 1 else alg.ONE
                    inv[i][j] = (c if (i + j) % 2 == 0 else -c) * di
        else:
            flat = tuple(x for r in sub for x in r)
            inv = [[alg.fn('inv', (i, j) + flat) for j in range(k)] for i in range(k)]
        for i, bi in enumerate(b):
            for j, bj in enumerate(b):
                out[bi][bj] = inv[i][j]
    return out


def diag_blocks(rows):
    n = len(rows)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and (rows[i][j].num or rows[i][j].nan):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def const_inverse(sub):
    k = len(sub)
    m = [[x.const() for x in r] + [Fraction(int(i == j)) for j in range(k)] for i, r in enumerate(sub)]
    for c in range(k):
        p = next((r for r in range(c, k) if m[r][c] != 0), None)
        if p is None:
            raise AbsRaise('RuntimeError', 'singular matrix')
        m[c], m[p] = m[p], m[c]
        pv = m[c][c]
        m[c] = [x / pv for x in m[c]]
        for r in range(k):
            if r != c and m[r][c] != 0:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [[alg.const(x) for x in r[k:]] for r in m]


def batch_apply(t, f, out_tail):
    """Apply f(rows) over leading dims; f returns flat list."""
    lead = t.shape[:-2]
    n = numel(lead)
    m = t.shape[-2] * t.shape[-1]
    v = t.vals()
    out = []
    for i in range(n):
        sub = Tensor(Storage(v[i * m:(i + 1) * m]), t.shape[-2:], dtype=t.dtype)
        out += f(mat_rows(sub))
    return new(out, lead + out_tail, t.dtype, t.lib)


# ------------------------------------------------------------------ functions
def arg(args, kwargs, i, names, default=None):
    if len(args) > i:
        return args[i]
    for n in ([names] if isinstance(names, str) else names):
        if n in kwargs:
            return kwargs[n]
    return default


FUNCS = {}
METHODS = set()


def reg(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def unary(name, f):
    @reg(name)
    def g(I, lib, a, k):
        v = I.simp(a[0]) if a else I.simp(k.get('input', k.get('x')))
        if is_num(v) and lib == 'np':
            return Num(f(to_expr(v)))
        t = as_tensor(I, v, lib)
        dt = t.dtype if 'float' in t.dtype or 'complex' in t.dtype else (I.state.get('default_dtype') if lib == 'torch' else 'float64')
        if name in ('abs', 'absolute', 'neg', 'negative', 'sign', 'square', 'floor', 'ceil', 'round', 'relu'):
            dt = t.dtype
        return map_(t, f, dt)
    return g


def _cfun(name, fl):
    def f(e):
        if e.is_const():
            return alg.const(fl(e.const()))
        return alg.fn(name, (e,))
    return f


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sigmoid', 'asin', 'acos', 'atan', 'sign'):
    unary(_n, lambda e, n=_n: alg.func(n, e))
for _n, _m in (('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan')):
    unary(_n, lambda e, n=_m: alg.func(n, e))
unary('sqrt', alg.sqrt)
unary('abs', alg.abs_)
unary('absolute', alg.abs_)
unary('relu', alg.relu)
unary('neg', lambda e: -e)
unary('negative', lambda e: -e)
unary('square', lambda e: e * e)
unary('reciprocal', lambda e: e.inv())
unary('rsqrt', lambda e: alg.sqrt(e).inv())
unary('deg2rad', lambda e: e * alg.sym('pi', pos=True) / 180)
unary('radians', lambda e: e * alg.sym('pi', pos=True) / 180)
unary('rad2deg', lambda e: e * 180 / alg.sym('pi', pos=True))
unary('degrees', lambda e: e * 180 / alg.sym('pi', pos=True))
unary('floor', _cfun('floor', lambda c: c.__floor__()))
unary('ceil', _cfun('ceil', lambda c: c.__ceil__()))
unary('round', _cfun('round', round))
unary('log10', lambda e: alg.func('log', e) / alg.func('log', alg.const(10)))
unary('log2', lambda e: alg.func('log', e) / alg.func('log', alg.const(2)))
unary('silu', lambda e: e * alg.func('sigmoid', e))


@reg('isnan')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, [nan_cond(E(x)) for x in t.vals()], 'bool')


def nan_cond(e):
    if e.nan:
        return True
    # gated NaN
    c = False
    for i in e.atoms():
        at = alg.ATOMS[i]
        if at.kind == 'ite':
            c = alg.or_(c, alg.cond_ite(at.args[0], nan_cond(at.args[1]), nan_cond(at.args[2])))
    return c


@reg('isfinite')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, [alg.not_(nan_cond(E(x))) for x in t.vals()], 'bool')


@reg('isinf')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, [False for x in t.vals()], 'bool')


@reg('nan_to_num')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, [alg.ite(nan_cond(E(x)), alg.ZERO, E(x)) for x in t.vals()])


def binary(name, op):
    @reg(name)
    def g(I, lib, a, k):
        x = a[0] if a else k.get('input')
        y = a[1] if len(a) > 1 else k.get('other')
        x, y = I.simp(x), I.simp(y)
        if 'alpha' in k:
            y = I.binop('Mult', y, k['alpha'])
        if not isinstance(x, Tensor) and not isinstance(y, Tensor):
            x = as_tensor(I, x, lib)
        if isinstance(x, IteV):
            x = as_tensor(I, x)
        if isinstance(y, IteV):
            y = as_tensor(I, y)
        return binop(I, op, x, y)
    return g


for _n, _o in (('mul', 'Mult'), ('multiply', 'Mult'), ('add', 'Add'), ('sub', 'Sub'), ('subtract', 'Sub'),
               ('div', 'Div'), ('divide', 'Div'), ('true_divide', 'Div'), ('pow', 'Pow'), ('power', 'Pow'),
               ('matmul', 'MatMult'), ('mm', 'MatMult'), ('mv', 'MatMult'), ('bmm', 'MatMult'),
               ('floor_divide', 'FloorDiv'), ('remainder', 'Mod'), ('logical_and', 'BitAnd'),
               ('logical_or', 'BitOr'), ('logical_xor', 'BitXor'), ('bitwise_and', 'BitAnd'),
               ('bitwise_or', 'BitOr')):
    binary(_n, _o)


@reg('dot', 'inner', 'vdot')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    if len(x.shape) == 1 and len(y.shape) == 1:
        if x.shape != y.shape:
            raise AbsRaise('RuntimeError', 'dot: size mismatch')
        return new([fsum([E(p) * E(q) for p, q in zip(x.vals(), y.vals())])], (), promote(x.dtype, y.dtype), lib)
    return matmul(I, x, y)


for _n in ('ge', 'gt', 'le', 'lt', 'eq', 'ne', 'greater', 'less', 'greater_equal', 'less_equal', 'not_equal'):
    def _mk(n):
        op = {'greater': 'gt', 'less': 'lt', 'greater_equal': 'ge', 'less_equal': 'le', 'not_equal': 'ne'}.get(n, n)

        @reg(n)
        def g(I, lib, a, k):
            x, y = I.simp(a[0]), I.simp(a[1] if len(a) > 1 else k['other'])
            if not isinstance(x, Tensor) and not isinstance(y, Tensor):
                x = as_tensor(I, x, lib)
            return compare(I, op, x, y)
    _mk(_n)


@reg('logical_not', 'bitwise_not')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, [alg.not_(B(x)) for x in t.vals()], 'bool')


@reg('maximum', 'fmax')
def _(I, lib, a, k):
    return elementwise(I, lib, a[0], a[1] if len(a) > 1 else k['other'], alg.mx)


@reg('minimum', 'fmin')
def _(I, lib, a, k):
    return elementwise(I, lib, a[0], a[1] if len(a) > 1 else k['other'], alg.mn)


@reg('atan2', 'arctan2')
def _(I, lib, a, k):
    return elementwise(I, lib, a[0], a[1], lambda x, y: alg.fn('atan2', (x, y)))


@reg('hypot')
def _(I, lib, a, k):
    return elementwise(I, lib, a[0], a[1], lambda x, y: alg.sqrt(x * x + y * y))


def elementwise(I, lib, x, y, f):
    tx, ty = as_tensor(I, x, lib), as_tensor(I, y, lib)
    sh = bshape(tx.shape, ty.shape)
    r = new([f(E(p), E(q)) for p, q in zip(bvals(tx, sh), bvals(ty, sh))], sh,
            result_dtype(I, tx, ty, lib), lib)
    return r


def redf(names, f, boolout=False):
    @reg(*names)
    def g(I, lib, a, k):
        t = as_tensor(I, a[0] if a else k.get('input', k.get('a')), lib)
        dim = arg(a, k, 1, ('dim', 'axis'))
        keep = arg(a, k, 2, ('keepdim', 'keepdims'), False)
        if isinstance(dim, (Tensor,)):
            # torch.max(a, b)
            return elementwise(I, lib, t, dim, alg.mx if f is fmax else alg.mn)
        if boolout:
            r = reduce(I, t, f, dim, bool(keep), 'bool')
        else:
            dt = t.dtype
            if dt == 'bool':
                dt = 'int64'
            if f is fmean and 'float' not in dt:
                if lib == 'torch':
                    raise AbsRaise('RuntimeError', f'mean() of dtype {dt}')
                dt = 'float64'
            r = reduce(I, t, f, dim, bool(keep), dt)
        if f in (fmax, fmin) and dim is not None and lib == 'torch' and names[0] in ('max', 'min'):
            idx = reduce(I, t, lambda v: alg.fn('arg' + names[0], tuple(map(E, v))), dim, bool(keep), 'int64')
            return MaxRet((r, idx))
        return r
    return g


class MaxRet(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _ball(v):
    r = True
    for x in v:
        r = alg.and_(r, B(x))
    return r


def _bany(v):
    r = False
    for x in v:
        r = alg.or_(r, B(x))
    return r


redf(('sum', 'nansum'), fsum)
redf(('mean', 'average', 'nanmean'), fmean)
redf(('prod',), fprod)
redf(('max',), fmax)
redf(('amax', 'nanmax'), fmax)
redf(('min',), fmin)
redf(('amin', 'nanmin'), fmin)
redf(('all',), _ball, True)
redf(('any',), _bany, True)


@reg('argmax')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return reduce(I, t, lambda v: _argx('argmax', v), arg(a, k, 1, ('dim', 'axis')), False, 'int64')


@reg('argmin')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return reduce(I, t, lambda v: _argx('argmin', v), arg(a, k, 1, ('dim', 'axis')), False, 'int64')


def _argx(n, v):
    v = [E(x) for x in v]
    if all(x.is_const() for x in v):
        c = [x.const() for x in v]
        return alg.const(c.index(max(c) if n == 'argmax' else min(c)))
    return alg.fn(n, tuple(v))


@reg('std', 'var', 'nanstd')
def _(I, lib, a, k, name='std'):
    raise Undecided('std')


def _stdvar(name):
    @reg(name)
    def g(I, lib, a, k):
        t = as_tensor(I, a[0] if a else k['input'], lib)
        dim = arg(a, k, 1, ('dim', 'axis'))
        if isinstance(dim, bool):
            dim = None
        corr = 1 if lib == 'torch' else 0
        u = k.get('unbiased', None)
        if u is not None:
            corr = 1 if u else 0
        if 'correction' in k:
            corr = I.as_int(k['correction'])
        if 'ddof' in k:
            corr = I.as_int(k['ddof'])
        keep = k.get('keepdim', k.get('keepdims', False))

        def f(v):
            m = fmean(v)
            n = len(v) - corr
            s = fsum([(E(x) - m) * (E(x) - m) for x in v])
            if n <= 0:
                return alg.NAN
            s = s / n
            return alg.sqrt(s) if name == 'std' else s
        return reduce(I, t, f, dim, bool(keep))


_stdvar('std')
_stdvar('var')


@reg('norm', 'linalg.norm', 'linalg.vector_norm', 'linalg.matrix_norm')
def _(I, lib, a, k):
    t = as_tensor(I, a[0] if a else k['input'], lib)
    p = arg(a, k, 1, ('p', 'ord'))
    p = I.simp(p)
    dim = arg(a, k, 2, ('dim', 'axis'))
    keep = bool(arg(a, k, 3, ('keepdim', 'keepdims'), False))
    if p is not None and not (p == 'fro') and not (is_num(p) and to_expr(p) == 2):
        if is_num(p) and to_expr(p) == 1:
            return reduce(I, t, lambda v: fsum([alg.abs_(E(x)) for x in v]), dim, keep)
        if is_num(p) and not to_expr(p).is_const():
            raise Undecided('norm order')
        if is_num(p):
            i = alg._sym_ids.get('inf')
            if alg.atom_of(to_expr(p)) == i:
                return reduce(I, t, lambda v: fmax([alg.abs_(E(x)) for x in v]), dim, keep)
        raise Undecided('norm order')
    if p is not None and is_num(p) and dim is None and len(t.shape) == 2:
        raise Undecided('spectral norm')
    return reduce(I, t, fnorm, dim, keep)


@reg('trace')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    if len(t.shape) != 2:
        raise AbsRaise('RuntimeError', 'trace: expected a matrix')
    v = t.vals()
    m = t.shape[1]
    return new([fsum([v[i * m + i] for i in range(min(t.shape))])], (), t.dtype, lib)


@reg('det', 'linalg.det')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    if len(t.shape) < 2 or t.shape[-1] != t.shape[-2]:
        raise AbsRaise('RuntimeError', 'det: square matrix expected')
    return batch_apply(t, lambda r: [det(r, len(r))], ())


@reg('inverse', 'linalg.inv')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    if len(t.shape) < 2 or t.shape[-1] != t.shape[-2]:
        raise AbsRaise('RuntimeError', 'inverse: square matrix expected')
    return batch_apply(t, lambda r: [x for row in inverse(r) for x in row], t.shape[-2:])


@reg('linalg.solve')
def _(I, lib, a, k):
    A, b = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    inv = FUNCS['inverse'](I, lib, [A], {})
    return matmul(I, inv, b)


@reg('linalg.eigh', 'linalg.eig', 'linalg.svd', 'linalg.eigvalsh')
def _(I, lib, a, k):
    raise Undecided('eigen decomposition')


@reg('outer', 'ger')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    return einsum(I, 'i,j->ij', [x, y])


@reg('cross', 'linalg.cross')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    if x.shape != (3,) or y.shape != (3,):
        raise Undecided('cross')
    p, q = [E(v) for v in x.vals()], [E(v) for v in y.vals()]
    return new([p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]], (3,), x.dtype, lib)


@reg('einsum')
def _(I, lib, a, k):
    ops = list(a[1:])
    if len(ops) == 1 and isinstance(ops[0], (PyList, tuple)):
        ops = I.iterate(ops[0])
    return einsum(I, a[0], ops)


@reg('tensordot')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    d = arg(a, k, 2, ('dims', 'axes'), 2)
    nx, ny = len(x.shape), len(y.shape)
    if isinstance(d, int):
        ax, ay = list(range(nx - d, nx)), list(range(d))
    else:
        ax, ay = [list(map(I.as_int, I.iterate(q))) if not isinstance(q, int) else [q] for q in I.iterate(d)]
    lx = [chr(97 + i) for i in range(nx)]
    ly = [chr(65 + i) for i in range(ny)]
    for i, j in zip(ax, ay):
        ly[j % ny] = lx[i % nx]
    out = [c for i, c in enumerate(lx) if i not in [q % nx for q in ax]] + [c for j, c in enumerate(ly) if j not in [q % ny for q in ay]]
    return einsum(I, ''.join(lx) + ',' + ''.join(ly) + '->' + ''.join(out), [x, y])


@reg('kron')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    r = einsum(I, 'ij,kl->ikjl', [x, y])
    return view(r, (x.shape[0] * y.shape[0], x.shape[1] * y.shape[1]), r.idx)


# creation ---------------------------------------------------------------
def _shape_args(I, a, k):
    if a:
        if len(a) >= 1 and isinstance(a[0], (PyList, tuple)):
            return tuple(I.as_int(x) for x in I.iterate(a[0]))
        return tuple(I.as_int(x) for x in a)
    s = k.get('size', k.get('shape'))
    if isinstance(s, (PyList, tuple)):
        return tuple(I.as_int(x) for x in I.iterate(s))
    return (I.as_int(s),)


def _dt(I, lib, k, default=None):
    d = k.get('dtype')
    if d is not None:
        r = dtype_of(I.simp(d))
        if r is None:
            raise Undecided('dtype')
        return r
    return default or (I.state.get('default_dtype') if lib == 'torch' else 'float64')


def filled(name, val):
    @reg(name)
    def g(I, lib, a, k):
        if lib == 'np' and len(a) > 1:
            k = dict(k)
            k.setdefault('dtype', a[1])
            a = a[:1]
        sh = _shape_args(I, a, k)
        dt = _dt(I, lib, k)
        n = numel(sh)
        if n > 60000:
            raise Undecided('large tensor')
        if dt == 'bool':
            data = [bool(val)] * n
        else:
            data = [alg.ONE if val else alg.ZERO] * n
        if val is None:
            u = tick()
            data = [alg.sym(f'uninit{u}[{i}]') for i in range(n)]
        r = new(data, sh, dt, lib)
        if k.get('requires_grad') is True:
            r.grad = True
        return r


filled('zeros', 0)
filled('ones', 1)
filled('empty', None)


def filled_like(name, val):
    @reg(name)
    def g(I, lib, a, k):
        t = as_tensor(I, a[0] if a else k['input'], lib)
        dt = _dt(I, lib, k, t.dtype)
        if val is None:
            u = tick()
            data = [alg.sym(f'uninit{u}[{i}]') for i in range(t.size)]
        elif dt == 'bool':
            data = [bool(val)] * t.size
        else:
            data = [alg.ONE if val else alg.ZERO] * t.size
        return new(data, t.shape, dt, lib)


filled_like('zeros_like', 0)
filled_like('ones_like', 1)
filled_like('empty_like', None)


@reg('full')
def _(I, lib, a, k):
    sh = _shape_args(I, a[:1], k)
    v = arg(a, k, 1, 'fill_value')
    if v is None and lib == 'np':
        return new([alg.sym('none@')] * numel(sh), sh, 'float64', lib)
    t = as_tensor(I, v, lib)
    dt = _dt(I, lib, k, t.dtype if t.dtype != 'int64' or lib == 'torch' else 'int64')
    x = t.vals()[0]
    return new([B(x) if dt == 'bool' else E(x)] * numel(sh), sh, dt, lib)


@reg('full_like')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    v = as_tensor(I, arg(a, k, 1, 'fill_value'), lib).vals()[0]
    dt = _dt(I, lib, k, t.dtype)
    return new([B(v) if dt == 'bool' else E(v)] * t.size, t.shape, dt, lib)


@reg('eye', 'identity')
def _(I, lib, a, k):
    n = I.as_int(a[0] if a else k['n'])
    m = I.as_int(a[1]) if len(a) > 1 else I.as_int(k.get('m', k.get('M', n)))
    return new([alg.ONE if i == j else alg.ZERO for i in range(n) for j in range(m)], (n, m), _dt(I, lib, k), lib)


@reg('tensor', 'array', 'asarray', 'as_tensor', 'from_numpy')
def _(I, lib, a, k):
    v = I.simp(a[0] if a else k.get('data', k.get('object')))
    dt = None
    if k.get('dtype') is not None:
        dt = dtype_of(I.simp(k['dtype']))
    if len(a) > 1 and lib == 'np':
        dt = dtype_of(I.simp(a[1]))
    if isinstance(v, Opaque):
        return Opaque('tensor', (v,), None)
    t = as_tensor(I, v, lib)
    data = t.vals()
    d2 = dt or t.dtype
    if d2 == 'pyfloat':
        d2 = I.state.get('default_dtype')
    if d2 != 'bool':
        data = [E(x) for x in data]
    else:
        data = [B(x) for x in data]
    r = new(data, t.shape, d2, lib)
    if k.get('requires_grad') is True:
        r.grad = True
    return r


def _atleast(I, lib, a, n):
    t = as_tensor(I, I.simp(a[0]), lib)
    return view(t, (1,) * (n - len(t.shape)) + tuple(t.shape), t.idx) if len(t.shape) < n else t


@reg('atleast_1d')
def _(I, lib, a, k):
    return _atleast(I, lib, a, 1)


@reg('atleast_2d')
def _(I, lib, a, k):
    return _atleast(I, lib, a, 2)


@reg('arange')
def _(I, lib, a, k):
    args = [I.simp(x) for x in a]
    for n in ('start', 'end', 'stop', 'step'):
        if n in k:
            args.append(I.simp(k[n]))
    es = [to_expr(x) for x in args]
    if not all(e.is_const() for e in es):
        raise Undecided('arange of symbolic bounds')
    c = [e.const() for e in es]
    lo, hi, st = (0, c[0], 1) if len(c) == 1 else (c[0], c[1], 1) if len(c) == 2 else c
    out = []
    x = Fraction(lo)
    while (st > 0 and x < hi) or (st < 0 and x > hi):
        out.append(alg.const(x))
        x += st
        if len(out) > 20000:
            raise Undecided('long arange')
    ints = all(isinstance(x, int) or (isinstance(x, Num) and x.k == 'i') for x in args)
    return new(out, (len(out),), _dt(I, lib, k, 'int64' if ints else None), lib)


@reg('linspace')
def _(I, lib, a, k):
    lo = to_expr(I.simp(arg(a, k, 0, 'start')))
    hi = to_expr(I.simp(arg(a, k, 1, ('end', 'stop'))))
    n = I.as_int(arg(a, k, 2, ('steps', 'num'), 50))
    ep = k.get('endpoint', True)
    m = n - 1 if ep is True else n
    out = [lo + (hi - lo) * alg.const(Fraction(i, m)) if m else lo for i in range(n)]
    return new(out, (n,), _dt(I, lib, k), lib)


@reg('meshgrid')
def _(I, lib, a, k):
    ts = [as_tensor(I, x, lib) for x in a]
    ix = k.get('indexing', 'ij' if lib == 'torch' else 'xy')
    sh = tuple(t.size for t in ts)
    outs = []
    for d, t in enumerate(ts):
        v = t.vals()
        data = [v[p[d]] for p in itertools.product(*[range(s) for s in sh])]
        r = new(data, sh, t.dtype, lib)
        if ix == 'xy' and len(sh) > 1:
            r = transpose(r, 0, 1)
        outs.append(r)
    return tuple(outs) if lib == 'torch' else PyList(outs)


# joining ---------------------------------------------------------------
@reg('stack')
def _(I, lib, a, k):
    seq = [as_tensor(I, x, lib) for x in I.iterate(a[0] if a else k['tensors'])]
    if not seq:
        raise AbsRaise('RuntimeError', 'stack expects a non-empty list')
    dim = I.as_int(arg(a, k, 1, ('dim', 'axis'), 0))
    sh = seq[0].shape
    for s in seq:
        if s.shape != sh:
            raise AbsRaise('RuntimeError', f'stack expects equal sizes, got {sh} and {s.shape}')
    n = len(sh) + 1
    if not -n <= dim < n:
        raise AbsRaise('IndexError', 'stack dimension')
    dim %= n
    dt = seq[0].dtype
    for s in seq[1:]:
        dt = promote(dt, s.dtype)
    data = [x for s in seq for x in s.vals()]
    if dt != 'bool':
        data = [E(x) for x in data]
    r = new(data, (len(seq),) + sh, dt, lib)
    r.grad = any(s.grad for s in seq)
    return contig(permute(r, list(range(1, dim + 1)) + [0] + list(range(dim + 1, n)))) if dim else r


def contig(t):
    return fresh_like(t, t.vals())


@reg('cat', 'concatenate', 'concat')
def _(I, lib, a, k):
    seq = [as_tensor(I, x, lib) for x in I.iterate(a[0] if a else k['tensors'])]
    dim = arg(a, k, 1, ('dim', 'axis'), 0)
    if dim is None:
        return new([x for t in seq for x in t.vals()], (sum(t.size for t in seq),), seq[0].dtype, lib)
    return cat(I, seq, I.as_int(dim), lib)


def cat(I, seq, dim, lib):
    seq = [s for s in seq if s.shape != (0,)] or seq[:1]
    if not seq:
        raise AbsRaise('RuntimeError', 'cat expects a non-empty list')
    n = len(seq[0].shape)
    if n == 0:
        raise AbsRaise('RuntimeError', 'zero-dimensional tensor cannot be concatenated')
    if not -n <= dim < n:
        raise AbsRaise('IndexError', 'cat dimension')
    dim %= n
    for s in seq[1:]:
        if len(s.shape) != n or any(s.shape[i] != seq[0].shape[i] for i in range(n) if i != dim):
            raise AbsRaise('RuntimeError', f'cat: sizes {seq[0].shape} and {s.shape} along dim {dim}')
    dt = seq[0].dtype
    for s in seq[1:]:
        dt = promote(dt, s.dtype)
    perm = [dim] + [i for i in range(n) if i != dim]
    data = []
    tot = 0
    for s in seq:
        data += permute(s, perm).vals()
        tot += s.shape[dim]
    if dt != 'bool':
        data = [E(x) for x in data]
    rest = tuple(seq[0].shape[i] for i in range(n) if i != dim)
    r = new(data, (tot,) + rest, dt, lib)
    inv = [perm.index(i) for i in range(n)]
    r = permute(r, inv)
    r = contig(r) if dim else r
    r.grad = any(s.grad for s in seq)
    return r


@reg('vstack', 'row_stack')
def _(I, lib, a, k):
    seq = [as_tensor(I, x, lib) for x in I.iterate(a[0])]
    seq = [view(s, (1,) + s.shape, s.idx) if len(s.shape) == 1 else s for s in seq]
    return cat(I, seq, 0, lib)


@reg('hstack')
def _(I, lib, a, k):
    seq = [as_tensor(I, x, lib) for x in I.iterate(a[0])]
    return cat(I, seq, 0 if len(seq[0].shape) == 1 else 1, lib)


@reg('column_stack')
def _(I, lib, a, k):
    seq = [as_tensor(I, x, lib) for x in I.iterate(a[0])]
    seq = [view(s, s.shape + (1,), s.idx) if len(s.shape) == 1 else s for s in seq]
    return cat(I, seq, 1, lib)


@reg('append')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    if ax is None:
        return new(x.vals() + y.vals(), (x.size + y.size,), x.dtype, lib)
    return cat(I, [x, y], I.as_int(ax), lib)


@reg('where')
def _(I, lib, a, k):
    c = as_tensor(I, a[0], lib)
    if len(a) == 1:
        vals = c.vals()
        bs = [B(v) for v in vals]
        if any(isinstance(b, Cond) for b in bs):
            raise Undecided('where(cond) with symbolic condition')
        pts = [p for p, b in zip(itertools.product(*[range(s) for s in c.shape]), bs) if b]
        return tuple(new([alg.const(p[i]) for p in pts], (len(pts),), 'int64', lib) for i in range(len(c.shape)))
    xv, yv = I.simp(a[1]), I.simp(a[2])
    x, y = as_tensor(I, xv, lib), as_tensor(I, yv, lib)
    sh = bshape(c.shape, x.shape, y.shape)
    dt = x.dtype if not isinstance(yv, Tensor) and isinstance(xv, Tensor) else \
        y.dtype if isinstance(yv, Tensor) and not isinstance(xv, Tensor) else promote(x.dtype, y.dtype)
    r = new([el_merge2(B(p), q, s) for p, q, s in zip(bvals(c, sh), bvals(x, sh), bvals(y, sh))], sh, dt, lib)
    r.grad = x.grad or y.grad
    return r


def el_merge2(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return el_merge(c, a, b)


@reg('clamp', 'clip')
def _(I, lib, a, k):
    t = as_tensor(I, a[0] if a else k['input'], lib)
    lo = arg(a, k, 1, ('min', 'a_min'))
    hi = arg(a, k, 2, ('max', 'a_max'))
    r = t
    if lo is not None:
        r = elementwise(I, lib, r, lo, alg.mx)
    if hi is not None:
        r = elementwise(I, lib, r, hi, alg.mn)
    return fresh_like(r, r.vals(), t.dtype)


@reg('clamp_min')
def _(I, lib, a, k):
    t = as_tensor(I, a[0] if a else k['input'], lib)
    r = elementwise(I, lib, t, arg(a, k, 1, 'min'), alg.mx)
    return fresh_like(r, r.vals(), t.dtype)


@reg('clamp_max')
def _(I, lib, a, k):
    t = as_tensor(I, a[0] if a else k['input'], lib)
    r = elementwise(I, lib, t, arg(a, k, 1, 'max'), alg.mn)
    return fresh_like(r, r.vals(), t.dtype)


@reg('reshape')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    s = arg(a, k, 1, ('shape', 'newshape'))
    return reshape(I, t, [s])


@reg('transpose', 'swapaxes')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    if lib == 'np' and len(a) < 3:
        ax = k.get('axes', a[1] if len(a) > 1 else None)
        return transpose_all(t) if ax is None else permute(t, [I.as_int(x) for x in I.iterate(ax)])
    return transpose(t, I.as_int(arg(a, k, 1, 'dim0')), I.as_int(arg(a, k, 2, 'dim1')))


@reg('permute')
def _(I, lib, a, k):
    d = a[1:] if len(a) > 2 else I.iterate(a[1] if len(a) > 1 else k['dims'])
    return permute(as_tensor(I, a[0], lib), [I.as_int(x) for x in d])


@reg('t')
def _(I, lib, a, k):
    return transpose_all(as_tensor(I, a[0], lib))


@reg('movedim', 'moveaxis')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    n = len(t.shape)
    s, d = I.as_int(a[1]) % n, I.as_int(a[2]) % n
    p = [i for i in range(n) if i != s]
    p.insert(d, s)
    return permute(t, p)


@reg('squeeze')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = arg(a, k, 1, ('dim', 'axis'))
    n = len(t.shape)
    if d is None:
        sh = tuple(s for s in t.shape if s != 1)
    else:
        ds = [I.as_int(x) % n for x in (I.iterate(d) if isinstance(d, (tuple, PyList)) else [d])]
        sh = tuple(s for i, s in enumerate(t.shape) if not (i in ds and s == 1))
    return view(t, sh, t.idx)


@reg('unsqueeze', 'expand_dims')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(arg(a, k, 1, ('dim', 'axis')))
    n = len(t.shape) + 1
    if not -n <= d < n:
        raise AbsRaise('IndexError', 'unsqueeze dimension')
    d %= n
    return view(t, t.shape[:d] + (1,) + t.shape[d:], t.idx)


@reg('flatten', 'ravel')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    s = I.as_int(arg(a, k, 1, 'start_dim', 0)) if not isinstance(arg(a, k, 1, 'start_dim', 0), str) else 0
    e = I.as_int(arg(a, k, 2, 'end_dim', -1))
    n = len(t.shape)
    if n == 0:
        return reshape(I, t, [(1,)])
    s, e = s % n, e % n
    sh = t.shape[:s] + (numel(t.shape[s:e + 1]),) + t.shape[e + 1:]
    return reshape(I, t, [sh])


@reg('tile')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    r = arg(a, k, 1, ('dims', 'reps'))
    r = [I.as_int(x) for x in I.iterate(r)] if isinstance(r, (tuple, PyList)) else [I.as_int(r)]
    return repeat(t, r)


def repeat(t, r):
    n = max(len(r), len(t.shape))
    sh = (1,) * (n - len(t.shape)) + t.shape
    r = [1] * (n - len(r)) + list(r)
    st = strides(sh)
    pos = [0]
    for s, m, q in zip(sh, r, st):
        pos = [p + (i % s) * q for p in pos for i in range(s * m)]
    v = t.vals()
    return new([v[p] for p in pos], [s * m for s, m in zip(sh, r)], t.dtype, t.lib)


@reg('broadcast_to')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    sh = tuple(I.as_int(x) for x in I.iterate(a[1]))
    return view(t, sh, [t.idx[p] for p in bpos(t.shape, sh)])


@reg('chunk', 'array_split')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    n = I.as_int(arg(a, k, 1, ('chunks', 'indices_or_sections')))
    d = I.as_int(arg(a, k, 2, ('dim', 'axis'), 0)) % len(t.shape)
    size = -(-t.shape[d] // n)
    return split_dim(I, t, d, size)


@reg('split')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    s = arg(a, k, 1, ('split_size_or_sections', 'split_size', 'indices_or_sections'))
    d = I.as_int(arg(a, k, 2, ('dim', 'axis'), 0)) % len(t.shape)
    if isinstance(s, (PyList, tuple)):
        return split_dim(I, t, d, [I.as_int(x) for x in I.iterate(s)])
    return split_dim(I, t, d, I.as_int(s))


def split_dim(I, t, d, size):
    out, i = [], 0
    sizes = size if isinstance(size, list) else None
    j = 0
    while i < t.shape[d]:
        s = sizes[j] if sizes else size
        k = tuple([SliceV(None, None, None)] * d + [SliceV(i, min(i + s, t.shape[d]), None)])
        out.append(getitem(I, t, k))
        i += s
        j += 1
    return tuple(out)


@reg('unbind')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(arg(a, k, 1, 'dim', 0)) % len(t.shape)
    return tuple(getitem(I, t, tuple([SliceV(None, None, None)] * d + [i])) for i in range(t.shape[d]))


@reg('select', 'index_select')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(a[1] if len(a) > 1 else k['dim']) % len(t.shape)
    ix = a[2] if len(a) > 2 else k['index']
    return getitem(I, t, tuple([SliceV(None, None, None)] * d + [ix]))


@reg('narrow')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(a[1]) % len(t.shape)
    s = I.as_int(a[2])
    return getitem(I, t, tuple([SliceV(None, None, None)] * d + [SliceV(s, s + I.as_int(a[3]), None)]))


@reg('diag')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    if len(t.shape) == 1:
        n = t.size
        v = t.vals()
        return new([v[i] if i == j else alg.ZERO for i in range(n) for j in range(n)], (n, n), t.dtype, lib)
    return FUNCS['diagonal'](I, lib, a, k)


@reg('diagonal')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d1 = I.as_int(k.get('dim1', k.get('axis1', 0))) % len(t.shape)
    d2 = I.as_int(k.get('dim2', k.get('axis2', 1))) % len(t.shape)
    rest = [i for i in range(len(t.shape)) if i not in (d1, d2)]
    p = permute(t, rest + [d1, d2])
    n, m = p.shape[-2:]
    q = min(n, m)
    idx = []
    for b in range(numel(p.shape[:-2])):
        for i in range(q):
            idx.append(p.idx[b * n * m + i * m + i])
    return view(t, p.shape[:-2] + (q,), idx)


@reg('diag_embed')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    n = t.shape[-1]
    v = t.vals()
    out = []
    for b in range(t.size // n):
        for i in range(n):
            for j in range(n):
                out.append(v[b * n + i] if i == j else alg.ZERO)
    return new(out, t.shape + (n,), t.dtype, lib)


def _tri(lower):
    def g(I, lib, a, k):
        t = as_tensor(I, a[0], lib)
        d = I.as_int(arg(a, k, 1, ('diagonal', 'k'), 0))
        n, m = t.shape[-2:]
        v = t.vals()
        out = []
        for b in range(numel(t.shape[:-2])):
            for i in range(n):
                for j in range(m):
                    keep = j - i <= d if lower else j - i >= d
                    out.append(v[b * n * m + i * m + j] if keep else alg.ZERO)
        return fresh_like(t, out)
    return g


FUNCS['tril'] = _tri(True)
FUNCS['triu'] = _tri(False)


@reg('cumsum')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = arg(a, k, 1, ('dim', 'axis'))
    if d is None and len(t.shape) != 1:
        raise Undecided('cumsum')
    d = 0 if d is None else I.as_int(d) % len(t.shape)
    rest = [i for i in range(len(t.shape)) if i != d]
    p = permute(t, rest + [d])
    v = [E(x) for x in p.vals()]
    n = t.shape[d]
    out = []
    for b in range(len(v) // n):
        s = alg.ZERO
        for i in range(n):
            s = s + v[b * n + i]
            out.append(s)
    r = new(out, p.shape, t.dtype, lib)
    perm = rest + [d]
    return permute(r, [perm.index(i) for i in range(len(perm))])


@reg('diff')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(k.get('dim', k.get('axis', -1))) % len(t.shape)
    S = SliceV
    hi = getitem(I, t, tuple([S(None, None, None)] * d + [S(1, None, None)]))
    lo = getitem(I, t, tuple([S(None, None, None)] * d + [S(None, -1, None)]))
    return binop(I, 'Sub', hi, lo)


@reg('flip', 'flipud')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = arg(a, k, 1, ('dims', 'axis'))
    ds = list(range(len(t.shape))) if d is None else [I.as_int(x) % len(t.shape) for x in (I.iterate(d) if isinstance(d, (tuple, PyList)) else [d])]
    if d is None and lib == 'np':
        ds = [0]
    v = t
    st = strides(t.shape)
    pos = [0]
    for i, s in enumerate(t.shape):
        rng = range(s - 1, -1, -1) if i in ds else range(s)
        pos = [q + j * st[i] for q in pos for j in rng]
    vals = t.vals()
    return fresh_like(t, [vals[p] for p in pos])


@reg('roll')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    s = arg(a, k, 1, ('shifts', 'shift'))
    d = arg(a, k, 2, ('dims', 'axis'))
    if d is None:
        v = t.vals()
        n = len(v)
        s = I.as_int(s)
        return fresh_like(t, [v[(i - s) % n] for i in range(n)])
    s, d = I.as_int(s), I.as_int(d) % len(t.shape)
    n = t.shape[d]
    ix = PyList([(i - s) % n for i in range(n)])
    return getitem(I, t, tuple([SliceV(None, None, None)] * d + [ix]))


@reg('equal', 'array_equal')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    if x.shape != y.shape:
        return False
    return all_(compare(I, 'eq', x, y))


def close(x, y, atol=Fraction(1, 10**8), rtol=Fraction(1, 10**5)):
    x, y = E(x), E(y)
    if x == y:
        return True
    d = x - y
    if d.is_const() and y.is_const():
        return abs(d.const()) <= atol + rtol * abs(y.const())
    return alg.cmp_('le', alg.abs_(d), alg.const(atol) + alg.const(rtol) * alg.abs_(y))


def _tols(I, a, k):
    at = to_expr(I.simp(k.get('atol', Num(alg.const(Fraction(1, 10**8))))))
    rt = to_expr(I.simp(k.get('rtol', Num(alg.const(Fraction(1, 10**5))))))
    if at.is_const() and rt.is_const():
        return at.const(), rt.const()
    raise Undecided('tolerances')


@reg('allclose')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    at, rt = _tols(I, a, k)
    sh = bshape(x.shape, y.shape)
    r = True
    for p, q in zip(bvals(x, sh), bvals(y, sh)):
        r = alg.and_(r, close(p, q, at, rt))
    return r


@reg('isclose')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    at, rt = _tols(I, a, k)
    sh = bshape(x.shape, y.shape)
    return new([close(p, q, at, rt) for p, q in zip(bvals(x, sh), bvals(y, sh))], sh, 'bool', lib)


@reg('unique')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    v = [E(x) for x in t.vals()]
    if not all(x.is_const() for x in v):
        raise Undecided('unique')
    s = sorted({x.const() for x in v})
    return new([alg.const(x) for x in s], (len(s),), t.dtype, lib)


@reg('sort')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    v = [E(x) for x in t.vals()]
    if not all(x.is_const() for x in v) or len(t.shape) != 1:
        raise Undecided('sort')
    o = sorted(range(len(v)), key=lambda i: v[i].const(), reverse=bool(k.get('descending', False)))
    r = new([v[i] for i in o], t.shape, t.dtype, lib)
    if lib == 'np':
        return r
    return MaxRet((r, new([alg.const(i) for i in o], t.shape, 'int64', lib)))


@reg('argsort')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    v = [E(x) for x in t.vals()]
    if not all(x.is_const() for x in v) or len(t.shape) != 1:
        raise Undecided('argsort')
    o = sorted(range(len(v)), key=lambda i: v[i].const(), reverse=bool(k.get('descending', False)))
    return new([alg.const(i) for i in o], t.shape, 'int64', lib)


@reg('nonzero')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    bs = [B(v) for v in t.vals()]
    if any(isinstance(b, Cond) for b in bs):
        raise Undecided('nonzero')
    pts = [p for p, b in zip(itertools.product(*[range(s) for s in t.shape]), bs) if b]
    if k.get('as_tuple') is True or lib == 'np':
        return tuple(new([alg.const(p[i]) for p in pts], (len(pts),), 'int64', lib) for i in range(len(t.shape)))
    return new([alg.const(x) for p in pts for x in p], (len(pts), len(t.shape)), 'int64', lib)


@reg('bucketize')
def _(I, lib, a, k):
    x, b = as_tensor(I, a[0], lib), as_tensor(I, a[1], lib)
    right = k.get('right', False)
    out = []
    for e in x.vals():
        n = alg.ZERO
        for q in b.vals():
            c = alg.cmp_('le' if right is True else 'lt', E(q), E(e))
            n = n + E(c)
        out.append(n)
    return new(out, x.shape, 'int64', lib)


@reg('searchsorted')
def _(I, lib, a, k):
    k2 = {'right': k.get('side') == 'right' or k.get('right', False)}
    return FUNCS['bucketize'](I, lib, [a[1], a[0]], k2)


@reg('gather')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(a[1] if len(a) > 1 else k['dim']) % len(t.shape)
    ix = as_tensor(I, a[2] if len(a) > 2 else k['index'])
    st = strides(t.shape)
    v = t.vals()
    out = []
    iv = ix.vals()
    for j, p in enumerate(itertools.product(*[range(s) for s in ix.shape])):
        e = E(iv[j])
        if not e.is_const():
            raise Undecided('gather')
        q = list(p)
        q[d] = int(e.const())
        out.append(v[sum(x * s for x, s in zip(q, st))])
    return new(out, ix.shape, t.dtype, lib)


@reg('detach', 'detach_')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return stop(I, view(t, t.shape, list(t.idx)))


@reg('clone', 'copy', 'contiguous', 'ascontiguousarray')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    return fresh_like(t, t.vals())


@reg('is_tensor')
def _(I, lib, a, k):
    return isinstance(I.simp(a[0]), Tensor)


@reg('is_floating_point')
def _(I, lib, a, k):
    return 'float' in as_tensor(I, a[0], lib).dtype


@reg('numel', 'size')
def _(I, lib, a, k):
    return as_tensor(I, a[0], lib).size


@reg('broadcast_tensors')
def _(I, lib, a, k):
    ts = [as_tensor(I, x, lib) for x in a]
    sh = bshape(*[t.shape for t in ts])
    return tuple(view(t, sh, [t.idx[p] for p in bpos(t.shape, sh)]) for t in ts)


@reg('ndim')
def _(I, lib, a, k):
    return len(as_tensor(I, a[0], lib).shape)


@reg('shape')
def _(I, lib, a, k):
    return as_tensor(I, a[0], lib).shape


@reg('float64', 'float32', 'int64', 'int32')
def _(I, lib, a, k):
    return as_tensor(I, a[0], lib)


@reg('delete')
def _(I, lib, a, k):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(k.get('axis', a[2] if len(a) > 2 else 0))
    ix = a[1]
    rm = [I.as_int(x) % t.shape[d] for x in (I.iterate(ix) if not is_num(ix) else [ix])]
    keep = PyList([i for i in range(t.shape[d]) if i not in rm])
    return getitem(I, t, tuple([SliceV(None, None, None)] * d + [keep]))


@reg('index_add', 'index_add_', 'index_put_')
def _(I, lib, a, k):
    raise Undecided('scatter')


def _scatter(I, lib, a, k, name):
    t = as_tensor(I, a[0], lib)
    d = I.as_int(a[1] if len(a) > 1 else k['dim']) % len(t.shape)
    ix = as_tensor(I, a[2] if len(a) > 2 else k['index'])
    src = a[3] if len(a) > 3 else k['src'] if 'src' in k else k['value']
    src = I.simp(src)
    if 'reduce' in k:
        raise Undecided('scatter reduce')
    r = t if name.endswith('_') else fresh_like(t, t.vals())
    st = strides(t.shape)
    iv = ix.vals()
    v = list(r.vals())
    scal = is_num(src) or isinstance(src, Tensor) and not src.shape
    sv = None if scal else as_tensor(I, src)
    ss = None if scal else strides(sv.shape)
    sval = E(src.item()) if scal and isinstance(src, Tensor) else to_expr(src) if scal else None
    sd = None if scal else sv.vals()
    for j, p in enumerate(itertools.product(*[range(s) for s in ix.shape])):
        e = E(iv[j])
        if not e.is_const():
            raise Undecided('scatter')
        q = list(p)
        q[d] = int(e.const())
        if not 0 <= q[d] < t.shape[d]:
            raise AbsRaise('RuntimeError', 'scatter index out of range')
        x = sval if scal else sd[sum(x * s for x, s in zip(p, ss))]
        m = sum(x * s for x, s in zip(q, st))
        v[m] = E(v[m]) + E(x) if 'add' in name else x
    write(r, v)
    return r


for _n in ('scatter', 'scatter_', 'scatter_add', 'scatter_add_'):
    reg(_n)(lambda I, lib, a, k, _n=_n: _scatter(I, lib, a, k, _n))


def _index_add(I, t, a, k, inplace):
    d = I.as_int(a[0] if a else k['dim']) % len(t.shape)
    ix = as_tensor(I, a[1] if len(a) > 1 else k['index'])
    src = as_tensor(I, a[2] if len(a) > 2 else k['source'])
    r = t if inplace else fresh_like(t, t.vals())
    for j, e in enumerate(ix.vals()):
        i = I.as_int(Num(E(e), 'i'))
        key = tuple([SliceV(None, None, None)] * d + [i])
        kj = tuple([SliceV(None, None, None)] * d + [j])
        cur = getitem(I, r, key)
        s = getitem(I, src, kj)
        write(cur, [E(x) + E(y) for x, y in zip(cur.vals(), s.vals())])
    return r


def vmap_call(I, f, in_dims, out_dims, args, kwargs):
    args = [I.simp(x) for x in args]
    if not isinstance(in_dims, (tuple, PyList)):
        in_dims = [in_dims] * len(args)
    else:
        in_dims = I.iterate(in_dims)
    size = [None]

    def scan(v, d):
        v = I.simp(v)
        if d is None:
            return
        if isinstance(v, IteV) and I.tensorish(v):
            v = as_tensor(I, v)
        if isinstance(v, Tensor):
            if not v.shape:
                raise AbsRaise('ValueError', 'vmap over a scalar tensor')
            n = v.shape[d]
            if size[0] is None:
                size[0] = n
            elif size[0] != n:
                raise AbsRaise('ValueError', 'vmap: inconsistent batch sizes')
        elif isinstance(v, PyDict):
            for k, (kk, x) in v.d.items():
                dd = d.d[k][1] if isinstance(d, PyDict) else d
                scan(x, dd)
        elif isinstance(v, (PyList, tuple)):
            for i, x in enumerate(I.iterate(v)):
                scan(x, I.iterate(d)[i] if isinstance(d, (PyList, tuple)) else d)
        elif is_num(v):
            raise AbsRaise('ValueError', 'vmap over a Python number')

    def sel(v, d, b):
        v = I.simp(v)
        if d is None:
            return v
        if isinstance(v, IteV) and I.tensorish(v):
            v = as_tensor(I, v)
        if isinstance(v, Tensor):
            n = len(v.shape)
            d = d % n
            return getitem(I, v, tuple([SliceV(None, None, None)] * d + [b]))
        if isinstance(v, PyDict):
            return PyDict([(kk, sel(x, d.d[k][1] if isinstance(d, PyDict) else d, b)) for k, (kk, x) in v.d.items()], v.kind)
        if isinstance(v, PyList):
            return PyList([sel(x, I.iterate(d)[i] if isinstance(d, (PyList, tuple)) else d, b) for i, x in enumerate(v.items)])
        if isinstance(v, tuple):
            return tuple(sel(x, I.iterate(d)[i] if isinstance(d, (PyList, tuple)) else d, b) for i, x in enumerate(v))
        return v
    if len(in_dims) != len(args):
        raise AbsRaise('ValueError', f'vmap: in_dims has {len(in_dims)} entries for {len(args)} arguments')
    for v, d in zip(args, in_dims):
        scan(v, I.simp(d))
    if size[0] is None:
        raise AbsRaise('ValueError', 'vmap: no mapped argument')
    for v in kwargs.values():
        scan(v, 0) if isinstance(I.simp(v), (Tensor,)) else None
    mapped = set()
    collect = lambda v, d: mapped.update(atoms_of(v.vals())) if d is not None and isinstance(v, Tensor) else [
        collect(x, d) for x in ([y for _, y in v.d.values()] if isinstance(v, PyDict) else v.items if isinstance(v, PyList) else v)
    ] if d is not None and isinstance(v, (PyDict, PyList, tuple)) else None
    for v, d in zip(args, in_dims):
        collect(v, I.simp(d))
    outer = I.batched
    I.batched = (outer or set()) | mapped
    try:
        return _vmap_rest(I, f, in_dims, out_dims, args, kwargs, size, sel)
    finally:
        I.batched = outer


def _vmap_rest(I, f, in_dims, out_dims, args, kwargs, size, sel):
    outs = []
    for b in range(size[0]):
        kw = {q: (sel(v, 0, b) if isinstance(I.simp(v), Tensor) else v) for q, v in kwargs.items()}
        outs.append(I.call(f, [sel(v, I.simp(d), b) for v, d in zip(args, in_dims)], kw))

    def join(vs, od):
        vs = [I.simp(v) for v in vs]
        v = vs[0]
        od = I.simp(od)
        if isinstance(od, PyList):
            od = tuple(od.items)
        if isinstance(v, tuple):
            if isinstance(od, tuple) and len(od) != len(v):
                raise AbsRaise('ValueError', 'vmap: out_dims is not compatible with the structure of the outputs')
            return tuple(join([x[i] for x in vs], od[i] if isinstance(od, tuple) else od) for i in range(len(v)))
        if isinstance(od, tuple) and not isinstance(v, (PyList, PyDict)):
            if len(od) != 1:
                raise AbsRaise('ValueError', 'vmap: out_dims is not compatible with the structure of the outputs')
            od = I.simp(od[0])
        if isinstance(v, PyList):
            return PyList([join([x.items[i] for x in vs], od) for i in range(len(v.items))])
        if isinstance(v, PyDict):
            return PyDict([(kk, join([x.d[k][1] for x in vs], od)) for k, (kk, _) in v.d.items()], v.kind)
        if v is None:
            return None
        if is_num(v) or isinstance(v, Cond):
            raise AbsRaise('ValueError', 'vmap: function must return tensors')
        return FUNCS['stack'](I, 'torch', [PyList(vs)], {'dim': I.as_int(od) if is_num(od) else 0})
    return join(outs, out_dims)


@reg('vmap', 'func.vmap')
def _(I, lib, a, k):
    f = a[0]
    ind = arg(a, k, 1, 'in_dims', 0)
    od = arg(a, k, 2, 'out_dims', 0)
    return Native(lambda I, aa, kk: vmap_call(I, f, I.simp(ind), I.simp(od), aa, kk), 'vmap')


@reg('cond')
def _(I, lib, a, k):
    p = I.truth(a[0])
    ops = I.iterate(a[3]) if len(a) > 3 else []
    return I.distribute(p, lambda: I.call(a[1], ops, {}), lambda: I.call(a[2], ops, {}))


@reg('set_default_dtype')
def _(I, lib, a, k):
    d = dtype_of(I.simp(a[0]))
    if d is None and isinstance(I.simp(a[0]), Opaque):
        d = I.simp(a[0])
    I.state.set('default_dtype', d)
    return None


@reg('get_default_dtype')
def _(I, lib, a, k):
    d = I.simp(I.state.get('default_dtype'))
    if isinstance(d, IteV):
        return d
    return Lib('torch.' + d) if isinstance(d, str) else d


@reg('device')
def _(I, lib, a, k):
    return Opaque('device', tuple(a), 'device')


def _rand(name):
    def g(I, lib, a, k):
        I.event('rng', lib + '.' + name, tuple(a), k)
        try:
            if name in ('rand_like', 'randn_like'):
                sh = as_tensor(I, a[0]).shape
            else:
                sh = _shape_args(I, a, k) if (a or 'size' in k) else ()
        except Undecided:
            return fresh_opaque(lib + '.' + name, tuple(a))
        u = tick()
        return new([alg.sym(f'{name}{u}[{i}]') for i in range(numel(sh))], sh, _dt(I, lib, {}), lib)
    return g


for _n in ('rand', 'randn', 'rand_like', 'randn_like'):
    FUNCS[_n] = _rand(_n)


@reg('nn.Parameter', 'nn.parameter.Parameter')
def _(I, lib, a, k):
    t = as_tensor(I, a[0] if a else k['data'])
    r = view(t, t.shape, t.idx)
    r.grad = k.get('requires_grad', True)
    r.param = True
    return r


@reg('nn.ParameterDict', 'nn.ModuleDict')
def _(I, lib, a, k):
    d = PyDict(kind='ParameterDict')
    if a:
        I.pylib.dict_method(I, d, 'update', [a[0]], {})
    return d


@reg('nn.ModuleList', 'nn.ParameterList')
def _(I, lib, a, k):
    return PyList(I.iterate(a[0]) if a else [])


@reg('nn.functional.relu')
def _(I, lib, a, k):
    return map_(as_tensor(I, a[0]), alg.relu)


@reg('nn.functional.mse_loss')
def _(I, lib, a, k):
    x, y = as_tensor(I, a[0]), as_tensor(I, a[1])
    d = binop(I, 'Sub', x, y)
    sq = map_(d, lambda e: e * e)
    red = k.get('reduction', 'mean')
    if red == 'none':
        return sq
    return reduce(I, sq, fmean if red == 'mean' else fsum, None)


@reg('nn.functional.pad')
def _(I, lib, a, k):
    x = as_tensor(I, a[0])
    pad = [int(v) if isinstance(v, int) else I.index(v) for v in I.iterate(arg(a, k, 1, 'pad'))]
    mode = I.simp(arg(a, k, 2, 'mode', 'constant'))
    value = arg(a, k, 3, 'value')
    if len(pad) != 2 or not x.shape:
        raise Undecided('pad of several dimensions')
    n = x.shape[-1]
    vals, out = x.vals(), []
    for r in range(numel(x.shape[:-1])):
        row = vals[r * n:(r + 1) * n]
        if mode == 'replicate':
            l, u = [row[0]] * pad[0], [row[-1]] * pad[1]
        elif mode == 'constant':
            z = alg.ZERO if value is None else to_expr(I.simp(value))
            l, u = [z] * pad[0], [z] * pad[1]
        elif mode == 'reflect':
            if max(pad) >= n:
                raise AbsRaise('RuntimeError', 'padding larger than the tensor')
            l, u = row[pad[0]:0:-1], [row[n - 2 - i] for i in range(pad[1])]
        elif mode == 'circular':
            l, u = row[n - pad[0]:] if pad[0] else [], row[:pad[1]]
        else:
            raise AbsRaise('NotImplementedError', f'padding mode {mode}')
        out += list(l) + list(row) + list(u)
    return new(out, x.shape[:-1] + (n + sum(pad),), x.dtype, x.lib)


@reg('nn.functional.conv1d')
def _(I, lib, a, k):
    x, w = as_tensor(I, a[0]), as_tensor(I, a[1])
    bias = arg(a, k, 2, 'bias')
    one = lambda v: I.simp(v[0] if isinstance(v, tuple) else v)
    stride, padding = one(arg(a, k, 3, 'stride', 1)), one(arg(a, k, 4, 'padding', 0))
    dil, gr = one(arg(a, k, 5, 'dilation', 1)), one(arg(a, k, 6, 'groups', 1))
    if bias is not None or stride != 1 or dil != 1 or not isinstance(gr, int) or len(x.shape) != 3 or not isinstance(padding, int):
        raise Undecided('conv1d options')
    if x.dtype != w.dtype:
        raise AbsRaise('RuntimeError', f'conv1d: input {x.dtype} and weight {w.dtype} should be the same')
    B, C, n = x.shape
    O, Cg, q = w.shape
    if C % gr or O % gr or C // gr != Cg:
        raise AbsRaise('RuntimeError', f'conv1d: weight {w.shape} for {C} channels in {gr} groups')
    m = n + 2 * padding - q + 1
    if m < 1:
        raise AbsRaise('RuntimeError', 'conv1d: kernel larger than the input')
    xv, wv, out = [E(v) for v in x.vals()], [E(v) for v in w.vals()], []
    for b in range(B):
        for o in range(O):
            c0 = o // (O // gr) * Cg
            for i in range(m):
                out.append(fsum([xv[(b * C + c0 + c) * n + i + j - padding] * wv[(o * Cg + c) * q + j]
                                 for c in range(Cg) for j in range(q) if 0 <= i + j - padding < n]))
    return new(out, (B, O, m), x.dtype, x.lib)


@reg('nn.functional.linear')
def _(I, lib, a, k):
    x, w = as_tensor(I, a[0]), as_tensor(I, a[1])
    r = matmul(I, x, transpose_all(w))
    b = arg(a, k, 2, 'bias')
    return r if b is None else binop(I, 'Add', r, as_tensor(I, b))


@reg('nn.MSELoss', 'nn.L1Loss')
def _(I, lib, a, k, l1=False):
    red = k.get('reduction', 'mean')

    def f(I, aa, kk):
        x = I.simp(aa[0] if aa else kk['input'])
        y = I.simp(aa[1] if len(aa) > 1 else kk['target'])
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            I.event('opaque-call', 'MSELoss', tuple(aa), kk)
            return Opaque('loss', (x, y, red))
        return FUNCS['nn.functional.mse_loss'](I, 'torch', [x, y], {'reduction': red})
    return Native(f, 'MSELoss')


# ------------------------------------------------------------------ dispatch
_TORCH_OPAQUE_PREFIX = ('torch.optim', 'torch.utils', 'torch.cuda', 'torch.backends', 'torch.fft',
                        'numpy.random', 'numpy.fft', 'torch.distributions', 'torch.autograd')


def call(I, path, args, kwargs):
    if path.startswith('torch.Tensor.'):
        return call_method(I, args[0], path[13:], args[1:], kwargs)
    for pre, lib in (('torch.', 'torch'), ('numpy.', 'np')):
        if path.startswith(pre) and not path.startswith(_TORCH_OPAQUE_PREFIX):
            name = path[len(pre):]
            f = FUNCS.get(name)
            if f is not None:
                if any(isinstance(I.simp(x), Opaque) for x in args) and name not in (
                        'tensor', 'as_tensor', 'device', 'vmap', 'cond', 'set_default_dtype', 'nn.Parameter', 'array',
                        'is_tensor', 'nn.MSELoss', 'from_numpy', 'rand', 'randn'):
                    if path.startswith('numpy.random'):
                        return NOPE
                    return Opaque(path, tuple(I.simp(x) for x in args) + tuple((k, v) for k, v in kwargs.items()))
                if 'out' in kwargs:
                    raise Undecided('out= argument')
                r = f(I, lib, list(args), kwargs)
                if I.batched and lib == 'torch' and name in ('zeros', 'ones', 'full', 'empty', 'eye', 'tensor') and isinstance(r, Tensor):
                    r.st.unmapped = True
                if I.track_grad and (I.state.get('grad') is False or name in ('tensor',) and has_tensor(I, args[0] if args else kwargs.get('data'))):
                    r = stop(I, r)
                return r
            if path == 'torch.Tensor':
                return FUNCS['tensor'](I, lib, list(args), kwargs)
            return NOPE
    return NOPE


def math_call(I, name, args):
    es = [to_expr(I.simp(a)) for a in args]
    if name == 'sqrt':
        return Num(alg.sqrt(es[0]))
    if name in ('sin', 'cos', 'tan', 'exp', 'log', 'tanh', 'asin', 'acos', 'atan'):
        return Num(alg.func(name, es[0]))
    if name == 'pow':
        return Num(es[0] ** es[1])
    if name in ('floor', 'ceil'):
        if es[0].is_const():
            c = es[0].const()
            return c.__floor__() if name == 'floor' else c.__ceil__()
        return Num(alg.fn(name, (es[0],)), 'i')
    if name == 'fabs':
        return Num(alg.abs_(es[0]))
    if name == 'radians':
        return Num(es[0] * alg.sym('pi', pos=True) / 180)
    if name == 'degrees':
        return Num(es[0] * 180 / alg.sym('pi', pos=True))
    if name == 'isnan':
        return nan_cond(es[0])
    if name == 'prod':
        return Num(fprod([to_expr(x) for x in I.iterate(args[0])]))
    if name == 'isclose':
        return close(es[0], es[1])
    return Num(alg.fn('math.' + name, tuple(es)))


_M = '''item tolist numpy cpu cuda to detach clone copy view reshape size dim type float double long int bool
half expand expand_as repeat fill_ zero_ copy_ add_ sub_ mul_ div_ clamp_ requires_grad_ backward retain_grad
astype element_size contiguous type_as new_zeros new_ones new_tensor new_full is_floating_point share_memory_
register_hook get_device normal_ uniform_ masked_fill masked_fill_ index_add index_add_ numel nelement
t tile view_as data_ptr is_contiguous pin_memory new_empty mean_ detach_ flatten ravel dot fill sort ndimension
index_put_ scatter_ scatter_add_ scatter_add repeat_interleave addmm squeeze_ unsqueeze_ storage_offset stride
abs_ sqrt_ exp_ pow_ neg_ clip cumsum tofile values'''.split()
METHODS.update(_M)


def call_method(I, t, name, args, kwargs):
    t = I.simp(t)
    if isinstance(t, IteV):
        t = as_tensor(I, t)
    a = [I.simp(x) for x in args]
    lib = t.lib
    if t.src is not None and name.endswith('_') and not name.endswith('__'):
        # in-place update through .data reaches the original storage
        call_method(I, t.src, name, args, kwargs)
        return t
    if name in ('item', 'tolist', 'numpy') and I.batched:
        mapped_use(I, t.vals(), f'.{name}() of a mapped tensor')
    if name == 'item':
        x = stop_e(I, t.item())
        if isb(x):
            return x
        if t.dtype.startswith('int'):
            n = _ci(x)
            return Num(x, 'i') if n is None else n
        return Num(x)
    if name == 'tolist':
        return tolist(stop(I, t))
    if name == 'numpy':
        r = stop(I, view(t, t.shape, t.idx))
        r.lib = 'np'
        return r
    if name in ('cpu', 'cuda', 'contiguous', 'share_memory_', 'pin_memory'):
        return t
    if name in ('requires_grad_',):
        t.grad = a[0] if a else kwargs.get('requires_grad', True)
        return t
    if name in ('detach', 'detach_'):
        r = view(t, t.shape, t.idx)
        r.grad = False
        r.param = None
        return stop(I, r)
    if name in ('clone', 'copy'):
        return fresh_like(t, t.vals())
    if name in ('to', 'type', 'astype'):
        d = None
        for x in list(a) + list(kwargs.values()):
            d = d or dtype_of(x)
            if isinstance(x, Tensor):
                d = d or x.dtype
        if d is None or (d == t.dtype and name != 'astype'):
            return t
        return cast(t, d)
    if name in ('float', 'double', 'long', 'int', 'bool', 'half'):
        d = {'float': 'float32', 'double': 'float64', 'long': 'int64', 'int': 'int32', 'bool': 'bool', 'half': 'float16'}[name]
        return t if d == t.dtype else cast(t, d)
    if name == 'type_as':
        return cast(t, a[0].dtype) if a[0].dtype != t.dtype else t
    if name in ('view', 'reshape'):
        if kwargs.get('shape') is not None:
            a = [kwargs['shape']]
        return reshape(I, t, a)
    if name in ('view_as',):
        return reshape(I, t, [a[0].shape])
    if name == 'size':
        if a or 'dim' in kwargs:
            return t.shape[I.as_int(a[0] if a else kwargs['dim'])]
        return t.shape
    if name in ('dim', 'ndimension'):
        return len(t.shape)
    if name in ('numel', 'nelement'):
        return t.size
    if name in ('expand', 'expand_as'):
        sh = a[0].shape if name == 'expand_as' else norm_expand(I, t, a)
        return view(t, sh, [t.idx[p] for p in bpos(t.shape, sh)])
    if name == 'repeat' and lib == 'torch':
        r = [I.as_int(x) for x in (I.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else a)]
        return repeat(t, r)
    if name == 'tile':
        r = [I.as_int(x) for x in (I.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else a)]
        return repeat(t, r)
    if name == 'repeat_interleave' or (name == 'repeat' and lib == 'np'):
        n = I.as_int(a[0])
        d = kwargs.get('dim', kwargs.get('axis', a[1] if len(a) > 1 else None))
        if d is None:
            return new([x for x in t.vals() for _ in range(n)], (t.size * n,), t.dtype, lib)
        d = I.as_int(d) % len(t.shape)
        ix = PyList([i for i in range(t.shape[d]) for _ in range(n)])
        return getitem(I, t, tuple([SliceV(None, None, None)] * d + [ix]))
    if name == 'permute':
        d = I.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else a
        return permute(t, [I.as_int(x) for x in d])
    if name == 'transpose' and lib == 'np':
        if not a:
            return transpose_all(t)
        d = I.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else a
        return permute(t, [I.as_int(x) for x in d])
    if name in ('fill_', 'fill'):
        write(t, [to_expr(a[0])] * t.size)
        return t
    if name == 'zero_':
        write(t, [alg.ZERO] * t.size)
        return t
    if name == 'copy_':
        s = as_tensor(I, a[0])
        write(t, bvals(s, t.shape))
        I.event('param-write', 'copy_', tuple(a), {}, t)
        return t
    if name in ('add_', 'sub_', 'mul_', 'div_', 'pow_'):
        op = {'add_': 'Add', 'sub_': 'Sub', 'mul_': 'Mult', 'div_': 'Div', 'pow_': 'Pow'}[name]
        o = a[0]
        if 'alpha' in kwargs:
            o = I.binop('Mult', o, kwargs['alpha'])
        r = binop(I, op, t, o)
        write(t, bvals(r, t.shape))
        return t
    if name in ('clamp_', 'clamp_min_', 'clamp_max_', 'abs_', 'sqrt_', 'exp_', 'neg_', 'clip_', 'round_'):
        r = FUNCS[name[:-1]](I, lib, [t] + a, kwargs)
        write(t, r.vals())
        I.event('param-write', name, tuple(a), kwargs, t)
        return t
    if name in ('masked_fill', 'masked_fill_'):
        m = as_tensor(I, a[0])
        v = as_tensor(I, a[1]).vals()[0]
        r = [el_merge2(B(c), v, x) for c, x in zip(bvals(m, t.shape), t.vals())]
        if name.endswith('_'):
            write(t, r)
            return t
        return fresh_like(t, r)
    if name in ('index_add', 'index_add_'):
        return _index_add(I, t, a, kwargs, name.endswith('_'))
    if name == 'backward':
        if 'method:backward' in I.stubs:
            return I.stubs['method:backward'](I, t, a, kwargs)
        I.event('backward', 'backward', (), kwargs, t)
        return None
    if name in ('retain_grad', 'register_hook'):
        return None
    if name in ('new_zeros', 'new_ones', 'new_full', 'new_empty'):
        k2 = dict(kwargs)
        k2.setdefault('dtype', t.dtype)
        return FUNCS[name[4:]](I, lib, a, k2)
    if name in ('new_tensor',):
        k2 = dict(kwargs)
        k2.setdefault('dtype', t.dtype)
        return FUNCS['tensor'](I, lib, a, k2)
    if name == 'is_floating_point':
        return 'float' in t.dtype
    if name in ('normal_', 'uniform_'):
        I.event('rng', name, tuple(a), kwargs, t)
        u = tick()
        write(t, [alg.sym(f'{name}{u}[{i}]') for i in range(t.size)])
        return t
    if name == 'split' and lib == 'np':
        pass
    if name == 'add_module':
        pass
    f = FUNCS.get(name)
    if f is not None:
        if name in ('max', 'min') and lib == 'torch' and a and isinstance(a[0], int):
            pass
        return f(I, lib, [t] + list(a), kwargs)
    raise Undecided(f'tensor method {name}')


def _ci(x):
    if isinstance(x, Expr) and x.is_const() and x.const().denominator == 1:
        return int(x.const())
    return 0 if isinstance(x, Expr) and x.is_zero() else None


def norm_expand(I, t, a):
    sh = [I.as_int(x) for x in (I.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PyList)) else a)]
    k = len(sh) - len(t.shape)
    return tuple(t.shape[i - k] if s == -1 else s for i, s in enumerate(sh))


def cast(t, d):
    v = t.vals()
    if d == 'bool':
        v = [B(x) for x in v]
    else:
        v = [E(x) for x in v]
        if d.startswith('int') and not t.dtype.startswith(('int', 'bool')):
            v = [alg.const(int(x.const())) if x.is_const() else alg.fn('trunc', (x,)) for x in v]
    return fresh_like(t, v, d)


def tolist(t):
    if not t.shape:
        x = t.item()
        if isb(x):
            return x
        if t.dtype.startswith('int'):
            c = _ci(x)
            return c if c is not None else Num(x, 'i')
        return Num(x)
    n = t.shape[0]
    m = numel(t.shape[1:])
    return PyList([tolist(view(t, t.shape[1:], t.idx[i * m:(i + 1) * m])) for i in range(n)])
