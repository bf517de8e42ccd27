"""Abstract values, abstract heap objects and the branch journal.

Heap objects are mutable and shared by reference (aliasing is exact).  At an
undecided branch the interpreter analyses both arms from the same entry state:
mutations of objects older than the branch are journalled, rolled back and
joined slot by slot under the branch condition (gated values)."""
from . import alg
from .alg import Expr, Cond


class Undecided(Exception):
    """Construct or quantity outside the abstract domain."""


class AbsRaise(Exception):
    """The analysed program definitely raises here."""

    def __init__(self, exc, msg='', node=None, value=None):
        super().__init__(f'{exc}: {msg}')
        self.exc, self.msg, self.node, self.value = exc, msg, node, value
        self.where = None


class Absent:
    def __repr__(self):
        return 'ABSENT'


ABSENT = Absent()

_birth = [0]


def tick():
    _birth[0] += 1
    return _birth[0]


JOURNALS = []


class Journal:
    def __init__(self):
        self.serial = tick()
        self.old = {}


class Obj:
    """Mutable heap object."""
    __slots__ = ('birth', 'tag')

    def __init__(self):
        self.birth = tick()
        self.tag = None

    def touch(self):
        if JOURNALS:
            j = JOURNALS[-1]
            if self.birth < j.serial and id(self) not in j.old:
                j.old[id(self)] = (self, self.snap())
        for w in WATCH:
            w(self)


WATCH = []


class PyList(Obj):
    __slots__ = ('items',)

    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def snap(self):
        return None if self.items is None else list(self.items)

    def put(self, s):
        self.items = None if s is None else list(s)

    def __repr__(self):
        return f'L{self.items!r}'


class PyDict(Obj):
    __slots__ = ('d', 'kind')

    def __init__(self, pairs=(), kind='dict'):
        super().__init__()
        self.d = {}
        self.kind = kind
        for k, v in pairs:
            self.d[hkey(k)] = (k, v)

    def snap(self):
        return dict(self.d)

    def put(self, s):
        self.d = dict(s)

    def get(self, k, default=ABSENT):
        r = self.d.get(hkey(k))
        return default if r is None else r[1]

    def has(self, k):
        return hkey(k) in self.d

    def keys(self):
        return [k for k, _ in self.d.values()]

    def set(self, k, v):
        self.touch()
        self.d[hkey(k)] = (k, v)

    def __repr__(self):
        return 'D{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.d.values()) + '}'


class PySet(Obj):
    __slots__ = ('d',)

    def __init__(self, items=()):
        super().__init__()
        self.d = {hkey(x): x for x in items}

    def snap(self):
        return dict(self.d)

    def put(self, s):
        self.d = dict(s)

    def __repr__(self):
        return f'S{list(self.d.values())!r}'


class Frame(Obj):
    __slots__ = ('vars', 'parent', 'func', 'globals_', 'nonlocals', 'self_cls')

    def __init__(self, parent=None, func=None):
        super().__init__()
        self.vars = {}
        self.parent = parent
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.self_cls = None

    def snap(self):
        return dict(self.vars)

    def put(self, s):
        self.vars = dict(s)


class Instance(Obj):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = dict(attrs or {})

    def snap(self):
        return dict(self.attrs)

    def put(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f'<{getattr(self.cls, "name", self.cls)} #{self.birth}>'


class Storage(Obj):
    __slots__ = ('data', 'unmapped')

    def __init__(self, data):
        super().__init__()
        self.data = list(data)
        self.unmapped = False     # created inside a vmap from no mapped value

    def snap(self):
        return list(self.data)

    def put(self, s):
        self.data = list(s)


class Tensor:
    """View of a storage.  lib: 'torch' or 'np'."""
    __slots__ = ('st', 'shape', 'idx', 'dtype', 'lib', 'grad', 'param', 'src')

    def __init__(self, st, shape, idx=None, dtype='float32', lib='torch'):
        self.st = st
        self.shape = tuple(shape)
        n = 1
        for s in self.shape:
            n *= s
        self.idx = list(range(n)) if idx is None else idx
        self.dtype = dtype
        self.lib = lib
        self.grad = False
        self.param = None
        self.src = None

    @property
    def size(self):
        return len(self.idx)

    def vals(self):
        d = self.st.data
        return [d[i] for i in self.idx]

    def item(self):
        if len(self.idx) != 1:
            raise AbsRaise('ValueError', 'item() of a non-scalar tensor')
        return self.st.data[self.idx[0]]

    def __repr__(self):
        v = self.vals()
        s = ', '.join(map(repr, v[:12])) + ('...' if len(v) > 12 else '')
        return f'T{list(self.shape)}[{s}]'


class Num:
    """Symbolic Python number (or concrete float)."""
    __slots__ = ('e', 'k')

    def __init__(self, e, k='f'):
        self.e = alg.as_expr(e)
        self.k = k

    def __repr__(self):
        return f'{self.e!r}'


class IteV:
    """Gated value for operands that have no common domain."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'IteV({self.c!r}, {self.a!r}, {self.b!r})'


_op_ids = [0]


class Opaque:
    """Value of a library call or unmodelled quantity (uninterpreted term)."""
    __slots__ = ('name', 'args', 'kind')

    def __init__(self, name, args=(), kind=None):
        self.name, self.args, self.kind = name, tuple(args), kind

    def __repr__(self):
        if not self.args:
            return f'<{self.name}>'
        return f'<{self.name}({", ".join(map(repr, self.args))})>'


def fresh_opaque(name, args=(), kind=None):
    _op_ids[0] += 1
    return Opaque(f'{name}#{_op_ids[0]}', args, kind)


class Lib:
    """Reference to a library (non-repository) module, class or function."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'lib:{self.path}'


class FuncV:
    __slots__ = ('node', 'module', 'frame', 'defaults', 'kwdefaults', 'name',
                 'cls', 'kind', 'nograd')

    def __init__(self, node, module, frame, defaults, kwdefaults, name, cls=None,
                 kind='plain'):
        self.node, self.module, self.frame = node, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.cls, self.kind = name, cls, kind
        self.nograd = False

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return f'<func {self.qual}>'


class ClassV:
    __slots__ = ('name', 'module', 'bases', 'ns', 'node', '_mro')

    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns = name, module, bases, ns
        self.node = node
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in (b.mro if isinstance(b, ClassV) else [b]):
                    if c not in out:
                        out.append(c)
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    def lib_bases(self):
        return [c.path for c in self.mro if isinstance(c, Lib)]

    def __repr__(self):
        return f'<class {self.name}>'


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f'<bound {self.func!r} of {self.self!r}>'


class Method:
    """Builtin method of an abstract value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f'<method {self.name} of {self.obj!r}>'


class Native:
    """Callable implemented by the analyser: f(interp, args, kwargs)."""
    __slots__ = ('f', 'name')

    def __init__(self, f, name='native'):
        self.f, self.name = f, name

    def __repr__(self):
        return f'<native {self.name}>'


class Super:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class ModuleV:
    __slots__ = ('name', 'path', 'tree', 'frame', 'prog')

    def __init__(self, name, path, tree, frame, prog):
        self.name, self.path, self.tree, self.frame = name, path, tree, frame
        self.prog = prog

    def __repr__(self):
        return f'<module {self.name}>'


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f'{self.lo}:{self.hi}:{self.step}'


class ExcV:
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name, self.args = name, args

    def __repr__(self):
        return f'{self.name}{self.args!r}'


class IterV(Obj):
    """Finite iterator (generator, zip, enumerate, ...) with known items."""
    __slots__ = ('items', 'pos')

    def __init__(self, items):
        super().__init__()
        self.items = list(items)
        self.pos = 0

    def snap(self):
        return [self.pos]

    def put(self, s):
        self.pos = s[0]


# ------------------------------------------------------------------- hashing
def hkey(v):
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, tuple):
        return ('t',) + tuple(hkey(x) for x in v)
    if isinstance(v, Num):
        if v.e.is_const():
            c = v.e.const()
            return int(c) if c.denominator == 1 else ('q', c)
        return ('num', v.e.key)
    if isinstance(v, Opaque):
        return ('o', v.name, tuple(hkey(x) for x in v.args))
    if isinstance(v, (Expr,)):
        return ('e', v.key)
    if isinstance(v, Cond):
        return ('c', repr(v))
    if isinstance(v, Lib):
        return ('lib', v.path)
    if isinstance(v, SliceV):
        return ('sl', hkey(v.lo), hkey(v.hi), hkey(v.step))
    if isinstance(v, Tensor):
        if v.lib == 'np' and not v.shape:       # a numpy scalar: hashed by value
            x = v.vals()[0]
            if isinstance(x, Expr):
                return hkey(Num(x))
            if isinstance(x, bool):
                return int(x)
        return ('T', id(v.st), tuple(v.idx))
    if isinstance(v, IteV):
        return ('ite', repr(v.c), hkey(v.a), hkey(v.b))
    return ('id', id(v))


# ------------------------------------------------------------------- joining
def is_num(v):
    return isinstance(v, (bool, int, Num))


def to_expr(v):
    if isinstance(v, Num):
        return v.e
    if isinstance(v, (bool, int)):
        return alg.const(int(v))
    if isinstance(v, Cond):
        return alg.ite(v, alg.ONE, alg.ZERO)
    if isinstance(v, Expr):
        return v
    if isinstance(v, Tensor) and v.size == 1:
        x = v.item()
        return x if isinstance(x, Expr) else alg.as_expr(x)
    if isinstance(v, IteV):
        return alg.ite(v.c, to_expr(v.a), to_expr(v.b))
    if isinstance(v, Opaque):
        return alg.fn('val', (hkey(v),))
    raise Undecided(f'number expected, got {type(v).__name__} {str(v)[:60]}')


def el_merge(c, a, b):
    """Join of tensor elements."""
    if a is b:
        return a
    ba = isinstance(a, (bool, Cond))
    bb = isinstance(b, (bool, Cond))
    if ba and bb:
        return alg.cond_ite(c, a, b)
    return alg.ite(c, alg.as_expr(a), alg.as_expr(b))


def same(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
            ka = 'i' if isinstance(a, int) else a.k
            kb = 'i' if isinstance(b, int) else b.k
            return ka == kb and to_expr(a) == to_expr(b)
        return False
    if isinstance(a, (str, int, bytes)):
        return a == b
    if isinstance(a, Num):
        return a.k == b.k and a.e == b.e
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, Tensor):
        return a.st is b.st and a.shape == b.shape and a.idx == b.idx
    if isinstance(a, Opaque):
        return hkey(a) == hkey(b)
    if isinstance(a, Cond):
        return a == b
    if isinstance(a, Lib):
        return a.path == b.path
    if isinstance(a, Bound):
        return a.func is b.func and a.self is b.self
    if isinstance(a, Method):
        return a.obj is b.obj and a.name == b.name
    if isinstance(a, IteV):
        return a.c == b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, SliceV):
        return all(map(same, (a.lo, a.hi, a.step), (b.lo, b.hi, b.step)))
    if isinstance(a, ExcV):
        return a.name == b.name
    return False


def merge(c, a, b):
    """Value when c ? a : b."""
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, IteV) and a.c == c:
        a = a.a
    if isinstance(b, IteV) and b.c == c:
        b = b.b
    if same(a, b):
        return a
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        return alg.cond_ite(c, a, b)
    if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
        k = 'i' if (isinstance(a, int) or a.k == 'i') and (isinstance(b, int) or b.k == 'i') else 'f'
        return Num(alg.ite(c, to_expr(a), to_expr(b)), k)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Tensor) and isinstance(b, Tensor) and a.shape == b.shape \
            and (a.st is b.st and a.idx == b.idx):
        return a
    return IteV(c, a, b)


def merge_content(obj, c, x, y):
    """Join of two contents of the same object (x when c, y otherwise)."""
    if isinstance(obj, Storage):
        return [el_merge(c, p, q) for p, q in zip(x, y)]
    if isinstance(obj, PyList):
        if x is None or y is None:
            return None
        if len(x) == len(y):
            return [merge(c, p, q) for p, q in zip(x, y)]
        n = min(len(x), len(y))
        longer = x if len(x) > n else y
        out = [merge(c, p, q) for p, q in zip(x, y)]
        for v in longer[n:]:
            out.append(IteV(c, v, ABSENT) if longer is x else IteV(c, ABSENT, v))
        return out
    if isinstance(obj, PyDict):
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            kx, vx = x.get(k, (None, ABSENT))
            ky, vy = y.get(k, (None, ABSENT))
            out[k] = (kx if k in x else ky, merge(c, vx, vy))
        return out
    if isinstance(obj, PySet):
        if set(x) == set(y):
            return x
        raise Undecided('sets diverge at a join')
    if isinstance(obj, (Frame, Instance)):
        out = {}
        for k in list(x) + [k for k in y if k not in x]:
            out[k] = merge(c, x.get(k, ABSENT), y.get(k, ABSENT))
        return out
    if isinstance(obj, IterV):
        if x == y:
            return x
        raise Undecided('iterators diverge at a join')
    raise Undecided(f'join of {type(obj).__name__}')


class Arm:
    """Journalled execution of one branch arm."""

    def __enter__(self):
        self.j = Journal()
        JOURNALS.append(self.j)
        return self

    def __exit__(self, *exc):
        assert JOURNALS.pop() is self.j
        self.new = {}
        for i, (o, s) in self.j.old.items():
            self.new[i] = (o, o.snap(), s)
            o.put(s)
        return False

    def commit(self):
        """Make this arm's effects the state."""
        for o, new, _ in self.new.values():
            o.touch()
            o.put(new)


def join_arms(c, a1, a2):
    """Install the join of two arms (a2 may be None: no effects)."""
    ids = set(a1.new) | (set(a2.new) if a2 else set())
    for i in ids:
        o, new1, old = a1.new.get(i) or (None, None, None)
        if o is None:
            o, new2, old = a2.new[i]
            new1 = old
        else:
            new2 = a2.new[i][1] if a2 and i in a2.new else old
        o.touch()
        o.put(merge_content(o, c, new1, new2))


def deep_values(v, seen=None):
    """Yield v and everything reachable from it."""
    seen = seen if seen is not None else set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (PyList, PyDict, PySet, Instance)):
            if id(x) in seen:
                continue
            seen.add(id(x))
        yield x
        if isinstance(x, PyList):
            todo += x.items or []
        elif isinstance(x, PyDict):
            todo += [q for _, q in x.d.values()]
        elif isinstance(x, Instance):
            todo += list(x.attrs.values())
        elif isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, IteV):
            todo += [x.a, x.b]
