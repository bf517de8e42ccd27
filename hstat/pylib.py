"""Abstract semantics of builtins, containers, strings and library calls."""
import builtins
import math
import operator
import re
from fractions import Fraction

from . import alg
from .alg import Expr, Cond
from .values import *
from . import tlib
from .interp import BUILTIN_EXC

_BUILTINS = {'len', 'range', 'enumerate', 'zip', 'list', 'dict', 'tuple', 'set', 'str',
             'int', 'float', 'bool', 'isinstance', 'issubclass', 'type', 'abs', 'min', 'max', 'sum',
             'sorted', 'reversed', 'any', 'all', 'map', 'filter', 'print', 'getattr', 'setattr',
             'hasattr', 'round', 'open', 'iter', 'next', 'repr', 'callable', 'id', 'super',
             'object', 'slice', 'frozenset', 'divmod', 'pow', 'vars', 'dir', 'hash', 'complex',
             'format', 'ord', 'chr', 'delattr', 'bytes', 'property', 'staticmethod',
             'classmethod', 'input', 'exit', 'quit', 'globals', 'locals', 'Ellipsis'}


def builtin(name):
    if name in _BUILTINS or name in BUILTIN_EXC:
        if name == 'Ellipsis':
            return Ellipsis
        return Lib('builtins.' + name)
    if name == 'NotImplemented':
        return Lib('builtins.NotImplemented')
    return None


# ----------------------------------------------------------------- truth
def truth(I, v):
    v = I.simp(v)
    if isinstance(v, (bool, Cond)):
        return v
    if v is None:
        return False
    if isinstance(v, int):
        return v != 0
    if isinstance(v, Num):
        if v.e.nan:
            return True
        return alg.cmp_('ne', v.e, alg.ZERO)
    if isinstance(v, (str, tuple, bytes)):
        return len(v) > 0
    if isinstance(v, PyList):
        return alg.opaque_cond('nonempty', v.birth) if v.items is None else len(v.items) > 0
    if isinstance(v, (PyDict, PySet)):
        return len(v.d) > 0
    if isinstance(v, Tensor):
        if v.size != 1:
            raise AbsRaise('RuntimeError', 'truth value of a tensor with more than one element is ambiguous')
        x = v.item()
        if I.batched:
            tlib.mapped_use(I, [x], 'data-dependent control flow')
        if isinstance(x, (bool, Cond)):
            return x
        return alg.cmp_('ne', x, alg.ZERO)
    if isinstance(v, IteV):
        return I.merge_pure(v, lambda x: truth(I, x))
    if isinstance(v, MatchV):
        return True
    if isinstance(v, Opaque):
        return alg.opaque_cond('truth', hkey(v))
    if isinstance(v, Instance):
        m = v.cls.lookup('__bool__')
        if m:
            return truth(I, I.call(Bound(m, v), [], {}))
        m = v.cls.lookup('__len__')
        if m:
            return truth(I, I.call(Bound(m, v), [], {}))
        return True
    return True


# ----------------------------------------------------------------- arithmetic
def num(e, ints):
    if ints and e.is_const() and e.const().denominator == 1:
        return int(e.const())
    return Num(e, 'i' if ints else 'f')


def _isint(v):
    return isinstance(v, (bool, int)) or (isinstance(v, Num) and v.k == 'i')


def terr(vs, exc, msg):
    """Type error on these operands; not definite when one is symbolic."""
    if any(isinstance(v, (Opaque, IteV)) or isinstance(v, Num) and not v.e.is_const() for v in vs):
        return Undecided(msg)
    return AbsRaise(exc, msg)


def binop(I, op, a, b):
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        return tlib.binop(I, op, a, b)
    if isinstance(a, Cond) and isinstance(b, (bool, Cond)) or isinstance(b, Cond) and isinstance(a, (bool, Cond)):
        if op == 'BitAnd':
            return alg.and_(a, b)
        if op == 'BitOr':
            return alg.or_(a, b)
    if isinstance(a, Cond):
        a = Num(to_expr(a), 'i')
    if isinstance(b, Cond):
        b = Num(to_expr(b), 'i')
    if is_num(a) and is_num(b):
        ints = _isint(a) and _isint(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            try:
                if op == 'Add':
                    return a + b
                if op == 'Sub':
                    return a - b
                if op == 'Mult':
                    return a * b
                if op == 'FloorDiv':
                    return a // b
                if op == 'Mod':
                    return a % b
                if op == 'Pow' and b >= 0:
                    return a ** b
                if op == 'BitAnd':
                    return a & b
                if op == 'BitOr':
                    return a | b
                if op == 'BitXor':
                    return a ^ b
                if op == 'LShift':
                    return a << b
                if op == 'RShift':
                    return a >> b
            except ZeroDivisionError:
                raise AbsRaise('ZeroDivisionError', '')
        ea, eb = to_expr(a), to_expr(b)
        if op == 'Add':
            return num(ea + eb, ints)
        if op == 'Sub':
            return num(ea - eb, ints)
        if op == 'Mult':
            return num(ea * eb, ints)
        if op == 'Div':
            if eb.is_zero():
                raise AbsRaise('ZeroDivisionError', 'division by zero')
            return Num(ea / eb, 'f')
        if op == 'Pow':
            return num(ea ** eb, ints)
        if op in ('FloorDiv', 'Mod'):
            if ea.is_const() and eb.is_const() and eb.const() != 0:
                q = (ea.const() / eb.const()).__floor__()
                r = alg.const(q) if op == 'FloorDiv' else alg.const(ea.const() - q * eb.const())
                return num(r, ints)
            return num(alg.fn(op.lower(), (ea, eb)), ints)
        raise Undecided(f'arithmetic {op}')
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PyList) and isinstance(b, PyList):
            if a.items is None or b.items is None:
                r = PyList()
                r.items = None
                return r
            return PyList(a.items + b.items)
        if (isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque))
                and (is_strish(a) or is_strish(b))):
            return str_concat([a, b])
    if op == 'Mult':
        if isinstance(a, (str, tuple)) and isinstance(b, int):
            return a * b
        if isinstance(b, (str, tuple)) and isinstance(a, int):
            return b * a
        if isinstance(a, PyList) and isinstance(b, int):
            return PyList(a.items * b)
        if isinstance(b, PyList) and isinstance(a, int):
            return PyList(b.items * a)
    if op == 'Mod' and isinstance(a, str):
        return Opaque('fmt', (a, b), 'str')
    if isinstance(a, PySet) and isinstance(b, PySet):
        ka, kb = a.d, b.d
        if op == 'Sub':
            return PySet([v for k, v in ka.items() if k not in kb])
        if op == 'BitAnd':
            return PySet([v for k, v in ka.items() if k in kb])
        if op == 'BitOr':
            return PySet(list(ka.values()) + list(kb.values()))
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == 'BitOr':
        return PyDict(list(a.d.values()) + list(b.d.values()))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return opaque_bin(op, a, b)
    if isinstance(a, Lib) and a.path.startswith('pathlib'):
        return Opaque('path/', (a, b), 'path')
    raise terr((a, b,), 'TypeError', f'unsupported operand types for {op}: {tname(a)} and {tname(b)}')


def tname(v):
    return {'PyList': 'list', 'PyDict': 'dict', 'Num': 'float', 'NoneType': 'None'}.get(type(v).__name__, type(v).__name__)


def opaque_bin(op, a, b):
    # numeric reasoning over opaque scalars
    if (isinstance(a, Opaque) or is_num(a)) and (isinstance(b, Opaque) or is_num(b)) and op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
        if (isinstance(a, Opaque) and a.kind == 'num') or (isinstance(b, Opaque) and b.kind == 'num') or True:
            ea, eb = to_expr(a), to_expr(b)
            r = {'Add': lambda: ea + eb, 'Sub': lambda: ea - eb, 'Mult': lambda: ea * eb,
                 'Div': lambda: ea / eb, 'Pow': lambda: ea ** eb}[op]()
            return Num(r, 'f')
    return Opaque(f'op{op}', (a, b))


def unop(I, op, v):
    if isinstance(v, Tensor):
        return tlib.unop(I, op, v)
    if op == 'USub':
        if isinstance(v, (bool, int)):
            return -v
        if isinstance(v, Num):
            return Num(-v.e, v.k)
        if isinstance(v, Opaque):
            return Num(-to_expr(v))
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, (Cond,)):
            return alg.not_(v)
        if isinstance(v, (bool, int)):
            return ~v
    if isinstance(v, Opaque):
        return Opaque('op' + op, (v,))
    raise terr((v,), 'TypeError', f'bad operand for unary {op}: {tname(v)}')


_CMP = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'Eq': 'eq', 'NotEq': 'ne'}


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_same(a, b)
        return r if op == 'Is' else alg.not_(r)
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return r if op == 'In' else alg.not_(r)
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        if op in ('Eq', 'NotEq') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            return op == 'NotEq'
        return tlib.compare(I, _CMP[op], a, b)
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)) and op in ('Eq', 'NotEq'):
        r = alg.cond_ite(a, b, alg.not_(b)) if not isinstance(a, bool) else (b if a else alg.not_(b))
        return r if op == 'Eq' else alg.not_(r)
    if isinstance(a, Cond):
        a = Num(to_expr(a), 'i')
    if isinstance(b, Cond):
        b = Num(to_expr(b), 'i')
    if is_num(a) and is_num(b):
        return alg.cmp_(_CMP[op], to_expr(a), to_expr(b))
    if op in ('Eq', 'NotEq'):
        r = eq(I, a, b)
        return r if op == 'Eq' else alg.not_(r)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, PySet) and isinstance(b, PySet):
        ka, kb = set(a.d), set(b.d)
        return {'Lt': ka < kb, 'LtE': ka <= kb, 'Gt': ka > kb, 'GtE': ka >= kb}[op]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, (int, str)) for x in a + b):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        try:
            return alg.cmp_(_CMP[op], to_expr(a), to_expr(b))
        except Undecided:
            return alg.opaque_cond(op, hkey(a), hkey(b))
    raise terr((a, b,), 'TypeError', f'comparison {op} of {tname(a)} and {tname(b)}')


def is_same(a, b):
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            if o.kind is not None:
                return False
            return alg.opaque_cond('isnone', hkey(o))
        return a is b
    if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
        return alg.cond_ite(a, b, alg.not_(b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if same(a, b):
            return True
        return alg.opaque_cond('is', hkey(a), hkey(b))
    if isinstance(a, Lib) and isinstance(b, Lib):
        return a.path == b.path
    return same(a, b) if not isinstance(a, (tuple,)) else a is b


def eq(I, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return is_same(a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if same(a, b):
            return True
        if (isinstance(a, Opaque) and is_num(b)) or (isinstance(b, Opaque) and is_num(a)):
            return alg.cmp_('eq', to_expr(a), to_expr(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.name in ('fmt', 'str') and len(x.args) and isinstance(x.args[0], (Num, Cond)) and isinstance(y, str):
                # text of a number or truth value
                if isinstance(x.args[0], Cond):
                    if y not in ('True', 'False'):
                        return False
                else:
                    try:
                        float(y)
                    except ValueError:
                        return False
        ka, kb = hkey(a), hkey(b)
        if repr(ka) > repr(kb):
            ka, kb = kb, ka
        return alg.opaque_cond('eq', ka, kb)
    if is_num(a) and is_num(b):
        return alg.cmp_('eq', to_expr(a), to_expr(b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = alg.and_(r, truth(I, I.compare('Eq', x, y)))
        return r
    if isinstance(a, PyList) and isinstance(b, PyList):
        if a.items is None or b.items is None:
            return alg.opaque_cond('listeq', a.birth, b.birth)
        return eq(I, tuple(a.items), tuple(b.items))
    if isinstance(a, PySet) and isinstance(b, PySet):
        return set(a.d) == set(b.d)
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if set(a.d) != set(b.d):
            return False
        r = True
        for k in a.d:
            r = alg.and_(r, truth(I, I.compare('Eq', a.d[k][1], b.d[k][1])))
        return r
    if isinstance(a, Instance):
        m = a.cls.lookup('__eq__')
        if m:
            return truth(I, I.call(Bound(m, a), [b], {}))
    if isinstance(a, Lib) and isinstance(b, Lib):
        return dt_or_path(a) == dt_or_path(b)
    return same(a, b)


def dt_or_path(l):
    return tlib.dtype_of(l) or l.path


def contains(I, cont, x):
    cont = I.simp(cont)
    x = I.simp(x)
    if isinstance(cont, IteV):
        return I.merge_pure(cont, lambda c: contains(I, c, x))
    if isinstance(x, IteV):
        return I.merge_pure(x, lambda c: contains(I, cont, c))
    if isinstance(cont, (PyDict, PySet)):
        if isinstance(x, Opaque):
            if hkey(x) in cont.d:
                return True
            if not cont.d:
                return False
            return alg.opaque_cond('in', hkey(x), tuple(sorted(map(repr, cont.d))))
        k = hkey(x)
        if k in cont.d:
            v = cont.d[k]
            if isinstance(cont, PyDict):
                v = I.simp(v[1])
                if v is ABSENT:
                    return False
                if isinstance(v, IteV) and v.a is ABSENT:
                    return alg.not_(v.c)
                if isinstance(v, IteV) and v.b is ABSENT:
                    return v.c
            return True
        if any(isinstance(kk, tuple) and kk and kk[0] == 'o' for kk in cont.d):
            return alg.opaque_cond('in', k, tuple(sorted(map(repr, cont.d))))
        return False
    if isinstance(cont, str):
        if isinstance(x, str):
            return x in cont
        return alg.opaque_cond('in', hkey(x), cont)
    if isinstance(cont, (tuple, PyList, IterV)):
        items = I.try_iterate(cont)
        if items is None:
            return alg.opaque_cond('in', hkey(x), hkey(cont))
        r = False
        for y in items:
            r = alg.or_(r, truth(I, I.compare('Eq', x, y)))
            if r is True:
                return True
        return r
    if isinstance(cont, RangeV):
        return I.as_int(x) in cont.r
    if isinstance(cont, Tensor):
        c = tlib.compare(I, 'eq', cont, x)
        return tlib.any_(c)
    if isinstance(cont, Instance):
        m = cont.cls.lookup('__contains__')
        if m:
            return truth(I, I.call(Bound(m, cont), [x], {}))
    if isinstance(cont, Opaque):
        return alg.opaque_cond('in', hkey(x), hkey(cont))
    raise terr((cont,), 'TypeError', f'argument of type {tname(cont)} is not iterable')


class RangeV:
    def __init__(self, r):
        self.r = r


# ----------------------------------------------------------------- iteration
def iterate(I, v):
    if isinstance(v, PyList):
        if v.items is None:
            raise Undecided('iteration over unknown list')
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, PyDict):
        return [k for k, x in v.d.values()]
    if isinstance(v, PySet):
        return list(v.d.values())
    if isinstance(v, IterV):
        r = v.items[v.pos:]
        v.touch()
        v.pos = len(v.items)
        return r
    if isinstance(v, RangeV):
        if len(v.r) > 20000:
            raise Undecided('long range')
        return list(v.r)
    if isinstance(v, Tensor):
        if not v.shape:
            raise AbsRaise('TypeError', 'iteration over a 0-d tensor')
        return [tlib.getitem(I, v, i) for i in range(v.shape[0])]
    if isinstance(v, Instance):
        m = v.cls.lookup('__iter__')
        if m:
            r = I.call(Bound(m, v), [], {})
            if r is not v:
                return iterate(I, r)
        m = v.cls.lookup('__getitem__')
        ml = v.cls.lookup('__len__')
        if m and ml:
            n = I.as_int(I.call(Bound(ml, v), [], {}))
            return [I.call(Bound(m, v), [i], {}) for i in range(n)]
        if '@dict' in v.attrs:
            return iterate(I, v.attrs['@dict'])
    if isinstance(v, IteV):
        a, b = iterate(I, v.a), iterate(I, v.b)
        if len(a) == len(b):
            return [merge(v.c, x, y) for x, y in zip(a, b)]
        raise Undecided('iteration over gated sequences of different length')
    if v is None or is_num(v):
        raise terr((v,), 'TypeError', f'{tname(v)} object is not iterable')
    raise Undecided(f'iteration over {str(v)[:80]}')


# ----------------------------------------------------------------- strings
def is_strish(v):
    return isinstance(v, str) or (isinstance(v, Opaque) and v.kind == 'str')


def str_concat(parts):
    flat = []
    for p in parts:
        if isinstance(p, Opaque) and p.name == 'strcat':
            flat += list(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p == '' and isinstance(p, str):
            continue
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    if len(out) == 1 and is_strish(out[0]):
        return out[0]
    return Opaque('strcat', out, 'str')


def np_scalar(v):
    """numpy scalars print like Python numbers."""
    if isinstance(v, Tensor) and v.lib == 'np' and not v.shape:
        x = v.item()
        if isinstance(x, Expr) and x.is_const():
            return int(x.const()) if v.dtype.startswith('int') else Num(x)
        if isinstance(x, bool):
            return x
    return v


def to_str(I, v):
    t = tok(I.simp(v))
    if t is not None:
        return str(t)
    v = np_scalar(I.simp(v))
    if isinstance(v, str):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return str(v)
    if isinstance(v, Num) and v.e.is_const():
        c = v.e.const()
        return str(int(c)) if v.k == 'i' else repr(float(c))
    if isinstance(v, Opaque) and v.kind == 'str':
        return v
    if isinstance(v, tuple) and all(isinstance(x, (str, int)) for x in v):
        return str(v)
    if isinstance(v, PyList) and v.items is not None and all(isinstance(x, (str, int)) for x in v.items):
        return str(v.items)
    if isinstance(v, ExcV):
        return to_str(I, v.args[0]) if v.args else ''
    return Opaque('str', (_freeze(v),), 'str')


def _freeze(v):
    if isinstance(v, Tensor):
        return Opaque('T', (tuple(v.shape),) + tuple(Num(x) if isinstance(x, Expr) else x for x in v.vals()))
    return v


# Numbers in text: while TOK is a list, an unrestricted number that is printed becomes a token (as wide as the widest number of
# its format) and a text that is exactly one token reads back as that number; two tokens without a separator do not.
TOK = None
_TOK_RE = re.compile('\u27e6(\\d+)[\u00b7\u2042]*\u27e7$')


class Tok:
    def __init__(self, v):
        self.v = v

    def __format__(self, spec):
        m = re.match(r'([<>^]?)([ +]?)(\d*)(?:\.(\d+))?([efgEFG]?)$', spec)
        if not m:
            raise Undecided(f'format {spec!r}')
        if self.v not in TOK:
            TOK.append(self.v)
        n = 7 + int(m[4] or 6) if m[5] in ('e', 'E') else 12
        t = str(TOK.index(self.v))
        # few digits: another filler
        low = m[4] is not None and int(m[4]) < (7 if m[5] in 'gG' else 6)
        t = '\u27e6' + t + ('\u2042' if low else '\u00b7') * max(1, n - 2 - len(t)) + '\u27e7'
        w = int(m[3] or 0)
        return t.ljust(w) if m[1] == '<' else t.center(w) if m[1] == '^' else t.rjust(w)

    def __str__(self):
        return format(self, '')


def tok(v):
    """Token of a printed number, or None."""
    if TOK is None:
        return None
    if isinstance(v, Tensor) and not v.shape:
        x = v.item()
        v = Num(x) if isinstance(x, Expr) and not x.is_const() else None
    if isinstance(v, Num) and not v.e.is_const():
        return Tok(v.e)
    return None


def format_value(v, conv, spec):
    t = tok(v)
    if t is not None and isinstance(spec, str) and conv in (-1, 115):
        return format(t, spec)
    v = np_scalar(v)
    if isinstance(v, Tensor) and not v.shape:
        x = v.item()
        v = x if isinstance(x, (bool, Cond)) else int(x.const()) if v.dtype.startswith('int') and x.is_const() else Num(x)
        if isinstance(v, Num) and spec == '' and conv in (-1, 115):
            return Opaque('str', (_freeze(v),), 'str')
    if spec == '' and conv in (-1, 115):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, Num) and v.e.is_const() and v.k == 'f':
            return repr(float(v.e.const()))
        if isinstance(v, Opaque) and v.kind == 'str':
            return v
        return Opaque('str', (_freeze(v),), 'str')
    if isinstance(spec, str) and (isinstance(v, (str, int)) or (isinstance(v, Num) and v.e.is_const())):
        try:
            x = v if isinstance(v, (str, int)) else float(v.e.const())
            return format(x, spec)
        except (ValueError, TypeError):
            pass
    return Opaque('fmt', (_freeze(v), spec), 'str')


_STR_SAFE = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split',
             'rsplit', 'join', 'replace', 'find', 'rfind', 'isdigit', 'isnumeric', 'count',
             'ljust', 'rjust', 'center', 'zfill', 'title', 'capitalize', 'splitlines',
             'index', 'isalpha', 'isdecimal', 'partition', 'rpartition', 'format', 'encode',
             'islower', 'isupper', 'swapcase', 'isspace', 'expandtabs', 'removesuffix', 'removeprefix'}


def py_concrete(v):
    """Concrete Python object of an abstract value, or raise Undecided."""
    t = tok(v)
    if t is not None:
        return t
    if TOK is not None and isinstance(v, Tensor) and not v.shape:
        x = v.item()
        if isinstance(x, Expr) and x.is_const():
            return int(x.const()) if 'int' in v.dtype else float(x.const())
    if v is None or isinstance(v, (str, bool, int)):
        return v
    if isinstance(v, Num) and v.e.is_const():
        return float(v.e.const()) if v.k == 'f' else int(v.e.const())
    if isinstance(v, tuple):
        return tuple(py_concrete(x) for x in v)
    if isinstance(v, PyList) and v.items is not None:
        return [py_concrete(x) for x in v.items]
    raise Undecided('not concrete')


def from_py(x):
    if isinstance(x, float):
        return Num(alg.from_float(x))
    if isinstance(x, list):
        return PyList([from_py(y) for y in x])
    if isinstance(x, tuple):
        return tuple(from_py(y) for y in x)
    if isinstance(x, dict):
        return PyDict([(from_py(k), from_py(v)) for k, v in x.items()])
    return x


# ----------------------------------------------------------------- attributes
def getattr_(I, o, name):
    if isinstance(o, Instance):
        if name in o.attrs:
            v = I.simp(o.attrs[name])
            if v is ABSENT:
                raise AbsRaise('AttributeError', f'{o.cls.name} has no attribute {name}')
            if isinstance(v, IteV) and v.a is ABSENT:
                I.note_absent(v.c, True)
                return v.b
            if isinstance(v, IteV) and v.b is ABSENT:
                I.note_absent(v.c, False)
                return v.a
            return v
        if isinstance(o.cls, ClassV):
            m = o.cls.lookup(name)
            if m is not None:
                if isinstance(m, FuncV):
                    if m.kind == 'static':
                        return m
                    if m.kind == 'class':
                        return Bound(m, o.cls)
                    if m.kind == 'property':
                        return I.call_func(m, [o], {})
                    return Bound(m, o)
                return m
            if name == '__class__':
                return o.cls
            if '@fake' in o.attrs:
                raise Undecided(f'stand-in has no attribute {name}')
            if name == '__dict__':
                return PyDict(list(o.attrs.items()))
            for p in o.cls.lib_bases():
                if p.split('.')[-1] not in ('ABC', 'object'):
                    m2 = o.cls.lookup('__getattr__')
                    if m2:
                        return I.call_func(m2, [o, name], {})
                    if '@lib' in o.attrs or p.startswith('torch'):
                        if I.is_nn(o.cls) and name not in _NN_METHODS:
                            raise AbsRaise('AttributeError', f'{o.cls.name} object has no attribute {name!r}')
                        return Method(o, name)
                    return Method(o, name)
            m2 = o.cls.lookup('__getattr__')
            if m2:
                return I.call_func(m2, [o, name], {})
            raise AbsRaise('AttributeError', f'{o.cls.name} object has no attribute {name!r}')
        return Method(o, name)
    if isinstance(o, ClassV):
        m = o.lookup(name)
        if m is not None:
            if isinstance(m, FuncV) and m.kind == 'class':
                return Bound(m, o)
            return m
        if name == '__name__':
            return o.name
        if name == '__mro__':
            return tuple(o.mro)
        if o.lib_bases():
            return Lib(o.lib_bases()[0] + '.' + name)
        raise AbsRaise('AttributeError', f'type object {o.name} has no attribute {name!r}')
    if isinstance(o, Super):
        cls = o.self.cls if isinstance(o.self, Instance) else o.self
        m = cls.lookup(name, after=o.cls)
        if m is not None:
            if isinstance(m, FuncV) and m.kind == 'static':
                return m
            if isinstance(m, FuncV) and m.kind == 'property':
                return I.call_func(m, [o.self], {})
            return Bound(m, o.self) if isinstance(m, FuncV) else m
        return Native(lambda I, a, k: I.event('super', name, tuple(a), k, o.self) and None, 'super.' + name)
    if isinstance(o, ModuleV):
        v = o.frame.vars.get(name)
        if v is not None or name in o.frame.vars:
            return v
        sub = I.prog.path_of(o.name + '.' + name)
        if sub:
            return I.module(o.name + '.' + name)
        raise AbsRaise('AttributeError', f'module {o.name} has no attribute {name!r}')
    if isinstance(o, Lib):
        return lib_attr(o, name)
    if isinstance(o, Tensor):
        return tlib.getattr_(I, o, name)
    if isinstance(o, FuncV):
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return ''
        return Opaque('attr', (o.name, name))
    if isinstance(o, (str, PyList, PyDict, PySet, tuple, IterV, RangeV, Num, int, bool, Cond)):
        if name == '__class__':
            return type_of(I, o)
        if isinstance(o, (Num, int)) and name == 'real':
            return o
        kind = {str: str, PyList: list, PyDict: dict, PySet: set, tuple: tuple}.get(type(o))
        if kind is not None and not hasattr(kind, name):
            if isinstance(o, PyDict) and o.kind != 'dict':
                return Method(o, name)
            raise AbsRaise('AttributeError', f'{tname(o)} object has no attribute {name!r}')
        if isinstance(o, (Num, int, bool)) and not hasattr(float, name) and not hasattr(int, name):
            raise terr((o,), 'AttributeError', f'number has no attribute {name!r}')
        return Method(o, name)
    if isinstance(o, Opaque):
        k = (hkey(o), name)
        if k in I.opaque_attrs:
            return I.opaque_attrs[k]
        return OpaqueAttr(o, name)
    if o is None:
        raise AbsRaise('AttributeError', f"'NoneType' object has no attribute {name!r}")
    if isinstance(o, ExcV):
        return Opaque('excattr', (o.name, name))
    if isinstance(o, Bound):
        if name == '__self__':
            return o.self
        return getattr_(I, o.func, name)
    if isinstance(o, Method):
        return Opaque('attr', (o.name, name))
    if isinstance(o, Native):
        return Opaque('attr', (o.name, name))
    raise Undecided(f'attribute {name} of {type(o).__name__}')


class OpaqueAttr(Opaque):
    """Attribute of an opaque value; callable as a method of it."""
    __slots__ = ('obj', 'attr')

    def __init__(self, obj, attr):
        super().__init__('attr:' + attr, (obj,))
        self.obj, self.attr = obj, attr


_NN_METHODS = {'parameters', 'named_parameters', 'children', 'modules', 'named_modules', 'train', 'eval',
               'to', 'cpu', 'cuda', 'float', 'double', 'half', 'state_dict', 'load_state_dict', 'register_buffer',
               'register_parameter', 'add_module', 'apply', 'zero_grad', 'requires_grad_', 'named_children',
               'buffers', 'named_buffers', 'forward', 'register_forward_hook', 'keys', 'values', 'items', 'append',
               'share_memory', 'type', '__class__', 'get_parameter', 'register_module', 'update', 'clear', 'pop',
               '__call__', 'training', 'extra_repr', 'eval', 'device', 'insert', 'extend', '__dict__', 'copy'}

PI = None


def lib_attr(o, name):
    p = o.path + '.' + name
    if p in ('numpy.pi', 'math.pi', 'torch.pi'):
        return Num(alg.sym('pi', pos=True))
    if p in ('numpy.inf', 'math.inf', 'torch.inf'):
        return Num(alg.from_float(float('inf')))
    if p in ('numpy.nan', 'math.nan', 'torch.nan', 'numpy.NaN'):
        return Num(alg.NAN)
    if p in ('numpy.e', 'math.e'):
        return Num(alg.func('exp', alg.ONE))
    if p == 'numpy.newaxis':
        return None
    if p in ('os.sep', 'os.path.sep'):
        return '/'
    return Lib(p)


def setattr_(I, o, name, v):
    if isinstance(o, Instance):
        o.touch()
        o.attrs[name] = v
        return
    if isinstance(o, ClassV):
        o.ns[name] = v
        return
    if isinstance(o, Opaque):
        I.event('setattr', name, (v,), {}, o)
        I.opaque_attrs[(hkey(o), name)] = v
        return
    if isinstance(o, Tensor):
        tlib.setattr_(I, o, name, v)
        return
    if isinstance(o, (Lib, ModuleV)):
        I.event('setattr', name, (v,), {}, o)
        return
    raise AbsRaise('AttributeError', f'cannot set attribute {name} of {tname(o)}')


# ----------------------------------------------------------------- items
def getitem(I, o, k):
    if isinstance(o, Tensor):
        return tlib.getitem(I, o, k)
    if isinstance(o, PyDict):
        if isinstance(k, Opaque) and hkey(k) not in o.d:
            return Opaque('item', (Opaque('dict%d' % o.birth), k))
        r = o.d.get(hkey(k))
        if r is None:
            if o.kind == 'defaultdict' and '@default' in o.d:
                v = I.call(o.d['@default'][1], [], {})
                o.set(k, v)
                return v
            raise AbsRaise('KeyError', repr(k))
        v = I.simp(r[1])
        if v is ABSENT:
            raise AbsRaise('KeyError', repr(k))
        if isinstance(v, IteV) and v.a is ABSENT:
            I.note_absent(v.c, True)
            return v.b
        if isinstance(v, IteV) and v.b is ABSENT:
            I.note_absent(v.c, False)
            return v.a
        return v
    if isinstance(o, (PyList, tuple, str, RangeV)):
        if isinstance(o, PyList) and o.items is None:
            return Opaque('item', (Opaque('list%d' % o.birth), k))
        seq = o.items if isinstance(o, PyList) else (o.r if isinstance(o, RangeV) else o)
        if isinstance(k, SliceV):
            s = seq[I.to_slice(k)]
            return PyList(s) if isinstance(o, PyList) else (PyList(list(s)) if isinstance(o, RangeV) else s)
        if isinstance(k, (str, tuple)) or k is None:
            raise AbsRaise('TypeError', f'{tname(o)} indices must be integers, not {tname(k)}')
        if isinstance(k, Opaque):
            return Opaque('item', (_seqkey(o), k))
        try:
            i = I.as_int(k)
        except Undecided:
            if isinstance(k, Num):
                return sym_index(I, seq, k)
            raise
        try:
            return seq[i]
        except IndexError:
            raise AbsRaise('IndexError', f'index {i} out of range')
    if isinstance(o, Instance):
        m = o.cls.lookup('__getitem__')
        if m:
            return I.call(Bound(m, o), [k], {})
        if '@dict' in o.attrs:
            return getitem(I, o.attrs['@dict'], k)
        raise AbsRaise('TypeError', f'{o.cls.name} object is not subscriptable')
    if isinstance(o, Opaque):
        kk = ('[]', hkey(o), hkey(k))
        if kk in I.opaque_attrs:
            return I.opaque_attrs[kk]
        return Opaque('item', (o, k))
    if isinstance(o, Lib):
        return o
    if isinstance(o, ClassV):
        return o
    raise terr((o,), 'TypeError', f'{tname(o)} object is not subscriptable')


def _seqkey(o):
    return o if isinstance(o, (tuple, str)) else Opaque('list%d' % getattr(o, 'birth', 0))


def sym_index(I, seq, k):
    seq = list(seq)
    if seq and all(is_num(x) for x in seq):
        return Num(alg.fn('index', tuple(to_expr(x) for x in seq) + (k.e,)), 'f')
    if seq and all(isinstance(x, Tensor) for x in seq) and len({x.shape for x in seq}) == 1:
        n = seq[0].size
        data = [alg.fn('index', tuple(alg.as_expr(x.vals()[i]) for x in seq) + (k.e,)) for i in range(n)]
        return Tensor(Storage(data), seq[0].shape, dtype=seq[0].dtype, lib=seq[0].lib)
    return Opaque('item', (Opaque('seq', tuple(seq)), k))


def setitem(I, o, k, v):
    if isinstance(o, Tensor):
        return tlib.setitem(I, o, k, v)
    if isinstance(o, PyDict):
        o.set(k, v)
        return
    if isinstance(o, PyList):
        if o.items is None:
            return
        if isinstance(k, SliceV):
            o.touch()
            o.items[I.to_slice(k)] = I.iterate(v)
            return
        i = I.as_int(k)
        o.touch()
        try:
            o.items[i] = v
        except IndexError:
            raise AbsRaise('IndexError', f'assignment index {i} out of range')
        return
    if isinstance(o, Instance):
        m = o.cls.lookup('__setitem__')
        if m:
            I.call(Bound(m, o), [k, v], {})
            return
        if '@dict' in o.attrs:
            return setitem(I, o.attrs['@dict'], k, v)
    if isinstance(o, Opaque):
        I.event('setitem', '[]', (k, v), {}, o)
        I.opaque_attrs[('[]', hkey(o), hkey(k))] = v
        return
    raise terr((o,), 'TypeError', f'{tname(o)} object does not support item assignment')


# ----------------------------------------------------------------- methods
def call_method(I, o, name, args, kwargs):
    if isinstance(o, Tensor):
        return tlib.call_method(I, o, name, args, kwargs)
    if isinstance(o, str):
        if name == 'join':
            parts = I.iterate(args[0])
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(o)
                out.append(p if is_strish(p) else to_str(I, p))
            return str_concat(out)
        if name == 'format':
            try:
                return o.format(*[py_concrete(I.simp(a)) for a in args],
                                **{k: py_concrete(I.simp(v)) for k, v in kwargs.items()})
            except Undecided:
                return Opaque('format', (o,) + tuple(map(_freeze, args)) + tuple((k, _freeze(v)) for k, v in kwargs.items()), 'str')
        if name in _STR_SAFE:
            try:
                r = getattr(o, name)(*[py_concrete(I.simp(a)) for a in args],
                                     **{k: py_concrete(v) for k, v in kwargs.items()})
                return from_py(r)
            except Undecided:
                return Opaque('str.' + name, (o,) + tuple(args))
        raise Undecided(f'str.{name}')
    if isinstance(o, PyList):
        return list_method(I, o, name, args, kwargs)
    if isinstance(o, PyDict):
        return dict_method(I, o, name, args, kwargs)
    if isinstance(o, PySet):
        return set_method(I, o, name, args, kwargs)
    if isinstance(o, tuple):
        if name == 'index':
            for i, x in enumerate(o):
                if truth(I, I.compare('Eq', x, args[0])) is True:
                    return i
            raise AbsRaise('ValueError', 'tuple.index')
        if name == 'count':
            return sum(1 for x in o if truth(I, I.compare('Eq', x, args[0])) is True)
    if isinstance(o, (Num, int, bool)):
        if name == 'is_integer':
            e = to_expr(o)
            return e.const().denominator == 1 if e.is_const() else alg.opaque_cond('isint', e)
        if name in ('item', '__float__'):
            return o
        raise Undecided(f'number.{name}')
    if isinstance(o, Instance):
        return nn_method(I, o, name, args, kwargs)
    if isinstance(o, IterV) and name == '__next__':
        return next_(I, o)
    raise Undecided(f'method {name} of {tname(o)}')


def next_(I, o, default=ABSENT):
    if o.pos < len(o.items):
        o.touch()
        o.pos += 1
        return o.items[o.pos - 1]
    if default is not ABSENT:
        return default
    raise AbsRaise('StopIteration', '')


def list_method(I, o, name, args, kwargs):
    if o.items is None:
        if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'remove', 'clear'):
            return None
        return Opaque(f'list{o.birth}.{name}', tuple(args))
    if name == 'append':
        o.touch()
        o.items.append(args[0])
        return None
    if name == 'extend':
        x = I.iterate(args[0])
        o.touch()
        o.items.extend(x)
        return None
    if name == 'insert':
        o.touch()
        o.items.insert(I.as_int(args[0]), args[1])
        return None
    if name == 'pop':
        i = I.as_int(args[0]) if args else -1
        if not o.items:
            raise AbsRaise('IndexError', 'pop from empty list')
        o.touch()
        return o.items.pop(i)
    if name == 'copy':
        return PyList(o.items)
    if name == 'index':
        for i, x in enumerate(o.items):
            c = truth(I, I.compare('Eq', x, args[0]))
            if c is True:
                return i
            if c is not False:
                raise Undecided('list.index')
        raise AbsRaise('ValueError', f'{args[0]!r} is not in list')
    if name == 'count':
        return sum(1 for x in o.items if truth(I, I.compare('Eq', x, args[0])) is True)
    if name == 'sort':
        r = sort_items(I, o.items, kwargs)
        o.touch()
        o.items = r
        return None
    if name == 'reverse':
        o.touch()
        o.items.reverse()
        return None
    if name == 'remove':
        i = list_method(I, o, 'index', args, {})
        o.touch()
        del o.items[i]
        return None
    if name == 'clear':
        o.touch()
        o.items = []
        return None
    raise Undecided(f'list.{name}')


def sort_items(I, items, kwargs):
    key = kwargs.get('key')
    rev = kwargs.get('reverse', False)
    dec = [(I.call(key, [x], {}) if key is not None else x) for x in items]
    try:
        ks = [py_concrete(I.simp(d)) for d in dec]
    except Undecided:
        # tuples are ordered by their leading entries as long as these differ
        try:
            heads = [tuple(I.iterate(I.simp(d))) for d in dec]
            n = 1
            while True:
                ks = [tuple(py_concrete(I.simp(x)) for x in h[:n]) for h in heads]
                if len(set(ks)) == len(ks):
                    break
                n += 1
                if any(len(h) < n for h in heads):
                    raise Undecided('')
        except (Undecided, AbsRaise, TypeError, AttributeError):
            raise Undecided('sort of symbolic values')
    order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(rev))
    return [items[i] for i in order]


def dict_method(I, o, name, args, kwargs):
    if name == 'keys':
        return DictView(o, 'k')
    if name == 'values':
        return DictView(o, 'v')
    if name == 'items':
        return DictView(o, 'i')
    if name == 'get':
        d = args[1] if len(args) > 1 else kwargs.get('default')
        c = contains(I, o, args[0])
        if c is True:
            return getitem(I, o, args[0])
        if c is False:
            return d
        return I.distribute(c, lambda: getitem(I, o, args[0]), lambda: d)
    if name == 'update':
        if args:
            s = I.simp(args[0])
            if isinstance(s, PyDict):
                pairs = list(s.d.values())
            elif isinstance(s, Opaque):
                raise Undecided('dict.update of unknown mapping')
            else:
                pairs = [tuple(I.iterate(p)) for p in I.iterate(s)]
            for k, v in pairs:
                o.set(k, v)
        for k, v in kwargs.items():
            o.set(k, v)
        return None
    if name == 'pop':
        k = hkey(args[0])
        if k in o.d:
            v = getitem(I, o, args[0])
            o.touch()
            o.d.pop(k)
            return v
        if len(args) > 1:
            return args[1]
        raise AbsRaise('KeyError', repr(args[0]))
    if name == 'copy':
        return PyDict(o.d.values(), o.kind)
    if name == 'setdefault':
        if hkey(args[0]) not in o.d:
            o.set(args[0], args[1] if len(args) > 1 else None)
        return getitem(I, o, args[0])
    if name == 'clear':
        o.touch()
        o.d = {}
        return None
    if name == 'popitem':
        o.touch()
        k = list(o.d)[-1]
        return o.d.pop(k)
    if o.kind != 'dict':
        return I.event('opaque-call', name, tuple(args), kwargs, o) and Opaque('call', (name, o.birth))
    raise Undecided(f'dict.{name}')


class DictView(IterV):
    def __init__(self, o, kind):
        items = []
        for k, v in o.d.values():
            items.append(k if kind == 'k' else v if kind == 'v' else (k, v))
        super().__init__(items)


def set_method(I, o, name, args, kwargs):
    if name == 'add':
        o.touch()
        o.d[hkey(args[0])] = args[0]
        return None
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'symmetric_difference'):
        b = PySet(I.iterate(args[0]))
        ka, kb = o.d, b.d
        if name == 'union':
            return PySet(list(ka.values()) + list(kb.values()))
        if name == 'intersection':
            return PySet([v for k, v in ka.items() if k in kb])
        if name == 'difference':
            return PySet([v for k, v in ka.items() if k not in kb])
        if name == 'issubset':
            return set(ka) <= set(kb)
        if name == 'issuperset':
            return set(ka) >= set(kb)
        return PySet([v for k, v in ka.items() if k not in kb] + [v for k, v in kb.items() if k not in ka])
    if name in ('discard', 'remove'):
        k = hkey(args[0])
        if k not in o.d and name == 'remove':
            raise AbsRaise('KeyError', repr(args[0]))
        o.touch()
        o.d.pop(k, None)
        return None
    if name == 'copy':
        return PySet(o.d.values())
    if name == 'update':
        x = I.iterate(args[0])
        o.touch()
        for y in x:
            o.d[hkey(y)] = y
        return None
    if name == 'pop':
        o.touch()
        return o.d.pop(next(iter(o.d)))
    raise Undecided(f'set.{name}')


def nn_method(I, o, name, args, kwargs):
    cls = o.cls
    I.event('nn', name, tuple(args), kwargs, o)
    if name in ('train', 'eval'):
        val = True
        if name == 'eval':
            val = False
        elif args:
            val = args[0]
        elif 'mode' in kwargs:
            val = kwargs['mode']
        set_training(I, o, val, set())
        return o
    if name in ('to', 'cpu', 'cuda', 'float', 'double', 'requires_grad_', 'apply', 'half', 'type'):
        return o
    if '@dict' in o.attrs:
        d = o.attrs['@dict']
        if name in ('keys', 'values', 'items', 'update', 'pop', 'get', 'clear'):
            return dict_method(I, d, name, args, kwargs)
    if '@list' in o.attrs and name in ('append', 'extend', 'insert'):
        return list_method(I, o.attrs['@list'], name, args, kwargs)
    if name == 'state_dict':
        return Opaque('state_dict', (o.birth,), 'state_dict')
    if name in ('parameters', 'named_parameters', 'modules', 'children', 'named_modules', 'named_children', 'buffers'):
        ps = module_params(o)
        if name == 'parameters' and ps is not None:
            return IterV([p for _, p in ps])
        if name == 'named_parameters' and ps is not None:
            return IterV(ps)
        return Opaque(name, (o.birth,))
    if name == 'register_parameter':
        o.touch()
        o.attrs[args[0]] = args[1]
        return None
    if name == 'register_buffer':
        o.touch()
        o.attrs[args[0]] = args[1]
        return None
    if name == 'add_module' or name == 'register_module':
        o.touch()
        o.attrs[args[0]] = args[1]
        return None
    if name == 'load_state_dict':
        return Opaque('load_state_dict', (o.birth,))
    if name == 'training':
        return True
    return Opaque('nn.' + name, (o.birth,) + tuple(args))


def set_training(I, o, val, seen):
    if id(o) in seen:
        return
    seen.add(id(o))
    o.touch()
    o.attrs['training'] = val
    for v in o.attrs.values():
        for x in ([v] if not isinstance(v, (PyDict, PyList)) else
                  [q for _, q in v.d.values()] if isinstance(v, PyDict) else (v.items or [])):
            if isinstance(x, Instance) and isinstance(x.cls, ClassV) and I.is_nn(x.cls):
                set_training(I, x, val, seen)


def module_params(o, prefix='', seen=None):
    out = []
    seen = seen if seen is not None else set()
    if id(o) in seen:
        return out
    seen.add(id(o))
    items = list(o.attrs.items())
    if '@dict' in o.attrs:
        items += [(k, v) for k, v in o.attrs['@dict'].d.values()]
    for k, v in items:
        if isinstance(v, Tensor) and v.param:
            out.append((prefix + str(k), v))
        elif isinstance(v, Instance) and isinstance(v.cls, (ClassV, Lib)):
            out += module_params(v, prefix + str(k) + '.', seen)
    return out


# ----------------------------------------------------------------- contexts
def enter_ctx(I, v):
    v = I.simp(v)
    if isinstance(v, Opaque) and v.name.split('#')[0] in ('torch.no_grad', 'torch.inference_mode', 'torch.autograd.no_grad'):
        old = I.state.get('grad')
        I.state.set('grad', False)
        I.event('no_grad', 'enter')

        def ex():
            I.state.set('grad', old)
            I.event('no_grad', 'exit')
        return None, ex
    if isinstance(v, Opaque) and v.name.split('#')[0] in ('torch.set_grad_enabled', 'torch.enable_grad'):
        old = I.state.get('grad')
        I.state.set('grad', v.args[0] if v.args else True)

        def ex():
            I.state.set('grad', old)
        return None, ex
    if isinstance(v, Instance):
        m = v.cls.lookup('__enter__')
        if m:
            r = I.call(Bound(m, v), [], {})
            x = v.cls.lookup('__exit__')
            return r, lambda: I.call(Bound(x, v), [None, None, None], {})
    return v, None


# ----------------------------------------------------------------- isinstance
def type_of(I, v):
    if isinstance(v, Instance):
        return v.cls
    if isinstance(v, bool) or isinstance(v, Cond):
        return Lib('builtins.bool')
    if isinstance(v, int) or (isinstance(v, Num) and v.k == 'i'):
        return Lib('builtins.int')
    if isinstance(v, Num):
        return Lib('builtins.float')
    if isinstance(v, str):
        return Lib('builtins.str')
    if isinstance(v, tuple):
        return Lib('builtins.tuple')
    if isinstance(v, PyList):
        return Lib('builtins.list')
    if isinstance(v, PyDict):
        return Lib('builtins.dict')
    if isinstance(v, PySet):
        return Lib('builtins.set')
    if isinstance(v, Tensor):
        return Lib('torch.Tensor' if v.lib == 'torch' else 'numpy.ndarray')
    if v is None:
        return Lib('builtins.NoneType')
    if isinstance(v, Opaque):
        return Opaque('type', (v,))
    if isinstance(v, ExcV):
        return Lib('builtins.' + v.name)
    return Lib('builtins.' + type(v).__name__)


_NUMERIC = {'builtins.int', 'builtins.float', 'numbers.Number', 'numbers.Real'}


def isinstance_(I, v, t):
    v, t = I.simp(v), I.simp(t)
    if isinstance(v, IteV):
        return I.merge_pure(v, lambda x: isinstance_(I, x, t))
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = alg.or_(r, isinstance_(I, v, x))
        return r
    if isinstance(v, Instance):
        if isinstance(t, ClassV):
            return t in v.cls.mro if isinstance(v.cls, ClassV) else False
        if isinstance(t, Lib):
            if isinstance(v.cls, Lib):
                return v.cls.path == t.path
            if t.path == 'builtins.object':
                return True
            lb = v.cls.lib_bases()
            return any(p == t.path or p.split('.')[-1] == t.path.split('.')[-1] for p in lb)
    if isinstance(v, Opaque):
        tn = t.path if isinstance(t, Lib) else getattr(t, 'name', str(t))
        if v.kind is not None:
            return v.kind == tn or tn.endswith('.' + v.kind)
        if v.name.split('#')[0] == tn or v.name.split('#')[0].split('.')[-1] == tn.split('.')[-1]:
            return True
        return alg.opaque_cond('isinstance', hkey(v), tn)
    if isinstance(t, Lib):
        p = t.path
        tv = type_of(I, v)
        if isinstance(tv, Lib):
            if tv.path == p:
                if isinstance(v, Tensor) and v.param is None and p.endswith('Parameter'):
                    return False
                return True
            if p in ('torch.nn.Parameter', 'torch.nn.parameter.Parameter'):
                return isinstance(v, Tensor) and bool(v.param)
            if p == 'builtins.int' and tv.path == 'builtins.bool':
                return True
            if p in ('numbers.Number', 'numbers.Real') and tv.path in ('builtins.int', 'builtins.float', 'builtins.bool'):
                return True
            if p == 'builtins.object':
                return True
            if p.startswith('numpy.') and isinstance(v, Tensor) and v.lib == 'np' and not v.shape:
                return p in ('numpy.generic', 'numpy.number', 'numpy.floating', 'numpy.float64')
            return False
        return False
    if isinstance(t, ClassV):
        return False
    raise Undecided('isinstance')


# ----------------------------------------------------------------- library calls
def call_lib(I, path, args, kwargs):
    f = I.stubs.get('lib:' + path)
    if f is not None:
        return f(I, args, kwargs)
    if path in ('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys'):
        v = args[1] if len(args) > 1 else None
        return PyDict([(k, v) for k in I.iterate(args[0])])
    if path.startswith('builtins.'):
        return call_builtin(I, path[9:], args, kwargs)
    r = tlib.call(I, path, args, kwargs)
    if r is not tlib.NOPE:
        return r
    if path.startswith('math.'):
        return tlib.math_call(I, path[5:], args)
    if path in ('copy.deepcopy', 'copy.copy'):
        return deepcopy(I, args[0], {}, path == 'copy.deepcopy')
    if path.startswith('re.'):
        flag = lambda v: getattr(re, v.path[3:]) if isinstance(v, Lib) and v.path.startswith('re.') else py_concrete(v)
        if path == 're.compile':
            pat = list(args)
            o = Instance(ClassV('Pattern', None, [], {}, None), {'@fake': True, 'pattern': args[0] if args else kwargs.get('pattern')})
            fl = pat[1:] or [v for k, v in kwargs.items() if k == 'flags']
            for m in ('search', 'match', 'fullmatch', 'findall', 'split', 'sub'):
                # flags are the last positional argument of every module level function but split and sub
                o.attrs[m] = Native(lambda I, a, k, m=m: call_lib(I, 're.' + m, [o.attrs['pattern'], *a], dict(k, **({'flags': fl[0]} if fl else {}))), m)
            return o
        try:
            r = getattr(re, path[3:])(*[flag(I.simp(a)) for a in args],
                                      **{k: flag(I.simp(v)) for k, v in kwargs.items()})
        except Undecided:
            return Opaque(path, tuple(args))
        if r is None or isinstance(r, (str, list, tuple)):
            return from_py(r)
        if isinstance(r, re.Match):
            return MatchV(r)
        return Opaque(path, tuple(args))
    if path == 'functools.partial' or path == 'partial':
        f0, a0, k0 = args[0], list(args[1:]), dict(kwargs)
        return Native(lambda I, a, k: I.call(f0, a0 + list(a), {**k0, **k}), 'partial')
    if path.startswith('itertools.'):
        import itertools
        n = path[10:]
        if n in ('product', 'combinations', 'permutations', 'combinations_with_replacement', 'chain'):
            seqs = [I.iterate(a) if not isinstance(a, int) else a for a in args]
            kw = {k: I.as_int(v) for k, v in kwargs.items()}
            return IterV(list(getattr(itertools, n)(*seqs, **kw)))
        if n == 'chain.from_iterable':
            return IterV([y for x in I.iterate(args[0]) for y in I.iterate(x)])
    if path in ('collections.OrderedDict', 'collections.defaultdict'):
        if path.endswith('defaultdict'):
            d = PyDict(kind='defaultdict')
            if args:
                d.d['@default'] = ('@default', args[0])
            return d
        return call_builtin(I, 'dict', args, kwargs)
    if path == 'os.path.join':
        return path_join(I, args)
    if path in ('os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.normpath', 'os.path.split'):
        import os.path as P
        v = I.simp(args[0])
        if isinstance(v, str):
            return from_py(getattr(P, path[8:])(v))
        return path_part(path[8:], v)
    if path in ('os.path.isdir', 'os.path.isfile', 'os.path.exists'):
        h = I.stubs.get('fs')
        if h is not None:
            return h(I, path[8:], args)
        I.event('lib', path, tuple(args), kwargs)
        return alg.opaque_cond(path, hkey(I.simp(args[0])))
    if path in ('time.time', 'datetime.datetime.now', 'time.perf_counter'):
        return Num(alg.fresh('time'))
    if path == 'operator.itemgetter':
        ks = list(args)
        return Native(lambda I, a, k: I.getitem(a[0], ks[0]) if len(ks) == 1 else tuple(I.getitem(a[0], q) for q in ks))
    if path == 'inspect.signature':
        return Opaque('signature', tuple(args))
    if path.split('.')[-1] in ('nn.Module', 'ABC'):
        return None
    short = path.split('.')[-1]
    impure = True
    I.event('lib', path, tuple(args), kwargs)
    if path.startswith('warnings.') or path in ('sys.exit',):
        return None
    kind = None
    if short[:1].isupper():
        kind = short
    r = fresh_opaque(path, tuple(args) + tuple((k, v) for k, v in kwargs.items()), kind)
    I.events[-1].ret = r
    return r


class MatchV(Opaque):
    __slots__ = ('m',)

    def __init__(self, m):
        super().__init__('match', (m.group(0),), 'Match')
        self.m = m


def path_join(I, args):
    parts = []
    for a in args:
        a = I.simp(a)
        if isinstance(a, Opaque) and a.name == 'path':
            parts += list(a.args)
        else:
            parts.append(a)
    if all(isinstance(p, str) for p in parts):
        import os.path as P
        return P.join(*parts)
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            import os.path as P
            out[-1] = P.join(out[-1], p)
        else:
            out.append(p)
    return Opaque('path', out, 'str')


def path_part(what, v):
    if isinstance(v, Opaque) and v.name == 'path':
        last = v.args[-1]
        if what == 'basename':
            return last if not isinstance(last, str) else last.split('/')[-1]
        if what == 'dirname':
            if isinstance(last, str) and '/' in last:
                return Opaque('path', v.args[:-1] + (last.rsplit('/', 1)[0],), 'str')
            rest = v.args[:-1]
            return rest[0] if len(rest) == 1 else Opaque('path', rest, 'str')
        if what == 'normpath':
            return v
    if what == 'normpath':
        return Opaque('path', (v,), 'str') if False else v
    if what in ('splitext', 'split'):
        # split constant suffix
        base = v
        if what == 'splitext' and isinstance(v, Opaque) and v.name in ('path', 'strcat') and isinstance(v.args[-1], str) \
                and '.' in v.args[-1]:
            b, e = v.args[-1].rsplit('.', 1)
            rest = v.args[:-1] + ((b,) if b else ())
            nb = Opaque(v.name, rest, 'str') if len(rest) > 1 else rest[0]
            return (nb, '.' + e)
        return (Opaque('os.path.%s0' % what, (v,), 'str'), Opaque('os.path.%s1' % what, (v,), 'str'))
    return Opaque('os.path.' + what, (v,), 'str')


def deepcopy(I, v, memo, deep=True):
    v = I.simp(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PyList):
        r = PyList()
        memo[id(v)] = r
        if v.items is None:
            r.items = None
            return r
        r.items = [deepcopy(I, x, memo) if deep else x for x in v.items]
        return r
    if isinstance(v, PyDict):
        r = PyDict(kind=v.kind)
        memo[id(v)] = r
        for k, (kk, x) in v.d.items():
            r.d[k] = (kk, deepcopy(I, x, memo) if deep else x)
        return r
    if isinstance(v, PySet):
        return PySet(v.d.values())
    if isinstance(v, Instance):
        if '@fake' in v.attrs:
            return v
        r = Instance(v.cls)
        memo[id(v)] = r
        r.attrs = {k: (deepcopy(I, x, memo) if deep else x) for k, x in v.attrs.items()}
        return r
    if isinstance(v, Tensor):
        if not deep:
            return v
        return tlib.fresh_like(v, v.vals())
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) if deep else x for x in v)
    if isinstance(v, IteV):
        return IteV(v.c, v.a if v.a is ABSENT else deepcopy(I, v.a, memo, deep),
                    v.b if v.b is ABSENT else deepcopy(I, v.b, memo, deep))
    return v


def call_builtin(I, name, args, kwargs):
    a = [I.simp(x) for x in args]
    if name in BUILTIN_EXC:
        return ExcV(name, tuple(a))
    if name == 'len':
        return I.lift(a[0], lambda v: len_(I, v))
    if name == 'range':
        try:
            return RangeV(range(*[I.as_int(x) for x in a]))
        except Undecided:
            return Opaque('range', tuple(a))
    if name == 'enumerate':
        start = I.as_int(a[1]) if len(a) > 1 else I.as_int(kwargs.get('start', 0))
        items = I.try_iterate(a[0])
        if items is None:
            return Opaque('enumerate', (a[0],))
        return IterV([(i + start, x) for i, x in enumerate(items)])
    if name == 'zip':
        seqs = [I.try_iterate(x) for x in a]
        if any(s is None for s in seqs):
            return Opaque('zip', tuple(a))
        return IterV(list(zip(*seqs)))
    if name in ('list', 'tuple', 'set', 'frozenset'):
        if not a:
            items = []
        else:
            items = I.try_iterate(a[0])
            if items is None:
                if name == 'list':
                    r = PyList()
                    r.items = None
                    return r
                return Opaque(name, (a[0],))
        return PyList(items) if name == 'list' else tuple(items) if name == 'tuple' else PySet(items)
    if name == 'dict':
        d = PyDict()
        if a:
            dict_method(I, d, 'update', [a[0]], {})
        for k, v in kwargs.items():
            d.set(k, v)
        return d
    if name == 'str' or name == 'repr':
        if not a:
            return ''
        return to_str(I, a[0]) if name == 'str' else Opaque('repr', (_freeze(a[0]),), 'str')
    if name == 'int':
        return int_(I, a[0])
    if name == 'float':
        v = a[0]
        if isinstance(v, str):
            if TOK is not None and '\u27e6' in v:
                m = _TOK_RE.match(v.strip())
                if not m:
                    raise AbsRaise('ValueError', f'could not convert string to float: {v!r}')
                return Num(TOK[int(m[1])])
            try:
                return Num(alg.from_float(float(v)))
            except ValueError:
                raise AbsRaise('ValueError', f'could not convert string to float: {v!r}')
        if isinstance(v, PyList) or v is None:
            raise AbsRaise('TypeError', 'float() argument')
        if isinstance(v, Tensor) and v.size != 1:
            raise AbsRaise('TypeError', 'only length-1 arrays can be converted')
        return Num(tlib.stop_e(I, to_expr(v)) if isinstance(v, Tensor) else to_expr(v), 'f')
    if name == 'bool':
        return truth(I, a[0]) if a else False
    if name == 'isinstance':
        return isinstance_(I, a[0], a[1])
    if name == 'issubclass':
        if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
            return a[1] in a[0].mro
        return alg.opaque_cond('issubclass', repr(a[0]), repr(a[1]))
    if name == 'type':
        return I.merge_pure(a[0], lambda v: type_of(I, v))
    if name == 'abs':
        if isinstance(a[0], Tensor):
            return tlib.map_(a[0], alg.abs_)
        if isinstance(a[0], int):
            return abs(a[0])
        return Num(alg.abs_(to_expr(a[0])), a[0].k if isinstance(a[0], Num) else 'f')
    if name in ('min', 'max'):
        return minmax(I, name, a, kwargs)
    if name == 'sum':
        items = I.try_iterate(a[0])
        if items is None:
            return Opaque('sum', (a[0],))
        r = a[1] if len(a) > 1 else kwargs.get('start', 0)
        for x in items:
            r = I.binop('Add', r, x)
        return r
    if name == 'sorted':
        items = I.iterate(a[0])
        return PyList(sort_items(I, items, kwargs))
    if name == 'reversed':
        return IterV(I.iterate(a[0])[::-1])
    if name in ('any', 'all'):
        items = I.try_iterate(a[0])
        if items is None:
            return alg.opaque_cond(name, hkey(a[0]))
        r = name == 'all'
        for x in items:
            c = truth(I, x)
            r = alg.and_(r, c) if name == 'all' else alg.or_(r, c)
        return r
    if name == 'map':
        seqs = [I.iterate(x) for x in a[1:]]
        return IterV([I.call(a[0], list(t), {}) for t in zip(*seqs)])
    if name == 'filter':
        out = []
        for x in I.iterate(a[1]):
            c = I.simp_cond(truth(I, x if a[0] is None else I.call(a[0], [x], {})))
            if c is True:
                out.append(x)
            elif c is not False:
                raise Undecided('filter')
        return IterV(out)
    if name == 'print':
        return None
    if name == 'getattr':
        try:
            return I.getattr(a[0], a[1])
        except AbsRaise as e:
            if len(a) > 2 and e.exc == 'AttributeError':
                return a[2]
            raise
    if name == 'setattr':
        return I.setattr(a[0], a[1], args[2])
    if name == 'hasattr':
        return hasattr_(I, a[0], a[1])
    if name == 'round':
        e = to_expr(a[0])
        if e.is_const():
            nd = I.as_int(a[1]) if len(a) > 1 and a[1] is not None else None
            r = round(e.const(), nd) if nd is not None else round(e.const())
            return int(r) if nd is None else Num(alg.const(r), 'f')
        return Num(alg.fn('round', (e,)), 'i' if len(a) < 2 else 'f')
    if name == 'iter':
        if isinstance(a[0], IterV):
            return a[0]
        items = I.try_iterate(a[0])
        return Opaque('iter', (a[0],)) if items is None else IterV(items)
    if name == 'next':
        if isinstance(a[0], IterV):
            return next_(I, a[0], a[1] if len(a) > 1 else ABSENT)
        if isinstance(a[0], Instance):
            return I.call(Bound(a[0].cls.lookup('__next__'), a[0]), [], {})
        return fresh_opaque('next', (a[0],))
    if name == 'callable':
        return isinstance(a[0], (FuncV, Bound, ClassV, Native, Lib, Method)) or \
            (isinstance(a[0], Instance) and isinstance(a[0].cls, ClassV) and
             (a[0].cls.lookup('__call__') is not None or I.is_nn(a[0].cls)))
    if name == 'id':
        return Opaque('id', (Opaque(str(id(a[0]))),))
    if name == 'slice':
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(*(a + [None] * (3 - len(a))))
    if name == 'open':
        I.event('lib', 'open', tuple(args), kwargs)
        return Opaque('file', tuple(a), 'file')
    if name == 'divmod':
        return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))
    if name == 'pow':
        return I.binop('Pow', a[0], a[1])
    if name == 'super':
        return Super(a[0], a[1])
    if name == 'object':
        return fresh_opaque('object', (), 'object')
    if name == 'vars':
        if isinstance(a[0], Instance):
            return PyDict(list(a[0].attrs.items()))
    if name == 'complex':
        return Opaque('complex', tuple(a), 'complex')
    if name in ('ord', 'chr') and isinstance(a[0], (str, int)):
        return getattr(builtins, name)(a[0])
    if name == 'format':
        return format_value(a[0], -1, a[1] if len(a) > 1 else '')
    return fresh_opaque('builtins.' + name, tuple(a))


def hasattr_(I, o, name):
    if isinstance(o, IteV):
        return I.merge_pure(o, lambda v: hasattr_(I, v, name))
    if isinstance(o, Instance):
        if name in o.attrs:
            v = I.simp(o.attrs[name])
            if v is ABSENT:
                return False
            if isinstance(v, IteV) and (v.a is ABSENT or v.b is ABSENT):
                return alg.not_(v.c) if v.a is ABSENT else v.c
            return True
        if isinstance(o.cls, ClassV) and o.cls.lookup(name) is not None:
            return True
        return isinstance(o.cls, ClassV) and I.is_nn(o.cls) and name in _NN_METHODS
    if isinstance(o, Opaque):
        return alg.opaque_cond('hasattr', hkey(o), name)
    try:
        n = len(I.raises)
        getattr_(I, o, name)
        return True
    except AbsRaise:
        return False


def len_(I, v):
    if isinstance(v, PyList):
        if v.items is None:
            return Num(alg.sym(f'len(list{v.birth})', pos=False), 'i')
        if any(isinstance(x, IteV) and (x.a is ABSENT or x.b is ABSENT) for x in v.items):
            e = alg.ZERO
            for x in v.items:
                if isinstance(x, IteV) and x.a is ABSENT:
                    e = e + alg.ite(x.c, alg.ZERO, alg.ONE)
                elif isinstance(x, IteV) and x.b is ABSENT:
                    e = e + alg.ite(x.c, alg.ONE, alg.ZERO)
                else:
                    e = e + alg.ONE
            return Num(e, 'i')
        return len(v.items)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, (PyDict, PySet)):
        return len(v.d)
    if isinstance(v, RangeV):
        return len(v.r)
    if isinstance(v, IterV):
        return len(v.items)
    if isinstance(v, Tensor):
        if not v.shape:
            raise AbsRaise('TypeError', 'len() of a 0-d tensor')
        return v.shape[0]
    if isinstance(v, Instance):
        m = v.cls.lookup('__len__')
        if m:
            return I.call(Bound(m, v), [], {})
        if '@dict' in v.attrs:
            return len(v.attrs['@dict'].d)
        raise AbsRaise('TypeError', f'object of type {v.cls.name} has no len()')
    if isinstance(v, Opaque):
        return Num(alg.fn('len', (hkey(v),)), 'i')
    raise terr((v,), 'TypeError', f'object of type {tname(v)} has no len()')


def int_(I, v):
    if isinstance(v, IteV):
        return I.lift(v, lambda x: int_(I, x))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise AbsRaise('ValueError', f'invalid literal for int(): {v!r}')
    if isinstance(v, (bool, int)):
        return int(v)
    if v is None or isinstance(v, PyList):
        raise AbsRaise('TypeError', 'int() argument')
    if isinstance(v, Opaque):
        return Num(alg.fn('int', (to_expr(v),)), 'i')
    e = to_expr(v)
    if e.is_const():
        return int(e.const())
    if isinstance(v, Num) and v.k == 'i':
        return v
    if isinstance(v, Tensor) and v.dtype.startswith('int'):
        return Num(e, 'i')
    return Num(alg.fn('trunc', (e,)), 'i')


def minmax(I, name, a, kwargs):
    if len(a) == 1:
        items = I.try_iterate(a[0])
        if items is None:
            return Opaque(name, (a[0],))
    else:
        items = a
    if not items:
        if 'default' in kwargs:
            return kwargs['default']
        raise AbsRaise('ValueError', f'{name}() arg is an empty sequence')
    if 'key' in kwargs:
        ks = [py_concrete(I.simp(I.call(kwargs['key'], [x], {}))) for x in items]
        f = min if name == 'min' else max
        return items[ks.index(f(ks))]
    items = [I.simp(x) for x in items]
    if all(isinstance(x, str) for x in items):
        return min(items) if name == 'min' else max(items)
    if all(isinstance(x, int) for x in items):
        return min(items) if name == 'min' else max(items)
    e = to_expr(items[0])
    for x in items[1:]:
        e = alg.mx(e, to_expr(x)) if name == 'max' else alg.mn(e, to_expr(x))
    ints = all(_isint(x) for x in items)
    return num(e, ints)


_IMPURE = {'step', 'pop', 'sample', 'random', 'next', 'item_'}


def call_opaque(I, f, args, kwargs):
    if isinstance(f, OpaqueAttr):
        o = f.obj
        if isinstance(o, MatchV):
            try:
                r = getattr(o.m, f.attr)(*[py_concrete(I.simp(a)) for a in args])
                return from_py(r)
            except IndexError:
                raise AbsRaise('IndexError', 'no such group')
        h = I.stubs.get('method:' + f.attr)
        if h is not None:
            r = h(I, o, args, kwargs)
            if r is not NotImplemented:
                return r
        ev = I.event('method', f.attr, tuple(args), kwargs, o)
        if f.attr in ('items', 'keys', 'values'):
            return Opaque('.' + f.attr, (o,))
        if is_strish(o) and f.attr in ('strip', 'lower', 'upper', 'replace', 'format', 'join'):
            return Opaque('str.' + f.attr, (o,) + tuple(args), 'str')
        mk = fresh_opaque if f.attr in _IMPURE else Opaque
        r = mk('.' + f.attr, (o,) + tuple(I.simp(a) for a in args) + tuple((k, v) for k, v in kwargs.items()))
        ev.ret = r
        return r
    ev = I.event('opaque-call', f.name, tuple(args), kwargs, f)
    r = Opaque('call', (f,) + tuple(I.simp(a) for a in args) + tuple((k, v) for k, v in kwargs.items()))
    ev.ret = r
    return r
