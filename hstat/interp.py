"""Abstract interpreter over the Python syntax tree of the repository.

Nothing of the repository is imported or executed: modules are parsed, and
statements are given their effect on the abstract state of ``values.py``.
Branches whose condition is not determined by the abstract inputs are analysed
on both arms and joined (one state, no path enumeration); loops that cannot be
unrolled are summarised with phi values."""
import ast
import warnings
import os

from . import alg
from .alg import Expr, Cond
from .values import *
from . import values as V


class Outcome:
    __slots__ = ('next', 'ret', 'val', 'brk', 'cont', 'rais')

    def __init__(self, next=True, ret=False, val=None, brk=False, cont=False,
                 rais=False):
        self.next, self.ret, self.val = next, ret, val
        self.brk, self.cont, self.rais = brk, cont, rais

    def __repr__(self):
        return f'O(next={self.next}, ret={self.ret}, brk={self.brk}, cont={self.cont}, rais={self.rais})'


def o_ite(c, a, b):
    """Outcome join; arms that raise have been dropped before."""
    if a.ret is False:
        val = b.val
    elif b.ret is False:
        val = a.val
    else:
        val = merge(c, a.val, b.val)
    ci = alg.cond_ite
    return Outcome(ci(c, a.next, b.next), ci(c, a.ret, b.ret), val,
                   ci(c, a.brk, b.brk), ci(c, a.cont, b.cont))


def o_seq(o, oo):
    """o, then oo under o.next."""
    n = o.next
    if o.ret is False:
        val = oo.val
    elif oo.ret is False:
        val = o.val
    else:
        val = merge(o.ret, o.val, oo.val)
    A, O = alg.and_, alg.or_
    return Outcome(A(n, oo.next), O(o.ret, A(n, oo.ret)), val,
                   O(o.brk, A(n, oo.brk)), O(o.cont, A(n, oo.cont)))


class LoopLimit(Exception):
    pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'kwargs', 'facts', 'node', 'func', 'obj', 'ret')

    def __init__(self, kind, name, args, kwargs, facts, node, func, obj=None):
        self.kind, self.name, self.args, self.kwargs = kind, name, args, kwargs
        self.facts, self.node, self.func, self.obj = facts, node, func, obj
        self.ret = None

    def __repr__(self):
        return f'Ev({self.kind}:{self.name} {self.args!r} {self.kwargs!r})'


class LoopInfo:
    def __init__(self, node, func, slots, test, outcome, facts):
        self.node, self.func, self.slots = node, func, slots
        self.test, self.outcome, self.facts = test, outcome, facts

    def named(self, name):
        for s in self.slots:
            if s['name'] == name:
                return s
        return None


class Program:
    """Parsed repository modules, resolved like the package's own imports."""

    def __init__(self, root='/repo/src/hookeai'):
        self.root = root
        self.modules = {}
        self.trees = {}

    def path_of(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isdir(p):
            return p
        return None

    def tree(self, dotted):
        if dotted not in self.trees:
            p = self.path_of(dotted)
            if p is None or os.path.isdir(p):
                self.trees[dotted] = ast.Module([], [])
            else:
                with open(p, encoding='utf-8') as f:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.trees[dotted] = ast.parse(f.read(), p)
        return self.trees[dotted]

    def all_modules(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in sorted(fs):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3]
                    if rel.endswith('__init__'):
                        rel = rel[:-9]
                    if rel:
                        out.append(rel.replace(os.sep, '.'))
        return sorted(out)


BUILTIN_EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else __import__('builtins'))
               if isinstance(getattr(__import__('builtins'), n), type)
               and issubclass(getattr(__import__('builtins'), n), BaseException)}


def exc_matches(name, handler_names):
    import builtins
    c = getattr(builtins, name, None)
    for h in handler_names:
        if h in (name, 'Exception', 'BaseException'):
            return True
        hc = getattr(builtins, h, None)
        if isinstance(c, type) and isinstance(hc, type) and issubclass(c, hc):
            return True
    return False


class Interp:
    def __init__(self, prog, unroll=600, undecided_unroll=10):
        self.prog = prog
        self.unroll = unroll
        self.undecided_unroll = undecided_unroll
        self.facts = []
        self.events = []
        self.raises = []
        self.loops = []
        self.depth = 0
        self.undecided_depth = 0
        self.modules = {}
        self.state = PyDict([('default_dtype', 'float32'), ('grad', True)])
        self.small_symbol = None
        self.batched = None      # atoms of the arguments mapped by an enclosing vmap
        self.track_grad = False  # detached values become opaque
        self.stubs = {}          # 'Class.method' / 'module.function' -> callable
        self.call_stack = []
        self.last_exc = None
        self.steps = 0
        self.max_steps = 5_000_000
        self.funcs_seen = set()
        self.log_calls = None    # set of qualnames whose calls become events
        self.opaque_attrs = {}
        from . import tlib, pylib
        self.tlib, self.pylib = tlib, pylib

    # ------------------------------------------------------------ modules
    def module(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        p = self.prog.path_of(dotted)
        if p is None:
            return None
        fr = Frame(None, None)
        m = ModuleV(dotted, p, self.prog.tree(dotted), fr, self.prog)
        self.modules[dotted] = m
        fr.func = m
        fr.vars['__name__'] = dotted
        fr.vars['__file__'] = p
        saved = (self.facts, V.JOURNALS[:], self.events)
        self.facts = []
        V.JOURNALS.clear()
        self.events = []
        try:
            for s in m.tree.body:
                if isinstance(s, (ast.Expr,)):
                    continue
                if isinstance(s, ast.If) and _is_main(s):
                    continue
                try:
                    self.exec_raw(s, fr)
                except (Undecided, AbsRaise):
                    pass
        finally:
            self.facts, self.events = saved[0], saved[2]
            V.JOURNALS[:] = saved[1]
        return m

    def get(self, dotted, name):
        """Function or class `name` (may be 'Class.method') of a module."""
        m = self.module(dotted)
        if m is None:
            raise KeyError(f'module {dotted} not found')
        parts = name.split('.')
        v = m.frame.vars.get(parts[0])
        if v is None:
            raise KeyError(f'{dotted}.{parts[0]} not found')
        for p in parts[1:]:
            v = v.lookup(p)
            if v is None:
                raise KeyError(f'{dotted}.{name} not found')
        return v

    # ------------------------------------------------------------ facts
    def push_fact(self, c, val=True):
        if isinstance(c, bool):
            return
        self.facts.append((c, val))
        if c.op == 'not':
            self.push_fact(c.args[0], not val)
        elif (c.op == 'and' and val) or (c.op == 'or' and not val):
            for x in c.args:
                self.push_fact(x, val)
        elif c.op == 'lt' and val:
            # a < 0 implies a <= 0
            self.facts.append((Cond('le', c.args), True))

    def simp_cond(self, c):
        if isinstance(c, bool) or not self.facts:
            return c
        r = c.assume(self.facts)
        if isinstance(r, bool):
            return r
        if any(alg.ATOMS[a].kind == 'ite' for e in r.exprs() if not e.nan for a in e.atoms()):
            r = r.map(lambda e: alg.assume_deep(e, self.facts))
            if not isinstance(r, bool):
                r = r.assume(self.facts)
        return r

    def simp(self, v):
        """Simplify gated values under the current facts."""
        while isinstance(v, IteV):
            if v.a is ABSENT and v.b is ABSENT:
                return ABSENT
            c = self.simp_cond(v.c)
            if c is True:
                v = v.a
            elif c is False:
                v = v.b
            else:
                break
        if self.facts:
            if isinstance(v, Num) and not v.e.nan and any(alg.ATOMS[a].kind == 'ite' for a in v.e.atoms()):
                e = alg.assume_deep(v.e, self.facts)
                return Num(e, v.k)
            if isinstance(v, Cond):
                return self.simp_cond(v)
        return v

    def facts_cond(self, base=0):
        c = True
        for f, val in self.facts[base:]:
            c = alg.and_(c, f if val else alg.not_(f))
        return c

    def under(self, c, val, f):
        """Run f in an arm under fact c==val; returns (arm, result)."""
        n = len(self.facts)
        a = Arm()
        a.__enter__()
        try:
            self.push_fact(c, val)
            r = f()
        finally:
            del self.facts[n:]
            a.__exit__()
        return a, r

    def distribute(self, c, fa, fb):
        """Evaluate expression thunks on both arms of c and join the values."""
        c = self.simp_cond(c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        ra = rb = None
        ea = eb = None
        nf = len(self.facts)

        def wrap(f):
            def g():
                try:
                    return f(), None
                except AbsRaise as e:
                    self.record_raise(e)
                    return None, e
            return g
        a1, (ra, ea) = self.under(c, True, wrap(fa))
        a2, (rb, eb) = self.under(c, False, wrap(fb))
        if ea and eb:
            ea.recorded = True
            raise ea
        if ea:
            a2.commit()
            self.push_fact(c, False)
            return rb
        if eb:
            a1.commit()
            self.push_fact(c, True)
            return ra
        join_arms(c, a1, a2)
        return merge(c, ra, rb)

    def lift(self, v, f):
        """Apply f to v, distributing over gated values."""
        v = self.simp(v)
        if isinstance(v, IteV):
            if v.a is ABSENT:
                self.note_absent(v.c, True)
                return self.lift(v.b, f)
            if v.b is ABSENT:
                self.note_absent(v.c, False)
                return self.lift(v.a, f)
            return self.distribute(v.c, lambda: self.lift(v.a, f),
                                   lambda: self.lift(v.b, f))
        return f(v)

    def note_absent(self, c, val):
        """A value is missing when c==val: that case raises."""
        e = AbsRaise('NameError', 'possibly unbound value')
        n = len(self.facts)
        self.push_fact(c, val)
        self.record_raise(e)
        del self.facts[n:]
        self.push_fact(c, not val)

    def record_raise(self, e):
        if getattr(e, 'recorded', False):
            return
        e.recorded = True
        e.where = self.where()
        self.raises.append(dict(exc=e.exc, msg=e.msg, facts=list(self.facts),
                                node=e.node, func=self.cur_func(),
                                where=e.where, value=e.value))

    def where(self):
        fr = [f'{f.module.name}:{f.qual}' for f in self.call_stack[-3:]]
        return ' > '.join(fr) + f':{getattr(self, "cur_line", "?")}'

    def cur_func(self):
        return self.call_stack[-1].qual if self.call_stack else '<module>'

    def event(self, kind, name, args=(), kwargs=None, obj=None):
        ev = Event(kind, name, args, kwargs or {}, list(self.facts),
                   getattr(self, 'cur_line', None), self.cur_func(), obj)
        self.events.append(ev)
        return ev

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If):
                o, consumed = self.exec_if(s, fr, stmts[i + 1:])
                if consumed:
                    return o
            else:
                o = self.exec_stmt(s, fr)
            if o.next is True:
                continue
            if o.next is False:
                return o
            rest = stmts[i + 1:]
            if not rest:
                return o
            return self.exec_rest(o, lambda: self.exec_block(rest, fr))
        return Outcome()

    def exec_rest(self, o, f):
        a, oo = self.under(o.next, True, f)
        if oo.rais is True:
            # the continuation raises: assume it is not reached
            self.push_fact(o.next, False)
            n = Outcome(False, o.ret, o.val, o.brk, o.cont)
            return self.renorm(n)
        join_arms(o.next, a, None)
        return o_seq(o, oo)

    def renorm(self, o):
        for k in ('ret', 'brk', 'cont', 'next'):
            c = getattr(o, k)
            setattr(o, k, self.simp_cond(c))
        return o

    def exec_if(self, s, fr, rest):
        self.cur_line = s.lineno
        try:
            c = self.truth(self.eval(s.test, fr))
        except AbsRaise as e:
            self.record_raise(e)
            self.last_exc = e
            return Outcome(False, rais=True), True
        c = self.simp_cond(c)
        if c is True:
            return self.exec_block(s.body, fr), False
        if c is False:
            return self.exec_block(s.orelse, fr), False
        a1, o1 = self.under(c, True, lambda: self.exec_block(s.body, fr))
        a2, o2 = self.under(c, False, lambda: self.exec_block(s.orelse, fr))
        if o1.rais and o2.rais:
            return Outcome(False, rais=True), True
        if o1.rais:
            a2.commit()
            self.push_fact(c, False)
            return o2, False
        if o2.rais:
            a1.commit()
            self.push_fact(c, True)
            return o1, False
        if rest and (o1.next is False) != (o2.next is False):
            # exactly one arm leaves the block: continue inside the other
            if o1.next is False:
                arm, o, cv = a2, o2, False
            else:
                arm, o, cv = a1, o1, True

            def go():
                arm.commit()
                if o.next is True:
                    return self.exec_block(rest, fr)
                return self.exec_rest(o, lambda: self.exec_block(rest, fr))
            arm2, oo = self.under(c, cv, go)
            if oo.rais:
                # fallthrough raises: only the leaving arm remains
                (a1 if cv is False else a2).commit()
                self.push_fact(c, not cv)
                return (o1 if cv is False else o2), True
            if cv is False:
                join_arms(c, a1, arm2)
                return o_ite(c, o1, oo), True
            join_arms(c, arm2, a2)
            return o_ite(c, oo, o2), True
        join_arms(c, a1, a2)
        return o_ite(c, o1, o2), False

    def exec_stmt(self, s, fr):
        try:
            return self.exec_raw(s, fr)
        except AbsRaise as e:
            if e.node is None:
                e.node = s
            self.record_raise(e)
            self.last_exc = e
            return Outcome(False, rais=True)

    def exec_raw(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('step limit')
        self.cur_line = getattr(s, 'lineno', None)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__}')
        r = m(s, fr)
        return r if r is not None else Outcome()

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.eval(s.value, fr)
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            v = self.eval(s.value, fr)
            r = self.aug(op, cur, v)
            self.assign(t, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, t.attr, self.aug(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(s.value, fr)
            self.setitem(o, k, self.aug(op, cur, v))

    def aug(self, op, cur, v):
        def f(cur):
            if isinstance(cur, PyList) and op == 'Add':
                if cur.items is None:
                    return cur
                cur.touch()
                cur.items = cur.items + self.iterate(v)
                return cur
            if isinstance(cur, Tensor):
                r = self.binop(op, cur, v)
                if not isinstance(r, Tensor):
                    return r
                if r.shape != cur.shape:
                    raise AbsRaise('RuntimeError', 'in-place operation changes shape')
                self.tlib.write(cur, r.vals())
                return cur
            return self.binop(op, cur, v)
        return self.lift(cur, f)

    def x_Return(self, s, fr):
        v = None if s.value is None else self.eval(s.value, fr)
        return Outcome(False, True, v)

    def x_Break(self, s, fr):
        return Outcome(False, brk=True)

    def x_Continue(self, s, fr):
        return Outcome(False, cont=True)

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = self.last_exc
            raise AbsRaise(e.exc if e else 'Exception', 'reraise', s)
        v = self.eval(s.exc, fr)
        v = self.simp(v)
        if isinstance(v, ExcV):
            raise AbsRaise(v.name, str(v.args[0]) if v.args else '', s, v)
        if isinstance(v, Lib):
            raise AbsRaise(v.path.split('.')[-1], '', s)
        if isinstance(v, Instance):
            raise AbsRaise(v.cls.name, '', s, v)
        if isinstance(v, ClassV):
            raise AbsRaise(v.name, '', s, v)
        raise AbsRaise('Exception', repr(v), s)

    def x_Assert(self, s, fr):
        c = self.simp_cond(self.truth(self.eval(s.test, fr)))
        if c is False:
            raise AbsRaise('AssertionError', '', s)
        if c is not True:
            self.push_fact(c)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.touch()
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.simp(self.eval(t.value, fr))
                k = self.eval(t.slice, fr)
                if isinstance(o, PyDict):
                    if hkey(k) not in o.d:
                        raise AbsRaise('KeyError', repr(k))
                    o.touch()
                    o.d.pop(hkey(k))
                elif isinstance(o, PyList) and o.items is not None and isinstance(k, int):
                    o.touch()
                    del o.items[k]
                elif isinstance(o, PyList) and o.items is not None and isinstance(k, SliceV):
                    o.touch()
                    del o.items[self.to_slice(k)]
                else:
                    raise Undecided('del item')
            elif isinstance(t, ast.Attribute):
                o = self.simp(self.eval(t.value, fr))
                if isinstance(o, Instance):
                    o.touch()
                    o.attrs.pop(t.attr, None)

    def x_Global(self, s, fr):
        fr.globals_ |= set(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def x_If(self, s, fr):
        o, _ = self.exec_if(s, fr, [])
        return o

    def x_With(self, s, fr):
        exits = []
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            ent, ex = self.pylib.enter_ctx(self, v)
            exits.append(ex)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, fr)
        o = self.exec_block(s.body, fr)
        for ex in reversed(exits):
            if ex:
                ex()
        return o

    def x_Try(self, s, fr):
        n_ev = len(self.events)
        n_r = len(self.raises)
        nf = len(self.facts)
        with Arm() as a:
            o = self.exec_block(s.body, fr)
        handled = None
        if o.rais:
            e = self.last_exc
            for h in s.handlers:
                names = self.handler_names(h, fr)
                if names is None or exc_matches(e.exc, names):
                    handled = (h, e)
                    break
            a.commit()
            if handled:
                del self.raises[n_r:]
                h, e = handled
                if h.name:
                    fr.touch()
                    fr.vars[h.name] = e.value or ExcV(e.exc, (e.msg,))
                o = self.exec_block(h.body, fr)
        else:
            # library calls or dropped raises inside the body may be caught
            caught = []
            for r in self.raises[n_r:]:
                for h in s.handlers:
                    names = self.handler_names(h, fr)
                    if names is None or exc_matches(r['exc'], names):
                        c = True
                        for f, val in r['facts'][nf:]:
                            c = alg.and_(c, f if val else alg.not_(f))
                        caught.append((h, c))
                        break
            libcall = any(e.kind == 'lib' for e in self.events[n_ev:])
            if caught and s.handlers:
                h, c = caught[0]
                for h2, c2 in caught[1:]:
                    c = alg.or_(c, c2)
                del self.raises[n_r:]
                del self.facts[nf:]

                def norm():
                    a.commit()
                    return o
                a1, o1 = self.under(c, True, lambda: self.exec_block(h.body, fr))
                a2, o2 = self.under(c, False, norm)
                if o1.rais:
                    a2.commit()
                    self.push_fact(c, False)
                    o = o2
                else:
                    join_arms(c, a1, a2)
                    o = o_ite(c, o1, o2)
            elif libcall and s.handlers:
                c = alg.opaque_cond('raises', s.lineno, len(self.events))
                h = s.handlers[0]

                def norm():
                    a.commit()
                    return o
                a1, o1 = self.under(c, True, lambda: self.exec_block(h.body, fr))
                a2, o2 = self.under(c, False, norm)
                if o1.rais:
                    a2.commit()
                    o = o2
                else:
                    join_arms(c, a1, a2)
                    o = o_ite(c, o1, o2)
            else:
                a.commit()
                if s.orelse and o.next is not False:
                    o = self.exec_block(s.orelse, fr) if o.next is True else \
                        self.exec_rest(o, lambda: self.exec_block(s.orelse, fr))
        if s.finalbody:
            of = self.exec_block(s.finalbody, fr)
            if of.next is not True:
                return of
        return o

    def handler_names(self, h, fr):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.attr if isinstance(t, ast.Attribute) else t.id for t in ts]

    def x_FunctionDef(self, s, fr):
        fv = self.mk_func(s, fr)
        fv = self.decorate(fv, s, fr)
        self.store_name(s.name, fv, fr)

    def mk_func(self, s, fr, cls=None):
        a = s.args
        defaults = [self.eval_default(d, fr) for d in a.defaults]
        kwd = {k.arg: self.eval_default(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, 'name', '<lambda>')
        return FuncV(s, self.module_of(fr), fr, defaults, kwd, name, cls)

    def eval_default(self, d, fr):
        return self.eval(d, fr)

    def module_of(self, fr):
        while fr.parent is not None:
            fr = fr.parent
        return fr.func

    def decorate(self, fv, s, fr):
        for d in reversed(s.decorator_list):
            n = ast.unparse(d)
            if n == 'staticmethod':
                fv.kind = 'static'
            elif n == 'classmethod':
                fv.kind = 'class'
            elif n == 'property':
                fv.kind = 'property'
            elif n in ('abstractmethod', 'abc.abstractmethod'):
                pass
            elif 'no_grad' in n:
                fv.nograd = True
            elif n.endswith('.setter'):
                pass
            else:
                dv = self.eval(d, fr)
                if isinstance(dv, Lib) and dv.path.split('.')[-1] in ('wraps', 'lru_cache', 'jit'):
                    continue
                if isinstance(dv, (FuncV, Native)):
                    return self.call(dv, [fv], {})
        return fv

    def x_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.eval(b, fr)
            bases.append(v)
        cfr = Frame(fr, fr.func)
        cls = ClassV(s.name, self.module_of(fr), bases, {}, s)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                fv = self.mk_func(st, fr, cls)
                fv = self.decorate(fv, st, cfr)
                if isinstance(fv, FuncV) and fv.cls is None:
                    fv.cls = cls
                cfr.vars[st.name] = fv
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            else:
                self.exec_raw(st, cfr)
        cls.ns.update(cfr.vars)
        self.store_name(s.name, cls, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.asname:
                v = self.import_mod(a.name)
                self.store_name(a.asname, v, fr)
            else:
                self.store_name(top, self.import_mod(top), fr)
                if self.prog.path_of(top) is not None:
                    self.import_mod(a.name)

    def import_mod(self, dotted):
        if self.prog.path_of(dotted) is not None:
            return self.module(dotted)
        if dotted == 'hookeai' or dotted.startswith('hookeai.'):
            return self.import_mod(dotted[8:]) if '.' in dotted else Lib(dotted)
        return Lib(dotted)

    def x_ImportFrom(self, s, fr):
        modname = s.module or ''
        if s.level:
            base = self.module_of(fr).name.split('.')
            base = base[:len(base) - s.level]
            modname = '.'.join(base + ([s.module] if s.module else []))
        if modname.startswith('hookeai.'):
            modname = modname[8:]
        if self.prog.path_of(modname) is not None:
            m = self.module(modname)
            for a in s.names:
                if a.name == '*':
                    for k, v in m.frame.vars.items():
                        if not k.startswith('_'):
                            self.store_name(k, v, fr)
                    continue
                sub = modname + '.' + a.name
                if a.name in m.frame.vars:
                    v = m.frame.vars[a.name]
                elif self.prog.path_of(sub) is not None:
                    v = self.module(sub)
                else:
                    v = LateName(m, a.name)
                self.store_name(a.asname or a.name, v, fr)
        else:
            for a in s.names:
                self.store_name(a.asname or a.name, Lib(modname + '.' + a.name), fr)

    # loops ---------------------------------------------------------------
    def x_For(self, s, fr):
        it = self.simp(self.eval(s.iter, fr))
        items = self.try_iterate(it)
        if items is not None and len(items) <= self.unroll:
            n_ev, n_r, n_l, nf = len(self.events), len(self.raises), len(self.loops), len(self.facts)
            try:
                with Arm() as a:
                    o = self.run_iters(s, fr, items, 0, 0)
                a.commit()
                return o
            except LoopLimit:
                del self.events[n_ev:]
                del self.raises[n_r:]
                del self.loops[n_l:]
                del self.facts[nf:]
        return self.summarise(s, fr, it, items)

    def run_iters(self, s, fr, items, k, und):
        if und > self.undecided_unroll:
            raise LoopLimit()
        n = len(items)
        while k < n:
            v = items[k]
            if isinstance(v, IteV) and (v.a is ABSENT or v.b is ABSENT):
                raise LoopLimit()
            self.assign(s.target, v, fr)
            o = self.exec_block(s.body, fr)
            if o.rais:
                return o
            if o.brk is False and o.ret is False:
                k += 1
                continue
            cont = self.simp_cond(alg.or_(o.next, o.cont))
            if cont is False:
                return Outcome(o.brk, o.ret, o.val)
            if cont is True:
                k += 1
                continue
            kk = k + 1
            base = Outcome(cont, o.ret, o.val, o.brk)
            r = self.exec_rest(base, lambda: self.run_iters(s, fr, items, kk, und + 1))
            return Outcome(alg.or_(r.next, r.brk), r.ret, r.val, rais=r.rais)
        if s.orelse:
            return self.exec_block(s.orelse, fr)
        return Outcome()

    def x_While(self, s, fr):
        n_ev, n_r, n_l, nf = len(self.events), len(self.raises), len(self.loops), len(self.facts)
        try:
            with Arm() as a:
                o = self.run_while(s, fr, 0, 0)
            a.commit()
            return o
        except LoopLimit:
            del self.events[n_ev:]
            del self.raises[n_r:]
            del self.loops[n_l:]
            del self.facts[nf:]
        return self.summarise(s, fr, None, None)

    def run_while(self, s, fr, k, und):
        while True:
            if k > self.unroll or und > 0:
                raise LoopLimit()
            c = self.simp_cond(self.truth(self.eval(s.test, fr)))
            if c is False:
                return self.exec_block(s.orelse, fr) if s.orelse else Outcome()
            if c is not True:
                raise LoopLimit()
            o = self.exec_block(s.body, fr)
            if o.rais:
                return o
            if o.brk is False and o.ret is False:
                k += 1
                continue
            cont = self.simp_cond(alg.or_(o.next, o.cont))
            if cont is False:
                return Outcome(o.brk, o.ret, o.val)
            if cont is not True:
                raise LoopLimit()
            k += 1

    def summarise(self, s, fr, it, items):
        is_while = isinstance(s, ast.While)
        phis = {}      # (id(obj), key) -> (obj, key, phi, init)
        uid = tick()

        def bind():
            if not is_while:
                self.assign(s.target, self.loop_item(it, items, uid), fr)

        def apply():
            for obj, key, phi, _ in phis.values():
                slot_set(obj, key, phi)

        def body():
            nonlocal test
            if is_while:
                test = self.simp_cond(self.truth(self.eval(s.test, fr)))
                if test is False:
                    return Outcome(False)
                n = len(self.facts)
                if test is not True:
                    self.push_fact(test)
            else:
                test = alg.opaque_cond('iterates', uid)
                bind()
            return self.exec_block(s.body, fr)
        test = None
        # loop variables of a for loop are rebound at every iteration
        for _ in range(8):
            n_ev, n_r, n_l, nf = len(self.events), len(self.raises), len(self.loops), len(self.facts)
            n_fact = nf
            pre = {}
            with Arm() as a0:
                apply()
                with Arm() as a:
                    o = body()
            del self.events[n_ev:]
            del self.raises[n_r:]
            del self.loops[n_l:]
            del self.facts[n_fact:]
            new = 0
            for i, (obj, cont, old) in a.new.items():
                for key, init, nxt in slot_diff(obj, old, cont):
                    if (i, key) in phis:
                        continue
                    if not is_while and isinstance(obj, Frame) and obj is fr and key in target_names(s.target):
                        continue
                    phi = self.mk_phi(f'phi{uid}.{slot_name(obj, key)}', init, nxt, uid)
                    phis[(i, key)] = (obj, key, phi, init)
                    new += 1
            if not new:
                break
        else:
            raise Undecided('loop summary does not stabilise')
        self.event('loop', 'enter', (uid,))
        apply()
        nf = len(self.facts)
        with Arm() as a:
            o = body()
        body_facts = self.facts[nf:]
        del self.facts[nf:]
        slots = []
        for (i, key), (obj, _, phi, init) in phis.items():
            nxt = phi
            if i in a.new:
                nxt = slot_get_content(obj, a.new[i][1], key)
            slots.append(dict(obj=obj, key=key, name=slot_name(obj, key), phi=phi,
                              init=init, next=nxt))
        li = LoopInfo(s, self.cur_func(), slots, test, o, list(self.facts))
        li.body_facts = body_facts
        li.arm = a
        li.uid = uid
        self.loops.append(li)
        self.event('loop', 'exit', (uid,))
        if o.rais:
            # every iteration raises
            if test is True:
                return Outcome(False, rais=True)
            if not isinstance(test, bool):
                self.push_fact(test, False)
            return Outcome()
        exits = []
        brk = o.brk
        ret = o.ret
        if test is True and brk is False:
            if ret is False:
                return Outcome(False, rais=True)
            a.commit()
            return Outcome(False, True, o.val)
        w_ret = alg.opaque_cond('loop-returns', uid) if ret is not False else False
        if test is True:
            a.commit()
            self.push_fact(brk if ret is False else alg.or_(brk, ret))
            if ret is False:
                return Outcome()
            return Outcome(alg.not_(w_ret), w_ret, o.val)
        # exit through the loop test
        if brk is False and ret is False:
            if is_while and not isinstance(test, bool):
                self.push_fact(test, False)
            return Outcome()
        w = alg.opaque_cond('loop-leaves', uid)
        join_arms(w, a, None)
        if ret is False:
            return Outcome()
        if brk is False:
            return Outcome(alg.not_(w), w, o.val)
        return Outcome(alg.not_(w_ret), w_ret, o.val)

    def mk_phi(self, name, init, nxt, uid):
        init_s = init
        if isinstance(nxt, (bool, Cond)) and isinstance(init, (bool, Cond)):
            return alg.opaque_cond(name)
        if is_num(init) and is_num(nxt):
            k = 'i' if (isinstance(init, int) or init.k == 'i') and (isinstance(nxt, int) or nxt.k == 'i') else 'f'
            return Num(alg.sym(name), k)
        if isinstance(init, Expr) or isinstance(nxt, Expr):
            if isinstance(init, (Expr, bool, Cond)) and isinstance(nxt, (Expr, bool, Cond)):
                return alg.sym(name)
        ti, tn = self.as_tensor_opt(init), self.as_tensor_opt(nxt)
        if tn is not None and (ti is None or ti.shape == tn.shape):
            t = Tensor(Storage([alg.opaque_cond(f'{name}{i}') if tn.dtype == 'bool' else alg.sym(f'{name}[{i}]')
                                for i in range(tn.size)]), tn.shape, dtype=tn.dtype, lib=tn.lib)
            if ti is not None or is_num(init) and tn.shape == ():
                return t
            return IteV(alg.opaque_cond('first', uid), init, t)
        if isinstance(nxt, tuple) and isinstance(init, tuple) and len(nxt) == len(init):
            return tuple(self.mk_phi(f'{name}.{i}', x, y, uid) for i, (x, y) in enumerate(zip(init, nxt)))
        if init is ABSENT:
            if is_num(nxt):
                return IteV(alg.opaque_cond('first', uid), ABSENT, Num(alg.sym(name), 'i' if isinstance(nxt, int) else nxt.k))
            return IteV(alg.opaque_cond('first', uid), ABSENT, Opaque(name))
        return Opaque(name)

    def as_tensor_opt(self, v):
        if isinstance(v, Tensor):
            return v
        if isinstance(v, IteV):
            a, b = self.as_tensor_opt(v.a), self.as_tensor_opt(v.b)
            if a is not None and b is not None and a.shape == b.shape:
                return a
            if a is not None and a.shape == () and is_num(v.b):
                return a
            if b is not None and b.shape == () and is_num(v.a):
                return b
        return None

    def loop_item(self, it, items, uid):
        if items:
            v = items[0]
            if all(is_num(x) for x in items):
                if all(isinstance(x, int) for x in items):
                    return Num(alg.sym(f'it{uid}'), 'i')
                return Num(alg.sym(f'it{uid}'), 'f')
            if all(isinstance(x, tuple) and len(x) == len(v) for x in items):
                out = []
                for j in range(len(v)):
                    col = [x[j] for x in items]
                    out.append(self.loop_item(None, col, f'{uid}.{j}'))
                return tuple(out)
            if all(isinstance(x, Tensor) for x in items) and len({x.shape for x in items}) == 1:
                return Tensor(Storage([alg.sym(f'it{uid}[{i}]') for i in range(v.size)]), v.shape,
                              dtype=v.dtype, lib=v.lib)
            return Opaque(f'it{uid}')
        if isinstance(it, Opaque):
            if it.name == 'enumerate':
                return (Num(alg.sym(f'i{uid}'), 'i'), Opaque('elem', (it.args[0], uid)))
            if it.name == 'range':
                return Num(alg.sym(f'i{uid}'), 'i')
            if it.name == 'zip':
                return tuple(Opaque('elem', (x, uid)) for x in it.args)
            if it.name == '.items':
                return (Opaque('key', (it.args[0], uid)), Opaque('elem', (it.args[0], uid)))
        return Opaque('elem', (it if it is not None else uid, uid))

    # ------------------------------------------------------------ names
    def store_name(self, name, v, fr):
        if name in fr.globals_:
            g = fr
            while g.parent is not None:
                g = g.parent
            fr = g
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
            fr = f
        fr.touch()
        fr.vars[name] = v

    def load_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is ABSENT:
                    raise AbsRaise('UnboundLocalError', name)
                if isinstance(v, LateName):
                    v = v.mod.frame.vars.get(v.name)
                    if v is None:
                        raise Undecided(f'import of {name}')
                    f.vars[name] = v
                if isinstance(v, IteV) or self.facts:
                    v2 = self.simp(v)
                    if isinstance(v2, IteV):
                        if v2.a is ABSENT:
                            self.note_absent(v2.c, True)
                            return self.simp(v2.b)
                        if v2.b is ABSENT:
                            self.note_absent(v2.c, False)
                            return self.simp(v2.a)
                    if v2 is ABSENT:
                        raise AbsRaise('UnboundLocalError', name)
                    return v2
                return v
            f = f.parent
        b = self.pylib.builtin(name)
        if b is not None:
            return b
        raise AbsRaise('NameError', f"name '{name}' is not defined")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.simp(v)
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, IteV):
                vals = [self.lift(v, lambda x, i=i: self.unpack(x, n)[i]) for i in range(n)]
            elif star:
                seq = self.iterate(v)
                i = star[0]
                post = n - i - 1
                vals = seq[:i] + [PyList(seq[i:len(seq) - post])] + (seq[len(seq) - post:] if post else [])
            else:
                vals = self.unpack(v, n)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, n):
        if isinstance(v, Opaque):
            return [Opaque('item', (v, i)) for i in range(n)]
        seq = self.iterate(v)
        if len(seq) != n:
            raise AbsRaise('ValueError', f'cannot unpack {len(seq)} values into {n}')
        return seq

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(n).__name__}')
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, float):
            if self.small_symbol is not None and 0 < v <= 1e-7:
                # regularisation constant: kept symbolic, its limit 0 is taken by the check
                return Num(self.small_symbol * alg.from_float(v / 1e-8), 'f')
            return Num(alg.from_float(v), 'f')
        return v

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return PyList(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return PySet(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.eval(e.value, fr))
            else:
                out.append(self.eval(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = PyDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.simp(self.eval(v, fr))
                if isinstance(o, PyDict):
                    for kk, vv in o.d.values():
                        d.d[hkey(kk)] = (kk, vv)
                else:
                    raise Undecided('** of unknown mapping')
            else:
                kv = self.eval(k, fr)
                d.d[hkey(kv)] = (kv, self.eval(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.simp(self.eval(p.value, fr))
                spec = ''
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fr)
                parts.append(self.pylib.format_value(v, p.conversion, spec))
        return self.pylib.str_concat(parts)

    def e_FormattedValue(self, n, fr):
        return self.e_JoinedStr(ast.JoinedStr([n]), fr)

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if isinstance(a, IteV) and not self.tensorish(a):
            return self.lift(a, lambda x: self.binop(op, x, b))
        if isinstance(b, IteV) and not self.tensorish(b):
            return self.lift(b, lambda x: self.binop(op, a, x))
        if isinstance(a, IteV):
            a = self.tlib.as_tensor(self, a)
        if isinstance(b, IteV):
            b = self.tlib.as_tensor(self, b)
        if isinstance(a, Instance) or isinstance(b, Instance):
            dn = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Pow': 'pow'}.get(op)
            if isinstance(a, Instance) and dn:
                m = a.cls.lookup(f'__{dn}__')
                if m:
                    return self.call(Bound(m, a), [b], {})
            raise AbsRaise('TypeError', f'unsupported operand for {op}')
        return self.pylib.binop(self, op, a, b)

    def tensorish(self, v):
        if isinstance(v, IteV):
            return self.tensorish(v.a) and self.tensorish(v.b) and \
                self._sh(v.a) == self._sh(v.b)
        return isinstance(v, Tensor)

    def _sh(self, v):
        return self._sh(v.a) if isinstance(v, IteV) else v.shape

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        op = type(n.op).__name__
        if op == 'Not':
            return alg.not_(self.truth(v))
        return self.lift(v, lambda x: self.pylib.unop(self, op, x))

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        return self.boolop(n.values, is_and, fr)

    def boolop(self, vals, is_and, fr):
        v = self.eval(vals[0], fr)
        if len(vals) == 1:
            return v
        c = self.simp_cond(self.truth(v))
        if c is True:
            return self.boolop(vals[1:], is_and, fr) if is_and else v
        if c is False:
            return v if is_and else self.boolop(vals[1:], is_and, fr)
        boolish = isinstance(v, (bool, Cond))
        if is_and:
            r = self.distribute(c, lambda: self.boolop(vals[1:], is_and, fr),
                                lambda: False if boolish else v)
        else:
            r = self.distribute(c, lambda: True if boolish else v,
                                lambda: self.boolop(vals[1:], is_and, fr))
        return r

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            res = alg.and_(res, self.truth(c))
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or b is None or isinstance(a, IteV) or isinstance(b, IteV)):
            if isinstance(a, IteV) and not (self.tensorish(a) and b is not None):
                return self.merge_pure(a, lambda x: self.compare(op, x, b))
            if isinstance(b, IteV) and not (self.tensorish(b) and a is not None):
                return self.merge_pure(b, lambda x: self.compare(op, a, x))
        if isinstance(a, IteV) and not self.tensorish(a):
            return self.lift(a, lambda x: self.compare(op, x, b))
        if isinstance(b, IteV) and not self.tensorish(b):
            return self.lift(b, lambda x: self.compare(op, a, x))
        if isinstance(a, IteV):
            a = self.tlib.as_tensor(self, a)
        if isinstance(b, IteV):
            b = self.tlib.as_tensor(self, b)
        return self.pylib.compare(self, op, a, b)

    def merge_pure(self, v, f):
        if isinstance(v, IteV):
            c = self.simp_cond(v.c)
            if c is True:
                return self.merge_pure(v.a, f)
            if c is False:
                return self.merge_pure(v.b, f)
            if v.a is ABSENT:
                return self.merge_pure(v.b, f)
            if v.b is ABSENT:
                return self.merge_pure(v.a, f)
            return merge(c, self.merge_pure(v.a, f), self.merge_pure(v.b, f))
        return f(v)

    def e_IfExp(self, n, fr):
        c = self.simp_cond(self.truth(self.eval(n.test, fr)))
        return self.distribute(c, lambda: self.eval(n.body, fr),
                               lambda: self.eval(n.orelse, fr))

    def e_Lambda(self, n, fr):
        return self.mk_func(n, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr), self.eval(n.slice, fr))

    def e_Slice(self, n, fr):
        return SliceV(*[None if x is None else self.simp(self.eval(x, fr))
                        for x in (n.lower, n.upper, n.step)])

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        raise Undecided('starred expression')

    def e_Yield(self, n, fr):
        v = None if n.value is None else self.eval(n.value, fr)
        fr.vars.setdefault('@yield', PyList())
        fr.vars['@yield'].touch()
        fr.vars['@yield'].items.append(v)
        return None

    def e_ListComp(self, n, fr):
        return PyList(self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_SetComp(self, n, fr):
        return PySet(self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_GeneratorExp(self, n, fr):
        return IterV(self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_DictComp(self, n, fr):
        d = PyDict()
        for k, v in self.comp(n, fr, lambda f: (self.eval(n.key, f), self.eval(n.value, f))):
            d.d[hkey(k)] = (k, v)
        return d

    def comp(self, n, fr, f):
        out = []
        cfr = Frame(fr, fr.func)

        def go(i):
            if i == len(n.generators):
                out.append(f(cfr))
                return
            g = n.generators[i]
            it = self.simp(self.eval(g.iter, cfr if i else fr))
            items = self.try_iterate(it)
            if items is None:
                raise CompUnknown(it)
            for v in items:
                self.assign(g.target, v, cfr)
                ok = True
                for c in g.ifs:
                    cc = self.simp_cond(self.truth(self.eval(c, cfr)))
                    if cc is False:
                        ok = False
                        break
                    if cc is not True:
                        raise Undecided('undecided comprehension filter')
                if ok:
                    go(i + 1)
        try:
            go(0)
        except CompUnknown as e:
            raise Undecided(f'comprehension over unknown iterable {str(e)[:80]}')
        return out

    # ------------------------------------------------------------ protocols
    def truth(self, v):
        return self.pylib.truth(self, v)

    def try_iterate(self, v):
        try:
            return self.iterate(v)
        except Undecided:
            return None

    def iterate(self, v):
        return self.pylib.iterate(self, self.simp(v))

    def getattr(self, o, name):
        return self.lift(o, lambda x: self.pylib.getattr_(self, x, name))

    def setattr(self, o, name, v):
        def f(x):
            self.pylib.setattr_(self, x, name, v)
        return self.lift(o, f)

    def getitem(self, o, k):
        k = self.simp(k)
        if isinstance(k, IteV):
            return self.lift(k, lambda kk: self.getitem(o, kk))
        return self.lift(o, lambda x: self.simp(self.pylib.getitem(self, x, k)))

    def setitem(self, o, k, v):
        k = self.simp(k)

        def f(x):
            self.pylib.setitem(self, x, k, v)
        return self.lift(o, f)

    def to_slice(self, k):
        return slice(*[None if x is None else self.as_int(x) for x in (k.lo, k.hi, k.step)])

    def as_int(self, v):
        v = self.simp(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Num) and v.e.is_const() and v.e.const().denominator == 1:
            return int(v.e.const())
        if isinstance(v, Tensor) and v.size == 1:
            x = v.item()
            if isinstance(x, Expr) and x.is_const() and x.const().denominator == 1:
                return int(x.const())
            if isinstance(x, bool):
                return int(x)
        raise Undecided(f'integer expected: {str(v)[:60]}')

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and f.self_cls is None:
                f = f.parent
            return Super(f.self_cls[0], f.self_cls[1])
        line = n.lineno
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.simp(self.eval(k.value, fr))
                if isinstance(o, PyDict):
                    for kk, vv in o.d.values():
                        kwargs[kk] = self.simp(vv)
                elif isinstance(o, Opaque):
                    kwargs['**'] = o
                else:
                    raise AbsRaise('TypeError', 'argument after ** must be a mapping')
            else:
                if k.arg in kwargs:
                    raise AbsRaise('TypeError', f'multiple values for {k.arg}')
                kwargs[k.arg] = self.eval(k.value, fr)
        self.cur_line = line
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.simp(f)
        if isinstance(f, IteV):
            return self.lift(f, lambda x: self.call(x, args, kwargs))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Native):
                return f.func.f(self, [f.self] + list(args), kwargs)
            return self.call_func(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            return f.f(self, args, kwargs)
        if isinstance(f, Method):
            return self.pylib.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, Lib):
            return self.pylib.call_lib(self, f.path, args, kwargs)
        if isinstance(f, Instance):
            if '@call' in f.attrs:
                return f.attrs['@call'](self, args, kwargs)
            m = f.cls.lookup('__call__')
            if isinstance(m, Native):
                return m.f(self, [f] + list(args), kwargs)
            if m:
                return self.call_func(m, [f] + list(args), kwargs)
            m = f.cls.lookup('forward')
            if m and self.is_nn(f.cls):
                return self.call_func(m, [f] + list(args), kwargs)
            raise AbsRaise('TypeError', f'{f.cls.name} object is not callable')
        if isinstance(f, Opaque):
            return self.pylib.call_opaque(self, f, args, kwargs)
        raise AbsRaise('TypeError', f'{type(f).__name__} object is not callable')

    def is_nn(self, cls):
        return any(p.endswith('nn.Module') or p.startswith('torch.nn') for p in cls.lib_bases())

    def instantiate(self, cls, args, kwargs):
        key = cls.name
        if key in self.stubs:
            return self.stubs[key](self, args, kwargs)
        if any(p.split('.')[-1] in BUILTIN_EXC for p in cls.lib_bases()):
            return ExcV(cls.name, tuple(args))
        inst = Instance(cls)
        if self.is_nn(cls):
            inst.attrs['training'] = True
        m = cls.lookup('__init__')
        if m is not None:
            self.call_func(m, [inst] + list(args), kwargs)
        elif args or kwargs:
            if not cls.lib_bases():
                raise AbsRaise('TypeError', f'{cls.name}() takes no arguments')
        return inst

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(pos) and a.vararg is None:
            raise AbsRaise('TypeError', f'{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given')
        for p, v in zip(pos, args):
            out[p] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in out:
                    raise AbsRaise('TypeError', f'{f.qual}() got multiple values for argument {k!r}')
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            elif k == '**':
                pass
            else:
                raise AbsRaise('TypeError', f'{f.qual}() got an unexpected keyword argument {k!r}')
        if a.kwarg is not None:
            out[a.kwarg.arg] = PyDict(extra.items())
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = f.defaults[j]
                elif '**' in kwargs:
                    out[p] = Opaque('item', (kwargs['**'], p))
                else:
                    raise AbsRaise('TypeError', f'{f.qual}() missing argument {p!r}')
        for p in kwonly:
            if p not in out:
                if p in f.kwdefaults:
                    out[p] = f.kwdefaults[p]
                else:
                    raise AbsRaise('TypeError', f'{f.qual}() missing argument {p!r}')
        return out

    def call_func(self, f, args, kwargs):
        st = self.stubs.get(f.qual)
        if st is None and f.cls is None:
            st = self.stubs.get(f.module.name + '.' + f.name)
        if st is not None:
            r = st(self, args, kwargs)
            if r is not NotImplemented:
                return r
        b = self.bind(f, args, kwargs)
        if self.log_calls is not None and (f.qual in self.log_calls or f.name in self.log_calls):
            self.event('call', f.qual, tuple(args), kwargs)
        if self.depth > 150:
            raise Undecided('call depth')
        if isinstance(f.node, ast.Lambda):
            fr = Frame(f.frame, f)
            fr.vars.update(b)
            return self.eval(f.node.body, fr)
        fr = Frame(f.frame, f)
        fr.vars.update(b)
        if f.cls is not None and args:
            fr.self_cls = (f.cls, args[0])
        self.depth += 1
        self.call_stack.append(f)
        self.funcs_seen.add((f.module.name, f.qual))
        line = getattr(self, 'cur_line', None)
        old_grad = self.state.get('grad')
        if f.nograd:
            self.state.set('grad', False)
        gen = is_generator(f.node)
        if gen:
            fr.vars['@yield'] = PyList()
        try:
            o = self.exec_block(f.node.body, fr)
        finally:
            self.depth -= 1
            self.call_stack.pop()
        self.cur_line = line
        if f.nograd:
            self.state.set('grad', old_grad)
        if o.rais:
            raise self.last_exc
        if gen:
            return IterV(fr.vars['@yield'].items)
        if o.ret is False:
            return None
        if o.ret is True or o.next is False:
            return o.val
        return merge(o.ret, o.val, None)


class CompUnknown(Exception):
    pass


class LateName:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
        _gen_cache[node] = r
    return r


def _is_main(s):
    return '__name__' in ast.unparse(s.test)


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


# -------------------------------------------------------------- loop slots
def slot_diff(obj, old, new):
    if isinstance(obj, Storage):
        return [(i, a, b) for i, (a, b) in enumerate(zip(old, new))
                if not _eleq(a, b)]
    if isinstance(obj, PyList):
        if old is None or new is None or len(old) != len(new):
            return [('*', old, new)] if old is not None else []
        return [(i, a, b) for i, (a, b) in enumerate(zip(old, new)) if not same(a, b)]
    if isinstance(obj, PyDict):
        return [(k, old.get(k, (None, ABSENT))[1], new.get(k, (None, ABSENT))[1])
                for k in list(old) + [k for k in new if k not in old]
                if not (k in old and k in new and same(old[k][1], new[k][1]))]
    if isinstance(obj, (Frame, Instance)):
        return [(k, old.get(k, ABSENT), new.get(k, ABSENT))
                for k in list(old) + [k for k in new if k not in old]
                if not (k in old and k in new and same(old[k], new[k]))]
    if isinstance(obj, PySet):
        if set(old) != set(new):
            raise Undecided('set modified in summarised loop')
        return []
    if isinstance(obj, IterV):
        if old != new:
            raise Undecided('iterator advanced in summarised loop')
        return []
    raise Undecided('slot_diff')


def _eleq(a, b):
    if isinstance(a, Expr) and isinstance(b, Expr):
        return a == b
    return same(a, b)


def slot_name(obj, key):
    if isinstance(obj, Instance):
        return f'{getattr(obj.cls, "name", "obj")}.{key}'
    if isinstance(obj, Storage):
        return f'st{obj.birth}[{key}]'
    if isinstance(obj, PyList):
        return f'list{obj.birth}[{key}]'
    if isinstance(obj, PyDict):
        return f'dict{obj.birth}[{key}]'
    return str(key)


def slot_set(obj, key, v):
    obj.touch()
    if isinstance(obj, Storage):
        obj.data[key] = v
    elif isinstance(obj, PyList):
        if key == '*':
            obj.items = None
        elif obj.items is not None:
            obj.items[key] = v
    elif isinstance(obj, PyDict):
        k = obj.d.get(key, (key, None))[0]
        obj.d[key] = (k, v)
    elif isinstance(obj, Frame):
        obj.vars[key] = v
    else:
        obj.attrs[key] = v


def slot_get_content(obj, content, key):
    if isinstance(obj, PyList):
        return content if key == '*' else content[key] if content is not None else None
    if isinstance(obj, Storage):
        return content[key]
    if isinstance(obj, PyDict):
        return content.get(key, (None, ABSENT))[1]
    return content.get(key, ABSENT)
