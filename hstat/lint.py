"""Syntax-tree analyses over the whole package: scopes and reaching assignments,
import resolution, class hierarchies with their attributes, call binding against
every implementation that a call can reach, result arity, discarded exceptions and
mutated defaults.  Only definite errors are reported: anything that cannot be
resolved from the source is left alone."""
import ast
import builtins
import os
import re
import sys
import warnings

BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__path__', '__spec__', '__builtins__', '__annotations__', '__package__', '__loader__', '__debug__'}
EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
# public attributes of torch.nn.Module (external base class)
NNMODULE = set('''training dump_patches call_super_init T_destination forward register_buffer register_parameter add_module register_module get_submodule get_parameter get_buffer
get_extra_state set_extra_state apply cuda ipu xpu to_empty cpu type float double half bfloat16 to register_full_backward_pre_hook register_backward_hook
register_full_backward_hook register_forward_pre_hook register_forward_hook register_state_dict_pre_hook state_dict register_load_state_dict_post_hook load_state_dict
parameters named_parameters buffers named_buffers children named_children modules named_modules train eval requires_grad_ zero_grad share_memory extra_repr compile
_parameters _buffers _modules _non_persistent_buffers_set _backward_pre_hooks _backward_hooks _is_full_backward_hook _forward_hooks _forward_pre_hooks _state_dict_hooks
_load_state_dict_pre_hooks _load_state_dict_post_hooks _version _get_name _apply _named_members _call_impl'''.split())
GRU = set('''mode input_size hidden_size num_layers bias batch_first dropout bidirectional proj_size all_weights flatten_parameters reset_parameters check_input
get_expected_hidden_size check_hidden_size check_forward_args permute_hidden'''.split())
EXTERNAL = {'ABC': set(), 'abc.ABC': set(), 'object': set(), 'torch.nn.Module': NNMODULE, 'torch.utils.data.Dataset': set(), 'torch.nn.GRU': NNMODULE | GRU}


class Issue:
    def __init__(self, rule, mod, where, line, what):
        self.rule, self.mod, self.where, self.line, self.what = rule, mod, where, line, what


class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.deco = [dotted(d.func if isinstance(d, ast.Call) else d) or '?' for d in node.decorator_list]
        k = {d.split('.')[-1] for d in self.deco}
        self.static = 'staticmethod' in k
        self.klass = 'classmethod' in k
        self.prop = 'property' in k or any(d.endswith(('.setter', '.getter', '.deleter')) for d in self.deco)
        self.abstract = 'abstractmethod' in k
        self.plain = k <= {'staticmethod', 'classmethod', 'abstractmethod'}

    @property
    def name(self):
        return f'{self.cls.name}.{self.node.name}' if self.cls else self.node.name


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.body, self.multi = {}, set()
        for st in flat(node.body):
            for n, v in binds(st):
                if n in self.body:
                    self.multi.add(n)
                self.body[n] = Fn(mod, v, self) if isinstance(v, FUNC) else v
        self.subs = []


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and f'{b}.{n.attr}'
    return None


def flat(body):
    """Statements executed at this level, including those inside compound statements."""
    for st in body:
        yield st
        if isinstance(st, FUNC + (ast.ClassDef,)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from flat(getattr(st, f, []) or [])
        for h in getattr(st, 'handlers', []) or []:
            yield h
            yield from flat(h.body)
        for c in getattr(st, 'cases', []) or []:
            yield from flat(c.body)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def walk(n):
    """Sub-expressions evaluated in the same scope (comprehensions, lambdas and definitions are not entered)."""
    st = [n]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp) + FUNC + (ast.ClassDef,)):
            continue
        st.extend(ast.iter_child_nodes(x))


def walrus(n):
    for x in ast.walk(n):
        if isinstance(x, ast.NamedExpr):
            yield x.target.id


def binds(st):
    """(name, value or None) bound by one statement (not by the statements nested in it)."""
    if isinstance(st, FUNC + (ast.ClassDef,)):
        yield st.name, st
        return
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                yield t.id, st.value
            else:
                for n in targets(t):
                    yield n, None
    elif isinstance(st, ast.AnnAssign):
        if isinstance(st.target, ast.Name) and st.value is not None:
            yield st.target.id, st.value
    elif isinstance(st, ast.AugAssign):
        for n in targets(st.target):
            yield n, None
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        for n in targets(st.target):
            yield n, None
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            if i.optional_vars is not None:
                for n in targets(i.optional_vars):
                    yield n, None
    elif isinstance(st, ast.Import):
        for a in st.names:
            yield (a.asname or a.name.split('.')[0]), st
    elif isinstance(st, ast.ImportFrom):
        for a in st.names:
            yield (a.asname or a.name), st
    elif isinstance(st, ast.ExceptHandler):
        if st.name:
            yield st.name, None
    elif isinstance(st, ast.Match):
        for x in ast.walk(st):
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                yield x.name, None
            if isinstance(x, ast.MatchMapping) and x.rest:
                yield x.rest, None
    for f, v in ast.iter_fields(st):
        if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
            continue
        for e in (v if isinstance(v, list) else [v]):
            if isinstance(e, ast.AST):
                for n in walrus(e):
                    yield n, None


class Module:
    def __init__(self, pkg, name, path):
        self.pkg, self.name, self.path = pkg, name, path
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(open(path, encoding='utf-8').read(), path)
        self.env, self.main, self.main_at = {}, set(), []
        self._collect(self.tree.body, False)

    def _collect(self, body, main):
        for st in body:
            if isinstance(st, ast.If) and is_main(st.test):
                self.main_at.append((st.lineno, st.end_lineno))
                for s in flat(st.body):
                    for n, v in binds(s):
                        self.main.add(n)
                self._collect(st.orelse, main)
                continue
            for s in flat([st]):
                for n, v in binds(s):
                    w = Fn(self, v) if isinstance(v, FUNC) else Cls(self, v) if isinstance(v, ast.ClassDef) else v
                    self.env.setdefault(n, []).append(w)
        for x in ast.walk(self.tree):
            if isinstance(x, ast.Global):
                for n in x.names:
                    self.env.setdefault(n, []).append(None)


def is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__' and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == '__main__'


class Missing:
    def __init__(self, what):
        self.what = what


class Package:
    def __init__(self, root, skip=()):
        self.root, self.mods, self.issues = root, {}, []
        self.stats = dict(modules=0, functions=0, classes=0, calls=0, bound=0, imports=0, names=0, attributes=0, unpacked=0)
        self.dirs = set()
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__',) and not x.startswith('.'))
            rel = os.path.relpath(d, root)
            parts = [] if rel == '.' else rel.split(os.sep)
            if parts:
                self.dirs.add('.'.join(parts))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = parts + ([] if f == '__init__.py' else [f[:-3]])
                    n = '.'.join(p)
                    if n and n not in skip:
                        self.mods[n] = Module(self, n, os.path.join(d, f))
        self.stats['modules'] = len(self.mods)
        self.classes = [c for m in self.mods.values() for v in m.env.values() for c in v if isinstance(c, Cls)]
        self.stats['classes'] = len(self.classes)
        for c in self.classes:
            m = self.mro(c)
            for b in (m[0] if m else [])[1:]:
                b.subs.append(c)
        self.unknown = {}
        self.defs = {}
        self.vocabulary = set()
        self.instantiated = set()
        self.hasattrs = set()
        self.foreign = set()
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, FUNC + (ast.ClassDef,)):
                    self.defs.setdefault(x.name, []).append(x)
                    self.vocabulary.add(x.name)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.vocabulary.add(x.attr)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.vocabulary.add(x.id)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and not (isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls')):
                    self.foreign.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'setattr', 'delattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    self.hasattrs.add(x.args[1].value)

    # ------------------------------------------------------------- resolution
    def lookup(self, mod, name):
        """The single definition bound to a name at module level, or None."""
        v = mod.env.get(name)
        if not v:
            return None
        if len(v) > 1:
            if all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in v):
                r = [self.imported(mod, x, name) for x in v]
                return r[0] if all(x is r[0] for x in r) else None
            return None
        return self.value(mod, v[0], name)

    def value(self, mod, v, name):
        if isinstance(v, (Fn, Cls)):
            return v
        if isinstance(v, (ast.Import, ast.ImportFrom)):
            return self.imported(mod, v, name)
        return None

    def imported(self, mod, st, name, depth=0):
        if isinstance(st, ast.Import):
            for a in st.names:
                if (a.asname or a.name.split('.')[0]) == name:
                    return self.mods.get(a.name if a.asname else a.name.split('.')[0])
            return None
        base = self.base(mod, st)
        for a in st.names:
            if (a.asname or a.name) == name:
                m = self.mods.get(base)
                if m is None:
                    return self.mods.get(f'{base}.{a.name}')
                if a.name in m.env:
                    return self.lookup(m, a.name) if depth < 20 else None
                return self.mods.get(f'{base}.{a.name}')
        return None

    def base(self, mod, st):
        if not st.level:
            return st.module
        parts = mod.name.split('.')
        if not mod.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)] if st.level > 1 else parts
        return '.'.join(parts + ([st.module] if st.module else []))

    def expr(self, mod, n, local=None):
        """Definition denoted by a dotted expression, if it is certain."""
        if isinstance(n, ast.Name):
            if local is not None and n.id in local:
                return local[n.id]
            return self.lookup(mod, n.id)
        if isinstance(n, ast.Attribute):
            b = self.expr(mod, n.value, local)
            if isinstance(b, Module):
                if n.attr in b.env:
                    return self.lookup(b, n.attr)
                return self.mods.get(f'{b.name}.{n.attr}')
        return None

    def full(self, mod, n):
        """Dotted external name of an expression (imports expanded)."""
        d = dotted(n)
        if not d:
            return None
        h, _, t = d.partition('.')
        for v in mod.env.get(h, []):
            if isinstance(v, ast.Import):
                for a in v.names:
                    if a.asname == h:
                        return a.name + (f'.{t}' if t else '')
            if isinstance(v, ast.ImportFrom):
                for a in v.names:
                    if (a.asname or a.name) == h:
                        return f'{v.module}.{a.name}' + (f'.{t}' if t else '')
        return d

    def mro(self, c):
        """(linearised internal classes, names of external attributes or None if some base is unknown)"""
        if getattr(c, '_mro', None) is not None:
            return c._mro
        c._mro = ([c], None)
        out, ext, known = [c], set(), True
        bases = []
        for b in c.node.bases:
            r = self.expr(c.mod, b)
            if isinstance(r, Cls):
                bases.append(r)
            else:
                f = self.full(c.mod, b)
                if f in EXTERNAL:
                    ext |= EXTERNAL[f]
                else:
                    known = False
        for b in bases:
            o, e = self.mro(b)
            if e is None:
                known = False
            else:
                ext |= e
            out = [x for x in out if x not in o] + o if len(bases) > 1 else out + o
        if any(k.arg == 'metaclass' and (self.full(c.mod, k.value) or '').split('.')[-1] != 'ABCMeta' for k in c.node.keywords) or c.node.decorator_list:
            known = False
        c._mro = (out, ext if known else None)
        return c._mro

    def member(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.body:
                return k.body[name] if name not in k.multi else None
        return None

    def concrete(self, c):
        """No abstract method is left unimplemented."""
        names = {n for k in self.mro(c)[0] for n, v in k.body.items() if isinstance(v, Fn) and v.abstract}
        return not any(isinstance(self.member(c, n), Fn) and self.member(c, n).abstract for n in names)

    def used(self, c):
        """Classes whose instances exist: concrete, and constructed somewhere or without subclasses."""
        return self.concrete(c) and (not c.subs or c in self.instantiated)

    def product(self, f, depth=0):
        """Class whose instance a function certainly returns."""
        if not f.plain or f.abstract or depth > 5 or overridden(self, f):
            return None
        rs = returns(f.node)
        if not rs:
            return None
        vs = []
        for r in rs:
            if isinstance(r, ast.Name):
                b = [v for st in flat(f.node.body) for n, v in binds(st) if n == r.id]
                if not b or any(a.arg == r.id for a in ast.walk(f.node.args) if isinstance(a, ast.arg)):
                    return None
                vs += b
            else:
                vs.append(r)
        loc = {n for st in flat(f.node.body) for n, _ in binds(st)} | {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}
        out = []
        for v in vs:
            if not isinstance(v, ast.Call) or (dotted(v.func) or '?').split('.')[0] in loc:
                return None
            r = self.expr(f.mod, v.func)
            out.append(r if isinstance(r, Cls) else self.product(r, depth + 1) if isinstance(r, Fn) else None)
        return out[0] if out and out[0] is not None and all(x is out[0] for x in out) else None

    # ------------------------------------------------------------- attributes
    def stores(self, c):
        """Attributes of the instance assigned by the methods of a class itself: name -> values."""
        if getattr(c, '_stores', None) is not None:
            return c._stores
        out, dyn = {}, False
        for f in c.body.values():
            if not isinstance(f, Fn) or f.static or not f.node.args.args and not f.node.args.posonlyargs:
                continue
            s = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            done = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    for t in ts:
                        simple = isinstance(t, ast.Attribute)
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == s:
                                done.add(id(y))
                                out.setdefault(y.attr, []).append((f, x.value if simple and not isinstance(x, ast.AugAssign) else None))
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s and id(x) not in done:
                    out.setdefault(x.attr, []).append((f, None))
                if isinstance(x, ast.Call):
                    d = dotted(x.func) or ''
                    if d == 'setattr' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == s and not isinstance(x.args[1], ast.Constant):
                        dyn = True
                    if d.startswith(f'{s}.__dict__') or d.startswith(f'vars'):
                        dyn = True
                    if d in (f'{s}.register_buffer', f'{s}.register_parameter', f'{s}.add_module') and x.args and isinstance(x.args[0], ast.Constant):
                        out.setdefault(x.args[0].value, []).append((f, None))
        if '__getattr__' in c.body or '__getattribute__' in c.body or '__setattr__' in c.body or '__slots__' in c.body:
            dyn = True
        c._stores = (out, dyn)
        return c._stores

    def attributes(self, c):
        """Every attribute an instance of the class can have, or None if that is open."""
        m, ext = self.mro(c)
        if ext is None:
            return None
        out = set(ext)
        for k in m:
            s, dyn = self.stores(k)
            if dyn:
                return None
            out |= set(s) | set(k.body)
        return out

    # ------------------------------------------------------------- reporting
    def issue(self, rule, mod, where, node, what):
        self.issues.append(Issue(rule, mod.name, where, getattr(node, 'lineno', 0), what))

    # ------------------------------------------------------------- run
    def run(self):
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call):
                    r = self.expr(m, x.func)
                    if isinstance(r, Cls):
                        self.instantiated.add(r)
        for m in self.mods.values():
            self.imports(m)
            Scope(self, m).module()
        for c in self.classes:
            self.instance(c)
        self.nowhere()
        return self.issues

    def nowhere(self):
        """Attributes of unresolved values whose name no class of the package and no installed library has."""
        names = {n for n in self.unknown if n not in self.vocabulary and n not in self.hasattrs and n not in SEEN}
        if not names or not SITE:
            return
        names -= found_outside(names)
        for n in sorted(names):
            for m, where, x in self.unknown[n]:
                self.issue('attribute-defined', m, where, x, f'nothing has an attribute {n}')

    def imports(self, m):
        tops = {n.split('.')[0] for n in self.mods} | {d.split('.')[0] for d in self.dirs}
        soft = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Try) and any(h.type is None or 'ImportError' in ast.dump(h.type) or 'ModuleNotFound' in ast.dump(h.type) or "'Exception'" in ast.dump(h.type) for h in x.handlers):
                soft |= {id(y) for s in x.body for y in ast.walk(s)}
        for x in ast.walk(m.tree):
            if id(x) in soft:
                continue
            if isinstance(x, ast.Import):
                for a in x.names:
                    self.stats['imports'] += 1
                    if a.name.split('.')[0] in tops and not (a.name in self.mods or a.name in self.dirs):
                        self.issue('import-resolves', m, '<module>', x, f'no module {a.name}')
                    elif a.name.split('.')[0] not in tops and not external(a.name):
                        self.issue('import-resolves', m, '<module>', x, f'no module {a.name}')
            elif isinstance(x, ast.ImportFrom):
                b = self.base(m, x)
                if b is None:
                    continue
                for a in x.names:
                    self.stats['imports'] += 1
                    if b.split('.')[0] in tops:
                        t = self.mods.get(b)
                        if t is None and b not in self.dirs:
                            self.issue('import-resolves', m, '<module>', x, f'no module {b}')
                            break
                        if a.name == '*' or f'{b}.{a.name}' in self.mods or f'{b}.{a.name}' in self.dirs:
                            continue
                        if t is None or a.name not in t.env and not any(isinstance(v, ast.ImportFrom) and any(q.name == '*' for q in v.names) for vs in t.env.values() for v in vs):
                            self.issue('import-resolves', m, '<module>', x, f'{b} does not define {a.name}')
                    elif not external(b):
                        self.issue('import-resolves', m, '<module>', x, f'no module {b}')
                        break

    # ------------------------------------------------------------- instance attributes, per concrete class
    def instance(self, c):
        if not self.used(c):
            return
        have = self.attributes(c)
        seen = set()
        for k in self.mro(c)[0]:
            for n, f in k.body.items():
                if n in seen and n != '__init__':
                    continue
                seen.add(n)
                if not isinstance(f, Fn) or f.static or f.klass and have is None:
                    continue
                a = f.node.args.posonlyargs + f.node.args.args
                if not a:
                    self.issue('instance-parameter', f.mod, f.name, f.node, f'method {f.name} takes no instance')
                    continue
                s = a[0].arg
                if rebound(f.node, s):
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s and isinstance(x.ctx, ast.Load):
                        self.stats['attributes'] += 1
                        if have is not None and x.attr not in have and not (x.attr.startswith('__') and x.attr.endswith('__')) and x.attr not in self.hasattrs and x.attr not in self.foreign:
                            self.issue('attribute-defined', f.mod, f.name, x, f'{c.name} has no attribute {x.attr}')
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == s:
                        g = self.member(c, x.func.attr)
                        if x.func.attr in self.foreign or any(x.func.attr in self.stores(q)[0] for q in self.mro(c)[0]):
                            continue
                        if isinstance(g, Fn) and g.plain:
                            self.bind(f.mod, f.name, x, g, 0 if g.static else 1, f' for {c.name}')

    def bind(self, mod, where, call, g, skip, note=''):
        """One call against one definition."""
        self.stats['bound'] += 1
        a = g.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        ponly = {p.arg for p in a.posonlyargs}
        nd = len(a.defaults)
        need = set(pos[:len(pos) - nd]) | {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        if skip and not pos:
            if not a.vararg:
                self.issue('call-binds', mod, where, call, f'{g.name} takes no instance')
            return
        pos, first = pos[skip:], pos[:skip]
        need -= set(first)
        given = []
        star = False
        for x in call.args:
            if isinstance(x, ast.Starred):
                star = True
                break
            given.append(x)
        dstar = any(k.arg is None for k in call.keywords)
        if len(given) > len(pos) and not a.vararg:
            self.issue('call-binds', mod, where, call, f'{g.name} takes {len(pos)} positional arguments, {len(given)} given{note}')
            return
        got = set(pos[:len(given)])
        names = (set(pos) - ponly) | {p.arg for p in a.kwonlyargs}
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in names and not a.kwarg:
                self.issue('call-binds', mod, where, call, f'{g.name} has no parameter {k.arg}{note}')
            elif k.arg in got:
                self.issue('call-binds', mod, where, call, f'{g.name} is given {k.arg} twice{note}')
            got.add(k.arg)
        miss = need - got
        if star:
            miss -= set(pos)
        if miss and not dstar:
            self.issue('call-binds', mod, where, call, f'{g.name} is not given {", ".join(sorted(miss))}{note}')


def found_outside(names):
    """Names that occur in the sources of the installed libraries."""
    pat = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*')
    want = {n.encode() for n in names}
    got = set()
    for r in sorted({os.path.realpath(x) for x in SITE}):
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in ('__pycache__', 'tests', 'test')]
            for f in fs:
                if f.endswith(('.py', '.pyi')):
                    try:
                        s = open(os.path.join(d, f), 'rb').read()
                    except OSError:
                        continue
                    for n in list(want):
                        if n in s and re.search(rb'(?<![A-Za-z0-9_])' + n + rb'(?![A-Za-z0-9_])', s):
                            want.discard(n)
                            got.add(n.decode())
                    if not want:
                        return got
    return got


# attributes of third-party objects that the package uses
SEEN = set('''add_gridspec add_legend add_light add_mesh add_patch add_subplot data_max_ data_min_ fill_between get_color get_facecolor get_last_lr get_legend_handles_labels
get_size_inches get_xydata is_ccw is_valid load_state_dict named_parameters output_dir partial_fit plot_surface repeat_interleave requires_grad_ set_aspect set_axis_off
set_axisbelow set_box_aspect set_figheight set_figwidth set_major_formatter set_title set_visible set_xlabel set_xlim set_xscale set_xticks set_ylabel set_ylim set_yscale
set_zlabel set_zlim set_zorder set_zscale show_bounds state_dict tick_params tight_layout to_csv view_init zero_grad'''.split())
_ext = {}


def external(name):
    top = name.split('.')[0]
    if top in _ext:
        return _ext[top]
    ok = top in sys.stdlib_module_names or top in DECLARED
    if not ok:
        for r in SITE:
            if os.path.isdir(os.path.join(r, top)) or os.path.isfile(os.path.join(r, top + '.py')):
                ok = True
            elif os.path.isdir(r) and any(f.startswith(top + '.') and f.endswith('.so') for f in os.listdir(r)):
                ok = True
    _ext[top] = ok
    return ok


def _site():
    out = []
    for base in ('/opt/venv/lib', '/opt/venv/lib64'):
        if os.path.isdir(base):
            for d in os.listdir(base):
                out.append(os.path.join(base, d, 'site-packages'))
    return out


SITE = _site()
# import names of the declared dependencies (requirements.txt, pyproject.toml and the manual PyTorch installation)
DECLARED = set('cycler matplotlib mpl_toolkits numpy pandas pytest coverage scipy tqdm shapely hydra omegaconf torchinfo sklearn nevergrad optuna sqlalchemy pyvista torch torchvision torchaudio vtk '
               'gpytorch torch_geometric pyg_lib torch_scatter torch_cluster botorch PIL yaml networkx seaborn joblib psutil setuptools'.split())


def rebound(fn, name):
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(x, (ast.Lambda,) + FUNC) and x is not fn and any(p.arg == name for p in ast.walk(x.args) if isinstance(p, ast.arg)):
            return True
    return False


class Dead(Exception):
    pass


class Scope:
    """Names, reaching assignments, calls and results of every function of a module."""

    def __init__(self, pkg, mod):
        self.p, self.m = pkg, mod
        self.star = any(isinstance(v, ast.ImportFrom) and any(q.name == '*' for q in v.names) for vs in mod.env.values() for v in vs)
        self.globals = set(mod.env) | mod.main

    def module(self):
        self.code('<module>', self.m.tree.body, None, [], None, None)

    # one code block: module, class body or function
    def code(self, where, body, params, outer, fn, cls):
        """outer: enclosing function scopes (sets of names); params None for module and class bodies."""
        self.p.stats['functions'] += fn is not None
        bound = {}
        glob = set()
        for st in flat(body):
            if isinstance(st, (ast.Global, ast.Nonlocal)):
                glob |= set(st.names)
            for n, v in binds(st):
                bound.setdefault(n, []).append(v)
        loc = set(bound) | set(params or ())
        loc -= glob
        b = Block(self, where, loc if fn is not None or params is not None else set(), bound, outer, fn, cls, params)
        b.names = loc
        state = b.run(body, set(params or ()))
        return state


class Block:
    def __init__(self, sc, where, loc, bound, outer, fn, cls, params):
        self.sc, self.p, self.m = sc, sc.p, sc.m
        self.where, self.loc, self.bound, self.outer, self.fn, self.cls = where, loc, bound, outer, fn, cls
        self.params = set(params or ())
        self.depth_class = cls if fn is None else None
        self.stack = []
        self.defs = {}
        for n in loc:
            v = bound.get(n, [])
            self.defs[n] = None
            if n not in self.params and v and all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in v):
                self.defs[n] = self.p.imported(self.m, v[0], n)
            elif n not in self.params and len(v) == 1 and isinstance(v[0], FUNC):
                self.defs[n] = Fn(self.m, v[0])
        for o in outer:
            for n, d in o.items():
                self.defs.setdefault(n, d)

    # --------------------------------------------------------- flow of assignments
    def run(self, body, may):
        """may: names that an assignment may have reached; returns the set after the block, or None if it never ends normally."""
        old = self.stack
        try:
            for i, st in enumerate(body):
                if may is None:
                    return None
                self.stack = old + [(body, i)]
                may = self.stmt(st, may)
        finally:
            self.stack = old
        return may

    def assigned(self, body):
        return {n for st in flat(body) for n, _ in binds(st)}

    def join(self, *s):
        s = [x for x in s if x is not None]
        return set().union(*s) if s else None

    def stmt(self, st, may):
        e = self.expr
        if isinstance(st, FUNC):
            for d in st.decorator_list + st.args.defaults + [x for x in st.args.kw_defaults if x]:
                e(d, may)
            self.function(st)
            return may | {st.name}
        if isinstance(st, ast.ClassDef):
            for d in st.decorator_list + st.bases + [k.value for k in st.keywords]:
                e(d, may)
            c = next((x for x in self.m.env.get(st.name, []) if isinstance(x, Cls) and x.node is st), None) or Cls(self.m, st)
            self.sc.code(st.name, st.body, None, [dict(o) for o in self.outer] + ([self.scope()] if self.fn is not None else []), None, c)
            return may | {st.name}
        if isinstance(st, ast.Return):
            if st.value is not None:
                e(st.value, may)
            return None
        if isinstance(st, ast.Raise):
            for x in (st.exc, st.cause):
                if x is not None:
                    e(x, may)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.If):
            e(st.test, may)
            may = may | set(walrus(st.test))
            t = constant(st.test)
            a = self.run(st.body, set(may)) if t is not False else None
            b = self.run(st.orelse, set(may)) if t is not True else None
            return self.join(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                inner = may | self.assigned(st.body) | set(walrus(st.test))
                e(st.test, inner)
                after = inner
                forever = constant(st.test) is True
            else:
                e(st.iter, may)
                inner = may | self.assigned(st.body) | set(targets(st.target))
                self.target(st.target, inner)
                forever = False
            # a first pass over the body, seeing only what can have been assigned in an earlier iteration
            self.run(st.body, set(inner))
            out = may | self.assigned(st.body) | (set(targets(st.target)) if not isinstance(st, ast.While) else set())
            if st.orelse:
                o = self.run(st.orelse, set(out))
                out = self.join(o, out) if has_break(st.body) else o
            elif forever and not has_break(st.body):
                return None
            return out
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                e(i.context_expr, may)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, may)
                    may = may | set(targets(i.optional_vars))
            return self.run(st.body, set(may))
        if isinstance(st, ast.Try) or st.__class__.__name__ == 'TryStar':
            a = self.run(st.body, set(may))
            mid = may | self.assigned(st.body)
            outs = []
            for h in st.handlers:
                if h.type is not None:
                    e(h.type, mid)
                outs.append(self.run(h.body, set(mid | ({h.name} if h.name else set()))))
            if a is not None and st.orelse:
                a = self.run(st.orelse, a)
            out = self.join(a, *outs)
            if st.finalbody:
                f = self.run(st.finalbody, mid | self.assigned(st.orelse) | {n for h in st.handlers for n in self.assigned(h.body)})
                if f is None or out is None:
                    return None
                out = out | self.assigned(st.finalbody)
            return out
        if isinstance(st, ast.Match):
            e(st.subject, may)
            outs = [set(may)]
            for c in st.cases:
                q = may | {n for n, _ in binds(st)}
                if c.guard:
                    e(c.guard, q)
                outs.append(self.run(c.body, set(q)))
            return self.join(*outs)
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.load(t, may)
                    may = may - {t.id}
                else:
                    self.target(t, may)
            return may
        if isinstance(st, ast.Assign):
            e(st.value, may)
            for t in st.targets:
                self.target(t, may)
            self.unpack(st)
            return may | {n for n, _ in binds(st)}
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                e(st.value, may)
            self.target(st.target, may)
            return may | {n for n, _ in binds(st)}
        if isinstance(st, ast.AugAssign):
            e(st.value, may)
            if isinstance(st.target, ast.Name):
                self.load(st.target, may)
            else:
                self.target(st.target, may)
            return may | set(targets(st.target))
        if isinstance(st, ast.Expr):
            e(st.value, may)
            self.discarded(st)
            return may | set(walrus(st.value))
        if isinstance(st, ast.Assert):
            e(st.test, may)
            if st.msg is not None:
                e(st.msg, may)
            if isinstance(st.test, ast.Tuple) and st.test.elts:
                self.p.issue('condition-can-fail', self.m, self.where, st, 'assertion of a non-empty tuple always holds')
            return may | set(walrus(st.test))
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return may | {n for n, _ in binds(st)}
        return may

    def target(self, t, may):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, may)
        elif isinstance(t, ast.Starred):
            self.target(t.value, may)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value, may)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, may)
            self.expr(t.slice, may)

    def expr(self, n, may):
        may = may | set(walrus(n))
        for x in walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.load(x, may)
            elif isinstance(x, ast.Lambda):
                self.lam(x, may)
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                self.comp(x, may)
            elif isinstance(x, ast.Call):
                self.call(x)
            elif isinstance(x, ast.Attribute):
                self.attr(x)

    def inner(self, extra):
        b = Block.__new__(Block)
        b.__dict__.update(self.__dict__)
        b.loc = set(self.loc) | extra
        b.defs = dict(self.defs)
        for n in extra:
            b.defs[n] = None
        return b

    def lam(self, x, may):
        ps = {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        for d in x.args.defaults + [k for k in x.args.kw_defaults if k]:
            self.expr(d, may)
        b = self.inner(ps)
        # the body runs later: any assignment of the scope may have happened
        b.expr(x.body, set(self.loc) | ps)

    def comp(self, x, may):
        self.expr(x.generators[0].iter, may)
        ns = {n for g in x.generators for n in targets(g.target)}
        b = self.inner(ns)
        q = may | ns
        for i, g in enumerate(x.generators):
            if i:
                b.expr(g.iter, q)
            for c in g.ifs:
                b.expr(c, q)
        if isinstance(x, ast.DictComp):
            b.expr(x.key, q)
            b.expr(x.value, q)
        else:
            b.expr(x.elt, q)

    def scope(self):
        return {n: self.defs.get(n) for n in self.loc}

    def function(self, st):
        ps = [a.arg for a in ast.walk(st.args) if isinstance(a, ast.arg)]
        w = st.name if self.where == '<module>' else f'{self.where}.{st.name}'
        outer = [dict(o) for o in self.outer] + ([self.scope()] if self.fn is not None else [])
        c = self.cls
        Scope.code(self.sc, w, st.body, ps, outer, st, c)
        self.defaults(st, w)

    def load(self, x, may):
        self.p.stats['names'] += 1
        n = x.id
        if n in self.loc:
            if n not in may:
                self.p.issue('name-assigned', self.m, self.where, x, f'{n} is read where no assignment can have reached')
            return
        for o in self.outer:
            if n in o:
                return
        if self.fn is None and self.cls is not None and n in self.cls.body:
            return
        if self.fn is not None and n in self.m.main and n not in self.m.env and n not in BUILTIN and not self.sc.star and not any(a <= x.lineno <= b for a, b in self.m.main_at):
            self.p.issue('name-defined', self.m, self.where, x, f'{n} is defined only when the module is run as a script')
            return
        if n in self.sc.globals or n in BUILTIN or self.sc.star:
            return
        if self.cls is not None and n == '__class__':
            return
        self.p.issue('name-defined', self.m, self.where, x, f'{n} is not defined')

    # --------------------------------------------------------- calls
    def callee(self, n):
        if isinstance(n, ast.Name) and n.id in self.loc:
            return self.defs.get(n.id)
        if isinstance(n, ast.Name) and any(n.id in o for o in self.outer):
            return self.defs.get(n.id)
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and (root.id in self.loc or any(root.id in o for o in self.outer)):
            return self.p.expr(self.m, n, self.defs) if self.defs.get(root.id) is not None else None
        return self.p.expr(self.m, n)

    def instance_of(self, n):
        """Class of a value that is certainly an instance of one internal class."""
        if isinstance(n, ast.Call):
            return self.made(n)
        if isinstance(n, ast.Name) and n.id in self.loc and n.id not in self.params and self.fn is not None:
            v = self.bound.get(n.id)
            if v and all(isinstance(x, ast.Call) for x in v):
                r = [self.made(x) for x in v]
                if isinstance(r[0], Cls) and all(x is r[0] for x in r):
                    return r[0]
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and self.cls is not None and n.attr not in self.p.foreign:
            vs = []
            for k in self.p.mro(self.cls)[0] + self.cls.subs:
                s, dyn = self.p.stores(k)
                if dyn:
                    return None
                vs += s.get(n.attr, [])
            vs = [(f, v) for f, v in vs if not (isinstance(v, ast.Constant) and v.value is None)]
            if vs and all(isinstance(v, ast.Call) for f, v in vs):
                r = [self.p.expr(f.mod, v.func) for f, v in vs]
                if isinstance(r[0], Cls) and all(x is r[0] for x in r):
                    return r[0]
        return None

    def made(self, call):
        """Class of the instance that a call certainly returns: a constructor, or a function that returns what it constructs."""
        r = self.callee(call.func)
        if r is None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, (ast.Name, ast.Attribute)):
            c = self.callee(call.func.value)
            r = self.p.member(c, call.func.attr) if isinstance(c, Cls) else None
        if isinstance(r, Fn):
            return self.p.product(r)
        return r if isinstance(r, Cls) else None

    def literal(self, name):
        """(keys, closed) of the dictionary display that certainly is the value of a name here: keys present for sure, and whether there are no others."""
        add, between = set(), []
        for body, i in reversed(self.stack):
            for st in reversed(body[:i]):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
                    if not isinstance(st.value, ast.Dict):
                        return None
                    ks = [k.value if isinstance(k, ast.Constant) else None for k in st.value.keys]
                    more, gone = set(), False
                    for b in between:
                        for x in ast.walk(b):
                            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name and not isinstance(x.ctx, ast.Load):
                                if isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant):
                                    more.add(x.slice.value)
                                else:
                                    gone = True
                            elif isinstance(x, ast.Name) and x.id == name and not (id(x) in self.harmless(b, name)):
                                gone = True
                    if gone:
                        return None
                    return {k for k in ks if k is not None}, None not in ks, more
                between.append(st)
                if any(n == name for q in flat([st]) for n, _ in binds(q)):
                    return None
            if i < len(body) and isinstance(body[i], (ast.For, ast.While, ast.AsyncFor, ast.Try)) and body[i] is not self.stack[-1][0][self.stack[-1][1]]:
                return None
        return None

    def harmless(self, tree, name):
        """Uses of a dictionary that cannot change it: subscripts and ** arguments."""
        ok = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
                ok.add(id(x.value))
            elif isinstance(x, ast.Call):
                ok |= {id(k.value) for k in x.keywords if k.arg is None}
                if isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items', 'values', 'get', 'copy') and isinstance(x.func.value, ast.Name):
                    ok.add(id(x.func.value))
        return ok

    def expand(self, call):
        """The call with ** arguments of known dictionaries written out: definite keywords, and whether some are left open."""
        kw, soft, known = [], set(), False
        for k in call.keywords:
            if k.arg is None:
                d = k.value
                lit = None
                if isinstance(d, ast.Dict):
                    ks = [q.value if isinstance(q, ast.Constant) else None for q in d.keys]
                    lit = ({q for q in ks if q is not None}, None not in ks, set())
                elif isinstance(d, ast.Name) and d.id not in self.params:
                    lit = self.literal(d.id)
                if lit is None:
                    kw.append(k)
                    continue
                known = True
                keys, closed, more = lit
                kw += [ast.keyword(arg=q, value=ast.Constant(None)) for q in sorted(q for q in keys if isinstance(q, str))]
                soft |= more
                if not closed or more:
                    kw.append(ast.keyword(arg=None, value=d))
            else:
                kw.append(k)
        if not known:
            return call
        return ast.copy_location(ast.Call(func=call.func, args=call.args, keywords=kw), call)

    def resolve(self, call):
        """(definition, positional parameters already bound), or None"""
        f = call.func
        r = self.callee(f)
        if isinstance(r, Fn):
            return (r, 0) if r.plain and not r.cls else None
        if isinstance(r, Cls):
            m, ext = self.p.mro(r)
            for k in m:
                if '__new__' in k.body:
                    return None
            i = self.p.member(r, '__init__')
            if isinstance(i, Fn) and i.plain and not r.node.decorator_list:
                return (i, 1)
            return None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and not v.args and self.cls is not None:
                m, ext = self.p.mro(self.cls)
                for k in m[1:]:
                    g = k.body.get(f.attr)
                    if isinstance(g, Fn) and f.attr not in k.multi:
                        return (g, 0 if g.static else 1) if g.plain and len(self.cls.node.bases) == 1 else None
                return None
            c = self.callee(v) if isinstance(v, (ast.Name, ast.Attribute)) else None
            if isinstance(c, Cls):
                g = self.p.member(c, f.attr)
                if isinstance(g, Fn) and g.plain:
                    return (g, 1 if g.klass else 0)
                return None
            c = self.instance_of(v)
            if c is not None and f.attr not in self.p.foreign and not any(f.attr in self.p.stores(k)[0] for k in self.p.mro(c)[0]):
                g = self.p.member(c, f.attr)
                if isinstance(g, Fn) and g.plain:
                    return (g, 0 if g.static else 1)
        return None

    def call(self, x):
        self.p.stats['calls'] += 1
        kw = [k.arg for k in x.keywords if k.arg]
        for k in sorted({k for k in kw if kw.count(k) > 1}):
            self.p.issue('call-binds', self.m, self.where, x, f'{k} is given twice')
        r = self.resolve(x)
        if r is not None:
            self.p.bind(self.m, self.where, self.expand(x), *r)
        elif isinstance(x.func, ast.Attribute):
            self.by_name(x)
        c = self.callee(x.func)
        if isinstance(c, Cls) and not self.p.concrete(c) and self.p.mro(c)[1] is not None:
            self.p.issue('abstract-class-instantiated', self.m, self.where, x, f'{c.name} leaves abstract methods')
        for a in list(x.args) + [k.value for k in x.keywords]:
            self.void(a)

    def by_name(self, x):
        """A method of an unresolved value: some definition of that name has to accept the call."""
        n = x.func.attr
        ds = self.p.defs.get(n)
        if not ds or '_' not in n.strip('_') or n in SEEN or n in self.p.foreign or n in NNMODULE or n in GRU or not all(isinstance(d, FUNC) for d in ds):
            return
        if isinstance(x.func.value, ast.Name) and x.func.value.id in ('self', 'cls') or isinstance(x.func.value, ast.Call) and dotted(x.func.value.func) == 'super':
            return
        self.family(x, n, ds)
        k = len(self.p.issues)
        for d in ds:
            f = Fn(self.m, d)
            c = next((c for c in self.p.classes if c.body.get(n) is not None and getattr(c.body[n], 'node', None) is d), None)
            if not f.plain:
                del self.p.issues[k:]
                return
            for skip in ((0, 1) if c is None or not f.static else (0,)):
                q = len(self.p.issues)
                f.cls = c
                self.p.bind(self.m, self.where, x, f, skip)
                if len(self.p.issues) == q:
                    del self.p.issues[k:]
                    return
        first = self.p.issues[k]
        del self.p.issues[k:]
        self.p.issue('call-binds', self.m, self.where, x, 'no definition accepts the call: ' + first.what)

    def family(self, x, n, ds):
        """A call that the abstract method of the only family with that name accepts has to be accepted by every implementation of the family."""
        own = [(c, c.body[n]) for c in self.p.classes if isinstance(c.body.get(n), Fn)]
        base = [c for c, f in own if f.abstract]
        if len(own) != len(ds) or len(base) != 1 or any(not f.plain or n in c.multi for c, f in own) or any(base[0] not in self.p.mro(c)[0] for c, f in own):
            return
        ok = lambda f: not self.refused(x, f, 0 if f.static else 1)
        if not ok(base[0].body[n]):
            return
        for c, f in own:
            if not f.abstract and not ok(f):
                self.p.bind(self.m, self.where, x, f, 0 if f.static else 1)

    def refused(self, x, f, skip):
        k = len(self.p.issues)
        self.p.bind(self.m, self.where, x, f, skip)
        bad = len(self.p.issues) > k
        del self.p.issues[k:]
        return bad

    def void(self, n):
        """A value is taken from a call that never returns one."""
        if isinstance(n, ast.Call):
            r = self.resolve(n)
            if r is not None and r[0].node.name != '__init__' and not r[0].abstract and not overridden(self.p, r[0]) and returns(r[0].node) == []:
                self.p.issue('result-exists', self.m, self.where, n, f'{r[0].name} returns nothing')

    def unpack(self, st):
        for t in st.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts) and isinstance(st.value, ast.Call):
                r = self.resolve(st.value)
                g = r[0] if r else None
                if g is None and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == 'self' and self.cls is not None:
                    g = self.p.member(self.cls, st.value.func.attr)
                    if not isinstance(g, Fn) or not g.plain:
                        g = None
                gs = [g]
                if isinstance(st.value.func, ast.Attribute) and (g is None or g.abstract or overridden(self.p, g)):
                    gs = self.members(st.value.func)
                elif g is None or g.node.name == '__init__' or g.abstract:
                    continue
                self.arity(st, t, gs)

    def members(self, f):
        """Implementations of a method whose name belongs to one family of classes only."""
        n = f.attr
        own = [(c, c.body[n]) for c in self.p.classes if isinstance(c.body.get(n), Fn)]
        base = [c for c, g in own if all(c in self.p.mro(k)[0] for k, _ in own)]
        if not base or len(own) != len(self.p.defs.get(n, ())) or n in SEEN or n in NNMODULE or n in GRU or '_' not in n.strip('_') or n in self.p.foreign:
            return []
        return [g for c, g in own if g.plain and not g.abstract]

    def arity(self, st, t, gs):
        for g in gs:
            rs = returns(g.node)
            if rs is None:
                continue
            self.p.stats['unpacked'] += 1
            ks = [len(v.elts) for v in rs if isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts)]
            if not rs or any(k != len(t.elts) for k in ks):
                self.p.issue('result-arity', self.m, self.where, st, f'{g.name} returns {sorted(set(ks)) or "nothing"} values, {len(t.elts)} taken')

    def attr(self, x):
        """Attributes of classes, modules and certain instances."""
        if not isinstance(x.ctx, ast.Load):
            return
        v = x.value
        if isinstance(v, (ast.Name, ast.Attribute)):
            c = self.callee(v)
            if isinstance(c, Module):
                self.p.stats['attributes'] += 1
                if x.attr not in c.env and f'{c.name}.{x.attr}' not in self.p.mods and f'{c.name}.{x.attr}' not in self.p.dirs and not x.attr.startswith('__') and x.attr not in self.p.foreign:
                    self.p.issue('attribute-defined', self.m, self.where, x, f'module {c.name} has no {x.attr}')
                return
            if isinstance(c, Cls):
                self.p.stats['attributes'] += 1
                m, ext = self.p.mro(c)
                if ext is not None and not any(x.attr in k.body for k in m) and x.attr not in ext and x.attr not in self.p.foreign and not x.attr.startswith('__') and not any(x.attr in self.p.stores(k)[0] for k in m) and x.attr not in ('mro',):
                    self.p.issue('attribute-defined', self.m, self.where, x, f'class {c.name} has no {x.attr}')
                return
        if isinstance(v, ast.Name) and v.id in ('self', 'cls'):
            return
        c = self.instance_of(v)
        if c is None and '_' in x.attr.strip('_'):
            root = v
            while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
                root = root.func if isinstance(root, ast.Call) else root.value
            full = self.p.full(self.m, root) if isinstance(root, ast.Name) and root.id not in self.loc else None
            outside = full is not None and any(isinstance(q, (ast.Import, ast.ImportFrom)) for q in self.m.env.get(root.id, []))
            # configuration objects (hydra) have the attributes of a file
            conf = any(k in self.m.env for k in ('hydra', 'omegaconf', 'OmegaConf'))
            if not outside and not conf and not (x.attr.startswith('__') and x.attr.endswith('__')):
                self.p.stats['attributes'] += 1
                self.p.unknown.setdefault(x.attr, []).append((self.m, self.where, x))
        if c is not None:
            h = self.p.attributes(c)
            self.p.stats['attributes'] += 1
            if h is not None and x.attr not in h and x.attr not in self.p.foreign and x.attr not in self.p.hasattrs and not x.attr.startswith('__'):
                self.p.issue('attribute-defined', self.m, self.where, x, f'{c.name} has no attribute {x.attr}')

    def discarded(self, st):
        v = st.value
        if isinstance(v, ast.Call):
            n = v.func
            d = dotted(n) or ''
            r = self.callee(n)
            if isinstance(n, ast.Name) and n.id in EXC and r is None and n.id not in self.loc and n.id not in self.m.env:
                self.p.issue('error-is-raised', self.m, self.where, st, f'{d}(...) is created and discarded')
            elif isinstance(r, Cls) and any((self.p.full(k.mod, b) or '') in EXC for k in self.p.mro(r)[0] for b in k.node.bases):
                self.p.issue('error-is-raised', self.m, self.where, st, f'{d}(...) is created and discarded')
        elif isinstance(v, ast.Name) and v.id in EXC:
            self.p.issue('error-is-raised', self.m, self.where, st, f'{v.id} is named and not raised')

    # --------------------------------------------------------- mutated defaults
    def defaults(self, st, w):
        a = st.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        mut = {p.arg for p, d in pairs if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and (dotted(d.func) or '') in ('list', 'dict', 'set', 'collections.OrderedDict', 'OrderedDict')}
        if not mut:
            return
        rebinds = {n for s in flat(st.body) for n, _ in binds(s) if not isinstance(s, ast.AugAssign)}
        # names that only ever stand for such a parameter
        al = {}
        for s_ in flat(st.body):
            for n_, v_ in binds(s_):
                al.setdefault(n_, []).append(v_)
        mut |= {n_ for n_, v_ in al.items() if v_ and all(isinstance(q, ast.Name) and q.id in mut and q.id not in rebinds for q in v_)}
        rebinds -= {n_ for n_ in mut if n_ in al and all(isinstance(q, ast.Name) for q in al[n_])}
        self.kept(st, w, mut - rebinds)
        for x in ast.walk(st):
            n = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        n = t.value.id
                    if isinstance(x, ast.AugAssign) and isinstance(t, ast.Name):
                        n = t.id
                    if n in mut and n not in rebinds:
                        self.p.issue('default-unchanged', self.m, w, x, f'default of {n} is changed')
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in mut and x.func.value.id not in rebinds and \
                    x.func.attr in _mutators():
                self.p.issue('default-unchanged', self.m, w, x, f'default of {x.func.value.id} is changed by {x.func.attr}')

    def kept(self, st, w, mut):
        """A default kept as an attribute of the instance is changed by a method of the class."""
        if self.cls is None or not st.args.args:
            return
        me = st.args.args[0].arg
        held = {}
        for s in flat(st.body):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in mut:
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        held[t.attr] = s.value.id
        st_, dyn = self.p.stores(self.cls)
        for a, n in held.items():
            if len(st_.get(a, [])) != 1 or dyn or a in self.p.foreign or any(a in self.p.stores(k)[0] for k in self.cls.subs + self.p.mro(self.cls)[0] if k is not self.cls):
                continue
            for f in self.cls.body.values():
                if not isinstance(f, Fn) or f.static or not f.node.args.args:
                    continue
                is_ = lambda q: isinstance(q, ast.Attribute) and q.attr == a and isinstance(q.value, ast.Name) and q.value.id == f.node.args.args[0].arg
                for x in ast.walk(f.node):
                    hit = isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in _mutators() and is_(x.func.value)
                    hit = hit or isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and is_(x.value)
                    if hit:
                        self.p.issue('default-unchanged', self.m, f.name, x, f'default of {n}, kept as {a}, is changed')


def _mutators():
    return ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'add', 'discard', 'popitem', 'sort', 'reverse', 'move_to_end')


def overridden(p, g):
    return g.cls is not None and any(g.node.name in s.body for s in g.cls.subs)


def constant(t):
    if isinstance(t, ast.Constant):
        return bool(t.value)
    return None


def has_break(body):
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, FUNC + (ast.ClassDef,)):
            continue
        if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            if has_break(st.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(st, f, []) or []):
                return True
        for h in getattr(st, 'handlers', []) or []:
            if has_break(h.body):
                return True
        for c in getattr(st, 'cases', []) or []:
            if has_break(c.body):
                return True
    return False


def returns(fn):
    """Values returned (None if the function is a generator or has no body of its own); [] when nothing is ever returned."""
    out, last = [], fn.body
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(x, ast.Return):
            if x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
                out.append(x.value)
        if isinstance(x, FUNC + (ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(x))
    if not out:
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
            return None
    return out
