#!/usr/bin/env python3
"""refac.py OUT MODE...: writes a copy of /repo/src/hookeai to OUT in which every file was rewritten by behaviour-preserving
transformations (a test of the checks for false alarms; no check uses it)."""
import ast, copy, os, shutil, sys, builtins
import warnings; warnings.simplefilter('ignore')
SRC = '/repo/src/hookeai'


def scopes(fn):
    """nodes of fn's own scope (not nested functions/classes/lambdas/comprehensions)"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st += list(ast.iter_child_nodes(n))


class Rename(ast.NodeTransformer):
    """rename local variables (not parameters) of functions"""
    def visit_FunctionDef(self, fn):
        args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        for a in (fn.args.vararg, fn.args.kwarg):
            if a: args.add(a.arg)
        skip = set(args)
        loc = set()
        for n in scopes(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                skip |= {(a.asname or a.name.split('.')[0]) for a in n.names}
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                skip.add(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
        loc -= skip
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('locals', 'eval', 'exec') for n in ast.walk(fn)):
            return fn
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                # nested: names rebound as parameters are left
                loc -= {a.arg for a in n.args.args}
        m = {x: 'zz_' + x for x in loc if not x.startswith('__')}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
            if isinstance(n, ast.Nonlocal):
                n.names = [m.get(x, x) for x in n.names]
        return fn


class FlipIf(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A  (not for elif chains ending)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class FlipCmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FL:
            return ast.Compare(n.comparators[0], [FL[type(n.ops[0])]()], [n.left])
        return n


class Body(ast.NodeTransformer):
    """base: transforms statement lists"""
    k = 0
    def fresh(self, p='t'):
        Body.k += 1
        return f'{p}_{Body.k}_'
    def stmts(self, l):
        out = []
        for s in l:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.Module, ast.ClassDef)):
            return n
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.stmts(v))
        return n
    def stmt(self, s):
        return s


class Temps(Body):
    """return E -> t = E; return t ; x = f(...) args pulled out first (pure order kept)"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            t = self.fresh('result')
            return [ast.Assign([ast.Name(t, ast.Store())], s.value, lineno=0), ast.Return(ast.Name(t, ast.Load()))]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in s.value.args):
            c, pre = s.value, []
            if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, (ast.Name, ast.Attribute)):
                t = self.fresh()
                pre.append(ast.Assign([ast.Name(t, ast.Store())], c.func.value, lineno=0))
                c.func.value = ast.Name(t, ast.Load())
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.BinOp, ast.Call, ast.Subscript)):
                    t = self.fresh()
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a, lineno=0))
                    c.args[i] = ast.Name(t, ast.Load())
                elif not isinstance(a, (ast.Constant, ast.Name)):
                    break
            return pre + [s]
        return s


class Comp(Body):
    """x = [e for a in b if c] -> loop with append"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            v = s.value
            wrap = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('tuple', 'list') and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
                wrap, v = v.func.id, v.args[0]
            if isinstance(v, ast.ListComp) or (wrap and isinstance(v, ast.GeneratorExp)):
                t = self.fresh('acc')
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    # rename loop targets (comprehension scope)
                    inner = [ast.For(g.target, g.iter, inner, [], lineno=0)]
                m = {x.id: self.fresh(x.id) for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                blk = inner[0]
                for x in ast.walk(blk):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]
                # the outermost iterable is evaluated outside the comprehension scope: names clash is fine unless same name
                val = ast.Name(t, ast.Load())
                if wrap == 'tuple':
                    val = ast.Call(ast.Name('tuple', ast.Load()), [val], [])
                if any(isinstance(x, ast.Name) and x.id in m.values() for x in ast.walk(v.generators[0].iter)):
                    inv = {b: a for a, b in m.items()}
                    for x in ast.walk(v.generators[0].iter):
                        if isinstance(x, ast.Name) and x.id in inv: x.id = inv[x.id]
                return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=0), blk, ast.Assign(s.targets, val, lineno=0)]
        return s


def has(n, *ts):
    st = list(ast.iter_child_nodes(n))
    for x in n.body: pass
    stack = list(n.body)
    while stack:
        x = stack.pop()
        if isinstance(x, ts): return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)): continue
        stack += list(ast.iter_child_nodes(x))
    return False


class While(Body):
    """for i in range(a[,b]) -> while (no continue/else)"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and not has(s, ast.Continue):
            a = s.iter.args
            lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else (a[0], a[1])
            i, h = self.fresh('i'), self.fresh('n')
            L = lambda x: ast.Name(x, ast.Load())
            return [ast.Assign([ast.Name(i, ast.Store())], lo, lineno=0), ast.Assign([ast.Name(h, ast.Store())], hi, lineno=0),
                    ast.While(ast.Compare(L(i), [ast.Lt()], [L(h)]), [ast.Assign([s.target], L(i), lineno=0)] + s.body + [ast.Assign([ast.Name(i, ast.Store())], ast.BinOp(L(i), ast.Add(), ast.Constant(1)), lineno=0)], [])]
        return s


class Enum(Body):
    """for x in seq -> for _, x in enumerate(seq);  """
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name):
            s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], [])
            s.target = ast.Tuple([ast.Name(self.fresh('k'), ast.Store()), s.target], ast.Store())
        return s


class Helper(ast.NodeTransformer):
    """body of every plain function/method moved to a helper of the same signature that the original calls"""
    def visit_ClassDef(self, c):
        out = []
        for n in c.body:
            if isinstance(n, ast.FunctionDef) and not n.name.startswith('__') and not uses_super(n) and not is_abs(n) and not is_gen(n) and len(n.body) > 2 and not any(isinstance(d, ast.Attribute) for d in n.decorator_list):
                out += self.split(n, True, c.name)
            else:
                out.append(n)
        c.body = out
        return c
    def visit_FunctionDef(self, n):
        return n
    def split(self, n, meth, cname=None):
        kinds = {d.id for d in n.decorator_list if isinstance(d, ast.Name)}
        if kinds - {'staticmethod', 'classmethod'}:
            return [n]
        h = copy.deepcopy(n)
        h.name = '_' + n.name.lstrip('_') + '_body'
        doc = []
        if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc = [n.body[0]]; h.body = h.body[1:]
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
        if a.kwarg: kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        recv = None
        if meth:
            if 'staticmethod' in kinds:
                recv = ast.Name(cname, ast.Load())
            else:
                if names[:1] not in (['self'], ['cls']):
                    return [n]
                recv = ast.Name(names[0], ast.Load()); names = names[1:]
        args = [ast.Name(x, ast.Load()) for x in names]
        if a.vararg: args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        f = ast.Attribute(recv, h.name, ast.Load()) if recv is not None else ast.Name(h.name, ast.Load())
        n.body = doc + [ast.Return(ast.Call(f, args, kw))]
        h.args.defaults = []; h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
        return [h, n]
    def visit_Module(self, m):
        out = []
        for n in m.body:
            if isinstance(n, ast.ClassDef):
                out.append(self.visit_ClassDef(n))
            elif isinstance(n, ast.FunctionDef) and len(n.body) > 2 and not is_gen(n) and not n.decorator_list:
                out += self.split(n, False)
            else:
                out.append(n)
        m.body = out
        return m


def uses_super(n): return any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(n))
def is_abs(n): return any('abstract' in ast.dump(d) for d in n.decorator_list)
def is_gen(n): return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))


class Guard(Body):
    """if c: raise ... elif ... -> split early; else after return removed:  if c: return A else: B -> if c: return A; B"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            rest = s.orelse; s.orelse = []
            return [s] + rest
        return s


class Misc(ast.NodeTransformer):
    """x**2 -> x*x for names;  not in / is None rewrites; a if c else b;  'abc' % -> same; len(x) == 0 -> not len(x)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Sub) and not isinstance(n.left, ast.Set):
            if isinstance(n.left, ast.Constant) or isinstance(n.right, ast.Constant):
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(o, ast.IsNot): return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if isinstance(o, ast.NotIn): return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            if isinstance(o, ast.NotEq): return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Eq()], n.comparators))
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'torch':
            if n.func.attr == 'matmul' and len(n.args) == 2 and not n.keywords: return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            if n.func.attr in ('sqrt', 'abs', 'exp', 'log', 'sin', 'cos', 'isnan', 'clone') and len(n.args) == 1 and not n.keywords:
                return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), [], [])
            if n.func.attr in ('sum', 'mean', 'norm', 'reshape', 'unsqueeze', 'squeeze', 'transpose', 'flatten', 'any', 'all') and n.args and not (n.func.attr == 'norm' and False) and not any(k.arg in ('input', 'out') for k in n.keywords):
                return ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), n.args[1:], n.keywords)
        return n


class Kw(ast.NodeTransformer):
    """dict(...)/{} literals; 'x is True' etc. left; chained: a, b = c, d -> two temps"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys: return ast.Call(ast.Name('dict', ast.Load()), [], [])
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            import keyword
            if not any(keyword.iskeyword(k.value) for k in n.keys):
                return ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load): return ast.Call(ast.Name('list', ast.Load()), [], [])
        return n


MODES = dict(rename=Rename, flipif=FlipIf, flipcmp=FlipCmp, temps=Temps, comp=Comp, whil=While, enum=Enum, helper=Helper, guard=Guard, misc=Misc, kw=Kw)
if __name__ == '__main__':
    out, modes = sys.argv[1], sys.argv[2:]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(SRC, out, ignore=shutil.ignore_patterns('__pycache__'))
    for dp, dn, fs in os.walk(out):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                t = ast.parse(open(p).read())
                for m in modes:
                    t = MODES[m]().visit(t)
                    ast.fix_missing_locations(t)
                s = ast.unparse(t)
                compile(s, p, 'exec')
                open(p, 'w').write(s + '\n')
