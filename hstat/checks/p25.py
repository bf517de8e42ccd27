"""P25 - the parts of the package agree on their interfaces.  Syntax-tree analysis of
every module: scopes with the assignments that can reach each read, import
resolution, class hierarchies with the attributes of every class that can be
instantiated, binding of every resolvable call against each implementation it can
reach, arity of unpacked results, exceptions created but not raised, and mutable
defaults changed by the function.  Only definite errors are reported."""
import os

from ..check import ROOT as SRC
from ..lint import Package

FLOOR = 300
RULES = ('import-resolves', 'name-defined', 'name-assigned', 'attribute-defined', 'call-binds', 'result-arity', 'result-exists', 'error-is-raised', 'condition-can-fail',
         'default-unchanged', 'abstract-class-instantiated', 'instance-parameter')
ASSUMPTIONS = ['calls, attributes and names that cannot be resolved from the source are left alone', 'installed and declared third-party modules exist']


def groups(tier):
    return [('package', package)]


def package(ctx):
    p = Package(SRC)
    bad = {}
    for i in p.run():
        bad.setdefault((i.mod, i.rule), []).append(i)
    for m in p.mods.values():
        fs = [f for f in functions(m.tree)]
        ctx.funcs |= {(m.name, f) for f in fs}
        for r in RULES:
            k = bad.get((m.name, r))
            if not k:
                ctx.ob(r, m.name, True, '')
            for i in k or ():
                ctx.ob(r, f'{i.mod}:{i.where} {i.what}', False, f'{i.what} (line {i.line})')
    for k, v in p.stats.items():
        ctx.ob('extent', f'{k} analysed', v > 0, f'{v}')


def functions(tree, pre=''):
    import ast
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield pre + x.name
        elif isinstance(x, ast.ClassDef):
            yield from functions(x, pre + x.name + '.')
