#!/usr/bin/env python3
"""Rewrite every library file of a scratch copy of /repo without changing behaviour; the checks have to stay quiet on it.
usage: refactor.py DEST MODE...   MODE in ifs, returns, loops, delegate, comps, args"""
import ast, os, shutil, sys

class Ifs(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)

class Returns(ast.NodeTransformer):
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign(targets=[ast.Name('result_', ast.Store())], value=n.value), ast.Return(ast.Name('result_', ast.Load()))]

def has_continue(body):
    class V(ast.NodeVisitor):
        found = False
        def visit_Continue(self, n): self.found = True
        def visit_For(self, n): pass
        def visit_While(self, n): pass
    v = V()
    for b in body: v.visit(b)
    return v.found

class Loops(ast.NodeTransformer):
    k = 0
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or has_continue(n.body):
            return n
        Loops.k += 1
        it = f'iter_{Loops.k}_'
        # for t in e: body  ->  it = list(e); i = 0; while i < len(it): t = it[i]; i += 1; body
        src = ast.parse(f'{it} = list(x)\n{it}i = 0\nwhile {it}i < len({it}):\n    t = {it}[{it}i]\n    {it}i += 1\n').body
        src[0].value.args[0] = n.iter
        src[2].body[0].targets = [n.target]
        src[2].body += n.body
        return src

class Comps(ast.NodeTransformer):
    """[e for t in i] at the right side of a plain assignment -> a loop that appends"""
    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and isinstance(n.targets[0], ast.Name):
            src = ast.parse('built_ = []\nfor t in i:\n    built_.append(e)\n').body
            src[1].target, src[1].iter = v.generators[0].target, v.generators[0].iter
            src[1].body[0].value.args[0] = v.elt
            return src + [ast.Assign(targets=n.targets, value=ast.Name('built_', ast.Load()))]
        return n

class Delegate(ast.NodeTransformer):
    """every undecorated method becomes a call of a new private method with the old body"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and f.args.args and f.args.args[0].arg == 'self':
                a = f.args
                names = [x.arg for x in a.args[1:]]
                call = ast.Call(func=ast.Attribute(ast.Name('self', ast.Load()), f'_{f.name}_{c.name}', ast.Load()),
                                args=[ast.Name(x, ast.Load()) for x in names] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                keywords=[ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
                inner = ast.FunctionDef(name=f'_{f.name}_{c.name}', args=a, body=f.body, decorator_list=[], returns=f.returns, type_params=[])
                out += [inner, ast.FunctionDef(name=f.name, args=a, body=[ast.Return(call)], decorator_list=[], returns=f.returns, type_params=[])]
            else:
                out.append(f)
        c.body = out
        return c

class Einsum(ast.NodeTransformer):
    """a @ b -> torch.matmul(a, b); torch.kron(a, b) stays; x ** 2 stays"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            return ast.Call(func=ast.Attribute(ast.Name('torch', ast.Load()), 'matmul', ast.Load()), args=[n.left, n.right], keywords=[])
        return n

MODES = dict(ifs=Ifs, returns=Returns, loops=Loops, delegate=Delegate, comps=Comps, matmul=Einsum)
if __name__ == '__main__':
    dest, modes = sys.argv[1], sys.argv[2:]
    assert not os.path.exists(dest)
    shutil.copytree('/repo', dest, symlinks=True)
    for root, _, files in os.walk(f'{dest}/deepquantum'):
        if 'tests' in root:
            continue
        for f in files:
            if f.endswith('.py') and os.path.getsize(f'{root}/{f}'):
                t = ast.parse(open(f'{root}/{f}').read())
                for m in modes:
                    t = ast.fix_missing_locations(MODES[m]().visit(t))
                open(f'{root}/{f}', 'w').write(ast.unparse(t) + '\n')
