"""Statement-level scheduling points for code shared between threads.

An import hook which compiles glompo/core/_backends.py with a call of `Sim.step` before every statement, so that the
scheduler may interrupt between any two statements of the results queue and print redirection, not only at locks."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from .core import Sim

TARGETS = {'glompo.core._backends'}


def sim_yield_point():
    s = Sim.cur
    if s is not None and s.current is not None and s.fine_grained:
        s.step(0.05)


class _Insert(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt) \
                    and not isinstance(node, (ast.Module, ast.ClassDef)):
                out = []
                for i, st in enumerate(stmts):
                    if not (i == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        call = ast.Expr(ast.Call(ast.Name('__sim_yield_point__', ast.Load()), [], []))
                        out.append(ast.copy_location(call, st))
                    out.append(st)
                setattr(node, field, out)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_Insert().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['__sim_yield_point__'] = sim_yield_point
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname not in TARGETS:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin:
            return None
        return importlib.util.spec_from_file_location(fullname, spec.origin, loader=_Loader(fullname, spec.origin))


def install(repo):
    sys.meta_path.insert(0, _Finder())
