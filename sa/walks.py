"""Recursive walks over possibly shared or self-containing structure: which functions take part, which record of visited
nodes each passes on, and under which guard each recursive step happens."""
import ast
from .engine import *
from .model import FuncInfo, dotted


def params(f):
    a = f.node.args
    return [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]


def free_params(f):
    """parameters of f without the receiver"""
    p = params(f)
    return p[1:] if f.cls is not None and f.kind in ("method", "classmethod", "bothmethod") and p else p


def is_id(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "id"


def has_id(n, ids):
    return any(is_id(x) or (isinstance(x, ast.Name) and x.id in ids) for x in ast.walk(n))


def direct_records(f):
    """names used in f as a record of visited ids: `id(..) in NAME`, `NAME.add(id(..))`, `NAME[id(..)]`"""
    ids = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and has_id(n.value, ()) and not isinstance(n.value, (ast.List, ast.Dict)):
            for t in n.targets:
                if isinstance(t, ast.Name) and (is_id(n.value) or isinstance(n.value, ast.Tuple)):
                    ids.add(t.id)
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and has_id(n.left, ids):
            out.add(dotted(n.comparators[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append", "setdefault", "get") and n.args and has_id(n.args[0], ids):
            out.add(dotted(n.func.value))
        if isinstance(n, ast.Subscript) and has_id(n.slice, ids):
            out.add(dotted(n.value))
    out.discard(None)
    return out


class Walk(object):
    """one function taking part in a walk"""
    def __init__(self, f, rec, nested=False):
        self.f, self.rec, self.nested = f, rec, nested
        self.name = f.name

    def label(self):
        return self.f.short()


class Walks(object):
    def __init__(self, prog):
        self.prog = prog
        funcs = [f for f in prog.functions if f.prop in (None, "get")]
        self.walks = {}       # FuncInfo -> Walk
        # 1. functions that test or register ids in one of their own parameters
        for f in funcs:
            for r in sorted(direct_records(f)):
                if r in free_params(f):
                    self.walks[f] = Walk(f, r)
        # 2. functions of the same name and parameter list (overrides), and functions that pass a parameter on as a record
        changed = True
        while changed:
            changed = False
            by = {}
            for w in self.walks.values():
                by.setdefault(w.name, []).append(w)
            for f in funcs:
                if f in self.walks:
                    continue
                r = None
                if f.cls is not None and f.name != "__init__":
                    for w in by.get(f.name, ()):
                        if w.f.cls is not None and w.rec in free_params(f):
                            r = w.rec
                if r is None:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Call):
                            r = self.passed(n, by, f) or r
                if r is not None:
                    self.walks[f] = Walk(f, r)
                    changed = True
        # 3. nested functions that call themselves and record ids in a variable of the enclosing function
        for f in funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.FunctionDef) and n is not f.node:
                    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n.name for x in ast.walk(n)):
                        g = FuncInfo(n.name, n, f.module, None, "function")
                        g.qual = f.qual + "." + n.name
                        rs = [r for r in sorted(direct_records(g)) if r.isidentifier()]
                        w = Walk(g, rs[0] if rs else None, nested=True)
                        w.outer = f
                        self.walks[g] = w
        self.names = set(w.name for w in self.walks.values())

    def passed(self, call, by, f):
        nm = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None
        cands = list(by.get(nm, ()))
        if not cands:
            d = dotted(call.func)
            c = self.prog.resolve_dotted(f.module, d) if d else None
            init = c.find("__init__") if hasattr(c, "find") else None
            if init in self.walks:
                cands = [self.walks[init]]
        for w in cands:
            a = argument(w, call, [x for x in call.args], [(k.arg, k.value) for k in call.keywords])
            if isinstance(a, ast.Name) and a.id in free_params(f):
                return a.id
        return None


def argument(w, call, pos, kws, staticself=False):
    """the argument a call passes for the record of w"""
    for k, v in kws:
        if k == w.rec:
            return v
    ps = free_params(w.f)
    if w.rec in ps:
        i = ps.index(w.rec)
        if i < len(pos) and not any(isinstance(x, ast.Starred) for x in pos if isinstance(x, ast.AST)):
            return pos[i]
    return None
