"""State fields of the array classes, which of them are derived from which (caches and validity flags), read off the source."""
import ast
from .model import dotted


def array_classes(prog):
    return [c for c in sorted(prog.classes.values(), key=lambda c: c.qualname)
            if c.issub("AwkwardArray") and c.qualname not in ("AwkwardArray", "AwkwardArrayWithContent")]


def effective(c):
    """functions an object of class c runs through ordinary member access"""
    out, names = [], set()
    for k in c.mro():
        for tab in (k.methods, k.setters):
            for n, f in tab.items():
                key = (n, tab is k.setters)
                if key not in names:
                    names.add(key)
                    out.append(f)
    return out


def selfname(f):
    a = f.node.args.args
    return a[0].arg if f.cls is not None and f.kind in ("method", "bothmethod") and a else None


def stores(f, name=None):
    """fields assigned through `self` (attribute stores, also in tuple targets)"""
    name = name or selfname(f)
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
            out.add(n.attr)
    return out


def loads(f, name=None):
    name = name or selfname(f)
    return set(n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == name)


class Fields(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo, self.dmemo, self.perelement = {}, {}, set()

    def of(self, c):
        """instance fields of class c: private names assigned through self by code that runs on its objects"""
        if c.qualname not in self.memo:
            st = set()
            for k in c.mro():
                for tab in (k.methods, k.setters):
                    for f in tab.values():
                        if selfname(f):
                            st |= stores(f)
            rd = set()
            for f in effective(c):
                if selfname(f):
                    rd |= loads(f)
            self.memo[c.qualname] = sorted(x for x in st & rd if x.startswith("_") and not x.startswith("__") and not c.class_attr(x))
        return self.memo[c.qualname]

    def arrays(self, c):
        """fields holding arrays (or collections of arrays): the ones the layout descends into"""
        f = c.find("_util_layout")
        out = set()
        if f is not None and selfname(f):
            alias = {}
            for n in ast.walk(f.node):
                if isinstance(n, (ast.For, ast.comprehension)):
                    fl = set(x.attr for x in ast.walk(n.iter) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname(f))
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            alias.setdefault(x.id, set()).update(fl)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or "").endswith("LayoutNode") and n.args:
                    for x in ast.walk(n.args[0]):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname(f):
                            out.add(x.attr)
                        elif isinstance(x, ast.Name):
                            out |= alias.get(x.id, set())
        return out

    def init_params(self, c):
        f = c.find("__init__")
        return [a.arg for a in f.node.args.args[1:]] if f is not None else []

    def reads(self, f, c, seen=None):
        """fields of self that f reads, directly or through properties and methods of the same object"""
        seen = set() if seen is None else seen
        if f in seen:
            return set()
        seen.add(f)
        out = set()
        for a in loads(f):
            g = c.find(a)
            if g is not None and selfname(g) and g.module.name.startswith(f.module.name.split(".")[0]):
                out |= self.reads(g, c, seen)
            elif a.startswith("_") and g is None:
                out.add(a)
        return out

    def tests(self, f):
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                for x in ast.walk(n.test):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == selfname(f):
                        out.add(x.attr)
        return out

    def derived(self, c):
        """{derived field: set of structural fields it is computed from} for objects of class c"""
        if c.qualname in self.dmemo:
            return self.dmemo[c.qualname]
        from .engine import Engine, T, SELF, is_const, Term
        fs = set(self.of(c))
        params = set("_" + p for p in self.init_params(c))
        out, calls = {}, {}
        for f in effective(c):
            if not selfname(f) or f.name in ("__init__", "copy", "deepcopy") or f in c_setters(c):
                continue
            if f.kind == "method" and any(isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and self_attr(n.targets[0].value, f) in fs - params for n in ast.walk(f.node)):
                # a cache per element: self.d[i] = ... self.S[i] ...
                eng = Engine(self.prog, opaque=OPAQUE, inline_filter=lambda g, caller: False)
                for ev in eng.summary(f, c).events:
                    if ev.kind == "setitem" and ev.term.op == "attr" and ev.term.args[0] is SELF and ev.term.args[1] in fs - params and isinstance(ev.extra[1], Term):
                        got = set(x.args[1] for x in ev.extra[1].walk() if x.op == "attr" and x.args[0] is SELF and x.args[1] in fs) - {ev.term.args[1]}
                        got -= set(x.args[1] for x in ev.extra[0].walk() if x.op == "attr" and x.args[0] is SELF)
                        if got:
                            out.setdefault(ev.term.args[1], set()).update(got)
                            self.perelement.add((c.qualname, ev.term.args[1]))
            st = stores(f) & fs - params
            if not st:
                continue
            tested = self.tests(f)
            for g in effective(c):
                if selfname(g) and g.name not in ("copy", "deepcopy") and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and isinstance(n.func.value, ast.Name)
                                                                             and n.func.value.id == selfname(g) for n in ast.walk(g.node)):
                    tested |= self.tests(g)     # filled by a helper of the function that looks
            cand = st & tested
            if not cand:
                continue
            eng = Engine(self.prog, opaque=OPAQUE, inline_filter=lambda g, caller: g.kind == "method")
            for o in eng.summary(f, c).returns:
                for d in cand:
                    v = o.state.heap.get((SELF, d))
                    if v is None or v is T("attr", SELF, d):
                        continue
                    if is_const(v):
                        if v.args[1] == "True":
                            out.setdefault(d, set()).update(self.reads(f, c) | self.arrays(c))      # a validity flag vouches for everything that was looked at
                        continue
                    made = [x for x in v.walk() if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[0] is SELF and x.args[0].args[1] in fs]
                    if made:        # made by a user-supplied callable: a function of that callable and what it is given
                        calls.setdefault(d, set()).update(x.args[1] for m in made for x in m.walk() if x.op == "attr" and x.args[0] is SELF and x.args[1] in fs)
                        continue
                    got = set(x.args[1] for x in v.walk() if x.op == "attr" and x.args[0] is SELF and x.args[1] in fs)
                    for x in v.walk():
                        if x.op == "attr" and x.args[0] is SELF and x.args[1] not in fs:
                            g = c.find(x.args[1])
                            if g is not None and selfname(g):
                                got |= self.reads(g, c) & fs if x.args[1] not in OPAQUE else set()
                    if got:
                        out.setdefault(d, set()).update(got)
        out.update(calls)
        ds = set(out)
        r = {}
        for d in out:
            seen, todo = set(), set(out[d])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in ds and x != d and not x == "_isvalid":
                    todo |= out[x]
            r[d] = sorted((seen & fs) - ds)
        self.dmemo[c.qualname] = r
        return r


def self_attr(n, f):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == selfname(f) else None


OPAQUE = {"_valid", "_util_toarray", "_util_deepcopy", "_util_isinteger", "_util_isintegertype", "_util_isstringslice", "type", "_gettype"}


def c_setters(c):
    out = set()
    for k in c.mro():
        out |= set(k.setters.values())
    return out
