"""C06: no operation leaves a cached or derived field, or a validity flag, describing structure that has been replaced.

sa/fields.py reads off, per array class, which fields are derived from which (offsets/counts/parents/inverse/dtype caches, the
_isvalid flag, a virtual array's materialization).  Every function that can run on objects of the class is interpreted; on every
returning path, for every object it rebinds structural fields of, each dependent field must have been recomputed or reset too.
"""
import ast
from sa.engine import *
from sa.fields import Fields, array_classes, effective, selfname
from sa.report import Report
from sa.model import dotted

RULE = ("dependency analysis between structural and derived fields (read off the getters and _valid), then, on every path of every "
        "function, a rebinding of a structural field must be accompanied by a recomputation or reset of each field derived from it")
ASSUMPTIONS = ("value-preserving rebinding is recognised for deep copies, reshape of the same array, pandas views of the content and "
               "column projection; in-place growth of ChunkedArray.chunksizes is covered by the length test in the offsets getter",)
OPAQUE = {"_util_toarray", "_util_deepcopy", "_util_isinteger", "_util_isintegertype", "type", "_gettype", "offsets2parents", "startsstops2parents",
          "counts2offsets", "parents2startsstops", "counts", "offsets", "parents", "flatten", "__getitem__", "invert", "tojagged", "concatenate",
          "_util_layout", "layout", "_broadcast", "offsetsaliased", "_util_isstringslice", "maybemixin"}
PRESERVING = {"_util_deepcopy", "reshape", "_topandas", "deepcopy", "flattentuple", "view"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "sort", "reverse"}


def strip(v):
    """the array a value-preserving expression keeps the values of"""
    while v.op == "call" and v.args[0].op == "attr":
        f = v.args[0]
        if f.args[1] == "_util_deepcopy" and len(v.args) >= 2:
            v = v.args[1]
        elif f.args[1] in PRESERVING:
            v = f.args[0]
        else:
            break
    return v


def kept(v, d):
    """the object whose value of field d (or a part of it) v still is"""
    v = strip(v)
    if v.op == "attr" and v.args[1] == d:
        return v.args[0]
    if v.op == "sub" or v.op == "call" and v.args[0] in (T("name", "list"), T("name", "tuple")) and len(v.args) == 2:
        return kept(v.args[0 if v.op == "sub" else 1], d)
    if v.op in ("and", "or", "ifexp"):
        for y in v.args:
            x = kept(y, d) if isinstance(y, Term) else None
            if x is not None:
                return x
    if v.op == "call" and v.args[0] is T("name", "getattr") and len(v.args) >= 3 and cstr(v.args[2]) == d:
        return v.args[1]
    if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] == "get" and len(v.args) >= 2 and cstr(v.args[1]) == d and v.args[0].args[0].op == "attr" and v.args[0].args[0].args[1] == "__dict__":
        return v.args[0].args[0].args[0]
    return None


def stringwhere(i, facts):
    """the path established that index i selects columns"""
    if cstr(i) is not None:
        return True
    for t, pol in facts:
        if not pol or not isinstance(t, Term):
            continue
        for x in ([t] + (list(t.args) if t.op in ("and",) else [])):
            if isinstance(x, Term) and x.op == "call" and i in x.args[1:]:
                n = x.args[0].args[1] if x.args[0].op == "attr" else x.args[0].args[0] if x.args[0].op == "name" else ""
                if n == "_util_isstringslice" or n == "isinstance" and "str" in show(x.args[-1]):
                    return True
    return False


def column(i, facts):
    return stringwhere(i, facts) or i.op in ("elem", "param")


def same(v, x, S, facts):
    """v holds the values of x.S"""
    if v is None:
        return True
    src = T("attr", x, S)
    if v is src or strip(v) is src:
        return True
    if v.op == "phi":
        return all(same(y, x, S, facts) for y in v.args)
    if v.op == "comp" and len(v.args) >= 3:         # element-wise value-preserving rebuild of a list of arrays
        e = strip(v.args[1])
        alts = e.args if e.op == "phi" else (e,)
        return all(strip(a).op == "elem" and strip(a).args[0] in (src, T("call", T("name", "list"), src)) for a in alts)
    if v.op == "call" and v.args[0] is T("name", "list") and len(v.args) == 2:
        return same(v.args[1], x, S, facts)
    if v.op == "sub" and v.args[0] is src:
        return stringwhere(v.args[1], facts)
    if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] == "__getitem__" and v.args[0].args[0] is src and len(v.args) > 1:
        return stringwhere(v.args[1], facts)
    if v.op == "mix" or v.size > 80:
        return None
    return False


def only_internal(prog, f):
    """a private helper that is only called through an object of its own family: judged inside its callers"""
    if not f.name.startswith("_") or f.name.startswith("__") or f.kind != "method":
        return False
    for g in prog.functions:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and g is not f:
                return True
    return False


def rebinds(f, names):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (n.attr in names):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
            return True
        if isinstance(n, ast.Attribute) and n.attr == "__dict__":
            return True
    return False


def writes_items(f):
    return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(f.node))


def run(prog):
    rep = Report("C06", RULE)
    F = Fields(prog)
    done = set()
    for c in array_classes(prog):
        dep = {d: set(s) for d, s in F.derived(c).items() if s}
        if not dep:
            continue
        for d in dep:
            rep.count("derived fields")
            rep.count("dependencies", len(dep[d]))
            rep.samples.append("%s.%s <- %s" % (c.qualname, d, ", ".join(sorted(dep[d]))))
        structural = set().union(*dep.values())
        names = structural | set(s.lstrip("_") for s in structural) | set(dep)
        guarded = guards(c, dep)
        for f in sorted(set(effective(c)), key=lambda f: (f.module.relpath, f.node.lineno)):
            # direct rebinding only: what a callee rebinds is judged in the callee
            if f.name == "__init__" or not rebinds(f, names | set(n for n in ("__init__",))):
                if f.name != "__init__" and not (any(k == c.qualname for k, d in F.perelement) and writes_items(f)):
                    continue
            if only_internal(prog, f):
                continue
            rep.count("functions")
            eng = Engine(prog, opaque=OPAQUE - {f.name}, max_returns=40)
            s = eng.summary(f, c)
            where = "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short())
            for o in s.returns:
                heap = o.state.heap
                bases = set(b for b, a in heap if a in names)
                for b in bases:
                    k = cls_of(prog, b, c, f)
                    if k is None:
                        rep.count("rebindings on objects of unknown class (not judged)")
                        continue
                    kd = {d: set(x) for d, x in F.derived(k).items() if x} if k is not c else dep
                    for d, ss in kd.items():
                        v = heap.get((b, d))
                        if v is None and b.op == "new" and (b, "__dict__") in heap:
                            v = T("attr", heap[(b, "__dict__")], d)
                        if f.name == "__init__" and b is SELF and v is None:
                            rep.bad("never-set", "%s.%s|%s" % (k.qualname, f.name, d), where, "%s.__init__ leaves %s unset" % (k.qualname, d))
                            continue
                        x = None
                        if v is None:
                            x = b if b.op != "new" else None
                        else:
                            x = kept(v, d)
                        if x is None:
                            rep.count("recomputed or reset")
                            rep.ok()
                            continue
                        for S in sorted(ss):
                            nv = heap.get((b, S))
                            if nv is None and b is x:
                                continue
                            if nv is None:
                                continue
                            r = same(nv, x, S, o.state.facts)
                            rep.count("dependent pairs judged")
                            if r is None:
                                rep.count("too large to judge")
                                continue
                            rep.check(r, "stale", "%s|%s|%s" % (name(f, k), d, S), where,
                                      "%s gives %s the value %s but keeps %s, which was computed from the old one" % (f.short(), S, show(nv)[:100], d))
            for d in sorted(x for k, x in F.perelement if k == c.qualname and x in dep):
                # a column is assigned or removed inside an element of S: the cached description of that element goes too
                for ev in s.events:
                    if ev.kind not in ("setitem", "delitem") or ev.func is not f or ev.term.op not in ("elem", "sub"):
                        continue
                    src = [x for x in ev.term.walk() if x.op == "attr" and x.args[0] is SELF and x.args[1] in dep[d]]
                    if not src or not column(ev.extra[0], ev.facts):
                        continue
                    upd = any(e.kind == "setitem" and e.term is T("attr", SELF, d) for e in s.events)
                    ok = upd or all((SELF, d) in o.state.heap and kept(o.state.heap[(SELF, d)], d) is None for o in s.returns)
                    rep.count("element column updates")
                    rep.check(ok, "stale-element", "%s|%s" % (name(f, c), d), ev.where, "%s changes a column of an element of %s but keeps %s" % (f.short(), src[0].args[1], d))
            for ev in s.events:
                if ev.kind not in ("mutcall", "setitem", "delitem") or ev.term.op != "attr" or ev.term.args[1] not in structural:
                    continue
                if ev.kind == "mutcall" and ev.extra[0] not in MUTATORS:
                    continue
                if ev.func is not f:
                    continue
                b, S = ev.term.args
                if ev.kind == "setitem" and stringwhere(ev.extra[0], ev.facts):
                    continue
                k = cls_of(prog, b, c, f)
                if k is not c:
                    continue
                for d, ss in dep.items():
                    if S in ss and (d, S) not in guarded and d != "_isvalid":
                        if (c.qualname, d) in F.perelement and any(e.kind == ev.kind and e.term is T("attr", b, d) and (ev.kind != "mutcall" or e.extra[0] == ev.extra[0]) for e in s.events):
                            continue        # the list of per-element descriptions is changed in step
                        ok = all((b, d) in o.state.heap and not (strip(o.state.heap[(b, d)]) is T("attr", b, d)) for o in s.returns)
                        rep.check(ok, "stale-in-place", "%s|%s|%s" % (name(f, c), d, S), ev.where, "%s changes %s in place but keeps %s" % (f.short(), S, d))
    rep.floor("functions", 30)
    rep.floor("dependencies", 15)
    rep.floor("dependent pairs judged", 5)
    return rep


def name(f, k):
    n = f.qual.split(".")[-1]
    return "%s.%s%s" % (k.qualname, n, ".setter" if f.kind == "setter" or any(f is x for c in k.mro() for x in c.setters.values()) else "")


def cls_of(prog, b, c, f):
    if b is SELF:
        return c
    if b.op == "new" and len(b.args) > 1:
        t = b.args[1]
        if t.op == "classof" and t.args[0] is SELF or t.op == "param" and t.args[0] in ("cls", "cls_or_self"):
            return c
        if t.op == "class":
            return prog.classes.get(t.args[0])
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "maybemixin" and len(t.args) > 1:
            return cls_of(prog, T("new", 0, t.args[-1]), c, f)
        if t.op == "classof" and isinstance(t.args[0], Term):
            return cls_of(prog, t.args[0], c, f)
    return None


def guards(c, dep):
    """(d, S) such that the getter of d itself notices in-place growth of S: it compares their lengths before using d"""
    out = set()
    for f in effective(c):
        s = selfname(f)
        if not s:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare):
                got = set(x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s)
                lens = any(isinstance(x, ast.Call) and (dotted(x.func) or "") == "len" for x in ast.walk(n))
                for d, ss in dep.items():
                    if lens and d in got:
                        for S in ss & got:
                            out.add((d, S))
    return out
