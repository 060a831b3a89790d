"""C09: rows and columns of a table view are those of the table viewed.

Every function that handles table columns is interpreted symbolically; each column taken from a table's contents must be seen
through that table's view exactly once before it is returned, yielded, stored or handed to a result table, unless the result
carries the same view.  The view arithmetic itself (_newslice, _index, _length, rows) is compared, path by path, with the
position it must denote, as polynomials in (start, step, length).
"""
import ast
from sa.engine import *
from sa.model import AnalysisBroken, FuncInfo
from sa.report import Report

RULE = ("view typestate of columns (raw / viewed once) from the contents of a table to every result, per path; polynomial comparison of the "
        "view arithmetic; refusal of column changes on views")
ASSUMPTIONS = ("basic slices and integer indexes select as in Python and numpy",)

OPAQUE = {"_index", "_length", "_newslice", "copy", "empty_like", "__getitem__", "__setitem__", "_util_toarray", "_valid", "__len__", "_checkiter",
          "_getnbytes", "_gettype", "_util_layout", "maybemixin", "named", "frompairs", "_mapcolumns", "recurse", "zip", "tojagged", "_tojagged"}
META = {"dtype", "shape", "nbytes", "ndim", "itemsize", "__class__", "size"}
METAFN = {"isinstance", "len", "type", "id", "hasattr", "issubclass", "callable", "set", "sorted"}
METAMETH = {"_getnbytes", "_gettype", "_util_layout", "_hasjagged", "_util_hasjagged", "_fromarray", "_util_columns", "_util_columns_descend",
            "fromarray", "LayoutNode", "_checkiter", "_topandas_name"}
FRESH = {"empty_like", "named", "fromrec", "frompairs", "_mapcolumns", "zeros_like", "ones_like"}


def items(facts):
    return facts.items() if hasattr(facts, "items") else facts


def holder(t):
    """the table whose contents t is"""
    return t.args[0] if t.op == "attr" and t.args[1] in ("_contents", "contents") else None


def column(t):
    if t.op == "sub":
        X = holder(t.args[0])
        if X is not None and t.args[1].op != "slice":
            return X
        if t.args[0].op == "call" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == "values" and is_const(t.args[1]):
            return holder(t.args[0].args[0].args[0])
    if t.op == "val":
        return holder(t.args[0])
    if t.op == "elem" and t.args[0].op == "call" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] in ("values", "itervalues"):
        return holder(t.args[0].args[0].args[0])
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("get", "pop") and len(t.args) > 1:
        return holder(t.args[0].args[0])
    return None


def method(t):
    return t.args[0].args[1] if t.op == "call" and t.args[0].op == "attr" else None


def fresh(X):
    return X.op in ("new", "dict0", "list0") or method(X) in FRESH or X.op == "call" and X.args[0].op in ("class", "clsattr") \
        or X.op == "call" and X.args[0].op == "attr" and X.args[0].args[1] in ("Table", "__class__")


def rowof(t):
    """R when t is the table of row R (or, still seen through its view, a column of it)"""
    while True:
        if t.op == "attr" and t.args[1] == "_table":
            return t.args[0]
        if t.op == "sub" or method(t) == "copy":
            t = t.args[0] if t.op == "sub" else t.args[0].args[0]
        else:
            return None


def viewindex(i, X):
    lens = set()
    for x in i.walk():
        if x.op == "call" and x.args[0] is T("name", "len") and len(x.args) == 2:
            lens.add(x.args[1])
    for x in i.walk():
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("_index", "_newslice") and x.args[0].args[0] is X:
            return True
        if x.op == "attr" and x.args[1] == "_view" and x.args[0] is X and x not in lens:
            return True
        if X.op == "attr" and X.args[1] == "_table" and x.op == "attr" and x.args[1] == "_index" and x.args[0] is X.args[0]:
            return True
    return False


def scan(t, out, depth=0):
    """('raw'|'viewed', table) for every column that t holds data of"""
    if not isinstance(t, Term) or depth > 60:
        return
    if t.op == "mix":
        out.add(("mix", t))
        return
    X = column(t)
    if X is not None:
        out.add(("raw", X))
        return
    if t.op == "sub":
        X = column(t.args[0])
        if X is not None and viewindex(t.args[1], X):
            out.add(("viewed", X))
            return
    if t.op == "attr" and t.args[1] in META:
        return
    if t.op == "call":
        f = t.args[0]
        if f.op == "name" and f.args[0].split(".")[-1] in METAFN | METAMETH or f.op == "attr" and f.args[1] in METAMETH:
            return
        if f.op == "attr" and f.args[1] in ("items", "keys", "values") and holder(f.args[0]) is not None:
            return
        if f.op == "param" and f.args[0] == "serializer":
            return
        if f.op == "attr" and f.args[1] == "copy" and any(k.op == "kw" and k.args[0] == "contents" for k in t.args[1:]):
            inner = set()
            for k in t.args[1:]:
                scan(k.args[1] if k.op == "kw" else k, inner, depth + 1)
            out |= set((k, X) for k, X in inner if not sameview(X, f.args[0]))
            return
    if t.op == "comp":
        scan(t.args[1], out, depth + 1)
        return
    if t.op in ("key", "not", "classof"):
        return
    for k in t.kids():
        scan(k, out, depth + 1)


def scanned(t):
    s = set()
    scan(t, s)
    return s


def noview(X, facts):
    v = T("attr", X, "_view")
    for k, b in items(facts):
        if b is True and k.op == "cmp" and k.args[0] == "is" and v in k.args[1:] and NONE in k.args[1:]:
            return True
    return fresh(X)


def nottable(X, facts, c):
    """X is known to be something else than a table"""
    for k, b in items(facts):
        if k.op == "call" and k.args[0] is T("name", "isinstance") and len(k.args) == 3 and k.args[1] is X:
            if b is True and "Table" not in show(k.args[2]):
                return True
            if b is False and show(k.args[2]).endswith("Table"):
                return True
    return False


def carries(Y, heap, depth=0):
    """tables whose view the object Y has; None if unknown"""
    v = heap.get((Y, "_view"))
    if v is not None:
        if v is NONE:
            return set()
        out = set()
        for x in v.walk():
            if x.op == "attr" and x.args[1] == "_view":
                out.add(x.args[0])
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "_newslice":
                out.add(x.args[0].args[0])
            if x.op == "attr" and x.args[1] == "_index" and x.args[0].op != "call":
                out.add(T("attr", x.args[0], "_table"))
        return out
    if method(Y) in ("copy", "__copy__") and depth < 5:
        return carries(Y.args[0].args[0], heap, depth + 1)
    if fresh(Y) or method(Y) == "deepcopy":
        return set()
    if Y.op in ("param", "attr", "sub", "elem", "val"):
        return {Y}
    return None


class Poly(object):
    @staticmethod
    def of(t):
        if t.op == "const" and t.args[0] == "int":
            n = const_value(t)
            return {(): n} if n else {}
        if t.op == "bin" and t.args[0] in "+-*" and len(t.args) == 3:
            a, b = Poly.of(t.args[1]), Poly.of(t.args[2])
            return Poly.add(a, b) if t.args[0] == "+" else Poly.add(a, Poly.scale(b, -1)) if t.args[0] == "-" else Poly.mul(a, b)
        if t.op == "un" and t.args[0] == "-":
            return Poly.scale(Poly.of(t.args[1]), -1)
        if t.op == "call" and t.args[0] is T("name", "int") and len(t.args) == 2:
            return Poly.of(t.args[1])
        return {(t,): 1}

    @staticmethod
    def add(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + v
            if out[k] == 0:
                del out[k]
        return out

    @staticmethod
    def scale(a, n):
        return {k: v * n for k, v in a.items()}

    @staticmethod
    def mul(a, b):
        out = {}
        for k, v in a.items():
            for m, w in b.items():
                kk = tuple(sorted(k + m, key=lambda t: t._h))
                out = Poly.add(out, {kk: v * w})
        return out


def at_view(idx, S, ST):
    """idx == S + ST*h as polynomials, for some h free of S and ST: h as polynomial, else None"""
    rest = Poly.add(Poly.of(idx), {(S,): -1})
    h = {}
    for k, v in rest.items():
        if list(k).count(ST) != 1 or S in k:
            return None
        kk = list(k)
        kk.remove(ST)
        h[tuple(kk)] = v
    return h


class Tables(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.table = prog.classes.get("Table")
        self.row = next((c for c in prog.classes.values() if c.qualname.split(".")[-1] == "Row"), None)
        if self.table is None or self.row is None:
            raise AnalysisBroken("no Table / Row class")

    # -------------------------------------------------------- which functions
    def targets(self):
        out = []
        ts = [c for c in self.prog.classes.values() if self.table in c.mro()]
        for f in self.prog.functions:
            uses = any(isinstance(n, ast.Attribute) and n.attr in ("_contents", "contents", "_view") for n in ast.walk(f.node))
            rows = any(isinstance(n, ast.Attribute) and n.attr in ("Row", "_table") for n in ast.walk(f.node))
            if not uses and not rows:
                continue
            c = f.cls
            if f.prop is not None and f.name in ("_contents",):
                continue
            if c is not None and c is not self.row and c not in ts and "_contents" in set(n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store)):
                own = True      # e.g. UnionArray: self.contents is not a table's
            else:
                own = False
            out.append((f, c, own))
        for m in self.prog.modules.values():          # nested functions
            known = set(id(f.node) for f in self.prog.functions)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and id(n) not in known and any(
                        isinstance(x, ast.Attribute) and x.attr in ("_contents", "contents") for x in ast.walk(n)):
                    out.append((FuncInfo(n.name, n, m, None, "function"), None, False))
        return out

    def run(self):
        rep = self.rep
        for f, c, own in self.targets():
            rep.count("functions")
            eng = Engine(self.prog, opaque=OPAQUE - ({f.name} if f.name not in ("copy",) else set()), keep_events=lambda e: True, max_returns=60)
            s = eng.summary(f, c)
            self.function(f, c, own, s)

    def skip(self, X, facts, f, c, own):
        if noview(X, facts) or nottable(X, facts, c):
            return True
        if own and X is SELF:
            return True
        if c is None or (c is not self.table and c is not self.row and self.table not in c.mro()):
            # elsewhere: only what is known to be a table
            Z = X
            while Z.op in ("sub", "elem") and Z.args[0].op == "comp":
                Z = Z.args[0].args[1]
            if Z.op == "attr" and Z.args[1] in ("_content", "content", "_table", "_base") or any(b is True and k.op == "call" and k.args[0] is T("name", "isinstance")
                                                                             and k.args[1] is X and "Table" in show(k.args[2]) for k, b in items(facts)):
                return False
            return True
        return False

    def function(self, f, c, own, s):
        rep = self.rep
        name = f.short()
        ser = f.params[1] if f.name == "__awkward_serialize__" and len(f.params) > 1 else None
        accessor = f.name in ("copy", "contents", "_index", "_length", "_newslice") or f.prop is not None

        def at(node):
            return "%s:%d (%s)" % (f.module.relpath, getattr(node, "lineno", f.node.lineno), name)

        # ---- columns reaching a result
        for o in s.returns:
            rep.count("paths")
            heap, facts = o.state.heap, o.state.facts
            objs = {}
            for (Y, fld), v in heap.items():
                objs.setdefault(Y, {})[fld] = v
            t = o.term
            if ser is None and t not in objs:
                if method(t) == "copy" and column(t) is None:
                    Xr = t.args[0].args[0]
                    for a in t.args[1:]:
                        if a.op == "kw" and a.args[0] in ("contents",):
                            self.into(a.args[1], t, heap, facts, f, c, own, at(o.node), name)
                elif not (t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("_util_deepcopy",)) and not accessor:
                    for kind, X in scanned(t):
                        if kind == "raw" and not self.skip(X, facts, f, c, own):
                            rep.bad("unviewed", name + "|return", at(o.node), "%s returns data of a column of %s without applying its view" % (name, show(X)))
                            break
                    else:
                        rep.ok()
            if accessor and f.name != "copy":
                continue
            for Y, flds in objs.items():
                if "_contents" in flds:
                    self.into(flds["_contents"], Y, heap, facts, f, c, own, at(o.node), name)
                if "_view" in flds and method(Y) == "copy" and Y.op == "call":
                    X = Y.args[0].args[0]
                    if self.skip(X, facts, f, c, own) or fresh(X):
                        continue
                    rep.count("views made")
                    v = flds["_view"]
                    if v is NONE:
                        V = flds.get("_contents")
                        ok = V is not None and not any(k == "raw" for k, x in scanned(V))
                        ok = ok or method(Y) == "copy" and V is None and any(a.op == "kw" and a.args[0] == "contents" and not scanned(a.args[1]) and node_empty(a.args[1]) for a in Y.args[1:])
                        rep.check(ok, "view-dropped", name, at(o.node), "%s makes a copy of %s without its view, but keeps the whole columns" % (name, show(X)))
                    elif f.kind in ("classmethod", "staticmethod") or X.op == "param" and X is not SELF:
                        continue        # given explicitly
                    else:
                        cs = carries(Y, heap)
                        rep.check(X in (cs or ()), "view-replaced", name, at(o.node), "%s gives a copy of %s another view that is not composed with its own" % (name, show(X)))
        for t, st, node in s.yields:
            if accessor:
                break
            for kind, X in scanned(t):
                if kind == "raw" and not self.skip(X, st.facts, f, c, own):
                    rep.bad("unviewed", name + "|yield", at(node), "%s yields data of a column of %s without applying its view" % (name, show(X)))
        # ---- stores and rows
        heaps = {}
        for o in s.returns:
            for k, v in o.state.heap.items():
                heaps.setdefault(k, v)
        rowdata = [(x, e.where, e.facts) for e in s.events for x in [e.term] + [y for y in (e.extra or ()) if isinstance(y, Term)]] + \
                  [(o.term, at(o.node), o.state.facts) for o in s.returns] + [(t, at(node), st.facts) for t, st, node in s.yields]
        rowdata += [(T("sub", e.term, e.extra[0]), e.where, e.facts) for e in s.events if e.kind == "subscript" and isinstance(e.extra[0], Term)]
        seen = set()
        for t, w, facts in rowdata:
            for x in t.walk():
                if x.op == "sub" and x not in seen:
                    seen.add(x)
                    R = rowof(x.args[0])
                    if R is not None and any(y is T("attr", R, "_index") for y in x.args[1].walk()):
                        rep.count("row accesses")
                        rep.bad("viewed-twice", name + "|row", w, "%s selects %s: a row's index is a position in the columns, not in the view" % (name, show(x)[:100]))
        for e in s.events:
            if e.kind == "setitem" and ser is None:
                idx, val = e.extra[0], e.extra[1]
                Y = e.term
                X = holder(Y)
                if X is not None and not (f.name in ("__setitem__", "__delitem__") and X is SELF):
                    self.into(val, X, heaps, e.facts, f, c, own, e.where, name)
                if Y.op.startswith("dict") or Y.op == "list0" or holder(Y) is not None or Y.op == "call" and show(Y.args[0]).endswith("Dict"):
                    continue
                for kind, X in scanned(val):
                    if kind == "raw" and not self.skip(X, e.facts, f, c, own):
                        rep.bad("unviewed", name + "|store", e.where, "%s stores data of a column of %s without applying its view" % (name, show(X)))
                cs = carries(Y, {}) or set()
                heapless = [X for X in cs if method(Y) == "copy" and X.op in ("param", "attr") and not show(X).startswith("lambda")
                            and (cstr(idx) is not None or any(x.op in ("key", "elem") and (holder(x.args[0]) or holder(x.args[0].args[0]) if x.args[0].kids() else None) for x in idx.walk()))]
                for X in heapless:
                    if not self.skip(X, e.facts, f, c, own) and not any(a[0] == Y and a[1] == "_view" for o in s.returns for a in o.state.heap):
                        rep.bad("assigns-to-view", name, e.where, "%s assigns columns to a copy of %s that still is a view, which is refused" % (name, show(X)))
            elif e.kind == "mutcall" and ser is None and e.extra and e.extra[0] in ("append", "extend", "insert", "add", "appendleft"):
                for a in e.extra[1].args:
                    for kind, X in scanned(a):
                        if kind == "raw" and not self.skip(X, e.facts, f, c, own):
                            rep.bad("unviewed", name + "|collect", e.where, "%s collects data of a column of %s without applying its view" % (name, show(X)))
            elif e.kind == "setattr" and e.extra[0] == "_view" and c is self.row and e.extra[1] is not NONE:
                rep.count("views made")
                rep.check(any(x.op == "attr" and x.args[1] == "_index" for x in e.extra[1].walk()), "view-arithmetic", name + "|row-view", e.where,
                          "%s views %s, which does not depend on the row's position" % (name, show(e.extra[1])[:80]))
            elif e.kind == "call":
                fn = e.term.args[0]
                if e.term.op == "call" and (fn.op == "attr" and fn.args[1] == "Row" or fn.op == "class" and fn.args[0].endswith("Row")) and len(e.term.args) == 3:
                    self.row_made(e, f, name)

    def into(self, V, Y, heap, facts, f, c, own, w, name):
        rep = self.rep
        self.joined(V, w, name)
        cs = carries(Y, heap)
        for kind, X in sorted(scanned(V), key=repr):
            if kind == "mix":
                rep.count("columns not followed")
                continue
            if self.skip(X, facts, f, c, own) and not (f.cls is self.table and not noview(X, facts)):
                continue
            if noview(X, facts):
                continue
            rep.count("columns followed")
            if cs is None:
                rep.count("columns not followed")
                continue
            same = X in cs or any(sameview(X, y) for y in cs)
            # a column of an inner table: the view of that table concerns it, not that of the outer one
            if kind == "raw":
                rep.check(same, "unviewed", name + "|contents", w, "%s puts whole columns of %s into a table that does not have its view" % (name, show(X)))
            else:
                rep.check(not same, "viewed-twice", name + "|contents", w, "%s puts columns already selected by the view of %s into a table that applies it again" % (name, show(X)))

    def joined(self, V, w, name):
        """columns of several tables put together: each clipped to the rows of its own table"""
        for x in V.walk():
            if x.op != "call" or x.args[0].op != "attr" or x.args[0].args[1] not in ("concatenate", "stack", "vstack", "hstack"):
                continue
            for y in x.walk():
                if y.op != "comp" or len(y.args) < 2 or not isinstance(y.args[1], Term):
                    continue
                e = y.args[1]
                X = holder(e.args[0]) if e.op == "sub" else None          # t._contents[n]: not clipped
                if e.op == "sub" and X is None and e.args[0].op == "elem" and e.args[0].args[0].op == "param" and e.args[1].op in ("elem", "key"):
                    X = e.args[0]                                         # t[n]: not clipped if the table is no view
                self.rep.check(X is None, "joined-unclipped", name + "|joined", w,
                               "%s puts columns of several tables together that can be longer than their tables: %s" % (name, show(e)[:120]))

    def row_made(self, e, f, name):
        rep = self.rep
        tab, idx = e.term.args[1], e.term.args[2]
        rep.count("rows made")
        if noview(tab, e.facts):
            rep.ok()
            return
        X = tab
        while method(X) == "copy":
            X = X.args[0].args[0]
        if viewindex(idx, X) or idx.op == "elem" and viewindex(idx.args[0], X):
            S, ST = T("sub", T("attr", X, "_view"), const(0)), T("sub", T("attr", X, "_view"), const(1))
            if S in set(idx.walk()) or ST in set(idx.walk()):
                rep.check(at_view(idx, S, ST) is not None, "view-arithmetic", name + "|row", e.where, "%s makes a row at %s, which is not start + step*i of the view" % (name, show(idx)[:100]))
            else:
                rep.ok()
            return
        rep.bad("unviewed", name + "|row", e.where, "%s makes a row of %s at %s, which is not a position of its view" % (name, show(tab)[:60], show(idx)[:60]))

    # -------------------------------------------------------- view arithmetic
    def arithmetic(self):
        rep = self.rep
        for c in self.prog.classes.values():
            if self.table not in c.mro():
                continue
            for fn in ("_newslice", "_index", "_length"):
                f = c.find(fn)
                if f is None:
                    raise AnalysisBroken("%s.%s not found" % (c.qualname, fn))
                eng = Engine(self.prog, opaque=(OPAQUE - {fn}), keep_events=lambda e: False, max_returns=200)
                s = eng.summary(f, c)
                for o in s.returns:
                    w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
                    getattr(self, "p" + fn)(o, f, w)
            for fn in ("__setitem__", "__delitem__"):
                f = c.find(fn)
                s = Engine(self.prog, opaque=OPAQUE - {fn}, keep_events=lambda e: True, max_returns=60).summary(f, c)
                for e in s.events:
                    if e.kind in ("setitem", "delitem", "setattr", "mutcall"):
                        t = e.term
                        if t is T("attr", SELF, "_contents") or e.kind == "setattr" and t is SELF and e.extra[0] == "_contents":
                            rep.count("column changes")
                            rep.check(noview(SELF, e.facts), "changes-view", "%s.%s" % (c.qualname, fn), e.where,
                                      "%s.%s changes the columns of a view (shared positions of the table viewed)" % (c.qualname, fn))

    def kindof(self, facts):
        V = T("attr", SELF, "_view")
        k = None
        for t, b in items(facts):
            if t.op == "cmp" and t.args[0] == "is" and V in t.args[1:] and NONE in t.args[1:] and b is True:
                return "none"
            if t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is V:
                isarr = "ndarray" in show(t.args[2])
                if b is True:
                    k = "array" if isarr else "tuple"
                elif k is None:
                    k = "tuple" if isarr else "array"
        return k

    def lengths(self, kind):
        V = T("attr", SELF, "_view")
        out = [T("call", T("attr", SELF, "_length")), T("call", T("name", "len"), SELF)]
        if kind == "tuple":
            out.append(T("sub", V, const(2)))
        elif kind == "array":
            out.append(T("call", T("name", "len"), V))
        return out

    def p_length(self, o, f, w):
        rep = self.rep
        rep.count("view paths")
        k = self.kindof(o.state.facts)
        t, V = o.term, T("attr", SELF, "_view")
        if k == "none":
            ok = t is const(0) or t.op == "call" and t.args[0].op == "name" and t.args[0].args[0] == "min"
            rep.check(ok, "view-arithmetic", "_length|none", w, "the length of a table is %s, not that of its shortest column" % show(t)[:80])
        elif k == "tuple":
            rep.check(t is T("sub", V, const(2)), "view-arithmetic", "_length|tuple", w, "the length of a (start, step, length) view is %s" % show(t)[:80])
        elif k == "array":
            rep.check(t is T("call", T("name", "len"), V) or t.op == "sub" and t.args[0] is T("attr", V, "shape"), "view-arithmetic", "_length|array", w, "the length of an index view is %s" % show(t)[:80])
        else:
            rep.bad("view-arithmetic", "_length|?", w, "the length does not depend on the kind of view")

    def p_index(self, o, f, w):
        rep = self.rep
        rep.count("view paths")
        k = self.kindof(o.state.facts)
        t, V = o.term, T("attr", SELF, "_view")
        S, ST, L = (T("sub", V, const(i)) for i in range(3))
        facts = dict(items(o.state.facts))

        def empty():
            return any(b is True and k.op == "cmp" and k.args[0] == "==" and const(0) in k.args[1:] and any(x in k.args[1:] for x in self.lengths("tuple"))
                       or b is False and k.op == "cmp" and k.args[0] == "<" and k.args[1] is const(0) and k.args[2] in self.lengths("tuple") for k, b in facts.items())

        def nonempty():
            return any(b is False and k.op == "cmp" and k.args[0] == "==" and const(0) in k.args[1:] and any(x in k.args[1:] for x in self.lengths("tuple"))
                       or b is True and k.op == "cmp" and k.args[0] == "<" and k.args[1] is const(0) and k.args[2] in self.lengths("tuple") for k, b in facts.items())
        sl = t.args if t.op == "slice" else None
        if t.op == "call" and t.args[0] is T("name", "slice"):
            a = t.args[1:]
            sl = (NONE, a[0], NONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else NONE)
        if k == "none":
            ok = sl is not None and sl[0] in (NONE, const(0)) and (sl[1] in self.lengths("none")) and sl[2] in (NONE, const(1))
            rep.check(ok, "view-arithmetic", "_index|none", w, "a table that is no view selects %s of its columns" % show(t)[:80])
        elif k == "tuple":
            if sl is None:
                # positions spelled out: arange(start, start + step*length, step)
                ok = t.op == "call" and method(t) == "arange" and self.spelled(t, S, ST, L)
            elif empty() and is_const(sl[0]) and sl[0] is sl[1]:
                ok = True
            else:
                want = {(S,): 1, tuple(sorted((ST, L), key=lambda x: x._h)): 1}
                stop_ok = sl[1] is not NONE and Poly.of(sl[1]) == want
                if sl[1] is NONE:
                    neg = any((b is True and q.op == "cmp" and q.args[0] == "<" and q.args[2] is const(0) and Poly.of(q.args[1]) == want)
                              or (b is False and q.op == "cmp" and q.args[0] == "<=" and q.args[1] is const(0) and Poly.of(q.args[2]) == want) for q, b in facts.items())
                    stop_ok = neg and nonempty()
                ok = sl[0] is S and sl[2] is ST and stop_ok
            rep.check(ok, "view-arithmetic", "_index|tuple", w, "a (start, step, length) view selects %s, which is not length elements from start by step" % show(t)[:120])
        elif k == "array":
            rep.check(t is V, "view-arithmetic", "_index|array", w, "an index view selects %s" % show(t)[:80])
        else:
            rep.bad("view-arithmetic", "_index|?", w, "what is selected does not depend on the kind of view")

    def spelled(self, t, S, ST, L):
        """numpy.arange(start, start + step*length, step)"""
        if method(t) != "arange" and not (t.op == "call" and t.args[0].op == "name" and t.args[0].args[0].split(".")[-1] == "arange"):
            return False
        a = [x for x in t.args[1:] if x.op != "kw"]
        return len(a) == 3 and a[0] is S and a[2] is ST and Poly.of(a[1]) == {(S,): 1, tuple(sorted((ST, L), key=lambda x: x._h)): 1}

    def p_newslice(self, o, f, w):
        rep = self.rep
        rep.count("view paths")
        facts = o.state.facts
        k = self.kindof(facts)
        t, V = o.term, T("attr", SELF, "_view")
        S, ST, L = (T("sub", V, const(i)) for i in range(3))
        head = T("param", f.params[1])
        if t.op == "tuple" and len(t.args) == 3:
            # (start, step, length) of a slice
            ind = [x for x in t.walk() if x.op == "call" and method(x) == "indices" and x.args[0].args[0] is head]
            ok = bool(ind) and all(len(x.args) == 2 and x.args[1] in self.lengths(k) for x in ind)
            rep.check(ok, "view-arithmetic", "_newslice|indices", w, "a slice of a view is not resolved against the view's own length")
            if not ok:
                return
            i = ind[0]
            a, b = T("sub", i, const(0)), T("sub", i, const(2))
            if k == "none":
                rep.check(t.args[0] is a and t.args[1] is b, "view-arithmetic", "_newslice|slice|none", w, "a slice of a table starts at %s with step %s" % (show(t.args[0])[:60], show(t.args[1])[:60]))
            elif k == "tuple":
                h = at_view(t.args[0], S, ST)
                st = Poly.of(t.args[1]) == Poly.mul({(ST,): 1}, {(b,): 1})
                rep.check(h == {(a,): 1} and st, "view-arithmetic", "_newslice|slice|tuple", w,
                          "a slice of a view starts at %s with step %s: not the view's own start and step composed with the slice's" % (show(t.args[0])[:90], show(t.args[1])[:60]))
            else:
                rep.bad("view-arithmetic", "_newslice|slice|array", w, "a slice of an index view is made into a (start, step, length) view")
            ln = t.args[2]
            used = set(ln.walk())
            stp = T("sub", i, const(1))
            zero = ln is const(0) or ln.op == "call" and const(0) in ln.args
            rep.check(zero or a in used and stp in used and b in used or T("call", T("name", "len"), T("call", T("name", "range"), a, stp, b)) in used, "view-arithmetic", "_newslice|slice|length", w,
                      "the length of a slice does not depend on its start, stop and step")
            return
        # integers, index arrays, masks
        inner = None
        if k == "none":
            inner = t
        elif k == "array":
            inner = t.args[1] if t.op == "sub" and t.args[0] is V else None
        elif k == "tuple":
            if t.op == "sub" and t.args[0].op == "call" and self.spelled(t.args[0], S, ST, L):
                inner = t.args[1]
            else:
                h = at_view(t, S, ST)
                if h is not None:
                    inner = T("tuple", *sorted([x for m in h for x in m], key=lambda x: x._h))
        if inner is None or head not in set(inner.walk()):
            rep.bad("view-arithmetic", "_newslice|%s" % k, w, "a position of a %s view is translated to %s" % (k, show(t)[:120]))
            return
        rep.ok()
        slicey = any(b is True and q.op == "call" and q.args[0] is T("name", "isinstance") and q.args[1] is head and show(q.args[2]) == "slice" for q, b in items(facts))
        if k == "array" and slicey:
            return           # numpy resolves slices of the index itself
        if k == "none" and inner.op == "sub" or k != "none" and False:
            pass
        bounded = False
        for q, b in items(facts):
            ts = set(q.walk())
            if head in ts and any(l in ts for l in self.lengths(k)) and (q.op in ("cmp", "call", "not", "and", "or")):
                bounded = True
        rep.check(bounded, "view-unbounded", "_newslice|%s" % k, w, "a position is not compared with the length of the view, so rows outside the view can be reached")
        # negative positions count from the end of the view
        for q, b in items(facts):
            if q.op == "cmp" and q.args[0] == "<" and q.args[2] is const(0) and (q.args[1] is head) and b is True:
                ok = any(Poly.of(x) == {(head,): 1, (l,): 1} for x in T("tuple", inner, t).walk() for l in self.lengths(k)) or any(
                    m == (head,) for m in (at_view(t, S, ST) or {})) and any((l,) in (at_view(t, S, ST) or {}) for l in self.lengths(k))
                rep.check(ok, "view-arithmetic", "_newslice|negative|%s" % k, w, "a negative position is translated to %s: not counted from the end of the view" % show(t)[:100])


def sameview(X, Y):
    while method(X) == "copy":
        X = X.args[0].args[0]
    while method(Y) == "copy":
        Y = Y.args[0].args[0]
    return X is Y


def node_empty(t):
    return t.op in ("dict0", "dict", "list", "list0", "tuple") and not t.kids() or t.op == "call" and t.args[0].op == "name" and t.args[0].args[0].split(".")[-1] in ("dict", "OrderedDict") and len(t.args) == 1


def run(prog):
    rep = Report("C09", RULE)
    tb = Tables(prog, rep)
    tb.run()
    tb.arithmetic()
    for n, m in (("functions", 25), ("view paths", 20), ("rows made", 4), ("column changes", 4), ("columns followed", 3)):
        rep.floor(n, m)
    return rep
