"""C18: structure is applied to the content it describes, whatever the layout.

Every method of the array classes is interpreted abstractly on an array in general position: its structure arrays and its content have
symbolic index spaces (the array's own elements, the positions of its content, its flattened elements, the reach of its structure, ...)
which are all different, as they are for a valid array with gaps, unreachable content, an over-long index or stops, or sublists out of order.
Elementwise operations, selections by mask or by position, assignments and constructions that combine two spaces known to be different are
reported, with the construct and the path.
"""
import ast
from sa.model import AnalysisBroken, ClassInfo
from sa.interp import Hooks, Tok, Inst, ClsRef, Fn, Ext, Meth, Lam, PyDict, PyList, Star, Raise, Undecided, deps, paths
from sa.spaces import Spaces, Space
from sa.report import Report

RULE = ("index-space inference (symbolic row spaces with unification) by abstract interpretation of every method on arrays in general position; the spaces are compared at every "
        "elementwise operation, selection, masked assignment, construction and at the results of methods with one value per element")
ASSUMPTIONS = ("numpy functions combine, select and repeat rows as documented", "counts2offsets, offsets2parents, startsstops2parents and the index-inverting function compute what their names say")

LAYOUTS = ("JaggedArray", "ByteJaggedArray", "MaskedArray", "BitMaskedArray", "IndexedMaskedArray", "IndexedArray", "SparseArray", "UnionArray", "ObjectArray", "StringArray", "Table", "ChunkedArray", "AppendableArray", "VirtualArray")
KEEP = {"boolmask", "fillna", "pad", "regular", "astype", "flattentuple", "zeros_like", "ones_like", "empty_like", "isunmasked", "ismasked", "deepcopy", "copy", "choose", "argchoose",
        "_util_pad", "_util_counts", "_util_boolmask", "_util_flattentuple", "_util_regular", "_util_isunmasked", "_util_fillna", "_util_deepcopy", "toarray", "_util_toarray", "argpairs", "pairs", "argdistincts", "distincts",
        "argcross", "cross", "argsort", "materialize"}
REDUCERS = {"any", "all", "count", "count_nonzero", "sum", "prod", "min", "max", "_reduce", "mean", "var", "std", "argmin", "argmax", "moment"}
ELEMENTWISE = {"logical_and", "logical_or", "logical_not", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor", "invert", "isnan", "isfinite", "isinf", "maximum", "minimum", "absolute", "abs", "negative",
               "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "sqrt", "floor", "ceil", "exp", "log", "sin", "cos",
               "arctan2", "hypot", "power", "mod", "remainder", "left_shift", "right_shift", "sign"}
BOOLS = {"logical_and", "logical_or", "logical_not", "logical_xor", "isnan", "isfinite", "isinf", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}
SAME = {"array", "asarray", "ascontiguousarray", "copy", "cumsum", "cumprod", "zeros_like", "ones_like", "empty_like", "full_like", "getdata", "getmaskarray", "require", "asanyarray", "windows_safe", "abs"}
SCALARS = {"any", "all", "sum", "max", "min", "prod", "mean", "std", "var", "count_nonzero", "argmin", "argmax", "item", "tolist", "amax", "amin"}
CLASSNAMES = set(LAYOUTS) | {"Methods"}
FORKED = {"_util_isinteger", "_util_isintegertype", "_util_isstringslice", "_util_hasjagged", "_util_isnumpy", "_util_isstring", "_util_isuniontype", "_isstringslice", "_hasjagged", "_valid", "_validstartsstops",
          "offsetsaliased", "_util_issametype", "check_prop_valid"}
AXIOM = {"counts2offsets", "offsets2parents", "startsstops2parents", "parents2startsstops", "uniques2offsetsparents", "invert"}


class Arr(object):
    """an array: the space of its rows, the space its elements are positions in, what it is for (role), and a value number"""
    def __init__(self, key, dim=None, target=None, role=None, bool_=None, one=False):
        self.key, self.dim, self.target, self.role, self.bool, self.one = key, dim, target, role, bool_, one

    @property
    def name(self):
        return "a%d" % self.key

    def __repr__(self):
        return "<array over %r%s>" % (self.dim, "" if self.target is None else " of positions in %r" % self.target)


class Num(object):
    """an integer: the length of a space, or a position in one"""
    def __init__(self, length=None, pos=None, tag=None, key=None):
        self.length, self.pos, self.tag, self.key = length, pos, tag, key

    @property
    def name(self):
        return "n%s" % (self.key,)


class ShapeV(object):
    def __init__(self, arr):
        self.arr = arr

    @property
    def name(self):
        return "shape(%s)" % self.arr.name


class Lists(object):
    """sublists: rows, what starts and stops are positions in, the flattened elements"""
    def __init__(self, key, rows, target, flat, zero=False):
        self.key, self.rows, self.target, self.flat, self.zero = key, rows, target, flat, zero
        self.canuse = zero


class H(Hooks):
    MAXLOOP = 3

    def __init__(self, prog, entry, cls, me=None):
        self.prog, self.entry, self.cls = prog, entry, cls
        self.sp = Spaces()
        self.nums = {}
        self.lists = {}
        self.classof = {}
        self.insts = {}
        self.events = []
        self.judged = []
        self.degenerate = False
        self.started = False
        self.columns = set()
        self.scalars = set()
        self.elemtype = {}
        self.unusable = None

    # ------------------------------------------------------------------ value numbers
    def num(self, *k):
        return self.nums.setdefault(k, len(self.nums))

    def keyof(self, v):
        if isinstance(v, Arr):
            return v.key
        if isinstance(v, Num):
            return ("n", v.key)
        if isinstance(v, Inst):
            return v.attrs.get("$key", id(v))
        if isinstance(v, Tok):
            return v.name
        if isinstance(v, (tuple,)):
            return tuple(self.keyof(x) for x in v)
        if isinstance(v, (bool, int, float, str, bytes)) or v is None:
            return repr(v)
        if isinstance(v, slice):
            return repr(v)
        return id(v)

    def arr(self, key, dim=None, target=None, role=None, bool_=None, one=False):
        return Arr(self.num(*key) if isinstance(key, tuple) else key, dim, target, role, bool_, one)

    # ------------------------------------------------------------------ arrays in general position
    def space(self, owner, sym, name, ext=None):
        return self.sp.get((owner, sym), name, owner, sym, ext)

    def newlists(self, key, rows, target, flat, zero=False):
        if key not in self.lists:
            self.lists[key] = Lists(key, rows, target, flat, zero)
        return self.lists[key]

    def make(self, cls, owner, what, rows=None):
        """an instance of an array class in general position"""
        i = Inst(cls, {}, what)
        n = next((c.name for c in cls.mro() if c.name in LAYOUTS), None)
        R = rows if rows is not None else self.space(owner, "R", "the elements of %s" % what)
        if rows is not None:
            self.sp.find(R).tags.setdefault(owner, frozenset(["R"]))
        a = i.attrs
        a["$key"] = self.num("inst", owner)
        a["$rows"], a["$what"], a["$owner"] = R, what, owner

        def P():
            return self.space(owner, "P", "the untrimmed structure of %s" % what, R)

        def C():
            return self.space(owner, "C", "the content of %s" % what)
        if n in ("JaggedArray", "ByteJaggedArray"):
            c = C()
            self.sp.jagged.add(owner)
            L = self.newlists(("L", owner), R, c, self.space(owner, "F", "the flattened elements of %s" % what))
            a["_starts"] = self.arr(("starts", owner), R, c, ("starts", L), False, True)
            a["_stops"] = self.arr(("stops", owner), P(), c, ("stops", L), False, True)
            a["_content"] = self.arr(("content", owner), c)
            a["_offsets"] = a["_counts"] = a["_parents"] = None
        elif n == "MaskedArray":
            a["_mask"] = self.arr(("mask", owner), R, None, ("mask",), None, True)
            a["_content"] = self.arr(("content", owner), P())
        elif n == "BitMaskedArray":
            a["_mask"] = self.arr(("mask", owner), self.space(owner, "bytes", "the mask bytes of %s" % what), None, None, False, True)
            a["_content"] = self.arr(("content", owner), R)
        elif n == "IndexedMaskedArray":
            a["_mask"] = self.arr(("mask", owner), R, C(), None, False, True)
            a["_content"] = self.arr(("content", owner), C())
        elif n == "IndexedArray":
            a["_index"] = self.arr(("index", owner), R, C(), None, False, True)
            a["_content"] = self.arr(("content", owner), C())
        elif n == "SparseArray":
            k = self.space(owner, "K", "the stored elements of %s" % what)
            a["_index"] = self.arr(("index", owner), k, R, None, False, True)
            a["_content"] = self.arr(("content", owner), k)
            a["_length"] = Num(R, key=self.num("len", owner))
            a["_inverse"] = None
        elif n == "UnionArray":
            a["_tags"] = self.arr(("tags", owner), R, None, ("tags", owner), False, True)
            a["_index"] = self.arr(("index", owner), P(), None, ("uindex", owner), False, True)
            a["_contents"] = PyList([self.arr(("content", owner, k), self.space(owner, "C%d" % k, "content %d of %s" % (k, what))) for k in (0, 1)])
        elif n == "ObjectArray":
            a["_content"] = self.arr(("content", owner), R)
        elif n == "StringArray":
            a["_content"] = self.make(self.layout("JaggedArray"), ("characters", owner), "the characters of %s" % what, R)
        f = cls.find("copy")
        for x in ast.walk(f.node) if f is not None else ():
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == "self" and x.value.attr not in a:
                a[x.value.attr] = Tok("any", "%s.%s" % (what, x.value.attr))
        return i

    def layout(self, n):
        for c in self.prog.awkward_classes():
            if c.name == n and "Pandas" not in c.module.name and c.module.name.split(".")[-1] not in ("pandas",):
                return c
        raise AnalysisBroken("class %s not found" % n)

    def kind(self, i):
        return next((c.name for c in i.cls.mro() if c.name in LAYOUTS), None)

    def jag(self, i):
        return isinstance(i, Inst) and self.kind(i) in ("JaggedArray", "ByteJaggedArray") and "_starts" in i.attrs

    def L(self, i):
        """the sublists of a jagged instance, as its current starts and stops say"""
        st, sp = i.attrs.get("_starts"), i.attrs.get("_stops")
        if not isinstance(st, Arr) or not isinstance(sp, Arr):
            raise Undecided("starts of unknown origin")
        return self.lists_from(st, sp)

    def lists_from(self, st, sp):
        if st.role and sp.role and st.role[0] == "starts" and sp.role[0] == "stops" and st.role[1] is sp.role[1]:
            return st.role[1]
        key = ("LL", st.key, sp.key)
        rows = st.dim if st.dim is not None else sp.dim
        if rows is None:
            rows = self.sp.get(("rows",) + key, "the elements of an array")
        t = st.target if st.target is not None else sp.target
        if t is None:
            t = self.sp.get(("target",) + key, "the content of an array")
        return self.newlists(key, rows, t, self.sp.get(("flat",) + key, "its flattened elements", ("owner",) + key, "F"))

    def compact(self, L):
        """the same sublists one after the other from zero"""
        if L.zero:
            return L
        return self.newlists(("Lc", L.key), L.rows, L.flat, L.flat, True)

    def starts(self, L):
        return self.arr(("starts of", L.key), L.rows, L.target, ("starts", L), False, True)

    def stops(self, L):
        return self.arr(("stops of", L.key), L.rows, L.target, ("stops", L), False, True)

    def offsets(self, L):
        return self.arr(("offsets of", L.key), self.sp.get(("plus1", L.key), "the offsets of %s" % L.rows.name, ("plus", L.key), "R+1"), L.target, ("offsets", L), False, True)

    def counts(self, L):
        return self.arr(("counts of", L.key), L.rows, None, ("counts", L), False, True)

    def reach(self, L):
        """the positions that the structure reaches: a part of the content that is long enough"""
        return L.flat if L.zero else self.sp.memo.setdefault(("reach", L.key), Space("the part of %s that is in reach" % L.target.name, dict((o, frozenset(["reach"])) for o in L.target.tags)))

    def local(self, L):
        """positions within one element"""
        return self.sp.memo.setdefault(("local", L.key), Space("one element of %s" % L.rows.name, dict((o, frozenset(["local"])) for o in self.sp.find(L.target).tags)))

    def islocal(self, t):
        return t is not None and any(v == frozenset(["local"]) for v in self.sp.find(t).tags.values())

    def addtargets(self, ts, sub=False):
        a, b = ts
        if a is None or b is None:
            return a if b is None else (b if not sub else None)
        if sub:
            return None
        if self.islocal(a) and not self.islocal(b):
            return b
        if self.islocal(b) and not self.islocal(a):
            return a
        return None

    def mkjag(self, L, content, cls=None):
        i = Inst(cls or self.layout("JaggedArray"), {}, "a jagged array")
        i.attrs.update({"_starts": self.starts(L), "_stops": self.stops(L), "_content": content, "_offsets": None, "_counts": None, "_parents": None})
        i.attrs["$key"] = self.num("jag", L.key, self.keyof(content))
        i.attrs["$what"] = "a jagged array"
        return i

    def resolve(self, v):
        """what is known of a value by now"""
        if isinstance(v, (Arr, Tok)):
            k = ("a", v.key) if isinstance(v, Arr) else ("t", v.name)
            c = self.classof.get(k)
            if c is None:
                return v
            if isinstance(c, ClassInfo) and any(x.name in LAYOUTS for x in c.mro()):
                if k not in self.insts:
                    what = v.name if isinstance(v, Tok) else "that array"
                    self.insts[k] = self.make(c, k, what, v.dim if isinstance(v, Arr) and v.dim is not None else None)
                return self.insts[k]
            if isinstance(v, Tok):
                if k not in self.insts:
                    self.insts[k] = self.arr(("param", v.name), self.space(k, "R", "the elements of %s" % v.name))
                    self.classof[("a", self.insts[k].key)] = c
                return self.insts[k]
        return v

    def rows(self, v):
        v = self.resolve(v)
        if isinstance(v, Arr):
            return None if v.key in self.scalars else v.dim
        if isinstance(v, Inst):
            if self.jag(v):
                return v.attrs["_starts"].dim if isinstance(v.attrs["_starts"], Arr) else None
            n = self.kind(v)
            f = {"MaskedArray": "_mask", "IndexedMaskedArray": "_mask", "IndexedArray": "_index", "UnionArray": "_tags", "ObjectArray": "_content", "StringArray": "_content"}.get(n)
            if f and f in v.attrs:
                return self.rows(v.attrs[f])
            return v.attrs.get("$rows")
        return None

    def isarr(self, v):
        v = self.resolve(v)
        return isinstance(v, Arr) or isinstance(v, Inst) and self.kind(v) is not None

    # ------------------------------------------------------------------ judging
    def where(self, it, node):
        f = next((x for x in reversed(it.stack) if x is not None), None)
        return f, getattr(node, "lineno", f.node.lineno if f else 0)

    def same_rows(self, it, a, b, node, rule, what, unify=True):
        """an obligation: spaces a and b are the same"""
        if a is None or b is None:
            return
        f, line = self.where(it, node)
        self.judged.append((f.short() if f else "", line, rule))
        if self.sp.conflict(a, b):
            self.events.append((rule, f, line, node, "%s: %s and %s" % (what, self.sp.find(a).name, self.sp.find(b).name)))
        elif unify:
            self.sp.unify(a, b)

    def positions(self, it, target, dim, node, what):
        """an obligation: positions in `target` select from an array over `dim`"""
        if target is None or dim is None:
            return
        f, line = self.where(it, node)
        self.judged.append((f.short() if f else "", line, "selection"))
        if self.sp.same(target, dim) or self.sp.extends(dim, target) or self.inreach(target, dim):
            return
        if self.sp.conflict(target, dim):
            self.events.append(("selection", f, line, node, "%s: positions in %s used on %s" % (what, self.sp.find(target).name, self.sp.find(dim).name)))
        else:
            self.sp.unify(target, dim)

    def inreach(self, target, dim):
        t, d = self.sp.find(target), self.sp.find(dim)
        return any(d.tags.get(o) == frozenset(["reach"]) and t.tags[o] == frozenset(["C"]) for o in t.tags) or any(t.tags.get(o) == frozenset(["reach"]) and d.tags[o] == frozenset(["C"]) for o in d.tags)

    def elementwise(self, it, vals, node, key, bool_=None, what="elementwise operation"):
        vals = [self.resolve(v) for v in vals]
        js = [v for v in vals if self.jag(v)]
        others = [v for v in vals if self.isarr(v) and not self.jag(v)]
        k = (key,) + tuple(self.keyof(v) for v in vals)
        if js:
            L = self.L(js[0])
            for j in js[1:]:
                M = self.L(j)
                self.same_rows(it, L.rows, M.rows, node, "elementwise", what)
                if not self.sp.conflict(L.flat, M.flat):
                    self.sp.unify(L.flat, M.flat)
            for o in others:
                self.same_rows(it, L.rows, self.rows(o), node, "elementwise", what)
            Lc = self.compact(L)
            c = self.arr(("flat",) + k, Lc.flat, None, None, bool_)
            # positions stay positions when something that is no position is added
            if key in ("Add", "Sub") and len(vals) == 2:
                c.target = self.addtargets([self.targetof(v) for v in vals], key == "Sub")
            return self.mkjag(Lc, c)
        if not others:
            return None
        dims = [self.rows(o) for o in others]
        known = [d for d in dims if d is not None]
        for d in known[1:]:
            self.same_rows(it, known[0], d, node, "elementwise", what)
        out = self.arr(k, known[0] if known else None, None, None, bool_, all(isinstance(o, Arr) and o.one for o in others))
        if len(known) < len(others) and len(others) > 1 and not (known and all(d is not None for d in dims)):
            out.dim = known[0] if known else None
        return out

    def boolof(self, a):
        """True for booleans, False for integers, None if not known"""
        if a.bool is not None:
            return a.bool
        return self.elemtype.get(a.key)

    def ask(self, it, t, isbool):
        """the element type of an array, asked through its dtype"""
        k = int(t.name[6:t.name.index(")")])
        if k in self.elemtype:
            return self.elemtype[k] is isbool
        r = bool(it.fork(("elemtype", k, isbool)))
        if r:
            self.elemtype[k] = isbool
        return r

    def targetof(self, v):
        if isinstance(v, Arr):
            return v.target
        if self.jag(v) and isinstance(v.attrs["_content"], Arr):
            return v.attrs["_content"].target
        if isinstance(v, Num):
            return v.pos
        return None

    # ------------------------------------------------------------------ hooks: truth, comparison, arithmetic
    def truth(self, it, v):
        v = self.resolve(v)
        if isinstance(v, Num):
            if v.length is not None:
                return not self.empty(it, v.length)
            return bool(it.fork(("truth", v.name)))
        if isinstance(v, (Arr, ShapeV)):
            return bool(it.fork(("truth", v.name)))
        return None

    def empty(self, it, s):
        r = self.sp.find(s)
        e = bool(it.fork(("empty", r.name)))
        if e:
            self.sp.emptied.add(id(r))
            if any(not (isinstance(x, str) and x == "K") for v in r.tags.values() for x in v) or not r.tags:
                self.degenerate = True
        return e

    def same(self, it, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, (Arr, Num, ShapeV)) or isinstance(b, (Arr, Num, ShapeV)):
            if isinstance(a, Arr) and isinstance(b, Arr) and a.key == b.key:
                return True
            return bool(it.fork(("eq",) + tuple(sorted((str(self.keyof(a)), str(self.keyof(b)))))))
        return None

    def compare(self, it, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            if isinstance(a, (Arr, Num, ShapeV)) and isinstance(b, (Arr, Num, ShapeV)):
                r = a is b or isinstance(a, Arr) and isinstance(b, Arr) and a.key == b.key
                return r if o == "Is" else not r
            return NotImplemented
        if o in ("In", "NotIn"):
            return NotImplemented
        if isinstance(a, Num) or isinstance(b, Num):
            if self.isarr(a) or self.isarr(b):
                pass
            else:
                return self.cmpnum(it, o, a, b)
        if isinstance(a, ShapeV) or isinstance(b, ShapeV) or self.isshape(a) and self.isshape(b):
            if o not in ("Eq", "NotEq"):
                raise Undecided("shapes")
            r = self.sameshape(it, a, b)
            return r if o == "Eq" else not r
        if self.isarr(a) or self.isarr(b):
            if o in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes))):
                return NotImplemented
            r = self.elementwise(it, [a, b], node, o, True)
            x, y = (a, b) if isinstance(b, Num) else (b, a)
            if isinstance(y, Num) and y.length is not None and isinstance(x, Arr) and x.target is not None and o in ("Lt", "LtE", "Gt", "GtE"):
                f, line = self.where(it, node)
                self.judged.append((f.short() if f else "", line, "bounds"))
                t, l = self.sp.find(x.target), self.sp.find(y.length)
                if t is not l and t.tags and l.tags and not t.soft and not l.soft and not self.sp.extends(t, l) and not self.sp.extends(l, t) and not self.inreach(t, l):
                    self.events.append(("bounds", f, line, node, "positions compared with the length of another array: positions in %s and the number of %s" % (t.name, l.name)))
            if isinstance(r, Arr) and isinstance(a, Arr) and a.role and a.role[0] == "parents" and isinstance(b, int) and (o, b) in (("GtE", 0), ("NotEq", -1), ("Gt", -1)):
                r.role = ("good", a.role[1])
            if isinstance(r, Arr) and isinstance(a, Arr) and a.role and a.role[0] == "tags" and isinstance(b, int) and o == "Eq":
                r.role = ("tageq", a.role[1], b)
            return r
        return NotImplemented

    def isshape(self, a):
        return isinstance(a, ShapeV) or isinstance(a, tuple) and len(a) > 0 and all(isinstance(x, Num) for x in a)

    def dimofshape(self, a):
        if isinstance(a, ShapeV):
            return self.rows(a.arr)
        if isinstance(a, tuple) and a and isinstance(a[0], Num):
            return a[0].length
        return None

    def sameshape(self, it, a, b):
        da, db = self.dimofshape(a), self.dimofshape(b)
        if da is not None and db is not None and self.sp.same(da, db):
            return True
        r = bool(it.fork(("sameshape",) + tuple(sorted((str(self.keyof(a) if not isinstance(a, ShapeV) else a.name), str(self.keyof(b) if not isinstance(b, ShapeV) else b.name))))))
        if r and da is not None and db is not None:
            self.sp.unify(da, db)
        return r

    def cmpnum(self, it, o, a, b):
        for x, y, p in ((a, b, o), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(o, o))):
            if isinstance(x, Num) and x.tag and x.tag[0] == "ndim" and isinstance(y, int) and not isinstance(y, bool):
                v = x.tag[1]
                v = self.resolve(v)
                if isinstance(v, Arr) and v.one:
                    return {"Eq": 1 == y, "NotEq": 1 != y, "Lt": 1 < y, "LtE": 1 <= y, "Gt": 1 > y, "GtE": 1 >= y}[p]
                d = self.rows(v)
                if y == 0 and p in ("Eq", "NotEq", "Gt") and d is not None:
                    if isinstance(v, Inst) or len(self.sp.find(d).tags) > 1:
                        return p != "Eq"
                    r = bool(it.fork(("0d", v.name)))
                    if r:
                        self.scalars.add(v.key)
                        v.dim = None
                    return r if p == "Eq" else not r
        la, lb = (x.length if isinstance(x, Num) else None for x in (a, b))
        if o in ("Eq", "NotEq") and la is not None and lb is not None:
            if self.sp.same(la, lb):
                r = True
            else:
                r = bool(it.fork(("samelen",) + tuple(sorted((self.sp.find(la).name, self.sp.find(lb).name)))))
                if r:
                    self.sp.unify(la, lb)
            return r if o == "Eq" else not r
        if la is not None and isinstance(b, int) and not isinstance(b, bool):
            if b == 0:
                if o == "Eq":
                    return self.empty(it, la)
                if o in ("NotEq", "Gt"):
                    return not self.empty(it, la)
                return o == "GtE"
            if b == 1 and o in ("Lt", "GtE"):
                e = self.empty(it, la)
                return e if o == "Lt" else not e
        if lb is not None and isinstance(a, int) and not isinstance(a, bool):
            return self.cmpnum(it, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(o, o), b, a)
        if la is not None and lb is not None:
            if self.sp.same(la, lb):
                return o in ("LtE", "GtE")
            if self.sp.extends(la, lb):
                if o in ("Lt",):
                    return False
                if o in ("GtE",):
                    return True
            if self.sp.extends(lb, la):
                if o in ("Gt",):
                    return False
                if o in ("LtE",):
                    return True
        neg = {"NotEq": "Eq", "GtE": "Lt", "LtE": "Gt"}
        r = bool(it.fork(("cmp", neg.get(o, o), str(self.keyof(a)), str(self.keyof(b)))))
        return not r if o in neg else r

    def unop(self, it, op, a, node):
        a = self.resolve(a)
        if self.isarr(a):
            o = type(op).__name__
            return self.elementwise(it, [a], node, o, True if o == "Invert" else None)
        if isinstance(a, Num):
            return Num(key=self.num("neg", a.key))
        return NotImplemented

    def binop(self, it, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        o = type(op).__name__
        if self.isarr(a) or self.isarr(b):
            if isinstance(a, (PyList, PyDict)) or isinstance(b, (PyList, PyDict)) or isinstance(a, (str, bytes)):
                return Tok("any", None, ())
            r = self.elementwise(it, [a, b], node, o, True if o in ("BitAnd", "BitOr", "BitXor") else None)
            if isinstance(r, Arr):
                if o in ("Add", "Sub"):
                    r.target = self.addtargets([self.targetof(a), self.targetof(b)], o == "Sub")
                if o == "Sub" and isinstance(a, Arr) and isinstance(b, Arr) and a.role and b.role and a.role[0] == "stops" and b.role[0] == "starts":
                    L = self.lists_from(b, a)
                    r = self.counts(L)
                elif o == "Add" and isinstance(a, Arr) and isinstance(b, Arr) and a.role and b.role and {a.role[0], b.role[0]} == {"starts", "counts"} and a.role[1] is b.role[1]:
                    r = self.stops(a.role[1])
                if isinstance(a, Arr) and isinstance(b, Arr) and a.bool is False and b.bool is False and r.bool:
                    r.bool = None
            return r
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str, PyList)):
                return NotImplemented
            n = Num(key=self.num(o, str(self.keyof(a)), str(self.keyof(b))))
            x, y = (a, b) if isinstance(a, Num) else (b, a)
            if o == "Add" and x.length is not None and isinstance(y, int):
                s = self.sp.find(x.length)
                n.length = self.sp.get(("plus", id(s), y), "%d more than %s" % (y, s.name), ("plus", id(s)), "plus%d" % y)
            if o in ("Add", "Sub"):
                n.pos = (a.pos if isinstance(a, Num) else None) if not (isinstance(b, Num) and b.pos is not None) else None
            return n
        if isinstance(a, ShapeV) or isinstance(b, ShapeV):
            return Tok("any", None, ())
        return NotImplemented

    def augop(self, it, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Arr):
            r = self.binop(it, op, a, b, node)
            if isinstance(r, Arr):
                a.key, a.role, a.bool = self.num("aug", r.key), None, a.bool
                if type(op).__name__ in ("Add", "Sub"):
                    a.target = r.target
                elif type(op).__name__ != "Mult" or not (isinstance(b, Arr) and b.bool):
                    a.target = None
            return a
        return self.binop(it, op, a, b, node) if self.isarr(a) or isinstance(a, Num) else NotImplemented

    # ------------------------------------------------------------------ isinstance, iteration
    def isinstance(self, it, v, c):
        if isinstance(c, tuple):
            return None
        r = self.resolve(v)
        cn = c.cls.name if isinstance(c, ClsRef) else (c.name.split(".")[-1] if isinstance(c, Ext) else "")
        if isinstance(r, Num):
            return cn in ("int", "Integral", "Number", "integer", "number", "numbers.Integral")
        if isinstance(r, ShapeV):
            return cn == "tuple"
        if isinstance(r, Inst):
            if isinstance(c, ClsRef):
                return c.cls in r.cls.mro()
            return cn in ("object", "Iterable")
        if isinstance(r, Arr) or isinstance(r, Tok):
            k = ("a", r.key) if isinstance(r, Arr) else ("t", r.name)
            if isinstance(r, Tok) and r.kind != "any":
                return None
            known = self.classof.get(k)
            if isinstance(r, Arr):
                if r.one or r.bool is not None or r.role:
                    known = known or "ndarray"
                if cn not in ("ndarray", "AwkwardArray", "object", "Iterable") and not isinstance(c, ClsRef):
                    return cn in ("MaskedArray",) and bool(it.fork(("isinstance", str(k), cn))) if "ma" in getattr(c, "name", "") else False
            if cn == "Iterable" and (known or isinstance(r, Arr)):
                return True
            if known == "ndarray":
                return cn in ("ndarray", "object")
            if isinstance(known, ClassInfo) and isinstance(c, ClsRef):
                if c.cls in known.mro():
                    return True
                if known not in c.cls.mro():
                    return False
            elif known is not None and not isinstance(c, ClsRef):
                return False
            if cn == "ndarray":
                if it.fork(("isinstance", str(k), "ndarray")):
                    self.classof[k] = "ndarray"
                    return True
                return False
            if isinstance(c, ClsRef) and (any(x.name in LAYOUTS or x.name == "AwkwardArray" for x in c.cls.mro())):
                if it.fork(("isinstance", str(k), c.cls.qualname)):
                    self.classof[k] = c.cls
                    return True
                return False
        return None

    def iterate(self, it, v):
        v = self.resolve(v)
        if isinstance(v, Arr):
            if v.role and v.role[0] == "utags":
                return [0, 1]
            return None
        return None

    # ------------------------------------------------------------------ attributes
    def getattr(self, it, o, name, node):
        p = self.resolve(o)
        r = self.getattr_(it, p, name, node)
        if r is NotImplemented and p is not o:
            return it.getattr(p, name, node)
        return r

    def getattr_(self, it, o, name, node):
        if isinstance(o, (Inst, ClsRef)) and (isinstance(o, ClsRef) or self.kind(o)):
            if name == "numpy":
                return Ext("numpy")
            if name in CLASSNAMES and not (isinstance(o, ClsRef) and False):
                if name == "Methods":
                    return NotImplemented
                return ClsRef(self.layout(name)) if isinstance(o, Inst) else Meth(ClsRef(self.layout(name)), "$property")
            if name in ("INDEXTYPE", "MASKTYPE", "BOOLTYPE", "TAGTYPE", "CHARTYPE", "BITMASKTYPE"):
                return Tok("type", name)
        if isinstance(o, Meth) and o.name == "$property" and name == "fget":
            return Meth(o.obj, "$fget")
        o = self.resolve(o)
        if isinstance(o, Inst) and self.kind(o):
            n = self.kind(o)
            if name in ("$rows",):
                return o.attrs.get(name)
            if name == "check_prop_valid":
                return False
            if name == "check_whole_valid":
                return False
            if name == "_isvalid":
                return True
            if name == "dtype":
                return Tok("dtype", "dtype(%s)" % o.attrs.get("$key"))
            if name == "shape":
                d = self.rows(o)
                return (Num(d, key=self.num("len", o.attrs["$key"])),) if d is not None and n in ("JaggedArray", "ByteJaggedArray") else ShapeV(self.arr(("shapeof", o.attrs["$key"]), d))
            if name == "size":
                return Num(self.rows(o), key=self.num("len", o.attrs["$key"]))
            if name == "base":
                return Tok("any", "base(%s)" % o.attrs.get("$key"))
            f = o.cls.find(name)
            if n == "SparseArray" and name == "_inverse":
                return self.inverse_of(o)
            if self.jag(o) and f is not None and not (f is self.entry and not self.started):
                L = None
                if name in ("starts", "stops", "counts", "offsets", "parents", "localindex", "index"):
                    L = self.L(o)
                if name == "starts":
                    return o.attrs["_starts"]
                if name == "stops":
                    sp = o.attrs["_stops"]
                    return sp if sp.dim is not None and self.sp.same(sp.dim, L.rows) else Arr(self.num("trim", sp.key), L.rows, sp.target, sp.role, False, True)
                if name == "counts":
                    return self.counts(L)
                if name == "offsets":
                    if not self.canuse(it, L):
                        self.unusable = (self.where(it, node), node)
                        e = Raise("ValueError")
                        e.offsets = True
                        raise e
                    return self.offsets(L)
                if name == "parents":
                    return self.arr(("parents of", L.key), self.reach(L), L.rows, ("parents", L), False, True)
                if name == "localindex":
                    Lc = self.compact(L)
                    return self.mkjag(Lc, self.arr(("localindex", L.key), Lc.flat, self.local(L), None, False, True))
                if name == "index":
                    return NotImplemented
            if f is not None and o.cls.is_prop(name) and name in ("counts", "isunmasked", "ismasked", "type", "numbytes", "nbytes", "columns", "iscompact", "rowname", "issequential") and not (f is self.entry and not self.started):
                if name in ("counts", "isunmasked", "ismasked"):
                    return self.arr((name, o.attrs["$key"]), self.rows(o), None, None, name != "counts", True)
                if name == "columns" and o.attrs.get("$columns"):
                    return PyList(list(o.attrs["$columns"]))
                if name == "columns" and self.jag(o) and isinstance(o.attrs["_content"], Inst) and o.attrs["_content"].attrs.get("$columns"):
                    return PyList(list(o.attrs["_content"].attrs["$columns"]))
                return Tok("any", "%s(%s)" % (name, o.attrs["$key"]))
            return NotImplemented
        if isinstance(o, Arr):
            if name == "shape":
                return (Num(o.dim, key=self.num("len", o.key)),) if o.one and o.dim is not None else ShapeV(o)
            if name == "dtype":
                return Tok("dtype", "dtype(%d)" % o.key)
            if name == "size":
                return Num(o.dim if o.one else None, key=self.num("size", o.key))
            if name == "base":
                return Tok("any", "base(%d)" % o.key)
            if name == "T":
                return self.arr(("T", o.key))
            if name in ("counts", "starts", "stops"):
                return self.arr((name, o.key), o.dim)
            if name in ("isunmasked", "ismasked"):
                return self.arr((name, o.key), o.dim, None, None, True, True)
            if name in ("columns", "real", "imag", "ndim", "_isvalid"):
                return Tok("any", "%s(%d)" % (name, o.key))
            if name == "__class__":
                return Tok("any", "class(%d)" % o.key)
            return Meth(o, name)
        if isinstance(o, Num):
            return Tok("any", "%s.%s" % (o.name, name))
        if isinstance(o, ShapeV):
            return Meth(o, name)
        return NotImplemented

    def inverse_of(self, o):
        """for each element of a sparse array, where it is stored if it is"""
        x = o.attrs["_index"]
        return self.arr(("inverse", o.attrs["$key"]), self.rows(o), self.rows(x), None, False, True)

    def canuse(self, it, L):
        if L.zero:
            return True
        r = bool(it.fork(("canuse", str(L.key))))
        L.canuse = r
        return r

    def setattr(self, it, o, name, v, node):
        p = self.resolve(o)
        if p is not o:
            it.setattr(p, name, v, node)
            return True
        if isinstance(o, Arr):
            if name == "shape":
                return True
            return True
        if isinstance(o, Inst) and self.kind(o):
            f = o.cls.find_setter(name)
            o.attrs["$key"] = self.num("set", o.attrs.get("$key"), name, str(self.keyof(v)))
            if name in ("starts", "stops", "content", "mask", "index", "tags") and f is not self.entry:
                o.attrs["_" + name] = self.resolve(v) if isinstance(v, (Arr, Tok)) else v
                return True
            if f is None:
                o.attrs[name] = v
                return True
        return False

    # ------------------------------------------------------------------ items
    def subrows(self, o, k, what="a selection"):
        return None if o is None else self.sp.sub(o, k, what)

    def sublists(self, L, key, rows):
        return self.newlists(("L[]", L.key, key), rows, L.target, self.sp.get(("flat", "L[]", L.key, key), "the flattened elements of a selection", ("flat", L.key, key), "F"))

    def pick(self, o, k, dim, target=None):
        """elements of o selected by k"""
        r = Arr(self.num("getitem", o.key, str(self.keyof(k))), dim, o.target if target is None else target, None, o.bool, o.one and (isinstance(k, Arr) and k.one))
        if o.role and o.role[0] in ("starts", "stops", "counts") and dim is not None:
            L = self.sublists(o.role[1], self.keyof(k) if not isinstance(k, Arr) else ("k", k.key), dim)
            r.role = (o.role[0], L)
            r.one = True
        return r

    def getitem(self, it, o, k, node):
        o = self.resolve(o)
        k = self.resolve(k)
        if isinstance(o, ShapeV):
            if isinstance(k, int) and k == 0:
                return Num(self.rows(o.arr), key=self.num("len", o.arr.key))
            if isinstance(k, Tok) and k.kind == "slice" and k.parts[0] is None and k.parts[2] is None and isinstance(k.parts[1], Num) and k.parts[1].tag and k.parts[1].tag[0] == "ndim":
                return o
            if isinstance(k, slice) and k == slice(None, 1, None):
                return (Num(self.rows(o.arr), key=self.num("len", o.arr.key)),)
            return Tok("any", "%s[%s]" % (o.name, k))
        if isinstance(o, Inst) and self.kind(o):
            return self.getinst(it, o, k, node)
        if not isinstance(o, Arr):
            if isinstance(o, PyList) and isinstance(k, (Tok, Num, Arr)) and o.xs and all(isinstance(x, Arr) for x in o.xs):
                return self.arr(("oneof", tuple(x.key for x in o.xs), str(self.keyof(k))))
            return NotImplemented
        if isinstance(k, tuple) and len(k) == 1:
            k = self.resolve(k[0])
        if isinstance(k, str) or isinstance(k, Tok) and k.name in self.columns:
            return self.arr(("col", o.key, str(self.keyof(k))), o.dim)
        if isinstance(k, tuple):
            if not k:
                return o
            first = self.resolve(k[0])
            if first == slice(None):
                return self.arr(("inner", o.key, str(self.keyof(k))), o.dim)
            if first is None or first is Ellipsis:
                return self.arr(("inner", o.key, str(self.keyof(k))))
            r = self.getitem(it, o, first, node)
            if isinstance(r, Arr):
                r = self.arr(("inner", r.key, str(self.keyof(k))), r.dim)
            return r
        if k is None or k is Ellipsis:
            return self.arr(("inner", o.key, str(k)))
        if isinstance(k, bool):
            return self.arr(("getitem", o.key, getattr(node, "lineno", 0), "bool"))
        if isinstance(k, int):
            if k == -1 and o.dim is not None and self.sp.find(o.dim).ext is not None:
                self.userindex(it, o, node)
            if o.role and o.role[0] in ("offsets", "stops") and k == -1:
                L = o.role[1]
                if self.sp.find(o.dim).ext is not None:
                    return Num(None, o.target, None, self.num("item", o.key, k))
                return Num(L.flat if L.zero else None, L.target, ("end", L), self.num("item", o.key, k))
            if o.role and o.role[0] in ("offsets", "starts") and k == 0:
                return Num(None, o.target, ("begin", o.role[1]), self.num("item", o.key, k))
            if not o.one:
                return self.arr(("item", o.key, k))
            return Num(None, o.target, None, self.num("item", o.key, k))
        if isinstance(k, Num):
            if k.pos is not None:
                self.positions(it, k.pos, o.dim, node, "element")
            return Num(None, o.target, None, self.num("item", o.key, str(k.key))) if o.one else self.arr(("item", o.key, str(k.key)))
        if isinstance(k, slice):
            if k == slice(None):
                return o
            if o.role and o.role[0] == "offsets":
                if k == slice(None, -1):
                    return self.starts(o.role[1])
                if k == slice(1, None):
                    return self.stops(o.role[1])
            return Arr(self.num("slice", o.key, str(k)), self.subrows(o.dim, ("slice", str(k)), "a slice"), o.target, None, o.bool, o.one)
        if isinstance(k, Tok) and k.kind == "slice":
            lo, hi, step = k.parts
            if lo is None and step is None and isinstance(hi, Num):
                if hi.length is not None and o.dim is not None:
                    if self.sp.same(hi.length, o.dim):
                        return o
                    if self.sp.extends(o.dim, hi.length):
                        return Arr(self.num("trim", o.key), hi.length, o.target, o.role, o.bool, o.one)
                    f, line = self.where(it, node)
                    self.judged.append((f.short() if f else "", line, "prefix"))
                    if self.sp.conflict(hi.length, o.dim) and not self.sp.find(o.dim).soft and not self.sp.find(hi.length).soft:
                        self.events.append(("prefix", f, line, node, "cut to the length of another array: %s cut to the number of %s" % (self.sp.find(o.dim).name, self.sp.find(hi.length).name)))
                    return self.arr(("cut", o.key, self.sp.find(hi.length).name), hi.length, o.target, None, o.bool, o.one)
                if hi.tag and hi.tag[0] == "end" and o.dim is not None and self.sp.same(hi.tag[1].target, o.dim):
                    return self.arr(("reach", o.key), self.reach(hi.tag[1]), o.target)
            if step is None and isinstance(lo, Num) and isinstance(hi, Num) and lo.tag and hi.tag and lo.tag[0] == "begin" and hi.tag[0] == "end" and lo.tag[1] is hi.tag[1]:
                L = lo.tag[1]
                self.positions(it, L.target, o.dim, node, "slice")
                if L.canuse:
                    return self.arr(("flat", o.key, L.key), L.flat, o.target)
            return Arr(self.num("slice", o.key, str(self.keyof(k.parts))), self.subrows(o.dim, ("slice", str(self.keyof(k.parts))), "a slice"), o.target, None, o.bool, o.one)
        if isinstance(k, Arr):
            if self.boolof(k):
                self.same_rows(it, o.dim, k.dim, node, "mask", "mask")
                if k.role and k.role[0] == "good" and k.role[1].canuse and o.dim is not None and self.sp.same(o.dim, self.reach(k.role[1])):
                    return self.pick(o, k, k.role[1].flat)
                r = self.pick(o, k, self.subrows(o.dim if o.dim is not None else k.dim, ("mask", k.key), "a selection"))
                if o.role and o.role[0] == "uindex":
                    r.target = self.untarget(o, k)
                return r
            if k.target is not None:
                self.positions(it, k.target, o.dim, node, "selection")
                return self.pick(o, k, k.dim)
            if self.boolof(k) is False:
                return self.pick(o, k, k.dim)
            return self.arr(("getitem", o.key, k.key), None, o.target)
        if isinstance(k, Tok):
            self.userindex(it, o, node)
            return self.pick(o, k, self.subrows(o.dim, ("tok", k.name), "a selection"))
        if isinstance(k, PyList):
            return self.arr(("getitem", o.key, id(k)))
        return self.arr(("getitem", o.key, str(self.keyof(k))), None)

    def userindex(self, it, o, node):
        """an obligation: an index given by the caller (any integers, mask or slice) refers to elements, not to an array that may be longer"""
        if o.dim is None:
            return
        f, line = self.where(it, node)
        self.judged.append((f.short() if f else "", line, "index"))
        if self.sp.find(o.dim).ext is not None:
            self.events.append(("index", f, line, node, "index given by the caller used on %s" % self.sp.find(o.dim).name))

    def untarget(self, o, k):
        """what the index of a union, selected where the tags have one value, holds positions in"""
        if k.role and k.role[0] == "tageq" and k.role[1] == o.role[1]:
            return self.sp.memo.get((k.role[1], "C%d" % k.role[2]))
        return None

    def getinst(self, it, o, k, node):
        key = ("getitem", o.attrs["$key"], str(self.keyof(k)))
        if isinstance(k, tuple) and len(k) == 1:
            k = self.resolve(k[0])
        if self.jag(o):
            L = self.L(o)
            if isinstance(k, str) and isinstance(o.attrs["_content"], Inst) and k in o.attrs["_content"].attrs.get("$columns", {}):
                return self.mkjag(L, o.attrs["_content"].attrs["$columns"][k])
            if isinstance(k, str) or isinstance(k, Tok) and k.name in self.columns:
                return self.mkjag(L, self.arr(("col", self.keyof(o.attrs["_content"]), str(self.keyof(k))), self.rows(o.attrs["_content"])))
            if self.jag(k):
                M = self.L(k)
                self.same_rows(it, L.rows, M.rows, node, "mask", "jagged selection")
                c = k.attrs["_content"]
                if isinstance(c, Arr) and c.bool:
                    return self.jagmask(it, o, k)
                rows = L.rows
                N = self.newlists(("Lpick", L.key, k.attrs["$key"]), rows, M.flat, M.flat, True)
                return self.mkjag(N, self.arr(("jagpick",) + key, M.flat))
            if isinstance(k, Arr):
                if k.bool:
                    self.same_rows(it, L.rows, k.dim, node, "mask", "mask")
                elif k.target is not None:
                    self.positions(it, k.target, L.rows, node, "selection")
            if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], slice):
                own = ("inner",) + key
                N = self.newlists(("Linner",) + key, L.rows, self.sp.get(("innerC",) + key, "the content of a selection", own, "C"), L.flat if k[1] == slice(None, None, -1) else self.sp.get(("innerF",) + key, "the flattened elements of a selection"))
                self.sp.find(N.flat).tags.setdefault(own, frozenset(["F"]))
                c = o.attrs["_content"]
                return self.mkjag(N, self.arr(("inner content",) + key, N.target, self.targetof(c) if isinstance(c, Arr) else None))
            if isinstance(k, (Arr, slice, Tok)) and (not isinstance(k, Tok) or k.kind == "slice"):
                st = self.getitem(it, o.attrs["_starts"], k, node)
                if isinstance(st, Arr) and st.role:
                    return self.mkjag(st.role[1], o.attrs["_content"])
            return Tok("any", "item%d" % self.num(*key))
        d = self.rows(o)
        if isinstance(k, str) and self.kind(o) == "Table" and k in o.attrs.get("$columns", {}):
            return o.attrs["$columns"][k]
        if isinstance(k, str):
            return self.arr(key, d)
        if isinstance(k, Tok) and k.name in self.columns:
            return self.arr(key, d)
        if isinstance(k, Arr):
            if k.bool:
                self.same_rows(it, d, k.dim, node, "mask", "mask")
                return self.arr(key, self.subrows(d, ("mask", k.key)))
            if k.target is not None:
                self.positions(it, k.target, d, node, "selection")
                return self.arr(key, k.dim)
            return self.arr(key)
        if k == slice(None):
            return self.arr(key, d)
        return Tok("any", "item%d" % self.num(*key)) if not isinstance(k, slice) else self.arr(key)

    def jagmask(self, it, o, m):
        """o[m] for a jagged mask: per element, the marked ones"""
        L = self.L(o)
        fm = self.flat(it, m)
        flat = self.sp.sub(L.flat, ("mask", fm.key), "a selection")
        N = self.newlists(("Lmask", L.key, fm.key), L.rows, flat, flat, True)
        return self.mkjag(N, self.arr(("jagmask", o.attrs["$key"], fm.key), flat))

    def flat(self, it, j):
        L = self.L(j)
        c = j.attrs["_content"]
        c2 = self.resolve(c)
        if isinstance(c, Arr):
            if L.zero and c.dim is not None and self.sp.same(c.dim, L.flat):
                return c
            r = self.arr(("flat", c.key, L.key), L.flat, c.target, None, self.boolof(c), c.one)
            if ("a", c.key) in self.classof:
                self.classof[("a", r.key)] = self.classof[("a", c.key)]
            return r
        if self.jag(c2):
            return self.mkjag(self.sublists(self.L(c2), ("flat", L.key), L.flat), c2.attrs["_content"])
        return self.arr(("flat", self.keyof(c), L.key), L.flat)

    def setitem(self, it, o, k, v, node):
        o, k, v = self.resolve(o), self.resolve(k), self.resolve(v)
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.bool is None and k.target is None:
                sub = None
            elif isinstance(k, (Tok, tuple)) and not (isinstance(k, Tok) and k.kind == "slice"):
                sub = None
            else:
                sub = self.getitem(it, o, k, node)
            if isinstance(sub, Arr) and self.isarr(v) and not (isinstance(k, str)):
                self.same_rows(it, sub.dim, self.rows(v), node, "assignment", "assigned values")
            if isinstance(v, Arr) and v.target is not None and o.target is None:
                o.target = v.target
            o.key = self.num("stored", o.key, str(self.keyof(k)), str(self.keyof(v)))
            o.role = None
            return True
        if isinstance(o, Inst) and self.kind(o):
            if (isinstance(k, str) or isinstance(k, Tok) and k.name in self.columns or o.attrs.get("$rows", 0) is None) and self.isarr(v):
                self.same_rows(it, self.rows(o), self.rows(v), node, "assignment", "assigned column", unify=False)
                if self.kind(o) == "Table" and o.attrs.get("$rows") is None:
                    o.attrs["$rows"] = self.rows(v)
            o.attrs["$key"] = self.num("stored", o.attrs["$key"], str(self.keyof(k)), str(self.keyof(v)))
            if self.kind(o) not in ("Table",) and not self.jag(o) and not isinstance(k, str):
                pass
            return True
        if isinstance(o, (Num, ShapeV)):
            return True
        if isinstance(o, PyList) and isinstance(k, (Tok, Num, Arr)):
            o.xs = [Tok("any", None, ()) for _ in o.xs]
            return True
        return False

    def delitem(self, it, o, k, node):
        o = self.resolve(o)
        return isinstance(o, (Arr, Inst))

    def contains(self, it, o, k, node):
        if isinstance(self.resolve(o), (Arr, Num, ShapeV, Inst)):
            return bool(it.fork(("in", str(self.keyof(k)), str(self.keyof(o)))))
        return None

    # ------------------------------------------------------------------ calls
    def call(self, it, f, args, kw, node):
        args = [self.resolve(a) for a in args]
        if isinstance(f, Meth):
            if f.name == "$fget":
                return f.obj
            if isinstance(f.obj, Arr):
                return self.arrmeth(it, f.obj, f.name, args, kw, node)
            if isinstance(f.obj, ShapeV):
                return Tok("any", None, ())
            if isinstance(f.obj, tuple) and f.obj and f.obj[0] == "super":
                return Tok("any", None, ())
        if isinstance(f, Ext):
            n = f.name
            if n in ("len",) and len(args) == 1:
                a = args[0]
                if isinstance(a, ShapeV):
                    return Num(tag=("ndim", a.arr), key=self.num("ndim", a.name))
                if self.isarr(a):
                    return Num(self.rows(a), key=self.num("len", str(self.keyof(a))))
                return NotImplemented
            if n in ("type",) and len(args) == 1 and isinstance(args[0], (Arr, Num)):
                return Tok("any", "type(%s)" % args[0].name)
            if n == "issubclass" and len(args) == 2 and isinstance(args[0], Tok) and args[0].name.startswith("dtype(") and args[0].name.endswith(").type") and args[0].name[6:-6].isdigit():
                names = [x.name.split(".")[-1] for x in (args[1] if isinstance(args[1], tuple) else (args[1],)) if isinstance(x, Ext)]
                if names and all(x in ("bool", "bool_") for x in names):
                    return self.ask(it, args[0], True)
                if names and all(x in ("integer", "int64", "int32") for x in names):
                    return self.ask(it, args[0], False)
                return NotImplemented
            if n in ("int", "float", "bool", "abs") and len(args) == 1 and isinstance(args[0], (Num, Arr)):
                return args[0] if n == "int" else Tok("any", None, ())
            if n in ("max", "min", "sum") and args:
                return Num(key=self.num(n, str(tuple(self.keyof(a) for a in args)))) if any(isinstance(a, Num) for a in args) else NotImplemented
            if n in ("range", "xrange"):
                return NotImplemented
            if n in ("getattr",) and len(args) >= 2 and isinstance(args[1], Tok) and isinstance(args[0], Tok):
                return Tok("ufunc", "ufunc.%s" % args[1].name)
            if n.startswith("numpy.") or n == "numpy":
                return self.numpy(it, n[6:], args, kw, node)
            if n.rsplit(".", 1)[-1] == "windows_safe" and args:
                return args[0]
            if n in ("iter", "next", "zip", "map", "filter", "sorted", "reversed"):
                return NotImplemented
            return NotImplemented
        if isinstance(f, Tok):
            if f.name.endswith(".maybemixin") and args and isinstance(args[-1], ClsRef):
                return args[-1]
            if f.kind == "ufunc" or f.name in ("ufunc", "ufunc.__call__"):
                r = self.elementwise(it, args, node, "ufunc", None, "ufunc")
                return r if r is not None else Tok("any", None, ())
            if f.name.startswith("ufunc."):
                if f.name.endswith(".reduceat") and len(args) == 2 and isinstance(args[0], Arr):
                    return self.arr(("reduceat", args[0].key, str(self.keyof(args[1]))), self.rows(args[1]))
                if f.name.endswith(".reduce") and args and isinstance(args[0], Arr):
                    ax = kw.get("axis")
                    return self.arr(("reduce", args[0].key, str(self.keyof(ax))), args[0].dim if ax is not None and ax != 0 else None)
            return NotImplemented
        if isinstance(f, ClsRef):
            if any(c.name in LAYOUTS for c in f.cls.mro()):
                return self.construct(it, f.cls, args, kw, node)
            return Tok("any", None, ())
        if isinstance(f, Fn):
            return self.fn(it, f, args, kw, node)
        return NotImplemented

    def numpy(self, it, n, args, kw, node):
        last = n.rsplit(".", 1)[-1]
        a = args[0] if args else None
        if last in ELEMENTWISE:
            r = self.elementwise(it, args, node, last, last in BOOLS or None)
            if r is None:
                return Tok("any", None, deps(args))
            if isinstance(r, Arr) and last == "add" and len(args) == 2:
                ts = [self.targetof(x) for x in args]
                r.target = ts[0] if ts[1] is None else (ts[1] if ts[0] is None else None)
            return r
        if last in ("array", "asarray", "ascontiguousarray", "require", "asanyarray"):
            if isinstance(a, Arr):
                d = kw.get("dtype", args[1] if len(args) > 1 else None)
                b = a.bool if d is None else (True if isinstance(d, Tok) and d.name == "BOOLTYPE" else False if isinstance(d, Tok) and d.name == "INDEXTYPE" else None)
                return Arr(a.key if kw.get("copy") is not True else self.num("copied", a.key), a.dim, a.target, a.role, b, a.one)
            if isinstance(a, Inst):
                return self.arr(("array", str(self.keyof(a))), self.rows(a))
            return self.arr(("array", str(self.keyof(a)), getattr(node, "lineno", 0)))
        if last in SAME and isinstance(a, Arr):
            return Arr(self.num(last, a.key, getattr(node, "lineno", 0)), a.dim, a.target if last in ("copy", "getdata") else None, None, None if not a.bool else a.bool, a.one)
        if last in ("empty", "zeros", "ones", "full"):
            d, one = self.shapedim(a)
            if a == 0 and isinstance(a, int):
                d, one = self.sp.zero, True
            t = kw.get("dtype", args[1] if len(args) > 1 else None)
            b = True if isinstance(t, Tok) and t.name == "BOOLTYPE" else False if isinstance(t, Tok) and t.name == "INDEXTYPE" else None
            return self.arr((last, str(self.keyof(a)), getattr(node, "lineno", 0), len(self.nums)), d, None, None, b, one)
        if last == "arange":
            if len(args) == 1 and isinstance(a, Num):
                s = a.length
                return self.arr(("arange", a.key), s, s, None, False, True)
            if len(args) == 2 and all(isinstance(x, Num) and x.tag for x in args) and a.tag[0] == "begin" and args[1].tag[0] == "end" and a.tag[1] is args[1].tag[1] and a.tag[1].canuse:
                return self.arr(("arange", a.key, args[1].key), a.tag[1].flat, a.pos, None, False, True)
            return self.arr(("arange", str(tuple(self.keyof(x) for x in args)), getattr(node, "lineno", 0)), None, None, None, False, True)
        if last == "repeat" and len(args) == 2:
            b = args[1]
            if isinstance(b, Arr) and b.role and b.role[0] == "counts":
                L = b.role[1]
                self.same_rows(it, self.rows(a) if self.isarr(a) else None, L.rows, node, "repeat", "repeated by counts")
                return self.arr(("repeat", str(self.keyof(a)), b.key), L.flat, self.targetof(a), None, None, True)
            return self.arr(("repeat", str(self.keyof(a)), str(self.keyof(b))), None, self.targetof(a))
        if last in ("nonzero", "where", "argwhere", "flatnonzero") and len(args) == 1:
            r = self.arr(("nonzero", str(self.keyof(a))), self.subrows(self.rows(a), ("mask", self.keyof(a))), self.rows(a), None, False, True)
            return (r,) if last in ("nonzero", "where") else r
        if last == "where" and len(args) == 3:
            return self.elementwise(it, args, node, "where") or Tok("any", None, ())
        if last == "searchsorted" and len(args) >= 2:
            if not self.isarr(args[1]):
                return Num(pos=self.rows(a) if self.isarr(a) else None, key=self.num("searchsorted", str(self.keyof(a)), str(self.keyof(args[1]))))
            return self.arr(("searchsorted", str(self.keyof(a)), str(self.keyof(args[1]))), self.rows(args[1]), self.rows(a) if self.isarr(a) else None, None, False, True)
        if last == "argsort" and isinstance(a, Arr):
            return self.arr(("argsort", a.key), a.dim, a.dim, None, False, True)
        if last in ("isin", "in1d"):
            return self.arr((last, str(self.keyof(a)), str(self.keyof(args[1]))), self.rows(a), None, None, True, True)
        if last == "unique" and isinstance(a, Arr):
            return self.arr(("unique", a.key), None, a.target, ("utags",) if a.role and a.role[0] == "tags" else None, None, True)
        if last == "array_equal" and len(args) == 2:
            a, b = args
            if isinstance(a, Arr) and isinstance(b, Arr):
                if a.key == b.key:
                    return True
                r = bool(it.fork(("array_equal",) + tuple(sorted((a.key, b.key)))))
                if r:
                    if a.dim is not None and b.dim is not None and not self.sp.conflict(a.dim, b.dim):
                        self.sp.unify(a.dim, b.dim)
                    if a.role and b.role and a.role[0] == b.role[0] == "counts":
                        if not self.sp.conflict(a.role[1].flat, b.role[1].flat):
                            self.sp.unify(a.role[1].flat, b.role[1].flat)
                return r
            return bool(it.fork(("array_equal", str(self.keyof(a)), str(self.keyof(b)))))
        if last == "resize" and len(args) == 2:
            d, one = self.shapedim(args[1])
            return self.arr(("resize", str(self.keyof(a)), str(self.keyof(args[1]))), d, None, None, a.bool if isinstance(a, Arr) else None)
        if last == "reshape" and len(args) == 2 and isinstance(a, Arr):
            return self.arrmeth(it, a, "reshape", [args[1]], kw, node)
        if last in SCALARS and isinstance(a, Arr):
            return self.arrmeth(it, a, last, args[1:], kw, node)
        if n.endswith("ma.MaskedArray") or n == "ma.array":
            if len(args) >= 2 and isinstance(a, Arr) and self.isarr(args[1]):
                self.same_rows(it, a.dim, self.rows(args[1]), node, "construction", "data and mask")
            return self.arr(("ma", str(self.keyof(a))), self.rows(a))
        if last == "cumsum" and isinstance(kw.get("out"), Arr):
            return kw["out"]
        if last in ("put", "copyto", "fill_diagonal"):
            return None
        if last in ("concatenate", "hstack", "append", "r_"):
            xs = a.xs if isinstance(a, PyList) else (list(a) if isinstance(a, tuple) else None)
            if xs and all(isinstance(x, Arr) and x.dim is not None for x in xs) and kw.get("axis", 0) == 0 and len(args) == 1:
                dims = [self.sp.find(x.dim) for x in xs]
                if len(dims) == 1:
                    d = dims[0]
                else:
                    k = tuple(id(x) for x in dims)
                    d = self.sp.get(("concat",) + k, " and ".join(x.name for x in dims), ("concat", len(dims)), k)
                ts = [x.target for x in xs]
                return self.arr(("concatenate", tuple(x.key for x in xs)), d, None, None, self.boolof(xs[0]) if len(set(self.boolof(x) for x in xs)) == 1 else None, all(x.one for x in xs))
            return self.arr(("concatenate", getattr(node, "lineno", 0), len(self.nums)))
        if last in ("iinfo", "finfo", "dtype", "result_type", "promote_types", "issubdtype", "can_cast"):
            return Tok("any", None, ())
        return Tok("any", None, deps([x for x in args if isinstance(x, Tok)]))

    def shapedim(self, s):
        if isinstance(s, Num):
            return s.length, True
        if isinstance(s, ShapeV):
            return self.rows(s.arr), s.arr.one
        if isinstance(s, tuple) and s and isinstance(s[0], Num):
            return s[0].length, len(s) == 1
        return None, False

    def arrmeth(self, it, o, n, args, kw, node):
        key = (n, o.key, str(tuple(self.keyof(a) for a in args)), str(sorted((k, str(self.keyof(v))) for k, v in kw.items())))
        if n in ("astype", "copy", "view", "deepcopy", "newbyteorder", "byteswap"):
            d = args[0] if args else None
            b = o.bool if n != "astype" and n != "view" else (True if isinstance(d, Tok) and d.name == "BOOLTYPE" else False if isinstance(d, Tok) and d.name == "INDEXTYPE" else None)
            r = Arr(o.key if n != "view" else self.num(*key), o.dim if n != "view" else (o.dim if o.one is False else None), o.target, o.role, b, o.one)
            if ("a", o.key) in self.classof and n in ("copy", "deepcopy"):
                self.classof[("a", r.key)] = self.classof[("a", o.key)]
            return r
        if n == "reshape":
            s = args[0] if len(args) == 1 else tuple(args)
            if isinstance(s, int) and s == -1:
                return o if o.one else self.arr(key)
            d, one = self.shapedim(s)
            if isinstance(s, ShapeV) or self.isshape(s):
                if d is not None and o.dim is not None and o.one and len(s if isinstance(s, tuple) else (1,)) == 1:
                    self.same_rows(it, o.dim, d, node, "reshape", "reshaped")
                    return o
            if isinstance(s, tuple) and s and s[0] == -1 and o.one and len(s) == 1:
                return o
            if isinstance(s, Tok) and o.one:
                return o if "shape" in s.name or True and s.kind == "any" else self.arr(key)
            return self.arr(key, d)
        if n in ("flatten", "ravel"):
            if o.one:
                return o
            return self.arr(key)
        if n in ("nonzero",):
            return (self.arr(("nonzero", o.key), self.subrows(o.dim, ("mask", o.key)), o.dim, None, False, True),)
        if n in KEEP:
            return self.arr(key, o.dim, None, None, True if n in ("boolmask",) else None)
        if n in ("argsort",):
            return self.arr(key, o.dim, o.dim, None, False, True)
        if n == "sum" and o.role and o.role[0] == "counts" and not args:
            return Num(o.role[1].flat, key=self.num(*key))
        if n in SCALARS or n in REDUCERS:
            ax = kw.get("axis", args[0] if args else None)
            if ax not in (None, 0) and isinstance(ax, int):
                return self.arr(key, o.dim)
            if n in ("any", "all"):
                return Tok("any", "%s(%d)" % (n, o.key))
            if o.one and n in ("sum", "max", "min"):
                return Num(key=self.num(*key))
            r = self.arr(key)
            return r
        if n in ("fill", "sort", "setflags", "__setitem__"):
            return None
        if n in ("tojagged",):
            return Tok("any", None, ())
        return Tok("any", "call%d" % self.num(*key))

    # ------------------------------------------------------------------ constructors
    def construct(self, it, cls, args, kw, node):
        n = next(c.name for c in cls.mro() if c.name in LAYOUTS)
        i = Inst(cls, {}, "a new %s" % n)
        i.attrs["$key"] = self.num("new", n, str(tuple(self.keyof(a) for a in args)), str(sorted((k, str(self.keyof(v))) for k, v in kw.items())))
        i.attrs["$what"] = i.name
        v = dict(zip({"JaggedArray": ("starts", "stops", "content"), "MaskedArray": ("mask", "content", "maskedwhen"), "BitMaskedArray": ("mask", "content", "maskedwhen", "lsborder"),
                      "IndexedMaskedArray": ("mask", "content", "maskedwhen"), "IndexedArray": ("index", "content"), "SparseArray": ("length", "index", "content", "default"),
                      "UnionArray": ("tags", "index", "contents"), "ObjectArray": ("content", "generator")}.get(n, ()), args))
        v.update(kw)
        v = dict((k, self.resolve(x)) for k, x in v.items())
        if n == "JaggedArray":
            st, sp, c = v.get("starts"), v.get("stops"), v.get("content")
            if isinstance(st, PyList):
                return self.opaque(i)
            if not isinstance(st, Arr) or not isinstance(sp, Arr):
                return self.opaque(i)
            i.attrs.update({"_starts": st, "_stops": sp, "_content": c, "_offsets": None, "_counts": None, "_parents": None})
            self.checkjag(it, i, node)
            return i
        if n == "MaskedArray":
            m, c = v.get("mask"), v.get("content")
            if self.isarr(m):
                i.attrs.update({"_mask": m, "_content": c})
                if self.isarr(c):
                    self.extending(it, self.rows(m), self.rows(c), node, "mask and content")
                return i
        if n == "BitMaskedArray":
            i.attrs["$rows"] = None
            return i
        if n in ("IndexedArray", "IndexedMaskedArray"):
            x, c = v.get("index" if n == "IndexedArray" else "mask"), v.get("content")
            if self.isarr(x):
                i.attrs.update({"_index" if n == "IndexedArray" else "_mask": x, "_content": c})
                if self.isarr(c):
                    self.positions(it, self.targetof(x), self.rows(c), node, "index and content")
                return i
        if n == "SparseArray":
            x, c = v.get("index"), v.get("content")
            if self.isarr(x) and self.isarr(c):
                self.extending(it, self.rows(x), self.rows(c), node, "index and content")
            i.attrs.update({"_index": x, "_content": c, "_length": v.get("length"), "$rows": v["length"].length if isinstance(v.get("length"), Num) else None})
            return i
        if n == "UnionArray":
            t, x = v.get("tags"), v.get("index")
            if self.isarr(t) and self.isarr(x):
                self.extending(it, self.rows(t), self.rows(x), node, "tags and index")
            if self.isarr(t):
                i.attrs.update({"_tags": t, "_index": x, "_contents": v.get("contents")})
                return i
        if n == "ObjectArray":
            if self.isarr(v.get("content")):
                i.attrs["_content"] = v["content"]
                return i
        if n == "Table":
            cols = [x for x in args + list(kw.values()) if self.isarr(x)]
            d = None
            for c in cols:
                if d is None:
                    d = self.rows(c)
                elif self.rows(c) is not None:
                    if self.sp.extends(d, self.rows(c)) or self.inreach(d, self.rows(c)):
                        d = self.rows(c)
                    else:
                        self.extending(it, d, self.rows(c), node, "columns of a table")
            i.attrs["$rows"] = d
            i.attrs["$columns"] = dict([(str(j), x) for j, x in enumerate(args)] + [(k, x) for k, x in kw.items()])
            return i
        return self.opaque(i)

    def opaque(self, i):
        return self.arr(("opaque", i.attrs["$key"], len(self.nums)))

    def extending(self, it, a, b, node, what):
        """an obligation: an array over b has at least the rows of a, in the same order"""
        if a is None or b is None:
            return
        if self.sp.extends(b, a):
            f, line = self.where(it, node)
            self.judged.append((f.short() if f else "", line, "construction"))
            return
        self.same_rows(it, a, b, node, "construction", what)

    def checkjag(self, it, i, node):
        st, sp, c = i.attrs["_starts"], i.attrs["_stops"], i.attrs["_content"]
        if st.dim is not None and sp.dim is not None:
            self.extending(it, st.dim, sp.dim, node, "starts and stops")
        if st.target is not None and sp.target is not None:
            self.same_rows(it, st.target, sp.target, node, "construction", "starts and stops are positions in", unify=True)
        t = st.target if st.target is not None else sp.target
        d = self.rows(c) if self.isarr(c) else None
        if t is not None and d is not None:
            self.positions(it, t, d, node, "starts and content")

    # ------------------------------------------------------------------ functions of the package
    def fn(self, it, f, args, kw, node):
        n = f.f.name
        me = self.resolve(f.me) if f.me is not None else None
        if f.f is self.entry and not self.started:
            self.started = True
            return NotImplemented
        if n in FORKED:
            return self.forked(it, me, n, args, kw)
        if n == "named" and me is not None and isinstance(me, ClsRef):
            return self.construct(it, me.cls, args[1:], kw, node)
        if n == "counts2offsets" and len(args) >= 1:
            a = args[-1]
            if isinstance(a, Arr) and a.role and a.role[0] == "counts":
                return self.offsets(self.compact(a.role[1]))
            rows = self.rows(a) if self.isarr(a) else None
            key = ("Lcounts", str(self.keyof(a)))
            if rows is None:
                rows = self.sp.get(("rows",) + key, "the elements of an array")
            F = self.sp.get(("flat",) + key, "the elements counted", ("flat",) + key, "F")
            return self.offsets(self.newlists(key, rows, F, F, True))
        if n == "offsets2parents" and args:
            a = args[-1]
            if isinstance(a, Arr) and a.role and a.role[0] == "offsets":
                L = a.role[1]
                return self.arr(("parents of", L.key), self.reach(L), L.rows, ("parents", L), False, True)
            return self.arr(("parents", str(self.keyof(a))))
        if n == "startsstops2parents" and len(args) >= 2:
            a, b = args[-2:]
            if isinstance(a, Arr) and isinstance(b, Arr):
                self.same_rows(it, a.dim, b.dim, node, "elementwise", "starts and stops")
                L = self.lists_from(a, b)
                return self.arr(("parents of", L.key), self.reach(L), L.rows, ("parents", L), False, True)
            return self.arr(("parents", str(self.keyof(a)), str(self.keyof(b))))
        if n == "invert" and args and isinstance(args[-1], Arr):
            a = args[-1]
            key = ("inverse", a.key)
            d = None
            if a.target is not None:
                d = self.sp.memo.setdefault(("reachof",) + key, Space("the positions reached in %s" % a.target.name, dict((o, frozenset(["reach-local" if self.islocal(a.target) else "reach"])) for o in self.sp.find(a.target).tags)))
            return self.arr(key, d, a.dim, None, False, True)
        if n in AXIOM:
            return Tok("any", None, ())
        if n == "fromcounts" and len(args) == 2:
            return self.fromcounts(it, f, args[0], args[1], node)
        if n == "fromoffsets" and len(args) == 2:
            o, c = args
            if isinstance(o, Arr) and o.role and o.role[0] == "offsets":
                L = o.role[1]
                i = self.mkjag(L, c, me.cls if isinstance(me, ClsRef) and any(x.name == "JaggedArray" for x in me.cls.mro()) else None)
                self.checkjag(it, i, node)
                if L.zero and self.isarr(c):
                    self.same_rows(it, L.flat, self.rows(c), node, "construction", "offsets and content")
                return i
            return self.arr(("fromoffsets", str(self.keyof(o)), str(self.keyof(c))))
        if n in ("fromiter", "fromparents", "fromuniques", "fromjagged", "fromregular", "fromindex", "fromfolding", "fromlocalindex", "fromview", "frompairs", "fromrec", "columns", "_util_columns", "typeof", "_gettype",
                 "_util_concatenate", "concatenate", "_util_arraystr", "_initObjectArray", "maybemixin", "_trymixin", "mixin", "ismixin", "getmethods", "hasmethods"):
            if n == "maybemixin":
                return args[-1] if args and isinstance(args[-1], ClsRef) else Tok("any", None, ())
            return self.arr((n, getattr(node, "lineno", 0), len(self.nums))) if n not in ("columns", "_util_columns", "typeof") else Tok("any", None, ())
        if n.startswith("_util_"):
            return self.util(it, n, args, kw, node)
        if isinstance(me, Inst) and self.kind(me) and f.f is not self.entry or isinstance(me, Inst) and self.kind(me):
            r = self.method_(it, me, n, args, kw, node)
            if r is not NotImplemented:
                return r
        return NotImplemented

    def fromcounts(self, it, f, counts, content, node):
        if self.jag(counts):
            return self.arr(("fromcounts", len(self.nums)))
        cls = f.me.cls if isinstance(f.me, ClsRef) and any(x.name == "JaggedArray" for x in f.me.cls.mro()) else None
        if isinstance(counts, Arr) and counts.role and counts.role[0] == "counts":
            L = self.compact(counts.role[1])
        else:
            key = ("Lcounts", str(self.keyof(counts)))
            rows = self.rows(counts) if self.isarr(counts) else None
            if rows is None:
                rows = self.sp.get(("rows",) + key, "the elements of an array")
            F = self.sp.get(("flat",) + key, "the elements counted")
            L = self.newlists(key, rows, F, F, True)
        if self.isarr(content):
            self.same_rows(it, L.flat, self.rows(content), node, "construction", "counts and content")
        return self.mkjag(L, content, cls)

    def forked(self, it, me, n, args, kw):
        if n in ("_valid", "_validstartsstops"):
            return None
        a = args[-1] if args else None
        if n == "offsetsaliased":
            if len(args) == 2 and all(isinstance(x, Arr) for x in args):
                a, b = args
                if not it.fork(("aliased", a.key, b.key)):
                    return False
                L = self.lists_from(a, b)
                if a.dim is not None and b.dim is not None:
                    self.sp.unify(a.dim, b.dim)
                return self.canuse(it, L) and True
            return bool(it.fork(("aliased", str([self.keyof(x) for x in args]))))
        if n == "_util_isinteger":
            if isinstance(a, (Num, int)):
                return True
            if isinstance(a, (Arr, Inst, str, tuple, slice, PyList)) or a is None:
                return False
            return bool(it.fork((n, str(self.keyof(a)))))
        if n == "_util_isintegertype" and isinstance(a, Tok) and a.name.startswith("dtype(") and a.name.endswith(").type") and a.name[6:-6].isdigit():
            return self.ask(it, a, False)
        if n in ("_util_isstringslice", "_isstringslice"):
            if isinstance(a, (str, int, Num, slice, Inst)) or isinstance(a, Arr) and (a.one or a.bool is not None):
                return False
            r = bool(it.fork((n, str(self.keyof(a)))))
            if r and isinstance(a, Tok):
                self.columns.add(a.name)
            return r
        if n in ("_util_hasjagged",):
            if isinstance(a, Inst):
                return self.jag(a) or bool(it.fork((n, str(self.keyof(a)))))
        return bool(it.fork((n, str(self.keyof(a)), str(self.keyof(me)))))

    def util(self, it, n, args, kw, node):
        a = args[0] if args else None
        if n == "_util_toarray":
            if self.isarr(a):
                return a
            if isinstance(a, Tok) and a.kind == "any":
                self.classof[("t", a.name)] = "ndarray"
                return self.resolve(a)
            return self.arr((n, str(self.keyof(a)), getattr(node, "lineno", 0)))
        if n == "_util_deepcopy":
            return a
        if n == "_util_flatten" and args:
            if self.jag(a) and len(args) > 1 and args[1] == 0:
                return self.flat(it, a)
            return self.arr((n, str(self.keyof(a)), str(self.keyof(args[1:]))))
        if n in KEEP and args and self.isarr(a):
            return self.arr((n, str(self.keyof(a)), str(self.keyof(args[1:]))), self.rows(a), None, None, n in ("_util_boolmask", "_util_isunmasked") or None)
        return Tok("any", "%s%d" % (n, self.num(n, str([self.keyof(x) for x in args]))))

    def method_(self, it, me, n, args, kw, node):
        key = (n, me.attrs["$key"], str([self.keyof(a) for a in args]), str(sorted((k, str(self.keyof(v))) for k, v in kw.items())))
        if n in ("__len__",):
            return Num(self.rows(me), key=self.num("len", me.attrs["$key"]))
        if n == "_getinverse" and self.kind(me) == "SparseArray":
            return self.inverse_of(me)
        if n in ("copy", "deepcopy"):
            return self.copied(it, me, args, kw, node)
        if n in ("__getitem__",) and len(args) == 1:
            return self.getitem(it, me, args[0], node)
        if self.jag(me):
            L = self.L(me)
            if n == "flatten" and (not args or args[0] == 0) and (not kw or kw.get("axis") == 0):
                return self.flat(it, me)
            if n == "flatten":
                return self.arr(key)
            if n == "_canuseoffset":
                return self.canuse(it, L)
            if n == "compact":
                N = self.newlists(("Lcompact", L.key), L.rows, self.sp.get(("target", "Lcompact", L.key), "the content of a compact version", ("Lcompact", L.key), "C"), L.flat)
                N.canuse = True
                it.memo[("canuse", str(N.key))] = 1
                return self.mkjag(N, self.arr(("content of compact", me.attrs["$key"]), N.target), me.cls)
            if n == "tojagged" and args:
                return self.tojagged(it, me, L, args[0], node)
            if n == "_tojagged" and len(args) >= 2:
                return self._tojagged(it, me, L, args, kw, node)
            if n in REDUCERS and n not in ("argmin", "argmax"):
                c = me.attrs["_content"]
                r = self.arr(key, L.rows, None, None, n in ("any", "all") or None)
                if n == "sum" and isinstance(c, Arr) and not c.target:
                    if c.bool:
                        r.role = ("counts", self.L(self.jagmask(it, me, me)))
                        r.bool = False
                    else:
                        r.role = None
                return r
            if n in ("argmin", "argmax"):
                return self.mkjag(self.newlists(("Larg",) + key, L.rows, self.sp.get(("argc",) + key, "positions found", ("arg",) + key, "C"), self.sp.get(("argf",) + key, "positions found", ("arg",) + key, "F")), self.arr(key, self.sp.get(("argc",) + key, "positions found", ("arg",) + key, "C")))
            if n in ("empty_like", "zeros_like", "ones_like", "fillna", "pad", "regular", "astype", "boolmask", "flattentuple"):
                if n in ("pad", "regular"):
                    return self.arr(key, L.rows)
                if n in ("empty_like", "zeros_like", "ones_like", "astype", "flattentuple", "fillna"):
                    c = me.attrs["_content"]
                    return self.mkjag(L, self.arr(("content of",) + key, self.rows(c) if self.isarr(c) else None), me.cls)
                return self.arr(key, L.rows, None, None, True)
            if n in ("_argpairs", "_argdistincts", "_argcross", "_argchoose", "_argminmax", "_argsort", "structure1d"):
                return NotImplemented if n in ("_argpairs", "_argcross", "_argdistincts", "_argminmax", "_argsort") else Tok("any", None, ())
            return NotImplemented
        if n == "empty_like" and self.kind(me) == "Table":
            i = Inst(me.cls, {}, "an empty table")
            i.attrs.update({"$key": self.num("table", len(self.nums)), "$rows": None, "$what": "an empty table"})
            return i
        if n in ("boolmask",) or n in KEEP and n not in ("toarray",):
            return self.arr(key, self.rows(me), None, None, n == "boolmask" or None)
        if n == "flatten":
            return self.arr(key)
        return NotImplemented

    def copied(self, it, me, args, kw, node):
        i = Inst(me.cls, dict(me.attrs), me.name)
        i.attrs["$key"] = self.num("copy", me.attrs["$key"], str(sorted((k, str(self.keyof(v))) for k, v in kw.items())), str([self.keyof(a) for a in args]))
        if isinstance(i.attrs.get("_contents"), PyList):
            i.attrs["_contents"] = PyList(i.attrs["_contents"].xs)
        names = [p for p in me.cls.find("copy").params if p != "self"] if me.cls.find("copy") else []
        kw = dict(kw)
        kw.update(zip(names, args))
        if self.kind(me) == "StringArray" and {"starts", "stops", "content"} & set(kw) and isinstance(me.attrs.get("_content"), Inst):
            j = me.attrs["_content"]
            w = dict((k, self.resolve(kw.pop(k, None))) for k in ("starts", "stops", "content"))
            i.attrs["_content"] = self.copied(it, j, [], dict((k, v) for k, v in w.items() if v is not None), node)
        for k, v in kw.items():
            v = self.resolve(v)
            if v is None:
                continue
            i.attrs["_" + k] = v
        if self.jag(i):
            if isinstance(i.attrs["_stops"], Arr):
                self.checkjag(it, i, node)
            i.attrs["_offsets"] = i.attrs["_counts"] = i.attrs["_parents"] = None
            return i
        n = self.kind(me)
        c = i.attrs.get("_content")
        if kw and self.isarr(c):
            if n == "MaskedArray" and self.isarr(i.attrs.get("_mask")):
                self.extending(it, self.rows(i.attrs["_mask"]), self.rows(c), node, "mask and content")
            elif n == "BitMaskedArray" and "mask" not in kw:
                self.extending(it, i.attrs.get("$rows"), self.rows(c), node, "mask and content")
            elif n in ("IndexedArray", "IndexedMaskedArray"):
                x = i.attrs["_index" if n == "IndexedArray" else "_mask"]
                self.positions(it, self.targetof(x), self.rows(c), node, "index and content")
            elif n == "SparseArray" and self.isarr(i.attrs.get("_index")):
                self.extending(it, self.rows(i.attrs["_index"]), self.rows(c), node, "index and content")
        if n == "UnionArray" and kw and isinstance(i.attrs.get("_contents"), PyList) and isinstance(me.attrs.get("_contents"), PyList) and "index" not in kw and "tags" not in kw:
            for a, b in zip(me.attrs["_contents"].xs, i.attrs["_contents"].xs):
                if self.isarr(a) and self.isarr(b):
                    self.same_rows(it, self.rows(a), self.rows(b), node, "construction", "index and contents")
        return i

    def tojagged(self, it, me, L, d, node):
        if self.jag(d):
            M = self.L(d)
            self.same_rows(it, L.rows, M.rows, node, "elementwise", "structure applied")
            if not self.sp.conflict(L.flat, M.flat):
                self.sp.unify(L.flat, M.flat)
        elif self.isarr(d):
            self.same_rows(it, L.rows, self.rows(d), node, "elementwise", "structure applied")
        return self.mkjag(L, self.arr(("tojagged", str(L.key), str(self.keyof(d))), self.reach(L), None, None, None), me.cls)

    def _tojagged(self, it, me, L, args, kw, node):
        st, sp = args[:2]
        if not isinstance(st, Arr) or not isinstance(sp, Arr):
            return self.arr(("_tojagged", len(self.nums)))
        M = self.lists_from(st, sp)
        self.same_rows(it, L.rows, M.rows, node, "construction", "new structure")
        if not self.sp.conflict(L.flat, M.flat):
            self.sp.unify(L.flat, M.flat)
        key = ("_tojagged", me.attrs["$key"], str(M.key))
        c = me.attrs["_content"]
        if M is L:
            return me
        ext = self.reach(M) if it.memo.get(("canuse", str(L.key))) == 0 else self.sp.memo.setdefault(("ext",) + key, Space("the content of the rearranged array", dict((o, frozenset(["ext"])) for o in self.sp.find(M.target).tags), M.target))
        out = self.arr(key, ext, self.targetof(c) if isinstance(c, Arr) else None, None, c.bool if isinstance(c, Arr) else None)
        if isinstance(c, Arr) and ("a", c.key) in self.classof:
            self.classof[("a", out.key)] = self.classof[("a", c.key)]
        i = self.mkjag(M, out, me.cls)
        i.attrs["_starts"], i.attrs["_stops"] = st, sp
        return i


ROWRESULT = {"counts", "boolmask", "fillna", "pad", "regular", "astype", "flattentuple", "zeros_like", "ones_like", "empty_like", "isunmasked", "__array__"}


class Analysis(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.sites = set()

    def entries(self):
        for c in sorted(self.prog.awkward_classes(), key=lambda c: c.qualname):
            if c.name not in LAYOUTS or c.module.name.split(".")[-1] == "pandas":
                continue
            seen = set()
            for k in c.mro():
                for n, f in sorted(k.methods.items()):
                    if c.find(n) is f and n not in seen:
                        seen.add(n)
                        yield c, f

    def args(self, f, skip):
        a = f.node.args
        out = []
        for p in f.params[skip:]:
            out.append(Tok("any", p))
        return out

    def run(self):
        for c, f in self.entries():
            if f.name in AXIOM or f.name in ("__init__", "__new__", "__array_finalize__", "_valid", "__repr__", "__str__", "__setstate__", "__getstate__", "type", "_gettype", "__awkward_serialize__", "_getnbytes", "nbytes", "_checktype"):
                continue
            self.one(c, f)
            if f.name in ("flatten", "__array_ufunc__", "__setitem__"):
                self.one(c, f, variant=1)

    def one(self, c, f, limit=160, variant=0):
        rep = self.rep
        rep.count("methods")

        def make():
            h = H(self.prog, f, c)

            def body(run):
                skip = {"staticmethod": 0, "function": 0, "bothmethod": 2}.get(f.kind, 1)
                if f.kind == "classmethod":
                    me = ClsRef(c)
                elif f.kind in ("staticmethod", "function"):
                    me = None
                else:
                    me = h.make(c, "self", "self")
                h.me = me
                args = self.args(f, skip)
                a = f.node.args
                nd = len(a.defaults)
                if f.name == "flatten":
                    args = args[:len(args) - nd] if nd else args
                    if variant:
                        args = [1]
                if f.name in ("_concatenate_axis0", "_concatenate_axis1") and isinstance(me, ClsRef):
                    args = [PyList([h.make(c, "first", "the first array"), h.make(c, "second", "the second array")])]
                kw = {}
                if f.name == "__setitem__" and variant:
                    h.classof[("t", "what")] = "ndarray"
                if f.name == "__array_ufunc__":
                    ins = [Tok("any", "input0"), Tok("any", "input1")]
                    h.classof[("t", "input0")] = c
                    if variant:
                        h.classof[("t", "input1")] = c
                    return run.call(Fn(f, me), [Tok("ufunc", "ufunc"), "__call__"] + ins, {})
                return run.call(Fn(f, me), args, kw)
            return h, body
        n = 0
        for run, h, result, raised, und in paths(self.prog, make, limit, 4 * limit):
            n += 1
            rep.count("paths")
            if und is not None:
                rep.count("paths not followed to the end")
                self.why = getattr(self, "why", {})
                k = "%s: %s" % (f.short(), und)
                self.why[k] = self.why.get(k, 0) + 1
            for s in h.judged:
                self.sites.add(s)
                rep.count("comparisons of spaces")
                rep.ok() if len(h.judged) and s else None
            if raised is not None and raised.name == "ValueError" and h.unusable is not None and not h.degenerate and f.name not in ("offsets", "fromoffsets") and getattr(raised, "offsets", None) is not None:
                (g, line), node = h.unusable
                g = g or f
                rep.bad("offsets", "%s|%s" % (g.short(), ast.unparse(node)[:90]), "%s:%d (%s)" % (g.module.relpath, line, g.short()), "offsets of sublists that may not be contiguous read with no alternative in `%s` [%s as %s]" % (ast.unparse(node)[:140], f.short(), c.name))
            if raised is not None or h.degenerate:
                continue
            if und is None and f.name in ROWRESULT and isinstance(h.me, Inst):
                r = h.rows(result) if h.isarr(result) else None
                R = h.rows(h.me)
                if r is not None and R is not None:
                    rep.count("results compared")
                    if h.sp.conflict(r, R) :
                        rep.bad("result", "%s|result" % f.short(), f.where, "%s [as %s] returns an array over %s" % (f.short(), c.name, h.sp.find(r).name))
                    else:
                        rep.ok()
            if und is None and f.name == "flatten" and not variant and h.jag(h.me):
                r = h.rows(result) if h.isarr(result) else None
                rep.count("results compared")
                if r is not None and h.sp.conflict(r, h.L(h.me).flat):
                    rep.bad("result", "%s|result" % f.short(), f.where, "%s [as %s] returns an array over %s" % (f.short(), c.name, h.sp.find(r).name))
                elif r is not None:
                    rep.ok()
            for rule, g, line, node, msg in h.events:
                g = g or f
                src = ast.unparse(node) if node is not None else ""
                rep.bad(rule, "%s|%s" % (g.short(), src[:90]), "%s:%d (%s)" % (g.module.relpath, line, g.short()), "%s in `%s` [%s as %s]" % (msg, src[:140], f.short(), c.name))
        if n > limit:
            rep.count("methods with more paths than followed")


def run(prog):
    rep = Report("C18", RULE)
    a = Analysis(prog, rep)
    a.run()
    rep.count("sites", len(a.sites))
    rep.floor("comparisons of spaces", 5000)
    rep.floor("results compared", 200)
    rep.floor("sites", 100)
    rep.why = getattr(a, "why", {})
    return rep
