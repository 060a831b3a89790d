"""C13: missing values stay missing.

Every operation of the masked array classes, and the conversions of masked arrays, are interpreted abstractly for a missing and for a present
element (sa/lanes.py), for both senses of maskedwhen, both bit orders and any missing marker of an index mask.  The result must have the
missing element missing (or the value documented for it: -1 counts, nan, the fill value, the identity of the reduction) and the present
element's own value for the present one; garbage that lies under a mask must reach no result.
"""
import ast
from sa.model import AnalysisBroken
from sa.interp import Tok, Inst, ClsRef, Fn, Ext, Meth, PyDict, PyList, Raise, Undecided, Lam, paths
from sa.lanes import LaneHooks, Vec, Bits, Cat, Red, Ma, El, Num, Key, GARB, ABS, UNK, NAN, MISSING, M, P, inside, konst, isbool, equal, ev
from sa.report import Report

RULE = ("element-wise abstract interpretation (lanes: missing / present) of the operations of MaskedArray, BitMaskedArray and IndexedMaskedArray and of the conversions that carry masks, for every sense of maskedwhen, "
        "bit order and missing marker; obligations per (method, class, variant, lane): missing elements give what stands for missing, present ones their own value, nothing under a mask is used")
ASSUMPTIONS = ("numpy functions select, assign and combine element by element as documented", "content classes do element by element what their methods say")

MASKED = ("MaskedArray", "BitMaskedArray", "IndexedMaskedArray")


ARROWKINDS = ("dictionary", "struct", "list", "large_list", "union sparse", "union dense", "string", "large_string", "binary", "large_binary", "bool_", "int64")
ARROWCLASSES = {"DictionaryType": ("dictionary",), "StructType": ("struct",), "ListType": ("list",), "LargeListType": ("large_list",), "UnionType": ("union sparse", "union dense"),
                "SparseUnionType": ("union sparse",), "DenseUnionType": ("union dense",)}


class ArrowBuffers(object):
    """the buffers of an Arrow array: validity first, then whatever the type has"""
    def __init__(self, data):
        self.data, self.taken = data, 0
        self.name = "buffers"

    def __repr__(self):
        return "buffers"


class ArrowData(object):
    def __init__(self, h, kind, nulls):
        self.h, self.kind, self.nulls = h, kind, nulls
        self.array = Tok("arrow", "array")
        self.buffers = ArrowBuffers(self)
        self.depth = 0

    def valid(self):
        return Bits(self.h.by("self", {M: False, P: True}), True) if self.nulls else None

    def values(self, **kw):
        return Vec(self.h.by("self", {M: GARB, P: ("V", "self")}), **kw)

    def pop(self):
        self.buffers.taken += 1
        return self.valid() if self.buffers.taken == 1 else None if self.kind == "union sparse" and self.buffers.taken == 3 else self.values(kind="nd")

    def nested(self):
        """the arrays inside: the validity of dictionary-encoded values is that of their indexes"""
        if self.kind != "dictionary" or not self.nulls:
            return self.values(kind="nd")
        c = self.h.layout("BitMaskedArray")
        return Inst(c, {"_mask": self.valid(), "_content": self.values(kind="nd"), "_maskedwhen": False, "_lsborder": True, "_isvalid": True}, "index")


class H(LaneHooks):
    arrow = None

    def getattr(self, it, o, name, node):
        if self.arrow is not None:
            if isinstance(o, Tok) and o.kind == "arrow":
                if name == "type":
                    return Tok("arrowtype", self.arrow.kind if o.name == "array" else "inner")
                if name == "offset":
                    return 0
                if name == "null_count":
                    return Num("nulls") if self.arrow.nulls else 0
                return Meth(o, name) if name in ("buffers", "flatten", "field") else Tok("arrow", name)
            if isinstance(o, Tok) and o.kind == "arrowtype":
                return o.name.split()[-1] if name == "mode" else 1 if name in ("num_fields", "num_children") else "x" if name == "name" else Tok("arrowtype", "inner")
            if isinstance(o, ArrowBuffers):
                return Meth(o, name)
        return LaneHooks.getattr(self, it, o, name, node)

    def getitem(self, it, o, k, node):
        if isinstance(o, Tok) and o.kind == "arrowtype":
            return o
        if isinstance(o, ArrowBuffers):
            raise Undecided("buffers taken by position")
        if self.arrow is not None and isinstance(o, Vec):
            if isinstance(k, (int, Num)) and not isinstance(k, bool):
                return Num("offset", o.ck)
            return o
        return LaneHooks.getitem(self, it, o, k, node)

    def isinstance(self, it, v, c):
        if self.arrow is not None and isinstance(v, Tok) and v.kind == "arrowtype":
            names = [x.name.split(".")[-1] for x in (c if isinstance(c, tuple) else (c,)) if isinstance(x, Ext)]
            return any(v.name in ARROWCLASSES.get(n, (v.name,)) for n in names)
        return LaneHooks.isinstance(self, it, v, c)

    def same(self, it, a, b):
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == "arrowtype":
            return a.name == b.name
        return LaneHooks.same(self, it, a, b)

    def call(self, it, f, args, kw, node):
        w = self.arrow
        if w is None:
            return LaneHooks.call(self, it, f, args, kw, node)
        if isinstance(f, Meth) and isinstance(f.obj, ArrowBuffers):
            if f.name == "pop" and args == [0]:
                return w.pop()
            raise Undecided("buffers.%s" % f.name)
        if isinstance(f, Meth) and isinstance(f.obj, Tok) and f.obj.kind == "arrow":
            return w.buffers if f.name == "buffers" else Tok("arrow", f.name)
        if isinstance(f, Ext):
            n = f.name.split(".")
            if n[0] == "pyarrow" and len(n) == 2 and not args:
                return Tok("arrowtype", n[1])
            if n[-1] == "len" and args and isinstance(args[0], ArrowBuffers):
                return 0
            if n[-1] == "len" and args and isinstance(args[0], Tok) and args[0].kind == "arrow":
                return Num("len", "array")
            if n[-1] == "hasattr" and args and isinstance(args[0], Tok) and args[0].kind == "arrowtype":
                return bool(it.fork(("hasattr", args[0].name, args[1])))
            if n[-1] == "getattr" and len(args) == 3 and isinstance(args[0], Tok) and args[0].kind == "arrowtype":
                return args[2]
            if n[-1] == "hasattr" and args and isinstance(args[0], Ext):
                return True
            if n[-1] in ("frombuffer", "asarray", "array") and args and isinstance(args[0], (Bits, Vec)):
                return args[0]
            if n[-1] == "frombuffer" and args and args[0] is None:
                raise Raise("TypeError")
            if "numpy" in n and args and isinstance(args[0], Vec) and n[-1] in ("unpackbits", "arange", "logical_and"):
                return w.values(kind="nd")
            if n[-1] in ("arange", "empty", "zeros") and "numpy" in n:
                return w.values(kind="nd")
        if isinstance(f, Meth) and isinstance(f.obj, Vec):
            return Num("offset", f.name) if f.name in ("max", "min", "sum") else f.obj
        if isinstance(f, Lam) and any(isinstance(a, ArrowBuffers) for a in args):
            if w.depth:
                return w.nested()
            w.depth += 1
        if isinstance(f, Fn) and f.f.name == "fromarrow" and args and args[0] is not w.array:
            return w.values()
        c = f.cls if isinstance(f, ClsRef) else f.me.cls if isinstance(f, Fn) and isinstance(f.me, ClsRef) and f.f.name.startswith("from") else None
        n = self.kindof(c) if c is not None else None
        if n is not None and n not in MASKED:
            x = next((a for a in args if isinstance(a, Inst) and self.kindof(a.cls) in MASKED), None)
            if x is not None:
                raise Undecided("masked arrays inside")
            return w.values(kind=n)
        return LaneHooks.call(self, it, f, args, kw, node)


def masked(h, cname, owner, mw, lsb=False):
    """a masked array in general position: one lane per kind of element"""
    c = h.layout(cname)
    h.own(owner, (M, P))
    return c, owner, mw, lsb


def build(h, spec):
    c, owner, mw, lsb = spec
    i = Inst(c, {}, owner)
    a = i.attrs
    n = h.kindof(c)
    if n == "IndexedMaskedArray":
        a["_mask"] = Vec(h.by(owner, {M: mw, P: ("pos", owner)}), kind="nd", ck=("mask", owner))
        a["_content"] = Vec(h.by(owner, {M: GARB, P: ("V", owner)}), pool=owner, ck=("content", owner))
    else:
        raw = h.by(owner, {M: mw, P: not mw})
        a["_mask"] = Vec(raw, kind="nd", ck=("mask", owner)) if n == "MaskedArray" else Bits(raw, lsb)
        a["_content"] = Vec(h.by(owner, {M: GARB, P: ("V", owner)}), ck=("content", owner))
        a["_content"].long = n == "MaskedArray"
        if n == "BitMaskedArray":
            a["_lsborder"] = lsb
    a["_maskedwhen"] = mw
    a["_isvalid"] = True
    return i


def element(h, r, lane):
    """what a result holds for one lane: MISSING, or a lane value"""
    if isinstance(r, Vec):
        if r.rev or r.groups:
            return UNK
        return GARB if r.pool is not None else r.lanes[lane]
    if isinstance(r, Ma):
        m = element(h, r.mask, lane)
        return MISSING if m is True else (element(h, r.data, lane) if m is False else UNK)
    if isinstance(r, Inst):
        n = h.kindof(r.cls)
        a = r.attrs
        if n in MASKED:
            mw = a.get("_maskedwhen")
            if not konst(mw):
                return UNK
            m, c = a.get("_mask"), a.get("_content")
            if n == "BitMaskedArray":
                if not isinstance(m, Bits):
                    return UNK
                if m.lsb is not None and m.lsb != a.get("_lsborder"):
                    return GARB
                b = m.lanes[lane]
                if not isbool(b):
                    return b if b in (ABS, GARB) else UNK
                return MISSING if b == bool(mw) else element(h, c, lane)
            if not isinstance(m, Vec) or m.rev:
                return UNK
            if n == "MaskedArray" and isinstance(c, Vec) and (m.rep is None) != (c.rep is None):
                return GARB
            b = m.lanes[lane]
            if b == ABS:
                return ABS
            if n == "MaskedArray":
                if isinstance(b, int):
                    b = bool(b)
                if not isbool(b):
                    return GARB if b == GARB else UNK
                return MISSING if b == bool(mw) else element(h, c, lane)
            e = equal(b, mw)
            if e is True:
                return MISSING
            if b in (GARB, UNK):
                return b
            if isinstance(c, Vec):
                return h.at(c, lane, b)
            return UNK
    return UNK


def part(h, r, k):
    """the k-th part of a concatenated result"""
    if isinstance(r, Cat):
        return r.parts[k]
    if isinstance(r, Inst) and h.kindof(r.cls) in MASKED:
        i = Inst(r.cls, dict(r.attrs), r.name)
        c = r.attrs["_content"]
        m = r.attrs["_mask"]
        if not isinstance(c, Cat) or not isinstance(m, Cat):
            raise Undecided("concatenated result")
        i.attrs["_content"], i.attrs["_mask"] = c.parts[k], m.parts[k]
        if h.kindof(r.cls) == "MaskedArray" and any(getattr(x, "long", False) != getattr(y, "long", False) for x, y in list(zip(c.parts, m.parts))[:k]):
            i.attrs["_content"] = h.const(GARB)
        if h.kindof(r.cls) == "IndexedMaskedArray":
            want = tuple(("pool", x.pool) for x in c.parts[:k])
            x = m.parts[k]
            i.attrs["_mask"] = x.like(dict((l, shifted(v, want)) for l, v in x.lanes.items()))
        return i
    raise Undecided("concatenated result")


def shifted(v, want):
    if isinstance(v, tuple) and v[0] == "pos":
        if isinstance(v[1], tuple) and v[1][0] == "part":
            return ("pos", v[1][1]) if tuple(sorted(map(str, v[1][2]))) == tuple(sorted(map(str, want))) else GARB
        return v if not want else GARB
    return v


class Analysis(object):
    HOOKS = H

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.why = {}
        self.done = {}

    # ------------------------------------------------------------------ running one entry
    def run(self, f, c, setup, judge, what, limit=300, needed=True):
        """interpret method f on all paths; judge(h, result, raised) -> list of (rule, message)"""
        rep = self.rep
        rep.count("entries")
        followed = gave = undecided = 0
        names = set()

        def make():
            h = self.HOOKS(self.prog)

            def body(run):
                me, args, kw = setup(h)
                h.me = me
                return run.call(Fn(f, me), args, kw)
            return h, body
        for run, h, result, raised, und in paths(self.prog, make, limit, 0):
            rep.count("paths")
            if und is not None:
                rep.count("paths not followed to the end")
                k = "%s [%s]: %s" % (f.short(), what, und)
                self.why[k] = self.why.get(k, 0) + 1
                undecided += 1
                continue
            if raised is None:
                gave += 1
            else:
                names.add(raised.name)
            try:
                out = judge(h, result, raised)
            except Undecided as u:
                rep.count("paths not followed to the end")
                k = "%s [%s]: judging: %s" % (f.short(), what, u)
                self.why[k] = self.why.get(k, 0) + 1
                continue
            followed += 1
            for ok, rule, msg in out:
                if ok is None:
                    rep.count("elements not decided")
                    k = "%s [%s]: %s not decided: %s" % (f.short(), what, rule, msg)
                    self.why[k] = self.why.get(k, 0) + 1
                elif ok:
                    rep.count("elements judged")
                    rep.ok("%s [%s]: %s" % (f.short(), what, rule))
                else:
                    rep.count("elements judged")
                    rep.bad(rule, "%s|%s" % (f.short(), rule), f.where, "%s [%s] %s" % (f.short(), what, msg))
        if followed and not gave and not undecided and needed and names != {"NotImplementedError"}:
            rep.bad("raises", "%s|raises" % f.short(), f.where, "%s [%s] raises %s whatever the array is" % (f.short(), what, ", ".join(sorted(names))))
        if followed:
            rep.count("entries followed")
            self.done[f.short()] = self.done.get(f.short(), 0) + 1

    # ------------------------------------------------------------------ judgements
    def lanes(self, h, r, owners, miss, what="the result", only=None, also=()):
        """every live lane: missing if any owner's element is missing, else the owners' own values"""
        out = []
        for l in h.lanes:
            if l in h.dead or only is not None and not only(l):
                continue
            e = element(h, r, l)
            missing = any(l[h.oi(o)] == M for o in tuple(owners) + tuple(also))
            if inside(e, UNK):
                out.append((None, "missing" if missing else "present", "%r" % (r,)))
            elif missing:
                ok = miss(e) if callable(miss) else e == miss
                out.append((ok, "missing", "%s: a missing element gives %s" % (what, self.say(e))))
            else:
                ok = e != MISSING and e != ABS and e != GARB and not inside(e, GARB) and all(inside(e, ("V", o)) for o in owners)
                out.append((ok, "present", "%s: an element that is not missing gives %s" % (what, self.say(e))))
        return out

    def say(self, e):
        return {MISSING: "a missing element", GARB: "something that does not belong to it (what lies under the mask, or at another position)", ABS: "no element at all", NAN: "nan"}.get(e, repr(e))

    def variants(self, cname):
        if cname == "IndexedMaskedArray":
            return [("maskedwhen=-1", -1, False), ("maskedwhen=7", 7, False)]
        if cname == "BitMaskedArray":
            return [("maskedwhen=%s, lsborder=%s" % (m, b), m, b) for m in (True, False) for b in (True, False)]
        return [("maskedwhen=True", True, False), ("maskedwhen=False", False, False)]

    # ------------------------------------------------------------------ the specifications
    def one(self, cname, name, args, judge, kwargs=None, limit=300):
        c = next(c for c in self.prog.awkward_classes() if c.name == cname and c.module.name.split(".")[-1] != "pandas")
        f = c.find(name)
        if f is None:
            return
        for vn, mw, lsb in self.variants(cname):
            def setup(h):
                h.keynames = ("i",)
                s = masked(h, cname, "self", mw, lsb)
                me = build(h, s)
                me = me if f.kind not in ("classmethod", "staticmethod") else ClsRef(c)
                a = args(h) if callable(args) else list(args)
                return me, a, dict(kwargs or {})
            self.run(f, c, setup, judge, "%s %s" % (cname, vn), limit)

    def keeps(self, owners=("self",), also=()):
        def judge(h, r, raised):
            if raised is not None:
                return []
            rs = r if isinstance(r, tuple) else (r,)
            out = []
            for x in rs:
                out += self.lanes(h, x, owners, MISSING, also=also)
            return out
        return judge

    def all(self):
        lam = self
        for cname in MASKED:
            keep = self.keeps()
            # whole-array operations that keep what is missing
            for name, args in (("copy", []), ("deepcopy", []), ("empty_like", []), ("zeros_like", []), ("ones_like", []), ("choose", [2]), ("argchoose", [2]), ("distincts", []), ("argdistincts", []), ("pairs", []),
                               ("argpairs", []), ("flattentuple", []), ("astype", [Tok("type", "t")]), ("indexed", [])):
                self.one(cname, name, args, keep)
            self.one(cname, "cross", [Tok("any", "other")], keep)
            self.one(cname, "argcross", [Tok("any", "other")], keep)
            self.one(cname, "pad", [3], keep)
            self.one(cname, "pad", [3], keep, {"maskedwhen": False, "clip": True})
            # a content or another sense of the mask given to copy
            self.copies(cname)
            # items
            self.items(cname)
            self.iteration(cname)
            self.masks(cname)
            # one value per element
            self.one(cname, "counts", [], self.values(lambda e: e == -1))
            self.one(cname, "regular", [], self.values(lambda e: e == NAN))
            self.one(cname, "fillna", [Tok("scalar", "value")], self.values(lambda e: e == ("tok", "value")))
            self.flat(cname)
            self.reducers(cname)
            self.ufuncs(cname)
            self.concat(cname)
            self.fromcontent(cname)
        self.bits()
        self.arrow()

    def values(self, miss):
        def judge(h, r, raised):
            if raised is not None:
                return []
            return self.lanes(h, r, ("self",), miss)
        return judge

    def copies(self, cname):
        c = self.cls(cname)
        f = c.find("copy")
        for vn, mw, lsb in self.variants(cname):
            def setup(h):
                me = build(h, masked(h, cname, "self", mw, lsb))
                x = me.attrs["_content"]
                return me, [], {"content": h.fun("other", x)}
            self.run(f, c, setup, self.keeps(), "%s %s, content given" % (cname, vn))
            if cname == "IndexedMaskedArray":
                continue

            def setup2(h):
                me = build(h, masked(h, cname, "self", mw, lsb))
                raw = h.by("self", {M: not mw, P: mw})
                return me, [], {"mask": Vec(raw, kind="nd") if cname == "MaskedArray" else Bits(raw, lsb), "maskedwhen": not mw}
            self.run(f, c, setup2, self.keeps(), "%s %s, mask and maskedwhen given" % (cname, vn))
            if cname == "MaskedArray":
                def setup3(h):
                    me = build(h, masked(h, cname, "self", mw, lsb))
                    return me, [], {"mask": Vec(h.by("self", {M: int(mw), P: int(not mw)}), kind="nd")}
                self.run(f, c, setup3, self.keeps(), "%s %s, mask of integers given" % (cname, vn))
            else:
                def setup4(h):
                    me = build(h, masked(h, cname, "self", mw, lsb))
                    return me, [], {"mask": Bits(h.by("self", {M: mw, P: not mw}), not lsb), "lsborder": not lsb}
                self.run(f, c, setup4, self.keeps(), "%s %s, mask and lsborder given" % (cname, vn))

    def cls(self, cname):
        return next(c for c in self.prog.awkward_classes() if c.name == cname and c.module.name.split(".")[-1] != "pandas")

    def items(self, cname):
        def single(tail):
            def judge(h, r, raised):
                if "i" not in h.chosen:
                    return [] if raised is not None else [(False, "item", "an item is given back without looking at the mask: %r" % (r,))]
                l = h.chosen["i"]
                if l[0] == M:
                    if raised is not None:
                        return [(True, "item", "")] if tail else [(False, "item", "a missing element raises %s" % raised.name)]
                    return [(r == MISSING, "item", "the item of a missing element is %r" % (r,))]
                if raised is not None:
                    return [(False, "item", "an element that is not missing raises %s" % raised.name)] if raised.name == "ValueError" else []
                if isinstance(r, El):
                    v = r.val
                    return [(v != GARB and inside(v, ("V", "self")) and str(r.key) == "i", "item", "the item of an element that is not missing is %s" % self.say(v))]
                return [(False if r == MISSING else None, "item", "the item of an element that is not missing is %r" % (r,))]
            return judge
        self.one(cname, "__getitem__", lambda h: [Key("i", True)], single(False))
        self.one(cname, "__getitem__", lambda h: [(Key("i", True), Tok("any", "tail"))], single(True))

        def many(h, r, raised):
            if raised is not None:
                return []
            return self.lanes(h, r, ("self",), MISSING)
        if cname != "BitMaskedArray":
            self.one(cname, "__getitem__", lambda h: [Key("s", False)], many)
            self.one(cname, "__getitem__", lambda h: [(Key("s", False), Tok("any", "tail"))], many)
        self.one(cname, "__getitem__", lambda h: [Tok("str", "column")], many)
        self.one(cname, "__getitem__", lambda h: [h.const(("row",), kind="nd")], many)

        c = self.cls(cname)
        f = c.find("__getitem__")
        for vn, mw, lsb in self.variants(cname):
            def setup(h):
                h.own("where", (True, False))
                me = build(h, masked(h, cname, "self", mw, lsb))
                return me, [Vec(h.by("where", {True: True, False: False}), kind="nd")], {}

            def judge(h, r, raised):
                if raised is not None:
                    return []
                out = []
                for a, b, m in self.lanes(h, r, ("self",), MISSING, only=lambda l: l[0]):
                    out.append((a, "selected-" + b, m))
                for l in h.lanes:
                    if not l[0]:
                        e = element(h, r, l)
                        out.append((None if e == UNK else e == ABS, "selected-out", "an element that is not selected gives %s" % self.say(e)))
                return out
            self.run(f, c, setup, judge, "%s %s, boolean index" % (cname, vn))

    def iteration(self, cname):
        c = self.cls(cname)
        f = c.find("__iter__")
        pats = [(0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 0, 1), (1, 0, 0, 1, 0, 1, 1, 0, 0, 0, 1, 0, 1, 1, 1, 0, 1, 0)]
        n = 18 if cname == "BitMaskedArray" else 3
        for vn, mw, lsb in self.variants(cname):
            for pat in pats:
                def setup(h):
                    h.MAXLOOP = n
                    h.pattern = pat
                    return build(h, masked(h, cname, "self", mw, lsb)), [], {}

                def judge(h, r, raised):
                    out = []
                    if raised is not None:
                        return out
                    for i, y in enumerate(h.yields):
                        l = h.lanes[pat[i % len(pat)]]
                        if l[0] == M:
                            out.append((y == MISSING, "iteration", "element %d is missing but iteration yields %r" % (i, y)))
                        elif isinstance(y, El):
                            out.append((y.val not in (GARB,) and inside(y.val, ("V", "self")) and y.key == i, "iteration", "element %d is not missing but iteration yields %r" % (i, y)))
                        else:
                            out.append((False if y == MISSING else None, "iteration", "element %d is not missing but iteration yields %r" % (i, y)))
                    return out
                self.run(f, c, setup, judge, "%s %s" % (cname, vn), 40)

    def masks(self, cname):
        for when in (True, False):
            def judge(h, r, raised):
                if raised is not None:
                    return [(False, "boolmask", "boolmask(maskedwhen=%s) raises %s" % (when, raised.name))]
                out = []
                for l in h.lanes:
                    e = element(h, r, l)
                    out.append((None if e == UNK else e is (when if l[0] == M else not when), "boolmask", "maskedwhen=%s is %r for a %s element" % (when, e, l[0])))
                return out
            self.one(cname, "boolmask", [], judge, {"maskedwhen": when})
            self.one(cname, "ismasked" if when else "isunmasked", [], judge)
        if cname != "IndexedMaskedArray":
            def judge(h, r, raised):
                out = []
                mw = h.me.attrs["_maskedwhen"]
                for l in h.lanes:
                    e = element(h, r, l) if raised is None else UNK
                    out.append((None if e == UNK else e is (mw if l[0] == M else not mw), "boolmask", "boolmask() is %r for a %s element" % (e, l[0])))
                return out
            self.one(cname, "boolmask", [], judge)

    def flat(self, cname):
        def judge(h, r, raised):
            if raised is not None:
                return []
            out = self.lanes(h, r, ("self",), MISSING)
            if isinstance(r, Inst) and isinstance(r.attrs.get("_mask"), Vec):
                rep = r.attrs["_mask"].rep
                for l in h.lanes:
                    n = None if rep is None else rep[l]
                    if inside(n, UNK):
                        out.append((None, "flatten-count", repr(n)))
                    elif l[0] == M:
                        out.append((n == 1, "flatten-count", "a missing element becomes %r elements" % (n,)))
                    else:
                        out.append((n is not None and inside(n, ("V", "self")) and inside(n, "counts"), "flatten-count", "an element that is not missing becomes %r elements" % (n,)))
            return out
        self.one(cname, "flatten", [], judge)
        for want in (0, 3, -1):
            # lists that are empty, lists of three items, elements that are no lists
            def known(h, r, raised):
                if raised is not None:
                    return []
                out = []
                if isinstance(r, Inst) and isinstance(r.attrs.get("_mask"), Vec):
                    rep = r.attrs["_mask"].rep
                    for l in h.lanes:
                        n = None if rep is None else rep[l]
                        should = 1 if l[0] == M or want == -1 else want
                        out.append((None if inside(n, UNK) else n == should, "flatten-count", "%s becomes %r elements" % ("a missing element" if l[0] == M else "an element of count %d" % want, n)))
                return out

            def args(h):
                h.countis = want
                return []
            self.one(cname, "flatten", args, known)

    def reducers(self, cname):
        variants = [("count", None, 0), ("count_nonzero", Ext("numpy.count_nonzero"), 0), ("ufunc", Tok("ufunc", "ufunc"), Tok("scalar", "identity")), ("minimum", Ext("numpy.minimum"), Ext("numpy.inf")),
                    ("maximum", Ext("numpy.maximum"), Ext("-numpy.inf"))]
        ident = {"count": (NAN,), "count_nonzero": (0, False), "ufunc": (("tok", "identity"),)}

        def right(vn, e, prepared):
            if vn in ident:
                return e in ident[vn]
            if vn == "minimum":
                return e == ("tok", "numpy.inf") or e is True or isinstance(e, tuple) and e[0] == "tok" and e[1].endswith(".max")
            return e == ("tok", "-numpy.inf") or e is False or isinstance(e, tuple) and e[0] == "tok" and e[1].endswith(".min")
        for vn, uf, idt in variants:
            def prep(h, r, raised):
                if raised is not None:
                    return []
                if not isinstance(r, Vec):
                    return [(None, "prepared", "%r" % (r,))]
                return [(a, "prepared-" + b, m) for a, b, m in self.lanes(h, r, ("self",), lambda e: right(vn, e, True), "the array prepared for a reduction (%s)" % vn)]
            self.one(cname, "_prepare", [uf, idt, None], prep)

            def red(h, r, raised):
                if raised is not None:
                    return []
                if isinstance(r, Red):
                    v = r.vec
                    if not isinstance(v, Vec):
                        return [(None, "reduced", "%r" % (r,))]

                    def contributes(e):
                        if vn in ("count", "count_nonzero"):
                            return e in (0, ABS, False)
                        return e == ABS or right(vn, e, False)
                    out = []
                    for l in h.lanes:
                        e = v.lanes[l]
                        if e == UNK:
                            out.append((None, "reduced", repr(v)))
                        elif l[0] == M:
                            out.append((contributes(e), "reduced-missing", "a missing element takes part in the reduction (%s) as %s" % (vn, self.say(e))))
                        else:
                            out.append((e not in (ABS, GARB) and inside(e, ("V", "self")), "reduced-present", "an element that is not missing takes part in the reduction (%s) as %s" % (vn, self.say(e))))
                    return out
                if isinstance(r, Inst):
                    return self.lanes(h, r, ("self",), MISSING, "the reduced sublists")
                return [(None, "reduced", "%r" % (r,))]
            self.one(cname, "_reduce", [uf, idt, None], red)
        for n in ("argmin", "argmax"):
            def arg(h, r, raised):
                if raised is not None:
                    return []
                if isinstance(r, Inst):
                    return self.lanes(h, r, ("self",), MISSING, "the reduced sublists")
                want = frozenset([(P,)])
                if isinstance(r, Num):
                    return [(r.key == ("rowof", n, want), "argreduce", "%s is %r: not the position, among all elements, of the %simum of those that are not missing" % (n, r.key, n[3:]))]
                return [(None, "argreduce", "%r" % (r,))]
            self.one(cname, n, [], arg)

    def ufuncs(self, cname):
        c = self.cls(cname)
        f = c.find("__array_ufunc__")
        others = [("scalar", None), ("array", None)] + [(o, v) for o in MASKED for v in self.variants(o)]
        for vn, mw, lsb in self.variants(cname):
            for oname, ov in others:
                for order in (0, 1):
                    if ov is not None and (order or ov != self.variants(oname)[0] and oname == cname and vn != self.variants(cname)[0][0]):
                        continue
                    for two in ("one", "two") if oname in ("scalar", "MaskedArray") else ("one",):
                        def setup(h):
                            h.uf = two
                            s = masked(h, cname, "self", mw, lsb)
                            o = masked(h, oname, "other", ov[1], ov[2]) if ov is not None else None
                            me = build(h, s)
                            if o is not None:
                                x = build(h, o)
                            elif oname == "scalar":
                                x = Tok("scalar", "other")
                            else:
                                x = h.const(("V", "array"), kind="nd")
                            ins = [me, x] if order == 0 else [x, me]
                            return me, [Tok("ufunc", "ufunc"), "__call__"] + ins, {}

                        def judge(h, r, raised):
                            if raised is not None:
                                return []
                            if not isinstance(r, tuple):
                                r = (r,)
                            out = []
                            owners = ("self", "other") if ov is not None else ("self",)
                            if (len(r) == 2) != (two == "two"):
                                out.append((False, "ufunc-results", "%d results for %s" % (len(r), two)))
                            for x in r:
                                for a, b, m in self.lanes(h, x, owners, MISSING):
                                    out.append((a, "ufunc-" + b, m))
                                if oname == "array":
                                    for l in h.lanes:
                                        e = element(h, x, l)
                                        if l[0] == P and e != UNK:
                                            out.append((inside(e, ("V", "array")), "ufunc-operand", "the other operand's element is not used: %r" % (e,)))
                            return out
                        self.run(f, c, setup, judge, "%s %s with %s%s%s" % (cname, vn, oname, " first" if order else "", ", two results" if two == "two" else ""), 60)

    def concat(self, cname):
        c = self.cls(cname)
        f = c.find("_concatenate_axis0")
        vs = self.variants(cname)
        for va in vs:
            for vb in vs:
                def setup(h):
                    a = masked(h, cname, "self", va[1], va[2])
                    b = masked(h, cname, "other", vb[1], vb[2])
                    return ClsRef(c), [PyList([build(h, a), build(h, b)])], {}

                def judge(h, r, raised):
                    if raised is not None:
                        return []
                    out = []
                    for k, o in enumerate(("self", "other")):
                        for a, b, m in self.lanes(h, part(h, r, k), (o,), MISSING, "part %d" % k):
                            out.append((a, "concatenated-" + b, m))
                    return out
                self.run(f, c, setup, judge, "%s %s and %s" % (cname, va[0], vb[0]))

    def fromcontent(self, cname):
        c = self.cls(cname)
        f = c.find("fromcontent")
        for kw in ([{}, {"maskedwhen": True}, {"maskedwhen": False}] if cname != "IndexedMaskedArray" else [{}, {"maskedwhen": -1}, {"maskedwhen": -2}]):
            for b in ((None, True, False) if cname == "BitMaskedArray" else (None,)):
                k = dict(kw)
                if b is not None:
                    k["lsborder"] = b

                def setup(h):
                    h.own("self", (P,))
                    return ClsRef(c), [h.const(("V", "self"), ck=("content", "self"), pool="self" if cname == "IndexedMaskedArray" else None)], dict(k)

                def judge(h, r, raised):
                    return [] if raised is not None else [(a, "fromcontent", m) for a, b_, m in self.lanes(h, r, ("self",), MISSING)]
                self.run(f, c, setup, judge, "%s %r" % (cname, sorted(k.items())))
        f = c.find("fromboolmask")
        if cname == "BitMaskedArray" and f is not None:
            for mw in (True, False):
                for b in (True, False):
                    def setup(h):
                        h.own("self", (M, P))
                        return ClsRef(c), [Vec(h.by("self", {M: mw, P: not mw}), kind="nd"), Vec(h.by("self", {M: GARB, P: ("V", "self")}))], {"maskedwhen": mw, "lsborder": b}
                    self.run(f, c, setup, self.keeps(), "maskedwhen=%s, lsborder=%s" % (mw, b))

    def arrow(self):
        """conversions to and from Arrow"""
        m = next((m for n, m in self.prog.modules.items() if n.split(".")[-1] == "arrow"), None)
        if m is None:
            return
        f = m.funcs.get("toarrow")
        kinds = ("nd", "JaggedArray", "StringArray", "Table")
        for cname in MASKED if f is not None else ():
            for vn, mw, lsb in self.variants(cname):
                for kind in kinds:
                    def setup(h):
                        me = build(h, masked(h, cname, "self", mw, lsb))
                        me.attrs["_content"].kind = kind
                        return None, [me], {}
                    self.run(f, None, setup, self.keeps(), "%s %s of %s" % (cname, vn, kind))
                for other in MASKED:
                    def setup2(h):
                        inner = masked(h, other, "inner", *self.variants(other)[-1][1:])
                        outer = masked(h, cname, "self", mw, lsb)
                        x = build(h, inner)
                        return None, [self.nested(h, build(h, outer), x)], {}
                    if cname != "IndexedMaskedArray" and other != "IndexedMaskedArray":
                        self.run(f, None, setup2, self.keeps(("inner",), also=("self",)), "%s %s of %s" % (cname, vn, other))
        f = m.funcs.get("fromarrow")
        if f is None:
            return

        for kind in ARROWKINDS:
            for nulls in (True, False):
                def setup(h):
                    h.own("self", (M, P) if nulls else (P,))
                    h.arrow = ArrowData(h, kind, nulls)
                    return None, [h.arrow.array], {}

                def judge(h, r, raised):
                    if raised is not None:
                        return []
                    if not isinstance(r, (Inst, Vec, Ma)):
                        return [(None, "fromarrow", repr(r))]
                    out = []
                    for l in h.lanes:
                        if nulls and isinstance(r, Inst) and h.kindof(r.cls) == "BitMaskedArray" and not isinstance(r.attrs.get("_mask"), Bits):
                            out.append((False, "fromarrow-mask", "the mask is %r, not the validity bits" % (r.attrs.get("_mask"),)))
                            continue
                        e = element(h, r, l)
                        if e == UNK and nulls and l[0] == M and not (isinstance(r, Inst) and h.kindof(r.cls) in MASKED):
                            e = GARB                # a null whose validity was dropped: what lies under it is given
                        if l[0] == M:
                            out.append((e == MISSING, "fromarrow-missing", "a null is converted to %s" % self.say(e)))
                        else:
                            out.append((e not in (MISSING, GARB), "fromarrow-present", "a value that is not null is converted to %s" % self.say(e)))
                    return out
                self.run(f, None, setup, judge, "Arrow array of %s %s nulls" % (kind, "with" if nulls else "without"), 60)

    def nested(self, h, outer, x):
        outer.attrs["_content"] = x
        x.attrs["_mask"].long = x.attrs["_content"].long = True
        return outer

    def bits(self):
        """positions of a bit mask, read through _maskwhere"""
        c = self.cls("BitMaskedArray")
        f = c.find("_maskwhere")
        if f is None:
            return
        for vn, mw, lsb in self.variants("BitMaskedArray"):
            def setup(h):
                return build(h, masked(h, "BitMaskedArray", "self", mw, lsb)), [Vec(h.by("self", {M: True, P: True}), kind="nd", ck=("where", 0))], {}

            def judge(h, r, raised):
                if raised is not None:
                    return []
                return [(None if element(h, r, l) == UNK else element(h, r, l) is (mw if l[0] == M else not mw), "maskwhere", "the mask read for a %s element is %r" % (l[0], element(h, r, l))) for l in h.lanes]
            self.run(f, c, setup, judge, "BitMaskedArray %s, boolean index" % vn)


def run(prog):
    rep = Report("C13", RULE)
    a = Analysis(prog, rep)
    a.all()
    rep.floor("entries followed", 400)
    rep.floor("elements judged", 3500)
    rep.why = a.why
    rep.done = a.done
    return rep
