"""C20: the lists of a JaggedArray keep their own items, in order, through every operation that rearranges them.

The operations of JaggedArray that select, cut, flatten, rebuild or combine lists are interpreted on arrays of three lists of symbolic sizes
(contiguous, not starting at zero, out of order with gaps; sa/seq.py), and the result is compared list by list and item by item with what it must be.
"""
import ast
import os
from sa.interp import Ext, Tok, Inst, ClsRef, Fn, PyDict, PyList, Raise, Undecided
from sa.seq import L, K, Cond, Seq, opaque, plain
from sa.report import Report
from checks.c19 import Check, H, S, l, k, bad, expect, number, sums, cells, ASSUMPTIONS

RULE = ("abstract interpretation of JaggedArray's operations on lists of symbolic sizes (segments with values linear in the position; linear facts per path): every list of the result is compared, "
        "item by item, with the items it must have")
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"


class H20(H):
    def getitem(self, it, o, k, node):
        if isinstance(o, Inst) and o.cls.name == "JaggedArray":
            return it.call_fn(o.cls.find("__getitem__"), o, [k], {})
        return H.getitem(self, it, o, k, node)


    def binop(self, it, op, a, b, node):
        for x in (a, b):
            if isinstance(x, Inst) and x.cls.name == "JaggedArray":
                u = {"Add": "add", "Sub": "subtract"}.get(type(op).__name__)
                if u is None:
                    raise Undecided("arithmetic on jagged arrays")
                return it.call_fn(x.cls.find("__array_ufunc__"), x, [Ext("numpy." + u), "__call__", a, b], {})
        return H.binop(self, it, op, a, b, node)

    def call(self, it, f, args, kw, node):
        if isinstance(f, Ext) and f.name in ("numpy.add.__call__", "numpy.subtract.__call__") and len(args) == 2:
            return H.binop(self, it, ast.Add() if "add" in f.name else ast.Sub(), args[0], args[1], node)
        return H.call(self, it, f, args, kw, node)

    def iterate(self, it, v):
        if self.isnum(v):
            raise Raise("TypeError")
        return H.iterate(self, it, v)

    def yielded(self, it, v, node):
        self.yields.append(v)
        return None


LAYOUTS = ("contiguous", "shifted", "scattered")
SIZES = ["c0", "c1", "c2"]


def jagged(h, ck, layout, names=("c0", "c1", "c2"), content="x", tag="", boolean=None):
    """three lists with c0, c1, c2 items; -> (the array, [the items of every list])"""
    n = len(names)
    cs = [l(c) for c in names]
    if layout == "scattered":
        order = [2, 0, 1][:n] if n == 3 else list(range(n))[::-1]
        pos, starts = l(0), [None] * n
        for j, i in enumerate(order):
            pos = pos + l("g%d%s" % (j, tag))
            starts[i] = pos
            pos = pos + cs[i]
        total = pos
    else:
        pos = l("g" + tag) if layout == "shifted" else l(0)
        starts = []
        for c in cs:
            starts.append(pos)
            pos = pos + c
        total = pos
    stops = [s + c for s, c in zip(starts, cs)]
    length = total + l("rest" + tag) if layout != "contiguous" else total
    x = Seq([(length, L.of((content, k)))], "any") if boolean is None else boolean
    a = Inst(ck.cls("JaggedArray"), {"_starts": cells(*starts), "_stops": cells(*(stops + ([l("extra" + tag)] if layout == "scattered" else []))), "_content": x,
                                     "_offsets": None, "_counts": None, "_parents": None, "_isvalid": False}, "self")
    if layout == "scattered":
        h.facts.add(Cond("ge", length - l("extra" + tag)))
    return a, [Seq(h_cut(x, s, c), "any") for s, c in zip(starts, cs)]


def h_cut(x, s, c):
    (n, v), = x.segs
    from sa.seq import subst
    return [(c, subst(v, k + s))]


NAMES = SIZES + ["g", "g0", "g1", "g2", "rest", "extra"]


def lists(h, it, got):
    if isinstance(got, Inst) and got.cls.name == "JaggedArray":
        st, sp, ct = got.attrs.get("_starts"), got.attrs.get("_stops"), got.attrs.get("_content")
        if not all(isinstance(x, Seq) for x in (st, sp, ct)):
            raise Undecided("a jagged array of %r" % (ct,))
        n = st.len.const
        if n is None:
            raise Undecided("any number of lists")
        out = []
        for i in range(n):
            if not h.ge(it, sp.len, i + 1):
                bad("list %d has no stop" % i)
            a, z = l(h.at(it, st, l(i))), l(h.at(it, sp, l(i)))
            if h.decide(Cond("eq", a - z)):
                out.append(S())
                continue
            if h.decide(Cond("ge", a)) is not True or h.decide(Cond("ge", z - a)) is not True or h.decide(Cond("ge", ct.len - z)) is not True:
                bad("list %d of the result, from %r to %r, need not be in its content of length %r" % (i, a, z, ct.len))
            out.append(Seq(h.cut(it, ct.segs, a, z), "any"))
        return out
    raise Undecided("result %r" % (got,))


def judge(h, it, got, want):
    got = lists(h, it, got)
    if len(got) != len(want):
        bad("%d lists instead of %d" % (len(got), len(want)))
    for i, (x, y) in enumerate(zip(got, want)):
        expect(h, it, x, y, "list %d" % i)


def tok(*parts):
    if all(x is None or isinstance(x, int) for x in parts):
        return slice(*parts)
    t = Tok("slice", "where", ())
    t.parts = parts
    return t


def run(prog):
    rep = Report("C20", RULE)
    ck = Check(prog, rep, H20)
    getitem(ck)
    whole(ck)
    build(ck)
    rep.floor("entries_followed", 60)
    return rep


def allof(h, *names):
    for n in names:
        h.facts.add(Cond("ge", l(n) - 1))


def getitem(ck):
    for layout in LAYOUTS:
        # one list
        for i in (0, 1, 2, -1, -3):
            def b(h, it, f, i=i):
                a, xs = jagged(h, ck, layout)
                got = it.call(Fn(f.f, a), [i], {})
                expect(h, it, got, xs[i], "the items of list %d" % i)
            ck.entry("JaggedArray", "__getitem__", "[%d], %s" % (i, layout), NAMES, b)
        # some lists
        for label, where, pick in (("[1:]", slice(1, None), [1, 2]), ("[::-1]", slice(None, None, -1), [2, 1, 0]), ("[::2]", slice(None, None, 2), [0, 2]), ("[[2, 0, 0]]", (2, 0, 0), [2, 0, 0]), ("[[-1, 1]]", (-1, 1), [2, 1]),
                                   ("[[False, True, True]]", (False, True, True), [1, 2]), ("[[False, False, False]]", (False, False, False), [])):
            def b(h, it, f, where=where, pick=pick):
                a, xs = jagged(h, ck, layout)
                if isinstance(where, tuple):
                    where = Seq([(L.of(1), x) for x in where], "bool" if isinstance(where[0], bool) else "int")
                judge(h, it, it.call(Fn(f.f, a), [where], {}), [xs[i] for i in pick])
            ck.entry("JaggedArray", "__getitem__", "%s, %s" % (label, layout), NAMES, b)
        # an item of every list
        for j in ("j", 0, -1, "-j"):
            def b(h, it, f, j=j):
                a, xs = jagged(h, ck, layout)
                jj = -l("j") - 1 if j == "-j" else l(j)
                try:
                    got = it.call(Fn(f.f, a), [(slice(None), plain(jj))], {})
                except Raise as r:
                    if r.name != "IndexError":
                        raise
                    if not any(h.decide(Cond("ge", jj - l(c))) or h.decide(Cond("ge", -jj - l(c) - 1)) for c in SIZES):
                        bad("refuses an item that is not known to be missing from a list")
                    return
                pos = [jj if h.ge(it, jj, 0) else jj + l(c) for c in SIZES]
                for i, (p, c) in enumerate(zip(pos, SIZES)):
                    if not h.decide(Cond("ge", p)) or not h.decide(Cond("ge", l(c) - 1 - p)):
                        bad("takes an item that list %d need not have" % i)
                expect(h, it, got, cells(*[h.at(it, x, p) for x, p in zip(xs, pos)]), "item %s of every list" % (j,))
            ck.entry("JaggedArray", "__getitem__", "[:, %s], %s" % (j, layout), NAMES + ["j"], b)
        # a slice of every list
        for lo, hi, st in ((None, None, None), ("a", None, None), (None, "b", None), ("a", "b", None), ("-a", None, None), (None, "-b", None), (None, None, -1), ("a", None, -1), (None, "b", -1)):
            if not THOROUGH and layout == "shifted" and lo is not None and hi is not None:
                continue

            def b(h, it, f, lo=lo, hi=hi, st=st):
                a, xs = jagged(h, ck, layout)
                p = [None if x is None else -l(x[1:]) - 1 if x[0] == "-" else l(x) for x in (lo, hi)]
                where = tok(p[0], p[1], st)
                got = it.call(Fn(f.f, a), [(slice(None), where)], {})
                judge(h, it, got, [h.getslice(it, x, where) for x in xs])
            ck.entry("JaggedArray", "__getitem__", "[:, %s:%s:%s], %s" % (lo or "", hi or "", st or "", layout), NAMES + ["a", "b"], b, 400)
        # jagged index
        for other in LAYOUTS:
            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout, ("c0", "c1"))
                idx, _ = jagged(h, ck, other, ("d0", "d1"), tag="i")
                # the items of the index: list 0 takes the first items, list 1 the last ones
                h.facts.add(Cond("ge", l("c0") - l("d0")))
                h.facts.add(Cond("ge", l("c1") - l("d1")))
                n = idx.attrs["_content"].len
                st = [h.at(it, idx.attrs["_starts"], l(i)) for i in (0, 1)]
                vals = {0: (l("d0"), k), 1: (l("d1"), k - l("d1"))}
                segs, pos = [], l(0)
                for i in sorted((0, 1), key=lambda i: [1, 0].index(i) if other == "scattered" else i):
                    segs += [(st[i] - pos, -7), vals[i]]
                    pos = st[i] + vals[i][0]
                idx.attrs["_content"] = Seq(segs + [(n - pos, -9)], "int")
                got = it.call(Fn(f.f, a), [idx], {})
                judge(h, it, got, [h.getslice(it, xs[0], tok(None, l("d0"), None)), h.getslice(it, xs[1], tok(l("c1") - l("d1"), None, None))])
            ck.entry("JaggedArray", "__getitem__", "[jagged index, %s], %s" % (other, layout), NAMES + ["d0", "d1"] + [x + "i" for x in NAMES], b, 400)

            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout, ("c0", "c1"))
                m, _ = jagged(h, ck, other, ("c0", "c1"), tag="i")
                h.facts.add(Cond("ge", l("c0") - l("d0")))
                h.facts.add(Cond("ge", l("c1") - l("d1")))
                n = m.attrs["_content"].len
                st = [h.at(it, m.attrs["_starts"], l(i)) for i in (0, 1)]
                vals = {0: [(l("d0"), True), (l("c0") - l("d0"), False)], 1: [(l("d1"), False), (l("c1") - l("d1"), True)]}
                segs, pos = [], l(0)
                for i in sorted((0, 1), key=lambda i: [1, 0].index(i) if other == "scattered" else i):
                    segs += [(st[i] - pos, True)] + vals[i]
                    pos = st[i] + l("c%d" % i)
                m.attrs["_content"] = Seq(segs + [(n - pos, True)], "bool")
                got = it.call(Fn(f.f, a), [m], {})
                judge(h, it, got, [h.getslice(it, xs[0], tok(None, l("d0"), None)), h.getslice(it, xs[1], tok(l("d1"), None, None))])
            ck.entry("JaggedArray", "__getitem__", "[jagged mask, %s], %s" % (other, layout), NAMES + ["d0", "d1"] + [x + "i" for x in NAMES], b, 400)


def whole(ck):
    for layout in LAYOUTS:
        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            got = it.call(Fn(f.f, a), [], {})
            expect(h, it, got, Seq([s for x in xs for s in x.segs], "any"), "the items")
        ck.entry("JaggedArray", "flatten", layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            judge(h, it, it.call(Fn(f.f, a), [], {}), xs)
        ck.entry("JaggedArray", "compact", layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            h.follow_yields, h.yields = True, []
            it.call(Fn(f.f, a), [], {})
            got = h.yields
            if len(got) != 3:
                bad("%d lists instead of 3" % len(got))
            for i, (x, y) in enumerate(zip(got, xs)):
                expect(h, it, x, y, "list %d" % i)
        ck.entry("JaggedArray", "__iter__", layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            got = it.call(Fn(f.f, a), [cells(l("u"), l("v"), l("w"))], {})
            judge(h, it, got, [S((l(c), l(v))) for c, v in zip(SIZES, "uvw")])
        ck.entry("JaggedArray", "tojagged", "a value per list, %s" % layout, NAMES, b)

        for other in LAYOUTS:
            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout)
                o, ys = jagged(h, ck, other, content="y", tag="i")
                judge(h, it, it.call(Fn(f.f, a), [o], {}), ys)
            ck.entry("JaggedArray", "tojagged", "%s in the layout of %s" % (other, layout), NAMES + [x + "i" for x in NAMES], b, 400)

            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout)
                o, ys = jagged(h, ck, other, ("d0", "d1"), content="y", tag="i")
                judge(h, it, it.call(f, [PyList([a, o])], {}), xs + ys)
            ck.entry("JaggedArray", "_concatenate_axis0", "%s and %s" % (layout, other), NAMES + ["d0", "d1"] + [x + "i" for x in NAMES], b, 400)

            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout, ("c0", "c1"))
                o, ys = jagged(h, ck, other, ("d0", "d1"), content="y", tag="i")
                judge(h, it, it.call(f, [PyList([a, o])], {}), [Seq(x.segs + y.segs, "any") for x, y in zip(xs, ys)])

        minus = Ext("numpy.subtract")

        def less(h, it, xs, ys):
            return [h.zip(it, lambda p, q: h.arith(ast.Sub(), p, q), x, y, "any") for x, y in zip(xs, ys)]
        for other in LAYOUTS:
            def b(h, it, f, other=other):
                a, xs = jagged(h, ck, layout)
                o, ys = jagged(h, ck, other, content="y", tag="i")
                judge(h, it, it.call(Fn(f.f, a), [minus, "__call__", a, o], {}), less(h, it, xs, ys))
            ck.entry("JaggedArray", "__array_ufunc__", "%s and %s" % (layout, other), NAMES + [x + "i" for x in NAMES], b, 400)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            v = cells(l("u"), l("v"), l("w"))
            judge(h, it, it.call(Fn(f.f, a), [minus, "__call__", a, v], {}), less(h, it, xs, [S((l(c), l(u))) for c, u in zip(SIZES, "uvw")]))
        ck.entry("JaggedArray", "__array_ufunc__", "%s and a value per list" % layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            v = cells(l("u"), l("v"), l("w"))
            judge(h, it, it.call(Fn(f.f, a), [minus, "__call__", v, a], {}), less(h, it, [S((l(c), l(u))) for c, u in zip(SIZES, "uvw")], xs))
        ck.entry("JaggedArray", "__array_ufunc__", "a value per list and %s" % layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            judge(h, it, it.call(Fn(f.f, a), [minus, "__call__", a, l("u")], {}), less(h, it, xs, [S((l(c), l("u"))) for c in SIZES]))
        ck.entry("JaggedArray", "__array_ufunc__", "%s and a number" % layout, NAMES, b)

        def b(h, it, f):
            a, xs = jagged(h, ck, layout)
            got = it.call(Fn(f.f, a), [Ext("numpy.add"), 0, None], {})
            want = [h.reduced(it, "add", x.segs) if h.ge(it, l(c), 1) else 0 for c, x in zip(SIZES, xs)]
            expect(h, it, got, cells(*want), "one value per list")
        ck.entry("JaggedArray", "_reduce", layout, NAMES, b)

        for clip in (False, True):
            def b(h, it, f, clip=clip):
                a, xs = jagged(h, ck, layout)
                if clip:
                    allof(h, "m")
                got = it.call(Fn(f.f, a), [l("m")], {"clip": clip})
                if not isinstance(got, Inst) or got.cls.name != "JaggedArray":
                    raise Undecided("pad")
                m = got.attrs["_content"]
                if isinstance(m, Inst) and m.cls.name == "IndexedMaskedArray":
                    for i, x in enumerate(lists(h, it, Inst(got.cls, dict(got.attrs, _content=m.attrs["_mask"]), "mask"))):
                        expect(h, it, x, S((l("m"), -1)), "the missing items of list %d" % i)
                    return
                if not isinstance(m, Inst) or m.cls.name != "MaskedArray":
                    raise Undecided("pad")
                mask, content = m.attrs["_mask"], m.attrs["_content"]
                want, wantmask = [], []
                for c, x in zip(SIZES, xs):
                    keep = l("m") if clip and h.ge(it, l(c), l("m")) else l(c)
                    more = l("m") - keep if h.ge(it, l("m"), keep) else l(0)
                    want.append((keep, h.cut(it, x.segs, l(0), keep)))
                    wantmask.append(S((keep, False), (more, True)))
                g1 = lists(h, it, Inst(got.cls, dict(got.attrs, _content=mask), "mask"))
                for i, (x, y) in enumerate(zip(g1, wantmask)):
                    expect(h, it, Seq(h.boolsegs(it, x), "bool"), y, "the missing items of list %d" % i)
                g2 = lists(h, it, Inst(got.cls, dict(got.attrs, _content=content), "content"))
                for i, (x, (n, y)) in enumerate(zip(g2, want)):
                    expect(h, it, Seq(h.cut(it, x.segs, l(0), n), "any"), Seq(y, "any"), "the items of list %d" % i)
            ck.entry("JaggedArray", "pad", "clip=%s, %s" % (clip, layout), NAMES + ["m"], b, 400)


def build(ck):
    x = lambda n: Seq([(l(n), L.of(("x", k)))], "any")

    def cut(a, n):
        return S((l(n), L.of(("x", k + l(a)))))

    def b(h, it, f):
        h.facts.add(Cond("ge", l("N") - sums(*SIZES)[-1]))
        s = sums(*SIZES)
        judge(h, it, it.call(f, [cells(*map(l, SIZES)), x("N")], {}), [cut(s[i], c) for i, c in enumerate(SIZES)])
    ck.entry("JaggedArray", "fromcounts", "three lists", SIZES + ["N"], b)

    def b(h, it, f):
        s = sums("g", *SIZES)[1:]
        h.facts.add(Cond("ge", l("N") - s[-1]))
        judge(h, it, it.call(f, [cells(*s), x("N")], {}), [cut(s[i], c) for i, c in enumerate(SIZES)])
    ck.entry("JaggedArray", "fromoffsets", "three lists", SIZES + ["N", "g"], b)

    for label, order in (("in order", (0, 1, 2)), ("out of order", (2, 0, 1)), ("with items of no list", (1, -1, 0))):
        def b(h, it, f, order=order):
            allof(h, "c0", "c1", "c2")
            s = sums(*SIZES)
            h.facts.add(Cond("eq", l("N") - s[-1]))
            n = max(order) + 1
            judge(h, it, it.call(f, [S(*[(l(c), o) for c, o in zip(SIZES, order)]), x("N")], {}), [cut(s[order.index(i)], SIZES[order.index(i)]) for i in range(n)])
        ck.entry("JaggedArray", "fromparents", label, SIZES + ["N"], b)

    def b(h, it, f):
        allof(h, "c0", "c1", "c2")
        h.facts.add(Cond("ne", l("u") - l("v")))
        s = sums(*SIZES)
        h.facts.add(Cond("eq", l("N") - s[-1]))
        judge(h, it, it.call(f, [S(*[(l(c), l(o)) for c, o in zip(SIZES, "uvu")]), x("N")], {}), [cut(s[i], c) for i, c in enumerate(SIZES)])
    ck.entry("JaggedArray", "fromuniques", "three runs", SIZES + ["N"], b)

    def b(h, it, f):
        allof(h, "c0", "c1", "c2")
        s = sums(*SIZES)
        h.facts.add(Cond("eq", l("N") - s[-1]))
        judge(h, it, it.call(f, [S(*[(l(c), k) for c in SIZES]), x("N")], {}), [cut(s[i], c) for i, c in enumerate(SIZES)])
    ck.entry("JaggedArray", "fromlocalindex", "three lists", SIZES + ["N"], b)

    for size in (1, 2, 3):
        def b(h, it, f, size=size):
            n = l("n").times(size) + (size - 1)
            got = it.call(f, [Seq([(n, L.of(("x", k)))], "any"), size], {})
            st, sp, ct = (got.attrs[y] for y in ("_starts", "_stops", "_content"))
            expect(h, it, st, S((l("n") + (1 if size > 1 else 0), k.times(size))), "starts")
            expect(h, it, sp, S((l("n"), (k + 1).times(size)), *([(1, n)] if size > 1 else [])), "stops")
        ck.entry("JaggedArray", "fromfolding", "size %d" % size, ["n"], b)
