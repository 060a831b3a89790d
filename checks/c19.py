"""C19: counts, offsets, parents, positions and chunks are converted into each other exactly.

The helpers everything else rests on (counts2offsets, offsets2parents, startsstops2parents, parents2startsstops, uniques2offsetsparents, localindex,
IndexedArray.invert, UnionArray.fromtags, SparseArray's inverse, boolmask and dense, ChunkedArray's chunk lookup and bookkeeping, AppendableArray's
append and extend) are interpreted on arrays of symbolic lengths (sa/seq.py); what they give at every position is compared with what it must be.
"""
import os
import ast
from sa.model import AnalysisBroken
from sa.interp import Tok, Inst, ClsRef, Fn, Ext, Meth, PyDict, PyList, Raise, Undecided, paths
from sa.seq import L, K, Cond, Seq, SeqHooks, UNINIT, opaque, plain, one
from sa.report import Report

RULE = ("abstract interpretation of the position helpers on arrays made of segments of symbolic length (values linear in the position; linear facts per path): the value at every position of the result, "
        "and the state left behind, are compared with what they denote, on every path")
ASSUMPTIONS = ("numpy functions do as documented", "three lists, runs, chunks or tags of any sizes stand for any number of them")


class Bad(Exception):
    pass


def S(*segs, **kw):
    return Seq([(L.of(n), v) for n, v in segs], kw.get("dtype", "int"))


def l(x):
    return L.of(x)


k = L.of(K)


class H(SeqHooks):
    def __init__(self, prog, nonneg=()):
        SeqHooks.__init__(self, prog, nonneg)

    def trust(self, it, f, args, kw):
        n = f.f.name
        if n in ("_gettype", "_checkiter"):
            return None
        if n == "_canuseoffset" and hasattr(self, "canuse"):
            return self.canuse
        if n == "offsetsaliased":
            return False
        return NotImplemented


class Check(object):
    def __init__(self, prog, rep, hooks=None):
        self.prog, self.rep, self.hooks = prog, rep, hooks or H
        self.seen = set()

    def cls(self, n):
        return next(c for c in self.prog.classes.values() if c.name == n and c.module.name.startswith("awkward0.array"))

    def entry(self, cname, mname, label, nonneg, body, limit=3000):
        """body(h, it, f) -> interprets and judges one path; raises Bad with what is wrong"""
        c = self.cls(cname)
        f = c.find(mname)
        name = "%s.%s" % (cname, mname)
        if f is None:
            self.rep.count("entries_missing")
            return
        self.rep.count("entries")
        done = judged = 0

        def make():
            h = self.hooks(self.prog, nonneg)
            return h, lambda it: body(h, it, Fn(f, ClsRef(c) if f.kind == "classmethod" else None))
        for run, h, result, raised, und in paths(self.prog, make, limit, 0):
            self.rep.count("paths")
            if und is not None:
                self.rep.count("paths_not_followed")
                self.rep.notes.append("%s (%s): %s" % (name, label, und)) if len(self.rep.notes) < 400 else None
                continue
            done += 1
            if raised is not None and not h.possible():
                self.rep.count("paths_impossible")
                continue
            where = "%s:%d" % (f.module.relpath if hasattr(f.module, "relpath") else f.module.name, f.node.lineno)
            if raised is not None:
                if raised.name == "$bad":
                    self.rep.bad("position", "%s: %s" % (name, raised.value), where, "%s (%s): %s; on the path where %s" % (name, label, raised.value, facts(h)))
                else:
                    self.rep.bad("refused", "%s: %s" % (name, raised.name), where, "%s (%s) raises %s for valid arguments; on the path where %s" % (name, label, raised.name, facts(h)))
                continue
            judged += 1
            self.rep.ok("%s (%s)" % (name, label))
        if done:
            self.rep.count("entries_followed")
        else:
            self.rep.notes.append("%s (%s): no path followed" % (name, label))


def facts(h):
    return ", ".join("%r >= 0" % x for x in h.facts.ge[-6:]) or "nothing is assumed"


def bad(what):
    raise Raise("$bad", what)


def expect(h, it, got, want, what):
    d = h.differs(it, got, want)
    if d:
        bad("%s: %s" % (what, d))


def number(h, it, got, want, what):
    if not h.isnum(got) or not h.decide(Cond("eq", l(got) - l(want))):
        bad("%s is %r instead of %r" % (what, got, want))


def sums(*xs):
    out, acc = [l(0)], l(0)
    for x in xs:
        acc = acc + l(x)
        out.append(acc)
    return out


def cells(*xs):
    return S(*[(1, x) for x in xs])


THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"


def run(prog):
    rep = Report("C19", RULE)
    ck = Check(prog, rep)
    jagged(ck)
    indexed(ck)
    union(ck)
    sparse(ck)
    chunked(ck)
    appendable(ck)
    if rep.counts.get("entries_missing"):
        rep.notes.append("helpers that no longer exist: %d" % rep.counts["entries_missing"])
    rep.floor("entries_followed", 40)
    return rep


# ---------------------------------------------------------------------- jagged
def jagged(ck):
    for n in (0, 1, 3):
        cs = ["c%d" % i for i in range(n)]

        def b(h, it, f, cs=cs):
            expect(h, it, it.call(f, [cells(*map(l, cs))], {}), cells(*sums(*cs)), "offsets")
        ck.entry("JaggedArray", "counts2offsets", "%d lists" % n, cs, b)

        for first in ("0", "g"):
            def b(h, it, f, cs=cs, first=first):
                o = [l(0) if first == "0" else l("g")]
                for c in cs:
                    o.append(o[-1] + l(c))
                want = S((o[0], -1), *[(l(c), i) for i, c in enumerate(cs)])
                expect(h, it, it.call(f, [cells(*o)], {}), want, "parents")
            ck.entry("JaggedArray", "offsets2parents", "%d lists from %s on" % (n, first), cs + ["g"], b)

    # sublists in any order, with gaps; g: gaps
    for label, order in (("in order", (0, 1, 2)), ("out of order", (2, 0, 1)), ("one list", (0,))):
        def b(h, it, f, order=order):
            h.facts.add(Cond("ge", l("c0") - 1))
            h.facts.add(Cond("ge", l("c%d" % order[-1]) - 1))
            pos, starts, stops, segs = l(0), {}, {}, []
            for j, i in enumerate(order):
                segs += [(l("g%d" % j), -1), (l("c%d" % i), i)]
                starts[i] = pos + l("g%d" % j)
                stops[i] = starts[i] + l("c%d" % i)
                pos = stops[i]
            n = len(order)
            got = it.call(f, [cells(*[starts[i] for i in range(n)]), cells(*[stops[i] for i in range(n)])], {})
            expect(h, it, got, S(*segs), "parents")
        ck.entry("JaggedArray", "startsstops2parents", label, ["c0", "c1", "c2", "g0", "g1", "g2"], b)

    # runs of parents: (length, owner)
    for label, owners, n in (("in order", (0, 1, 2), 3), ("out of order", (2, 0, 1), 3), ("with empty lists", (1, 3), 4), ("with items of no list", (1, -1, 0), 2), ("one run", (0,), 1), ("ending in none", (0, -1), 1)):
        def b(h, it, f, owners=owners, n=n):
            rs = ["r%d" % i for i in range(len(owners))]
            for r in rs:
                h.facts.add(Cond("ge", l(r) - 1))
            got = it.call(f, [S(*[(l(r), o) for r, o in zip(rs, owners)])], {})
            if not isinstance(got, tuple) or len(got) != 2:
                bad("not a pair")
            pos, starts, stops = l(0), [None] * n, [None] * n
            for r, o in zip(rs, owners):
                if o >= 0:
                    starts[o], stops[o] = pos, pos + l(r)
                pos = pos + l(r)
            if not h.decide(Cond("eq", got[0].len - n)) or not h.decide(Cond("eq", got[1].len - n)):
                bad("%r starts and %r stops for %d lists" % (got[0].len, got[1].len, n))
            for i in range(n):
                a, z = h.at(it, got[0], l(i)), h.at(it, got[1], l(i))
                if starts[i] is None:
                    number(h, it, z, a, "the stop of empty list %d" % i)
                    if not h.isnum(a) or h.decide(Cond("ge", l(a))) is not True or h.decide(Cond("ge", pos - l(a))) is not True:
                        bad("the start of empty list %d is outside the content" % i)
                else:
                    number(h, it, a, starts[i], "the start of list %d" % i)
                    number(h, it, z, stops[i], "the stop of list %d" % i)
        ck.entry("JaggedArray", "parents2startsstops", label, ["r0", "r1", "r2"], b)

    def b(h, it, f):
        got = it.call(f, [S()], {})
        expect(h, it, got[0], S(), "starts")
        expect(h, it, got[1], S(), "stops")
    ck.entry("JaggedArray", "parents2startsstops", "nothing", [], b)

    def b(h, it, f):
        got = it.call(f, [S()], {})
        expect(h, it, got[0], cells(0), "offsets")
        expect(h, it, got[1], S(), "parents")
    ck.entry("JaggedArray", "uniques2offsetsparents", "nothing", [], b)

    for label, vals in (("three runs", ("u", "v", "u")), ("one run", ("u",)), ("two runs", (5, 3))):
        def b(h, it, f, vals=vals):
            rs = ["r%d" % i for i in range(len(vals))]
            for r in rs:
                h.facts.add(Cond("ge", l(r) - 1))
            h.facts.add(Cond("ne", l("u") - l("v")))
            got = it.call(f, [S(*[(l(r), l(v)) for r, v in zip(rs, vals)])], {})
            if not isinstance(got, tuple) or len(got) != 2:
                bad("not a pair")
            expect(h, it, got[0], cells(*sums(*rs)), "offsets")
            expect(h, it, got[1], S(*[(l(r), i) for i, r in enumerate(rs)]), "parents")
        ck.entry("JaggedArray", "uniques2offsetsparents", label, ["r0", "r1", "r2"], b)

    # arrays of lists
    def lists(h, ck, contiguous, first):
        c = ck.cls("JaggedArray")
        cs = ["c0", "c1", "c2"]
        if contiguous:
            o = [l(0) if not first else l("g")]
            for x in cs:
                o.append(o[-1] + l(x))
            starts, stops, off = o[:-1], o[1:], cells(*o)
        else:
            starts = [l("g0") + l("c2") + l("g1"), l("g0") + l("c2") + l("g1") + l("c0") + l("g2"), l("g0")]
            stops = [s + l(x) for s, x in zip(starts, cs)]
            off = None
        a = Inst(c, {"_starts": cells(*starts), "_stops": cells(*(stops + ([l("extra")] if not contiguous else []))), "_content": opaque("x", "N"), "_offsets": off, "_counts": None, "_parents": None, "_isvalid": True}, "self")
        h.canuse = contiguous
        return a, cs, starts, stops

    for contiguous in (True, False):
        for first in (False, True):
            if not contiguous and first:
                continue
            label = "contiguous" if contiguous and not first else "contiguous, not from 0 on" if contiguous else "out of order"

            def b(h, it, f, contiguous=contiguous, first=first):
                a, cs, starts, stops = lists(h, ck, contiguous, first)
                expect(h, it, it.getattr(a, "counts"), cells(*map(l, cs)), "counts")
            ck.entry("JaggedArray", "counts", label, ["c0", "c1", "c2", "g", "g0", "g1", "g2", "N"], b)

            def b(h, it, f, contiguous=contiguous, first=first):
                a, cs, starts, stops = lists(h, ck, contiguous, first)
                h.facts.add(Cond("ge", l("c1") - 1))
                got = it.getattr(a, "parents")
                if contiguous:
                    want = S((l("g") if first else l(0), -1), *[(l(c), i) for i, c in enumerate(cs)])
                else:
                    want = S((l("g0"), -1), (l("c2"), 2), (l("g1"), -1), (l("c0"), 0), (l("g2"), -1), (l("c1"), 1))
                expect(h, it, got, want, "parents")
            ck.entry("JaggedArray", "parents", label, ["c0", "c1", "c2", "g", "g0", "g1", "g2", "N"], b)

            def b(h, it, f, contiguous=contiguous, first=first):
                a, cs, starts, stops = lists(h, ck, contiguous, first)
                h.made = None
                got = it.getattr(a, "localindex")
                if not isinstance(got, Inst) or "_starts" not in got.attrs:
                    raise Undecided("localindex")
                st, sp, ct = got.attrs["_starts"], got.attrs["_stops"], got.attrs["_content"]
                if not all(isinstance(x, Seq) for x in (st, sp, ct)):
                    raise Undecided("localindex")
                for i, c in enumerate(cs):
                    x, y = l(h.at(it, st, l(i))), l(h.at(it, sp, l(i)))
                    number(h, it, y - x, l(c), "the number of local positions of list %d" % i)
                    expect(h, it, Seq(h.cut(it, ct.segs, x, y)), S((l(c), k)), "the local positions of list %d" % i)
            ck.entry("JaggedArray", "localindex", label, ["c0", "c1", "c2", "g", "g0", "g1", "g2", "N"], b)


# ---------------------------------------------------------------------- indexed
def indexed(ck):
    def b(h, it, f):
        expect(h, it, it.call(f, [S()], {}), S(), "inverse")
    ck.entry("IndexedArray", "invert", "nothing", [], b)

    for label, ps in (("in any order", ("p0", "p1", "p2")), ("two", ("p0", "p1"))):
        def b(h, it, f, ps=ps):
            els = [l(p) for p in ps]
            for i, x in enumerate(els):
                for y in els[:i]:
                    h.facts.add(Cond("ne", x - y))
            got = it.call(f, [cells(*els)], {})
            if not isinstance(got, Seq):
                bad("the inverse is not an array")
            for i, x in enumerate(els):
                if not h.ge(it, got.len, x + 1):
                    bad("the inverse is too short")
                number(h, it, h.at(it, got, x), i, "the inverse at index[%d]" % i)
        ck.entry("IndexedArray", "invert", label, list(ps), b)

    def b(h, it, f):
        els = [l("p0"), l("p1"), l("p0")]
        h.facts.add(Cond("ne", els[0] - els[1]))
        try:
            it.call(f, [cells(*els)], {})
        except Raise as r:
            if r.name == "ValueError":
                return
            raise
        bad("an index with duplicates is inverted")
    ck.entry("IndexedArray", "invert", "with a duplicate", ["p0", "p1"], b)


# ---------------------------------------------------------------------- union
def union(ck):
    def b(h, it, f):
        h.facts.add(Cond("ge", l("a") - 1))
        tags = S((l("a"), 1), (l("b"), 0), (l("c"), 1), (l("d"), 0))
        got = it.call(f, [tags, PyList([opaque("x", "N"), opaque("y", "M")])], {})
        if not isinstance(got, Inst) or not isinstance(got.attrs.get("_index"), Seq):
            raise Undecided("fromtags")
        expect(h, it, got.attrs["_index"], S((l("a"), k), (l("b"), k), (l("c"), l("a") + k), (l("d"), l("b") + k)), "index")
        expect(h, it, got.attrs["_tags"], S((l("a"), 1), (l("b"), 0), (l("c"), 1), (l("d"), 0)), "tags")
        cs = it.iterate(got.attrs["_contents"])
        if len(cs) != 2:
            bad("contents")
    ck.entry("UnionArray", "fromtags", "two contents", ["a", "b", "c", "d", "N", "M"], b)

    def b(h, it, f):
        h.facts.add(Cond("ge", l("b") - 1))
        try:
            it.call(f, [S((l("a"), 0), (l("b"), 2)), PyList([opaque("x", "N"), opaque("y", "M")])], {})
        except Raise as r:
            if r.name == "ValueError":
                return
            raise
        bad("a tag without a content is accepted")
    ck.entry("UnionArray", "fromtags", "a tag too many", ["a", "b", "N", "M"], b)


# ---------------------------------------------------------------------- sparse
def sparse(ck):
    world = ["g0", "g1", "g2", "g3", "more"]

    def make(h, stored):
        c = ck.cls("SparseArray")
        pos, idx, segs = l("g0"), [], [(l("g0"), None)]
        for i in range(stored):
            idx.append(pos)
            segs += [(l(1), i), (l("g%d" % (i + 1)), None)]
            pos = pos + 1 + l("g%d" % (i + 1))
        n = pos
        a = Inst(c, {"_length": plain(n), "_index": cells(*idx), "_content": Seq([(l(stored) + l("more"), L.of(("x", k)))]), "_default": L.of("default"), "_inverse": None, "_isvalid": True}, "self")
        a.attrs["shape"] = (plain(n),)
        return a, segs

    for stored in (0, 1, 3):
        for when in (True, False):
            def b(h, it, f, stored=stored, when=when):
                a, segs = make(h, stored)
                got = it.call(Fn(f.f, a), [], {"maskedwhen": when})
                expect(h, it, got, S(*[(n, (i is not None) == when) for n, i in segs]), "boolmask")
            ck.entry("SparseArray", "boolmask", "%d stored, maskedwhen=%s" % (stored, when), world, b)

        def b(h, it, f, stored=stored):
            a, segs = make(h, stored)
            got = it.call(Fn(f.f, a), [], {})
            if not isinstance(got, Seq):
                bad("not an array")
            number(h, it, got.len, a.attrs["_length"], "the length of the inverse")
            # the inverse at every position: the row stored there, and a row that is stored elsewhere where none is
            want = S(*[(n, i) for n, i in segs])
            for n, g, w in h.common(it, got.segs, want.segs):
                if h.decide(Cond("eq", n)):
                    continue
                g = plain(one(n, g))
                if w is not None and g != w:
                    bad("the inverse of stored row %d is %r" % (w, g))
                if w is None and stored and not (isinstance(g, int) and 0 <= g < stored):
                    bad("the inverse of a position without a row is %r, with %d rows" % (g, stored))
        ck.entry("SparseArray", "_getinverse", "%d stored" % stored, world, b)

        def b(h, it, f, stored=stored):
            a, segs = make(h, stored)
            got = it.call(Fn(f.f, a), [], {})
            expect(h, it, got, S(*[(n, l("default") if i is None else L.of(("x", l(i)))) for n, i in segs]), "dense")
        ck.entry("SparseArray", "dense", "%d stored" % stored, world, b)


# ---------------------------------------------------------------------- chunks
def chunked(ck):
    names = ["s0", "s1", "s2"]

    def make(h, known, cached):
        c = ck.cls("ChunkedArray")
        chunks = [opaque("ch%d" % i, n) for i, n in enumerate(names)]
        sizes = [l(n) for n in names[:known]]
        a = Inst(c, {"_chunks": PyList(chunks), "_chunksizes": PyList(sizes), "_types": PyList([Tok("type", "t")] * 3), "_offsets": None}, "self")
        if cached is not None:
            a.attrs["_offsets"] = cells(*sums(*names[:cached]))
        return a, chunks

    def bookkeeping(h, it, a, atleast=0):
        """the chunk sizes known are those of the chunks, and the offsets those of the sizes"""
        xs = a.attrs["_chunksizes"].xs
        if len(xs) > 3:
            bad("more chunk sizes than chunks")
        if len(xs) < atleast:
            bad("%d chunk sizes are known instead of %d" % (len(xs), atleast))
        for i, x in enumerate(xs):
            number(h, it, x, l(names[i]), "the size of chunk %d" % i)
        expect(h, it, it.getattr(a, "offsets"), cells(*sums(*names[:len(xs)])), "offsets")
        return sums(*names)

    states = [(0, None), (1, None), (1, 1), (2, 2), (3, 3), (3, None), (2, 1)]
    for known, cached in states:
        label = "%d of 3 sizes known%s" % (known, "" if cached is None else ", offsets of %d kept" % cached)

        def b(h, it, f, known=known, cached=cached):
            a, _ = make(h, known, cached)
            expect(h, it, it.getattr(a, "offsets"), cells(*sums(*names[:known])), "offsets")
        ck.entry("ChunkedArray", "offsets", label, names, b)

        for until in (None, 0, 1, 2, 3, 5):
            def b(h, it, f, known=known, cached=cached, until=until):
                a, _ = make(h, known, cached)
                it.call(Fn(f.f, a), [], {} if until is None else {"until": until})
                bookkeeping(h, it, a, 3 if until is None else min(until, 3))
            ck.entry("ChunkedArray", "knowchunksizes", label + ", until %s" % until, names, b)

        def b(h, it, f, known=known, cached=cached):
            a, _ = make(h, known, cached)
            number(h, it, it.call(Fn(f.f, a), [], {}), l("s0") + l("s1") + l("s2"), "the length")
            bookkeeping(h, it, a)
        ck.entry("ChunkedArray", "__len__", label, names, b)

        def b(h, it, f, known=known, cached=cached):
            a, _ = make(h, known, cached)
            got = it.iterate(it.call(Fn(f.f, a), [], {}))
            off = bookkeeping(h, it, a)
            if len(got) != 3:
                bad("%d slices for 3 chunks" % len(got))
            for i, s in enumerate(got):
                lo, hi = (s.start, s.stop) if isinstance(s, slice) else s.parts[:2]
                number(h, it, lo, off[i], "the start of the slice of chunk %d" % i)
                number(h, it, hi, off[i + 1], "the stop of the slice of chunk %d" % i)
        ck.entry("ChunkedArray", "_slices", label, names, b)

        for fn in ("global2chunkid", "global2local"):
            def b(h, it, f, known=known, cached=cached, fn=fn):
                a, chunks = make(h, known, cached)
                total = l("s0") + l("s1") + l("s2")
                try:
                    got = it.call(Fn(f.f, a), [l("i")], {"return_normalized": True} if fn == "global2chunkid" else {})
                except Raise as r:
                    if r.name != "IndexError":
                        raise
                    if not (h.decide(Cond("ge", l("i") - total)) or h.decide(Cond("ge", -l("i") - total - 1))):
                        bad("refuses a position that is not known to be outside")
                    return
                off = bookkeeping(h, it, a)
                i = l("i") if h.ge(it, l("i"), 0) else l("i") + total
                if fn == "global2chunkid":
                    c, x = got
                    number(h, it, x, i, "the normalized position")
                else:
                    c, x = got
                    c = next((j for j, y in enumerate(chunks) if y is c), None)
                    if c is None:
                        bad("not one of the chunks")
                if not isinstance(plain(c), int) or not 0 <= plain(c) < 3:
                    bad("chunk %r" % (c,))
                c = plain(c)
                if not h.decide(Cond("ge", i - off[c])) or not h.decide(Cond("ge", off[c + 1] - i - 1)):
                    bad("a position that need not be in chunk %d is looked up there" % c)
                if fn == "global2local":
                    number(h, it, x, i - off[c], "the position in chunk %d" % c)
            ck.entry("ChunkedArray", fn, "one position, " + label, names, b)

        if known not in (1, 3) or (known, cached) == (1, None):
            continue

        for fn in ("global2chunkid", "global2local"):
            def b(h, it, f, known=known, cached=cached, fn=fn):
                a, chunks = make(h, known, cached)
                total = l("s0") + l("s1") + l("s2")
                els = [l("i"), l("j")]
                arg = cells(*els)
                try:
                    got = it.call(Fn(f.f, a), [arg], {"return_normalized": True} if fn == "global2chunkid" else {})
                except Raise as r:
                    if r.name != "IndexError":
                        raise
                    big = L.of(("max",) + tuple(sorted(els, key=repr)))
                    if not any(h.decide(Cond("ge", e - total)) or h.decide(Cond("ge", -e - total - 1)) for e in els):
                        if not any(isinstance(x[0], tuple) and x[0][0] == "max" for g in h.facts.ge for x in g.d):
                            bad("refuses positions that are not known to be outside")
                        # the largest position is outside
                    return
                off = bookkeeping(h, it, a)
                expect(h, it, arg, cells(*els), "the index given by the caller")
                c, x = got
                if not isinstance(c, Seq) or not isinstance(x, Seq):
                    bad("not arrays")
                for j, e in enumerate(els):
                    i = e if h.ge(it, e, 0) else e + total
                    cc, xx = plain(h.at(it, c, l(j))), h.at(it, x, l(j))
                    if fn == "global2local":
                        cc = next((m for m, y in enumerate(chunks) if y is cc), None)
                    if not isinstance(cc, int) or not 0 <= cc < 3:
                        bad("chunk %r" % (cc,))
                    if not h.decide(Cond("ge", i - off[cc])) or not h.decide(Cond("ge", off[cc + 1] - i - 1)):
                        bad("a position that need not be in chunk %d is looked up there" % cc)
                    number(h, it, xx, i if fn == "global2chunkid" else i - off[cc], "the normalized position" if fn == "global2chunkid" else "the position in its chunk")
            ck.entry("ChunkedArray", fn, "an array of positions, " + label, names, b)

    def elements(h, it, got):
        if isinstance(got, Seq):
            return got
        if isinstance(got, Inst) and got.cls.name == "ChunkedArray":
            out = []
            for c in it.iterate(got.attrs["_chunks"]):
                if not isinstance(c, Seq):
                    raise Undecided("chunk %r" % (c,))
                out += c.segs
            return Seq(out, "any")
        raise Undecided("result %r" % (got,))

    def tok(*parts):
        t = Tok("slice", "where", ())
        t.parts = parts
        return t
    whole = [(l(n), L.of(("ch%d" % i, k))) for i, n in enumerate(names)]
    for known in (0, 3):
        for step in (None, 1, -1, 2, -2, 3, -3):
            for lo, hi in (("a", "b"), (None, "b"), ("a", None), (None, None)):
                for sign in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    if (lo is None and sign[0]) or (hi is None and sign[1]) or (step == 1 and (sign != (0, 0) or known)) or (step in (2, -2, 3, -3) and sign != (0, 0)) or (not THOROUGH and (step in (2, -2) and known or step in (3, -3) and (known or lo is None and hi is not None or step == 3 and lo is not None and hi is not None))):
                        continue

                    def b(h, it, f, known=known, step=step, lo=lo, hi=hi, sign=sign):
                        a, _ = make(h, known, None)
                        for n in ("s0", "s1", "s2"):
                            pass
                        p = [None if x is None else (-l(x) - 1 if s else l(x)) for x, s in zip((lo, hi), sign)]
                        where = tok(p[0], p[1], step) if p[0] is not None or p[1] is not None else slice(None, None, step)
                        got = elements(h, it, it.call(Fn(f.f, a), [where], {}))
                        bookkeeping(h, it, a)
                        want = h.getslice(it, Seq(whole, "any"), where)
                        expect(h, it, got, want, "the elements of the slice")
                    ck.entry("ChunkedArray", "__getitem__", "[%s:%s:%s], %d of 3 sizes known" % (*[("-" if s else "") + x if x else "" for x, s in zip((lo, hi), sign)], step or "", known), names + ["a", "b"], b, 1500)

        def b(h, it, f, known=known):
            a, _ = make(h, known, None)
            total = l("s0") + l("s1") + l("s2")
            try:
                got = it.call(Fn(f.f, a), [l("i")], {})
            except Raise as r:
                if r.name != "IndexError":
                    raise
                if not (h.decide(Cond("ge", l("i") - total)) or h.decide(Cond("ge", -l("i") - total - 1))):
                    bad("refuses a position that is not known to be outside")
                return
            i = l("i") if h.ge(it, l("i"), 0) else l("i") + total
            number(h, it, got, h.at(it, Seq(whole, "any"), i), "the element")
        ck.entry("ChunkedArray", "__getitem__", "one position, %d of 3 sizes known" % known, names, b)

        def b(h, it, f, known=known):
            a, _ = make(h, known, None)
            total = l("s0") + l("s1") + l("s2")
            els = [l("i"), l("j"), l("m")][:2 if not known else 3]
            for e in els:
                h.facts.add(Cond("ge", e))
                h.facts.add(Cond("ge", total - e - 1))
            got = elements(h, it, it.call(Fn(f.f, a), [cells(*els)], {}))
            expect(h, it, got, cells(*[h.at(it, Seq(whole, "any"), e) for e in els]), "the elements")
        ck.entry("ChunkedArray", "__getitem__", "an array of positions, %d of 3 sizes known" % known, names, b)

        def b(h, it, f, known=known):
            a, _ = make(h, known, None)
            total = l("s0") + l("s1") + l("s2")
            m = Seq([(l("a"), True), (l("b"), False), (total - l("a") - l("b"), True)], "bool")
            h.facts.add(Cond("ge", total - l("a") - l("b")))
            got = elements(h, it, it.call(Fn(f.f, a), [m], {}))
            expect(h, it, got, h.mask(it, Seq(whole, "any"), m), "the elements")
        ck.entry("ChunkedArray", "__getitem__", "a mask, %d of 3 sizes known" % known, names + ["a", "b"], b)

        def b(h, it, f, known=known):
            a, _ = make(h, known, None)
            total = l("s0") + l("s1") + l("s2")
            m = Seq([(l("a"), True), (l("b"), False)], "bool")
            try:
                elements(h, it, it.call(Fn(f.f, a), [m], {}))
            except Raise as r:
                if r.name not in ("IndexError", "ValueError"):
                    raise
                return
            if not h.decide(Cond("eq", total - l("a") - l("b"))):
                bad("takes a mask of another length than the array's")
        ck.entry("ChunkedArray", "__getitem__", "a mask of any length, %d of 3 sizes known" % known, names + ["a", "b"], b)

    for known in (0, 1, 3):
        for c in (0, 1, 2):
            def b(h, it, f, known=known, c=c):
                a, chunks = make(h, known, None)
                try:
                    got = it.call(Fn(f.f, a), [l("i"), c], {})
                except Raise as r:
                    if r.name != "IndexError":
                        raise
                    if not (h.decide(Cond("ge", l("i") - l(names[c]))) or h.decide(Cond("ge", -l("i") - l(names[c]) - 1))):
                        bad("refuses a position that is not known to be outside its chunk")
                    return
                off = bookkeeping(h, it, a)
                i = l("i") if h.ge(it, l("i"), 0) else l("i") + l(names[c])
                if not h.decide(Cond("ge", i)) or not h.decide(Cond("ge", l(names[c]) - i - 1)):
                    bad("a position that need not be in chunk %d is accepted" % c)
                number(h, it, got, i + off[c], "the position of an element of chunk %d" % c)
            ck.entry("ChunkedArray", "local2global", "one position in chunk %d, %d of 3 sizes known" % (c, known), names, b)

        def b(h, it, f, known=known):
            a, chunks = make(h, known, None)
            els, cs = [l("i"), l("j")], [2, 0]
            try:
                got = it.call(Fn(f.f, a), [cells(*els), cells(*cs)], {})
            except Raise as r:
                if r.name != "IndexError":
                    raise
                if not any(h.decide(Cond("ge", e - l(names[c]))) or h.decide(Cond("ge", -e - l(names[c]) - 1)) for e, c in zip(els, cs)):
                    bad("refuses positions that are not known to be outside their chunks")
                return
            off = bookkeeping(h, it, a)
            for j, (e, c) in enumerate(zip(els, cs)):
                i = e if h.ge(it, e, 0) else e + l(names[c])
                if not h.decide(Cond("ge", i)) or not h.decide(Cond("ge", l(names[c]) - i - 1)):
                    bad("a position that need not be in its chunk is accepted")
                number(h, it, h.at(it, got, l(j)), i + off[c], "the position of an element of chunk %d" % c)
        ck.entry("ChunkedArray", "local2global", "an array of positions, %d of 3 sizes known" % known, names, b)


# ---------------------------------------------------------------------- growing buffers
def appendable(ck):
    def make(h, n):
        c = ck.cls("AppendableArray")
        chunks, sizes = [], []
        for i in range(n):
            cap = l("cap%d" % i)
            h.facts.add(Cond("ge", cap - l("u%d" % i)))
            h.facts.add(Cond("ge", cap - 1))
            chunks.append(Seq([(cap, L.of(("old%d" % i, k)))], "any"))
            sizes.append(l("u%d" % i))
        h.facts.add(Cond("ge", l("cap") - 1))
        a = Inst(c, {"_chunks": PyList(chunks), "_chunksizes": PyList(sizes), "_types": PyList([None] * n), "_offsets": None, "_chunkshape": (l("cap"),), "_dtype": Tok("type", "d")}, "self")
        return a

    def stored(h, it, a):
        """the elements, one after the other"""
        ch, sz = it.iterate(a.attrs["_chunks"]), it.iterate(a.attrs["_chunksizes"])
        if len(ch) != len(sz) or len(it.iterate(a.attrs["_types"])) != len(ch):
            bad("%d chunks with %d sizes and %d types" % (len(ch), len(sz), len(it.iterate(a.attrs["_types"]))))
        out = []
        for i, (c, s) in enumerate(zip(ch, sz)):
            if not h.decide(Cond("ge", c.len - l(s))):
                bad("chunk %d is used beyond its end" % i)
            if i + 1 < len(ch) and i >= 0 and not h.decide(Cond("eq", l(s))) and False:
                pass
            out += h.cut(it, c.segs, l(0), l(s))
        return Seq(out)
    world = ["cap0", "cap1", "cap", "u0", "u1", "m"]
    for n in (0, 1, 2):
        def old(n):
            return [(l("u%d" % i), L.of(("old%d" % i, k))) for i in range(n)]

        def b(h, it, f, n=n):
            a = make(h, n)
            it.call(Fn(f.f, a), [L.of("value")], {})
            expect(h, it, stored(h, it, a), S(*(old(n) + [(1, L.of("value"))])), "the elements after append")
        ck.entry("AppendableArray", "append", "%d chunks" % n, world, b)

        def b(h, it, f, n=n):
            a = make(h, n)
            h.MAXLOOP = 3
            it.call(Fn(f.f, a), [Seq([(l("m"), L.of(("value", k)))], "any")], {})
            expect(h, it, stored(h, it, a), S(*(old(n) + [(l("m"), L.of(("value", k)))])), "the elements after extend")
        ck.entry("AppendableArray", "extend", "%d chunks" % n, world, b)

        def b(h, it, f, n=n):
            a = make(h, n)
            got = it.iterate(it.call(Fn(f.f, a), [], {}))
            if len(got) != n:
                bad("%d chunks instead of %d" % (len(got), n))
            for i, x in enumerate(got):
                expect(h, it, x, S(old(n)[i]), "the used part of chunk %d" % i)
        ck.entry("AppendableArray", "_used", "%d chunks" % n, world, b)

        def b(h, it, f, n=n):
            a = make(h, n)
            number(h, it, it.call(Fn(f.f, a), [], {}), sums(*["u%d" % i for i in range(n)])[-1], "the length")
        ck.entry("AppendableArray", "__len__", "%d chunks" % n, world, b)

        def b(h, it, f, n=n):
            a = make(h, n)
            expect(h, it, it.getattr(a, "offsets"), cells(*sums(*["u%d" % i for i in range(n)])), "offsets")
        ck.entry("AppendableArray", "offsets", "%d chunks" % n, world, b)
