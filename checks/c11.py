"""C11: elements keep their own values under re-arrangement.

The operations of the arrays that re-order, join, view or hold other arrays (indexed, sparse, union, chunked, appendable, object, virtual and
table arrays, and what is present in masked ones) are interpreted abstractly for one generic element of each kind (sa/lanes.py): listed by an
index, stored in a sparse array or not, from either content of a union, in the first chunk, in the last one or in its unused room.  Every
element of the result must be the result of that same operation, with the options that were given, on that element and on no other.
"""
import ast
from sa.model import AnalysisBroken
from sa.interp import Tok, Inst, ClsRef, Fn, Ext, Meth, PyDict, PyList, Raise, Undecided, Lam, paths
from sa import lanes as L
from sa.lanes import LaneHooks, Vec, Bits, Cat, Red, Ma, El, Num, Key, ShapeV, GARB, ABS, UNK, NAN, MISSING, M, P, inside, konst, isbool, equal, ev
from sa.report import Report
from checks import c13

RULE = ("element-wise abstract interpretation (lanes: position lists, stored and default elements, contents of a union, chunks and unused room, rows of a view) of the operations of the arrays that arrange other arrays; "
        "obligations per (method, class, options, lane): the element of the result is this operation, with these options, of the element's own value")
ASSUMPTIONS = ("numpy functions select, assign and combine element by element as documented", "content classes do element by element what their methods say")

CLASSES = ("IndexedArray", "SparseArray", "UnionArray", "ChunkedArray", "AppendableArray", "ObjectArray", "VirtualArray", "Table", "MaskedArray", "BitMaskedArray", "IndexedMaskedArray")
A, B, N, E = "first", "second", "default", "default at the end"
V = ("V", "self")

# operation -> its options
OPS = {"choose": ("n",), "argchoose": ("n",), "distincts": ("nested",), "argdistincts": ("nested",), "pairs": ("nested",), "argpairs": ("nested",), "cross": ("other", "nested"), "argcross": ("other", "nested"),
       "flattentuple": (), "flatten": ("axis",), "pad": ("length", "maskedwhen", "clip", "axis"), "regular": (), "astype": ("dtype",), "fillna": ("value",), "counts": (), "boolmask": ("maskedwhen",),
       "_prepare": ("ufunc", "identity", "dtype"), "_reduce": ("ufunc", "identity", "dtype"), "argmin": (), "argmax": (), "empty_like": (), "zeros_like": (), "ones_like": ()}
DEFAULTS = {"nested": False, "axis": 0, "maskedwhen": True, "clip": False}


class Used(object):
    """the number of elements of a chunk that belong to the array"""


def name_of(v):
    if isinstance(v, Tok):
        return ("tok", v.name)
    if isinstance(v, Ext):
        return ("tok", v.name)
    if isinstance(v, (Vec, Cat, Inst)):
        return ("obj", v.name)
    if isinstance(v, (Num, El)):
        return ("num", str(v.name))
    if isinstance(v, tuple):
        return tuple(name_of(x) for x in v)
    if isinstance(v, PyDict):
        return ("dict",) + tuple((a, name_of(b)) for a, b in v.pairs)
    return v


class H(LaneHooks):
    iterating = False

    def options(self, op, args, kw):
        names = OPS[op]
        d = dict((n, DEFAULTS[n]) for n in names if n in DEFAULTS)
        if len(args) > len(names):
            raise Raise("TypeError")
        d.update(zip(names, args))
        for k, v in kw.items():
            if k in names:
                d[k] = v
            elif op not in ("empty_like", "zeros_like", "ones_like"):
                raise Raise("TypeError")
        if any(n not in d for n in names):
            raise Raise("TypeError")
        return tuple((n, name_of(d[n])) for n in names)

    def op(self, n, v, args, kw, **k):
        if isinstance(v, Cat):
            return Cat([self.op(n, x, args, kw, **k) for x in v.parts])
        r = self.fun((n, self.options(n, args, kw)), v, **k)
        if n == "flatten":
            r.ck = ("flat", v.ck)
        return r

    def vecmeth(self, it, o, n, args, kw, node):
        if n in ("cross", "argcross") and isinstance(o, Vec) and args and isinstance(args[0], Vec):
            nested = kw.get("nested", args[1] if len(args) > 1 else False)
            bad = self.mismatch(o, args[0])
            return o.like(dict((l, x if x == ABS else bad or ("f2", n, name_of(nested), x, args[0].lanes[l])) for l, x in o.lanes.items()), ck=("f", n, o.ck))
        if isinstance(o, Vec) and n in OPS and not (n == "astype" and not self.content(o)) and not (n in ("argmin", "argmax") and not self.jagged(it, o)):
            if n == "flatten" and o.kind == "nd":
                raise Undecided("flatten of a Numpy array")
            return self.op(n, o, args, kw, kind="nd" if n in ("_prepare", "regular", "boolmask") else None)
        if n == "_mapcolumns" and isinstance(o, Vec):
            return self.op("_reduce", o, [Tok("ufunc", "ufunc"), Tok("scalar", "identity"), None], {})
        return LaneHooks.vecmeth(self, it, o, n, args, kw, node)

    def boolmask(self, v, when):
        return self.op("boolmask", v, [when], {}, kind="nd")

    def getattr(self, it, o, name, node):
        if isinstance(o, (Vec, Cat)) and name == "counts":
            return self.op("counts", o, [], {}, kind="nd")
        if isinstance(o, Tok) and o.kind == "sliceobj":
            return Meth(o, name)
        if isinstance(o, Inst) and name == "offsets" and self.kindof(o.cls) in ("ChunkedArray", "AppendableArray"):
            return PyList([Num("off", ("start", i)) for i in range(len(o.attrs["_chunks"].xs))] + [Num("off", "end")])
        if isinstance(o, Vec) and name in ("ismasked", "isunmasked"):
            return self.boolmask(o, name == "ismasked")
        if isinstance(o, Inst) and name in ("dtype", "shape", "type") and self.kindof(o.cls) in ("UnionArray", "ChunkedArray", "AppendableArray") and name == "dtype":
            return Tok("type", "dtype(inst)")
        if isinstance(o, Inst) and name == "type" and self.kindof(o.cls) in ("VirtualArray",):
            return NotImplemented
        if isinstance(o, Inst) and name == "array" and self.kindof(o.cls) == "VirtualArray":
            return o.attrs["$array"]
        if isinstance(o, Inst) and name in ("istuple", "columns", "rowname") and self.kindof(o.cls) == "Table" and name != "rowname":
            return bool(it.fork(("istuple", o.name))) if name == "istuple" else PyList([a for a, _ in o.attrs["_contents"].pairs])
        return LaneHooks.getattr(self, it, o, name, node)

    def fn(self, it, f, args, kw, node):
        n = f.f.name
        a = args[0] if args else None
        me = f.me
        if n == "_index" and isinstance(me, Inst) and self.kindof(me.cls) == "Table":
            v = me.attrs.get("_view")
            if isinstance(v, Vec):
                return v
            t = Tok("slice", "rows(%s)" % me.name)
            t.parts = (0, Num("rows", me.name), None) if v is None else (Num("start"), Num("stop"), Num("step"))
            t.rows = me.attrs.get("$owner") if v is not None else None
            return t
        if n == "_slices" and isinstance(me, Inst) and self.kindof(me.cls) in ("ChunkedArray", "AppendableArray"):
            out = []
            for i, c in enumerate(me.attrs["_chunks"].xs):
                t = Tok("slice", "chunk%d" % i)
                t.parts = (Num("off", ("start", i)), Num("off", ("stop", i)), None)
                t.chunk = i
                out.append(t)
            return PyList(out)
        if n == "_util_isinteger" and isinstance(a, Tok) and a.kind == "sliceobj":
            return False
        if n == "_aligned":
            return True
        if n == "global2chunkid" and isinstance(me, Inst) and a is not None:
            given = kw.get("return_normalized", args[1] if len(args) > 1 else False)
            if isinstance(a, Key) and a.one:
                c = it.fork(("chunk of", a.name), 2)
                i = self.oi("self")
                kinds = self.owners[i][1]
                self.kill(l for l in self.lanes if l[i] != kinds[c])
                return (c, a) if given else c
            if isinstance(a, Vec):
                i = self.oi("self")
                c = Vec(dict((l, ABS if v == ABS else self.owners[i][1].index(l[i]) if v == ("row",) else GARB) for l, v in a.lanes.items()), kind="nd")
                c.chunkids = True
                return (c, a) if given else c
        if n in ("_gettype", "knowtype"):
            return Tok("any", "type")
        if n == "knowchunksizes" and isinstance(me, Inst):
            sizes = me.attrs["_chunksizes"]
            for i in range(len(sizes.xs), len(me.attrs["_chunks"].xs)):
                sizes.xs.append(self.chunklen(me.attrs["_chunks"].xs[i]))
            return None
        if n.startswith("_util_") and isinstance(a, Vec) and n[6:] in OPS:
            if n[6:] == "flattentuple" and a.kind == "nd":
                return a
            return self.op(n[6:], a, list(args[1:]), kw, kind="nd" if n[6:] in ("counts", "regular", "boolmask") else None)
        if n == "_util_reduce" and isinstance(a, Vec):
            if a.kind != "nd" and self.content(a) and (self.jagged(it, a) or it.fork(("table", "chunks"))):
                return self.op("_reduce", a, list(args[1:]), kw)
            return Red("_reduce", a)
        if n == "maybemixin" and args and isinstance(args[-1], ClsRef):
            return args[-1]
        if n == "fromtags" and isinstance(me, (Inst, ClsRef)) and len(args) == 2:
            return Inst(me.cls, {"$fromtags": (args[0], args[1])}, "union")
        if n == "_util_toarray" and isinstance(a, tuple) and a and all(isinstance(x, Vec) for x in a):
            return self.const(GARB)               # the results become the rows of one array
        if n == "_util_toarray" and isinstance(a, PyList) and not a.xs:
            return self.const(ABS)
        return LaneHooks.fn(self, it, f, args, kw, node)

    def chunklen(self, v):
        return Num("size", getattr(v, "ck", None) if not getattr(v, "room", False) else "room")

    # ------------------------------------------------------------------ values
    def val(self, v):
        if isinstance(v, tuple) and v and v[0] == "tag":
            return v
        if isinstance(v, Num) and v.key[0] == "sub" and v.key[2] == 1 and v.key[1] in [Num(*k).name for k in self.storedkeys()]:
            return ("last",)
        if isinstance(v, (tuple, PyDict)) and not konst(v):
            return ("tuple",) + tuple(name_of(x) for x in (v if isinstance(v, tuple) else [v]))
        return LaneHooks.val(self, v)

    def stored(self):
        """the lanes of the elements that each sparse array stores"""
        return [frozenset(l for l in self.lanes if l[i] == P) for i, (o, ks) in enumerate(self.owners) if N in ks]

    def storedkeys(self):
        return [("count", p) for p in self.stored()]

    def at(self, o, lane, pos):
        if o.pool == ("one",) and pos == 0 and not isinstance(pos, bool):
            return o.lanes[lane]
        if isinstance(pos, tuple) and pos[0] == "local":
            return o.lanes[lane] if getattr(o, "place", None) == pos[1] else GARB
        if pos in (("near",), ("last",)):
            return ("other",) if o.pool is None and o.present in self.stored() and getattr(o, "rows", False) else GARB
        return LaneHooks.at(self, o, lane, pos)

    def elem(self, it, o, k):
        if isinstance(k, int) and o.pool is None:
            live = [l for l in self.lanes if l not in self.dead and o.lanes[l] != ABS]
            if not live:
                raise Raise("IndexError")
            key = k if len(live) == len([l for l in self.lanes if l not in self.dead]) else (k, tuple(map(str, live)))
            if key not in self.chosen:
                self.chosen[key] = live[it.fork(("lane", key), len(live))]
            l = self.chosen[key]
            return El(key, l, o.lanes[l])
        return LaneHooks.elem(self, it, o, k)

    # runs of rows of the same chunk:  steps = ids[1:] - ids[:-1], the runs start where a step is not zero
    def runs(self, v):
        i = self.oi("self")
        return [c for c in range(2) if any(v.lanes[l] == c for l in self.lanes if l not in self.dead)]

    def getitem(self, it, o, k, node):
        if isinstance(o, Vec) and getattr(o, "chunkids", False):
            if isinstance(k, slice) and (k.start, k.stop, k.step) in ((1, None, None), (None, -1, None)):
                t = Tok("chunkids", "later" if k.start else "earlier")
                t.of = o
                return t
            if isinstance(k, Tok) and k.kind == "starts" and k.of is o:
                i = self.oi("self")
                only = it.fork(("chunks of the rows",), 3)
                if only:
                    self.kill(l for l in self.lanes if l[i] == self.owners[i][1][only - 1])
                return PyList(self.runs(o))
        if isinstance(o, Tok) and o.kind == "bounds" and isinstance(k, int) and 0 <= k <= len(self.runs(o.of)):
            t = Tok("bound", "bound%d" % k)
            t.of, t.at = o.of, k
            return t
        if isinstance(o, Vec) and isinstance(k, Tok) and getattr(k, "parts", None) is not None and any(isinstance(x, Tok) and x.kind == "bound" for x in k.parts):
            lo, hi, st = k.parts
            if not (isinstance(lo, Tok) and isinstance(hi, Tok) and lo.kind == hi.kind == "bound" and hi.at == lo.at + 1 and st in (None, 1)):
                raise Undecided("runs")
            c = self.runs(lo.of)[lo.at]
            return o.like(dict((l, v if lo.of.lanes[l] == c else ABS) for l, v in o.lanes.items()), ck=("sel", o.ck, "run", c))
        if isinstance(o, El) and not isinstance(k, (str, slice)):
            return El(o.key, o.lane, o.val if o.val in (GARB, ABS) else ("f", ("sub", name_of(k)), o.val))
        if isinstance(o, ShapeV) and isinstance(k, slice):
            return ShapeV(o.of)
        if isinstance(k, El) and isinstance(k.val, int) and isinstance(o, (tuple, PyList)):
            xs = o.xs if isinstance(o, PyList) else o
            if 0 <= k.val < len(xs):
                return xs[k.val]
            raise Raise("IndexError")
        if isinstance(o, (tuple, PyList)) and isinstance(k, tuple) and k and k[0] == "tag" and isinstance(k[1], int):
            return (o.xs if isinstance(o, PyList) else o)[k[1]]
        if isinstance(o, Tok) and isinstance(k, tuple):
            return Tok("scalar", "%s[%r]" % (o.name, name_of(k)))
        if isinstance(o, Inst) and isinstance(k, Tok) and getattr(k, "parts", None) is not None and self.trims(it, k) and k.parts[0] is None and k.parts[1] is None:
            return o
        return LaneHooks.getitem(self, it, o, k, node)

    def setitem(self, it, o, k, v, node):
        if isinstance(o, Vec) and isinstance(v, Tok) and v.kind == "steps" and isinstance(k, slice) and (k.start, k.stop, k.step) == (1, None, None):
            o.steps = v.of
            return True
        if isinstance(o, Vec) and k == 0 and not isinstance(k, bool) and isinstance(k, int) and isinstance(v, int) and v > 0 and all(x in (ABS, GARB, UNK) for x in o.lanes.values()):
            o.started = True
            o.lanes = dict((l, x if x == ABS else UNK) for l, x in o.lanes.items())
            return True
        if isinstance(o, Vec) and getattr(o, "found", False) and isinstance(k, Tok) and getattr(k, "parts", None) is not None:
            lo, hi, st = k.parts
            if hi is None and st is None and isinstance(lo, El) and lo.val == ("after", "stored"):
                i = self.oi(o.found)
                o.lanes = dict((l, self.val(v) if l[i] == E else x) for l, x in o.lanes.items())
                return True
            o.lanes = dict((l, GARB) for l in self.lanes)
            return True
        if isinstance(o, Vec) and isinstance(v, Vec) and self.trims(it, k) and len(v.present) < len(self.lanes):
            # parts put one after the other
            lo, hi, st = (k.start, k.stop, k.step) if isinstance(k, slice) else k.parts
            if getattr(k, "chunk", None) is not None:
                i = self.oi("self")
                good = all(l[i] == self.owners[i][1][k.chunk] for l in v.present)
            else:
                fill = getattr(o, "fill", ())
                o.fill = tuple(sorted(fill + (v.ck,), key=str))
                good = st in (None, 1) and (lo in (None, 0) and not fill or isinstance(lo, Num) and lo.key == ("off", fill)) and (hi is None or isinstance(hi, Num) and hi.key in (("off", o.fill), ("len",) + o.fill))
            good = good and not v.long
            o.lanes = dict((l, x if l not in v.present else v.lanes[l] if good else GARB) for l, x in o.lanes.items())
            return True
        return LaneHooks.setitem(self, it, o, k, v, node)

    def iterate(self, it, v):
        if isinstance(v, Inst) and self.kindof(v.cls) == "ObjectArray" and isinstance(v.attrs.get("_content"), Vec):
            a = v.attrs
            g = (name_of(a.get("_generator")), name_of(a.get("_args")), name_of(a.get("_kwargs")))
            return [El(x.key, x.lane, x.val if x.val in (GARB, ABS) else ("f", ("generator",) + g, x.val)) for x in LaneHooks.iterate(self, it, a["_content"]) or []]
        if isinstance(v, Vec) and getattr(v, "room", False) and v.long:
            return [El(i, None, GARB) for i in range(self.MAXLOOP - 1)]
        return LaneHooks.iterate(self, it, v)

    def trim(self, o, stop):
        if getattr(o, "room", False) and isinstance(stop, Num) and stop.key == ("size", "room"):
            return o
        return LaneHooks.trim(self, o, stop)

    def pickvec(self, it, o, k):
        if isinstance(k, Tok) and getattr(k, "chunk", None) is not None:
            i = self.oi("self")
            kinds = self.owners[i][1]
            r = o.like(dict((l, v if l[i] == kinds[k.chunk] else ABS) for l, v in o.lanes.items()), ck=("sel", o.ck, k.chunk))
            return r
        if isinstance(k, Tok) and hasattr(k, "rows"):
            if k.rows is None:
                r = o.like(ck=("sel", o.ck, "rows"))
                r.long = False
                return r
            if o.pool == k.rows:
                return o.like(ck=("sel", o.ck, "rows"), pool=None) if not setattr(o, "long", o.long) else None
            return o.like(dict((l, GARB) for l in self.lanes), ck=("sel", o.ck, "rows"), pool=None)
        if isinstance(k, int) and not isinstance(k, bool) and k == -1 and getattr(o, "rows", False):
            return El("last", None, ("laststored",))
        if isinstance(k, Key) and k.one and getattr(k, "chunk", None) is not None:
            place = getattr(o, "place", None)
            l = self.lane_at(it, k)
            return El(k.name, l, o.lanes[l] if place == k.chunk else GARB)
        if isinstance(k, Key) and k.one and o.pool is None and any(o.lanes[l] == ABS for l in self.lanes if l not in self.dead) and getattr(o, "place", None) is None:
            return El(k.name, self.lane_at(it, k), GARB)
        if isinstance(k, El) and isinstance(k.val, tuple) and k.val[0] in ("rank", "near", "end") and k.lane is not None:
            return El(k.key, k.lane, self.at(o, k.lane, k.val))
        if isinstance(k, tuple) and len(k) == 1:
            return self.pickvec(it, o, k[0])
        if isinstance(k, Tok) and k.kind == "any" and all(v == ABS or l in self.dead for l, v in o.lanes.items()):
            return o.like()
        if isinstance(k, tuple) and len(k) > 1 and not any(x is None or isinstance(x, Ext) for x in k):
            r = self.pickvec(it, o, k[0])
            if all(isinstance(x, slice) and x == slice(None) for x in k[1:]):
                return r
            name = ("sub", name_of(k[1:]))
            if isinstance(r, El):
                return El(r.key, r.lane, r.val if r.val in (GARB, ABS) else ("f", name, r.val))
            r = self.fun(name, r)
            r.lanes = dict((l, ("tok", "%s[%r]" % (v[2][1], name[1])) if isinstance(v, tuple) and v[:1] == ("f",) and v[2][:1] == ("tok",) else v) for l, v in r.lanes.items())
            return r
        if isinstance(k, slice) and k == slice(None, None, -1):
            r = o.like(ck=("sel", o.ck, "reversed"))
            r.turned = not getattr(o, "turned", False)
            r.rows = getattr(o, "rows", False)
            return r
        if isinstance(k, slice) and k == slice(None, 0) or isinstance(k, slice) and k == slice(0, 0):
            return o.like(dict((l, ABS if o.pool is None else GARB) for l in self.lanes), ck=("sel", o.ck, "none"))
        if isinstance(k, Tok) and k.kind == "str" or isinstance(k, str):
            return self.fun(("field", name_of(k)), o, kind="nd" if o.kind == "Table" else o.kind)
        r = LaneHooks.pickvec(self, it, o, k)
        if isinstance(r, Vec) and getattr(o, "rows", False) and not isinstance(k, Vec):
            r.rows = True
        return r

    def fun(self, name, v, **kw):
        r = LaneHooks.fun(self, name, v, **kw)
        if isinstance(r, Vec) and getattr(v, "room", False):
            r.room = True
        if isinstance(r, Vec) and getattr(v, "turned", False):
            r.turned = True
        return r

    def partlen(self, x):
        """the number of elements of a chunk, as the length of the chunk"""
        if isinstance(x, Num) and x.key[0] in ("count", "size") and isinstance(getattr(x, "of", None), Vec):
            i = next((i for i, (o, ks) in enumerate(self.owners) if ks == (A, B)), None)
            if i is not None and (x.key[0] == "size" or x.key[1] in [frozenset(l for l in self.lanes if l[i] == k) for k in (A, B)]):
                return Num("len", x.of.ck)
        return x

    def binop(self, it, op, a, b, node):
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == "chunkids" and isinstance(op, ast.Sub) and (a.name, b.name) == ("later", "earlier") and a.of is b.of:
            t = Tok("steps", "steps")
            t.of = a.of
            return t
        if isinstance(a, Tok) and a.kind == "startlist" and isinstance(op, ast.Add) and isinstance(b, PyList) and len(b.xs) == 1 and isinstance(b.xs[0], Num) and b.xs[0].key[0] in ("len", "count"):
            t = Tok("bounds", "bounds")
            t.of = a.of
            return t
        if isinstance(op, ast.Add):
            x, y = self.partlen(a), self.partlen(b)
            if (x is not a or y is not b) and all(z == 0 or isinstance(z, Num) and z.key[0] in ("off", "len") for z in (x, y)):
                a, b = x, y
        if isinstance(op, ast.Add) and self.combined(it, [a, b]) is not None:
            return self.combined(it, [a, b])
        if isinstance(a, Key) and a.one and isinstance(op, ast.Sub) and isinstance(b, Num) and b.key[:1] == ("off",):
            k = Key(a.name, True)
            k.chunk = b.key[1][1] if isinstance(b.key[1], tuple) and b.key[1][0] == "start" else "another"
            return k
        if isinstance(a, Vec) and isinstance(op, ast.Sub) and isinstance(b, Num) and b.key[:1] == ("off",) and isinstance(b.key[1], tuple) and b.key[1][0] == "start":
            return a.like(dict((l, ("local", b.key[1][1]) if v == ("row",) else v if v in (ABS, GARB, UNK) else GARB) for l, v in a.lanes.items()), ck=("local", b.key[1][1], a.ck))
        if isinstance(a, Key) and a.one and isinstance(op, ast.Add) and isinstance(b, Num) and b.key == ("length",):
            return Key("i", True)
        if isinstance(a, El) and a.val == ("laststored",) and isinstance(op, ast.Add) and b == 1:
            return El("last", None, ("after", "stored"))
        return LaneHooks.binop(self, it, op, a, b, node)

    def compare(self, it, op, a, b, node):
        o = type(op).__name__
        if isinstance(a, Tok) and a.kind == "steps" and b == 0 and o == "GtE":
            return Tok("monotonic", "monotonic")
        if isinstance(a, Vec) and getattr(a, "steps", None) is not None and getattr(a, "started", False) and b == 0 and o in ("Gt", "NotEq"):
            t = Tok("starts", "starts")
            t.of = a.steps
            return t
        if o in ("LtE", "GtE") and any(isinstance(x, Red) and x.how in ("max", "min") for x in (a, b)) and any(isinstance(x, Tok) for x in (a, b)):
            return True
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, Num) and o == "Lt" and a >= 3:
            return False
        for x, y, lt, ge in ((a, b, ("Lt", "LtE"), ("Gt", "GtE")), (b, a, ("Gt", "GtE"), ("Lt", "LtE"))):
            if isinstance(x, El) and isinstance(x.val, tuple) and x.val[0] == "rank" and isinstance(y, Num) and y.key in self.storedkeys() and (o in lt or o in ge or o in ("Eq", "NotEq")):
                return o in lt or o == "NotEq"
            if isinstance(x, El) and x.val == ("near",) and isinstance(y, Num) and y.key in self.storedkeys():
                return o in lt or o == "NotEq"
            if isinstance(x, El) and x.val == ("end",) and isinstance(y, Num) and y.key in self.storedkeys():
                return o in ("LtE", "GtE", "Eq") if x is a else o in ("LtE", "GtE", "Eq")
            if isinstance(x, Num) and x.key[0] == "count" and x.key in self.wholecounts and isinstance(y, Num) and y.key[0] not in ("count", "len", "size") and o in ("Lt", "GtE", "Gt", "LtE"):
                side = o if x is a else {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[o]
                if side in ("Gt", "LtE"):
                    return side == "LtE"
                less = bool(it.fork(("fewer stored than elements",)))
                if not less:
                    me = self.oi("self")
                    w = next((k for k, (n, _) in enumerate(self.owners) if n == "where"), None)
                    self.kill(l for l in self.lanes if l[me] != P and (w is None or l[w] in ("first", "on", True)))
                return less == (side == "Lt")
            if isinstance(x, Num) and x.key[0] == "size" and isinstance(x.key[1], int) and y == 0 and (o in ("Gt", "LtE") if x is a else o in ("Lt", "GtE")):
                some = bool(it.fork(("some elements", x.name)))
                if not some:
                    i = self.oi("self")
                    self.kill(l for l in self.lanes if l[i] == self.owners[i][1][x.key[1]])
                return some == (o in ("Gt", "Lt"))
            if isinstance(x, Num) and x.key[0] == "size" and y == 0 and o in ("GtE", "LtE"):
                return True
            if isinstance(x, Num) and x.key[:1] in (("len",), ("count",)) and isinstance(x.of, Vec) and y == 0 and (x is a and o in ("Gt", "LtE") or x is b and o in ("Lt", "GtE")):
                none = self.same(it, x, 0)
                return (not none) if o in ("Gt", "Lt") else none
            if isinstance(x, El) and isinstance(y, Key) and o in ("Eq", "NotEq") and x.val in (("row",), ("other",), GARB):
                return (x.val == ("row",)) == (o == "Eq")
        if o in L.CMPS and any(isinstance(x, Vec) and getattr(x, "found", False) for x in (a, b)) and any(isinstance(x, Num) for x in (a, b)):
            v, n = (a, b) if isinstance(a, Vec) else (b, a)
            if n.key in self.storedkeys():
                d = {}
                for l, x in v.lanes.items():
                    d[l] = x if x in (ABS, GARB, UNK) else {"Lt": x != ("end",), "GtE": x == ("end",), "Eq": x == ("end",), "NotEq": x != ("end",), "LtE": True, "Gt": False}[o]
                if v is b:
                    raise Undecided("comparison")
                return v.like(d, ck=("f", o, v.ck))
        if o in L.CMPS and any(isinstance(x, Vec) and getattr(x, "rows", False) for x in (a, b)) and any(isinstance(x, Num) and x.key[0] == "bound" for x in (a, b)):
            return self.bound(o, a, b)
        if o in ("Eq", "NotEq") and isinstance(a, Vec) and getattr(a, "rem", False) and b == 0:
            return a.like(dict((l, v if v in (ABS, GARB, UNK) else (v == 0) == (o == "Eq")) for l, v in a.lanes.items()))
        return LaneHooks.compare(self, it, op, a, b, node)

    def bound(self, o, a, b):
        """is the row of a stored element at, before or after a bound of a slice?"""
        v, n = (a, b) if isinstance(a, Vec) else (b, a)
        if v is b:
            o = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(o, o)
        i = self.oi("where")
        which, step = n.key[1], n.key[2]
        d = {}
        for l, x in v.lanes.items():
            if x != ("row",):
                d[l] = x if x in (ABS, GARB, UNK) else UNK
                continue
            # the place of the row on the line: before < start = first < inside < stop = beyond < after (mirrored for a negative step)
            place = {"before": -2, "first": 0, "on": 2, "off": 2, "beyond": 10, "after": 12}[l[i].split("-")[0]]
            at = {"start": 0, "stop": 10}[which]
            s = (place > at) - (place < at)
            s = s if step > 0 else -s
            d[l] = {"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0, "Eq": s == 0, "NotEq": s != 0}[o]
        return v.like(d, ck=("f", o, v.ck, which))

    def same(self, it, a, b):
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == "generator" and a.name != b.name:
            return False
        if isinstance(a, ShapeV) and isinstance(b, ShapeV):
            x, y = a.of, b.of
            if isinstance(x, Vec) and isinstance(y, Vec) and x.pool is None and y.pool is None and not x.long and not y.long and x.present == y.present:
                return True
        if isinstance(a, Num) and isinstance(b, Num) and a.key[0] == b.key[0] == "size" and "room" in (a.key[1], b.key[1]):
            return a.key[1] == b.key[1]
        if isinstance(a, Num) and isinstance(b, Num) and a.key[0] == b.key[0] == "len" and all(isinstance(x.key[1], tuple) and x.key[1][0] == "tags" for x in (a, b)):
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Num) and x.key[0] == "count" and y == 0:
                r = bool(it.fork(("eq", str(x.name), "0")))
                if r:
                    self.kill(l for l in x.key[1])
                return r
        return LaneHooks.same(self, it, a, b)

    def empty(self, n):
        LaneHooks.empty(self, n)
        v = n.of
        if isinstance(v, Vec) and getattr(v, "rows", False):
            i = self.oi("self")
            self.kill(l for l in self.lanes if l[i] == N)

    def truth(self, it, v):
        if isinstance(v, El) and not konst(v.val) and (v.val == ("row",) or v.val[:1] == ("rank",)):
            return bool(it.fork(("truth", v.name)))
        return LaneHooks.truth(self, it, v)

    def combined(self, it, args):
        """reductions of parts, put together"""
        if args and all(isinstance(x, Red) for x in args):
            parts = []
            for x in args:
                parts += x.parts if getattr(x, "parts", None) else [x]
            r = Red("combined", Cat([x.vec for x in parts]))
            r.parts = parts
            return r
        return None

    def isinstance(self, it, v, c):
        names = [x.cls.name if isinstance(x, ClsRef) else (x.name.rsplit(".", 1)[-1] if isinstance(x, (Ext, Tok)) else "?") for x in (c if isinstance(c, tuple) else (c,))]
        if isinstance(v, Tok) and v.kind == "sliceobj" or isinstance(v, slice):
            return "slice" in names
        if isinstance(v, Inst) and self.kindof(v.cls) and names and all(n in ("ndarray", "MaskedArray") for n in names) and not any(isinstance(x, ClsRef) for x in (c if isinstance(c, tuple) else (c,))):
            return False
        if isinstance(v, (Tok,)) and v.kind in ("scalar", "ufunc") and any(n in ("ndarray", "AwkwardArray") or n in L.LAYOUTS for n in names):
            return False
        return LaneHooks.isinstance(self, it, v, c)

    def call(self, it, f, args, kw, node):
        if isinstance(f, Meth) and isinstance(f.obj, Tok) and f.obj.kind == "monotonic" and f.name == "all":
            return bool(it.fork(("rows in order",), 2))
        if isinstance(f, Meth) and isinstance(f.obj, Tok) and f.obj.kind == "sliceobj" and f.name == "indices":
            s = f.obj.step
            return (Num("bound", "start", s), Num("bound", "stop", s), s)
        if isinstance(f, Tok) and f.kind == "generator":
            x = args[0]
            if not isinstance(x, El):
                raise Undecided("generator")
            extra = (name_of(f), name_of(tuple(args[1:])), ("dict",) + tuple((a, name_of(b)) for a, b in kw.items()))
            return El(x.key, x.lane, x.val if x.val in (GARB, ABS) else ("f", ("generator",) + extra, x.val))
        if isinstance(f, Tok) and f.kind == "ufunc" and f.name.startswith("ufunc") and not f.name.endswith(".reduce"):
            return self.ufunc(it, f, args, kw)
        if isinstance(f, Meth) and isinstance(f.obj, ClsRef) and f.name == "$property":
            return f
        return LaneHooks.call(self, it, f, args, kw, node)

    def ufunc(self, it, f, args, kw):
        if f.name.endswith(".reduce"):
            return self.reduce(it, f.name, args[0])
        if kw:
            f = Tok("ufunc", "%s(%s)" % (f.name, ", ".join("%s=%r" % (k, name_of(v)) for k, v in sorted(kw.items()))))
        ins = list(args)
        if self.combined(it, ins) is not None:
            return self.combined(it, ins)
        if not any(isinstance(a, (Vec, Cat)) for a in ins):
            raise Undecided("ufunc")
        base = f.name.replace(".__call__", "")
        if self.uf == "two":
            return (self.apply(base, ins), self.apply(base + "2", ins))
        return self.apply(base, ins)

    def reduce(self, it, how, a):
        return LaneHooks.reduce(self, it, how, a)

    def ext(self, it, n, args, kw, node):
        last = n.rsplit(".", 1)[-1]
        a = args[0] if args else None
        if last == "nonzero" and isinstance(a, Tok) and a.kind == "starts":
            t = Tok("startlist", "starts")
            t.of = a.of
            return (t,)
        if n == "list" and isinstance(a, Tok) and a.kind == "startlist":
            return a
        if n in ("range", "xrange") and len(args) == 1 and isinstance(a, Num) and self.iterating:
            return PyList(list(range(self.MAXLOOP - 1)))
        if n == "len" and len(args) == 1 and isinstance(a, Vec) and a.pool is None and (getattr(a, "room", False) or getattr(a, "chunk", False)):
            r = self.chunklen(a)
            r.of = a
            return r
        if n == "len" and isinstance(a, Tok) and a.kind == "scalar":
            return Num("len", a.name)
        if n == "slice" and args and all(x is None or isinstance(x, int) for x in args):
            return slice(*args)
        if last in ("abs", "absolute") and isinstance(a, int):
            return abs(a)
        if n in ("divmod", "numpy.divmod") and len(args) == 2:
            if isinstance(a, Vec) and isinstance(args[1], int) and getattr(a, "rows", False) and self.step:
                return self.quotient(a, args[1])
            return (Num("quot", str(it.ident(a)), str(it.ident(args[1]))), Num("rem", str(it.ident(a)), str(it.ident(args[1]))))
        if n == "enumerate" and isinstance(a, PyList):
            return PyList(list(enumerate(a.xs)))
        if last in ("mod", "remainder", "floor_divide") and n.startswith("numpy.") and len(args) == 2 and isinstance(a, Vec) and isinstance(args[1], int) and getattr(a, "rows", False) and self.step:
            return self.quotient(a, args[1])[0 if last == "floor_divide" else 1]
        return LaneHooks.ext(self, it, n, args, kw, node)

    step = None

    @property
    def wholecounts(self):
        out = []
        for p in self.stored():
            out.append(("count", p))
            out.append(("count", frozenset(l for l in p if all(k not in ("before", "off", "beyond", "after", "before-off", "beyond-off", "after-off") for k in l))))
        return out

    def quotient(self, a, by):
        """the rows of a stepped slice: every by-th of them is in it"""
        i = self.oi("where")
        q, r = {}, {}
        for l, x in a.lanes.items():
            q[l] = x if x in (ABS, GARB, UNK) else ("f", "quot", x)
            right = isinstance(x, tuple) and x[:1] == ("dist",) and by == abs(self.step)
            r[l] = x if x in (ABS, GARB, UNK) else (1 if l[i].endswith("off") else 0) if right else GARB
        vq, vr = a.like(q, ck=("f", "quot", a.ck)), a.like(r, ck=("f", "rem", a.ck))
        vq.rows = True
        vr.rem = True
        return (vq, vr)

    def apply(self, op, vs, it=None):
        if op == "sub" and len(vs) == 2:
            a, b = vs
            for x, n, sign in ((a, b, 1), (b, a, -1)):
                if isinstance(x, Vec) and getattr(x, "rows", False) and isinstance(n, Num) and n.key[0] == "bound":
                    right = n.key[1] == "start" and n.key[2] * sign > 0
                    r = x.like(dict((l, v if v in (ABS, GARB, UNK) else ("dist",) if right and v == ("row",) else ("f", "sub", v, n.key[1], sign)) for l, v in x.lanes.items()), ck=("f", "sub", x.ck))
                    r.rows = True
                    return r
        if op in ("mod", "floordiv") and isinstance(vs[0], Vec) and isinstance(vs[1], int) and getattr(vs[0], "rows", False) and self.step:
            return self.quotient(vs[0], vs[1])[0 if op == "floordiv" else 1]
        return LaneHooks.apply(self, op, vs, it)

    def numpy(self, it, n, args, kw, node):
        a = args[0] if args else None
        if n == "searchsorted" and len(args) >= 2:
            x = args[1]
            side = kw.get("side", args[2] if len(args) > 2 else "left")
            if isinstance(a, Vec) and getattr(a, "rows", False):
                if a.present not in self.stored():
                    raise Undecided("searchsorted in selected rows")
                good = side == "left" and not getattr(a, "turned", False)
                if isinstance(x, Vec):
                    i = next(i for i, (o, ks) in enumerate(self.owners) if N in ks and a.present == frozenset(l for l in self.lanes if l[i] == P))
                    want = ("row",)
                    r = Vec(dict((l, (ABS if x.lanes[l] == ABS else GARB) if x.lanes[l] != want or not good else {P: ("rank", a.present), N: ("near",), E: ("end",)}[l[i]]) for l in self.lanes), kind="nd")
                    r.found = self.owners[i][0]
                    return r
                if isinstance(x, Key):
                    l = self.lane_at(it, x)
                    return El(x.name, l, GARB if not good else {P: ("rank", a.present), N: ("near",), E: ("end",)}[l[self.oi("self")]])
                if x == 0:
                    return 0
                raise Undecided("searchsorted")
            if isinstance(a, PyList) and isinstance(x, Vec):
                ks = [y[1] if isinstance(y, tuple) and y[0] == "tag" else y for y in a.xs]
                return x.like(dict((l, v if v in (ABS, GARB) else ks.index(v) if v in ks else GARB) for l, v in x.lanes.items()))
        if n == "unique" and isinstance(a, Vec):
            vs = []
            for l in self.lanes:
                v = a.lanes[l]
                if l in self.dead or v == ABS:
                    continue
                if not (isinstance(v, int) or isinstance(v, tuple) and v[0] == "tag"):
                    raise Undecided("unique")
                if v not in vs:
                    vs.append(v)
            return PyList(sorted(vs, key=str))
        if n == "stack" and isinstance(a, PyList) and all(isinstance(x, Vec) for x in a.xs):
            bad = next((b for b in (self.mismatch(a.xs[0], x) for x in a.xs[1:]) if b is not None), None)
            return a.xs[0].like(dict((l, bad or (("tag", tuple(x.lanes[l] for x in a.xs)) if all(isinstance(x.lanes[l], int) for x in a.xs) else GARB)) for l in self.lanes))
        if n == "count_nonzero" and isinstance(a, Vec) and not all(isbool(v) or v == ABS for v in a.lanes.values()):
            return Red("count_nonzero", a)
        if n == "arange" and len(args) == 1 and isinstance(a, Num) and a.key[:1] in (("rows",), ("length",)):
            return self.const(("row",), kind="nd")
        if n == "concatenate" and isinstance(a, (PyList, tuple)):
            return Cat(list(a.xs if isinstance(a, PyList) else a))
        if n in ("array", "asarray") and isinstance(a, PyList) and len(a.xs) == 1 and not isinstance(a.xs[0], Vec):
            if isinstance(a.xs[0], Tok):
                return self.const(("tok", a.xs[0].name), pool=("one",), kind="nd")
            raise Undecided("array of one")
        if n in ("full",) and len(args) > 1 and isinstance(args[1], Tok):
            return self.filled(self.val(args[1]), a)
        if n in ("array", "asarray") and isinstance(a, (Tok, Inst)):
            raise Undecided("numpy.array")
        return LaneHooks.numpy(self, it, n, args, kw, node)


# ---------------------------------------------------------------------- arrays in general position
PARTS = ("ChunkedArray", "AppendableArray")


def indexed(h, owner="self"):
    h.own(owner, (P,))

    def make():
        i = Inst(h.layout("IndexedArray"), {}, owner)
        i.attrs["_index"] = h.const(("pos", owner), kind="nd", ck=("index", owner))
        i.attrs["_content"] = h.const(("V", owner), pool=owner, ck=("content", owner))
        i.attrs["_inverse"], i.attrs["_isvalid"] = None, True
        return i
    return make


def union(h, owner="self"):
    h.own(owner, (A, B))

    def make():
        i = Inst(h.layout("UnionArray"), {}, owner)
        p = [(owner, k) for k in range(3)]
        i.attrs["_tags"] = Vec(h.by(owner, {A: 0, B: 2}), kind="nd", ck=("tags", owner))
        i.attrs["_index"] = Vec(h.by(owner, {A: ("pos", p[0]), B: ("pos", p[2])}), kind="nd", ck=("index", owner))
        i.attrs["_index"].long = True
        i.attrs["_contents"] = (Vec(h.by(owner, {A: ("V", owner), B: GARB}), pool=p[0], ck=("content", owner, 0)), h.const(GARB, pool=p[1], ck=("content", owner, 1)),
                                Vec(h.by(owner, {A: GARB, B: ("V", owner)}), pool=p[2], ck=("content", owner, 2)))
        i.attrs["_dtype"], i.attrs["_isvalid"] = None, True
        return i
    return make


def sparse(h, owner="self", long=False):
    h.own(owner, (P, N, E))

    def make():
        i = Inst(h.layout("SparseArray"), {}, owner)
        i.attrs["_index"] = Vec(h.by(owner, {P: ("row",), N: ABS, E: ABS}), kind="nd", ck=("index", owner))
        i.attrs["_index"].rows = True
        i.attrs["_content"] = Vec(h.by(owner, {P: ("V", owner), N: ABS, E: ABS}), ck=("content", owner))
        i.attrs["_default"] = Tok("scalar", "default " + owner)
        i.attrs["_length"] = Num("length")
        i.attrs["_inverse"], i.attrs["_isvalid"] = None, True
        return i
    return make


def chunked(h, owner="self", cname="ChunkedArray", shared=None):
    if shared is None:
        h.own(owner, (A, B))
    o = shared or owner

    def make():
        i = Inst(h.layout(cname), {}, owner)
        a = Vec(h.by(o, {A: ("V", owner), B: ABS}), ck=("content", owner))
        b = Vec(h.by(o, {A: ABS, B: ("V", owner)}), ck=("content", owner))
        a.place, b.place = 0, 1
        if cname == "AppendableArray":
            a.kind = b.kind = "nd"
            b.long = b.room = True
            i.attrs["_chunkshape"], i.attrs["_dtype"] = (3,), Tok("type", "dtype")
        i.attrs["_chunks"] = PyList([a, b])
        i.attrs["_chunksizes"] = PyList([Num("size", 0), Num("size", 1)])
        i.attrs["_types"] = PyList([None, None])
        i.attrs["_offsets"] = None
        return i
    return make


def objects(h, owner="self"):
    h.own(owner, (P,))

    def make():
        i = Inst(h.layout("ObjectArray"), {}, owner)
        i.attrs["_content"] = h.const(("V", owner), ck=("content", owner))
        i.attrs["_generator"] = Tok("generator", "generator " + owner)
        i.attrs["_args"] = (Tok("any", "args " + owner),)
        i.attrs["_kwargs"] = PyDict([("k", Tok("any", "kwargs " + owner))])
        return i
    return make


BUILD = {"IndexedArray": indexed, "UnionArray": union, "SparseArray": sparse, "ChunkedArray": chunked, "AppendableArray": lambda h, owner="self": chunked(h, owner, "AppendableArray"), "ObjectArray": objects}


def walk(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            for y in walk(x):
                yield y


def plainrows(ck):
    """an attribute of an array, or its used part"""
    while isinstance(ck, tuple) and ck[:1] == ("sel",) and ck[2] == "trim":
        ck = ck[1]
    return isinstance(ck, tuple) and ck[0] in ("tags", "index")


def selection(ck):
    return None if plainrows(ck) else ck[2] if isinstance(ck, tuple) and ck[:1] == ("sel",) else ck


def element(h, r, lane):
    """what a result holds for one lane"""
    if isinstance(r, Vec):
        if r.rev or r.groups:
            return UNK
        if r.pool is not None or getattr(r, "room", False) and r.long and r.lanes[lane] != ABS:
            return GARB
        return r.lanes[lane]
    if isinstance(r, Cat):
        return joined(h, r.parts, lane)
    if isinstance(r, Inst):
        n, a = h.kindof(r.cls), r.attrs
        if n in PARTS:
            c = a.get("_chunks")
            sizes = a.get("_chunksizes")
            if not isinstance(c, PyList):
                return UNK
            if n == "AppendableArray" and isinstance(sizes, PyList) and len(sizes.xs) == len(c.xs):
                return joined(h, [x if not isinstance(s, Num) or s.key[0] != "size" or not isinstance(x, Vec) else h.trim(x, s) for x, s in zip(c.xs, sizes.xs)], lane)
            return joined(h, c.xs, lane)
        if n == "IndexedArray":
            i, c = a.get("_index"), a.get("_content")
            if not isinstance(i, Vec) or not isinstance(c, Vec):
                return UNK
            return h.at(c, lane, i.lanes[lane])
        if n == "UnionArray":
            t, i, c = a.get("_tags"), a.get("_index"), a.get("_contents")
            c = c.xs if isinstance(c, PyList) else c
            if not isinstance(t, Vec) or not isinstance(i, Vec) or not isinstance(c, (tuple, list)):
                return UNK
            k = t.lanes[lane]
            if k in (ABS, GARB, UNK):
                return k
            if selection(t.ck) != selection(i.ck) and (plainrows(t.ck) or plainrows(i.ck)):
                return GARB                       # the one is a part of the rows, the other is all of them
            if not isinstance(k, int) or not 0 <= k < len(c):
                return GARB if isinstance(k, int) else UNK
            if not isinstance(c[k], Vec):
                return UNK
            return h.at(c[k], lane, i.lanes[lane])
        if n == "SparseArray":
            i, c, d = a.get("_index"), a.get("_content"), a.get("_default")
            if not isinstance(i, Vec) or not isinstance(c, Vec):
                return UNK
            if h.mismatch(i, c) is not None or getattr(i, "turned", False) != getattr(c, "turned", False):
                return GARB
            x = i.lanes[lane]
            if x == ABS:
                return h.val(d) if d is not None else ("tok", "no default")
            if x in (GARB, UNK):
                return x
            return c.lanes[lane] if x == ("row",) else ("at", x, c.lanes[lane])
        if n == "ObjectArray":
            e = element(h, a.get("_content"), lane)
            if e in (ABS, GARB, UNK):
                return e
            return ("f", ("generator", name_of(a.get("_generator")), name_of(a.get("_args")), name_of(a.get("_kwargs"))), e)
    return UNK


def joined(h, parts, lane):
    es = [(k, element(h, p, lane)) for k, p in enumerate(parts)]
    es = [(k, e) for k, e in es if e != ABS]
    if not es:
        return ABS
    if len(es) > 1:
        return GARB if all(e != UNK for _, e in es) else UNK
    return es[0][1]


def inorder(h, parts):
    """are the parts in the order of the chunks?"""
    ps = [p for p in parts if isinstance(p, Vec)]
    seen = [min([h.lanes.index(l) for l in p.present] or [0]) for p in ps if p.present and len(p.present) < len(h.lanes)]
    return seen == sorted(seen)


class Analysis(c13.Analysis):
    HOOKS = H

    def say(self, e):
        return {GARB: "something that does not belong to it (another element, or nothing)", ABS: "no element at all", MISSING: "a missing element"}.get(e, repr(e))

    def base(self, h, l, owner="self"):
        k = l[h.oi(owner)]
        return ("tok", "default " + owner) if k in (N, E) else ("V", owner)

    def judged(self, h, e, want, base, through=(), what="the result"):
        """(ok, message) for one element of a result"""
        if inside(e, UNK):
            return None, repr(e)
        if e == want or e == self.plain(want):
            return True, ""
        if inside(e, GARB) or inside(e, ABS) or inside(e, MISSING):
            return False, "%s is %s" % (what, self.say(e))
        x = e
        while isinstance(x, tuple) and x[:1] == ("f",) and len(x) == 3 and (x[1] in through or isinstance(x[1], tuple) and x[1][0] in through):
            x = x[2]
        if x == want or x == base and through:
            return True, ""
        if not inside(e, base):
            return False, "%s does not come from the element: %r" % (what, e)
        if isinstance(x, tuple) and x[:1] == ("f",) and len(x) == 3 and x[2] == base and isinstance(x[1], tuple) and x[1][0] in OPS and want[:1] == ("f",):
            return False, "%s is %r instead of %r" % (what, x[1], want[1])
        if isinstance(x, tuple) and x[:1] == ("f",) and len(x) == 3 and want[:1] == ("f",) and x[2] == want[2] and isinstance(x[1], tuple) and isinstance(want[1], tuple) and x[1][0] == want[1][0] == "generator":
            return False, "%s is made by %r instead of %r" % (what, x[1], want[1])
        if x == base:
            return False, "%s is the element itself instead of %r" % (what, want[1])
        return None, repr(e)

    def plain(self, want):
        """the same done by Numpy"""
        if isinstance(want, tuple) and want[:1] == ("f",) and len(want) == 3 and isinstance(want[1], tuple):
            if want[1][0] == "generator":
                return ("f", want[1], self.plain(want[2]))
            if want[1][0] in ("empty_like", "zeros_like", "ones_like"):
                return ("f", want[1][0], want[2])
        return want

    def each(self, h, r, want, through=(), only=None, rule="element"):
        """every live lane holds want(base)"""
        out = []
        for l in h.lanes:
            if l in h.dead or only is not None and not only(l):
                continue
            b = self.base(h, l)
            ok, msg = self.judged(h, element(h, r, l), want(b, l), b, through)
            out.append((ok, rule, msg))
        parts = r.parts if isinstance(r, Cat) else r.attrs["_chunks"].xs if isinstance(r, Inst) and h.kindof(r.cls) in PARTS and isinstance(r.attrs.get("_chunks"), PyList) else None
        if parts is not None and not inorder(h, parts):
            out.append((False, "order", "the chunks of the result are in another order"))
        return out

    def wanted(self, h, cname, op, args, kw):
        name = (op, h.options(op, args, kw))

        def want(b, l):
            return ("f", name, b)
        return want

    # ------------------------------------------------------------------ one value or list per element
    GIVEN = {"n": Tok("any", "n"), "nested": Tok("any", "nested"), "axis": Tok("any", "axis"), "length": Tok("any", "length"), "maskedwhen": Tok("any", "maskedwhen"), "clip": Tok("any", "clip"), "dtype": Tok("type", "given"),
             "value": Tok("scalar", "value"), "ufunc": Tok("ufunc", "ufunc"), "identity": Tok("scalar", "identity")}
    THROUGH = {"flattentuple": ("flattentuple",), "regular": ("regular", "astype"), "counts": ("astype",), "boolmask": (), "fillna": (), "_prepare": ("_prepare", "astype"), "astype": ()}

    def settings(self, op):
        names = [n for n in OPS[op] if n != "other"]
        need = [n for n in names if n not in DEFAULTS]
        yield "", [self.GIVEN[n] for n in need], {}
        opt = [n for n in names if n in DEFAULTS]
        if op == "boolmask":
            yield "maskedwhen=False", [], {"maskedwhen": False}
        elif opt:
            yield "options given by name", [self.GIVEN[n] for n in need], dict((n, self.GIVEN[n]) for n in opt)
            yield "options given by place", [self.GIVEN[n] for n in names], {}

    def whole(self, cname, op):
        c = self.cls(cname)
        f = c.find(op)
        if f is None or f.cls.name in ("AwkwardArray",):
            return
        for sn, args, kw in self.settings(op):
            def setup(h):
                me = BUILD[cname](h)()
                return me, list(args), dict(kw)

            def judge(h, r, raised):
                if raised is not None:
                    return []
                want = self.wanted(h, cname, op, args, kw)
                if op == "boolmask" and cname == "SparseArray":
                    return [(None if element(h, r, l) == UNK else element(h, r, l) is (kw.get("maskedwhen", True) if l[0] == P else not kw.get("maskedwhen", True)), "boolmask", "%r" % (element(h, r, l),)) for l in h.lanes if l not in h.dead]
                if cname == "SparseArray" and op in ("counts",):
                    return self.each(h, r, want, only=lambda l: l[0] == P)
                if cname == "SparseArray" and op in ("regular", "flattentuple"):
                    return self.each(h, r, lambda b, l: want(b, l) if l[0] == P else b, ("flattentuple",), )
                if cname == "ObjectArray":
                    return []
                if cname == "AppendableArray" and op == "boolmask":
                    return self.each(h, r, want, (), rule="element")
                if cname == "SparseArray" and op in ("astype", "fillna"):
                    return self.each(h, r, lambda b, l: want(b, l) if l[0] == P else b)
                return self.each(h, r, want, self.THROUGH.get(op, ()))
            self.run(f, c, setup, judge, "%s %s" % (cname, sn), 60, needed=cname != "ObjectArray")

    def likes(self, cname, op):
        c = self.cls(cname)
        f = c.find(op)

        def setup(h):
            return BUILD[cname](h)(), [], {}

        def judge(h, r, raised):
            if raised is not None:
                return []
            return self.each(h, r, lambda b, l: b if l[0] in (N, E) else ("f", (op, ()), b) if cname != "ObjectArray" else self.generated(h, ("f", (op, ()), b)))
        self.run(f, c, setup, judge, cname, 60)

    def generated(self, h, v, owner="self"):
        a = h.me.attrs
        return ("f", ("generator", name_of(a["_generator"]), name_of(a["_args"]), name_of(a["_kwargs"])), v)

    def same(self, cname, op, args=(), kw=None):
        c = self.cls(cname)
        f = c.find(op)

        def setup(h):
            return BUILD[cname](h)(), [a(h) if callable(a) else a for a in args], dict(kw or {})

        def judge(h, r, raised):
            if raised is not None:
                return []
            return self.each(h, r, lambda b, l: b if cname != "ObjectArray" else self.generated(h, b))
        self.run(f, c, setup, judge, cname, 60)

    # ------------------------------------------------------------------ items
    def items(self, cname):
        c = self.cls(cname)
        f = c.find("__getitem__")
        tail = Tok("any", "tail")
        for tn, t in (("", ()), (" with a tail", (tail,))):
            def want(b, l, h):
                v = b
                if t and b[0] == "tok":
                    return ("tok", "%s[%r]" % (b[1], name_of(t)))
                return ("f", ("sub", name_of(t)), v) if t else v

            def of(k):
                return (k,) + t if t else k

            def one(h):
                h.keynames = ("i",)
                return BUILD[cname](h)(), [of(Key("i", True))], {}

            def jone(h, r, raised):
                if raised is not None or "i" not in h.chosen and cname != "SparseArray":
                    return [] if raised is not None else [(None, "item", "%r" % (r,))]
                if "i" not in h.chosen:
                    return [(None, "item", "no choice")]
                l = h.chosen["i"]
                e = r.val if isinstance(r, El) else ("tok", r.name) if isinstance(r, Tok) else UNK
                if isinstance(r, El) and str(r.key) != "i":
                    e = GARB
                b = self.base(h, l)
                w = want(b, l, h) if cname != "ObjectArray" else self.generated(h, b)
                if t and cname == "ObjectArray":
                    w = ("f", ("sub", name_of(t)), w)
                ok, msg = self.judged(h, e, w, b, what="the item")
                return [(ok, "item", msg)]
            if cname != "AppendableArray" or not t:
                self.run(f, c, one, jone, "%s, one item%s" % (cname, tn), 60)
            for kn, mk in (("slice", lambda h: Key("s", False)), ("index array", lambda h: h.const(("row",), kind="nd"))):
                if cname == "SparseArray" and kn == "slice" or cname in PARTS and kn == "slice" or cname == "AppendableArray" and t:
                    continue

                def many(h):
                    return BUILD[cname](h)(), [of(mk(h))], {}

                def jmany(h, r, raised):
                    if raised is not None:
                        return []
                    if t and cname == "ObjectArray":
                        return self.listed(h, r, t)
                    return self.each(h, r, lambda b, l: want(b, l, h) if cname != "ObjectArray" else self.generated(h, b), rule="items")
                self.run(f, c, many, jmany, "%s, %s%s" % (cname, kn, tn), 60)

            def boolean(h):
                h.own("where", (True, False))
                return BUILD[cname](h)(), [of(Vec(h.by("where", {True: True, False: False}), kind="nd"))], {}

            def jboolean(h, r, raised):
                if raised is not None:
                    return []
                if t and cname == "ObjectArray":
                    return self.listed(h, r, t)
                i = h.oi("where")
                out = self.each(h, r, lambda b, l: want(b, l, h) if cname != "ObjectArray" else self.generated(h, b), only=lambda l: l[i], rule="selected")
                for l in h.lanes:
                    if not l[i] and l not in h.dead:
                        e = element(h, r, l)
                        if inside(e, self.base(h, l)) and self.base(h, l)[0] == "V":
                            out.append((False, "selected", "an element that is not selected gives %s" % self.say(e)))
                return out
            self.run(f, c, boolean, jboolean, "%s, boolean index%s" % (cname, tn), 60)
        if cname not in ("AppendableArray", "SparseArray"):
            self.field(cname, f)

    def listed(self, h, r, t):
        """the parts of objects, in a list"""
        if not isinstance(r, PyList):
            return [(None, "items", repr(r))]
        out = []
        for x in r.xs:
            if not isinstance(x, El) or x.lane is None:
                out.append((None, "items", repr(x)))
                continue
            b = self.base(h, x.lane)
            ok, msg = self.judged(h, x.val, ("f", ("sub", name_of(t)), self.generated(h, b)), b, what="a part")
            if ok is None and not inside(x.val, UNK) and isinstance(x.val, tuple) and not any(isinstance(y, tuple) and y[:1] == ("generator",) for y in walk(x.val)):
                ok, msg = False, "a part is that of the content, not that of the object made from it"
            out.append((ok, "items", msg))
        return out

    def slices(self):
        """a slice of a sparse array: the stored elements at the rows of the slice, and only they, at their distance from its start"""
        c = self.cls("SparseArray")
        f = c.find("__getitem__")
        for s in (1, -1, 3, -3):
            for tn, t in (("", ()), (" with a tail", (Tok("any", "tail"),))):
                def setup(h):
                    mk = sparse(h)
                    h.own("where", ("before", "first", "on", "beyond", "after") + (("off", "before-off", "beyond-off", "after-off") if abs(s) > 1 else ()))
                    h.step = s
                    k = Tok("sliceobj", "slice")
                    k.step = s
                    return mk(), [(k,) + t if t else k], {}

                def judge(h, r, raised):
                    if raised is not None:
                        return []
                    if not isinstance(r, Inst) or h.kindof(r.cls) != "SparseArray":
                        return [(None, "sliced", repr(r))]
                    x, y = r.attrs.get("_index"), r.attrs.get("_content")
                    if not isinstance(x, Vec) or not isinstance(y, Vec):
                        return [(None, "sliced", repr(r))]
                    out = []
                    dist = ("dist",) if abs(s) == 1 else ("f", "quot", ("dist",))
                    value = ("f", ("sub", name_of(t)), ("V", "self")) if t else ("V", "self")
                    turned = [getattr(v, "turned", False) for v in (x, y)]
                    if turned != [s < 0, s < 0]:
                        out.append((False, "sliced-order", "the rows or the elements of a slice with a %s step are not in the order of its rows" % ("negative" if s < 0 else "positive")))
                    d = r.attrs.get("_default")
                    if not isinstance(r.attrs.get("_length"), (Num, int)):
                        out.append((None, "sliced-default", "length %r" % (r.attrs.get("_length"),)))
                    elif any(l not in h.dead and l[0] != P and l[1] in ("first", "on") for l in h.lanes) and r.attrs.get("_length") != 0:
                        want = "default self[%r]" % (name_of(t),) if t else "default self"
                        out.append((isinstance(d, Tok) and d.name == want, "sliced-default", "the default of the result is %r, not %s" % (d, want)))
                    for l in h.lanes:
                        if l in h.dead or l[0] != P:
                            continue
                        i, e = x.lanes[l], y.lanes[l]
                        if inside(i, UNK) or inside(e, UNK):
                            out.append((None, "sliced", "%r %r" % (i, e)))
                        elif l[1] in ("first", "on"):
                            ok = i == dist and e == value
                            out.append((ok, "sliced", "a stored element %s gives row %s holding %s" % ("at the start of the slice" if l[1] == "first" else "in the slice", self.say(i), self.say(e))))
                        else:
                            out.append((i == ABS and e == ABS, "sliced", "a stored element that is not in the slice (%s it) is in the result" % {"before": "before", "off": "between the steps of", "beyond": "at the end of", "after": "after"}[l[1].split("-")[0]]))
                    return out
                self.run(f, c, setup, judge, "SparseArray, slice with step %d%s" % (s, tn), 60)

    def field(self, cname, f):
        def setup(h):
            return BUILD[cname](h)(), [Tok("str", "column")], {}

        def judge(h, r, raised):
            if raised is not None:
                return []
            return self.each(h, r, lambda b, l: b if b[0] == "tok" else ("f", ("field", ("tok", "column")), b) , rule="field")
        self.run(f, self.cls(cname), setup, judge, "%s, a column" % cname, 60)

    def iteration(self, cname):
        c = self.cls(cname)
        f = c.find("__iter__")

        def setup(h):
            h.MAXLOOP = 4
            h.iterating = True
            h.pattern = (0, 1, 2)
            return BUILD[cname](h)(), [], {}

        def judge(h, r, raised):
            out = []
            for n, y in enumerate(h.yields):
                if not isinstance(y, (El, Tok)):
                    out.append((None, "iteration", repr(y)))
                    continue
                k = y.key if isinstance(y, El) else n
                l = h.chosen.get(k)
                if l is None and isinstance(y, Tok) and cname == "SparseArray" and y.name == "default self":
                    out.append((True, "iteration", ""))
                    continue
                if l is None:
                    out.append((None, "iteration", repr(y)))
                    continue
                b = self.base(h, l)
                e = y.val if isinstance(y, El) else ("tok", y.name)
                ok, msg = self.judged(h, e if k == n or cname in PARTS else GARB, b if cname != "ObjectArray" else self.generated(h, b), b, what="element %d" % n)
                out.append((ok, "iteration", msg))
            return out
        self.run(f, c, setup, judge, cname, 60)

    # ------------------------------------------------------------------ functions of several arrays
    def ufuncs(self, cname):
        c = self.cls(cname)
        f = c.find("__array_ufunc__")
        for oname in ("scalar", "array", "same", "nothing"):
            for first in (False, True):
                for two in ("one", "two"):
                    for kw in ({}, {"dtype": Tok("type", "t")}):
                        if oname == "nothing" and first or kw and (first or two == "two"):
                            continue

                        def setup(h):
                            h.uf = two
                            mk = BUILD[cname](h)
                            mo = (chunked(h, "other", cname, "self") if cname in PARTS else BUILD[cname](h, "other")) if oname == "same" else None
                            me = mk()
                            x = mo() if mo is not None else Tok("scalar", "other") if oname == "scalar" else h.const(("V", "array"), kind="nd")
                            ins = [me] if oname == "nothing" else [x, me] if first else [me, x]
                            return me, [Tok("ufunc", "ufunc"), "__call__"] + ins, dict(kw)

                        def judge(h, r, raised):
                            if raised is not None:
                                return []
                            rs = r if isinstance(r, tuple) else (r,)
                            out = []
                            if (len(rs) == 2) != (two == "two"):
                                return [(False, "ufunc-results", "%d results for a function of %s" % (len(rs), two))]
                            for n, x in enumerate(rs):
                                op = "ufunc" + ("(dtype=('tok', 't'))" if kw else "") + ("2" if n else "")

                                def want(b, l):
                                    o = ("tok", "other") if oname == "scalar" else ("V", "array") if oname == "array" else (("V", "other") if cname in PARTS else self.base(h, l, "other")) if oname == "same" else None
                                    return ("f", op) + ((b,) if o is None else (o, b) if first else (b, o))
                                for l in h.lanes:
                                    if l in h.dead:
                                        continue
                                    b = self.base(h, l)
                                    e, w = element(h, x, l), want(b, l)
                                    if cname == "ObjectArray" and e != w:
                                        w = self.generated(h, w)
                                    ok, msg = (None, repr(e)) if inside(e, UNK) else (e == w, "the element of the result is %s" % (self.say(e) if e != w else ""))
                                    out.append((ok, "ufunc", msg))
                            return out
                        self.run(f, c, setup, judge, "%s with %s%s%s%s" % (cname, oname, " first" if first else "", ", two results" if two == "two" else "", ", a keyword" if kw else ""), 60, needed=cname != "ObjectArray")

    def concat(self, cname):
        c = self.cls(cname)
        f = c.find("_concatenate_axis0")
        if f is None or f.cls.name == "AwkwardArray":
            return

        for alike in ((False, True) if cname == "ObjectArray" else (False,)):
            self.joining(cname, c, f, alike)

    def joining(self, cname, c, f, alike):
        def setup(h):
            a = BUILD[cname](h)
            b = chunked(h, "other", cname, "self") if cname in PARTS else BUILD[cname](h, "other")
            h.both = [a(), b()]
            if alike:
                for n in ("_generator", "_args", "_kwargs"):
                    h.both[1].attrs[n] = h.both[0].attrs[n]
            h.me = h.both[0]
            return ClsRef(c), [PyList(list(h.both))], {}

        def judge(h, r, raised):
            if raised is not None:
                return []
            out = []
            for k, o in enumerate(("self", "other")):
                h.me = h.both[k]
                x = self.part(h, r, k)
                for l in h.lanes:
                    if l in h.dead:
                        continue
                    b = ("V", o) if cname in PARTS else self.base(h, l, o)
                    w = b if cname != "ObjectArray" else self.generated(h, b)
                    ok, msg = self.judged(h, element(h, x, l), w, b, what="an element of array %d" % k)
                    out.append((ok, "concatenated", msg))
            return out
        self.run(f, c, setup, judge, cname + (" made by the same function" if alike else ""), 60)

    def part(self, h, r, k):
        if isinstance(r, Cat):
            return r.parts[k]
        if not isinstance(r, Inst):
            raise Undecided("concatenated result %r" % (r,))
        n, a = h.kindof(r.cls), dict(r.attrs)
        if n == "IndexedArray" and isinstance(a["_index"], Cat) and isinstance(a["_content"], Cat):
            want = tuple(("pool", x.pool) for x in a["_content"].parts[:k])
            x = a["_index"].parts[k]
            a["_index"] = x.like(dict((l, c13.shifted(v, want)) for l, v in x.lanes.items()))
            a["_content"] = a["_content"].parts[k]
        elif n == "ObjectArray" and isinstance(a["_content"], Cat):
            a["_content"] = a["_content"].parts[k]
        elif n in PARTS and isinstance(a["_chunks"], PyList) and len(a["_chunks"].xs) == 4:
            a["_chunks"] = PyList(a["_chunks"].xs[2 * k:2 * k + 2])
            s = a.get("_chunksizes")
            if isinstance(s, PyList) and len(s.xs) == 4:
                a["_chunksizes"] = PyList(s.xs[2 * k:2 * k + 2])
        elif n == "UnionArray" and "$fromtags" in a:
            t, cs = a["$fromtags"]
            if not isinstance(t, Cat) or len(t.parts) != 2:
                raise Undecided("tags")
            if any(v != ABS and v != k for v in t.parts[k].lanes.values()):
                return h.const(GARB)
            x = (cs.xs if isinstance(cs, PyList) else cs)[k]
            return x
        else:
            raise Undecided("concatenated result")
        return Inst(r.cls, a, r.name)

    # ------------------------------------------------------------------ reductions
    def reducers(self, cname):
        c = self.cls(cname)
        f = c.find("_reduce")
        for vn, uf, idt in (("count", None, 0), ("count_nonzero", Ext("numpy.count_nonzero"), 0), ("ufunc", Tok("ufunc", "ufunc"), Tok("scalar", "identity"))):
            def setup(h):
                return BUILD[cname](h)(), [uf, idt, None], {}

            def judge(h, r, raised):
                if raised is not None:
                    return []
                if isinstance(r, Inst):
                    name = ("_reduce", (("ufunc", name_of(uf)), ("identity", name_of(idt)), ("dtype", None)))
                    return self.each(h, r, lambda b, l: ("f", name, b) if b[0] == "V" else b, rule="reduced-lists")
                if isinstance(r, Vec):
                    name = ("_reduce", (("ufunc", name_of(uf)), ("identity", name_of(idt)), ("dtype", None)))
                    out = []
                    for l in h.lanes:
                        if l not in h.dead:
                            b, e = self.base(h, l), element(h, r, l)
                            if e == ("f", name, b):
                                out.append((True, "reduced-lists", ""))
                            elif isinstance(e, tuple) and e[:1] == ("f",) and e[2:] == (b,) and isinstance(e[1], tuple) and e[1][0] == "_reduce":
                                out.append((False, "reduced-lists", "an element is reduced by %r" % (e[1],)))
                            else:
                                out.append((None, "reduced", repr(r)))
                    return out
                if not isinstance(r, Red):
                    return [(None, "reduced", repr(r))] if len([l for l in h.lanes if l not in h.dead]) else []
                out = []
                for l in h.lanes:
                    if l in h.dead:
                        continue
                    e = element(h, r.vec, l)
                    b = self.base(h, l)
                    ok = None if inside(e, UNK) else b[0] == "tok" and konst(e) or not inside(e, GARB) and not inside(e, ABS) and inside(e, b)
                    out.append((ok, "reduced", "an element takes part in the reduction (%s) as %s" % (vn, self.say(e))))
                return out
            self.run(f, c, setup, judge, "%s (%s)" % (cname, vn), 120, needed=cname != "ObjectArray")
        for n in ("argmin", "argmax"):
            f = c.find(n)
            if f is None or f.cls.name == "AwkwardArray":
                continue

            def seta(h):
                return BUILD[cname](h)(), [], {}

            def arg(h, r, raised):
                if raised is not None:
                    return []
                if isinstance(r, (Inst, Vec)):
                    return self.each(h, r, lambda b, l: ("f", (n, ()), b), rule="argreduce-lists")
                live = frozenset(l for l in h.lanes if l not in h.dead)
                if isinstance(r, Num) and r.key[0] == "arg":
                    return [(r.key[1] == n and live <= r.key[2], "argreduce", "%s is %r" % (n, r.key))]
                return [(None, "argreduce", repr(r))]
            if cname not in PARTS:
                self.run(f, c, seta, arg, cname, 60, needed=cname != "ObjectArray")

    def crosses(self, cname):
        c = self.cls(cname)
        for op in ("cross", "argcross"):
            f = c.find(op)
            if f is None or f.cls.name == "AwkwardArray" or cname == "AppendableArray":
                continue
            for kw in ({}, {"nested": Tok("any", "nested")}):
                def setup(h):
                    if cname in PARTS:
                        a, b = BUILD[cname](h), chunked(h, "other", cname, "self")
                        return a(), [b()], dict(kw)
                    return BUILD[cname](h)(), [Tok("any", "other")], dict(kw)

                def judge(h, r, raised):
                    if raised is not None:
                        return []
                    if cname in PARTS:
                        out = []
                        for l in h.lanes:
                            if l in h.dead:
                                continue
                            e = element(h, r, l)
                            w = ("f2", op, name_of(kw.get("nested", False)), self.base(h, l), ("V", "other"))
                            out.append((None if inside(e, UNK) else e == w, op, "the element of the result is %s" % self.say(e)))
                        return out
                    return self.each(h, r, self.wanted(h, cname, op, [Tok("any", "other")], kw), rule=op)
                self.run(f, c, setup, judge, "%s%s" % (cname, ", nested given" if kw else ""), 60, needed=cname != "ObjectArray")

    def all(self):
        self.slices()
        for cname in BUILD:
            for op in OPS:
                if cname == "AppendableArray" and op in ("choose", "argchoose", "distincts", "argdistincts", "pairs", "argpairs"):
                    continue                  # its chunks are Numpy arrays
                if op in ("cross", "argcross", "_reduce", "argmin", "argmax", "empty_like", "zeros_like", "ones_like"):
                    continue
                self.whole(cname, op)
            for op in ("empty_like", "zeros_like", "ones_like"):
                self.likes(cname, op)
            self.items(cname)
            self.iteration(cname)
            self.ufuncs(cname)
            self.concat(cname)
            self.reducers(cname)
            self.crosses(cname)
            self.same(cname, "copy")
            self.same(cname, "deepcopy")


def run(prog):
    rep = Report("C11", RULE)
    a = Analysis(prog, rep)
    a.all()
    rep.floor("entries followed", 260)
    rep.floor("elements judged", 2300)
    rep.why = a.why
    rep.done = a.done
    return rep
