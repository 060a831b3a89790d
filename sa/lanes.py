"""Element-wise abstract interpretation: what happens to one generic element of each kind.

An array is represented by one abstract value per *lane*: a lane says for every array involved what kind of element is looked at (missing or
present, stored or default, from which content of a union).  Masks are True/False per lane, structure arrays hold positions, content holds
the element's value where it is one and garbage where the element has none (under a mask).  Selections drop lanes, assignments through a mask
change lanes, positions give back what lies there.  No array is built and nothing of the package is executed.
"""
import ast
import itertools
from sa.model import AnalysisBroken, ClassInfo
from sa.interp import Hooks, Tok, Inst, ClsRef, Fn, Ext, Meth, Lam, PyDict, PyList, Star, Raise, Undecided, deps

GARB, ABS, UNK, NAN, MISSING = ("garbage",), ("absent",), ("unknown",), ("nan",), ("missing",)
M, P = "missing", "present"
CONST = (bool, int, float, str, bytes, type(None))
LAYOUTS = ("JaggedArray", "ByteJaggedArray", "MaskedArray", "BitMaskedArray", "IndexedMaskedArray", "IndexedArray", "SparseArray", "UnionArray", "ObjectArray", "StringArray", "Table", "ChunkedArray", "AppendableArray", "VirtualArray")
UFUNCS = {"logical_and": "and", "bitwise_and": "and", "logical_or": "or", "bitwise_or": "or", "logical_xor": "xor", "bitwise_xor": "xor", "logical_not": "not", "invert": "not", "bitwise_not": "not",
          "equal": "eq", "right_shift": "rshift", "left_shift": "lshift", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div",
          "floor_divide": "floordiv", "isnan": "isnan", "where": "where", "maximum": "maximum", "minimum": "minimum", "absolute": "abs", "abs": "abs", "negative": "neg", "isfinite": "isfinite", "isinf": "isinf",
          "power": "pow", "sqrt": "sqrt", "remainder": "mod", "mod": "mod", "nan_to_num": "nan_to_num"}
BINOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}
CMPS = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
REDUCE = {"any", "all", "sum", "prod", "max", "min", "amax", "amin", "mean", "std", "var", "count_nonzero", "argmin", "argmax", "nansum", "nanprod", "nanmin", "nanmax"}
CONTENT = {"choose", "argchoose", "distincts", "argdistincts", "pairs", "argpairs", "cross", "argcross", "fillna", "regular", "flattentuple", "astype", "pad", "_prepare", "_reduce", "zeros_like", "ones_like", "empty_like",
           "argsort", "tolist", "_topandas", "counts", "argmin", "argmax", "sum", "any", "all", "min", "max", "prod", "count", "count_nonzero", "moment", "mean", "var", "std", "deepcopy", "compact", "flatten"}


def inside(v, what):
    """is `what` a part of the lane value v?"""
    if v == what:
        return True
    return isinstance(v, tuple) and any(inside(x, what) for x in v)


def konst(v):
    return isinstance(v, CONST)


def isbool(v):
    return isinstance(v, bool)


class Num(object):
    """an integer or other scalar computed from arrays; of: the array whose rows (or true rows) it counts"""
    of = None

    def __init__(self, *key):
        self.key = key

    @property
    def name(self):
        return "n%r" % (self.key,)


class Key(object):
    """an index given by the caller: one position, or a slice or index array"""
    def __init__(self, name, one):
        self.name, self.one = name, one


class El(object):
    """one element of an array: the element at `key`, known to be of the kind `lane`"""
    def __init__(self, key, lane, val):
        self.key, self.lane, self.val = key, lane, val

    @property
    def name(self):
        return "el%r%r" % (self.key, self.val)

    def __repr__(self):
        return "<element %r: %r>" % (self.key, self.val)


class Vec(object):
    """an array, by lanes.  pool: not None if it is an array that structure gives positions in (rows are not elements)"""
    n = [0]

    def __init__(self, lanes, pool=None, ck=None, kind=None, rev=False, last=None, rep=None, groups=False):
        Vec.n[0] += 1
        self.id = Vec.n[0]
        self.lanes, self.pool, self.kind, self.rev, self.last, self.rep, self.groups = dict(lanes), pool, kind, rev, last, rep, groups
        self.ck = ck if ck is not None else ("vec", self.id)
        self.masklanes = None
        self.long = False         # possibly longer than the array it is part of

    def like(self, lanes=None, **kw):
        d = dict(pool=self.pool, ck=self.ck, kind=self.kind, rev=self.rev, last=self.last, rep=self.rep, groups=self.groups)
        d.update(kw)
        v = Vec(self.lanes if lanes is None else lanes, **d)
        v.masklanes = self.masklanes
        v.long = self.long
        return v

    @property
    def present(self):
        return frozenset(l for l, v in self.lanes.items() if v != ABS)

    @property
    def name(self):
        return "v%d" % self.id

    def __repr__(self):
        return "<array %s%s>" % (", ".join("%s: %r" % ("/".join(map(str, l)), v) for l, v in sorted(self.lanes.items())), "" if self.pool is None else " in %r" % (self.pool,))


class Bits(object):
    """bytes whose bits are booleans, by lanes; lsb: the least significant bit comes first (None: all bits are the same)"""
    def __init__(self, lanes, lsb):
        self.lanes, self.lsb = dict(lanes), lsb

    @property
    def name(self):
        return "bits%d" % id(self)

    def __repr__(self):
        return "<bits %r lsb=%r>" % (self.lanes, self.lsb)


class Cat(object):
    """arrays one after the other"""
    def __init__(self, parts):
        self.parts = list(parts)

    @property
    def name(self):
        return "cat%d" % id(self)

    def __repr__(self):
        return "<%s>" % " + ".join(map(repr, self.parts))


class Red(object):
    """a reduction of an array to a scalar"""
    def __init__(self, how, vec):
        self.how, self.vec = how, vec

    @property
    def name(self):
        return "%s(%s)" % (self.how, self.vec.name)

    def __repr__(self):
        return "<%s of %r>" % (self.how, self.vec)


class Ma(object):
    """a Numpy masked array"""
    def __init__(self, data, mask):
        self.data, self.mask = data, mask

    def __repr__(self):
        return "<%r masked %r>" % (self.data, self.mask)

    @property
    def name(self):
        return "ma(%s)" % self.data.name


class ShapeV(object):
    def __init__(self, of):
        self.of = of

    @property
    def name(self):
        return "shape(%s)" % self.of.name


def ev(op, vs):
    """the value of an element-wise operation for one lane"""
    if any(v == ABS for v in vs):
        return ABS
    r = bitexpr(op, vs)
    if r is not None:
        return r
    if op == "not":
        return (not vs[0]) if isbool(vs[0]) else wrap(op, vs)
    if op in ("and", "or"):
        if any(v is (op == "or") for v in vs):
            return op == "or"
        if all(isbool(v) for v in vs):
            return op == "and"
        rest = [v for v in vs if not isbool(v)]
        return rest[0] if len(rest) == 1 and len(vs) == 2 and not konst(rest[0]) else wrap(op, vs)
    if op == "xor" and all(isbool(v) for v in vs):
        return vs[0] != vs[1]
    if op in ("eq", "ne"):
        r = equal(vs[0], vs[1])
        return wrap(op, vs) if r is None else (r if op == "eq" else not r)
    if op in ("lt", "le", "gt", "ge") and len(vs) == 2:
        a, b = vs
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        if isinstance(a, tuple) and a[0] in ("pos", "rank", "row") and isinstance(b, int) and b <= 0:
            return {"lt": False, "le": b == 0 and wrap(op, vs) or False, "gt": b < 0 or wrap(op, vs), "ge": True}[op]
    if op == "isnan":
        if vs[0] == NAN:
            return True
        if isinstance(vs[0], (bool, int)) or isinstance(vs[0], tuple) and vs[0][0] == "tok":
            return False
    if op == "where" and len(vs) == 3:
        if isbool(vs[0]):
            return vs[1] if vs[0] else vs[2]
        if vs[1] == vs[2]:
            return vs[1]
        return wrap(op, vs)
    if op in ("add", "sub") and len(vs) == 2:
        a, b = vs
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a + b if op == "add" else a - b
        if b == 0:
            return a
        if op == "add" and a == 0:
            return b
        if isinstance(a, tuple) and a[0] == "cum" and b == 1 and op == "sub":
            return ("rank", a[1])
        if op == "add" and isinstance(b, tuple) and b[0] == "pos" and isinstance(a, tuple) and a[0] == "off":
            a, b = b, a
        if isinstance(a, tuple) and a[0] == "pos" and op == "add" and isinstance(b, tuple) and b[0] == "off":
            return ("pos", ("part", a[1], b[1]))
    if op == "mul" and all(isinstance(v, (int, float)) for v in vs):
        return vs[0] * vs[1]
    return wrap(op, vs)


def bitexpr(op, vs):
    """bytes and bits of positions in a bit mask: ix(what, w) for what = byte, bit, 7-bit, lsbmask, msbmask of the position w"""
    if len(vs) != 2:
        return None
    a, b = vs

    def ix(v, what):
        return isinstance(v, tuple) and v[:2] == ("ix", what)
    posn = isinstance(a, tuple) and a[0] in ("row", "pos", "rank")
    if posn and (op == "rshift" and b == 3 or op == "floordiv" and b == 8):
        return ("ix", "byte", a)
    if posn and (op == "mod" and b == 8 or op == "and" and b == 7):
        return ("ix", "bit", a)
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if ix(x, "byte") and y == 8:
                return ("ix", "8*byte", x[2])
    if op == "lshift" and ix(a, "byte") and b == 3:
        return ("ix", "8*byte", a[2])
    if op == "sub" and posn and ix(b, "8*byte") and b[2] == a:
        return ("ix", "bit", a)
    if op == "sub" and a == 7 and ix(b, "bit"):
        return ("ix", "7-bit", b[2])
    for x, y in (("bit", "lsbmask"), ("7-bit", "msbmask")):
        if op == "lshift" and a == 1 and ix(b, x):
            return ("ix", y, b[2])
    for x, y in (("bit", "msbmask"), ("7-bit", "lsbmask")):
        if op == "rshift" and a == 128 and ix(b, x):
            return ("ix", y, b[2])
    if op in ("lshift", "rshift") and isinstance(a, int) and (ix(b, "bit") or ix(b, "7-bit")):
        return ("ix", "wrongmask", b[2])
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "byteof" and isinstance(y, tuple) and y[0] == "ix":
                return ("bitset", x[3]) if y[1] == ("lsbmask" if x[1] else "msbmask") and y[2] == x[2] else GARB
    if op in ("ne", "eq", "gt") and isinstance(a, tuple) and a[0] == "bitset" and b == 0 and isbool(a[1]):
        return a[1] == (op != "eq")
    return None


def tobool(v):
    if isinstance(v, tuple) and v[0] == "bitset":
        return v[1]
    return bool(v) if isinstance(v, int) else v


def wrap(op, vs):
    if any(v == GARB for v in vs):
        return GARB
    if any(v == UNK for v in vs):
        return UNK
    return ("f", op) + tuple(vs)


def equal(a, b):
    a, b = [x[2] if isinstance(x, tuple) and x[0] == "@" else x for x in (a, b)] if konst(a) or konst(b) else (a, b)
    if konst(a) and konst(b):
        return a == b and isinstance(a, bool) == isinstance(b, bool) or (a == b)
    if isinstance(a, tuple) and a[0] in ("pos", "rank", "row") and konst(b) or isinstance(b, tuple) and b[0] in ("pos", "rank", "row") and konst(a):
        return False                 # a valid position is none of the constants that mark a missing element
    if a == b and a not in (GARB, UNK) and a != NAN:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "tag":
        return a[1] == b[1]
    if {a, b} == {("row",), ("other",)}:
        return False
    return None


class LaneHooks(Hooks):
    MAXLOOP = 3

    def __init__(self, prog):
        self.prog = prog
        self.owners = []          # (owner, kinds)
        self.lanes = [()]
        self.dead = set()
        self.yields = []
        self.events = []
        self.reductions = []
        self.chosen = {}
        self.pattern = None
        self.made = []
        self.memo = {}
        self.uf = "one"
        self.assume = {}
        self.lencmp = False
        self.norecursion = None      # value of a nested call of a local function that calls itself
        self.active = []
        self.countis = None          # the count of every list of an opaque array, where it is given

    # ------------------------------------------------------------------ set-up
    def own(self, owner, kinds):
        self.owners.append((owner, tuple(kinds)))
        self.lanes = list(itertools.product(*[k for _, k in self.owners]))

    def oi(self, owner):
        return [o for o, _ in self.owners].index(owner)

    def by(self, owner, d):
        """lanes from a value per kind of one owner's elements"""
        i = self.oi(owner)
        return dict((l, d[l[i]]) for l in self.lanes)

    def const(self, v, **kw):
        return Vec(dict((l, v) for l in self.lanes), **kw)

    def layout(self, n):
        for c in self.prog.awkward_classes():
            if c.name == n and c.module.name.split(".")[-1] != "pandas":
                return c
        raise AnalysisBroken("class %s not found" % n)

    def kindof(self, c):
        if isinstance(c, Inst):
            c = c.cls
        return next((k.name for k in c.mro() if k.name in LAYOUTS), None)

    def val(self, v):
        """the lane value of a scalar"""
        if konst(v):
            return NAN if isinstance(v, float) and v != v else v
        if isinstance(v, El):
            return v.val if konst(v.val) else ("@", v.key, v.val)
        if isinstance(v, Ext):
            return NAN if v.name.split(".")[-1] == "nan" else ("tok", v.name)
        if isinstance(v, Tok):
            return ("tok", v.name)
        if isinstance(v, Num):
            return v.key if v.key and v.key[0] in ("off",) else ("num",) + v.key
        if isinstance(v, tuple) and v and v[0] in ("V", "f", "nan", "tok", "garbage", "missing"):
            return v
        if isinstance(v, Red):
            return ("red", v.how)
        raise Undecided("scalar %r" % (v,))

    def arrays(self, *vs):
        return any(isinstance(v, (Vec, Cat)) for v in vs)

    # ------------------------------------------------------------------ element-wise
    def apply(self, op, vs, it=None):
        cats = [v for v in vs if isinstance(v, Cat)]
        if cats:
            n = len(cats[0].parts)
            if any(len(c.parts) != n for c in cats):
                raise Undecided("arrays in different parts")
            return Cat([self.apply(op, [v.parts[k] if isinstance(v, Cat) else v for v in vs]) for k in range(n)])
        vecs = [v for v in vs if isinstance(v, Vec)]
        if any(v.rev for v in vecs) or any(v.groups for v in vecs):
            if op == "not" and len(vecs) == 1:
                return vecs[0].like(dict((l, ev(op, [v])) for l, v in vecs[0].lanes.items()))
            raise Undecided("bits in reversed order")
        bad = next((b for b in (self.mismatch(vecs[0], v) for v in vecs[1:]) if b is not None), None)
        out = {}
        for l in self.lanes:
            xs = [v.lanes[l] if isinstance(v, Vec) else self.val(v) for v in vs]
            if bad is not None:
                xs = [bad] * len(xs)
            out[l] = ev(op, xs)
        r = Vec(out, pool=vecs[0].pool, rep=next((v.rep for v in vecs if v.rep is not None), None))
        lasts = [v.last for v in vecs]
        if all(x is not None for x in lasts):
            r.last = ev(op, [v.last if isinstance(v, Vec) else self.val(v) for v in vs])
        aws = [v for v in vecs if v.kind != "nd"]
        r.kind = "nd" if not aws else None
        r.long = vecs[0].long
        if aws:
            r.ck = ("f", op) + tuple(v.ck for v in aws)
        return r

    def mismatch(self, a, b, lanes=True):
        """None if the rows of the two arrays are the same rows; else what combining them gives"""
        if a.pool != b.pool or (a.rep is None) != (b.rep is None) or a.rep is not None and a.rep != b.rep:
            return GARB
        if a.long != b.long:
            return UNK if self.lencmp else GARB
        if lanes and any((a.lanes[l] == ABS) != (b.lanes[l] == ABS) for l in self.lanes if l not in self.dead):
            return UNK if self.lencmp else GARB
        return None

    def trim(self, o, stop):
        """o[:stop]"""
        if o.long and not (isinstance(stop, Num) and stop.key[:1] == ("len",) and stop.key[1:] == ("long",) or stop is None):
            r = o.like(ck=("sel", o.ck, "trim"))
            r.long = False
            return r
        return o

    def fun(self, name, v, **kw):
        """an element-wise function of an array that is not looked into"""
        if isinstance(v, Cat):
            return Cat([self.fun(name, x, **kw) for x in v.parts])
        r = v.like(dict((l, x if x in (ABS, GARB) else self.countis if name == "counts" and self.countis is not None else ("f", name, x)) for l, x in v.lanes.items()), ck=("f", name, v.ck), **kw)
        if v.last is not None:
            r.last = ("f", name, v.last)
        r.masklanes = None
        return r

    # ------------------------------------------------------------------ choosing lanes
    def lane_at(self, it, key):
        k = key.name if isinstance(key, Key) else key
        if k in self.chosen:
            return self.chosen[k]
        live = [l for l in self.lanes if l not in self.dead]
        if not live:
            raise Undecided("no elements")
        if isinstance(k, int) and self.pattern is not None:
            l = live[self.pattern[k % len(self.pattern)] % len(live)]
        else:
            l = live[it.fork(("lane", k), len(live))]
        self.chosen[k] = l
        return l

    def alias(self, w):
        """the element that an adjusted index (negative counted from the end) stands for"""
        for k in getattr(self, "keynames", ()):
            if str(w) == k or ("'add'" in str(w) and k in str(w) and "len" in str(w)):
                return k
        return w

    def kill(self, lanes):
        self.dead |= set(lanes)

    # ------------------------------------------------------------------ truth
    def truth(self, it, v):
        if isinstance(v, U8):
            return v.v != 0
        if isinstance(v, Byte) and v.bit is not None:
            v = v.read(self, it, True)
        if isinstance(v, El):
            if konst(v.val):
                return bool(v.val)
            return bool(it.fork(("truth", v.name)))
        if isinstance(v, Red):
            x = v.vec
            if isinstance(x, Vec) and v.how in ("any", "all"):
                want = v.how == "any"
                ls = [l for l in self.lanes if l not in self.dead and x.lanes[l] != ABS]
                vals = [x.lanes[l] for l in ls]
                if all(isbool(y) for y in vals):
                    hit = [l for l in ls if x.lanes[l] is want]
                    if not hit:
                        return not want
                    if it.fork(("some", v.how, tuple(sorted(map(str, hit)))), 2) == 0:
                        return want
                    self.kill(hit)
                    return not want
            return bool(it.fork(("truth", v.how, getattr(x, "ck", x.name))))
        if isinstance(v, Num):
            if v.key and v.key[0] == "len":
                return True
            return bool(it.fork(("truth", v.name)))
        if isinstance(v, (Vec, Cat, ShapeV, Bits, Ma)):
            return bool(it.fork(("truth", v.name)))
        if isinstance(v, Key):
            return True
        return None

    def same(self, it, a, b):
        if isinstance(a, U8) or isinstance(b, U8):
            x, y = [z.v if isinstance(z, U8) else z for z in (a, b)]
            if isinstance(x, int) and isinstance(y, int):
                return x == y
        if isinstance(a, El) or isinstance(b, El):
            x, y = self.val(a), self.val(b)
            r = equal(x, y)
            if r is not None:
                return r
            return bool(it.fork(("eq", str(x), str(y))))
        if isinstance(a, (Num, ShapeV, Red)) or isinstance(b, (Num, ShapeV, Red)):
            if isinstance(a, Num) and isinstance(b, Num) and a.key == b.key:
                return True
            self.lencmp = self.lencmp or any(isinstance(x, Num) and x.key[:2] == ("len", "long") for x in (a, b))
            r = bool(it.fork(("eq",) + tuple(sorted((str(it.ident(a)), str(it.ident(b)))))))
            if r:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Num) and x.key[0] == "len" and y == 0:
                        self.empty(x)
            return r
        if isinstance(a, Key) or isinstance(b, Key):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Tok, Ext)) and (x.name, str(it.ident(y))) in self.assume:
                return self.assume[(x.name, str(it.ident(y)))]
        if any(isinstance(x, Tok) and x.kind == "scalar" and isinstance(y, Ext) for x, y in ((a, b), (b, a))):
            return False
        if isinstance(a, Ext) and isinstance(b, CONST) or isinstance(b, Ext) and isinstance(a, CONST):
            return False
        return None

    def empty(self, n):
        """an array without rows has no elements; a content without elements has none that an index could give the position of"""
        v = n.of
        if isinstance(v, Vec) and v.pool is None and not v.long:
            self.kill(self.lanes)
        elif isinstance(v, Vec):
            self.kill(l for l in self.lanes if v.lanes[l] not in (GARB, ABS))

    def compare(self, it, op, a, b, node):
        o = type(op).__name__
        if o in CMPS and (isinstance(a, Bits) or isinstance(b, Bits)):
            x, y = (a, b) if isinstance(a, Bits) else (b, a)
            if isinstance(x, Bits) and not isinstance(x, Vec) and getattr(x, "one", None) is not None and y == 0:
                return self.bitel(it, x, o == "NotEq")
            raise Undecided("comparison of bits")
        if o in CMPS and self.arrays(a, b):
            return self.apply(CMPS[o], [a, b])
        if o in CMPS and (isinstance(a, El) or isinstance(b, El)):
            xs = [self.val(a), self.val(b)]
            r = ev(CMPS[o], xs)
            if konst(r):
                return r
            e = a if isinstance(a, El) else b
            return El(e.key, e.lane, r)
        if o in CMPS and isinstance(a, Byte) or isinstance(b, Byte):
            x, y = (a, b) if isinstance(a, Byte) else (b, a)
            if x.bit is not None and o in ("Eq", "NotEq") and y == 0:
                return x.read(self, it, o == "NotEq")
            raise Undecided("comparison of bytes")
        if o in ("Lt", "LtE", "Gt", "GtE") and all(isinstance(x, (U8, int)) for x in (a, b)):
            x, y = [z.v if isinstance(z, U8) else z for z in (a, b)]
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o]
        if o in ("Lt", "LtE", "Gt", "GtE") and any(isinstance(x, (Num, Key)) for x in (a, b)):
            self.lencmp = self.lencmp or any(isinstance(x, Num) and x.key[:2] == ("len", "long") for x in (a, b))
            return bool(it.fork((o, str(it.ident(a)), str(it.ident(b)))))
        if o in ("Is", "IsNot"):
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a.name == b.name) == (o == "Is")
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Vec, Cat, Num, El, Key, Bits, Ma, Red)) and (y is None or isinstance(y, (Ext, bool, int))):
                    return o == "IsNot"
        return NotImplemented

    def unop(self, it, op, a, node):
        o = type(op).__name__
        if isinstance(a, Bits) and o == "Invert":
            return Bits(dict((l, ev("not", [v])) for l, v in a.lanes.items()), a.lsb)
        if self.arrays(a):
            return self.apply({"Invert": "not", "USub": "neg", "UAdd": "pos"}[o], [a])
        if isinstance(a, El):
            return El(a.key, a.lane, ev({"Invert": "not", "USub": "neg", "UAdd": "pos"}[o], [a.val]))
        if isinstance(a, Ext) and o == "USub":
            return Ext("-" + a.name)
        if isinstance(a, Num) and o == "USub":
            return Num("neg", a.key)
        return NotImplemented

    def binop(self, it, op, a, b, node):
        o = BINOPS.get(type(op).__name__)
        if isinstance(a, PyList) or isinstance(b, PyList) or isinstance(a, tuple) and isinstance(b, tuple):
            return NotImplemented
        if isinstance(a, Byte) or isinstance(b, Byte):
            x, y = (a, b) if isinstance(a, Byte) else (b, a)
            if o == "and":
                return x.withbit(y)
            raise Undecided("bytes")
        if isinstance(a, Bits) or isinstance(b, Bits):
            if o == "and" and isinstance(a, Bits) and isinstance(b, Bits):
                return self.bitop(o, a, b)
            if o == "or" and isinstance(a, Bits) and isinstance(b, Bits):
                return self.bitop(o, a, b)
            raise Undecided("bits")
        if isinstance(a, U8) and isinstance(b, (U8, int)):
            return a.op(o, b)
        if self.arrays(a, b) and o:
            return self.apply(o, [a, b])
        if isinstance(a, El) or isinstance(b, El):
            e = a if isinstance(a, El) else b
            return El(e.key, e.lane, ev(o, [self.val(a), self.val(b)]))
        if isinstance(a, IntX) or isinstance(b, IntX):
            r = intx(o, a, b)
            if r is not None:
                return r
        if isinstance(a, (Num, Key)) or isinstance(b, (Num, Key)):
            if o in ("rshift", "floordiv", "mod", "and", "mul") or o in ("add", "sub"):
                r = intx(o, a, b)
                if r is not None:
                    return r
            if o == "add":
                offs = [x for x in (a, b) if isinstance(x, Num) and x.key[0] in ("off", "len")]
                if len(offs) == 2:
                    return Num("off", tuple(sorted(sum([list(x.key[1]) if x.key[0] == "off" else [x.key[1]] for x in offs], []), key=str)))
                if len(offs) == 1 and 0 in (a, b):
                    x = offs[0]
                    return Num("off", x.key[1] if x.key[0] == "off" else (x.key[1],))
            return Num(o, getattr(a, "name", a), getattr(b, "name", b))
        return NotImplemented

    def bitop(self, o, a, b):
        lsb = a.lsb if b.lsb is None else b.lsb
        if a.lsb is not None and b.lsb is not None and a.lsb != b.lsb:
            return Bits(dict((l, GARB) for l in self.lanes), lsb)
        return Bits(dict((l, ev(o, [a.lanes[l], b.lanes[l]])) for l in self.lanes), lsb)

    def augop(self, it, op, a, b, node):
        if isinstance(a, U8):
            return a.op(BINOPS[type(op).__name__], b)
        if isinstance(a, (Vec, Cat, El, Num)) or isinstance(b, (Vec, Cat, El, Num)):
            r = self.binop(it, op, a, b, node)
            if r is not NotImplemented and isinstance(a, Vec) and isinstance(r, Vec):
                a.lanes = dict(r.lanes)
                return a
            return r
        return NotImplemented

    # ------------------------------------------------------------------ classes
    def ask(self, it, ck, what):
        """is the array (known by its class key) of a kind?  ndarray / Table / other array class"""
        k = self.memo.get(ck)
        if k is None and isinstance(ck, tuple) and ck and ck[0] in ("sel", "flat", "num"):
            return self.ask(it, ck[1], what)
        if k is None:
            k = self.memo[ck] = "nd" if it.fork(("class", ck), 2) == 0 else "aw"
        if what == "ndarray":
            return k == "nd"
        if what == "AwkwardArray":
            return k != "nd"
        if k == "nd":
            return False
        if what == "Table":
            if k == "aw":
                k = self.memo[ck] = "Table" if it.fork(("table", ck), 2) else "notable"
            return k == "Table"
        return False

    def isinstance(self, it, v, c):
        if isinstance(v, Tok) and v.kind == "arrow":
            return any(isinstance(x, Ext) and x.name.split(".")[-1] == "Array" for x in (c if isinstance(c, tuple) else (c,)))
        names = [x.cls.name if isinstance(x, ClsRef) else (x.name.rsplit(".", 1)[-1] if isinstance(x, (Ext, Tok)) else "?") for x in (c if isinstance(c, tuple) else (c,))]
        if isinstance(v, Cat):
            v = v.parts[0]
        if isinstance(v, Vec):
            for n in names:
                if n in ("ndarray", "AwkwardArray", "Table"):
                    if v.kind == "nd":
                        if n == "ndarray":
                            return True
                    elif v.kind in LAYOUTS:
                        if n == "AwkwardArray" or n == v.kind:
                            return True
                    elif v.kind == "aw":
                        if n == "AwkwardArray":
                            return True
                    elif self.ask(it, v.ck, n):
                        return True
                elif n == "object":
                    return True
                elif v.kind in LAYOUTS and (n == v.kind or any(k.name == n for k in self.layout(v.kind).mro())):
                    return True
            return False
        if isinstance(v, Ma):
            return any(n in ("ndarray", "MaskedArray", "object") for n in names) and not (names == ["MaskedArray"] and any(isinstance(x, ClsRef) for x in (c if isinstance(c, tuple) else (c,))))
        if isinstance(v, El):
            if any(n in ("bool", "bool_") for n in names) and isbool(v.val):
                return True
            return False
        if isinstance(v, (Num, IntX)):
            return any(n in ("int", "Integral", "integer", "Number") for n in names)
        if isinstance(v, Key):
            if v.one:
                return any(n in ("int", "Integral", "integer", "Number") for n in names)
            if any(n in ("int", "Integral", "integer", "Number", "str", "bytes", "string", "tuple") for n in names):
                return False
            return bool(it.fork(("key", v.name, tuple(names))))
        if isinstance(v, (Bits, Byte, U8)):
            return "ndarray" in names and isinstance(v, Bits)
        if isinstance(v, Tok) and v.kind in ("scalar", "ufunc"):
            return any(n in ("int", "float", "Integral", "Number") for n in names) if v.kind == "scalar" else False
        if isinstance(v, Inst) and any(isinstance(x, Ext) and "ma." in x.name for x in (c if isinstance(c, tuple) else (c,))) and all(not isinstance(x, ClsRef) for x in (c if isinstance(c, tuple) else (c,))):
            return False
        if isinstance(v, CONST) and all(n in ("ndarray", "AwkwardArray", "MaskedArray", "MaskedConstant") or n in LAYOUTS for n in names):
            return False
        if isinstance(v, CONST) and any(n in ("Integral", "integer", "Number", "Real") for n in names):
            return isinstance(v, int) and not isinstance(v, bool)
        return None

    def iterate(self, it, v):
        if isinstance(v, Vec) and not v.rev and not v.groups:
            return [self.elem(it, v, i) for i in range(self.MAXLOOP - 1)]
        if isinstance(v, Tok) and v.kind == "scalar":
            raise Raise("TypeError")
        return None

    # ------------------------------------------------------------------ attributes
    def getattr(self, it, o, name, node):
        if isinstance(o, Meth) and o.name == "$property" and name == "fget":
            return Meth(o.obj, "$fget")
        if isinstance(o, (Inst, ClsRef)) and self.kindof(o.cls):
            if name == "numpy":
                return Ext("numpy")
            if name in LAYOUTS and not (isinstance(o, ClsRef) and o.cls.name == name and False):
                return ClsRef(self.layout(name)) if isinstance(o, Inst) else Meth(ClsRef(self.layout(name)), "$property")
            if name in ("INDEXTYPE", "MASKTYPE", "BOOLTYPE", "TAGTYPE", "CHARTYPE", "BITMASKTYPE", "DEFAULTTYPE"):
                return Tok("type", name)
            if name == "masked":
                return MISSING
            if name in ("check_prop_valid", "check_whole_valid"):
                return True
            if name == "_isvalid":
                return True
            if isinstance(o, Inst) and name in ("dtype", "shape", "type", "size", "ndim", "nbytes"):
                return ShapeV(o) if name == "shape" else (Tok("type", "dtype(inst)") if name == "dtype" else Num(name))
            return NotImplemented
        if isinstance(o, Cat):
            if name in ("dtype", "shape"):
                return self.getattr(it, o.parts[0], name, node)
            return Meth(o, name)
        if isinstance(o, Ma):
            if name in ("mask", "data", "_mask", "_data"):
                return o.mask if "mask" in name else o.data
            return Meth(o, name)
        if isinstance(o, Vec):
            if name == "shape":
                return ShapeV(o)
            if name == "dtype":
                t = Tok("type", "dtype(%s)" % o.id)
                t.of = o
                return t
            if name in ("size",):
                return Num("len", o.ck)
            if name in ("ndim", "itemsize", "nbytes"):
                return 1 if name == "ndim" else Num(name)
            if name == "T":
                return o
            if name in ("counts",):
                return self.fun("counts", o, kind="nd")
            if name in ("ismasked", "isunmasked"):
                return self.boolmask(o, name == "ismasked")
            if name in ("numpy",):
                return Ext("numpy")
            if o.kind == "StringArray" and name == "encoding":
                return "utf-8" if it.fork(("encoding", o.ck), 2) == 0 else None
            if o.kind in ("StringArray", "JaggedArray") and name in ("offsets", "content"):
                r = self.fun(name, o, kind="nd")
                r.lanes = dict((l, ("f", name, 0) if v == 0 else r.lanes[l]) for l, v in o.lanes.items())
                return r
            if o.kind == "Table" and name in ("contents", "_contents"):
                return PyDict([("x", o)])
            if o.kind == "Table" and name in ("columns",):
                return PyList(["x"])
            if name in LAYOUTS:
                return ClsRef(self.layout(name))
            if name in ("INDEXTYPE", "MASKTYPE", "BOOLTYPE", "TAGTYPE", "CHARTYPE", "BITMASKTYPE", "DEFAULTTYPE"):
                return Tok("type", name)
            if name in ("_starts", "_stops", "starts", "stops", "offsets", "content", "_content", "index", "tags", "contents", "chunks", "mask", "_mask", "array"):
                raise Undecided("structure of an opaque content")
            return Meth(o, name)
        if isinstance(o, Tok) and o.kind == "type" and name == "type" and hasattr(o, "of"):
            t = Tok("type", o.name + ".type")
            t.of = o.of
            return t
        if isinstance(o, Bits):
            if name == "dtype":
                return Tok("type", "dtype(bits)")
            if name == "shape":
                return ShapeV(o)
            return Meth(o, name)
        if isinstance(o, (El, Red, Num, U8, Byte, ShapeV)):
            if name in ("shape",):
                return ()
            if name == "dtype":
                return Tok("type", "dtype(scalar)")
            return Meth(o, name)
        if isinstance(o, Tok) and o.kind == "type" and name == "type":
            return Tok("type", o.name + ".type")
        if isinstance(o, Tok) and o.kind == "ufunc":
            return Tok("ufunc", "%s.%s" % (o.name, name))
        return NotImplemented

    def boolmask(self, v, when):
        """the missing elements of an array that is not looked into"""
        if isinstance(v, Cat):
            return Cat([self.boolmask(x, when) for x in v.parts])
        if v.masklanes is not None:
            return v.like(dict((l, x if x == ABS else ((x if isbool(x) else UNK) if when else ((not x) if isbool(x) else UNK))) for l, x in
                               ((l, ABS if v.lanes[l] == ABS else (GARB if v.lanes[l] == GARB else v.masklanes[l])) for l in self.lanes)), kind="nd", ck=("bm", v.ck))
        return v.like(dict((l, x if x in (ABS, GARB) else ("f", "boolmask", when, x)) for l, x in v.lanes.items()), kind="nd", ck=("bm", v.ck))

    def setattr(self, it, o, name, v, node):
        if isinstance(o, (Vec, Cat, Bits, El)):
            raise Undecided("attribute of an array")
        return False

    # ------------------------------------------------------------------ items
    def getitem(self, it, o, k, node):
        if isinstance(o, Cat):
            if isinstance(k, slice) or isinstance(k, Tok) and getattr(k, "parts", None) is not None:
                return o
            if isinstance(k, Cat) and len(k.parts) == len(o.parts) and not any(isinstance(p, Vec) and any(isinstance(x, tuple) and x[0] == "pos" for x in p.lanes.values()) for p in k.parts):
                return Cat([self.pickvec(it, a, b) for a, b in zip(o.parts, k.parts)])
            raise Undecided("part of a concatenation")
        if isinstance(o, Bits):
            if isinstance(k, slice) or isinstance(k, Tok) and getattr(k, "parts", None) is not None:
                return o
            if isinstance(k, Vec):
                out = {}
                for l in self.lanes:
                    v = k.lanes[l]
                    ok = isinstance(v, tuple) and v[:2] == ("ix", "byte") and v[2] == ("row",)
                    out[l] = ("byteof", bool(o.lsb), v[2], o.lanes[l]) if ok else (ABS if v == ABS else GARB)
                return Vec(out, pool=k.pool, kind="nd", rep=k.rep)
            return Byte(o, k)
        if isinstance(o, ShapeV):
            if isinstance(k, int):
                return Num("len", getattr(o.of, "ck", o.name)) if k == 0 else Num("dim", k)
            if isinstance(k, slice):
                return ()
            raise Undecided("shape")
        if isinstance(o, Vec):
            return self.pickvec(it, o, k)
        if isinstance(o, Inst) and self.kindof(o.cls):
            g = o.cls.find("__getitem__")
            if g is None:
                raise Undecided("item")
            return it.call_fn(g, o, [k], {})
        if isinstance(o, El):
            return El(o.key, o.lane, ("f", "item", o.val) if o.val != GARB else GARB)
        if isinstance(o, Ma):
            return Ma(self.pickvec(it, o.data, k), self.pickvec(it, o.mask, k))
        return NotImplemented

    def trims(self, it, k):
        return isinstance(k, slice) or isinstance(k, Tok) and getattr(k, "parts", None) is not None

    def pickvec(self, it, o, k):
        if isinstance(k, Inst) and self.kindof(k.cls):
            raise Undecided("array as index")
        if isinstance(k, tuple):
            if not k:
                return o
            if o.groups and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None, None, -1) and k[0] == slice(None):
                return o.like(rev=not o.rev)
            if o.groups:
                raise Undecided("bit groups")
            if all(x is None or isinstance(x, slice) and x == slice(None) or isinstance(x, Ext) for x in k):
                return o
            r = self.pickvec(it, o, k[0])
            if len(k) == 1:
                return r
            if isinstance(r, El):
                return El(r.key, r.lane, r.val if r.val == GARB else ("f", "sub", r.val))
            return self.fun("sub", r)
        if isinstance(k, slice):
            if k.start in (None, 0) and k.step in (None, 1) and (k.stop is None or isinstance(k.stop, Num)):
                return self.trim(o, k.stop)
            if k == slice(None, -1) or k == slice(1, None):
                return o.like(ck=("sel", o.ck, str(k)))
            if k.start in (None, 0) and isinstance(k.stop, int):
                return o.like(ck=("sel", o.ck, str(k)))
            if k == slice(None, None, -1) and not o.groups:
                raise Undecided("reversed array")
            raise Undecided("slice")
        if isinstance(k, Tok) and getattr(k, "parts", None) is not None:
            lo, hi, st = k.parts
            if lo in (None, 0) and st in (None, 1):
                return self.trim(o, hi)
            raise Undecided("slice")
        if isinstance(k, Tok) and k.kind == "str" or isinstance(k, str):
            return self.fun("field", o, kind="nd" if o.kind == "Table" else o.kind)
        if isinstance(k, Key):
            if k.one:
                return self.elem(it, o, k)
            if o.pool is not None:
                return o.like(dict((l, GARB) for l in self.lanes), pool=None, ck=("sel", o.ck, k.name))
            return o.like(ck=("sel", o.ck, k.name))
        if isinstance(k, bool):
            raise Undecided("bool index")
        if isinstance(k, int):
            if o.pool is not None and k == -1:
                raise Undecided("last of the content")
            return self.elem(it, o, k)
        if isinstance(k, El):
            v = k.val
            if isinstance(v, tuple) and v[0] == "pos":
                return El(k.key, k.lane, self.at(o, k.lane, v))
            if konst(v) or v in (GARB,):
                return El(k.key, k.lane, GARB if not (v == -1 and o.last is not None) else o.last)
            return El(k.key, k.lane, GARB if v == GARB else UNK)
        if isinstance(k, Num):
            if k.key[0] == "arg" and all(x in (ABS, ("row",)) for x in o.lanes.values()) and o.present == k.key[2]:
                return Num("rowof", k.key[1], k.key[2])
            raise Undecided("scalar index")
        if isinstance(k, Vec):
            if self.isboolvec(k) is None:
                return o.like(dict((l, k.lanes[l]) for l in self.lanes), ck=("sel", o.ck, k.id))
            if self.isboolvec(k):
                if o.rev or o.groups:
                    return o.like(dict((l, GARB) for l in self.lanes), ck=("sel", o.ck, k.id), rev=False, groups=False)
                if k.rev or k.groups:
                    return o.like(dict((l, UNK) for l in self.lanes), ck=("sel", o.ck, k.id))
                out = {}
                bad = self.mismatch(o, k)
                for l in self.lanes:
                    m = k.lanes[l]
                    if m is False or m == ABS:
                        out[l] = ABS
                    elif bad is not None:
                        out[l] = bad
                    elif m is True:
                        out[l] = o.lanes[l]
                    elif o.lanes[l] in (GARB, ABS) or m == GARB:
                        out[l] = GARB if m != GARB or o.lanes[l] == GARB else GARB
                    else:
                        out[l] = ("f", "sel", o.lanes[l], m)
                r = Vec(out, pool=o.pool, ck=("sel", o.ck, str(sorted(map(str, k.lanes.items())))), kind=o.kind, rep=o.rep)
                r.long = o.long
                return r
            out = dict((l, self.at(o, l, k.lanes[l])) for l in self.lanes)
            return self.taken(o, k, out)
        if isinstance(k, Tok):
            raise Undecided("unknown index")
        raise Undecided("index %r" % (k,))

    def taken(self, o, k, out):
        r = Vec(out, pool=k.pool, ck=("sel", o.ck, k.id), kind=o.kind, rep=k.rep)
        r.long = k.long
        if o.masklanes is not None:
            r.masklanes = dict((l, o.masklanes[l] if out[l] not in (ABS, GARB) else GARB) for l in self.lanes)
        return r

    def isboolvec(self, k):
        vs = [v for v in k.lanes.values() if v not in (ABS, GARB)]
        if vs and all(isbool(v) or isinstance(v, tuple) and v[0] == "f" and v[1] in ("eq", "ne", "lt", "le", "gt", "ge", "isnan", "not", "and", "or", "xor", "boolmask", "isfinite", "isinf") for v in vs):
            return True
        if not vs and any(v == GARB for v in k.lanes.values()):
            return None
        return False

    def at(self, o, lane, pos):
        """what lies at a position, seen from one lane"""
        if pos == ABS:
            return ABS
        if pos == UNK:
            return UNK
        if isinstance(pos, tuple) and pos[0] == "pos":
            return o.lanes[lane] if o.pool == pos[1] else GARB
        if isinstance(pos, tuple) and pos[0] == "rank":
            return o.lanes[lane] if o.pool is None and o.present == pos[1] else GARB
        if isinstance(pos, tuple) and pos[0] == "row":
            return o.lanes[lane] if o.pool is None and o.present == frozenset(self.lanes) else GARB
        if pos == -1:
            return o.last if o.last is not None else GARB
        if isinstance(pos, tuple) and pos[0] == "f" and pos[1] == "where":
            vs = [self.at(o, lane, p) for p in pos[3:]]
            return wrap("where", [pos[2]] + vs)
        return GARB

    def elem(self, it, o, k):
        lane = self.lane_at(it, k)
        v = o.lanes[lane]
        if o.pool is not None:
            v = GARB
        return El(k.name if isinstance(k, Key) else k, lane, v)

    def setitem(self, it, o, k, v, node):
        if isinstance(o, Cat):
            if isinstance(k, Cat) and len(k.parts) == len(o.parts):
                for i, (a, b) in enumerate(zip(o.parts, k.parts)):
                    self.setitem(it, a, b, v.parts[i] if isinstance(v, Cat) else v, node)
                return True
            raise Undecided("assignment to a concatenation")
        if not isinstance(o, Vec):
            return False
        if isinstance(v, Cat) or isinstance(v, Inst):
            raise Undecided("assignment of a %s" % type(v).__name__)

        def new(l):
            return v.lanes[l] if isinstance(v, Vec) else self.val(v)
        if self.trims(it, k):
            lo, hi, st = (k.start, k.stop, k.step) if isinstance(k, slice) else k.parts
            if lo not in (None, 0) or st not in (None, 1):
                neg = isinstance(lo, Num) and lo.key[0] == "neg"
                o.lanes = dict((l, GARB if neg else UNK) for l in self.lanes)
                return True
            bad = GARB if isinstance(v, Vec) and o.pool != v.pool else None
            o.lanes = dict((l, new(l) if bad is None else bad) for l in self.lanes)
            if isinstance(v, Vec):
                o.rev, o.groups = v.rev, v.groups
            return True
        if isinstance(k, Vec) and k.kind != "aw":
            if k.rev or k.groups:
                o.lanes = dict((l, UNK) for l in self.lanes)
                return True
            b = self.isboolvec(k)
            if b is None:
                o.lanes = dict((l, o.lanes[l] if k.lanes[l] == ABS else GARB) for l in self.lanes)
                return True
            bad = self.mismatch(o, k) if b else None
            if bad is None and isinstance(v, Vec) and b:
                bad = self.mismatch(k, v, False)
                if bad is None and all(isbool(x) or x == ABS for x in k.lanes.values()) and any((k.lanes[l] is True) != (v.lanes[l] != ABS) for l in self.lanes if l not in self.dead):
                    bad = UNK if self.lencmp else GARB
            if bad is not None:
                o.lanes = dict((l, o.lanes[l] if k.lanes[l] is False else bad) for l in self.lanes)
                return True
            for l in self.lanes:
                m = k.lanes[l]
                if not b:
                    if m == ("row",) and o.pool is None:
                        m = True
                    elif m == ABS:
                        m = False
                    elif isinstance(m, tuple) and m[0] == "pos":
                        m = True if o.pool == m[1] else GARB
                    else:
                        m = GARB
                if m is False or m == ABS:
                    continue
                x = new(l)
                if x == ABS:
                    x = GARB
                if m is True:
                    o.lanes[l] = x
                elif m == GARB:
                    o.lanes[l] = GARB
                else:
                    o.lanes[l] = wrap("where", [m, x, o.lanes[l]])
            return True
        raise Undecided("assignment at %r" % (k,))

    # ------------------------------------------------------------------ calls
    follow_yields = True

    def yielded(self, it, v, node):
        self.yields.append(v)
        return None

    def call(self, it, f, args, kw, node):
        if isinstance(f, Meth):
            if f.name == "$fget":
                return f.obj
            if f.name == "__new__" and isinstance(f.obj, ClsRef):
                return Inst(f.obj.cls, {}, "new")
            if isinstance(f.obj, (Vec, Cat)):
                return self.vecmeth(it, f.obj, f.name, args, kw, node)
            if isinstance(f.obj, Bits):
                if f.name in ("view", "copy", "astype"):
                    return f.obj
                raise Undecided("bits.%s" % f.name)
            if isinstance(f.obj, (El, U8, Byte)):
                if f.name in ("astype", "view", "copy", "item"):
                    return f.obj
                if isinstance(f.obj, El) and f.name in ("any", "all"):
                    return f.obj
                raise Undecided("scalar.%s" % f.name)
            if isinstance(f.obj, Ma):
                raise Undecided("masked.%s" % f.name)
            if isinstance(f.obj, tuple) and f.obj and f.obj[0] == "super":
                return Tok("any", None, ())
        if isinstance(f, Lam) and self.norecursion is not None and isinstance(f.node, ast.FunctionDef):
            if f.node in self.active:
                return self.norecursion(f.node, args)
            self.active.append(f.node)
        if isinstance(f, Fn) and self.norecursion is not None and f.f in self.active:
            return self.norecursion(f.f, args)
        if isinstance(f, Fn) and args and isinstance(args[0], Vec) and f.f.name == "fromcounts" and len(args) == 2 and isinstance(args[1], Vec) and f.f.kind == "classmethod":
            return self.lists(args[0], args[1])
        if isinstance(f, Ext) and f.name.startswith("pyarrow."):
            r = self.pyarrow(it, f.name.split(".", 1)[1], args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, Ext):
            r = self.ext(it, f.name, args, kw, node)
            if r is not NotImplemented:
                return r
        if isinstance(f, Tok):
            if f.name.endswith(".maybemixin") and args and isinstance(args[-1], ClsRef):
                return args[-1]
            if f.kind == "ufunc":
                return self.ufunc(it, f, args, kw)
            if f.kind == "type":
                return args[0]
        if isinstance(f, ClsRef) and self.kindof(f.cls):
            return self.construct(it, f.cls, args, kw)
        if isinstance(f, Fn):
            return self.fn(it, f, args, kw, node)
        return NotImplemented

    def lists(self, counts, content):
        """lists of these lengths, with the items one list after the other"""
        r = Vec(dict((l, 0 if v == 0 else v if v in (ABS, GARB, UNK) else ("f", "lists", v)) for l, v in counts.lanes.items()), kind="JaggedArray", ck=("lists", counts.id))
        for l in self.lanes:
            if l not in self.dead and (counts.lanes[l] != 0) != (content.lanes[l] != ABS):
                r.lanes = dict((x, GARB) for x in self.lanes)      # items of lists that are not there, or no items for lists that are
        r.long = counts.long
        return r

    def pyarrow(self, it, n, args, kw):
        a = args[0] if args else None
        if n == "array" and isinstance(a, Vec):
            m = kw.get("mask", args[2] if len(args) > 2 else None)
            if m is None:
                return a
            if isinstance(m, Vec):
                bad = self.mismatch(a, m)
                return Ma(a if bad is None else self.const(bad), m)
        if n == "py_buffer":
            return a
        if n == "Table.from_batches" and isinstance(a, PyList) and len(a.xs) == 1:
            return a.xs[0]
        if n in ("RecordBatch.from_arrays", "StructArray.from_arrays", "Table.from_arrays") and isinstance(a, PyList) and len(a.xs) == 1:
            return a.xs[0]
        if n == "DictionaryArray.from_arrays":
            return self.pickvec(it, args[1], a)
        if n == "ListArray.from_arrays" or n == "LargeListArray.from_arrays":
            if isinstance(a, Ma):
                for l in self.lanes:
                    if l not in self.dead and a.mask.lanes[l] is True and (inside(a.data.lanes[l], "V") or inside(a.data.lanes[l], GARB)):
                        return Ma(self.const(GARB), a.mask)           # a null list that has items: the next list gets them
                return a
            return a
        if n.endswith(".from_buffers"):
            offs, valid = None, None
            for x in args:
                if isinstance(x, PyList) and len(x.xs) == 3:
                    valid, offs = x.xs[0], x.xs[1]
                elif isinstance(x, Vec) and offs is None:
                    offs = x
                elif isinstance(x, Bits):
                    valid = x
            valid = kw.get("null_bitmap", valid)
            if not isinstance(offs, Vec):
                return NotImplemented
            if valid is None:
                return offs
            if not isinstance(valid, Bits):
                return Ma(self.const(GARB), self.const(False))
            if valid.lsb is False:
                return Ma(self.const(GARB), self.const(False))
            return Ma(offs, Vec(dict((l, ev("not", [v])) for l, v in valid.lanes.items()), kind="nd"))
        return NotImplemented

    def ufunc(self, it, f, args, kw):
        if f.name.endswith(".reduce"):
            return self.reduce(it, f.name, args[0])
        if any(isinstance(a, Inst) for a in args):
            raise Undecided("ufunc on structured arrays")
        if self.uf == "two":
            return (self.apply("ufunc", args), self.apply("ufunc2", args))
        return self.apply("ufunc", args)

    def construct(self, it, cls, args, kw):
        i = Inst(cls, {}, "new %s" % cls.name)
        g = cls.find("__init__")
        it.call_fn(g, i, list(args), dict(kw))
        self.made.append(i)
        return i

    def ext(self, it, n, args, kw, node):
        last = n.rsplit(".", 1)[-1]
        a = args[0] if args else None
        if n == "len" and len(args) == 1:
            if isinstance(a, Vec):
                p = a.present
                r = Num("count", p) if len(p) < len(self.lanes) else Num("len", "long") if a.long else Num("len", a.ck if a.pool is None else ("pool", a.pool))
                r.of = a
                return r
            if isinstance(a, Cat):
                return Num("len", a.name)
            if isinstance(a, Ma):
                return Num("len", a.data.ck)
            if isinstance(a, ShapeV):
                return 1
            if isinstance(a, Bits):
                return Num("len", "bits")
            if isinstance(a, Inst) and self.kindof(a.cls):
                g = a.cls.find("__len__")
                return it.call_fn(g, a, [], {})
            if isinstance(a, Key):
                return Num("len", a.name)
            return NotImplemented
        if n == "float" and isinstance(a, str):
            return float(a)
        if n in ("int", "float", "bool", "str") and isinstance(a, (El, Num, Red)):
            if n == "bool":
                return self.truth(it, a)
            return a
        if n == "issubclass" and isinstance(a, Tok) and a.kind == "type":
            names = [x.name.rsplit(".", 1)[-1] for x in (args[1] if isinstance(args[1], tuple) else (args[1],)) if isinstance(x, Ext)]
            o = getattr(a, "of", None)
            if isinstance(o, Vec) and names:
                vs = [v for v in o.lanes.values() if v not in (ABS, GARB)]
                if all(x in ("bool", "bool_") for x in names):
                    if vs and self.isboolvec(o):
                        return True
                    if vs and all(konst(v) or v == NAN or isinstance(v, tuple) and v[0] in ("pos", "rank", "row", "cum") for v in vs):
                        return False
                return bool(it.fork(("dtype", o.ck, tuple(sorted(names)))))
            return bool(it.fork(("dtype", a.name, tuple(sorted(names)))))
        if n == "type" and len(args) == 1:
            if isinstance(a, Inst):
                return ClsRef(a.cls)
            return Tok("any", "type(%s)" % it.ident(a))
        if n == "isinstance":
            return NotImplemented
        if n == "getattr" and len(args) >= 2 and isinstance(a, Tok) and a.kind == "ufunc":
            return Tok("ufunc", a.name)
        if n in ("min", "max", "sum") and any(isinstance(x, (Num, El)) for x in args):
            return Num(n, str(tuple(it.ident(x) for x in args)))
        if n in ("range", "xrange") and any(isinstance(x, Num) for x in args):
            raise Undecided("range over a length")
        if n in ("iter", "next", "zip", "map", "filter", "sorted", "reversed", "hasattr"):
            return NotImplemented
        if n.startswith("numpy.ma."):
            return self.ma(it, last, args, kw)
        if n.startswith("numpy.") and last == "reduce" and args:
            return self.reduce(it, n, a)
        if n.startswith("numpy."):
            return self.numpy(it, last, args, kw, node)
        if last == "windows_safe" and args:
            return a
        return NotImplemented

    def ma(self, it, n, args, kw):
        a = args[0] if args else None
        if n in ("MaskedArray", "masked_array", "array") and args:
            m = args[1] if len(args) > 1 and n != "array" else kw.get("mask")
            if isinstance(a, Vec) and isinstance(m, Vec):
                return Ma(a, m)
            if isinstance(a, Vec) and m is None:
                return Ma(a, self.const(False))
            raise Undecided("numpy.ma")
        if n in ("getmask", "getmaskarray", "getdata") and args:
            if isinstance(a, Ma):
                return a.data if n == "getdata" else a.mask
            if isinstance(a, Vec):
                if n == "getdata":
                    return a
                if n == "getmask" and a.masklanes is None and it.fork(("nomask", a.ck), 2):
                    return Ext("numpy.ma.nomask")
                return self.boolmask(a, True)
        raise Undecided("numpy.ma.%s" % n)

    def lengths(self, a):
        """the shape argument of a creation function: the elements of an array (lanes), or not"""
        if isinstance(a, tuple) and a:
            a = a[0]
        if isinstance(a, ShapeV):
            return a.of
        return a

    def filled(self, v, n):
        n = self.lengths(n)
        if isinstance(n, Num) and n.key[0] == "len" and isinstance(n.of, Vec):
            n = n.of
        out = self.const(v, kind="nd")
        if isinstance(n, Num) and n.key[0] == "count":
            out = Vec(dict((l, v if l in n.key[1] else ABS) for l in self.lanes), kind="nd", rep=getattr(n.of, "rep", None))
        if isinstance(n, Num) and n.key[0] == "len" and isinstance(n.key[1], tuple) and n.key[1][0] == "pool":
            out.pool = n.key[1][1]
        if isinstance(n, Num) and n.key == ("len", "long"):
            out.long = True
        if isinstance(n, (Vec, Cat)):
            if isinstance(n, Cat):
                return Cat([self.filled(v, ShapeV(x)) for x in n.parts])
            out.pool, out.rep, out.long = n.pool, n.rep, n.long
            out.lanes = dict((l, ABS if n.lanes[l] == ABS else v) for l in self.lanes)
        return out

    def numpy(self, it, n, args, kw, node):
        a = args[0] if args else None
        if n in ("bitwise_not", "invert", "logical_not") and isinstance(a, Bits):
            return self.unop(it, ast.Invert(), a, node)
        if n == "bitwise_and" and len(args) >= 2 and isinstance(a, Byte):
            return a.withbit(args[1])
        if n == "bitwise_and" and len(args) >= 2 and isinstance(args[1], Byte):
            return args[1].withbit(a)
        if n in ("right_shift", "left_shift") and len(args) == 2 and not self.arrays(*args):
            r = intx("rshift" if n[0] == "r" else "lshift", *args)
            if r is not None:
                return r
        if n in ("uint8",) and isinstance(a, int):
            return U8(a)
        if n in ("zeros", "ones", "empty", "full"):
            t = kw.get("dtype", args[2] if n == "full" and len(args) > 2 else (args[1] if n != "full" and len(args) > 1 else None))
            isb = isinstance(t, Tok) and t.name in ("MASKTYPE", "BOOLTYPE") or isinstance(t, Ext) and t.name.split(".")[-1] in ("bool", "bool_")
            v = {"zeros": False if isb else 0, "ones": True if isb else 1, "empty": GARB}.get(n)
            if n == "full":
                v = self.val(args[1])
                if isb and konst(v):
                    v = bool(v)
            if isinstance(a, (tuple,)) and len(a) > 1 and not isinstance(self.lengths(a), (Num,)):
                pass
            return self.filled(v, a)
        if n in ("zeros_like", "ones_like", "empty_like", "full_like") and isinstance(a, (Vec, Cat)):
            if isinstance(a, Vec) and a.pool is None and self.isboolvec(a) and "dtype" not in kw:
                v = {"zeros_like": False, "ones_like": True, "empty_like": GARB}.get(n)
            else:
                v = {"zeros_like": 0, "ones_like": 1, "empty_like": GARB}.get(n)
            if n == "full_like":
                v = self.val(args[1])
            if self.content(a):
                return self.fun(n, a)
            return self.filled(v, ShapeV(a))
        if n == "arange":
            if len(args) == 1 or len(args) == 2 and args[0] == 0:
                x = args[-1]
                if isinstance(x, Num) and x.key[0] == "count":
                    return Vec(dict((l, ("rank", x.key[1]) if l in x.key[1] else ABS) for l in self.lanes), kind="nd", rep=getattr(x.of, "rep", None))
                if isinstance(x, Num) and x.key[0] == "len":
                    if isinstance(x.key[1], tuple) and x.key[1][0] == "pool":
                        return self.const(("pos", x.key[1][1]), kind="nd", pool=x.key[1][1])
                    if x.key == ("len", "long"):
                        r = self.const(("row",), kind="nd")
                        r.long = True
                        return r
                    return self.const(("row",), kind="nd", rep=getattr(x.of, "rep", None))
            if any(isinstance(x, Star) for x in args):
                raise Undecided("arange(*...)")
            raise Undecided("arange")
        if n == "count_nonzero" and isinstance(a, Vec) and all(isbool(v) or v == ABS for v in a.lanes.values()) and not kw:
            r = Num("count", frozenset(l for l in self.lanes if a.lanes[l] is True))
            r.of = a
            return r
        if n == "cumsum" and isinstance(a, Vec):
            if all(isbool(v) for v in a.lanes.values()):
                ts = frozenset(l for l in self.lanes if a.lanes[l])
                return Vec(dict((l, ("cum", ts) if a.lanes[l] else GARB) for l in self.lanes), kind="nd", rep=a.rep, ck=("cumsum", ts))
            raise Undecided("cumsum")
        if n == "nonzero" and isinstance(a, Vec) or n == "where" and len(args) == 1 and isinstance(a, Vec):
            return (self.nonzero(a),)
        if n in ("flatnonzero",) and isinstance(a, Vec):
            return self.nonzero(a)
        if n == "searchsorted" and len(args) >= 2 and isinstance(a, Vec) and isinstance(args[1], Num) and args[1].key[0] == "arg":
            ts = args[1].key[2]
            if a.ck == ("cumsum", ts) and kw.get("side", args[2] if len(args) > 2 else "left") == "right":
                return Num("rowof", args[1].key[1], ts)
            return Num("wrongrow")
        if n == "append" and len(args) == 2 and isinstance(a, Vec):
            r = a.like(ck=("sel", a.ck, "append"))
            r.last = self.val(args[1])
            return r
        if n == "concatenate" and isinstance(a, (PyList, tuple)):
            return Cat(list(a.xs if isinstance(a, PyList) else a))
        if n in ("array", "asarray", "ascontiguousarray", "require", "asanyarray", "copy"):
            if isinstance(a, (Vec, Cat)):
                return self.fresh(a)
            if isinstance(a, Ma):
                return a
            if isinstance(a, Inst):
                raise Undecided("numpy.array of an awkward array")
            if isinstance(a, (Key, El, Num, IntX)):
                return a
            raise Undecided("numpy.array")
        if n in ("unpackbits",) and isinstance(a, Bits):
            r = Vec(a.lanes, kind="nd", rev=bool(a.lsb))
            r.long = True          # whole bytes
            return r
        if n == "packbits" and isinstance(a, Vec):
            return Bits(a.lanes, None if len(set(map(str, a.lanes.values()))) == 1 else a.rev)
        if n in ("array_equal",):
            return bool(it.fork(("array_equal",) + tuple(str(it.ident(x)) for x in args)))
        if n in REDUCE and args and isinstance(a, (Vec, Cat)):
            if n in ("any", "all") or kw.get("axis") is None:
                return self.reduce(it, n, a)
            return self.fun(n, a)
        if n in ("reshape", "ravel"):
            return a
        if n == "iinfo" or n == "finfo":
            return Tok("any", n)
        if n in UFUNCS:
            vs = list(args)
            out = kw.get("out")
            if n != "where" and out is None and len(vs) == (2 if n in ("logical_not", "invert", "bitwise_not", "isnan", "negative", "absolute", "abs", "sqrt") else 3):
                out = vs.pop()
            if out is not None:
                if not isinstance(out, Vec) or not self.arrays(*vs):
                    raise Undecided("out=")
                r = self.apply(UFUNCS[n], vs)
                out.lanes = dict(r.lanes)
                return out
            if self.arrays(*vs):
                return self.apply(UFUNCS[n], vs)
            if any(isinstance(v, El) for v in vs):
                e = next(v for v in vs if isinstance(v, El))
                return El(e.key, e.lane, ev(UFUNCS[n], [self.val(v) for v in vs]))
            if n == "where" and len(vs) == 3 and isinstance(vs[0], bool):
                return vs[1] if vs[0] else vs[2]
            return Tok("any", None, ())
        if n in ("take",) and len(args) == 2 and isinstance(a, Vec):
            return self.pickvec(it, a, args[1])
        if n in ("compress",) and len(args) == 2 and isinstance(args[1], Vec):
            return self.pickvec(it, args[1], args[0])
        if n == "repeat" and len(args) == 2 and isinstance(a, Vec) and isinstance(args[1], Vec):
            return self.repeat(a, args[1])
        if self.arrays(*args):
            raise Undecided("numpy.%s" % n)
        return NotImplemented

    def content(self, a):
        """an array that holds values of the caller's"""
        if isinstance(a, Cat):
            return any(self.content(x) for x in a.parts)
        return any(inside(v, "V") for v in a.lanes.values())

    def fresh(self, a):
        return Cat([self.fresh(x) for x in a.parts]) if isinstance(a, Cat) else a.like()

    def nonzero(self, a):
        if not all(isbool(v) or v == ABS for v in a.lanes.values()) or a.pool is not None:
            raise Undecided("nonzero")
        r = Vec(dict((l, ("row",) if a.lanes[l] is True else ABS) for l in self.lanes), kind="nd")
        r.long = a.long
        return r

    def reduce(self, it, how, a):
        how = how.rsplit(".", 1)[-1]
        r = Red(how, a)
        if how in ("argmin", "argmax", "nanargmin", "nanargmax") and isinstance(a, Vec):
            self.reductions.append((how, a))
            if any(inside(v, GARB) for v in a.lanes.values()):
                return Num("arg", "%s among what is under a mask or at other positions" % how, a.present)
            return Num("arg", how, a.present)
        if how == "sum" and isinstance(a, Vec) and all(isbool(v) or v == ABS for v in a.lanes.values()):
            r = Num("count", frozenset(l for l in self.lanes if a.lanes[l] is True))
            r.of = a
        return r

    def repeat(self, v, counts):
        return Vec(dict((l, GARB if v.pool is not None else v.lanes[l]) for l in self.lanes), kind=v.kind, ck=("rep", v.ck), rep=dict(counts.lanes))

    def vecmeth(self, it, o, n, args, kw, node):
        if isinstance(o, Cat):
            if n in ("copy", "astype", "view"):
                return self.fresh(o)
            if n in REDUCE:
                return Red(n, o)
            if n in CONTENT:
                return Cat([self.vecmeth(it, x, n, args, kw, node) for x in o.parts])
            raise Undecided("concatenation.%s" % n)
        if n in ("copy", "view"):
            r = o.like()
            if n == "view" and args and isinstance(args[0], Tok) and args[0].name in ("MASKTYPE", "BOOLTYPE"):
                r.lanes = dict((l, tobool(v)) for l, v in r.lanes.items())
            return self.bitsof(r, args[0]) if n == "view" and args and isinstance(args[0], Tok) and args[0].name == "BITMASKTYPE" else r
        if n == "astype":
            if self.content(o):
                return self.fun("astype", o, kind=o.kind)
            r = o.like()
            if args and isinstance(args[0], (Tok, Ext)) and args[0].name.rsplit(".", 1)[-1] in ("MASKTYPE", "BOOLTYPE", "bool_", "bool"):
                r.lanes = dict((l, tobool(v)) for l, v in r.lanes.items())
            return r
        if n == "reshape":
            s = args[0] if len(args) == 1 else tuple(args)
            if s == (-1, 8):
                return o.like(groups=True)
            if s in (-1, (-1,)):
                return o.like(groups=False)
            return o
        if n in ("ravel", "squeeze", "__array__", "materialize"):
            return o
        if n == "compact" and o.kind in ("JaggedArray", "StringArray"):
            return o
        if n in ("any", "all") and "axis" not in kw:
            return Red(n, o)
        if n in ("argmin", "argmax") and not args and not kw:
            return self.reduce(it, n, o) if not self.jagged(it, o) else self.fun(n, o)
        if n in REDUCE and not self.jagged(it, o):
            return self.reduce(it, n, o)
        if n == "nonzero":
            return (self.nonzero(o),)
        if n == "cumsum":
            return self.numpy(it, "cumsum", [o], {}, node)
        if n == "take":
            return self.pickvec(it, o, args[0])
        if n == "boolmask":
            w = kw.get("maskedwhen", args[0] if args else True)
            if not isinstance(w, bool):
                raise Undecided("maskedwhen")
            return self.boolmask(o, w)
        if n == "_mapcolumns":
            x = o.like(ck=("column", o.ck))
            self.memo[x.ck] = "notable"
            return it.call(args[0], [x], {})
        if n == "valid" or n == "_valid":
            return None
        if n == "fill" and len(args) == 1:
            o.lanes = dict((l, self.val(args[0])) for l in self.lanes)
            return None
        if n == "flatten":
            r = self.fun("flatten", o)
            r.ck = ("flat", o.ck)
            return r
        if n in CONTENT:
            return self.fun(n, o, kind="nd" if n in ("_prepare", "counts", "regular") else None)
        raise Undecided("array.%s" % n)

    def bitsof(self, v, t):
        vs = set(map(str, v.lanes.values()))
        if vs == {"0"} or vs == {"False"}:
            return Bits(dict((l, False) for l in self.lanes), None)
        if vs == {"255"}:
            return Bits(dict((l, True) for l in self.lanes), None)
        if len(vs) == 1 and all(isinstance(x, int) for x in v.lanes.values()):
            return Bits(dict((l, GARB) for l in self.lanes), None)
        return v

    def jagged(self, it, v):
        if v.kind == "nd":
            return False
        ck = v.ck
        while isinstance(ck, tuple) and ck and ck[0] == "sel":
            ck = ck[1]
        if ("jag", ck) not in self.memo:
            self.memo[("jag", ck)] = bool(it.fork(("hasjagged", ck), 2)) and not self.ask(it, ck, "ndarray")
        return self.memo[("jag", ck)]

    def fn(self, it, f, args, kw, node):
        n = f.f.name
        a = args[0] if args else None
        if n == "maybemixin" and isinstance(args[-1], ClsRef):
            return args[-1]
        if n in ("_util_isinteger",):
            if self.trims(it, a):
                return False
            if isinstance(a, (Key,)):
                return a.one
            if isinstance(a, (Num, IntX)):
                return True
            if isinstance(a, (Vec, Cat, Inst, tuple, slice, PyList)) or a is None:
                return False
            if konst(a):
                return isinstance(a, int) and not isinstance(a, bool)
            return bool(it.fork(("isinteger", it.ident(a))))
        if n == "_util_isintegertype":
            o = getattr(a, "of", None)
            if isinstance(o, Vec):
                vs = [v for v in o.lanes.values() if v not in (ABS, GARB)]
                if vs and all(isinstance(v, int) and not isinstance(v, bool) or isinstance(v, tuple) and v[0] in ("pos", "rank", "row", "cum") for v in vs):
                    return True
                if vs and self.isboolvec(o):
                    return False
                return bool(it.fork(("integertype", o.ck), 2))
            return bool(it.fork(("integertype", it.ident(a)), 2))
        if n in ("_util_isstringslice", "_isstringslice"):
            if isinstance(a, Tok) and a.kind == "str" or isinstance(a, str):
                return True
            return False
        if n in ("_util_hasjagged",):
            if isinstance(a, Vec):
                return self.jagged(it, a)
            if isinstance(a, Inst) and "_content" in a.attrs and isinstance(a.attrs["_content"], Vec):
                return self.jagged(it, a.attrs["_content"])
        if n == "_util_toarray":
            if isinstance(a, (Vec, Cat, Bits, Inst, Ma)):
                return a
            raise Undecided("_util_toarray")
        if n in ("_valid", "_checkiter", "valid", "knowngood", "_checknonneg") and isinstance(f.me, Inst):
            return None
        if n == "_util_deepcopy" and isinstance(a, (Vec, Cat, Bits)):
            return self.fresh(a) if not isinstance(a, Bits) else Bits(a.lanes, a.lsb)
        if n.startswith("_util_") and isinstance(a, (Vec, Cat)):
            m = n[6:]
            if isinstance(a, Cat):
                return Cat([self.fn(it, f, [x] + list(args[1:]), kw, node) for x in a.parts])
            if m == "boolmask":
                w = kw.get("maskedwhen", args[1] if len(args) > 1 else None)
                if not isinstance(w, bool):
                    raise Undecided("maskedwhen")
                return self.boolmask(a, w)
            if m == "counts":
                return self.fun("counts", a, kind="nd")
            if m == "regular":
                return self.fun("regular", a, kind="nd")
            if m == "flatten":
                return self.vecmeth(it, a, "flatten", args[1:], kw, node)
            if m in ("fillna", "pad", "flattentuple", "reduce"):
                if m == "fillna" and a.last is None:
                    return self.fun("fillna", a)
                return self.fun(m, a)
        if n == "concatenate" and args and isinstance(args[-1], PyList):
            return Cat(args[-1].xs)
        if n == "counts2offsets" and isinstance(a, Vec):
            return self.const(("offsets",), rep=dict(a.lanes))
        if n == "offsets2parents" and isinstance(a, Vec) and a.rep is not None:
            return Vec(dict((l, ("row",)) for l in self.lanes), kind="nd", rep=a.rep)
        return NotImplemented


class U8(object):
    """an unsigned byte"""
    def __init__(self, v):
        self.v = v & 255

    @property
    def name(self):
        return "u8(%d)" % self.v

    def op(self, o, b):
        b = b.v if isinstance(b, U8) else b
        if not isinstance(b, int):
            raise Undecided("byte arithmetic")
        r = {"lshift": lambda x, y: x << y, "rshift": lambda x, y: x >> y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "and": lambda x, y: x & y, "or": lambda x, y: x | y}.get(o)
        if r is None:
            raise Undecided("byte arithmetic")
        return U8(r(self.v, b))


class IntX(object):
    """an integer expression of a position: byte(w), bit(w), or a bit mask made from bit(w)"""
    def __init__(self, what, w):
        self.what, self.w = what, w

    @property
    def name(self):
        return "%s(%s)" % (self.what, self.w)


def wname(w):
    return getattr(w, "name", None) if not isinstance(w, int) else w


def intx(o, a, b):
    if o == "rshift" and b == 3 or o == "floordiv" and b == 8:
        if wname(a) is not None and not isinstance(a, IntX):
            return IntX("byte", wname(a))
    if o in ("mod",) and b == 8 or o == "and" and b == 7:
        if wname(a) is not None and not isinstance(a, IntX):
            return IntX("bit", wname(a))
    for x, y in ((a, b), (b, a)):
        if o == "mul" and isinstance(x, IntX) and x.what == "byte" and y == 8:
            return IntX("8*byte", x.w)
    if o == "lshift" and isinstance(a, IntX) and a.what == "byte" and b == 3:
        return IntX("8*byte", a.w)
    if o == "sub" and isinstance(b, IntX) and b.what == "8*byte" and wname(a) == b.w:
        return IntX("bit", b.w)
    if isinstance(b, IntX) and b.what == "bit":
        if o == "lshift" and a == 1:
            return IntX("lsbmask", b.w)
        if o == "rshift" and a == 128:
            return IntX("msbmask", b.w)
        if o == "sub" and a == 7:
            return IntX("7-bit", b.w)
    if isinstance(b, IntX) and b.what == "bit" and (o == "lshift" and isinstance(a, int) and a != 1 or o == "rshift" and isinstance(a, int) and a != 128):
        return IntX("wrongmask", b.w)
    if isinstance(b, IntX) and b.what == "7-bit" and o == "lshift" and a == 1:
        return IntX("msbmask", b.w)
    if isinstance(b, IntX) and b.what == "7-bit" and o == "rshift" and a == 128:
        return IntX("lsbmask", b.w)
    return None


class Byte(object):
    """the byte at a position, possibly with one bit selected"""
    def __init__(self, bits, pos, bit=None):
        self.bits, self.pos, self.bit = bits, pos, bit

    @property
    def name(self):
        return "byte(%s)" % (wname(self.pos),)

    def withbit(self, b):
        if self.bit is not None:
            raise Undecided("byte")
        return Byte(self.bits, self.pos, b)

    def read(self, h, it, set_):
        """is the selected bit set?  -> the lane's boolean for the element this bit belongs to"""
        p, b = self.pos, self.bit
        if isinstance(p, int) and isinstance(b, (U8, int)):
            v = b.v if isinstance(b, U8) else b
            if v == 0 or v & (v - 1):
                raise Undecided("bit mask")
            k = v.bit_length() - 1
            i = 8 * p + (k if self.bits.lsb else 7 - k)
            lane = h.lane_at(it, i)
            r = self.bits.lanes[lane]
            return El(i, lane, r if set_ else ev("not", [r]))
        if isinstance(p, IntX) and isinstance(b, IntX) and p.what == "byte":
            if b.what == ("lsbmask" if self.bits.lsb else "msbmask") and b.w == p.w:
                key = p.w
                for k in list(h.chosen):
                    if str(p.w) == str(k):
                        key = k
                lane = h.lane_at(it, h.alias(p.w))
                r = self.bits.lanes[lane]
                return El(h.alias(p.w), lane, r if set_ else ev("not", [r]))
            return El(str(p.w), None, GARB)
        raise Undecided("bit of a byte")
