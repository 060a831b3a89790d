"""Arrays of symbolic lengths: what stands at every position.

An array is a sequence of segments; a segment has a length (a linear expression over the sizes of the abstract world) and gives, for the k-th
position in it, a value that is linear in k or a value of an array that is not looked into (the k-th element of "content", ...).  Slices, masks,
repetitions, prefix sums, comparisons and assignments split and rearrange segments.  A comparison of linear expressions that the linear facts of
the path (the polyhedral abstract domain; entailment by elimination of variables) do not decide is a fork, and each branch adds the fact.
Nothing of the package is executed and no array is built.
"""
import ast
import itertools
from math import gcd
from sa.interp import Hooks, Tok, Inst, ClsRef, Fn, Ext, Meth, Lam, PyDict, PyList, Star, Raise, Undecided, deps

LAYOUTS = ("JaggedArray", "ByteJaggedArray", "MaskedArray", "BitMaskedArray", "IndexedMaskedArray", "IndexedArray", "SparseArray", "UnionArray", "ObjectArray", "StringArray", "Table", "ChunkedArray", "AppendableArray", "VirtualArray")
TYPES = ("INDEXTYPE", "MASKTYPE", "BOOLTYPE", "TAGTYPE", "CHARTYPE", "BITMASKTYPE", "DEFAULTTYPE")
UNINIT = ("uninitialised",)
K = "k"


_reprs = {}


def _repr(a):
    r = _reprs.get(a)
    if r is None:
        r = _reprs[a] = repr(a)
    return r


class L(object):
    """a linear expression with integer coefficients"""
    __slots__ = ("d", "c", "_h")

    def __init__(self, d=(), c=0):
        self.d = tuple(sorted(((a, n) for a, n in dict(d).items() if n), key=lambda p: _repr(p[0])))
        self.c = c
        self._h = hash((self.d, c))

    @staticmethod
    def of(x):
        if isinstance(x, L):
            return x
        if isinstance(x, bool):
            return L((), int(x))
        if isinstance(x, int):
            return L((), x)
        if isinstance(x, str):
            return L({x: 1})
        if isinstance(x, tuple):
            return L({x: 1})
        raise Undecided("not a number: %r" % (x,))

    def __add__(self, o):
        o = L.of(o)
        d = dict(self.d)
        for a, n in o.d:
            d[a] = d.get(a, 0) + n
        return L(d, self.c + o.c)
    __radd__ = __add__

    def __neg__(self):
        return L(dict((a, -n) for a, n in self.d), -self.c)

    def __sub__(self, o):
        return self + -L.of(o)

    def __rsub__(self, o):
        return L.of(o) + -self

    def times(self, n):
        return L(dict((a, m * n) for a, m in self.d), self.c * n)

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    @property
    def const(self):
        return self.c if not self.d else None

    def coef(self, a):
        for x, n in self.d:
            if x == a:
                return n
        return 0

    def has(self, a):
        return any(x == a or isinstance(x, tuple) and _inatom(x, a) for x, _ in self.d)

    def sub(self, e):
        """k -> e"""
        if not self.has(K):
            return self
        out = L((), self.c)
        for a, n in self.d:
            if a == K:
                out = out + L.of(e).times(n)
            else:
                out = out + L({_subatom(a, e): n})
        return out

    @property
    def name(self):
        return repr(self)

    def __repr__(self):
        s = []
        for a, n in self.d:
            s.append(("+" if n > 0 else "-") + ("" if abs(n) == 1 else "%d*" % abs(n)) + (a if isinstance(a, str) else "%s(%s)" % (a[0], ", ".join(map(str, a[1:])))))
        if self.c or not s:
            s.append("%+d" % self.c)
        return "".join(s).lstrip("+")


def _inatom(x, a):
    return isinstance(x, L) and x.has(a) or isinstance(x, tuple) and any(_inatom(y, a) for y in x[1:])


def _subatom(x, e):
    if isinstance(x, L):
        return x.sub(e)
    if isinstance(x, tuple):
        return (x[0],) + tuple(_subatom(y, e) for y in x[1:])
    return x


def plain(x):
    """python integers for constant expressions"""
    return x.c if isinstance(x, L) and not x.d else x


class Cond(object):
    """l >= 0, l == 0 or l != 0"""
    __slots__ = ("op", "l")

    def __init__(self, op, l):
        self.op, self.l = op, l

    def neg(self):
        return Cond("ge", -self.l - 1) if self.op == "ge" else Cond("ne" if self.op == "eq" else "eq", self.l)

    def sub(self, e):
        return Cond(self.op, self.l.sub(e))

    def __eq__(self, o):
        return isinstance(o, Cond) and self.op == o.op and self.l == o.l

    def __hash__(self):
        return hash((self.op, self.l))

    @property
    def name(self):
        return repr(self)

    def __repr__(self):
        return "%r %s 0" % (self.l, {"ge": ">=", "eq": "==", "ne": "!="}[self.op])


class Bool(object):
    """conditions joined by and / or"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def neg(self):
        return Bool("or" if self.op == "and" else "and", self.a.neg(), self.b.neg())

    def sub(self, e):
        return Bool(self.op, self.a.sub(e), self.b.sub(e))

    def __eq__(self, o):
        return isinstance(o, Bool) and (self.op, self.a, self.b) == (o.op, o.a, o.b)

    def __hash__(self):
        return hash((self.op, self.a, self.b))

    @property
    def name(self):
        return repr(self)

    def __repr__(self):
        return "(%r %s %r)" % (self.a, self.op, self.b)


class Facts(object):
    """a conjunction of linear inequalities over integers"""
    def __init__(self, nonneg):
        self.nonneg = set(nonneg)
        self.ge = []
        self.ne = []
        self.cache = {}

    def add(self, c):
        if c.op == "ge":
            self.ge.append(c.l)
        elif c.op == "eq":
            self.ge += [c.l, -c.l]
        else:
            self.ne.append(c.l)
        self.cache = {}
        for _ in range(2):
            for l in list(self.ne):
                if self.entails(l):
                    self.ne.remove(l)
                    self.ge.append(l - 1)
                    self.cache = {}
                elif self.entails(-l):
                    self.ne.remove(l)
                    self.ge.append(-l - 1)
                    self.cache = {}

    def entails(self, l):
        if not l.d:
            return l.c >= 0
        if l in self.cache:
            return self.cache[l]
        r = all(n >= 0 and self.isnonneg(a) for a, n in l.d) and l.c >= 0
        if not r:
            r = self.refutes(-l - 1)
        if not r:
            for a, n in l.d:
                if isinstance(a, tuple) and a[0] == "max":
                    r = all(self.entails(l - L({a: n}) + L.of(x).times(n)) for x in a[1:])
                    break
        self.cache[l] = r
        return r

    def isnonneg(self, a):
        return a in self.nonneg or a == K or isinstance(a, tuple) and a[0] == "len"

    def refutes(self, l):
        """facts and l >= 0 have no solution (elimination of variables, with rounding to integers)"""
        rows = [l] + list(self.ge)
        rel = set(a for a, _ in l.d)
        use = [l]
        rest = list(self.ge)
        grown = True
        while grown:
            grown = False
            for r in list(rest):
                if any(a in rel for a, _ in r.d):
                    use.append(r)
                    rest.remove(r)
                    rel |= set(a for a, _ in r.d)
                    grown = True
            for a in list(rel):
                if isinstance(a, tuple) and a[0] == "max":
                    for x in a[1:]:
                        r = L({a: 1}) - x
                        if r not in use:
                            use.append(r)
                            rel |= set(y for y, _ in r.d)
                            grown = True
        use += [r for r in rest if not r.d]
        for a in rel:
            if self.isnonneg(a):
                use.append(L({a: 1}))
        rows = set(use)
        vs = set(rel)
        while vs:
            if any(not r.d and r.c < 0 for r in rows):
                return True
            rows = set(r for r in rows if r.d)
            ups, downs = {}, {}
            for r in rows:
                for a, n in r.d:
                    if n > 0:
                        ups[a] = ups.get(a, 0) + 1
                    else:
                        downs[a] = downs.get(a, 0) + 1
            best = None
            for v in sorted(vs, key=_repr):
                p, m = ups.get(v, 0), downs.get(v, 0)
                if best is None or p * m - p - m < best[0]:
                    best = (p * m - p - m, v)
            v = best[1]
            vs.discard(v)
            pos = [r for r in rows if r.coef(v) > 0]
            neg = [r for r in rows if r.coef(v) < 0]
            rows = set(r for r in rows if r.coef(v) == 0)
            for x in pos:
                for y in neg:
                    z = x.times(-y.coef(v)) + y.times(x.coef(v))
                    g = 0
                    for _, n in z.d:
                        g = gcd(g, n)
                    if g > 1:
                        z = L(dict((a, n // g) for a, n in z.d), z.c // g)
                    if not z.d and z.c < 0:
                        return True
                    if z.d:
                        rows.add(z)
            if len(rows) > 300:
                # keep what is strongest for each left side
                best = {}
                for r in rows:
                    k = r.d
                    if k not in best or r.c < best[k].c:
                        best[k] = r
                rows = set(best.values())
                if len(rows) > 600:
                    return False
        return any(not r.d and r.c < 0 for r in rows)


class Seq(object):
    """a one-dimensional array"""
    _n = [0]

    def __init__(self, segs=(), dtype="int", base=None, lo=None, origin=None):
        self.segs = [(L.of(n), v) for n, v in segs]
        self.dtype = dtype
        self.base, self.lo, self.origin = base, lo, origin     # the array this is a view of, from where on
        Seq._n[0] += 1
        self.id = Seq._n[0]

    @property
    def name(self):
        return "array%d" % self.id

    @property
    def len(self):
        out = L()
        for n, _ in self.segs:
            out = out + n
        return out

    def copy(self, **kw):
        return Seq(self.segs, kw.get("dtype", self.dtype))

    def __repr__(self):
        return "[" + ", ".join("%r: %r" % s for s in self.segs[:9]) + "]"


class Mat(object):
    """a two-dimensional array: a known number of rows of one length"""
    def __init__(self, rows, dtype="int"):
        self.rows, self.dtype = list(rows), dtype

    name = "matrix"

    @property
    def width(self):
        return self.rows[0].len if self.rows else L()

    def __repr__(self):
        return "Mat%r" % (self.rows,)


def subst(v, e):
    if isinstance(v, (L, Cond, Bool)):
        return v.sub(e)
    return v


def hask(v):
    if isinstance(v, Bool):
        return hask(v.a) or hask(v.b)
    return isinstance(v, L) and v.has(K) or isinstance(v, Cond) and v.l.has(K)


def opaque(name, length, dtype="any"):
    return Seq([(length, L.of((name, L.of(K))))], dtype)


class SeqHooks(Hooks):
    MAXLOOP = 12
    checkvalid = False

    def __init__(self, prog, nonneg=()):
        self.prog = prog
        self.facts = Facts(nonneg)
        self.notes = []
        self.residues = {}

    def layout(self, n):
        return next((c for c in self.prog.classes.values() if c.name == n), None) if not isinstance(self.prog.classes, list) else next(c for c in self.prog.classes if c.name == n)

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        f = self.facts
        if c.op == "ge":
            if f.entails(c.l):
                return True
            if f.entails(-c.l - 1):
                return False
            return None
        if not c.l.d:
            return (c.l.c == 0) == (c.op == "eq")
        if f.entails(c.l) and f.entails(-c.l):
            return c.op == "eq"
        if f.entails(c.l - 1) or f.entails(-c.l - 1) or c.l in f.ne or -c.l in f.ne:
            return c.op == "ne"
        return None

    def ask(self, it, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, Bool):
            if c.op == "and":
                return self.ask(it, c.a) and self.ask(it, c.b)
            return self.ask(it, c.a) or self.ask(it, c.b)
        r = self.decide(c)
        if r is not None:
            return r
        if hask(c):
            raise Undecided("condition on every position")
        r = it.fork(("cond", c.op, repr(c.l), len(it.taken))) == 0
        self.facts.add(c if r else c.neg())
        return r

    def ge(self, it, a, b):
        return self.ask(it, Cond("ge", L.of(a) - L.of(b)))

    def eq(self, it, a, b):
        return self.ask(it, Cond("eq", L.of(a) - L.of(b)))

    def divide(self, it, x, d):
        """(quotient, remainder) of a linear expression and a positive number; the remainder is decided, path by path"""
        x = L.of(x)
        y = L(dict((a, n // d) for a, n in x.d), 0)
        v = L(dict((a, n % d) for a, n in x.d), 0)
        c = x.c
        if not v.d:
            return y + c // d, c % d
        known = self.residues.setdefault(d, [])
        for cs in itertools.product(range(d), repeat=len(known)):
            s = v
            for m, (w, _, _) in zip(cs, known):
                s = s - w.times(m)
            if all(n % d == 0 for _, n in s.d):
                q, r = L(dict((a, n // d) for a, n in s.d), 0), 0
                for m, (_, qw, rw) in zip(cs, known):
                    q, r = q + qw.times(m), r + rw * m
                return y + q + (r + c) // d, (r + c) % d
        if len(known) >= 6 or hask(v):
            raise Undecided("division by %d" % d)
        rows = self.congruences(d)
        rest = self.reduce(rows, v, d) if rows is not None else v
        r = it.fork(("residue", repr(v), d), d) if rest.d else rest.c % d
        q = L.of(("div", v, d))
        self.facts.add(Cond("eq", v - q.times(d) - r))
        known.append((v, q, r))
        return y + q + (r + c) // d, (r + c) % d

    def congruences(self, d):
        """what is known to be divisible by the prime d, as rows with one leading atom each; None: contradictory"""
        f = self.facts
        rows = []
        for l in [w - r for w, _, r in self.residues.get(d, [])] + [l for l in f.ge if f.entails(-l)]:
            l = self.reduce(rows, l, d)
            if not l.d:
                if l.c % d:
                    return None
                continue
            a, n = l.d[0]
            l = l.times(pow(n, -1, d))
            l = L(dict((b, m % d) for b, m in l.d), l.c % d)
            rows = [(b, self.reduce([(a, l)], o, d)) for b, o in rows] + [(a, l)]
        return rows

    def reduce(self, rows, l, d):
        for a, o in rows:
            l = l - o.times(l.coef(a))
        return L(dict((b, m % d) for b, m in l.d), l.c % d)

    def possible(self):
        return all(self.congruences(d) is not None for d in self.residues)

    def every(self, it, segs, st):
        """every st-th element"""
        out, skip = [], 0
        for n, v in segs:
            if not self.ge(it, n, skip + 1):
                for p in range(skip + 1):
                    if p == skip or self.eq(it, n, p):
                        skip -= p
                        break
                continue
            q, r = self.divide(it, n - skip + st - 1, st)
            out.append((q, subst(v, L.of(K).times(st) + skip)))
            skip = st - 1 - r
        return out

    def truth(self, it, v):
        if isinstance(v, (Cond, Bool)):
            return self.ask(it, v)
        if isinstance(v, L):
            return self.ask(it, Cond("ne", v))
        if isinstance(v, Seq):
            if v.len.const == 1:
                return self.truth(it, self.at(it, v, L()))
            raise Raise("ValueError")
        return None

    def same(self, it, a, b):
        if isinstance(a, (L, int)) and isinstance(b, (L, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.eq(it, a, b)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return a is b
        return None

    def equal(self, it, a, b, node):
        return None

    def compare(self, it, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            return NotImplemented
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.bymat(it, lambda x, y: self.compare(it, op, x, y, node), a, b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            return self.zip(it, lambda x, y: self.cmp(op, x, y), a, b, "bool")
        if self.isnum(a) and self.isnum(b):
            return self.cmp(op, a, b)
        for x, y in ((a, b), (b, a)):
            if self.isnum(x) and isinstance(y, Ext) and y.name in ("numpy.inf", "-numpy.inf", "numpy.nan"):
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    return isinstance(op, ast.NotEq)
        return NotImplemented

    def isnum(self, v):
        return isinstance(v, (L, int)) and not isinstance(v, bool)

    def cmp(self, op, x, y):
        o = type(op) if not isinstance(op, type) else op
        if isinstance(x, (bool, Cond)) or isinstance(y, (bool, Cond)):
            if isinstance(x, bool) and isinstance(y, bool) and o in (ast.Eq, ast.NotEq):
                return (x == y) == (o is ast.Eq)
            if isinstance(y, bool) and isinstance(x, Cond) and o in (ast.Eq, ast.NotEq):
                return x if y == (o is ast.Eq) else x.neg()
            if isinstance(x, (bool, Cond)) and y == 0 and not isinstance(y, Cond) and o in (ast.Eq, ast.NotEq):
                return x if o is ast.NotEq else self.nott(x)
            raise Undecided("comparison of conditions")
        if not self.isnum(x) or not self.isnum(y):
            raise Undecided("comparison of %r and %r" % (x, y))
        x, y = L.of(x), L.of(y)
        c = {ast.Lt: lambda: Cond("ge", y - x - 1), ast.LtE: lambda: Cond("ge", y - x), ast.Gt: lambda: Cond("ge", x - y - 1), ast.GtE: lambda: Cond("ge", x - y),
             ast.Eq: lambda: Cond("eq", x - y), ast.NotEq: lambda: Cond("ne", x - y)}[o]()
        r = None if hask(c) else self.decide(c)
        return c if r is None else r

    # ------------------------------------------------------------------ arithmetic
    def arith(self, op, x, y):
        o = type(op).__name__ if not isinstance(op, str) else op
        if o in ("BitAnd", "BitOr", "BitXor"):
            for p, q in ((x, y), (y, x)):
                if isinstance(p, bool):
                    if o == "BitAnd":
                        return q if p else False
                    if o == "BitOr":
                        return True if p else q
                    if isinstance(q, bool):
                        return p != q
                    return q.neg() if p else q
            if x == y and o != "BitXor":
                return x
            if isinstance(x, (Cond, Bool)) and isinstance(y, (Cond, Bool)) and o != "BitXor":
                return Bool("and" if o == "BitAnd" else "or", x, y)
            raise Undecided("conditions combined")
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if not self.isnum(x) or not self.isnum(y):
            if x is UNINIT or y is UNINIT:
                return UNINIT
            raise Undecided("arithmetic on %r and %r" % (x, y))
        if o == "Add":
            return plain(L.of(x) + L.of(y))
        if o == "Sub":
            return plain(L.of(x) - L.of(y))
        if o == "Mult":
            for p, q in ((x, y), (y, x)):
                p = plain(p)
                if isinstance(p, int):
                    return plain(L.of(q).times(p))
        if o in ("FloorDiv", "Mod") and plain(y) == 1:
            return x if o == "FloorDiv" else 0
        if o in ("FloorDiv", "Mod") and isinstance(plain(x), int) and isinstance(plain(y), int) and plain(y):
            return plain(x) // plain(y) if o == "FloorDiv" else plain(x) % plain(y)
        raise Undecided("arithmetic %s" % o)

    def binop(self, it, op, a, b, node):
        if isinstance(a, Mat) or isinstance(b, Mat):
            def f(x, y):
                r = self.binop(it, op, x, y, node)
                return self.arith(op, x, y) if r is NotImplemented else r
            return self.bymat(it, f, a, b)
        if isinstance(a, Seq) or isinstance(b, Seq):
            if isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
                raise Undecided("array and list")
            return self.zip(it, lambda x, y: self.arith(op, x, y), a, b, "bool" if type(op).__name__.startswith("Bit") else "int")
        if isinstance(a, L) and isinstance(b, int) and type(op).__name__ in ("FloorDiv", "Mod") and 0 < b < 4:
            q, r = self.divide(it, a, b)
            return r if isinstance(op, ast.Mod) else plain(q)
        if (isinstance(a, (L, Cond, Bool)) or isinstance(b, (L, Cond, Bool))) and isinstance(a, (L, Cond, Bool, int)) and isinstance(b, (L, Cond, Bool, int)):
            return self.arith(op, a, b)
        if isinstance(a, int) and isinstance(b, int) and type(op).__name__ in ("FloorDiv", "Mod") and b:
            return a // b if isinstance(op, ast.FloorDiv) else a % b
        if isinstance(op, ast.Mult) and isinstance(a, PyList) and isinstance(b, int):
            return PyList(a.xs * b)
        return NotImplemented

    def augop(self, it, op, a, b, node):
        if isinstance(a, Mat):
            a.rows = self.binop(it, op, a, b, node).rows
            return a
        if isinstance(a, Seq):
            r = self.binop(it, op, a, b, node)
            self.replace(it, a, r.segs)
            return a
        if isinstance(a, (L, int)) and isinstance(b, (L, int)):
            return self.binop(it, op, a, b, node) if isinstance(a, L) or isinstance(b, L) or type(op).__name__ in ("FloorDiv", "Mod") else NotImplemented
        return NotImplemented

    def unop(self, it, op, a, node):
        if isinstance(a, Mat):
            return Mat([self.unop(it, op, r, node) for r in a.rows])
        if isinstance(a, Seq):
            if isinstance(op, ast.Invert):
                return self.map(a, lambda v: self.nott(v), "bool")
            if isinstance(op, ast.USub):
                return self.map(a, lambda v: plain(-L.of(v)))
        if isinstance(a, L) and isinstance(op, ast.USub):
            return -a
        if isinstance(a, Ext) and a.name == "numpy.inf" and isinstance(op, ast.USub):
            return Ext("-numpy.inf")
        return NotImplemented

    def nott(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, (Cond, Bool)):
            return v.neg()
        raise Undecided("not %r" % (v,))

    def map(self, a, f, dtype=None):
        return Seq([(n, f(v)) for n, v in a.segs], dtype or a.dtype)

    # ------------------------------------------------------------------ matrices
    def bymat(self, it, f, a, b):
        """f(row, row) with broadcasting; f works on sequences or numbers"""
        n = max([len(x.rows) for x in (a, b) if isinstance(x, Mat)])
        for x in (a, b):
            if isinstance(x, Mat) and len(x.rows) not in (1, n):
                raise Raise("ValueError")

        def rows(x):
            if isinstance(x, Mat):
                rs = x.rows if len(x.rows) == n else x.rows * n
                return [self.at(it, r, L()) if r.len.const == 1 else r for r in rs]
            return [x] * n
        out = []
        for x, y in zip(rows(a), rows(b)):
            r = f(x, y)
            out.append(r if isinstance(r, Seq) else Seq([(L.of(1), r)]))
        return Mat(out)

    def tomat(self, it, o, shape):
        """o reshaped to (rows, columns)"""
        n, m = [plain(x) for x in shape]
        if isinstance(o, Mat):
            o = self.join(it, o.rows)
        if m == -1 and isinstance(n, int) and n > 0:
            m = plain(self.divide(it, o.len, n)[0]) if n < 4 else None
        if isinstance(m, int) and m > 0 and n == -1:
            if o.len.const is None or o.len.const % m:
                raise Undecided("reshape")
            n = o.len.const // m
        if not isinstance(n, int) or n < 0:
            raise Undecided("reshape to any number of rows")
        if not self.eq(it, o.len, L.of(m).times(n)):
            raise Raise("ValueError")
        out, rest = [], list(o.segs)
        for _ in range(n):
            cur, rest = self.split(it, rest, L.of(m))
            out.append(Seq(cur, o.dtype))
        return Mat(out, o.dtype)

    def matmeth(self, it, o, n, args, kw):
        if n == "reshape" and len(args) in (1, 2):
            sh = args if len(args) == 2 else args[0] if isinstance(args[0], tuple) else (args[0],)
            if len(sh) == 1:
                return self.join(it, o.rows)
            return self.tomat(it, o, sh)
        if n in ("ravel", "flatten"):
            return self.join(it, o.rows).copy()
        if n in ("any", "all", "max", "min") and not args and not kw:
            return self.vecmeth(it, self.join(it, o.rows), n, args, kw)
        if n in ("astype", "copy"):
            return Mat([self.vecmeth(it, r, n, args, kw) for r in o.rows])
        raise Undecided("matrix method %s" % n)

    # ------------------------------------------------------------------ segments
    def split(self, it, a, p):
        """(segments before position p, segments from p on)"""
        p = L.of(p)
        pre = L()
        for i, (n, v) in enumerate(a):
            if p == pre:
                return a[:i], a[i:]
            if self.ge(it, pre + n, p):
                if pre + n == p:
                    return a[:i + 1], a[i + 1:]
                if self.decide(Cond("eq", pre - p)):
                    return a[:i], a[i:]
                if self.decide(Cond("eq", pre + n - p)):
                    return a[:i + 1], a[i + 1:]
                m = p - pre
                return a[:i] + [(m, v)], [(n - m, subst(v, L.of(K) + m))] + a[i + 1:]
            pre = pre + n
        if self.decide(Cond("eq", pre - p)):
            return list(a), []
        raise Undecided("position %r beyond %r" % (p, pre))

    def common(self, it, a, b):
        """both sequences cut at the same positions; their lengths must be equal"""
        a, b = [s for s in a if s[0] != L()], [s for s in b if s[0] != L()]
        out = []
        while a and b:
            (n, v), (m, w) = a[0], b[0]
            if n == m or self.decide(Cond("eq", n - m)):
                out.append((n, v, w))
                a, b = a[1:], b[1:]
            elif self.decide(Cond("ge", n - m)) is not True and self.ge(it, m, n):
                out.append((n, v, w))
                a, b = a[1:], [(m - n, subst(w, L.of(K) + n))] + b[1:]
            else:
                out.append((m, v, w))
                a, b = [(n - m, subst(v, L.of(K) + m))] + a[1:], b[1:]
        for n, _ in a + b:
            if not self.decide(Cond("eq", n)):
                if self.ask(it, Cond("eq", n)):
                    continue
                raise Raise("ValueError")
        return [(n, one(n, v), one(n, w)) for n, v, w in out]

    def zip(self, it, f, a, b, dtype):
        if not isinstance(a, Seq):
            return Seq([(n, f(a, v)) for n, v in b.segs], dtype)
        if not isinstance(b, Seq):
            return Seq([(n, f(v, b)) for n, v in a.segs], dtype)
        if a.len.const == 1 and b.len.const != 1:
            x = self.at(it, a, L())
            return Seq([(n, f(x, v)) for n, v in b.segs], dtype)
        if b.len.const == 1 and a.len.const != 1:
            x = self.at(it, b, L())
            return Seq([(n, f(v, x)) for n, v in a.segs], dtype)
        return Seq([(n, f(v, w)) for n, v, w in self.common(it, a.segs, b.segs)], dtype)

    def at(self, it, a, p):
        """the element at position p >= 0"""
        p = L.of(p)
        pre = L()
        if self.ge(it, p, a.len):
            raise Raise("IndexError")
        for n, v in a.segs:
            if not self.ge(it, p, pre + n):
                return plain(subst(one(n, v), p - pre))
            pre = pre + n
        raise Raise("IndexError")

    def norm(self, it, i, n):
        """a position given by an integer index"""
        i = L.of(i)
        if not self.ge(it, i, 0):
            i = i + n
            if not self.ge(it, i, 0):
                raise Raise("IndexError")
        return i

    def bounds(self, it, k, n, raw=False):
        lo, hi, st = (k.start, k.stop, k.step) if isinstance(k, slice) else k.parts
        st = plain(st)
        if st is not None and (not isinstance(st, int) or not 0 < abs(st) < 4):
            if isinstance(st, int) and n.const is not None and all(x is None or isinstance(plain(x), int) for x in (lo, hi)):
                return plain(lo), plain(hi), st
            raise Undecided("step %r" % (st,))
        if st is not None and st < 0:
            def at(x, d):
                if x is None:
                    return d
                if not self.isnum(x):
                    raise Undecided("slice of %r" % (x,))
                x = L.of(x)
                if not self.ge(it, x, 0):
                    x = x + n
                    if not self.ge(it, x, 0):
                        return L.of(-1)
                return x if self.ge(it, n - 1, x) else n - 1
            lo, hi = at(lo, n - 1), at(hi, L.of(-1))
            if raw:
                return lo, hi, st
            return (hi + 1, lo + 1, st) if self.ge(it, lo, hi) else (L(), L(), st)

        def pos(x, d):
            if x is None:
                return d
            if not self.isnum(x):
                raise Undecided("slice of %r" % (x,))
            x = L.of(x)
            if not self.ge(it, x, 0):
                x = x + n
                if not self.ge(it, x, 0):
                    return L()
            return x if self.ge(it, n, x) else n
        lo, hi = pos(lo, L()), pos(hi, n)
        if not raw and not self.ge(it, hi, lo):
            hi = lo
        return lo, hi, st or 1

    def cut(self, it, segs, lo, hi):
        a, b = self.split(it, list(segs), lo)
        c, d = self.split(it, b, L.of(hi) - L.of(lo))
        return c

    def getslice(self, it, a, k):
        lo, hi, st = self.bounds(it, k, a.len)
        if not 0 < abs(st) < 4:
            if a.len.const is None:
                raise Undecided("step")
            xs = list(range(a.len.const))[slice(lo, hi, st)]
            return Seq([(L.of(1), self.at(it, a, L.of(x))) for x in xs], a.dtype)
        if st < 0:
            out = self.rev(self.cut(it, a.segs, lo, hi))
            return Seq(out if st == -1 else self.every(it, out, -st), a.dtype)
        if st > 1:
            return Seq(self.every(it, self.cut(it, a.segs, lo, hi), st), a.dtype)
        base = a.base if a.base is not None else a
        off = (a.lo if a.lo is not None else L()) + lo
        return Seq(self.cut(it, a.segs, lo, hi), a.dtype, base=base, lo=off)

    def rev(self, segs):
        return [(n, subst(v, n - 1 - L.of(K))) for n, v in reversed(segs)]

    def boolsegs(self, it, a):
        """the segments with True and False only"""
        out = []
        for n, v in a.segs:
            v = one(n, v)
            if isinstance(v, Bool) and hask(v):
                for m, x, y in self.common(it, self.boolsegs(it, Seq([(n, v.a)])), self.boolsegs(it, Seq([(n, v.b)]))):
                    out.append((m, (x and y) if v.op == "and" else (x or y)))
                continue
            if isinstance(v, Cond) and hask(v):
                s = v.l.coef(K)
                root = None
                if abs(s) != 1 or (v.l - L.of(K).times(s)).has(K):
                    raise Undecided("condition in k")
                rest = v.l - L.of(K).times(s)          # s*k + rest
                if v.op == "ge":
                    # k >= -rest   or   k <= rest
                    t = -rest if s == 1 else rest + 1
                    if not self.ge(it, t, 0):
                        t = L()
                    elif not self.ge(it, n, t):
                        t = n
                    out += [(t, s != 1), (n - t, s == 1)]
                else:
                    root = -rest if s == 1 else rest
                    if self.ge(it, root, 0) and self.ge(it, n - 1, root):
                        out += [(root, v.op != "eq"), (L.of(1), v.op == "eq"), (n - root - 1, v.op != "eq")]
                    else:
                        out.append((n, v.op != "eq"))
            elif isinstance(v, (bool, Cond, Bool)):
                if n.const == 0:
                    continue
                out.append((n, self.ask(it, v)))
            else:
                raise Undecided("mask of %r" % (v,))
        return [s for s in out if s[0] != L()]

    def isbool(self, a):
        return a.dtype == "bool" or any(isinstance(v, (bool, Cond, Bool)) for _, v in a.segs)

    def ranges(self, it, idx, n):
        """(length, first position, step) of every segment of an integer index into an array of length n"""
        out = []
        for m, v in idx.segs:
            v = one(m, v)
            if m == L():
                continue
            if not self.isnum(v):
                raise Undecided("index %r" % (v,))
            v = L.of(v)
            s = v.coef(K)
            rest = v - L.of(K).times(s)
            if s not in (0, 1, -1) or rest.has(K):
                raise Undecided("index %r" % (v,))
            if m.const is None and not self.ge(it, m, 1):
                continue
            first, last = rest, rest + (m - 1).times(s)
            for p in {first, last}:
                if not self.ge(it, p, 0):
                    if s != 0:
                        raise Undecided("negative index range")
                    rest = rest + n
                    if not self.ge(it, rest, 0):
                        raise Raise("IndexError")
                    p = rest
                if self.ge(it, p, n):
                    raise Raise("IndexError")
            out.append((m, rest, s))
        return out

    def take(self, it, a, idx):
        out = []
        for m, p, s in self.ranges(it, idx, a.len):
            if s == 0:
                out.append((m, self.at(it, a, p)))
            elif s == 1:
                out += self.cut(it, a.segs, p, p + m)
            else:
                out += self.rev(self.cut(it, a.segs, p - m + 1, p + 1))
        return Seq(out, a.dtype)

    def mask(self, it, a, m):
        if not self.decide(Cond("eq", a.len - m.len)) and not self.eq(it, a.len, m.len):
            raise Raise("IndexError")
        m = self.boolsegs(it, m)
        return Seq([(n, v) for n, v, b in self.common(it, a.segs, m) if b], a.dtype)

    def listed(self, it, k):
        if isinstance(k, PyList):
            return Seq([(1, x) for x in k.xs], "bool" if any(isinstance(x, (bool, Cond)) for x in k.xs) else "int")
        return k

    def getitem(self, it, o, k, node):
        if isinstance(o, Ext) and o.name == "numpy.r_":
            return self.join(it, k if isinstance(k, tuple) else (k,))
        if isinstance(o, (PyList, tuple)) and isinstance(k, Tok) and k.kind == "slice" and all(x is None or isinstance(plain(x), int) for x in k.parts):
            return it.getitem(o, slice(*[plain(x) for x in k.parts]))
        if isinstance(o, (PyList, tuple)) and isinstance(k, L):
            xs = o.xs if isinstance(o, PyList) else o
            k = self.norm(it, k, L.of(len(xs)))
            for i in range(len(xs)):
                if self.eq(it, k, i):
                    return xs[i]
            raise Raise("IndexError")
        if isinstance(o, Mat):
            if isinstance(k, Mat):
                if len(k.rows) != len(o.rows):
                    raise Raise("IndexError")
                return self.join(it, [self.mask(it, x, m) for x, m in zip(o.rows, k.rows)])
            if isinstance(plain(k), int) and not isinstance(k, bool):
                return o.rows[plain(k)]
            raise Undecided("part of a matrix")
        if not isinstance(o, Seq):
            return NotImplemented
        if isinstance(k, tuple) and k == ():
            return o
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, tuple):
            raise Undecided("two dimensions")
        k = self.listed(it, k)
        if isinstance(k, slice) or isinstance(k, Tok) and k.kind == "slice":
            return self.getslice(it, o, k)
        if isinstance(k, Seq):
            return self.mask(it, o, k) if self.isbool(k) else self.take(it, o, k)
        if self.isnum(k):
            return self.at(it, o, self.norm(it, k, o.len))
        raise Undecided("index %r" % (k,))

    def replace(self, it, a, segs):
        """new contents, seen through every view and by the array viewed"""
        a.segs = list(segs)
        if a.base is not None:
            b = a.base
            x, y = self.split(it, b.segs, a.lo)
            z, w = self.split(it, y, a.len)
            b.segs = x + list(segs) + w

    def setattr(self, it, o, name, v, node):
        if isinstance(o, Seq) and name == "shape" and isinstance(v, tuple) and len(v) == 1:
            if not self.eq(it, o.len, L.of(v[0])):
                raise Raise("ValueError")
            return True
        return False

    def setitem(self, it, o, k, v, node):
        if isinstance(o, Mat):
            if isinstance(k, slice):
                k = (k, slice(None))
            if isinstance(k, tuple) and len(k) == 2 and all(x == slice(None) for x in k):
                for r in o.rows:
                    if isinstance(v, Mat):
                        raise Undecided("matrix into matrix")
                    self.setitem(it, r, slice(None), v, node)
                return True
            raise Undecided("part of a matrix")
        if isinstance(o, PyList) and isinstance(k, L):
            k = self.norm(it, k, L.of(len(o.xs)))
            for i in range(len(o.xs)):
                if self.eq(it, k, i):
                    o.xs[i] = v
                    return True
            raise Raise("IndexError")
        if not isinstance(o, Seq):
            return False
        k = self.listed(it, k)
        v = self.listed(it, v)
        n = o.len

        def put(segs, lo, hi, new):
            a, b = self.split(it, segs, lo)
            c, d = self.split(it, b, L.of(hi) - L.of(lo))
            return a + new + d
        if isinstance(k, slice) or isinstance(k, Tok) and k.kind == "slice":
            lo, hi, st = self.bounds(it, k, n)
            if st != 1:
                raise Undecided("assignment with a step")
            if isinstance(v, Seq):
                if v.len.const == 1 and not self.decide(Cond("eq", hi - lo - 1)):
                    new = [(hi - lo, self.at(it, v, L()))]
                else:
                    if not self.eq(it, v.len, hi - lo):
                        raise Raise("ValueError")
                    new = list(v.segs)
            else:
                new = [(hi - lo, v)]
            self.replace(it, o, put(o.segs, lo, hi, new))
            return True
        if isinstance(k, Seq) and self.isbool(k):
            if not self.eq(it, n, k.len):
                raise Raise("IndexError")
            m = self.boolsegs(it, k)
            total = L()
            for c, b in m:
                if b:
                    total = total + c
            rest = None
            if isinstance(v, Seq) and not (v.len.const == 1 and total.const != 1):
                if not self.eq(it, v.len, total):
                    raise Raise("ValueError")
                rest = list(v.segs)
            elif isinstance(v, Seq):
                v = self.at(it, v, L())
            segs, pre = list(o.segs), L()
            for c, b in m:
                if b:
                    if rest is None:
                        new = [(c, v)]
                    else:
                        new, rest = self.split(it, rest, c)
                    segs = put(segs, pre, pre + c, new)
                pre = pre + c
            self.replace(it, o, segs)
            return True
        if isinstance(k, Seq):
            rest = None
            if isinstance(v, Seq) and not (v.len.const == 1 and k.len.const != 1):
                if not self.eq(it, v.len, k.len):
                    raise Raise("ValueError")
                rest = list(v.segs)
            elif isinstance(v, Seq):
                v = self.at(it, v, L())
            segs = list(o.segs)
            for m, p, s in self.ranges(it, k, n):
                if rest is None:
                    new = [(m, v)]
                else:
                    new, rest = self.split(it, rest, m)
                if s == 1 or m.const == 1 or self.decide(Cond("eq", m - 1)):
                    segs = put(segs, p, p + m, new)
                elif s == -1:
                    segs = put(segs, p - m + 1, p + 1, self.rev(new))
                else:
                    raise Undecided("one position assigned often")
            self.replace(it, o, segs)
            return True
        if self.isnum(k):
            p = self.norm(it, k, n)
            if self.ge(it, p, n):
                raise Raise("IndexError")
            if isinstance(v, Seq):
                if v.len.const != 1:
                    raise Raise("ValueError")
                v = self.at(it, v, L())
            self.replace(it, o, put(o.segs, p, p + 1, [(L.of(1), v)]))
            return True
        raise Undecided("assignment at %r" % (k,))

    # ------------------------------------------------------------------ attributes
    def getattr(self, it, o, name, node):
        if isinstance(o, Mat):
            if name == "shape":
                return (len(o.rows), plain(o.width))
            if name == "dtype":
                return Tok("type", "dtype(%s)" % o.dtype)
            if name == "T":
                w = o.width.const
                if w is None:
                    raise Undecided("transposed")
                return Mat([Seq([(L.of(1), self.at(it, r, L.of(i))) for r in o.rows]) for i in range(w)])
            return Meth(o, name)
        if isinstance(o, (L, int)) and not isinstance(o, bool) and name == "shape":
            return ()
        if isinstance(o, Meth) and o.name == "$property" and name == "fget":
            return Meth(o.obj, "$fget")
        if isinstance(o, (Inst, ClsRef)) and any(k.name in LAYOUTS for k in o.cls.mro()):
            if name == "numpy":
                return Ext("numpy")
            if name == "shape" and isinstance(o, Inst) and "shape" in o.attrs:
                return o.attrs["shape"]
            if name == "shape" and isinstance(o, Inst) and isinstance(o.attrs.get("_starts"), Seq):
                return (plain(o.attrs["_starts"].len),)
            if name in ("dtype", "type") and isinstance(o, Inst) and name not in o.attrs and "_" + name not in o.attrs:
                return Tok("type", name)
            if name in LAYOUTS:
                return ClsRef(self.layout(name)) if isinstance(o, Inst) else Meth(ClsRef(self.layout(name)), "$property")
            if name in TYPES:
                return Tok("type", name)
            if name in ("check_prop_valid", "check_whole_valid"):
                return self.checkvalid
            return NotImplemented
        if isinstance(o, Seq):
            if name == "shape":
                return (plain(o.len),)
            if name == "size":
                return plain(o.len)
            if name == "ndim":
                return 1
            if name == "dtype":
                return Tok("type", "dtype(%s)" % o.dtype)
            if name == "base":
                return o.base
            if name == "T":
                return o
            return Meth(o, name)
        if isinstance(o, (L, Cond)):
            return Meth(o, name)
        if o is None:
            raise Raise("AttributeError")
        if isinstance(o, slice) or isinstance(o, Tok) and o.kind == "slice":
            ps = (o.start, o.stop, o.step) if isinstance(o, slice) else o.parts
            if name in ("start", "stop", "step"):
                return ps[("start", "stop", "step").index(name)]
            return Meth(o, name)
        if isinstance(o, Tok) and o.kind == "iinfo" and name == "max":
            return int(o.name)
        if isinstance(o, Tok) and o.kind == "type":
            if name == "type":
                return Tok("type", o.name + ".type")
            if name == "shape" and o.name == "type":
                return (1,)
            return Meth(o, name)
        return NotImplemented

    def isinstance(self, it, v, c):
        if isinstance(v, slice) or isinstance(v, Tok) and v.kind == "slice":
            return any(getattr(x, "name", None) == "slice" for x in (c if isinstance(c, tuple) else (c,)))
        names = [x.cls.name if isinstance(x, ClsRef) else getattr(x, "name", "?").rsplit(".", 1)[-1] for x in (c if isinstance(c, tuple) else (c,))]
        if isinstance(v, Seq):
            return "ndarray" in names
        if isinstance(v, L):
            return any(n in ("int", "integer", "long", "Number", "Integral") for n in names)
        if isinstance(v, int) and not isinstance(v, bool):
            return any(n in ("int", "integer", "long", "Number", "Integral") for n in names)
        return None

    def iterate(self, it, v):
        if isinstance(v, Seq):
            if all(n.const is not None for n, _ in v.segs):
                out = []
                for n, x in v.segs:
                    out += [plain(subst(x, L.of(i))) for i in range(n.const)]
                return out
            raise Undecided("iteration over an array")
        return None

    # ------------------------------------------------------------------ calls
    def trust(self, it, f, args, kw):
        """functions of the package that a check answers itself"""
        return NotImplemented

    def call(self, it, f, args, kw, node):
        if isinstance(f, Meth):
            if f.name == "$fget":
                return f.obj
            if f.name == "indices" and (isinstance(f.obj, slice) or isinstance(f.obj, Tok) and f.obj.kind == "slice"):
                n = L.of(args[0])
                st = plain((f.obj.step if isinstance(f.obj, slice) else f.obj.parts[2]))
                lo, hi, st = self.bounds(it, f.obj, n, raw=True)
                return (plain(lo), plain(hi), st)
            if isinstance(f.obj, Tok) and f.obj.kind == "type":
                if f.name == "type" and args:
                    return args[0]
                return Tok("any", None, ())
            if isinstance(f.obj, Ext) and False:
                pass
            if isinstance(f.obj, Seq):
                return self.vecmeth(it, f.obj, f.name, args, kw)
            if isinstance(f.obj, Mat):
                return self.matmeth(it, f.obj, f.name, args, kw)
            if isinstance(f.obj, L):
                if f.name in ("astype", "item"):
                    return f.obj
                raise Undecided("method %s of a number" % f.name)
        if isinstance(f, Meth) and f.name == "__new__" and isinstance(f.obj, ClsRef):
            return Inst(f.obj.cls, {}, "new")
        if isinstance(f, ClsRef) and any(k.name in LAYOUTS for k in f.cls.mro()):
            out = Inst(f.cls, {}, "new")
            init = f.cls.find("__init__")
            if init is None:
                raise Undecided("no constructor")
            it.call_fn(init, out, args, kw)
            return out
        if isinstance(f, Tok) and f.kind == "type" and len(args) == 1:
            return args[0]
        if isinstance(f, Fn):
            n = f.f.name
            r = self.trust(it, f, args, kw)
            if r is not NotImplemented:
                return r
            if n == "windows_safe":
                return args[0]
            if n == "_util_isstringslice":
                return isinstance(args[0], str) or isinstance(args[0], PyList) and bool(args[0].xs) and all(isinstance(x, str) for x in args[0].xs)
            if n == "maybemixin" and args and isinstance(args[-1], ClsRef):
                return args[-1]
            if n == "_util_isinteger":
                return self.isnum(args[0])
            if n == "_util_isintegertype":
                return not (isinstance(args[0], Tok) and "(bool)" in args[0].name)
            if n == "_util_toarray":
                v = self.listed(it, args[0])
                if isinstance(v, tuple):
                    v = Seq([(1, x) for x in v])
                if isinstance(v, (Seq, Inst)):
                    return v
                raise Undecided("_util_toarray")
            if n == "_util_deepcopy" and isinstance(args[0], Seq):
                return args[0].copy()
            if n in ("_valid", "_validate_monotonic") and not self.checkvalid:
                return None
        if isinstance(f, Ext):
            n = f.name
            if n in ("len",) and len(args) == 1:
                if isinstance(args[0], Seq):
                    return plain(args[0].len)
                if isinstance(args[0], Inst):
                    m = args[0].cls.find("__len__")
                    if m is not None:
                        return it.call_fn(m, args[0], [], {})
            if n in ("min", "max") and len(args) == 2 and all(self.isnum(x) for x in args):
                a, b = args
                return (a if self.ge(it, b, a) else b) if n == "min" else (a if self.ge(it, a, b) else b)
            if n in ("min", "max", "sum") and len(args) == 1:
                xs = self.iterate(it, args[0]) if isinstance(args[0], Seq) else it.iterate(args[0])
                if xs is not None and all(self.isnum(x) for x in xs) and (xs or n == "sum"):
                    if n == "sum":
                        out = L()
                        for x in xs:
                            out = out + x
                        return plain(out)
                    out = xs[0]
                    for x in xs[1:]:
                        out = (out if self.ge(it, x, out) else x) if n == "min" else (out if self.ge(it, out, x) else x)
                    return out
            if n in ("int", "float", "abs") and len(args) == 1 and self.isnum(args[0]):
                if n == "abs":
                    return args[0] if self.ge(it, args[0], 0) else plain(-L.of(args[0]))
                return args[0]
            if n in ("range", "xrange") and args:
                xs = [plain(x) for x in args]
                if all(isinstance(x, int) for x in xs):
                    return PyList(range(*xs))
                if len(xs) <= 2:
                    lo, hi = (0, xs[0]) if len(xs) == 1 else xs
                    out = []
                    i = lo
                    while not self.ge(it, i, hi):
                        out.append(plain(i))
                        i = plain(L.of(i) + 1)
                        if len(out) > self.MAXLOOP:
                            raise Undecided("range")
                    return PyList(out)
                raise Undecided("range")
            if n == "issubclass" and len(args) == 2 and isinstance(args[0], Tok) and args[0].kind == "type" and args[0].name.startswith("dtype("):
                names = [getattr(x, "name", "?").rsplit(".", 1)[-1] for x in (args[1] if isinstance(args[1], tuple) else (args[1],))]
                isb = "(bool)" in args[0].name
                return isb == any(x.startswith("bool") for x in names) if isb or all(x.startswith("bool") for x in names) else any("int" in x for x in names)
            if n == "slice" and args:
                xs = (None, args[0], None) if len(args) == 1 else tuple(args) + (None,) * (3 - len(args))
                if all(x is None or isinstance(x, int) for x in xs):
                    return slice(*xs)
                t = Tok("slice", None, ())
                t.parts = xs
                return t
            if n == "divmod" and all(isinstance(plain(x), int) for x in args) and plain(args[1]):
                return divmod(plain(args[0]), plain(args[1]))
            if n.startswith("numpy."):
                return self.numpy(it, n[6:], args, kw)
        return NotImplemented

    def join(self, it, xs):
        out = []
        for x in xs:
            x = self.listed(it, x)
            if isinstance(x, Seq):
                out += x.segs
            elif self.isnum(x):
                out.append((L.of(1), x))
            else:
                raise Undecided("joined %r" % (x,))
        return Seq(out)

    def filled(self, it, n, v, dtype="int"):
        if isinstance(n, tuple):
            if len(n) != 1:
                raise Undecided("two dimensions")
            n = n[0]
        if not self.isnum(n):
            raise Undecided("size %r" % (n,))
        n = L.of(n)
        if not self.ge(it, n, 0):
            raise Raise("ValueError")
        if n.const is not None and n.const <= 12:
            return Seq([(L.of(1), v)] * n.const, dtype)
        return Seq([(n, v)], dtype)

    def arange(self, it, args):
        xs = [L.of(x) for x in args]
        lo, hi, st = (L(), xs[0], L.of(1)) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else L.of(1))
        if st.const not in (1, -1):
            for q in range(8):          # a whole number of steps, and one position more
                if hi - lo - 1 == st.times(q) and self.ge(it, st, 1):
                    return Seq([(L.of(1), plain(lo + st.times(i))) for i in range(q + 1)])
            d = hi - lo - 1
            if st.const and st.const > 0 and all(c % st.const == 0 for _, c in d.d) and d.c % st.const == 0 and self.ge(it, d, 0):
                return Seq([(L([(a, c // st.const) for a, c in d.d], d.c // st.const) + 1, lo + L.of(K).times(st.const))])
            raise Undecided("arange with a step")
        n = (hi - lo).times(st.const)
        if not self.ge(it, n, 0):
            n = L()
        if n.const is not None and n.const <= 12:
            return Seq([(L.of(1), plain(lo + st.const * i)) for i in range(n.const)])
        return Seq([(n, lo + L.of(K).times(st.const))])

    def cumsum(self, it, a):
        out, acc = [], L()
        for n, v in a.segs:
            v = one(n, v)
            v = L.of(int(v) if isinstance(v, bool) else (v if self.isnum(v) else self.bad(v)))
            if n.const == 1:
                acc = acc + v
                out.append((n, plain(acc)))
            elif v.const is not None:
                out.append((n, acc + L.of(K).times(v.const) + v.const))
                acc = acc + n.times(v.const)
            elif n == L():
                pass
            else:
                raise Undecided("prefix sums of %r" % (v,))
        return Seq(out)

    def bad(self, v):
        raise Undecided("number %r" % (v,))

    def search(self, it, a, x, side):
        """how many elements of the increasing array a are <= x (right) or < x (left): a fork over the answers"""
        n = a.len.const
        if n is None:
            raise Undecided("search in an array of unknown length")
        els = [self.at(it, a, L.of(i)) for i in range(n)]
        for i, e in enumerate(els):
            # els[:i] are smaller
            below = self.ge(it, x, e) if side == "right" else not self.ge(it, e, x)
            if not below:
                return i
        return n

    def searchseq(self, it, a, x, side):
        out = []
        n = a.len.const
        if n is None:
            raise Undecided("search in an array of unknown length")
        els = [L.of(self.at(it, a, L.of(i))) for i in range(n)]
        for m, v in x.segs:
            v = one(m, v)
            if not self.isnum(v):
                raise Undecided("search for %r" % (v,))
            v = L.of(v)
            if not v.has(K):
                if m == L():
                    continue
                out.append((m, self.search(it, a, v, side)))
                continue
            if v.coef(K) != 1 or (v - L.of(K)).has(K):
                raise Undecided("search for %r" % (v,))
            first = v - L.of(K)
            pos = L()
            for i, e in enumerate(els):
                # the values v with v < e (right) or v <= e (left) that are left
                upto = e - first + (0 if side == "right" else 1)
                if not self.ge(it, upto, pos):
                    upto = pos
                if not self.ge(it, m, upto):
                    upto = m
                out.append((upto - pos, i))
                pos = upto
            out.append((m - pos, n))
        return Seq([s for s in out if s[0] != L()])

    def numpy(self, it, n, args, kw):
        a = [self.listed(it, x) for x in args]
        base = set(kw) - {"dtype", "copy", "order"}
        if n == "iinfo":
            nm = getattr(a[0], "name", "").rsplit(".", 1)[-1]
            return Tok("iinfo", str({"TAGTYPE": 127, "uint8": 255, "uint16": 65535, "int8": 127, "uint32": 2**32 - 1, "uint64": 2**64 - 1}.get(nm, 2**63 - 1)))
        if n == "r_":
            raise Undecided("r_")
        if n in ("dtype", "int64", "int32", "intp", "bool_", "integer"):
            return a[0] if a and (self.isnum(a[0])) else Tok("type", n)
        mat = any(isinstance(x, Mat) for x in a) or isinstance(kw.get("out"), Mat)
        if mat:
            return self.matcall(it, n, a, kw)
        if n in ("empty", "zeros", "ones", "full") and isinstance(args[0], tuple) and len(args[0]) == 2 and isinstance(plain(args[0][0]), int):
            return Mat([self.numpy(it, n, [(args[0][1],)] + list(args[1:]), kw) for _ in range(plain(args[0][0]))])
        if n == "vstack" and args:
            xs = it.iterate(args[0])
            if all(isinstance(x, Seq) for x in xs):
                for x in xs[1:]:
                    if not self.eq(it, x.len, xs[0].len):
                        raise Raise("ValueError")
                return Mat(xs)
        if n == "tile" and len(a) == 2 and isinstance(a[0], Seq) and isinstance(plain(a[1]), int):
            return self.join(it, [a[0]] * plain(a[1])) if plain(a[1]) else Seq([], a[0].dtype)
        if n == "empty" and not base:
            return self.filled(it, args[0] if isinstance(args[0], tuple) else a[0], UNINIT)
        if n in ("zeros", "ones") and not base:
            isb = "bool" in getattr(kw.get("dtype", a[1] if len(a) > 1 else None), "name", "").lower()
            return self.filled(it, args[0], bool(n == "ones") if isb else int(n == "ones"), "bool" if isb else "int")
        if n == "full" and base <= {"fill_value"}:
            v = kw.get("fill_value", a[1] if len(a) > 1 else None)
            return self.filled(it, args[0], v, "bool" if isinstance(v, bool) else "any")
        if n in ("zeros_like", "ones_like", "empty_like", "full_like") and isinstance(a[0], Seq):
            v = {"z": 0, "o": 1, "e": UNINIT, "f": a[1] if len(a) > 1 else None}[n[0]]
            return Seq([(m, v) for m, _ in a[0].segs])
        if n == "arange":
            return self.arange(it, a)
        if n == "resize" and isinstance(a[0], Seq) and len(a) == 2:
            to = args[1][0] if isinstance(args[1], tuple) and len(args[1]) == 1 else a[1]
            m, to = a[0].len, L.of(to)
            if self.ge(it, m, to):
                return Seq(self.cut(it, a[0].segs, L(), to), a[0].dtype)
            if self.decide(Cond("eq", m)):
                return self.filled(it, args[1], False if self.isbool(a[0]) else 0)
            if not self.ge(it, m.times(2), to):
                return Seq(list(a[0].segs) * 2 + [(to - m.times(2), UNINIT)], a[0].dtype)      # not followed further
            return Seq(list(a[0].segs) + self.cut(it, a[0].segs, L(), to - m), a[0].dtype)
        if n in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy") and isinstance(a[0], Seq):
            return a[0].copy() if n == "array" and kw.get("copy", True) is not False or n == "copy" else a[0]
        if n in ("array", "asarray") and self.isnum(a[0]):
            return a[0]
        if n == "cumsum" and isinstance(a[0], Seq) and base <= {"out"}:
            r = self.cumsum(it, a[0])
            if "out" in kw:
                o = kw["out"]
                if not self.eq(it, o.len, r.len):
                    raise Raise("ValueError")
                self.replace(it, o, r.segs)
                return o
            return r
        if n == "diff" and isinstance(a[0], Seq) and base <= {"prepend"}:
            x = a[0]
            if "prepend" in kw:
                x = self.join(it, (kw["prepend"], x))
            m = x.len
            lo, hi = Tok("slice", None, ()), Tok("slice", None, ())
            return self.zip(it, lambda p, q: self.arith("Sub", p, q), self.getslice(it, x, slice(1, None)), self.getslice(it, x, slice(None, -1)), "int")
        if n == "repeat" and isinstance(a[0], Seq) and len(a) == 2:
            if isinstance(a[1], Seq):
                cs = self.common(it, a[0].segs, a[1].segs) if not (a[1].len.const == 1 and a[0].len.const != 1) else [(m, v, self.at(it, a[1], L())) for m, v in a[0].segs]
            else:
                cs = [(m, v, a[1]) for m, v in a[0].segs]
            out = []
            for m, v, c in cs:
                if m.const is None:
                    if m == L():
                        continue
                    if plain(c) == 1:
                        out.append((m, v))
                        continue
                    raise Undecided("repeated segments")
                for i in range(m.const):
                    out.append((L.of(subst(c, L.of(i))), subst(v, L.of(i))))
            return Seq(out, a[0].dtype)
        if n in ("concatenate", "hstack", "append"):
            xs = list(a) if n == "append" else it.iterate(args[0])
            return self.join(it, xs)
        if n == "put" and isinstance(a[0], Seq):
            self.setitem(it, a[0], a[1], a[2], None)
            return None
        if n == "take" and isinstance(a[0], Seq) and not base:
            return self.getitem(it, a[0], a[1], None)
        if n in ("nonzero", "flatnonzero") and isinstance(a[0], Seq):
            out, pre = [], L()
            for m, b in self.boolsegs(it, a[0] if self.isbool(a[0]) else self.map(a[0], lambda v: self.cmp(ast.NotEq, v, 0), "bool")):
                if b:
                    out.append((m, plain(pre) if m.const == 1 else pre + L.of(K)))
                pre = pre + m
            r = Seq(out)
            return (r,) if n == "nonzero" else r
        if n == "count_nonzero" and isinstance(a[0], Seq):
            return plain(sum((m for m, b in self.boolsegs(it, a[0] if self.isbool(a[0]) else self.map(a[0], lambda v: self.cmp(ast.NotEq, v, 0), "bool")) if b), L()))
        if n == "searchsorted" and isinstance(a[0], Seq):
            side = kw.get("side", a[2] if len(a) > 2 else "left")
            if isinstance(a[1], Seq):
                return self.searchseq(it, a[0], a[1], side)
            if self.isnum(a[1]):
                return self.search(it, a[0], L.of(a[1]), side)
        if n == "array_equal" and len(a) == 2 and isinstance(a[0], Seq) and isinstance(a[1], Seq):
            if not self.eq(it, a[0].len, a[1].len):
                return False
            for m, v, w in self.common(it, a[0].segs, a[1].segs):
                if v == w:
                    continue
                s = Seq([(m, self.cmp(ast.Eq, v, w))], "bool")
                for c, b in self.boolsegs(it, s):
                    if not b and self.ge(it, c, 1):
                        return False
            return True
        if n == "where" and len(a) == 3 and isinstance(a[0], Seq):
            m = Seq(self.boolsegs(it, a[0]), "bool")
            t = self.zip(it, lambda b, x: (b, x), m, a[1], "pair") if not isinstance(a[1], Seq) else Seq([(c, (b, x)) for c, b, x in self.common(it, m.segs, a[1].segs)])
            segs = [(c, p) for c, p in t.segs]
            if isinstance(a[2], Seq):
                out = []
                # the pairs carry k: substitute by hand
                bs, xs = [(c, p[0]) for c, p in segs], [(c, p[1]) for c, p in segs]
                one_ = self.common(it, xs, a[2].segs)
                pos = L()
                left = list(bs)
                for c, x, y in one_:
                    cur, left = self.split(it, left, c)
                    if len(cur) != 1:
                        raise Undecided("where")
                    out.append((c, x if cur[0][1] else y))
                return Seq(out)
            return Seq([(c, p[1] if p[0] else a[2]) for c, p in segs])
        if n in ("minimum", "maximum") and len(a) == 2 and not kw:
            return self.lesser(it, a[0], a[1], n == "minimum")
        if n in ("clip",) and len(a) == 3:
            x = self.lesser(it, a[0], a[1], False) if a[1] is not None else a[0]
            return self.lesser(it, x, a[2], True) if a[2] is not None else x
        if n in ("logical_not", "bitwise_not", "invert") and isinstance(a[0], Seq):
            return self.map(a[0], self.nott, "bool")
        if n in ("logical_and", "bitwise_and", "logical_or", "bitwise_or", "logical_xor") and len(a) == 2 and not kw:
            o = "BitAnd" if "and" in n else "BitXor" if "xor" in n else "BitOr"
            return self.zip(it, lambda x, y: self.arith(o, x, y), a[0], a[1], "bool")
        if n in ("remainder", "mod") and len(a) == 2 and not kw and self.isnum(a[1]):
            return self.binop(it, ast.Mod(), a[0], a[1], None)
        if n in ("add", "subtract", "multiply") and len(a) == 2 and not kw:
            o = {"a": "Add", "s": "Sub", "m": "Mult"}[n[0]]
            if isinstance(a[0], Seq) or isinstance(a[1], Seq):
                return self.zip(it, lambda x, y: self.arith(o, x, y), a[0], a[1], "int")
            return self.arith(o, a[0], a[1])
        if n in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal") and len(a) == 2 and not kw:
            o = {"equal": ast.Eq, "not_equal": ast.NotEq, "less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE}[n]()
            return self.compare(it, o, a[0], a[1], None)
        if n in ("any", "all", "max", "min", "amax", "amin", "sum") and len(a) == 1 and isinstance(a[0], Seq) and not kw:
            return self.vecmeth(it, a[0], n[1:] if n.startswith("am") else n, [], {})
        if n in ("flip",) and isinstance(a[0], Seq):
            return Seq(self.rev(a[0].segs), a[0].dtype)
        if n == "unique" and len(a) == 1 and isinstance(a[0], Seq) and not kw:
            vs = set()
            for m, v in a[0].segs:
                if not isinstance(plain(v), int):
                    raise Undecided("numpy.unique")
                if self.ge(it, m, 1):
                    vs.add(plain(v))
            return Seq([(L.of(1), v) for v in sorted(vs)])
        if n.endswith(".reduceat") and len(a) == 2 and isinstance(a[0], Seq) and isinstance(a[1], Seq) and not kw:
            if a[1].len.const is None:
                raise Undecided("reduceat")
            pos = [L.of(self.at(it, a[1], L.of(i))) for i in range(a[1].len.const)]
            out = []
            for p, q in zip(pos, pos[1:] + [a[0].len]):
                if not self.ge(it, p, 0) or self.ge(it, p, a[0].len):
                    raise Raise("IndexError")
                out.append(self.reduced(it, n[:-9], self.cut(it, a[0].segs, p, q)) if self.ge(it, q, p + 1) else self.at(it, a[0], p))
            return Seq([(L.of(1), v) for v in out], a[0].dtype)
        if n == "ediff1d" and isinstance(a[0], Seq) and not kw:
            return self.numpy(it, "diff", [a[0]], {})
        raise Undecided("numpy.%s" % n)

    def reduced(self, it, n, segs):
        """what one reduction of the segments gives: numbers are added up, opaque values are named by where they are"""
        s = Seq(segs)
        if n == "add" and all(isinstance(plain(one(m, v)), (bool, int)) or isinstance(one(m, v), (Cond, Bool)) for m, v in segs):
            return plain(sum((m.times(int(plain(one(m, v)))) if not isinstance(one(m, v), (Cond, Bool)) else L() for m, v in segs), L())) if not any(isinstance(one(m, v), (Cond, Bool)) for m, v in segs) else self.vecmeth(it, Seq(segs, "bool"), "sum", [], {})
        return L.of(("reduced " + n,) + tuple(y for m, v in self.merged(segs) for y in (m, v)))

    def merged(self, segs):
        """adjacent stretches of the same array are one"""
        out = []
        for m, v in segs:
            if m == L():
                continue
            v = L.of(v)
            if not v.has(K) and m.const == 1 and v.d and len(v.d) == 1 and isinstance(v.d[0][0], tuple) and len(v.d[0][0]) == 2:
                v = L.of((v.d[0][0][0], L.of(v.d[0][0][1]) + L.of(K)))
            if out and v.has(K) and subst(out[-1][1], L.of(K) + out[-1][0]) == v:
                out[-1] = (out[-1][0] + m, out[-1][1])
            else:
                out.append((m, v))
        return out

    def matcall(self, it, n, a, kw):
        if n == "count_nonzero" and kw.get("axis") == 1 and len(a) == 1:
            return Seq([(L.of(1), self.numpy(it, n, [r], {})) for r in a[0].rows])
        if n in ("any", "all", "max", "min", "sum") and kw.get("axis") == 1 and len(a) == 1:
            return Seq([(L.of(1), self.vecmeth(it, r, n, [], {})) for r in a[0].rows])
        if n == "count_nonzero" and not kw:
            return self.numpy(it, n, [self.join(it, a[0].rows)], {})
        if len(a) == 2 and not set(kw) - {"out"}:
            r = self.bymat(it, lambda x, y: self.numpy(it, n, [x, y], {}), a[0], a[1])
            if isinstance(kw.get("out"), Mat):
                kw["out"].rows = r.rows
                return kw["out"]
            return r
        if len(a) == 1 and not kw and n in ("logical_not", "bitwise_not", "invert", "array", "asarray"):
            return Mat([self.numpy(it, n, [r], {}) for r in a[0].rows])
        raise Undecided("numpy.%s of a matrix" % n)

    def lesser(self, it, a, b, smaller):
        if not isinstance(a, Seq) and not isinstance(b, Seq):
            return (a if self.ge(it, b, a) else b) if smaller else (a if self.ge(it, a, b) else b)
        if not isinstance(a, Seq):
            a, b = b, a
        c = self.zip(it, lambda x, y: self.cmp(ast.LtE() if smaller else ast.GtE(), x, y), a, b, "bool")
        return self.numpy(it, "where", [c, a, b], {})

    def vecmeth(self, it, o, n, args, kw):
        if n in ("reshape", "ravel", "flatten", "view") and not kw:
            if n == "reshape" and args and not (len(args) == 1 and (plain(args[0]) == -1 or isinstance(args[0], tuple) and len(args[0]) == 1)):
                sh = args[0] if len(args) == 1 else tuple(args)
                if not isinstance(sh, tuple) or len(sh) != 2:
                    raise Undecided("reshape")
                return self.tomat(it, o, sh)
            return o if n in ("reshape", "ravel") else o.copy()
        if n in ("astype", "copy"):
            isb = n == "astype" and "bool" in getattr(args[0] if args else kw.get("dtype"), "name", "").lower()
            return o.copy(dtype="bool") if isb else o.copy()
        if n in ("any", "all") and not kw and not args:
            for m, b in self.boolsegs(it, o if self.isbool(o) else self.map(o, lambda v: self.cmp(ast.NotEq, v, 0), "bool")):
                if b == (n == "any") and self.ge(it, m, 1):
                    return n == "any"
            return n == "all"
        if n in ("max", "min") and not args and not kw:
            els = []
            for m, v in o.segs:
                v = one(m, v)
                if m == L() or m.const is None and not self.ge(it, m, 1):
                    continue
                if not self.isnum(v):
                    raise Undecided("max of %r" % (v,))
                v = L.of(v)
                els += [v] if not v.has(K) else [v.sub(0), v.sub(m - 1)]
                if v.has(K) and (v - L.of(K).times(v.coef(K))).has(K):
                    raise Undecided("max of %r" % (v,))
            if not els:
                raise Raise("ValueError")
            if len(els) == 1:
                return plain(els[0])
            for e in els:
                if all((self.decide(Cond("ge", e - x)) if n == "max" else self.decide(Cond("ge", x - e))) for x in els):
                    return plain(e)
            if n == "max":
                return L.of(("max",) + tuple(sorted(set(els), key=repr)))
            return -L.of(("max",) + tuple(sorted(set(-e for e in els), key=repr)))
        if n == "sum" and not args and not kw:
            if self.isbool(o):
                return plain(sum((m for m, b in self.boolsegs(it, o) if b), L()))
            out = L()
            for m, v in o.segs:
                v = one(m, v)
                if m.const == 1:
                    out = out + L.of(v)
                elif isinstance(plain(v), int):
                    out = out + m.times(plain(v))
                elif m == L():
                    pass
                else:
                    raise Undecided("sum")
            return plain(out)
        if n == "nonzero":
            return self.numpy(it, "nonzero", [o], {})
        if n == "cumsum":
            return self.numpy(it, "cumsum", [o], kw)
        if n == "tolist":
            return PyList(self.iterate(it, o))
        if n == "item" and not args:
            return self.at(it, o, L())
        if n == "fill":
            self.replace(it, o, [(m, args[0]) for m, _ in o.segs])
            return None
        if n == "searchsorted":
            return self.numpy(it, "searchsorted", [o] + list(args), kw)
        if n == "repeat":
            return self.numpy(it, "repeat", [o] + list(args), kw)
        if n == "take":
            return self.getitem(it, o, args[0], None)
        if n == "put":
            self.setitem(it, o, args[0], args[1], None)
            return None
        if n == "__getitem__":
            return self.getitem(it, o, args[0], None)
        if n == "__len__":
            return plain(o.len)
        raise Undecided("array method %s" % n)

    # ------------------------------------------------------------------ what a check asks
    def alike(self, x, y):
        """the same value at every k, or the same element of the same array"""
        if x == y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x[:1] == y[:1]:
            return all(self.alike(a, b) for a, b in zip(x[1:], y[1:]))
        if not self.isnum(x) or not self.isnum(y):
            return False
        d = L.of(x) - L.of(y)
        if all(not isinstance(a, tuple) for a, _ in d.d):
            return self.decide(Cond("eq", d)) is True
        p = [a for a, n in d.d if n == 1 and isinstance(a, tuple)]
        m = [a for a, n in d.d if n == -1 and isinstance(a, tuple)]
        for a in p:
            for b in m:
                if self.alike(a, b):
                    return self.alike(d - L.of(a) + L.of(b), L())
        return self.decide(Cond("eq", d)) is True

    def eqv(self, n, v, w):
        """v and w agree at the positions 0 <= k < n"""
        if n.const is None and self.decide(Cond("ge", L.of(1) - n)):
            v, w = subst(v, L()), subst(w, L())
        return self.alike(v, w)

    def differs(self, it, got, want):
        """None when both arrays are the same at every position; otherwise what differs"""
        if not isinstance(got, Seq):
            return "%r is not an array" % (got,)
        if not self.decide(Cond("eq", got.len - want.len)):
            return "length %r instead of %r" % (got.len, want.len)
        pos = L()
        if any(isinstance(v, (Cond, Bool)) for _, v in got.segs):
            got = Seq(self.boolsegs(it, got), "bool")
        for n, v, w in self.common(it, got.segs, want.segs):
            v, w = plain(one(n, v)), plain(one(n, w))
            if v != w and not self.decide(Cond("eq", n)) and not self.eqv(n, v, w):
                return "position %r: %r instead of %r" % (plain(pos + L.of(K)) if n.const != 1 else plain(pos), v, w)
            pos = pos + n
        return None


def one(n, v):
    return subst(v, L()) if n.const == 1 and hask(v) else v
