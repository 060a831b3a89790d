"""C14: fromiter keeps every object it is given: once, in order, nulls in their places.

The builder classes of awkward0.generate are interpreted on an abstract domain of lengths (linear expressions over the lengths of the
builders' lists, counters and nested builders).  append() must return a builder that is one longer, whichever path is taken; the
relations between a builder's fields that finalize() relies on are inferred and must be preserved by append() and clear().
"""
import ast
from sa.model import AnalysisBroken
from sa.report import Report

RULE = ("abstract interpretation of every builder's __init__, append, clear and finalize over linear length expressions: length accounting, use of the builder "
        "that append returns, relations between fields required by the array that finalize makes, positions of nulls and of union members, mask polarity")
ASSUMPTIONS = ("iterating an object twice is not needed: each element is taken from the iterator once by the for statement",
               "numpy and the array constructors keep the order of what they are given")

ARRAYS = {"MaskedArray", "IndexedArray", "IndexedMaskedArray", "JaggedArray", "UnionArray", "ObjectArray", "Table", "StringArray"}


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Lin(object):
    def __init__(self, c=0, t=None):
        self.c, self.t = c, dict((k, v) for k, v in (t or {}).items() if v)

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)

    def scale(self, n):
        return Lin(self.c * n, dict((k, v * n) for k, v in self.t.items()))

    def __sub__(self, o):
        return self + o.scale(-1)

    def const(self):
        return self.c if not self.t else None

    def key(self):
        return ("lin", self.c, tuple(sorted(self.t.items(), key=repr)))

    def same(self, o):
        return self.key() == o.key()

    def __repr__(self):
        return " + ".join([("%s" % k if v == 1 else "%d*%s" % (v, k)) for k, v in sorted(self.t.items(), key=repr)] + ([str(self.c)] if self.c or not self.t else []))


def atom(name):
    return Lin(0, {name: 1})


class Sym(object):
    def __init__(self, *key):
        self.k = key

    def __repr__(self):
        return repr(self.k)


class Tup(object):
    def __init__(self, xs):
        self.xs = list(xs)


class AList(object):
    def __init__(self, length, fill=None, items=(), name="list", last=None):
        self.len, self.fill, self.items, self.name, self.last = length, fill, list(items), name, last
        self.generic = {}        # key of position -> element (builders)
        self.added = []          # (position, value)

    def append(self, v):
        self.added.append((self.len, v))
        self.len = self.len + Lin(1)
        self.last = v if isinstance(v, Lin) else None


class AMap(object):
    def __init__(self, keys, each):
        self.keys, self.each, self.pending = keys, each, None


class Each(object):
    """a list made by a comprehension"""
    def __init__(self, elt, n):
        self.elt, self.n = elt, n


class AArr(object):
    def __init__(self, length, fill=None, nfill=None, nulls=None):
        self.len, self.fill, self.nfill, self.nulls = length, fill, nfill, nulls      # nulls: truth at the positions of a list of positions

    def true(self):
        if self.fill is None or self.nfill is None:
            return None
        return self.nfill if self.fill else self.len - self.nfill


class Builder(object):
    n = 0

    def __init__(self, cls=None, length=None, name="builder"):
        Builder.n += 1
        self.id, self.cls, self.len, self.name = Builder.n, cls, length, name
        self.fields, self.stale, self.classes = {}, False, None


class Fin(object):
    """what finalize of a nested builder returned"""
    def __init__(self, b, length):
        self.b, self.len = b, length


class ClassRef(object):
    def __init__(self, cls):
        self.cls = cls


class FuncRef(object):
    def __init__(self, f):
        self.f = f


class Bound(object):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Gen(object):
    def __init__(self, node, env, fr):
        self.node, self.env, self.fr = node, env, fr


def key(v):
    if isinstance(v, Lin):
        return v.key()
    if isinstance(v, Sym):
        return v.k
    if isinstance(v, ClassRef):
        return ("class", v.cls.qualname)
    if isinstance(v, Tup):
        return ("tuple",) + tuple(key(x) for x in v.xs)
    if isinstance(v, AMap):
        return ("map", v.keys)
    if isinstance(v, Builder):
        return ("builder", v.name)
    return ("obj", id(v))


class Run(object):
    """one path: decisions are replayed, then the first choice is taken"""

    def __init__(self, an, script):
        self.an, self.script, self.taken = an, script, []
        self.memo, self.eqs = {}, []
        self.events = []         # appends to builders
        self.issues = []
        self.depth = 0
        self.self_obj = None
        self.method = None

    def choose(self, k, n=2):
        if k in self.memo:
            return self.memo[k]
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else 0
        self.taken.append((c, n))
        self.memo[k] = c
        return c

    # ------------------------------------------------------------ lengths
    def norm(self, x):
        for a, e in self.eqs:
            if a in x.t:
                n = x.t[a]
                x = x - Lin(0, {a: n}) + e.scale(n)
        return x

    def length(self, v):
        if isinstance(v, Builder):
            if v.cls is not None and v.fields:
                f = v.cls.find("__len__")
                if f is None:
                    raise Undecided("no __len__ in %s" % v.cls.name)
                r = self.call(f, v.cls, [v], {})
                if not isinstance(r, Lin):
                    raise Undecided("__len__ of %s" % v.cls.name)
                return r
            return v.len
        if isinstance(v, (AList, AArr, Fin)):
            if v.len is None:
                raise Undecided("length")
            return v.len
        if isinstance(v, Tup):
            return Lin(len(v.xs))
        if isinstance(v, Each):
            return v.n
        return atom("len(%r)" % (key(v),))

    # -------------------------------------------------------------- calls
    def call(self, f, cls, args, kwargs):
        self.depth += 1
        if self.depth > 12:
            raise Undecided("call depth")
        a = f.node.args
        env = {}
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(names):])
        for n, v in kwargs.items():
            if n in names:
                env[n] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(d, {}, (f, cls))
        for n in names:
            env.setdefault(n, Sym("param", n))
        if a.kwarg:
            env[a.kwarg.arg] = Sym("options")
        try:
            self.block(f.node.body, env, (f, cls))
            out = Sym("const", None)
        except Ret as r:
            out = r.v
        self.depth -= 1
        return out

    # --------------------------------------------------------- statements
    def block(self, body, env, fr):
        for s in body:
            self.stmt(s, env, fr)

    def stmt(self, s, env, fr):
        if isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, fr) if s.value is not None else Sym("const", None))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env, fr)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, fr)
            for t in s.targets:
                self.store(t, v, env, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, env, fr), env, fr)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target, env, fr)
            new = self.ev(s.value, env, fr)
            if isinstance(old, AList) and isinstance(s.op, ast.Add):
                self.extend(old, new)
            else:
                self.store(s.target, self.binop(s.op, old, new), env, fr)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, fr)) else s.orelse, env, fr)
        elif isinstance(s, ast.Raise):
            raise Raised()
        elif isinstance(s, ast.For):
            self.loop(s, env, fr)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env[s.name] = Sym("closure", s.name)
        elif isinstance(s, (ast.Pass, ast.Assert, ast.Import, ast.ImportFrom, ast.Global)):
            pass
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        else:
            raise Undecided(type(s).__name__)

    def extend(self, lst, v):
        if isinstance(v, Tup):
            for x in v.xs:
                lst.append(x)
        elif isinstance(v, AList) and v.len.const() is not None and len(v.items) == v.len.const():
            for x in v.items:
                lst.append(x)
        else:
            raise Undecided("extend")

    def store(self, t, v, env, fr):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.xs) == len(t.elts):
                for x, y in zip(t.elts, v.xs):
                    self.store(x, y, env, fr)
            else:
                for i, x in enumerate(t.elts):
                    self.store(x, Sym("item", key(v), i), env, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, fr)
            if isinstance(o, Builder):
                o.fields[t.attr] = v
                if isinstance(v, AList):
                    v.name = t.attr
            elif isinstance(o, Sym):
                pass
            else:
                raise Undecided("attribute store")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, fr)
            i = self.ev(t.slice, env, fr)
            if isinstance(o, AMap):
                if key(i) == ("keyof", o.keys):
                    o.pending = v
                else:
                    raise Undecided("store of one column")
            elif isinstance(o, AArr):
                self.arrstore(o, i, v, t)
            elif isinstance(o, AList):
                j = self.pos(i)
                if j is not None and isinstance(j, Lin):
                    o.generic[j.key()] = v
                    o.added = [(p, v if p.same(j) else x) for p, x in o.added]
                else:
                    raise Undecided("list store")
            elif isinstance(o, Sym):
                pass
            else:
                raise Undecided("item store")
        else:
            raise Undecided("store")

    def pos(self, i):
        return i if isinstance(i, Lin) else None

    def arrstore(self, a, i, v, node):
        if isinstance(i, AList):                 # listed positions
            if i.name in (self.self_obj.fields if self.self_obj else {}):
                self.an.roles.setdefault((self.self_obj.cls, i.name), "positions")
            c = v.c if isinstance(v, Lin) and v.const() is not None else (v.k[1] if isinstance(v, Sym) and v.k[0] == "const" else None)
            if c is None or a.fill is None:
                a.fill = a.nfill = None
                return
            if bool(c) == bool(a.fill) and c == a.fill:
                a.nulls = bool(c)
            else:
                a.nfill = a.nfill - i.len
                a.nulls = bool(c)
        elif isinstance(i, AArr):                # through a mask
            n = i.true()
            if n is not None and hasattr(v, "len") and v.len is not None:
                d = self.norm(n - v.len)
                if d.const() != 0:
                    self.issues.append(("placement", node, "%s values are put into %s places" % (v.len, n)))
            if i.nulls is True and isinstance(v, (Fin, AArr)):
                self.issues.append(("placement", node, "the values are put into the places of the nulls"))
            if a.fill is not None and not isinstance(v, Lin):
                a.fill = a.nfill = None
        else:
            a.fill = a.nfill = None

    # -------------------------------------------------------------- loops
    def measures(self, env):
        out = {}
        seen = set()

        def visit(where, v, depth):
            if isinstance(v, Builder):
                if (v.id, where) in seen or depth > 3:
                    return
                seen.add((v.id, where))
                if v.fields and v.cls is not None:
                    for f, x in v.fields.items():
                        visit(where + (f,), x, depth + 1)
                    try:
                        out[where] = (v, self.length(v))
                    except Undecided:
                        pass
                elif v.len is not None:
                    out[where] = (v, v.len)
            elif isinstance(v, AList):
                out[where] = (v, v.len)
            elif isinstance(v, Lin):
                out[where] = (None, v)
        for n, v in env.items():
            visit((n,), v, 0)
        return out

    def put(self, env, where, lin):
        o = env
        for i, n in enumerate(where):
            last = i == len(where) - 1
            v = o[n] if isinstance(o, dict) else o.fields[n]
            if last:
                if isinstance(v, Builder) and v.fields and v.cls is not None:
                    pass
                elif isinstance(v, Lin):
                    if isinstance(o, dict):
                        o[n] = lin
                    else:
                        o.fields[n] = lin
                else:
                    v.len = lin
            o = v

    def loop(self, s, env, fr):
        it = self.ev(s.iter, env, fr)
        n, elem, search = self.iterate(it)
        # is one element picked, or are all treated alike?
        picks = any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s))
        if picks:
            c = self.choose(("loop", s.lineno, self.depth), 2)
            if c == 0:                       # no element is picked
                before = self.measures(env)
                nadds = len(self.events)
                mapsets = [m for m in self.maps(env) if m.pending is not None]
                self.nopick = True
                try:
                    self.store(s.target, elem("others"), env, fr)
                    self.block(s.body, env, fr)
                except (Brk, Ret):
                    raise Infeasible()
                except Cont:
                    pass
                after = self.measures(env)
                if len(self.events) != nadds or any(k in before and not before[k][1].same(v[1]) for k, v in after.items()):
                    raise Undecided("a loop that picks an element changes something for the others")
                self.block(s.orelse, env, fr)
                return
            self.store(s.target, elem("picked"), env, fr)
            try:
                self.block(s.body, env, fr)
            except Brk:
                return
            except Cont:
                pass
            raise Infeasible()
        maps = self.maps(env)
        before = self.measures(env)
        adds = dict((id(o), len(o.added)) for o in self.lists(env))
        self.store(s.target, elem("each"), env, fr)
        try:
            self.block(s.body, env, fr)
        except Cont:
            pass
        for m in maps:
            if m.pending is not None:
                if key(it) in (m.keys, ("map", m.keys), ("keys", m.keys), ("sorted", m.keys)) or getattr(it, "over", None) is m:
                    m.each, m.pending = m.pending, None
                else:
                    raise Undecided("columns assigned in a loop over something else")
        after = self.measures(env)
        for w, (o, v) in after.items():
            if w in before and isinstance(s.target, ast.Name) and w == (s.target.id,):
                continue
            if w in before and not before[w][1].same(v):
                d = (v - before[w][1]).const()
                if d is None:
                    raise Undecided("loop")
                m0 = before[w][1]
                total = m0 + (n.scale(d) if n is not None else atom("loop@%d" % s.lineno).scale(d))
                self.put(env, w, total)
        self.block(s.orelse, env, fr)

    def maps(self, env):
        out = []
        for v in env.values():
            if isinstance(v, Builder):
                out += [x for x in v.fields.values() if isinstance(x, AMap)]
            elif isinstance(v, AMap):
                out.append(v)
        return out

    def lists(self, env):
        out = []
        for v in env.values():
            if isinstance(v, Builder):
                out += [x for x in v.fields.values() if isinstance(x, AList)]
            elif isinstance(v, AList):
                out.append(v)
        return out

    def member(self, lst, p):
        """the element of a list of builders at position p"""
        k = p.key() if isinstance(p, Lin) else key(p)
        if k in lst.generic:
            return lst.generic[k]
        for q, v in lst.added:
            if isinstance(p, Lin) and self.norm(q - p).const() == 0:
                return v
        if isinstance(p, Lin) and p.const() is not None and 0 <= p.const() < len(lst.items):
            return lst.items[p.const()]
        b = Builder(None, atom("len(%s[%s])" % (lst.name, p)), "%s[%s]" % (lst.name, p))
        lst.generic[k] = b
        return b

    def iterate(self, it):
        """(how many, element for a label, ...)"""
        if isinstance(it, AList):
            if it.fill is None:
                return it.len, (lambda l: self.member(it, atom("k:%s:%s" % (it.name, l)))), True
            return it.len, (lambda l: Sym("elem", it.name, l)), True
        if isinstance(it, AMap):
            return None, (lambda l: Sym("keyof", it.keys)), True
        if isinstance(it, Sym) and it.k[0] == "enumerate" and isinstance(it.src, AList):
            src = it.src

            def f(l):
                p = atom("k:%s:%s" % (src.name, l))
                return Tup([p, self.member(src, p)])
            return src.len, f, True
        if isinstance(it, Sym) and it.k[0] == "range":
            return it.src, (lambda l: atom("k:%s:%s" % (self.rangename(it.src), l))), True
        if isinstance(it, Sym) and it.k[0] in ("keys", "items", "values") and getattr(it, "over", None) is not None:
            m = it.over
            return None, (lambda l: {"keys": Sym("keyof", m.keys), "values": m.each, "items": Tup([Sym("keyof", m.keys), m.each])}[it.k[0]]), True
        if isinstance(it, Sym) and it.k[0] == "sorted":
            return None, (lambda l: Sym("keyof", it.k[1])), True
        if isinstance(it, Sym):
            if any(m.keys == it.k for m in (self.maps({"s": self.self_obj}) if self.self_obj else [])):
                return None, (lambda l: Sym("keyof", it.k)), True
            return atom("n(%r)" % (it.k,)), (lambda l: Sym("elemof", it.k)), False
        if isinstance(it, Tup):
            raise Undecided("loop over a tuple")
        raise Undecided("loop over %s" % type(it).__name__)

    def rangename(self, n):
        if self.self_obj is not None:
            for f, v in self.self_obj.fields.items():
                if isinstance(v, AList) and v.len.same(n) and v.fill is None and not isinstance(v.last, Lin):
                    return v.name
        return repr(n)

    # -------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Lin):
            d = self.norm(v).const()
            if d is not None:
                return d != 0
            return not self.equal(v, Lin(0))
        if isinstance(v, Sym):
            if v.k[0] == "const":
                return bool(v.k[1])
            return self.choose(("truth",) + v.k, 2) == 0
        if isinstance(v, AList):
            return not self.equal(v.len, Lin(0))
        if isinstance(v, Tup):
            return bool(v.xs)
        if isinstance(v, Builder):
            return not self.equal(self.length(v), Lin(0))
        return self.choose(("truth", id(v)), 2) == 0

    def equal(self, a, b):
        d = self.norm(a - b)
        if d.const() is not None:
            return d.const() == 0
        c = self.choose(("eq", d.key()), 2)
        if c == 0:
            # use the equation
            for k, n in sorted(d.t.items(), key=repr):
                if abs(n) == 1:
                    rest = (d - Lin(0, {k: n})).scale(-n)
                    self.eqs = [(x, self.subst(e, k, rest)) for x, e in self.eqs] + [(k, rest)]
                    break
            return True
        return False

    def subst(self, e, k, r):
        n = e.t.get(k, 0)
        return e - Lin(0, {k: n}) + r.scale(n) if n else e

    def binop(self, op, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                if a.const() is not None:
                    return b.scale(a.c)
                if b.const() is not None:
                    return a.scale(b.c)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, AList) and isinstance(y, Lin) and x.len.const() == 1 and len(x.items) == 1:
                    return AList(y, ("const", x.items[0]), last=x.items[0] if isinstance(x.items[0], Lin) else None)
        if isinstance(op, ast.Add) and isinstance(a, AList) and isinstance(b, AList):
            r = AList(a.len, a.fill, a.items, a.name, a.last)
            r.generic, r.added = dict(a.generic), list(a.added)
            self.extend(r, b)
            return r
        for x in (a, b):
            if isinstance(x, AArr):
                return AArr(x.len)
        return Sym("bin", type(op).__name__, key(a), key(b))

    def ev(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Sym("expr", ast.dump(e)[:80])
        return m(e, env, fr)

    def e_Constant(self, e, env, fr):
        if isinstance(e.value, int) and not isinstance(e.value, bool):
            return Lin(e.value)
        return Sym("const", e.value)

    def e_Name(self, e, env, fr):
        if e.id in env:
            return env[e.id]
        m = fr[0].module
        c = self.an.classes.get(e.id)
        if c is not None:
            return ClassRef(c)
        f = self.an.functions.get(e.id)
        if f is not None:
            return FuncRef(f)
        if e.id in ("True", "False", "None"):
            return Sym("const", {"True": True, "False": False, "None": None}[e.id])
        return Sym("global", e.id)

    def e_Attribute(self, e, env, fr):
        o = self.ev(e.value, env, fr)
        if isinstance(o, Builder):
            if e.attr in o.fields:
                return o.fields[e.attr]
            if o.cls is not None and o.fields and o.cls.find(e.attr) is None:
                return Sym("attr", key(o), e.attr)
            return Bound(o, e.attr)
        if isinstance(o, (AList, AMap, ClassRef)):
            return Bound(o, e.attr)
        if isinstance(o, Fin):
            if e.attr in ("counts", "index", "starts", "stops", "tags"):
                return AArr(o.len)
            return Sym("attr", id(o), e.attr)
        if isinstance(o, AArr):
            return Bound(o, e.attr)
        return Sym("attr", key(o), e.attr)

    def e_Tuple(self, e, env, fr):
        return Tup([self.ev(x, env, fr) for x in e.elts])

    def e_List(self, e, env, fr):
        xs = [self.ev(x, env, fr) for x in e.elts]
        return AList(Lin(len(xs)), None, xs, last=xs[-1] if xs and isinstance(xs[-1], Lin) else None)

    def e_Dict(self, e, env, fr):
        return Sym("dict", len(e.keys), fr[0].name, e.lineno)

    def e_IfExp(self, e, env, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, env, fr)) else e.orelse, env, fr)

    def e_BoolOp(self, e, env, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env, fr)
            t = self.truth(v)
            if t != isand:
                return t if not isinstance(v, Sym) or True else v
        return isand

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, Lin):
            return v.scale(-1)
        if isinstance(e.op, ast.Invert) and isinstance(v, AArr):
            return self.invert(v)
        return Sym("un", type(e.op).__name__, key(v))

    def invert(self, v):
        return AArr(v.len, None if v.fill is None else (0 if v.fill else 1), v.nfill, None if v.nulls is None else not v.nulls)

    def e_BinOp(self, e, env, fr):
        return self.binop(e.op, self.ev(e.left, env, fr), self.ev(e.right, env, fr))

    def e_Compare(self, e, env, fr):
        a = self.ev(e.left, env, fr)
        out = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env, fr)
            r = self.compare(op, a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            a = b
        return out

    def compare(self, op, a, b):
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if isinstance(a, Lin) and isinstance(b, Lin):
                return self.equal(a, b) != neg
            if isinstance(a, AArr) and isinstance(b, Lin) and b.const() is not None:
                if a.fill is None:
                    return AArr(a.len)
                m = AArr(a.len, 1 if a.fill == b.c else 0, a.nfill, None)
                if a.nulls is not None:
                    m.nulls = False if a.fill == b.c else None
                return m if not neg else self.invert(m)
            if isinstance(a, ClassRef) and isinstance(b, ClassRef):
                return (a.cls is b.cls) != neg
            if isinstance(a, Builder) and isinstance(b, Builder):
                return (a is b) != neg
            none = [x for x in (a, b) if isinstance(x, Sym) and x.k == ("const", None)]
            if none:
                o = b if a is none[0] else a
                if isinstance(o, Sym):
                    if o.k[0] == "const":
                        return (o.k[1] is None) != neg
                    return (self.choose(("none",) + o.k, 2) == 0) != neg
                return neg
            ks = tuple(sorted([repr(key(a)), repr(key(b))]))
            if ks[0] == ks[1]:
                return not neg
            return (self.choose(("same",) + ks, 2) == 0) != neg
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = self.norm(a - b).const()
            if d is not None:
                return {"Lt": d < 0, "LtE": d <= 0, "Gt": d > 0, "GtE": d >= 0}.get(type(op).__name__, False)
            # lengths are not negative
            if isinstance(op, ast.Gt) and b.const() == 0 or isinstance(op, ast.Lt) and a.const() == 0:
                return not self.equal(a, b)
            if isinstance(op, ast.GtE) and b.const() == 1 or isinstance(op, ast.LtE) and a.const() == 1:
                return not self.equal(a if b.const() == 1 else b, Lin(0))
            return self.choose(("cmp", type(op).__name__, self.norm(a - b).key()), 2) == 0
        return (self.choose(("cmp", type(op).__name__, repr(key(a)), repr(key(b))), 2) == 0)

    def e_Subscript(self, e, env, fr):
        o = self.ev(e.value, env, fr)
        i = self.ev(e.slice, env, fr)
        if isinstance(o, Tup) and isinstance(i, Lin) and i.const() is not None and -len(o.xs) <= i.c < len(o.xs):
            return o.xs[i.c]
        if isinstance(o, AMap):
            return o.pending if o.pending is not None and key(i) == ("keyof", o.keys) else o.each
        if isinstance(o, AList):
            if isinstance(i, Lin) and o.last is not None and (i.const() == -1 or i.same(o.len - Lin(1))):
                return o.last
            if isinstance(i, Lin) and i.const() == -1 and o.added:
                return o.added[-1][1]
            if isinstance(i, Lin) and i.const() == -1:
                i = o.len - Lin(1)
            if o.fill is None:
                return self.member(o, i)
            return Sym("elem", o.name, key(i))
        if isinstance(o, Sym):
            return Sym("sub", o.k, key(i))
        if isinstance(o, AArr):
            return AArr(None)
        return Sym("sub", key(o), key(i))

    def e_Slice(self, e, env, fr):
        return Sym("slice", e.lineno)

    def e_Lambda(self, e, env, fr):
        return Sym("closure", e.lineno)

    def e_JoinedStr(self, e, env, fr):
        return Sym("str")

    def comp(self, e, env, fr, elt):
        if len(e.generators) != 1:
            return Sym("comp", e.lineno)
        g = e.generators[0]
        it = self.ev(g.iter, env, fr)
        if g.ifs:
            return Sym("comp", e.lineno)
        n, elem, _ = self.iterate(it)
        env = dict(env)
        self.store(g.target, elem("each"), env, fr)
        return Each(self.ev(elt, env, fr), n if n is not None else atom("len(%r)" % (key(it),))), it

    def e_ListComp(self, e, env, fr):
        r = self.comp(e, env, fr, e.elt)
        if isinstance(r, Sym):
            return r
        if isinstance(r[0].elt, (Sym, Lin)):
            return AList(r[0].n, ("comp", r[0].elt))
        r[0].over = r[1]
        return r[0]

    def e_SetComp(self, e, env, fr):
        return Sym("comp", e.lineno)

    def e_GeneratorExp(self, e, env, fr):
        return Gen(e, env, fr)

    def e_DictComp(self, e, env, fr):
        r = self.comp(e, env, fr, e.value)
        if isinstance(r, Sym):
            return r
        if isinstance(r[0].elt, Builder):
            return AMap(key(r[1]), r[0].elt)
        return Sym("dictcomp", e.lineno)

    def e_Starred(self, e, env, fr):
        return Sym("star", key(self.ev(e.value, env, fr)))

    def e_Call(self, e, env, fr):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            me = next(iter(env.values()))
            f = self.self_class(me, fr).find(e.func.attr, after=fr[0].cls)
            if f is None:
                return Sym("const", None)
            args = [self.ev(x, env, fr) for x in e.args]
            return self.call(f, self.self_class(me, fr), [me] + args, dict((k.arg, self.ev(k.value, env, fr)) for k in e.keywords if k.arg))
        fn = self.ev(e.func, env, fr)
        args = [self.ev(x, env, fr) for x in e.args]
        kw = dict((k.arg, self.ev(k.value, env, fr)) for k in e.keywords if k.arg)
        starred = [self.ev(k.value, env, fr) for k in e.keywords if k.arg is None]
        if isinstance(fn, ClassRef):
            return self.construct(fn.cls, args, kw)
        if isinstance(fn, FuncRef):
            if fn.f.name == "typeof":
                return Sym("typeof", key(args[0])) if args else Sym("typeof")
            return self.call(fn.f, None, args, kw)
        if isinstance(fn, Bound):
            return self.bound(fn, args, kw, starred, e, fr)
        if isinstance(fn, Sym):
            return self.symcall(fn, args, kw, starred, e, env, fr)
        return Sym("call", key(fn), e.lineno)

    def self_class(self, me, fr):
        return me.cls if isinstance(me, Builder) and me.cls is not None else fr[1]

    def construct(self, cls, args, kw):
        b = Builder(cls, None, "new %s" % cls.name)
        if cls not in self.an.builders:
            return Sym("new", cls.name)
        f = cls.find("__init__")
        b.fields["$new"] = Sym("const", True)
        if f is not None:
            self.call(f, cls, [b] + args, kw)
        b.classes = {cls}
        for n, v in b.fields.items():
            if self.an.roles.get((cls, n)) == "positions" and isinstance(v, AList) and v.fill == ("range", 0) and self.norm(v.len).const() != 0 \
                    and self.self_obj is not None and any(x is self.self_obj for x in b.fields.values()):
                self.issue("position", f.node, "%s nulls are placed before the elements that are already there" % v.len)
        return b

    def issue(self, rule, node, msg):
        self.issues.append((rule, node, msg))

    def bound(self, fn, args, kw, starred, e, fr):
        o, name = fn.obj, fn.name
        if isinstance(o, ClassRef):
            f = o.cls.find(name)
            if name == "make" and o.cls in self.an.builders:
                t = args[0] if args else kw.get("tpe")
                if t is not None and self.memo.get(("none",) + key(t), 1) != 1:
                    self.issue("length", e, "a builder is made for no type")
                b = Builder(None, Lin(0), "make(%r)" % (key(t),))
                return b
            if f is not None:
                if f.kind in ("classmethod", "staticmethod"):
                    return self.call(f, o.cls, ([ClassRef(o.cls)] if f.kind == "classmethod" else []) + args, kw)
                return self.call(f, o.cls, args, kw)
            return Sym("call", key(o), name, e.lineno)
        if isinstance(o, AList):
            if name == "append" and len(args) == 1:
                o.append(args[0])
                return Sym("const", None)
            if name == "extend":
                self.extend(o, args[0])
                return Sym("const", None)
            if name == "clear":
                o.len, o.fill, o.items, o.last, o.added, o.generic = Lin(0), None, [], None, [], {}
                return Sym("const", None)
            raise Undecided("list.%s" % name)
        if isinstance(o, AMap):
            s = Sym(name, o.keys)
            s.over = o
            if name in ("keys", "values", "items"):
                return s
            raise Undecided("dict.%s" % name)
        if isinstance(o, AArr):
            if name in ("copy", "astype", "view", "ravel"):
                return o
            return Sym("call", id(o), name)
        if isinstance(o, Builder):
            if name == "append":
                return self.do_append(o, args, kw, e)
            if name == "matches":
                if o.fields and o.cls is not None:
                    f = o.cls.find("matches")
                    if f is not None:
                        return self.call(f, o.cls, [o] + args, kw)
                t = args[0]
                return self.choose(("matches", o.id, key(t)), 2) == 0
            if name == "clear":
                if o is self.self_obj or o.fields and o.cls is not None and fr[0].name != "clear":
                    f = o.cls.find("clear")
                    return self.call(f, o.cls, [o] + args, kw)
                o.len = Lin(0)
                o.cleared = True
                return Sym("const", None)
            if name == "finalize":
                if not any(isinstance(s, Sym) and s.k == ("options",) for s in starred):
                    self.issue("options-dropped", e, "the options are not handed on to a nested builder's finalize")
                n = self.length(o)
                return Fin(o, n)
            if name == "__len__":
                return self.length(o)
            if o.cls is not None:
                f = o.cls.find(name)
                if f is not None:
                    return self.call(f, o.cls, ([] if f.kind == "staticmethod" else [o]) + args, kw)
            return Sym("call", key(o), name, e.lineno)
        return Sym("call", name, e.lineno)

    def do_append(self, o, args, kw, e):
        obj = args[0] if args else kw.get("obj")
        tpe = args[1] if len(args) > 1 else kw.get("tpe")
        if obj is None or tpe is None:
            raise Undecided("append")
        before = self.length(o)
        self.events.append((o, before, obj, tpe, e))
        kt, ko = key(tpe), key(obj)
        if kt[0] == "typeof" and kt[1] != ko:
            self.issue("other-type", e, "an object is appended with the type of another one")
        if ko == ("param", "obj") and kt != ("param", "tpe") and kt[0] != "typeof":
            self.issue("other-type", e, "the object is appended with a type that is not its own")
        matched = self.memo.get(("matches", o.id, kt)) == 0 or o.cls is not None and self.an.keeps(o.cls)
        if matched:
            if o.fields and o.cls is not None:
                r = Builder(None, before + Lin(1), o.name)
                r.classes = {o.cls}
                return r
            o.len = before + Lin(1)
            return o
        r = Builder(None, before + Lin(1), "append(%s)" % o.name)
        o.stale = True
        return r

    def symcall(self, fn, args, kw, starred, e, env, fr):
        k = fn.k
        name = k[-1] if k[0] in ("attr", "global") else None
        if k[0] == "global":
            if name == "len" and len(args) == 1:
                return self.length(args[0])
            if name == "list" and len(args) == 1:
                a = args[0]
                if isinstance(a, Sym) and a.k[0] == "range":
                    return AList(a.src, ("range", 0), last=a.src - Lin(1))
                if isinstance(a, AList):
                    c = AList(a.len, a.fill, a.items, a.name, a.last)
                    c.generic, c.added = dict(a.generic), list(a.added)
                    return c
                if isinstance(a, AMap):
                    return a
                return Sym("list", key(a))
            if name == "list" and not args:
                return AList(Lin(0))
            if name == "range" and len(args) == 1 and isinstance(args[0], Lin):
                s = Sym("range", args[0].key())
                s.src = args[0]
                return s
            if name == "enumerate" and len(args) == 1:
                s = Sym("enumerate", key(args[0]))
                s.src = args[0]
                return s
            if name == "sorted" and args:
                a = args[0]
                s = Sym("sorted", a.keys if isinstance(a, AMap) else key(a))
                s.over = a if isinstance(a, AMap) else getattr(a, "over", None)
                return s
            if name == "isinstance" and len(args) == 2:
                return self.isinst(args[0], args[1])
            if name == "type" and len(args) == 1:
                if isinstance(args[0], Builder) and args[0].cls is not None:
                    return ClassRef(args[0].cls)
                return Sym("type", key(args[0]))
            if name == "dict" and len(args) == 1 and isinstance(args[0], Gen) and isinstance(args[0].node.elt, ast.Tuple) and len(args[0].node.elt.elts) == 2:
                r = self.comp(args[0].node, args[0].env, args[0].fr, args[0].node.elt.elts[1])
                if not isinstance(r, Sym) and isinstance(r[0].elt, Builder):
                    return AMap(key(r[1]), r[0].elt)
            if name == "next" and args and isinstance(args[0], Gen):
                g = args[0]
                gen = g.node.generators[0]
                if len(g.node.generators) == 1:
                    c = self.choose(("next", e.lineno, self.depth), 2)
                    n, elem, _ = self.iterate(self.ev(gen.iter, g.env, g.fr))
                    en = dict(g.env)
                    self.store(gen.target, elem("others" if c == 0 else "picked"), en, g.fr)
                    hit = all(self.truth(self.ev(x, en, g.fr)) for x in gen.ifs)
                    if c == 0:
                        if hit or len(args) < 2:
                            raise Infeasible()
                        return args[1]
                    if not hit:
                        raise Infeasible()
                    return self.ev(g.node.elt, en, g.fr)
            if name in ("any", "all", "callable", "hasattr", "zip", "set", "sum", "str", "repr", "dict", "tuple", "getattr", "bool", "int", "iter"):
                return Sym("call", name, tuple(key(a) if not isinstance(a, Gen) else ("gen", a.node.lineno) for a in args))
        if k[0] == "attr":
            if name in ARRAYS or (isinstance(k[1], tuple) and k[1] and k[1][-1] in ARRAYS):
                return self.array(name if name in ARRAYS else k[1][-1], None if name in ARRAYS else name, args, kw, e)
            if name in ("array", "asarray", "fromiter") and args and isinstance(args[0], AList):
                return AArr(args[0].len)
            if name in ("ones", "zeros", "empty", "full") and args and isinstance(args[0], Lin):
                fill = {"ones": 1, "zeros": 0, "empty": None}.get(name)
                if name == "full":
                    fill = (args[1].c if isinstance(args[1], Lin) and args[1].const() is not None else int(args[1].k[1]) if isinstance(args[1], Sym) and args[1].k[0] == "const" and isinstance(args[1].k[1], bool) else None) if len(args) > 1 else None
                return AArr(args[0], fill, args[0] if fill is not None else None)
            if name in ("ones_like", "zeros_like", "empty_like") and args and isinstance(args[0], AArr):
                fill = {"ones_like": 1, "zeros_like": 0}.get(name)
                return AArr(args[0].len, fill, args[0].len if fill is not None else None)
            if name == "arange" and len(args) == 1 and isinstance(args[0], Lin):
                return AArr(args[0])
            if name == "logical_not" and len(args) == 1 and isinstance(args[0], AArr):
                return self.invert(args[0])
            if name in ("invert", "bitwise_not") and len(args) == 1 and isinstance(args[0], AArr):
                return self.invert(args[0])
            if name == "unique" and args and isinstance(args[0], AList):
                return Tup([AArr(atom("unique@%d" % e.lineno)), AArr(args[0].len)]) if "return_inverse" in kw else AArr(atom("unique@%d" % e.lineno))
            if name == "get":
                d = key(args[0])
                return Sym("option", d)
        if k == ("param", "tpe") and self.method == "make":
            return Builder(None, Lin(0), "tpe()")
        return Sym("call", k, tuple(key(a) if not isinstance(a, Gen) else ("gen", a.node.lineno) for a in args))

    def isinst(self, o, c):
        cs = [x.cls for x in (c.xs if isinstance(c, Tup) else [c]) if isinstance(x, ClassRef)]
        if isinstance(o, Builder):
            if o.cls is not None:
                return any(x in o.cls.mro() for x in cs)
            if o.classes is None:
                o.classes = set(self.an.leaves)
            yes = set(x for x in o.classes if any(y in x.mro() for y in cs))
            if not yes:
                return False
            if yes == o.classes:
                return True
            r = self.choose(("isinstance", o.id, tuple(sorted(x.name for x in yes)), tuple(sorted(x.name for x in o.classes))), 2) == 0
            o.classes = yes if r else o.classes - yes
            return r
        if isinstance(o, Sym):
            return self.choose(("isinstance", o.k, tuple(x.name for x in cs) if cs else repr(key(c))), 2) == 0
        if isinstance(o, (Fin, AArr)):
            return self.choose(("isinstance", id(o), repr(key(c))), 2) == 0
        return self.choose(("isinstance", repr(key(o)), repr(key(c))), 2) == 0

    def need(self, a, b, rule, node, what):
        la, lb = self.length(a), self.length(b)
        d = self.norm(la - lb)
        if d.const() != 0:
            self.issue(rule, node, "%s: %s against %s" % (what, self.norm(la), self.norm(lb)))

    def array(self, cls, how, args, kw, e):
        if how is None:
            if cls == "MaskedArray" and len(args) >= 2:
                mask, content = args[:2]
                self.need(mask, content, "relation", e, "a mask is as long as what it masks")
                mw = kw.get("maskedwhen", args[2] if len(args) > 2 else Sym("const", True))
                if isinstance(mask, AArr) and isinstance(mw, Sym):
                    t = bool(mw.k[1]) if mw.k[0] == "const" else (self.memo.get(("truth",) + mw.k) == 0 if ("truth",) + mw.k in self.memo else None)
                    if t is None and mask.nulls is not None and not any(repr(mw.k)[1:-1] in repr(k) for k in self.memo):
                        self.issue("polarity", e, "nulls are always %s in the mask, whatever maskedwhen is" % mask.nulls)
                    elif t is None:
                        self.an.rep.count("polarities not followed")
                    elif mask.nulls is not None:
                        self.an.rep.count("polarities")
                        if mask.nulls != t:
                            self.issue("polarity", e, "nulls are %s in the mask although maskedwhen is %s" % (mask.nulls, t))
                    elif mask.fill is not None and mask.nfill is not None and mask.nfill.same(mask.len):
                        self.an.rep.count("polarities")
                        if bool(mask.fill) != t or any(isinstance(v, Builder) for v in (self.self_obj.fields if self.self_obj else {}).values()):
                            self.issue("polarity", e, "all elements are %s in the mask although maskedwhen is %s" % (bool(mask.fill), t))
                return AArr(self.length(mask))
            if cls in ("IndexedArray", "IndexedMaskedArray") and len(args) >= 2:
                return AArr(self.length(args[0]))
            if cls == "ObjectArray" and args:
                return AArr(self.length(args[0]))
            if cls == "UnionArray" and len(args) >= 3:
                self.need(args[0], args[1], "relation", e, "a union has as many tags as indexes")
                if isinstance(args[0], AList) and isinstance(args[1], AList) and isinstance(args[2], Each) and isinstance(getattr(args[2], "over", None), AList):
                    self.an.unions[self.self_obj.cls] = (args[0].name, args[1].name, args[2].over.name)
                return AArr(self.length(args[0]))
            if cls == "JaggedArray" and len(args) >= 3:
                return AArr(self.length(args[0]))
        if how == "fromoffsets" and len(args) >= 2:
            o = args[0]
            if isinstance(o, AList):
                if o.last is None:
                    self.an.rep.count("relations not followed")
                else:
                    d = self.norm(o.last - self.length(args[1]))
                    if d.const() != 0:
                        self.issue("relation", e, "the last offset is the length of the content: %s against %s" % (o.last, self.length(args[1])))
            return AArr(self.length(o) - Lin(1))
        if how == "fromcounts" and args:
            return AArr(self.length(args[0]))
        if how == "frompairs" and args and isinstance(args[0], Each) and isinstance(args[0].elt, Tup):
            v = args[0].elt.xs[1]
            return Cols(self.length(v))
        if how == "fromiter" and args and isinstance(args[0], (AList, AArr)):
            return AArr(args[0].len)
        return Sym("array", cls, how, e.lineno)


class Cols(AArr):
    pass


class Analysis(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        m = prog.modules.get("awkward0.generate")
        if m is None:
            raise AnalysisBroken("no awkward0.generate")
        self.module = m
        self.classes = dict((c.name, c) for c in prog.classes.values() if c.module is m)
        self.functions = dict((f.name, f) for f in prog.functions if f.module is m and f.cls is None)
        self.builders = [c for c in self.classes.values() if c.find("append") is not None and c.find("finalize") is not None or any(x.find("append") for x in self.classes.values() if c in x.mro())]
        self.concrete = [c for c in self.builders if c.find("append") is not None and c.find("finalize") is not None and c.find("__len__") is not None]
        if len(self.concrete) < 8:
            raise AnalysisBroken("only %d builder classes found" % len(self.concrete))
        self.roles, self.unions = {}, {}
        self._keeps = {}
        # what can be inside a masked builder when it is finalized
        self.leaves = set(c for c in self.concrete)
        self.state_eq = {}

    def keeps(self, cls):
        """append never returns another builder than the receiver (syntactically: every return is self)"""
        if cls not in self._keeps:
            f = cls.find("append")
            rs = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
            me = f.params[0]
            self._keeps[cls] = bool(rs) and all(isinstance(r.value, ast.Name) and r.value.id == me for r in rs)
        return self._keeps[cls]

    def paths(self, setup, limit=400):
        script, n = [], 0
        while True:
            n += 1
            if n > limit:
                self.rep.count("paths not followed")
                return
            run = Run(self, script)
            Builder.n = 0
            try:
                out = setup(run)
                yield run, out
            except Infeasible:
                pass
            except Raised:
                yield run, None
            except Undecided as u:
                self.rep.count("paths not followed")
                self.rep.notes.append("not followed: %s" % u)
            t = run.taken
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            script = [c for c, _ in t[:-1]] + [t[-1][0] + 1]

    def initial(self, run, cls):
        """the object as __init__ leaves it"""
        b = Builder(cls, None, cls.name)
        b.fields["$new"] = Sym("const", True)
        f = cls.find("__init__")
        args = []
        for p in f.params[1:]:
            if p == "content":
                args.append(Builder(None, atom("len(content)"), "content"))
            elif p == "count":
                args.append(atom("count"))
            else:
                args.append(Sym("param", p))
        run.self_obj = b
        run.call(f, cls, [b] + args, {})
        b.classes = {cls}
        return b

    def grouped(self, shape, pairs):
        """measure -> (representative, offset) from the equations kept"""
        groups = {}
        for a, k in enumerate(shape):
            groups[k] = (k, 0)
            for j in shape[:a]:
                if (k, j) in pairs:
                    rep, off = groups[j]
                    groups[k] = (rep, off + pairs[k, j])
                    break
        return groups

    def measure(self, run, b):
        out = {}
        for f, v in b.fields.items():
            if isinstance(v, AList):
                out["len", f] = v.len
                last = v.last
                if last is None and v.added and isinstance(v.added[-1][1], Lin):
                    last = v.added[-1][1]
                if last is not None:
                    out["last", f] = last
            elif isinstance(v, Lin):
                out["int", f] = v
            elif isinstance(v, Builder):
                out["len", f] = run.length(v)
            elif isinstance(v, AMap):
                out["each", f] = run.length(v.each)
        return out

    def generic(self, run, cls, groups, shape):
        """any object of the class, with the relations kept so far"""
        b = self.initial(run, cls)
        if run.taken:
            raise Undecided("branches in __init__ of %s" % cls.name)
        run.issues, run.events = [], []
        g = Builder(cls, None, "self")
        g.classes = {cls}
        m = {}
        for k in shape:
            rep, off = groups[k]
            m[k] = atom("%s(%s)" % rep) + Lin(off)
        for f, v in b.fields.items():
            if isinstance(v, AList):
                isb = any(isinstance(x, Builder) for x in v.items)
                nv = AList(m["len", f], None if isb else ("any",), name=f, last=m.get(("last", f)))
                g.fields[f] = nv
            elif isinstance(v, Lin):
                g.fields[f] = m["int", f]
            elif isinstance(v, Builder):
                x = Builder(None, m["len", f], f)
                if v.classes is not None and v.cls is not None and f not in cls.find("__init__").params:
                    pass
                g.fields[f] = x
            elif isinstance(v, AMap):
                g.fields[f] = AMap(v.keys, Builder(None, m["each", f], f + "[each]"))
            else:
                g.fields[f] = v
        run.self_obj = g
        return g

    def stale(self, b, seen=None, top=True):
        seen = seen if seen is not None else set()
        if not isinstance(b, Builder) or b.id in seen:
            return None
        seen.add(b.id)
        if b.stale and not top:
            return b
        for v in b.fields.values():
            for x in ([v] if isinstance(v, Builder) else [v.each] if isinstance(v, AMap) else [y for y in list(v.generic.values()) + [z for _, z in v.added] + v.items if isinstance(y, Builder)] if isinstance(v, AList) else []):
                r = self.stale(x, seen, False)
                if r is not None:
                    return r
        return None

    def run(self):
        rep, self.rep = self.rep, Report("C14", RULE)
        for cls in self.concrete:            # what the fields are used for
            self.one(cls)
        self.rep = rep
        for cls in self.concrete:
            self.one(cls)
        self.make()
        self.fromiter()

    def where(self, cls, fn, node=None):
        f = cls.find(fn)
        return "%s:%d (%s.%s)" % (f.module.relpath, getattr(node, "lineno", f.node.lineno), cls.name, fn)

    def one(self, cls):
        rep = self.rep
        rep.count("builder classes")
        # 1. the object after __init__, and the candidate relations between its fields
        shape, groups = None, None
        for run, _ in self.paths(lambda r: self.initial(r, cls)):
            m = self.measure(run, run.self_obj)
            shape = sorted(m)
            pairs = dict(((k, j), (m[k] - m[j]).const()) for a, k in enumerate(shape) for j in shape[:a] if (m[k] - m[j]).const() is not None)
            groups = self.grouped(shape, pairs)
        if shape is None:
            rep.count("classes not followed")
            return
        # 2. keep the relations that append and clear preserve
        broken = {}
        fap, fcl = cls.find("append"), cls.find("clear")

        def appending(run):
            g = self.generic(run, cls, groups, shape)
            run.len0 = run.length(g)
            run.m0 = self.measure(run, g)
            run.method = "append"
            return run.call(fap, cls, [g, Sym("param", "obj"), Sym("param", "tpe")], {})

        def clearing(run):
            g = self.generic(run, cls, groups, shape)
            run.method = "clear"
            run.call(fcl, cls, [g], {})
            return g
        for _ in range(40):
            again = False
            for what, setup in (("append", appending), ("clear", clearing)):
                if what == "clear" and fcl is None:
                    continue
                for run, out in self.paths(setup):
                    if out is None or out is not run.self_obj:
                        continue
                    m = self.measure(run, run.self_obj)
                    for (k, j), off in list(pairs.items()):
                        if k in m and j in m and run.norm(m[k] - m[j] - Lin(off)).const() != 0 or what == "append" and (k not in m or j not in m):
                            broken[k, j] = self.where(cls, what)
                            del pairs[k, j]
                            again = True
                    if again:
                        break
                if again:
                    break
            if not again:
                break
            groups = self.grouped(shape, pairs)
        # 3. finalize
        self.finalize(cls, groups, shape, broken)
        # 4. length accounting
        npaths = 0
        for run, out in self.paths(appending):
            if out is None:
                continue
            npaths += 1
            rep.count("append paths")
            w = self.where(cls, "append")
            key0 = "%s.append" % cls.name
            self.report(run, cls, "append")
            if not isinstance(out, Builder):
                if isinstance(out, Sym) and out.k == ("const", None):
                    rep.bad("length", key0 + "|none", w, "append returns no builder")
                else:
                    rep.count("results not followed")
                continue
            n = run.length(out)
            d = run.norm(n - run.len0 - Lin(1))
            rep.check(d.const() == 0, "length", key0, w, "append returns a builder of length %s, not one more than %s" % (run.norm(n), run.norm(run.len0)))
            s = self.stale(out)
            rep.check(s is None, "builder-dropped", key0, w, "append keeps the builder %s although appending to it may have returned another one: the object is lost" % (s.name if s else ""))
            # positions
            for (c, f), role in self.roles.items():
                v = run.self_obj.fields.get(f)
                if c is cls and isinstance(v, AList):
                    for p, x in v.added:
                        rep.count("positions recorded")
                        ok = isinstance(x, Lin) and run.norm(x - run.len0).const() == 0
                        rep.check(ok, "position", "%s|%s" % (key0, f), w, "the position %s is recorded in %s, not that of the object being appended (%s)" % (x, f, run.len0))
            if cls in self.unions and out is run.self_obj:
                self.union(run, cls, key0, w)
        rep.check(npaths > 0 or cls.find("append") is None, "length", "%s.append|never" % cls.name, self.where(cls, "append"), "append never returns")
        # 5. clear
        if fcl is not None:
            for run, out in self.paths(clearing):
                rep.count("clear paths")
                self.report(run, cls, "clear")
                n = run.length(out)
                rep.check(run.norm(n).const() == 0, "clear", "%s.clear" % cls.name, self.where(cls, "clear"), "a cleared builder has length %s" % n)
        # 6. initial positions
        for run, b in self.paths(lambda r: self.initial(r, cls)):
            if cls in self.unions:
                t, i, c = (b.fields.get(x) for x in self.unions[cls])
                ok = None
                if all(isinstance(x, AList) for x in (t, i, c)) and t.fill is not None and i.fill is not None:
                    ok = t.fill[0] == "const" and isinstance(t.fill[1], Lin) and t.fill[1].const() is not None and 0 <= t.fill[1].c < len(c.items) and i.fill == ("range", 0) \
                        and run.norm(i.len - run.length(c.items[t.fill[1].c])).const() == 0 and run.norm(t.len - i.len).const() == 0
                elif all(isinstance(x, AList) and x.len.const() == 0 for x in (t, i)):
                    ok = True
                if ok is None:
                    rep.count("relations not followed")
                else:
                    rep.check(ok, "position", "%s.__init__" % cls.name, self.where(cls, "__init__"), "the elements of the first alternative are not numbered 0, 1, 2, ... with its tag")
            for (c, f), role in self.roles.items():
                v = b.fields.get(f)
                if c is cls and isinstance(v, AList) and v.fill is not None:
                    rep.check(v.fill == ("range", 0), "position", "%s.__init__|%s" % (cls.name, f), self.where(cls, "__init__"), "the nulls that were there before are not at positions 0, 1, 2, ...")

    def union(self, run, cls, key0, w):
        rep = self.rep
        t, i, c = (run.self_obj.fields.get(x) for x in self.unions[cls])
        if not all(isinstance(x, AList) for x in (t, i, c)):
            return
        rep.count("positions recorded")
        if len(t.added) != 1 or len(i.added) != 1:
            rep.bad("position", key0 + "|union", w, "%d tags and %d indexes are recorded for one object" % (len(t.added), len(i.added)))
            return
        tag, idx = t.added[0][1], i.added[0][1]
        if not isinstance(tag, Lin) or not isinstance(idx, Lin):
            rep.count("relations not followed")
            return
        evs = [e for e in run.events if key(e[2]) == ("param", "obj")]
        if len(evs) != 1:
            rep.bad("position", key0 + "|union", w, "the object is appended %d times" % len(evs))
            return
        b, before, obj, tpe, node = evs[0]
        m = run.member(c, tag)
        # the member at the tag is the builder the object went to, or what its append returned
        good = m is b or isinstance(m, Builder) and m.name == "append(%s)" % b.name
        rep.check(good, "position", key0 + "|tag", w, "the tag %s that is recorded is not that of the alternative the object goes to (%s)" % (tag, b.name))
        rep.check(run.norm(idx - before).const() == 0, "position", key0 + "|index", w, "the index %s is recorded, but the object is number %s of its alternative" % (idx, before))

    def report(self, run, cls, fn):
        for rule, node, msg in run.issues:
            self.rep.bad(rule, "%s.%s" % (cls.name, fn), self.where(cls, fn, node), msg)

    def finalize(self, cls, groups, shape, broken):
        rep = self.rep
        f = cls.find("finalize")
        masked = []

        def setup(run):
            g = self.generic(run, cls, groups, shape)
            for v in g.fields.values():
                if isinstance(v, Builder) and v.classes is None:
                    v.classes = set(c for c in self.leaves if c.name not in ("UnknownFillable", "MaskedFillable")) if self.never_null(cls) else set(self.leaves)
            run.method = "finalize"
            a = f.node.args
            return run.call(f, cls, [g], {})
        n = 0
        for run, out in self.paths(setup):
            if out is None:
                b = next((v for v in run.self_obj.fields.values() if isinstance(v, Builder)), None)
                rep.bad("not-handled", "%s.finalize" % cls.name, self.where(cls, "finalize"), "finalize raises for content made by %s" % (", ".join(sorted(c.name for c in b.classes)) if b is not None and b.classes else "some builder"))
                continue
            n += 1
            rep.count("finalize paths")
            self.report(run, cls, "finalize")
            try:
                ln = run.length(out) if not isinstance(out, Sym) else None
            except Undecided:
                ln = None
            if ln is None:
                rep.count("results not followed")
                continue
            d = run.norm(ln - run.length(run.self_obj))
            hint = "; ".join(sorted(set(broken.values())))
            rep.check(d.const() == 0, "relation", "%s.finalize|length" % cls.name, self.where(cls, "finalize"),
                      "the array has length %s, the builder %s%s" % (run.norm(ln), run.length(run.self_obj), (" (the relation is not kept by %s)" % hint) if hint and d.const() is None else ""))

    def never_null(self, cls):
        """append takes nulls itself, so that what is inside never sees one"""
        return self.keeps(cls)

    def make(self):
        rep = self.rep
        for c in self.builders:
            f = c.methods.get("make")
            if f is None:
                continue

            def setup(run):
                run.method = "make"
                return run.call(f, c, [Sym("param", "tpe"), Sym("param", "awkwardlib")], {})
            for run, out in self.paths(setup):
                if out is None:
                    continue
                rep.count("make paths")
                if isinstance(out, Builder):
                    n = run.length(out)
                    rep.check(run.norm(n).const() == 0, "length", "%s.make" % c.name, self.where(c, "make"), "a new builder starts with length %s" % n)
                else:
                    rep.count("results not followed")

    def fromiter(self):
        rep = self.rep
        f = self.functions.get("fromiter")
        if f is None:
            raise AnalysisBroken("no fromiter")

        def setup(run):
            run.method = "fromiter"
            return run.call(f, None, [Sym("param", "iterable")], {})
        n = 0
        for run, out in self.paths(setup):
            if out is None:
                continue
            n += 1
            w = "%s (fromiter)" % f.where
            for rule, node, msg in run.issues:
                rep.bad(rule, "fromiter", w, msg)
            ok = isinstance(out, Fin) and run.norm(out.len - atom("n(%r)" % (("param", "iterable"),))).const() == 0
            rep.check(ok, "length", "fromiter", w, "fromiter finalizes a builder of length %s, not of as many objects as it was given" % (out.len if isinstance(out, Fin) else out))
            if isinstance(out, Fin):
                rep.check(not out.b.stale, "builder-dropped", "fromiter", w, "fromiter finalizes a builder although append may have returned another one")


def run(prog):
    rep = Report("C14", RULE)
    a = Analysis(prog, rep)
    a.run()
    for n, m in (("builder classes", 8), ("append paths", 14), ("finalize paths", 12), ("positions recorded", 3), ("polarities", 4)):
        rep.floor(n, m)
    return rep
