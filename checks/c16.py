"""C16: a virtual array calls its generator only when it has to, keeps what it made, and gives it back.

Typestate analysis of VirtualArray.  The state of an object is (cache: none / some; what is held: nothing / a transient key / a string key /
an array; the cache's entry under that key: there or evicted; persistent key; declared type; recorded column assignments and deletions).
The transfer function of every method in every state is derived from the source by abstract interpretation of the method
(helpers included), and the states it leads to are compared with the ones the property allows.
"""
import ast
from sa.model import AnalysisBroken
from sa.interp import Hooks, Tok, Inst, ClsRef, Fn, Ext, Meth, PyDict, PyList, Star, Raise, Undecided, deps, paths
from sa.report import Report

RULE = ("typestate: transfer functions of VirtualArray's methods, derived by abstract interpretation, over the states (cache, held key or array, evicted or not, "
        "persistent key, declared type, recorded edits); obligations per (method, state): when the generator is called and with what, what is returned, what is stored where")
ASSUMPTIONS = ("a cache is a mapping: what is stored under a key is found under an equal key until it is evicted, and a missing key raises KeyError",
               "two virtual arrays given the same persistent key and cache generate the same array",
               "one thread")

EQKINDS = ("pkey", "str")


class Arr(object):
    """a materialized array: what it was made from and the columns assigned and deleted since"""
    def __init__(self, gen, args, kwargs, edits=(), name=None):
        self.gen, self.args, self.kwargs, self.edits, self.name = gen, args, kwargs, dict(edits), name

    def __repr__(self):
        return "<array %s %s>" % (self.name, sorted(self.edits.items()))


class TKey(object):
    def __init__(self, owner):
        self.owner = owner
        self.name = "tkey(%s)" % (owner,)

    def __repr__(self):
        return "<%s>" % self.name


class Cache(object):
    def __init__(self, name):
        self.name, self.entries = name, []

    def find(self, it, k):
        for i, (a, _) in enumerate(self.entries):
            if samekey(a, k):
                return i
        return None


def samekey(a, b):
    if isinstance(a, TKey) and isinstance(b, TKey):
        return a.owner == b.owner
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a.name == b.name
    return isinstance(a, str) and a == b


def iskey(v):
    return isinstance(v, (TKey, str)) or isinstance(v, Tok) and v.kind == "pkey"


class H(Hooks):
    def __init__(self, a, world):
        self.a, self.w = a, world
        self.events = []
        self.isa = {}
        self.genfails = False
        self.typeconds = []
        self.leaked = []

    # -------------------------------------------------- values
    def truth(self, it, v):
        if isinstance(v, (TKey, Cache, Arr)):
            if isinstance(v, Cache):
                return bool(it.fork(("truth", v.name)))
            return True if isinstance(v, TKey) else bool(it.fork(("truth", v.name)))
        if isinstance(v, Tok) and v.kind in ("callable", "type", "nbytes", "pkey"):
            if v.kind == "nbytes" or v.kind == "pkey":
                return bool(it.fork(("truth", v.name)))
            return True
        if isinstance(v, Tok):
            self.cond(v)
        return None

    def cond(self, v):
        d = deps(v)
        if "type" in d or "newtype" in d:
            self.typeconds.append(d)

    def same(self, it, a, b):
        if iskey(a) and iskey(b):
            return samekey(a, b)
        if isinstance(a, (Arr, Cache, TKey)) or isinstance(b, (Arr, Cache, TKey)):
            return a is b
        if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == "where":
            return a.name == b.name
        if isinstance(a, Tok) or isinstance(b, Tok):
            d = deps((a, b))
            if "type" in d:
                self.typeconds.append(d)
        return None

    def isinstance(self, it, v, c):
        cs = c if isinstance(c, tuple) else (c,)
        names = []
        for x in cs:
            names.append(x.cls.qualname if isinstance(x, ClsRef) else (x.name if isinstance(x, (Ext, Tok)) else "?"))
        names = [n.rsplit(".", 1)[-1] for n in names]
        if isinstance(v, Arr):
            if any(n == "object" for n in names):
                return True
            nd, aw = "ndarray" in names, any(n in ("AwkwardArray", "AwkwardArrayWithContent") for n in names)
            if nd and aw:
                return True
            if nd or aw:
                r = not it.fork(("ndarray", v.name))
                return r if nd else not r
            if all(n in ("TransientKey", "string", "str", "tuple", "dict", "basestring", "int") for n in names):
                return False
            return bool(it.fork(("isinstance", v.name, tuple(names))))
        if isinstance(v, TKey):
            return any(n in ("TransientKey", "VirtualArray.TransientKey", "object") for n in names)
        if isinstance(v, Cache):
            return None if not all(n in ("TransientKey", "string", "ndarray", "AwkwardArray") for n in names) else False
        if isinstance(v, Tok) and v.kind in ("pkey", "where"):
            return any(n in ("string", "str", "basestring", "object") for n in names)
        if isinstance(v, Tok) and v.kind in ("callable", "nbytes", "type"):
            if v.kind == "type" and any(n in ("ArrayType", "Type") for n in names):
                return True if "ArrayType" in names else None
            return False if all(n in ("TransientKey", "string", "ndarray", "AwkwardArray", "tuple", "dict") for n in names) else None
        return None

    def iterate(self, it, v):
        if isinstance(v, Arr):
            return None
        return None

    # -------------------------------------------------- attributes
    def getattr(self, it, o, name, node):
        if isinstance(o, Arr):
            return Meth(o, name) if name.startswith("_") or True else None
        if isinstance(o, (Cache, TKey)):
            return Meth(o, name)
        if isinstance(o, Inst):
            if name == "numpy":
                return Ext("numpy")
            if name in ("check_prop_valid", "check_whole_valid"):
                return bool(it.fork((name,)))
            if name == "VirtualArray":
                return ClsRef(self.a.cls)
            if name.startswith("_util_") and name not in self.a.cls.methods and name not in self.a.interpreted:
                return Meth(o, name)
        return NotImplemented

    def setattr(self, it, o, name, v, node):
        if isinstance(o, Inst) and name == "__class__":
            return True
        return False

    # -------------------------------------------------- the cache and the arrays
    def getitem(self, it, o, k, node):
        if isinstance(o, Cache):
            if not iskey(k):
                raise Raise("TypeError" if isinstance(k, Arr) else "KeyError")
            i = o.find(it, k)
            if i is None:
                raise Raise("KeyError")
            return o.entries[i][1]
        if isinstance(o, Arr):
            return Tok("any", None, deps(k) | frozenset([o.name]))
        return NotImplemented

    def setitem(self, it, o, k, v, node):
        if isinstance(o, Cache):
            if not iskey(k):
                raise Raise("TypeError")
            self.events.append(("store", o, k, v))
            i = o.find(it, k)
            if i is None:
                o.entries.append((k, v))
            else:
                o.entries[i] = (k, v)
            return True
        if isinstance(o, Arr):
            n = it.ident(k)
            o.edits[n] = v
            self.events.append(("edit", o, n))
            return True
        return False

    def delitem(self, it, o, k, node):
        if isinstance(o, Cache):
            i = o.find(it, k) if iskey(k) else None
            if i is None:
                raise Raise("KeyError")
            del o.entries[i]
            return True
        if isinstance(o, Arr):
            n = it.ident(k)
            if o.edits.get(n) == "deleted" or n not in o.edits and n in self.w.absent:
                raise Raise("KeyError")
            if n in self.w.absent:
                del o.edits[n]
            else:
                o.edits[n] = "deleted"
            self.events.append(("edit", o, n))
            return True
        return False

    def contains(self, it, o, k, node):
        if isinstance(o, Cache):
            if isinstance(k, Arr):
                raise Raise("TypeError")
            return iskey(k) and o.find(it, k) is not None
        if isinstance(o, Arr) or isinstance(o, Tok) and any(isinstance(x, Arr) and x.name in o.deps for x in self.w.arrays):
            n = it.ident(k)
            for x in self.w.arrays:
                if x is o or isinstance(o, Tok) and x.name in o.deps:
                    if x.edits.get(n) == "deleted":
                        return False
                    return n in x.edits or n not in self.w.absent
        return None

    # -------------------------------------------------- calls
    def call(self, it, f, args, kwargs, node):
        if isinstance(f, Tok) and f.kind == "callable":
            a = args[0].v if len(args) == 1 and isinstance(args[0], Star) else tuple(args)
            k = kwargs.get("**") if set(kwargs) <= set(["**"]) else PyDict(kwargs.items())
            self.events.append(("generate", f, a, k, node, it.stack[-1] if it.stack else None))
            if self.genfails:
                raise Raise("GeneratorError")
            out = Arr(f, a, k, name="made%d" % len([e for e in self.events if e[0] == "generate"]))
            self.w.arrays.append(out)
            return out
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, TKey):
                if isinstance(f, (Ext, Tok)) or isinstance(f, Meth) and not isinstance(f.obj, Cache):
                    nm = f.name.rsplit(".", 1)[-1]
                    if nm not in ("isinstance", "repr", "str", "hash", "id", "type", "format", "callable", "print"):
                        self.leaked.append((v, f, node))
        if isinstance(f, Fn) and f.f.cls is None:
            if f.f.module.name.startswith("awkward0.type") or f.f.module.name.startswith("awkward0.persist"):
                out = Tok("type" if f.f.name in ("fromarray", "_fromarray") else "any", None, deps((f.f.name, list(args), list(kwargs.values()))) | adeps(args))
                if out.kind == "type" and args and isinstance(args[0], Arr):
                    out.edits = dict(args[0].edits)
                return out
        if isinstance(f, Fn) and f.f.cls is not None and f.f.cls.name not in self.a.interpretedclasses:
            return Tok("any", None, deps((list(args), list(kwargs.values()))) | adeps(args))
        if isinstance(f, ClsRef):
            if f.cls.qualname.endswith("TransientKey"):
                o = args[0] if args else None
                if isinstance(o, tuple) and len(o) == 2 and o[0] == "id":
                    return TKey(o[1])
                return TKey(it.ident(o))
            if f.cls is self.a.cls:
                self.w.n += 1
                o = Inst(f.cls, {}, "new%d" % self.w.n)
                self.w.objects.append(o)
                init = f.cls.find("__init__")
                it.call_fn(init, o, args, kwargs)
                return o
            return Tok("any", None, deps((list(args), list(kwargs.values()))) | adeps(args))
        if isinstance(f, Meth):
            o = f.obj
            if isinstance(o, ClsRef) and f.name == "__new__":
                self.w.n += 1
                x = Inst(o.cls, {}, "new%d" % self.w.n)
                self.w.objects.append(x)
                return x
            if isinstance(o, Arr):
                return Tok("any", None, deps(list(args)) | frozenset([o.name]))
            if isinstance(o, Cache):
                return self.cachemethod(it, o, f.name, args, kwargs)
            if isinstance(o, TKey):
                raise Undecided("method of a key")
            if isinstance(o, Inst):
                if f.name == "_util_toarray":
                    return args[0]
                if f.name == "_util_deepcopy":
                    v = args[0]
                    if isinstance(v, Arr):
                        out = Arr(v.gen, v.args, v.kwargs, v.edits, name=v.name + "'")
                        self.w.arrays.append(out)
                        return out
                    return Tok(v.kind, v.name, v.deps) if isinstance(v, Tok) else v
                return Tok("any", None, deps((list(args), list(kwargs.values()))) | adeps(args))
            if isinstance(o, Tok):
                return Tok("any", None, deps((o, list(args), list(kwargs.values()))) | adeps(args))
        if isinstance(f, Ext):
            n = f.name
            if n == "isinstance" or n in ("getattr", "hasattr") and isinstance(args[0], (Cache, Arr)):
                if n == "getattr":
                    return Meth(args[0], args[1])
                if n == "hasattr":
                    return bool(it.fork(("hasattr", args[0].name, args[1])))
            if n == "len" and isinstance(args[0], (Arr, Cache)):
                return Tok("int", None, frozenset([args[0].name]))
            if n == "len" and isinstance(args[0], Inst):
                g = args[0].cls.find("__len__")
                return it.call_fn(g, args[0], [], {})
            if n == "iter" and args and isinstance(args[0], Inst):
                return it.call_fn(args[0].cls.find("__iter__"), args[0], [], {})
            if n.startswith("awkward0.") and any(isinstance(v, Inst) for v in args):
                return Tok("any", None, adeps(args))
        return NotImplemented

    def cachemethod(self, it, o, name, args, kwargs):
        if name == "__getitem__":
            return self.getitem(it, o, args[0], None)
        if name == "__setitem__":
            self.setitem(it, o, args[0], args[1], None)
            return None
        if name == "__delitem__":
            self.delitem(it, o, args[0], None)
            return None
        if name == "__contains__":
            return self.contains(it, o, args[0], None)
        if name in ("get", "pop", "setdefault") and args:
            i = o.find(it, args[0]) if iskey(args[0]) else None
            if i is None:
                if name == "setdefault":
                    o.entries.append((args[0], args[1]))
                if name == "pop" and len(args) < 2:
                    raise Raise("KeyError")
                return args[1] if len(args) > 1 else None
            v = o.entries[i][1]
            if name == "pop":
                del o.entries[i]
            return v
        raise Undecided("cache.%s" % name)


def adeps(args):
    out = set()
    for a in args:
        if isinstance(a, Arr):
            out.add(a.name)
    return frozenset(out)


class World(object):
    """one initial state"""
    def __init__(self, desc):
        self.desc = desc
        self.n = 0
        self.arrays, self.objects, self.caches = [], [], []
        self.absent = set()


class Analysis(object):
    interpreted = ("_util_isstringslice",)
    interpretedclasses = ("VirtualArray", "AwkwardArray", "TransientKey")

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.cls = prog.cls("VirtualArray")
        for n in ("array", "materialize", "ismaterialized", "copy", "__setitem__", "__delitem__", "__del__"):
            if self.cls.find(n) is None:
                raise AnalysisBroken("VirtualArray has no %s" % n)
        self.states = list(self.allstates())

    def allstates(self):
        for cache in ("no cache", "cache"):
            for held in ("nothing held", "transient key held", "persistent key held", "array held"):
                for slot in (("evicted", "present") if cache == "cache" and "key" in held else ("",)):
                    for pk in ("no persistent key", "persistent key"):
                        yield (cache, held, slot, pk)

    def world(self, st, typed=False, sized=False, edits=0, absent=()):
        cache, held, slot, pk = st
        w = World(st)
        g, a, k = Tok("callable", "generator"), Tok("tuple", "args"), Tok("dict", "kwargs")
        a = (Tok("any", "arg0"),)
        k = PyDict([("kw0", Tok("any", "kwarg0"))])
        c = None
        if cache == "cache":
            c = Cache("cache")
            w.caches.append(c)
        me = Inst(self.cls, {}, "self")
        w.objects.append(me)
        p = Tok("pkey", "persistentkey") if pk == "persistent key" else None
        w.ghost = {}
        si = di = None
        if edits:
            si = PyDict([(Tok("where", "assigned"), Tok("any", "column"))])
            di = PyList([Tok("where", "deleted")])
            w.ghost = {"assigned": si.pairs[0][1], "deleted": "deleted"}
        w.absent = set(absent)
        arr = Arr(g, a, k, dict((n, v) for n, v in w.ghost.items() if not (v == "deleted" and n in w.absent)), name="held")
        w.held = None
        if held == "nothing held":
            h = None
        elif held == "array held":
            h = arr
            w.held = arr
            w.arrays.append(arr)
        else:
            h = TKey("self") if held.startswith("transient") else Tok("pkey", "persistentkey" if p is not None else "oldkey")
            if slot == "present":
                c.entries.append((h, arr))
                w.held = arr
                w.arrays.append(arr)
        me.attrs = {"_generator": g, "_args": a, "_kwargs": k, "_cache": c, "_persistentkey": p, "_type": Tok("type", "type") if typed else None,
                    "_nbytes": Tok("nbytes", "nbytes") if sized else None, "_persistvirtual": True, "_array": h, "_setitem": si, "_delitem": di}
        w.me = me
        return w

    # -------------------------------------------------- queries on a state
    def lookup(self, o):
        """the array that o holds, by the meaning of its state"""
        h, c = o.attrs.get("_array"), o.attrs.get("_cache")
        if isinstance(h, Arr):
            return h
        if iskey(h) and isinstance(c, Cache):
            i = c.find(None, h)
            if i is not None:
                return c.entries[i][1]
        return None

    def go(self, st, body, typed=False, sized=False, edits=0, absent=(), fails=False):
        """every path of body(run, hooks, world)"""
        cell = {}

        def make():
            w = self.world(st, typed, sized, edits, absent)
            h = H(self, w)
            h.genfails = fails
            cell["w"] = w

            def b(run):
                return body(run, h, w)
            return h, b
        for run, h, res, raised, und in paths(self.prog, make):
            if und is not None:
                self.rep.count("paths not followed")
                self.und[str(und)] = self.und.get(str(und), 0) + 1
                continue
            self.rep.count("paths")
            yield run, h, cell["w"], res, raised

    und = {}

    def where(self, name, setter=False):
        f = self.cls.find_setter(name) if setter else self.cls.find(name)
        return f.where if f is not None else "awkward0/array/virtual.py"

    def bad(self, rule, name, st, msg, setter=False):
        self.rep.bad(rule, name, self.where(name, setter), "%s [state: %s]" % (msg, ", ".join(x for x in st if x)))

    def judge(self, ok, rule, name, st, msg, setter=False):
        if ok:
            self.rep.ok("%s: %s in %s" % (rule, name, "/".join(x for x in st if x)))
        else:
            self.bad(rule, name, st, msg, setter)

    # -------------------------------------------------- invariants of a state
    def invariant(self, w, h, name, setter=False):
        for o in w.objects:
            a = o.attrs
            if "_array" not in a:
                continue
            held = a["_array"]
            if held is not None and not isinstance(held, Arr) and not iskey(held):
                self.judge(False, "held", name, w.desc, "%s holds %r, which is neither a key nor an array" % (o.name, held), setter)
                continue
            if isinstance(held, TKey):
                self.judge(held.owner == o.name, "key-shared", name, w.desc, "%s holds the transient key of %s: whichever is deleted first removes the other's array, and the key does not identify it" % (o.name, held.owner), setter)
            arr = self.lookup(o)
            if arr is not None:
                self.judge(self.current(o, arr), "stale", name, w.desc, "%s still holds an array made by another generator, args or kwargs" % o.name, setter)
            # nobody else will remove a transient key
            for c in w.caches:
                for k, v in c.entries:
                    if isinstance(k, TKey) and k.owner == o.name:
                        self.judge(isinstance(held, TKey) and held.owner == o.name and a.get("_cache") is c, "key-leaked", name, w.desc,
                                   "the cache has an entry under the transient key of %s, which the object no longer holds: nothing will remove it, and the id will be used again" % o.name, setter)

    def current(self, o, arr):
        a = o.attrs
        return arr.gen is a["_generator"] and self.eq(arr.args, a["_args"]) and self.eq(arr.kwargs, a["_kwargs"])

    def eq(self, x, y):
        if x is y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(a is b for a, b in zip(x, y))
        if isinstance(x, PyDict) and isinstance(y, PyDict):
            return len(x.pairs) == len(y.pairs) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(x.pairs, y.pairs))
        return False

    def edited(self, w, arr):
        want = dict((n, v) for n, v in w.ghost.items() if not (v == "deleted" and n in w.absent))
        return dict((k, v) for k, v in arr.edits.items()) == want

    def snapshot(self, w):
        out = []
        for o in (w.me,):
            out.append(tuple((k, id(v) if not iskey(v) else getattr(v, "name", v)) for k, v in sorted(o.attrs.items())))
            for k in ("_setitem", "_delitem"):
                v = o.attrs.get(k)
                out.append(tuple((a.name, id(b)) for a, b in v.pairs) if isinstance(v, PyDict) else (tuple(x.name for x in v.xs) if isinstance(v, PyList) else None))
        for c in w.caches:
            out.append(tuple((k.name, id(v)) for k, v in c.entries))
        return tuple(out)

    def generated(self, h):
        return [e for e in h.events if e[0] == "generate"]

    # -------------------------------------------------- the obligations
    def run(self):
        rep = self.rep
        self.reading()
        self.failing()
        self.queries()
        self.metadata()
        self.setters()
        self.copies()
        self.edits()
        self.lifetime()
        self.serialization()
        self.converting()
        self.keys()
        self.generatorcalls()
        for k, v in sorted(self.und.items()):
            rep.notes.append("%d paths not followed: %s" % (v, k))

    def reading(self):
        for name in ("array", "materialize"):
            if self.cls.find(name) is None:
                continue
            for st in self.states:
                for edits, typed in ((0, 0), (1, 0), (0, 1)):
                    raises = 0
                    returns = 0
                    for run, h, w, res, raised in self.go(st, lambda run, h, w: self.read(run, h, w, name), typed=typed, edits=edits):
                        self.rep.count("readings")
                        gens = self.generated(h)
                        mismatch = any("type" in d and any(a.name in d for a in w.arrays) for d in h.typeconds)
                        if raised is not None:
                            if raised.name == "TypeError" and typed and gens and mismatch:
                                raises += 1
                                self.judge(self.lookup(w.me) is w.held and not any(v not in (w.held,) for c in w.caches for _, v in c.entries), "kept-mismatch", name, st,
                                           "an array that does not have the declared type is kept before the mismatch is reported")
                                continue
                            self.bad("raises", name, st, "raises %s" % raised.name)
                            continue
                        returns += 1
                        want = w.held if name == "array" else None
                        if want is not None:
                            self.judge(not gens, "generator-called", name, st, "calls the generator although the array is there")
                            self.judge(res is want, "not-returned", name, st, "does not return the array that is there")
                        else:
                            self.judge(len(gens) == 1, "generator-calls", name, st, "calls the generator %d times, not once" % len(gens))
                            if len(gens) == 1:
                                g = gens[0]
                                me = w.me.attrs
                                self.judge(g[1] is me["_generator"] and self.eq(g[2], me["_args"]) and self.eq(g[3], me["_kwargs"]), "generator-arguments", name, st,
                                           "does not call the generator with the array's own args and kwargs")
                            self.judge(isinstance(res, Arr) and res in w.arrays and res is not w.held, "not-returned", name, st, "does not return the array that the generator made")
                            self.judge(self.lookup(w.me) is res, "not-kept", name, st, "does not keep the array that the generator made: it would be made again")
                            if typed and gens:
                                self.judge(mismatch, "type-unchecked", name, st, "keeps an array without comparing its type with the declared one")
                            if w.me.attrs["_cache"] is not None:
                                self.judge(not isinstance(w.me.attrs["_array"], Arr), "not-cached", name, st, "keeps the array itself although there is a cache, which can then not evict it")
                                if w.me.attrs["_persistentkey"] is not None:
                                    i = w.caches[0].find(None, w.me.attrs["_persistentkey"])
                                    self.judge(i is not None and w.caches[0].entries[i][1] is res, "persistent-key", name, st, "does not store the array under its persistent key")
                        if name == "array" and w.caches:
                            self.judge(any(v is res for _, v in w.caches[0].entries), "not-cached", name, st, "does not put the array in the cache")
                        if isinstance(res, Arr):
                            self.judge(self.edited(w, res), "edits-lost", name, st, "columns assigned or deleted before are not in effect in the array that is returned")
                        self.invariant(w, h, name)
                    if typed and returns and self.heldkind(st) is None:
                        self.judge(raises > 0, "type-unchecked", name, st, "never reports that the generated array does not have the declared type")

    def heldkind(self, st):
        cache, held, slot, pk = st
        if held == "array held" or slot == "present":
            return "held"
        return None

    def read(self, run, h, w, name):
        f = self.cls.find(name)
        if self.cls.is_prop(name):
            return run.getattr(w.me, name)
        return run.call_fn(f, w.me, [], {})

    def failing(self):
        for st in self.states:
            for run, h, w, res, raised in self.go(st, lambda run, h, w: self.read(run, h, w, "array"), fails=True):
                if not self.generated(h):
                    continue
                self.rep.count("generator failures")
                self.judge(raised is not None, "failure-hidden", "array", st, "hides the failure of the generator")
                self.judge(self.lookup(w.me) is w.held, "failure-state", "array", st, "claims to hold an array after the generator failed")
                self.invariant(w, h, "array")

    def queries(self):
        for st in self.states:
            for run, h, w, res, raised in self.go(st, lambda run, h, w: (self.snapshot(w), run.getattr(w.me, "ismaterialized"), self.snapshot(w))):
                self.rep.count("queries")
                if raised is not None:
                    self.bad("raises", "ismaterialized", st, "raises %s" % raised.name)
                    continue
                self.judge(not self.generated(h), "generator-called", "ismaterialized", st, "calls the generator")
                self.judge(res[0] == res[2], "state-changed", "ismaterialized", st, "changes the state of the array")
                v = res[1]
                t = run.truth(v) if not isinstance(v, Tok) else None
                if t is None:
                    self.rep.count("queries not decided")
                    continue
                self.judge(t == (w.held is not None), "ismaterialized", "ismaterialized", st, "is %s although reading the array %s" % (t, "would call the generator" if w.held is None else "would not call the generator"))

    LAZY = ("key", "_util_layout", "_valid", "copy", "cache", "generator", "args", "kwargs", "persistentkey", "persistvirtual")
    TYPED = ("type", "_gettype", "shape", "dtype", "__len__")
    SIZED = ("nbytes", "_getnbytes")

    def metadata(self):
        for names, kw in ((self.LAZY, {}), (self.TYPED, {"typed": True}), (self.SIZED, {"sized": True}), (("deepcopy",), {})):
            for name in names:
                f = self.cls.find(name)
                if f is None:
                    continue
                for st in self.states:
                    nargs = len([p for p in f.params[1:]]) - len(f.node.args.defaults)

                    def body(run, h, w, f=f, name=name, nargs=nargs):
                        if self.cls.is_prop(name):
                            return run.getattr(w.me, name)
                        return run.call_fn(f, w.me, [PyDict() if i else PyDict() for i in range(nargs)], {})
                    for run, h, w, res, raised in self.go(st, body, **kw):
                        if raised is not None:
                            self.rep.count("metadata paths that raise")
                            continue
                        self.rep.count("metadata")
                        gens = self.generated(h)
                        if w.held is None or name in self.LAZY:
                            self.judge(not gens, "generator-called", name, st, "calls the generator%s" % (" although %s is declared" % ("the type" if kw.get("typed") else "the size") if kw else ""))
                        if name in ("type",) and w.held is not None:
                            self.judge(not gens, "generator-called", name, st, "calls the generator although the array is there")
                        self.invariant(w, h, name)

    def setters(self):
        values = {"generator": lambda w: Tok("callable", "generator2"), "args": lambda w: (Tok("any", "arg1"),), "kwargs": lambda w: PyDict([("kw1", Tok("any", "kwarg1"))]),
                  "persistentkey": lambda w: Tok("pkey", "persistentkey2"), "type": lambda w: Tok("type", "newtype"), "nbytes": lambda w: Tok("nbytes", "newnbytes"), "persistvirtual": lambda w: False}
        for name, val in sorted(values.items()):
            if self.cls.find_setter(name) is None:
                continue
            for st in self.states:
                def body(run, h, w, name=name, val=val):
                    v = val(w)
                    run.setattr(w.me, name, v)
                    return v
                for run, h, w, res, raised in self.go(st, body):
                    if raised is not None:
                        self.rep.count("setter paths that raise")
                        continue
                    self.rep.count("setters")
                    got = w.me.attrs.get("_" + name)
                    self.judge(got is res or self.eq(got, res) or name in ("persistvirtual", "nbytes", "type") and got == res, "not-set", name, st, "does not set the value", True)
                    self.judge(not self.generated(h), "generator-called", name, st, "calls the generator", True)
                    self.invariant(w, h, name, True)
        if self.cls.find_setter("cache") is None:
            return
        for st in self.states:
            for new in ("none", "other", "same"):
                def body(run, h, w, new=new):
                    v = None if new == "none" else (Cache("cache2") if new == "other" else w.me.attrs["_cache"])
                    if new == "other":
                        w.caches.append(v)
                    run.setattr(w.me, "cache", v)
                    return v
                for run, h, w, res, raised in self.go(st, body):
                    if raised is not None:
                        self.rep.count("setter paths that raise")
                        continue
                    self.rep.count("setters")
                    self.judge(w.me.attrs.get("_cache") is res, "not-set", "cache", st, "does not set the cache", True)
                    self.judge(not self.generated(h), "generator-called", "cache", st, "calls the generator", True)
                    if st[1] == "array held" or new == "same":
                        self.judge(self.lookup(w.me) is w.held, "dropped", "cache", st, "loses the array that it holds", True)
                    self.invariant(w, h, "cache", True)

    def copies(self):
        over = {"nothing": {}, "generator": {"generator": Tok("callable", "generator2")}, "args": {"args": (Tok("any", "arg1"),)}, "kwargs": {"kwargs": PyDict([("kw1", Tok("any", "kwarg1"))])},
                "type": {"type": Tok("type", "newtype")}, "persistentkey": {"persistentkey": Tok("pkey", "persistentkey2")}, "cache": {"cache": None}}
        for name in ("copy", "deepcopy"):
            f = self.cls.find(name)
            if f is None:
                continue
            for st in self.states:
                for what, kw in sorted(over.items()):
                    for edits in (0, 1):
                        def body(run, h, w, f=f, kw=kw, what=what):
                            kw = dict(kw)
                            if what == "cache":
                                kw["cache"] = Cache("cache2")
                                w.caches.append(kw["cache"])
                            s = self.snapshot(w)
                            out = run.call_fn(f, w.me, [], kw)
                            return s, out, kw
                        for run, h, w, res, raised in self.go(st, body, edits=edits, typed=1, sized=1):
                            if raised is not None:
                                self.bad("raises", name, st, "raises %s" % raised.name)
                                continue
                            self.rep.count("copies")
                            s, out, kw = res
                            self.judge(s == self.snapshot(w), "original-changed", name, st, "changes the array that it copies")
                            if not isinstance(out, Inst) or out is w.me:
                                self.bad("not-copied", name, st, "does not return another virtual array")
                                continue
                            for n in ("generator", "args", "kwargs", "cache", "persistentkey", "type", "nbytes", "persistvirtual"):
                                a, b = out.attrs.get("_" + n), kw[n] if n in kw else w.me.attrs["_" + n]
                                self.judge(a is b or self.eq(a, b), "not-copied", "%s(%s)" % (name, n), st, "the copy's %s is not %s" % (n, "the one given" if n in kw else "the original's"))
                            for n in ("_setitem", "_delitem"):
                                a, b = out.attrs.get(n), w.me.attrs[n]
                                if b is not None:
                                    self.judge(a is not b, "edits-shared", "%s(%s)" % (name, n), st, "the copy shares the record of its edits with the original")
                                self.judge(self.sameedits(a, b), "edits-lost", "%s(%s)" % (name, n), st, "the copy does not have the edits of the original")
                            self.invariant(w, h, name)

    def sameedits(self, a, b):
        ka = [x[0].name for x in a.pairs] if isinstance(a, PyDict) else ([x.name for x in a.xs] if isinstance(a, PyList) else [])
        kb = [x[0].name for x in b.pairs] if isinstance(b, PyDict) else ([x.name for x in b.xs] if isinstance(b, PyList) else [])
        return ka == kb

    def edits(self):
        """every sequence of up to three edits of one column and one other, each followed by nothing, then eviction and reading"""
        ops = [("set", "assigned"), ("set", "deleted"), ("set", "other"), ("del", "assigned"), ("del", "other"), ("del", "deleted")]
        seqs = [[a] for a in ops] + [[a, b] for a in ops for b in ops if a[1] == b[1]] + [[("set", "other"), ("del", "other"), ("set", "other")], [("del", "other"), ("set", "other"), ("del", "other")]]
        for st in self.states:
            if st[1] not in ("nothing held", "transient key held") or st[3] != "no persistent key" or st[2] == "evicted":
                continue
            if st == ("no cache", "transient key held", "", "no persistent key"):
                continue
            for edits in (0, 1):
                for absent in ((), ("other",), ("assigned",)):
                    for typed in (0, 1):
                        for seq in seqs:
                            self.sequence(st, seq, edits, absent, typed)

    def sequence(self, st, seq, edits, absent, typed):
        def body(run, h, w):
            n = 0
            toks = {}
            for op, col in seq:
                n += 1
                where = Tok("where", col)
                before = w.me.attrs["_type"]
                if op == "set":
                    what = Tok("any", "value%d" % n)
                    run.call_fn(self.cls.find("__setitem__"), w.me, [where, what], {})
                    w.ghost[col] = what
                else:
                    there = w.ghost.get(col) != "deleted" and (col in w.ghost or col not in w.absent)
                    if not there:
                        return "invalid"
                    run.call_fn(self.cls.find("__delitem__"), w.me, [where], {})
                    w.ghost[col] = "deleted"
                arr = self.lookup(w.me)
                if arr is not None:
                    self.judge(self.edited(w, arr), "edit", "__setitem__" if op == "set" else "__delitem__", st, "the array does not have the column that was assigned, or still has the one that was deleted")
                t = w.me.attrs["_type"]
                if before is not None:
                    self.judge(t is None or isinstance(t, Tok) and t is not before, "type-outdated", "__setitem__" if op == "set" else "__delitem__", st,
                               "the declared type is not updated with the columns: the array would be refused when it is made again")
                    if arr is not None and hasattr(t, "edits"):
                        self.judge(t.edits == arr.edits, "type-outdated", "__setitem__" if op == "set" else "__delitem__", st,
                                   "the declared type is the one before the columns are changed: the array would be refused when it is made again")
            # eviction
            for c in w.caches:
                c.entries[:] = []
            if not w.caches:
                w.me.attrs["_array"] = None
            h.events[:] = []
            out = run.call_fn(self.cls.find("materialize"), w.me, [], {})
            return out
        names = "; ".join("%s %s" % (o, c) for o, c in seq)
        last = "__setitem__" if seq[-1][0] == "set" else "__delitem__"
        for run, h, w, res, raised in self.go(st, body, edits=edits, absent=absent, typed=typed):
            if res == "invalid":
                continue
            if raised is not None:
                if raised.name == "TypeError" and typed:
                    continue
                self.bad("replay", last, st, "after the edits (%s) and eviction, the array cannot be made again: %s" % (names, raised.name))
                continue
            self.rep.count("edit sequences")
            self.judge(isinstance(res, Arr) and self.edited(w, res), "replay", last, st, "after the edits (%s) and eviction, the array that is made again does not have the columns it had" % names)
            self.invariant(w, h, last)

    def lifetime(self):
        f = self.cls.find("__del__")
        for st in self.states:
            for run, h, w, res, raised in self.go(st, lambda run, h, w: run.call_fn(f, w.me, [], {})):
                self.rep.count("deletions")
                if raised is not None:
                    self.bad("raises", "__del__", st, "raises %s" % raised.name)
                    continue
                self.judge(not self.generated(h), "generator-called", "__del__", st, "calls the generator")
                left = [k for c in w.caches for k, _ in c.entries]
                self.judge(not any(isinstance(k, TKey) for k in left), "key-leaked", "__del__", st, "leaves the array in the cache under the transient key: the id will be used again, by another array")
                if st[1].startswith("persistent") and st[2] == "present":
                    self.judge(len(left) == 1, "persistent-removed", "__del__", st, "removes the array from the cache although its key is persistent")
        # construction
        init = self.cls.find("__init__")
        for cache in (False, True):
            for pk in (False, True):
                def make():
                    w = World(("constructed", "cache" if cache else "no cache", "persistent key" if pk else "no persistent key", ""))
                    w.me = Inst(self.cls, {}, "self")
                    w.objects.append(w.me)
                    w.held = None
                    w.ghost = {}
                    h = H(self, w)
                    self._w = w

                    def b(run):
                        kw = {"args": (Tok("any", "arg0"),), "kwargs": PyDict([("kw0", Tok("any", "kwarg0"))])}
                        if cache:
                            kw["cache"] = Cache("cache")
                            w.caches.append(kw["cache"])
                        if pk:
                            kw["persistentkey"] = Tok("pkey", "persistentkey")
                            if cache:
                                other = Arr(Tok("callable", "generator"), kw["args"], kw["kwargs"], {}, "earlier")
                                kw["cache"].entries.append((kw["persistentkey"], other))
                        run.call_fn(init, w.me, [Tok("callable", "generator")], kw)
                        return kw
                    return h, b
                for run, h, res, raised, und in paths(self.prog, make):
                    w = self._w
                    if und is not None:
                        self.rep.count("paths not followed")
                        self.und[str(und)] = self.und.get(str(und), 0) + 1
                        continue
                    if raised is not None:
                        if raised.name not in ("TypeError", "ValueError"):
                            self.bad("raises", "__init__", w.desc, "raises %s" % raised.name)
                        continue
                    self.rep.count("constructions")
                    self.judge(not self.generated(h), "generator-called", "__init__", w.desc, "calls the generator")
                    if cache and pk:
                        arr = self.lookup(w.me)
                        self.judge(arr is not None and arr.name == "earlier", "persistent-unused", "__init__", w.desc, "does not find the array that is in the cache under its persistent key")

    def serialization(self):
        f = self.cls.find("__awkward_serialize__")
        if f is None:
            return
        for st in self.states:
            for edits in (0, 1):
                for virtual in (True, False):
                    def body(run, h, w, virtual=virtual):
                        w.me.attrs["_persistvirtual"] = virtual
                        return run.call_fn(f, w.me, [Tok("any", "serializer")], {})
                    for run, h, w, res, raised in self.go(st, body, edits=edits, typed=1, sized=1):
                        if raised is not None:
                            self.rep.count("serializations that raise")
                            continue
                        self.rep.count("serializations")
                        if virtual and not edits and w.held is None:
                            self.judge(not self.generated(h), "generator-called", "__awkward_serialize__", st, "calls the generator although persistvirtual is set and there are no edits")
                        if not h.leaked:
                            self.rep.ok()
                        for k, fn, node in h.leaked:
                            self.bad("key-persisted", "__awkward_serialize__", st, "gives a transient key to %r" % (getattr(fn, "name", fn),))

    def converting(self):
        """_topandas and other methods that make another virtual array from this one"""
        for name, f in sorted(self.cls.methods.items()):
            makes = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "VirtualArray" for n in ast.walk(f.node))
            if not makes or f.kind in ("static", "class"):
                continue
            for st in self.states:
                n = len(f.params[1:]) - len(f.node.args.defaults)

                def body(run, h, w, f=f, n=n):
                    return run.call_fn(f, w.me, [PyDict() for i in range(n)], {})
                for run, h, w, res, raised in self.go(st, body, typed=1, sized=1):
                    if raised is not None:
                        continue
                    self.rep.count("conversions")
                    self.judge(not (self.generated(h) and w.held is None), "generator-called", name, st, "calls the generator although the type is declared")
                    for o in w.objects:
                        if o is w.me or "_array" not in o.attrs:
                            continue
                        a, b = o.attrs.get("_persistentkey"), w.me.attrs["_persistentkey"]
                        same = o.attrs.get("_cache") is w.me.attrs["_cache"] and o.attrs.get("_cache") is not None and a is not None and a is b
                        other = o.attrs.get("_generator") is not w.me.attrs["_generator"]
                        self.judge(not (same and other), "key-shared", name, st, "another virtual array with another generator is given the same persistent key and cache: each would be given the other's array")

    def keys(self):
        """transient keys: equal exactly when they are of the same object, hashed alike, never pickled"""
        t = [c for k in self.cls.mro() for n, c in k.inner.items() if n == "TransientKey"]
        if not t:
            return
        t = t[0]

        def key(run, ident, name):
            o = Inst(t, {}, name)
            run.call_fn(t.find("__init__"), o, [ident], {})
            return o

        class KH(Hooks):
            def call(self, it, f, args, kwargs, node):
                if isinstance(f, Ext) and f.name == "hash":
                    return ("hash", it.ident(args[0]))
                return NotImplemented

            def same(self, it, a, b):
                if isinstance(a, Tok) and isinstance(b, Tok) and a.kind == b.kind == "objectid":
                    return a.name == b.name
                return None

        def judge(rule, body, want, msg):
            n = 0
            for run, h, res, raised, und in paths(self.prog, lambda: (KH(), body)):
                if und is not None:
                    self.rep.count("paths not followed")
                    continue
                n += 1
                self.rep.count("key paths")
                self.rep.check(want(res, raised), rule, "TransientKey", "%s:%d" % (t.module.relpath, t.node.lineno), msg)
            return n
        for a, b in (("id1", "id1"), ("id1", "id2")):
            for op in ("__eq__", "__ne__"):
                if t.find(op) is None:
                    continue
                judge("key-equality", lambda run: run.truth(run.call_fn(t.find(op), key(run, Tok("objectid", a), "k1"), [key(run, Tok("objectid", b), "k2")], {})),
                      lambda res, raised: raised is None and res == ((a == b) == (op == "__eq__")), "%s of the keys of %s is wrong" % (op, "one object" if a == b else "two objects"))
        if t.find("__eq__") is None or t.find("__hash__") is None:
            self.rep.bad("key-equality", "TransientKey", "%s:%d" % (t.module.relpath, t.node.lineno), "keys made for the same object do not compare equal, or are not hashable")
            return

        def hashes(run):
            return [run.call_fn(t.find("__hash__"), key(run, Tok("objectid", i), n), [], {}) for i, n in (("id1", "k1"), ("id1", "k2"))]
        judge("key-hash", hashes, lambda res, raised: raised is None and self.plain(res[0]) == self.plain(res[1]), "two keys of one object have different hashes")
        g = t.find("__getstate__") or t.find("__reduce__") or t.find("__reduce_ex__")
        if g is None:
            self.rep.bad("key-pickled", "TransientKey", "%s:%d" % (t.module.relpath, t.node.lineno), "a transient key, which means nothing in another process, can be pickled")
        else:
            judge("key-pickled", lambda run: run.call_fn(g, key(run, Tok("objectid", "id1"), "k1"), [2] if g.name == "__reduce_ex__" else [], {}), lambda res, raised: raised is not None,
                  "a transient key, which means nothing in another process, can be pickled")

    def plain(self, v):
        if isinstance(v, (tuple, list)):
            return tuple(self.plain(x) for x in v)
        if isinstance(v, Tok):
            return v.name
        return v if isinstance(v, (str, int)) else repr(v)

    def generatorcalls(self):
        """the generator is called on the way to `array` only"""
        reach = set()
        todo = ["array", "materialize"]
        while todo:
            n = todo.pop()
            for g in (self.cls.find(n), self.cls.find_setter(n)):
                if g is None or g in reach:
                    continue
                reach.add(g)
                if n in ("array", "materialize") or True:
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and self.cls.find(x.attr) is not None:
                            todo.append(x.attr)
        for g in self.prog.functions:
            for x in ast.walk(g.node):
                if g.cls is not None and self.cls not in g.cls.mro() and g.cls not in self.cls.mro() and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                    continue        # another class's generator
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("_generator", "generator"):
                    self.rep.count("generator calls")
                    self.rep.check(g in reach, "generator-call-site", g.short(), "%s:%d" % (g.module.relpath, x.lineno), "a generator is called outside of materialization")


def run(prog):
    rep = Report("C16", RULE)
    a = Analysis(prog, rep)
    a.und = {}
    a.run()
    for n, m in (("readings", 20), ("paths", 1000)):
        rep.floor(n, m)
    return rep
