"""A small path-enumerating abstract interpreter for one method at a time.

Values are None/bool/int/float/str/tuple constants, tokens (unknown values with the tokens they were derived from), abstract containers and
abstract instances.  A condition that the abstract state does not decide is a fork; paths are enumerated by re-execution with a list of
decisions, and a fork asked twice on one path gets the same answer.  What the interpreter cannot follow raises Undecided: the path is
given up and counted, never judged.
"""
import ast
from sa.model import ClassInfo, FuncInfo, Module, dotted

BASES = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "LookupError": ("Exception",), "ValueError": ("Exception",), "TypeError": ("Exception",),
         "AttributeError": ("Exception",), "RuntimeError": ("Exception",), "NotImplementedError": ("RuntimeError",), "AssertionError": ("Exception",),
         "StopIteration": ("Exception",), "Exception": ("BaseException",), "GeneratorError": ("Exception",)}


def catches(name, handler):
    if name == handler:
        return True
    return any(catches(b, handler) for b in BASES.get(name, ("Exception",) if name not in ("Exception", "BaseException") else ()))


class Undecided(Exception):
    pass


class Raise(Exception):
    def __init__(self, name, value=None):
        self.name, self.value = name, value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Tok(object):
    """an unknown value: kind says what is known of its type"""
    _n = [0]

    def __init__(self, kind, name=None, deps=()):
        self.kind, self.name = kind, name
        if name is None:
            Tok._n[0] += 1
            self.name = "%s#%d" % (kind, Tok._n[0])
        self.deps = frozenset(deps)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class PyList(object):
    def __init__(self, xs=()):
        self.xs = list(xs)

    def __repr__(self):
        return "List%r" % (self.xs,)


class PyDict(object):
    def __init__(self, pairs=(), owner=None):
        self.pairs = [tuple(p) for p in pairs]
        self.owner = owner          # the instance whose __dict__ this is

    def find(self, it, k):
        for i, (a, _) in enumerate(self.pairs):
            if it.same(a, k):
                return i
        return None

    def __repr__(self):
        return "Dict%r" % (self.pairs,)


class Inst(object):
    def __init__(self, cls, attrs=None, name=""):
        self.cls, self.attrs, self.name = cls, dict(attrs or {}), name

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.name)


class ClsRef(object):
    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return "class %s" % self.cls.qualname


class Fn(object):
    def __init__(self, f, me=None):
        self.f, self.me = f, me


class Lam(object):
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class Ext(object):
    """something outside the package, or a module: known only by name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Meth(object):
    """a method of an abstract value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


def deps(v, seen=None):
    """tokens a value was derived from"""
    out = set()
    stack = [v]
    seen = set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Tok):
            out.add(x.name)
            out |= x.deps
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, PyList):
            stack.extend(x.xs)
        elif isinstance(x, PyDict):
            stack.extend(a for p in x.pairs for a in p)
        elif isinstance(x, Meth):
            stack.append(x.obj)
        elif isinstance(x, Fn):
            if x.me is not None:
                stack.append(x.me)
        elif hasattr(x, "deps_of"):
            out |= x.deps_of()
    return out


class Run(object):
    """one path"""
    MAXSTEPS = 20000

    def __init__(self, prog, hooks, script):
        self.prog, self.hooks, self.script = prog, hooks, script
        self.rng = None
        self.taken = []          # (key, choice, n)
        self.memo = {}
        self.depth = 0
        self.steps = 0
        self.stack = []

    # ------------------------------------------------------------------ forks
    def fork(self, key, n=2):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else (0 if self.rng is None else self.rng.randrange(n))
        self.taken.append((key, c, n))
        self.memo[key] = c
        return c

    def truth(self, v):
        r = self.hooks.truth(self, v)
        if r is not None:
            return r
        if isinstance(v, (bool, int, float, str, bytes, tuple)) or v is None:
            return bool(v)
        if isinstance(v, PyList):
            return bool(v.xs)
        if isinstance(v, PyDict):
            return bool(v.pairs)
        if isinstance(v, (Inst, ClsRef, Fn, Lam, Meth, Ext)):
            return True
        return bool(self.fork(("truth", self.ident(v))))

    def ident(self, v):
        if isinstance(v, Tok):
            return v.name
        if isinstance(v, (bool, int, float, str, bytes)) or v is None:
            return repr(v)
        if isinstance(v, tuple):
            return tuple(self.ident(x) for x in v)
        if isinstance(v, Ext):
            return v.name
        if isinstance(v, ClsRef):
            return "class " + v.cls.qualname
        return getattr(v, "name", None) or "obj%d" % id(v)

    def same(self, a, b):
        """equality; forks when unknown"""
        r = self.hooks.same(self, a, b)
        if r is not None:
            return r
        if a is b:
            return True
        con = (bool, int, float, str, bytes, type(None))
        if isinstance(a, con) and isinstance(b, con):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return False
        if isinstance(a, (Inst, ClsRef, PyList, PyDict)) and isinstance(b, (Inst, ClsRef, PyList, PyDict)):
            return False
        if isinstance(a, Tok) and isinstance(b, Tok) and a.name == b.name:
            return True
        return bool(self.fork(("eq",) + tuple(sorted((str(self.ident(a)), str(self.ident(b)))))))

    # ------------------------------------------------------------------ calls
    def call_fn(self, f, me, args, kwargs):
        """interpret a function of the package"""
        if self.depth > 14:
            raise Undecided("depth")
        a = f.node.args
        env = {}
        pos = list(args)
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        if f.cls is not None and f.kind == "bothmethod":
            pos[:0] = [isinstance(me, ClsRef), me]
        elif f.cls is not None and f.kind not in ("staticmethod", "function"):
            pos.insert(0, me)
        kw = dict(kwargs)
        star2 = kw.pop("**", None)
        if star2 is not None:
            raise Undecided("**%r" % (star2,))
        if any(isinstance(x, Star) for x in pos):
            raise Undecided("*args into %s" % f.name)
        for i, n in enumerate(names):
            if pos:
                env[n] = pos.pop(0)
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                d = a.defaults[i - (len(names) - len(a.defaults))] if i >= len(names) - len(a.defaults) else None
                if d is None:
                    raise Raise("TypeError")
                env[n] = self.expr(d, {}, f.module, f)
        if a.vararg:
            env[a.vararg.arg] = tuple(pos)
            pos = []
        for i, k in enumerate(a.kwonlyargs):
            if k.arg in kw:
                env[k.arg] = kw.pop(k.arg)
            elif a.kw_defaults[i] is not None:
                env[k.arg] = self.expr(a.kw_defaults[i], {}, f.module, f)
        if a.kwarg:
            env[a.kwarg.arg] = PyDict(kw.items())
            kw = {}
        if pos or kw:
            raise Raise("TypeError")
        self.depth += 1
        self.stack.append(f)
        try:
            self.block(f.node.body, env, f.module, f)
            return None
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()

    def call(self, f, args, kwargs, node=None):
        r = self.hooks.call(self, f, args, kwargs, node)
        if r is not NotImplemented:
            return r
        if isinstance(f, Fn):
            return self.call_fn(f.f, f.me, args, kwargs)
        if isinstance(f, Lam):
            env = dict(f.env)
            a = f.node.args
            if len(a.args) != len(args) or kwargs:
                raise Undecided("lambda call")
            for p, v in zip(a.args, args):
                env[p.arg] = v
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env, f.module, None)
            try:
                self.block(f.node.body, env, f.module, None)
                return None
            except _Return as r:
                return r.v
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, Ext):
            return self.builtin(f.name, args, kwargs)
        return Tok("any", None, deps((f, list(args), list(kwargs.values()))))

    def method(self, o, name, args, kwargs):
        if isinstance(o, PyList):
            if name == "append":
                o.xs.append(args[0])
                return None
            if name == "remove":
                for i, x in enumerate(o.xs):
                    if self.same(x, args[0]):
                        del o.xs[i]
                        return None
                raise Raise("ValueError")
            if name == "extend" and isinstance(args[0], (PyList, tuple)):
                o.xs.extend(args[0].xs if isinstance(args[0], PyList) else args[0])
                return None
            if name == "copy":
                return PyList(o.xs)
            if name == "insert" and isinstance(args[0], int):
                o.xs.insert(args[0], args[1])
                return None
            if name == "clear":
                o.xs = []
                return None
            if name == "pop" and o.xs and (not args or isinstance(args[0], int)):
                return o.xs.pop(*args)
            if name == "index":
                for i, x in enumerate(o.xs):
                    if self.same(x, args[0]):
                        return i
                raise Raise("ValueError")
            raise Undecided("list.%s" % name)
        if isinstance(o, PyDict):
            if name == "items":
                return PyList([tuple(p) for p in o.pairs])
            if name == "keys":
                return PyList([p[0] for p in o.pairs])
            if name == "values":
                return PyList([p[1] for p in o.pairs])
            if name == "copy":
                return PyDict(o.pairs)
            if name in ("get", "pop", "setdefault"):
                i = o.find(self, args[0])
                if i is None:
                    if name == "setdefault":
                        o.pairs.append((args[0], args[1] if len(args) > 1 else None))
                    if len(args) < 2 and name == "pop":
                        raise Raise("KeyError")
                    return args[1] if len(args) > 1 else None
                v = o.pairs[i][1]
                if name == "pop":
                    del o.pairs[i]
                return v
            if name == "clear":
                o.pairs = []
                return None
            if name == "update" and isinstance(args[0], PyDict):
                for k, v in args[0].pairs:
                    self.setitem(o, k, v)
                return None
            raise Undecided("dict.%s" % name)
        return Tok("any", None, deps((o, list(args), list(kwargs.values()))))

    def builtin(self, name, args, kwargs):
        n = name.rsplit(".", 1)[-1]
        if name in ("tuple", "list") and len(args) <= 1 and not kwargs:
            if not args:
                return () if name == "tuple" else PyList()
            xs = self.iterate(args[0])
            if xs is not None:
                return tuple(xs) if name == "tuple" else PyList(xs)
            return Tok(name, None, deps(args))
        if n in ("dict", "OrderedDict"):
            out = PyDict()
            if args:
                if isinstance(args[0], PyDict):
                    out.pairs = list(args[0].pairs)
                else:
                    xs = self.iterate(args[0])
                    if xs is None or not all(isinstance(x, tuple) and len(x) == 2 for x in xs):
                        return Tok("dict", None, deps(args))
                    for k, v in xs:
                        self.setitem(out, k, v)
            for k, v in kwargs.items():
                out.pairs.append((k, v))
            return out
        if name == "bool" and len(args) == 1:
            return self.truth(args[0])
        if name == "len" and len(args) == 1:
            xs = self.iterate(args[0])
            if xs is not None:
                return len(xs)
            return Tok("int", "len(%s)" % (self.ident(args[0]),), deps(args))
        if name in ("range", "xrange") and args and all(isinstance(x, int) for x in args):
            return PyList(range(*args))
        if name == "enumerate" and len(args) == 1:
            xs = self.iterate(args[0])
            if xs is not None:
                return PyList(list(enumerate(xs)))
        if name == "enumerate" and len(args) == 2 and isinstance(args[1], int):
            xs = self.iterate(args[0])
            if xs is not None:
                return PyList(list(enumerate(xs, args[1])))
        if name == "reversed" and len(args) == 1:
            xs = self.iterate(args[0])
            if xs is not None:
                return PyList(list(xs)[::-1])
        if name == "zip":
            xs = [self.iterate(x) for x in args]
            if all(x is not None for x in xs):
                return PyList(list(zip(*xs)))
        if name in ("all", "any") and len(args) == 1:
            xs = self.iterate(args[0])
            if xs is not None:
                return (all if name == "all" else any)(self.truth(x) for x in xs)
        if name == "id" and len(args) == 1:
            return ("id", self.ident(args[0]))
        if name == "getattr" and len(args) >= 2 and isinstance(args[1], str):
            try:
                return self.getattr(args[0], args[1])
            except Raise as r:
                if r.name == "AttributeError" and len(args) > 2:
                    return args[2]
                raise
        if name == "hasattr" and len(args) == 2 and isinstance(args[1], str):
            try:
                self.getattr(args[0], args[1])
                return True
            except Raise as r:
                if r.name == "AttributeError":
                    return False
                raise
        if name == "setattr" and len(args) == 3 and isinstance(args[1], str):
            self.setattr(args[0], args[1], args[2])
            return None
        if name == "isinstance" and len(args) == 2:
            return self.isinstance(args[0], args[1])
        if name == "callable" and len(args) == 1:
            if isinstance(args[0], (Fn, Lam, Meth, ClsRef)):
                return True
            if isinstance(args[0], Tok) and args[0].kind == "callable":
                return True
            if args[0] is None:
                return False
            return bool(self.fork(("callable", self.ident(args[0]))))
        if name == "type" and len(args) == 1 and isinstance(args[0], Inst):
            return ClsRef(args[0].cls)
        return Tok("any", None, deps((list(args), list(kwargs.values()))))

    def isinstance(self, v, c):
        if isinstance(c, tuple):
            r = self.hooks.isinstance(self, v, c)
            if r is not None:
                return r
            return any(self.isinstance(v, x) for x in c)
        r = self.hooks.isinstance(self, v, c)
        if r is not None:
            return r
        cn = c.cls.qualname if isinstance(c, ClsRef) else (c.name if isinstance(c, Ext) else None)
        if isinstance(v, Inst):
            if isinstance(c, ClsRef):
                return c.cls in v.cls.mro()
            return cn == "object"
        native = {"int": int, "str": str, "tuple": tuple, "bool": bool, "float": float, "bytes": bytes}
        if isinstance(v, (int, str, tuple, bool, float, bytes)) or v is None:
            if cn in native:
                return isinstance(v, native[cn])
            if cn and cn.rsplit(".", 1)[-1] in ("string", "basestring"):
                return isinstance(v, str)
            return False
        if isinstance(v, PyList):
            return cn == "list"
        if isinstance(v, PyDict):
            return cn in ("dict", "collections.OrderedDict", "OrderedDict")
        if isinstance(v, Tok) and v.kind in ("tuple", "dict", "list", "int", "bool", "str") and cn in ("tuple", "dict", "list", "int", "bool", "str"):
            return v.kind == cn
        if cn is None:
            raise Undecided("isinstance of %r" % (c,))
        return bool(self.fork(("isinstance", self.ident(v), cn)))

    def iterate(self, v):
        r = self.hooks.iterate(self, v)
        if r is not None:
            return r
        if isinstance(v, PyList):
            return list(v.xs)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyDict):
            return [p[0] for p in v.pairs]
        return None

    # ------------------------------------------------------------------ attributes and items
    def getattr(self, o, name, node=None):
        r = self.hooks.getattr(self, o, name, node)
        if r is not NotImplemented:
            return r
        if isinstance(o, Inst):
            if name == "__class__":
                return ClsRef(o.cls)
            if name == "__dict__":
                return PyDict(sorted(o.attrs.items()), o)
            f = o.cls.find(name)
            if f is not None and o.cls.is_prop(name):
                return self.call_fn(f, o, [], {})
            if name in o.attrs:
                return o.attrs[name]
            if f is not None:
                return Fn(f, None if f.kind == "staticmethod" else (ClsRef(o.cls) if f.kind == "classmethod" else o))
            for c in o.cls.mro():
                if name in c.inner:
                    return ClsRef(c.inner[name])
            a = o.cls.class_attr(name)
            if a is not None:
                return self.hooks.classattr(self, o.cls, name, a)
            raise Raise("AttributeError")
        if isinstance(o, ClsRef):
            for c in o.cls.mro():
                if name in c.inner:
                    return ClsRef(c.inner[name])
            f = o.cls.find(name)
            if f is not None:
                return Fn(f, None if f.kind == "staticmethod" else o) if f.kind in ("classmethod", "staticmethod", "bothmethod") else Tok("any", "%s.%s" % (o.cls.name, name))
            if name == "__new__":
                return Meth(o, "__new__")
            a = o.cls.class_attr(name)
            if a is not None:
                return self.hooks.classattr(self, o.cls, name, a)
            return Tok("any", "%s.%s" % (o.cls.name, name))
        if isinstance(o, (PyList, PyDict)):
            return Meth(o, name)
        if isinstance(o, Ext):
            n = o.name + "." + name
            if n.startswith("awkward0."):
                r = self.prog._abs(n.split("."))
                if isinstance(r, (ClassInfo, FuncInfo)):
                    return self.wrap(r, n, None)
            return Ext(n)
        if isinstance(o, Tok):
            return Tok("any", "%s.%s" % (o.name, name), o.deps | frozenset([o.name]))
        return Meth(o, name)

    def setattr(self, o, name, v, node=None):
        if self.hooks.setattr(self, o, name, v, node):
            return
        if isinstance(o, Inst):
            s = o.cls.find_setter(name)
            if s is not None:
                self.call_fn(s, o, [v], {})
            else:
                o.attrs[name] = v
            return
        if isinstance(o, Tok):
            return
        raise Undecided("attribute of %r" % (o,))

    def getitem(self, o, k, node=None):
        r = self.hooks.getitem(self, o, k, node)
        if r is not NotImplemented:
            return r
        if isinstance(o, PyDict):
            i = o.find(self, k)
            if i is None:
                raise Raise("KeyError")
            return o.pairs[i][1]
        if isinstance(o, (PyList, tuple)):
            xs = o.xs if isinstance(o, PyList) else o
            if isinstance(k, slice):
                return PyList(xs[k]) if isinstance(o, PyList) else xs[k]
            if isinstance(k, int):
                if -len(xs) <= k < len(xs):
                    return xs[k]
                raise Raise("IndexError")
            raise Undecided("item of a list")
        return Tok("any", None, deps((o, k)))

    def setitem(self, o, k, v, node=None):
        if self.hooks.setitem(self, o, k, v, node):
            return
        if isinstance(o, PyDict):
            i = o.find(self, k)
            if i is None:
                o.pairs.append((k, v))
            else:
                o.pairs[i] = (o.pairs[i][0], v)
            if o.owner is not None and isinstance(k, str):
                o.owner.attrs[k] = v
            return
        if isinstance(o, PyList) and isinstance(k, int) and -len(o.xs) <= k < len(o.xs):
            o.xs[k] = v
            return
        if isinstance(o, Tok):
            return
        raise Undecided("item assignment")

    def delitem(self, o, k, node=None):
        if self.hooks.delitem(self, o, k, node):
            return
        if isinstance(o, PyDict):
            i = o.find(self, k)
            if i is None:
                raise Raise("KeyError")
            del o.pairs[i]
            if o.owner is not None and isinstance(k, str):
                o.owner.attrs.pop(k, None)
            return
        if isinstance(o, PyList) and isinstance(k, int) and -len(o.xs) <= k < len(o.xs):
            del o.xs[k]
            return
        if isinstance(o, Tok):
            return
        raise Undecided("item deletion")

    def contains(self, o, k, node=None):
        r = self.hooks.contains(self, o, k, node)
        if r is not None:
            return r
        if isinstance(o, PyDict):
            return o.find(self, k) is not None
        xs = self.iterate(o)
        if xs is not None:
            return any(self.same(x, k) for x in xs)
        return bool(self.fork(("in", str(self.ident(k)), str(self.ident(o)))))

    # ------------------------------------------------------------------ expressions
    def name(self, n, env, module):
        if n in env:
            return env[n]
        if n in module.classes or n in module.funcs or n in module.imports or n in module.assigns:
            return self.wrap(self.prog.resolve_dotted(module, n), n, module)
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        return Ext(n)

    def wrap(self, r, n, module):
        if isinstance(r, ClassInfo):
            return ClsRef(r)
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, Module):
            return Ext(r.name)
        if isinstance(r, str):
            return Ext(r)
        if n in module.imports:
            return Ext(module.imports[n])
        return Tok("any", "%s.%s" % (module.name, n))

    def expr(self, e, env, module, f):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("too many steps")
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            return self.name(e.id, env, module)
        if t is ast.Attribute:
            d = dotted(e)
            if d and d.split(".")[0] not in env:
                h = d.split(".")[0]
                if h in module.imports or h in module.classes or h in module.funcs:
                    r = self.prog.resolve_dotted(module, d)
                    if isinstance(r, (ClassInfo, FuncInfo, Module)):
                        if not (isinstance(r, FuncInfo) and r.cls is not None):
                            return self.wrap(r, d, module)
                    elif isinstance(r, str):
                        return Ext(r)
            return self.getattr(self.expr(e.value, env, module, f), e.attr, e)
        if t is ast.Call:
            if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env:
                c = f.cls if f is not None else None
                me = self.expr(e.args[1], env, module, f) if len(e.args) == 2 else env.get(f.params[0] if f and f.params else "self")
                return ("super", c, me)
            fn = self.callee(e.func, env, module, f)
            args = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    v = self.expr(a.value, env, module, f)
                    xs = self.iterate(v)
                    if xs is None:
                        args.append(Star(v))
                    else:
                        args.extend(xs)
                else:
                    args.append(self.expr(a, env, module, f))
            kw = {}
            for k in e.keywords:
                v = self.expr(k.value, env, module, f)
                if k.arg is None:
                    if isinstance(v, PyDict) and all(isinstance(p[0], str) for p in v.pairs):
                        kw.update(v.pairs)
                    else:
                        kw["**"] = v
                else:
                    kw[k.arg] = v
            return self.call(fn, args, kw, e)
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.expr(x, env, module, f)
                b = self.truth(v)
                if isinstance(e.op, ast.And) and not b or isinstance(e.op, ast.Or) and b:
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.expr(e.operand, env, module, f)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            r = self.hooks.unop(self, e.op, v, e)
            if r is not NotImplemented:
                return r
            if isinstance(v, (int, float)):
                return -v if isinstance(e.op, ast.USub) else (~v if isinstance(e.op, ast.Invert) else v)
            return Tok("any", None, deps(v))
        if t is ast.Compare:
            left = self.expr(e.left, env, module, f)
            if len(e.ops) == 1:
                right = self.expr(e.comparators[0], env, module, f)
                r = self.hooks.compare(self, e.ops[0], left, right, e)
                return self.compare(e.ops[0], left, right, e) if r is NotImplemented else r
            for op, c in zip(e.ops, e.comparators):
                right = self.expr(c, env, module, f)
                r = self.hooks.compare(self, op, left, right, e)
                if not self.truth(self.compare(op, left, right, e) if r is NotImplemented else r):
                    return False
                left = right
            return True
        if t is ast.IfExp:
            return self.expr(e.body if self.truth(self.expr(e.test, env, module, f)) else e.orelse, env, module, f)
        if t is ast.Tuple:
            return tuple(self.elts(e, env, module, f))
        if t is ast.List:
            return PyList(self.elts(e, env, module, f))
        if t is ast.Dict:
            out = PyDict()
            for k, v in zip(e.keys, e.values):
                vv = self.expr(v, env, module, f)
                if k is None:
                    if not isinstance(vv, PyDict):
                        raise Undecided("dict splat")
                    out.pairs.extend(vv.pairs)
                else:
                    self.setitem(out, self.expr(k, env, module, f), vv)
            return out
        if t is ast.Subscript:
            return self.getitem(self.expr(e.value, env, module, f), self.index(e.slice, env, module, f), e)
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.comp(e, env, module, f)
        if t is ast.Lambda:
            return Lam(e, env, module)
        if t is ast.BinOp:
            a, b = self.expr(e.left, env, module, f), self.expr(e.right, env, module, f)
            r = self.hooks.binop(self, e.op, a, b, e)
            if r is not NotImplemented:
                return r
            if isinstance(e.op, ast.Add):
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return a + b
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                if isinstance(a, PyList) and isinstance(b, PyList):
                    return PyList(a.xs + b.xs)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and isinstance(e.op, (ast.Sub, ast.Mult)):
                return a - b if isinstance(e.op, ast.Sub) else a * b
            return Tok("str" if isinstance(a, str) else "any", None, deps((a, b)))
        if t is ast.Slice:
            return self.index(e, env, module, f)
        if t is ast.JoinedStr:
            return Tok("str", None, ())
        if t is ast.NamedExpr:
            v = self.expr(e.value, env, module, f)
            env[e.target.id] = v
            return v
        if t is ast.Yield and self.hooks.follow_yields:
            return self.hooks.yielded(self, None if e.value is None else self.expr(e.value, env, module, f), e)
        raise Undecided("expression %s" % t.__name__)

    def callee(self, e, env, module, f):
        if isinstance(e, ast.Attribute):
            o = None
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
                s = self.expr(e.value, env, module, f)
                if s[1] is not None and isinstance(s[2], (Inst, ClsRef)):
                    c = s[2].cls
                    g = c.find(e.attr, after=s[1])
                    if g is not None:
                        return Fn(g, s[2])
                return Meth(s, e.attr)
        return self.expr(e, env, module, f)

    def index(self, s, env, module, f):
        if isinstance(s, ast.Slice):
            vs = [None if x is None else self.expr(x, env, module, f) for x in (s.lower, s.upper, s.step)]
            if all(v is None or isinstance(v, int) for v in vs):
                return slice(*vs)
            t = Tok("slice", None, deps(vs))
            t.parts = tuple(vs)
            return t
        return self.expr(s, env, module, f)

    def elts(self, e, env, module, f):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                xs = self.iterate(self.expr(x.value, env, module, f))
                if xs is None:
                    raise Undecided("splat")
                out.extend(xs)
            else:
                out.append(self.expr(x, env, module, f))
        return out

    def comp(self, e, env, module, f):
        out = PyDict() if isinstance(e, ast.DictComp) else PyList()
        unknown = []

        def go(i, env):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    self.setitem(out, self.expr(e.key, env, module, f), self.expr(e.value, env, module, f))
                else:
                    out.xs.append(self.expr(e.elt, env, module, f))
                return
            g = e.generators[i]
            it = self.expr(g.iter, env, module, f)
            xs = self.iterate(it)
            if xs is None:
                unknown.append(it)
                xs = [Tok("any", None, deps(it))]
            for x in xs:
                env2 = dict(env)
                self.assign(g.target, x, env2, module, f)
                if all(self.truth(self.expr(c, env2, module, f)) for c in g.ifs):
                    go(i + 1, env2)
        go(0, env)
        if unknown:
            return Tok("any", None, deps((unknown, out)))
        return out

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.hooks.equal(self, a, b, node)
            if r is None:
                r = self.same(a, b)
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, node)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return bool(self.fork((type(op).__name__, str(self.ident(a)), str(self.ident(b)))))

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, Tok) and x.kind == "any":
                return bool(self.fork(("none", x.name)))
            return False
        if isinstance(a, ClsRef) and isinstance(b, ClsRef):
            return a.cls is b.cls
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return a is b or (type(a) is type(b) and a == b)
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.name == b.name:
                return True
            if a.kind != "any" and b.kind != "any":
                return False
            return bool(self.fork(("is", a.name, b.name)))
        return False

    # ------------------------------------------------------------------ statements
    def assign(self, t, v, env, module, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env, module, f), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, env, module, f), self.index(t.slice, env, module, f), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v)
            if xs is None:
                xs = [Tok("any", None, deps(v)) for _ in t.elts]
            if len(xs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Undecided("unpacking")
            for a, b in zip(t.elts, xs):
                self.assign(a, b, env, module, f)
        else:
            raise Undecided("target %s" % type(t).__name__)

    def block(self, body, env, module, f):
        for st in body:
            self.stmt(st, env, module, f)

    def stmt(self, st, env, module, f):
        t = type(st)
        if t is ast.Expr:
            self.expr(st.value, env, module, f)
        elif t is ast.Assign:
            v = self.expr(st.value, env, module, f)
            for x in st.targets:
                self.assign(x, v, env, module, f)
        elif t is ast.AugAssign:
            a = self.expr(st.target, env, module, f)
            b = self.expr(st.value, env, module, f)
            r = self.hooks.augop(self, st.op, a, b, st)
            if r is not NotImplemented:
                v = r
            elif isinstance(a, PyList) and isinstance(st.op, ast.Add) and isinstance(b, (PyList, tuple)):
                a.xs.extend(b.xs if isinstance(b, PyList) else b)
                v = a
            elif isinstance(a, tuple) and isinstance(b, tuple) and isinstance(st.op, ast.Add):
                v = a + b
            elif isinstance(a, (int, float)) and isinstance(b, (int, float)) and isinstance(st.op, (ast.Add, ast.Sub)):
                v = a + b if isinstance(st.op, ast.Add) else a - b
            else:
                v = Tok("any", None, deps((a, b)))
            self.assign(st.target, v, env, module, f)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.expr(st.value, env, module, f), env, module, f)
        elif t is ast.Return:
            raise _Return(None if st.value is None else self.expr(st.value, env, module, f))
        elif t is ast.If:
            self.block(st.body if self.truth(self.expr(st.test, env, module, f)) else st.orelse, env, module, f)
        elif t is ast.Raise:
            if st.exc is None:
                raise env.get("\0exc") or Raise("Exception")
            v = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            d = dotted(v)
            if d and d in env and isinstance(env[d], Raise):
                raise env[d]
            if isinstance(st.exc, ast.Call):
                for a in st.exc.args:
                    self.expr(a, env, module, f)
            raise Raise(d.rsplit(".", 1)[-1] if d else "Exception")
        elif t is ast.Try or t.__name__ == "TryStar":
            try:
                try:
                    self.block(st.body, env, module, f)
                except Raise as r:
                    for h in st.handlers:
                        names = [] if h.type is None else [dotted(x) or "?" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                        if h.type is None or any(catches(r.name, n.rsplit(".", 1)[-1]) for n in names):
                            old = env.get("\0exc")
                            env["\0exc"] = r
                            if h.name:
                                env[h.name] = r
                            self.block(h.body, env, module, f)
                            env["\0exc"] = old
                            break
                    else:
                        raise
                else:
                    self.block(st.orelse, env, module, f)
            finally:
                # a path that is given up does not run the rest of the function
                import sys
                if not isinstance(sys.exc_info()[1], Undecided):
                    self.block(st.finalbody, env, module, f)
        elif t is ast.For:
            it = self.expr(st.iter, env, module, f)
            xs = self.iterate(it)
            if xs is None:
                # any number of elements: none or one generic one
                xs = [Tok("any", None, deps(it))] if self.fork(("loop", str(self.ident(it)), st.lineno)) else []
            broke = False
            for x in xs:
                self.assign(st.target, x, env, module, f)
                try:
                    self.block(st.body, env, module, f)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
            if not broke:
                self.block(st.orelse, env, module, f)
        elif t is ast.While:
            n = 0
            broke = False
            while self.truth(self.expr(st.test, env, module, f)):
                n += 1
                if n > self.hooks.MAXLOOP:
                    raise Undecided("loop")
                try:
                    self.block(st.body, env, module, f)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
            if not broke:
                self.block(st.orelse, env, module, f)
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Subscript):
                    self.delitem(self.expr(x.value, env, module, f), self.index(x.slice, env, module, f), x)
                elif isinstance(x, ast.Name):
                    env.pop(x.id, None)
                elif isinstance(x, ast.Attribute):
                    o = self.expr(x.value, env, module, f)
                    if not isinstance(o, Inst):
                        raise Undecided("del attribute")
                    if x.attr not in o.attrs:
                        raise Raise("AttributeError")
                    del o.attrs[x.attr]
                else:
                    raise Undecided("del")
        elif t is ast.Pass or t is ast.Global or t is ast.Nonlocal:
            pass
        elif t is ast.Assert:
            if not self.truth(self.expr(st.test, env, module, f)):
                raise Raise("AssertionError")
        elif t is ast.Break:
            raise _Break()
        elif t is ast.Continue:
            raise _Continue()
        elif t is ast.Import:
            for a in st.names:
                env[(a.asname or a.name).split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        elif t is ast.ImportFrom:
            for a in st.names:
                r = self.prog._abs(("%s.%s" % (st.module, a.name)).split("."))
                env[a.asname or a.name] = self.wrap(r, a.name, module) if r is not None and not isinstance(r, str) else Ext("%s.%s" % (st.module, a.name))
        elif t is ast.FunctionDef:
            env[st.name] = Lam(st, env, module)
        elif t is ast.With:
            for i in st.items:
                v = self.expr(i.context_expr, env, module, f)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, module, f)
            self.block(st.body, env, module, f)
        else:
            raise Undecided("statement %s" % t.__name__)


class Star(object):
    def __init__(self, v):
        self.v = v

    def deps_of(self):
        return deps(self.v)


class Hooks(object):
    """what a check knows about the values: each method may decline (None / NotImplemented / False)"""
    MAXLOOP = 20

    def truth(self, it, v):
        return None

    def same(self, it, a, b):
        return None

    def equal(self, it, a, b, node):
        return None

    def call(self, it, f, args, kwargs, node):
        return NotImplemented

    def isinstance(self, it, v, c):
        return None

    def iterate(self, it, v):
        return None

    def getattr(self, it, o, name, node):
        return NotImplemented

    def setattr(self, it, o, name, v, node):
        return False

    def getitem(self, it, o, k, node):
        return NotImplemented

    def setitem(self, it, o, k, v, node):
        return False

    def delitem(self, it, o, k, node):
        return False

    def contains(self, it, o, k, node):
        return None

    def compare(self, it, op, a, b, node):
        return NotImplemented

    def unop(self, it, op, a, node):
        return NotImplemented

    def binop(self, it, op, a, b, node):
        return NotImplemented

    def augop(self, it, op, a, b, node):
        return NotImplemented

    follow_yields = False

    def yielded(self, it, v, node):
        raise Undecided("expression Yield")

    def classattr(self, it, cls, name, a):
        return Tok("any", "%s.%s" % (cls.name, name))


def paths(prog, make, limit=400, sample=0):
    """enumerate the paths of make(): make() returns (hooks, body); body(run) performs the interpretation.  Yields (run, hooks, result, raised, undecided).
    When there are more than `limit`, `sample` further ones are drawn at random (the same ones in every run)."""
    import random
    rng = random.Random(1)
    script = []
    n = 0
    while True:
        n += 1
        if n > limit + sample:
            return
        if n > limit:
            script = []
        Tok._n[0] = 0
        hooks, body = make()
        run = Run(prog, hooks, script)
        run.rng = rng if n > limit else None
        result = raised = und = None
        try:
            result = body(run)
        except Raise as r:
            raised = r
        except Undecided as u:
            und = u
        except RecursionError:
            und = Undecided("recursion")
        yield run, hooks, result, raised, und
        if n > limit:
            continue
        # next script
        t = run.taken
        i = len(t) - 1
        while i >= 0 and t[i][1] + 1 >= t[i][2]:
            i -= 1
        if i < 0:
            return
        script = [x[1] for x in t[:i]] + [t[i][1] + 1]
