"""C17: every name, attribute and call signature the library uses exists.

Scope resolution of every name, member resolution of every self./cls./super()/module attribute over the class hierarchy (fields
assigned anywhere count as members), attribute vocabulary for other receivers, and argument binding of every call whose callee is
resolved inside the package -- over all branches of all functions, executed or not.
"""
import ast, builtins, glob, os, symtable
from sa.model import Program, ClassInfo, FuncInfo, Module, AnalysisBroken, dotted, PKG
from sa.report import Report

RULE = ("name resolution of all loads, member resolution of all self/cls/super/module attributes, attribute vocabulary for other "
        "receivers, argument binding of all calls with a callee resolved in the package")
ASSUMPTIONS = ("objects of external libraries have the attributes used on them at the time the vocabulary was recorded",
               "attributes injected into classes from outside the package (mixins) are not used by the package itself")

BUILTIN_TYPES = (object, type, str, bytes, bytearray, list, tuple, dict, set, frozenset, int, float, complex, bool, slice, range,
                 memoryview, BaseException, OSError, KeyError, StopIteration, type(lambda: 0), type(len), type([].append), type((i for i in ())), property,
                 classmethod, staticmethod, type(os), type(Ellipsis), type(None))

# attributes of objects that come from other libraries (pandas, pyarrow, h5py, zipfile, re, threading, numba), as used at the recorded commit
EXTERNAL = set("""schema namelist core MaskedConstant value_type to_pandas_dtype to_batches owndata num_children match dictionary writestr
write_table util to_arrow_schema row_group read_row_group pandas num_rows num_row_groups nullable index_type from_buffers from_arrays create_group
buffers offset null_count num_chunks chunks chunk column columns names num_columns indices type_codes type_for_alias field fields id
getmask getdata nomask iskeyword fget children num_fields metadata read read_row_groups iter_batches validity is_valid""".split())


def vocabulary(prog):
    v = set()
    for t in BUILTIN_TYPES:
        v |= set(dir(t))
    v |= {"__annotations__", "__qualname__", "__name__", "__module__", "__dict__", "__defaults__", "__code__", "__file__", "__path__", "__wrapped__",
          "__array_interface__", "__array__", "__array_priority__", "__array_struct__", "groups", "group", "start", "stop", "step"}
    v |= {"reduce", "reduceat", "accumulate", "outer", "at"}     # ufunc methods
    nd = numpy_members()
    v |= nd[1]
    return v, nd[0]


def numpy_members():
    """names exported by the installed numpy, and members of its classes, read from its stub (not imported)"""
    mod, mem = set(), set()
    ps = glob.glob("/opt/venv/lib/python3*/site-packages/numpy/__init__.pyi") + glob.glob("/usr/lib/python3/dist-packages/numpy/__init__.pyi") \
        + glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/__init__.pyi")
    for p in ps[:1]:
        with open(p, encoding="utf-8") as f:
            tree = ast.parse(f.read())

        def body(b, out):
            for n in b:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            out.add(t.id)
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        out.add(a.asname or a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        out.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.If):
                    body(n.body, out)
                    body(n.orelse, out)
        body(tree.body, mod)
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                body(n.body, mem)
    mod |= {"bool", "int", "float", "object", "str", "core", "lib", "random", "testing", "ma", "linalg", "unicode", "long", "__version__", "fft"}
    return mod, mem


# ------------------------------------------------------------------ names
def name_findings(prog, rep):
    for m in prog.modules.values():
        st = symtable.symtable(m.src, m.path, "exec")
        modnames = set(s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace())
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                modnames |= set(n.names)
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
        if star:
            continue
        where = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                where.setdefault(n.id, []).append(n.lineno)

        def visit(t, path):
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                rep.count("name uses")
                if t.get_type() == "module" or s.is_global():
                    if nm not in modnames and not hasattr(builtins, nm) and nm not in ("__file__", "__path__", "__class__") and not py2_guarded(m, nm):
                        ln = [x for x in where.get(nm, []) if t.get_lineno() <= x] or where.get(nm, [0])
                        rep.bad("undefined-name", "%s:%s" % (".".join([m.name] + path), nm), "%s:%d" % (m.relpath, ln[0]), "name %r is not defined" % nm)
                        continue
                rep.ok()
            for c in t.get_children():
                visit(c, path + [c.get_name()])
        visit(st, [])


def import_findings(prog, rep, checker):
    """imports of the package's own modules and names exist"""
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            names = []
            if isinstance(n, ast.Import):
                names = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom) and n.module != "__future__":
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    parts = parts[:len(parts) - n.level + (1 if m.path.endswith("__init__.py") else 0)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                names = [base + "." + a.name if a.name != "*" else base for a in n.names]
            for nm in names:
                if nm.split(".")[0] != PKG:
                    continue
                rep.count("internal imports")
                rep.check(checker.resolves(nm.split(".")), "undefined-import", "%s:%s" % (m.name, nm), "%s:%d" % (m.relpath, n.lineno), "%s does not exist" % nm)


class Reaching(object):
    """loads of a local variable that no assignment can have reached (on any path)"""

    def __init__(self, f, rep):
        self.f, self.rep = f, rep
        self.locals = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= set((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        for n in walk_own(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.locals -= set(n.names)
        a = f.node.args
        self.params = set(x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs) | set(x.arg for x in (a.vararg, a.kwarg) if x)
        self.reported = set()

    def run(self):
        self.block(self.f.node.body, set(self.params))

    def loads(self, node, d):
        for n in walk_expr(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id in self.locals and n.id not in self.params:
                self.rep.count("local loads")
                if n.id not in d and n.id not in self.reported:
                    self.reported.add(n.id)
                    self.rep.bad("unassigned-local", "%s:%s" % (self.f.qual, n.id), "%s:%d (%s)" % (self.f.module.relpath, n.lineno, self.f.short()),
                                 "no assignment to %r can have happened on any path to this use" % n.id)
            elif isinstance(n, ast.NamedExpr):
                d.add(n.target.id)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
                bound = set(x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
                for c in ast.iter_child_nodes(n):
                    self.loads(c, d | bound)

    def stores(self, node, d):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d.add(n.id)

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= set((a.asname or a.name).split(".")[0] for a in n.names)
        return out

    def block(self, body, d):
        """may-assigned set after the block; None when its end cannot be reached"""
        for s in body:
            if d is None:
                return None
            d = self.stmt(s, d)
        return d

    @staticmethod
    def join(*ds):
        out = None
        for d in ds:
            if d is not None:
                out = set(d) if out is None else out | d
        return out

    def stmt(self, s, d):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            d.add(s.name)
            return d
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            d |= set((a.asname or a.name).split(".")[0] for a in s.names)
            return d
        if isinstance(s, ast.Assign):
            self.loads(s.value, d)
            for t in s.targets:
                self.loads(t, d)
                self.stores(t, d)
            return d
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.loads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), d)
            self.loads(s.target, d)
            self.loads(s.value, d)
            self.stores(s.target, d)
            return d
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.loads(s.value, d)
                self.stores(s.target, d)
            return d
        if isinstance(s, ast.If):
            self.loads(s.test, d)
            return self.join(self.block(s.body, set(d)), self.block(s.orelse, set(d)))
        if isinstance(s, (ast.For, ast.While)):
            self.loads(s.iter if isinstance(s, ast.For) else s.test, d)
            e = set(d) | self.assigned(s.body) | self.assigned([s]) if isinstance(s, ast.For) else set(d) | self.assigned(s.body)
            if isinstance(s, ast.For):
                # first iteration first: only what was assigned before, later ones may see everything the body assigns
                self.stores(s.target, e)
            self.block(s.body, set(e))
            r = self.block(s.orelse, set(e))
            return self.join(e, r)
        if isinstance(s, ast.Try):
            a = self.assigned(s.body)
            b = self.block(s.body, set(d))
            o = self.block(s.orelse, set(b)) if b is not None else None
            outs = [o]
            for h in s.handlers:
                x = set(d) | a
                if h.name:
                    x.add(h.name)
                outs.append(self.block(h.body, x))
            j = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, set(d) | a | (j or set()) | self.assigned(s.orelse) | set().union(*[self.assigned(h.body) for h in s.handlers]))
                if f is None or j is None:
                    return None
                return j | self.assigned(s.finalbody)
            return j
        if isinstance(s, ast.With):
            for i in s.items:
                self.loads(i.context_expr, d)
                if i.optional_vars is not None:
                    self.stores(i.optional_vars, d)
            a = self.assigned(s.body)
            b = self.block(s.body, set(d))
            return b if b is not None else set(d) | a       # a context manager may swallow
        if isinstance(s, (ast.Return, ast.Raise)):
            self.loads(s, d)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        self.loads(s, d)
        return d


def walk_own(node):
    """nodes of a function outside nested functions and classes"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


def walk_expr(node):
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


PY2 = {"unicode", "long", "basestring", "xrange", "unichr", "raw_input", "reduce"}


def py2_guarded(m, nm):
    """a Python 2 builtin used only under a sys.version_info test"""
    if nm not in PY2:
        return False
    par = {}
    for n in ast.walk(m.tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
            x, ok = n, False
            while x in par:
                p = par[x]
                if isinstance(p, (ast.If, ast.IfExp)) and "version_info" in ast.dump(p.test):
                    ok = True
                if isinstance(p, ast.Try) and any(h.type is not None and "NameError" in ast.dump(h.type) for h in p.handlers):
                    ok = True
                x = p
            if not ok:
                return False
    return True


# ------------------------------------------------------------------ members
class Members(object):
    def __init__(self, prog):
        self.prog = prog
        self.subs = {}
        for c in prog.classes.values():
            for b in c.mro():
                self.subs.setdefault(b.qualname, []).append(c)
        self.fields = {}      # class qualname -> fields assigned through self in its own body
        self.loose = set()    # fields assigned on anything else
        for f in prog.functions:
            sn = f.node.args.args[0].arg if f.cls is not None and f.kind in ("method", "bothmethod") and f.node.args.args else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)):
                    if f.cls is not None:
                        self.fields.setdefault(f.cls.qualname, set()).add(n.attr)
                    else:
                        self.loose.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.loose.add(n.args[1].value)
        self.memo = {}

    def of(self, c):
        """members an object whose class is c or below may have; None if c has a base outside the package that brings unknown members"""
        if c.qualname in self.memo:
            return self.memo[c.qualname]
        out = set(dir(object)) | {"__dict__"}
        cs = []
        for d in self.subs.get(c.qualname, [c]):
            for x in d.mro():
                if x not in cs:
                    cs.append(x)
        for x in cs:
            out |= set(x.methods) | set(x.setters) | set(x.attrs) | set(x.inner) | self.fields.get(x.qualname, set())
            for b in x.ext_bases:
                if b not in ("object", "Exception"):
                    t = getattr(builtins, b, None)
                    out |= EXTBASE.get(b.split(".")[-1], set(dir(t)) if t is not None else set())
        out |= self.loose
        if c.module.name.endswith(".pandas"):
            # AwkwardSeries is combined with every array class and pandas.Series at run time
            for d in self.prog.classes.values():
                if d.issub("AwkwardArray"):
                    out |= set(d.methods) | set(d.setters) | set(d.attrs) | set(d.inner) | self.fields.get(d.qualname, set())
            out |= {"isna", "shape", "dtype", "values"}
        self.memo[c.qualname] = out
        return out


EXTBASE = {"Mapping": {"get", "keys", "items", "values"}, "MutableMapping": {"get", "keys", "items", "values", "pop", "popitem", "clear", "update", "setdefault"},
           "NDArrayOperatorsMixin": {"__add__"}, "Sequence": {"index", "count"}, "MutableSequence": {"index", "count", "append", "extend", "pop", "remove", "insert", "reverse"}}


def accepts(f, npos, kws, star, dstar, skip, argc_known=True):
    """error text if the call cannot bind to f's parameters"""
    a = f.node.args
    names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args][skip:]
    nd = len(a.defaults)
    alln = getattr(a, "posonlyargs", []) + a.args
    required = [x.arg for i, x in enumerate(alln) if i < len(alln) - nd][skip:]
    if npos > len(names) and a.vararg is None and not star:
        return "takes %d positional arguments but %d are given" % (len(names), npos)
    for k in kws:
        if k not in names and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return "does not take the keyword %r" % k
        if k in names[:npos]:
            return "gets argument %r twice" % k
    if not star and not dstar:
        for i, r in enumerate(required):
            if i >= npos and r not in kws:
                return "is missing the argument %r" % r
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return "is missing the keyword argument %r" % x.arg
    return None


CALLABLE_PROPS = {"generator", "_generator"}


class Checker(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.mem = Members(prog)
        self.vocab, self.npmod = vocabulary(prog)
        allmem = set()
        for c in prog.classes.values():
            allmem |= set(c.methods) | set(c.setters) | set(c.attrs) | set(c.inner)
            allmem |= self.mem.fields.get(c.qualname, set())
        for m in prog.modules.values():
            allmem |= set(m.funcs) | set(m.classes) | set(m.assigns)
        self.allmem = allmem | self.mem.loose
        self.hooks = set(c.name for c in prog.classes.values() if c.issub("AwkwardArray")) | {"Methods"}

    def run(self):
        for f in self.prog.functions:
            self.func(f)

    def func(self, f):
        a = f.node.args
        selfname = None
        cls = f.cls
        if cls is not None and f.kind in ("method", "classmethod") and a.args:
            selfname = a.args[0].arg
        # nested functions rebinding the name hide it
        rebound = set()
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in n.args.args:
                    if x.arg == selfname:
                        rebound.add(n)
            if isinstance(n, ast.Name) and n.id == selfname and isinstance(n.ctx, ast.Store):
                selfname = None
        localclasses = {}
        inner_classes = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.ClassDef):
                for x in ast.walk(n):
                    inner_classes.add(x)
        hidden = set()
        for r in rebound:
            for x in ast.walk(r):
                hidden.add(x)
        locs = local_names(f.node)
        guarded = guarded_attrs(f.node)
        called = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                called.add(n.func)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Del)):
                self.attr(f, n, selfname if n not in hidden and n not in inner_classes else None, locs, guarded, n in called)
            if isinstance(n, ast.Call):
                self.call(f, n, selfname if n not in hidden and n not in inner_classes else None, locs)

    # -------------------------------------------------------------- attributes
    def attr(self, f, n, selfname, locs, guarded, called):
        rep, prog = self.rep, self.prog
        where = "%s:%d (%s)" % (f.module.relpath, n.lineno, f.short())
        rep.count("attribute uses")
        v = n.value
        if (ast.dump(v), n.attr) in guarded:
            rep.ok()
            return
        if isinstance(v, ast.Name) and v.id == selfname and f.cls is not None:
            mem = self.mem.of(f.cls)
            if mem is not None and n.attr not in mem:
                rep.bad("undefined-member", "%s:%s" % (f.qual, n.attr), where, "%s objects have no member %r" % (f.cls.qualname, n.attr))
                return
            # members every concrete class that inherits this method must have
            bad = []
            for d in self.mem.subs.get(f.cls.qualname, []):
                if not d.issub("AwkwardArray") or d.qualname in ("AwkwardArray", "AwkwardArrayWithContent") or d.find(f.name) is not f:
                    continue
                if not self.has_member(d, n.attr):
                    bad.append(d.qualname)
            if bad and f.kind == "method" and not self.reached_only_by_override(f):
                rep.bad("undefined-member", "%s:%s" % (f.qual, n.attr), where, "used with receivers of class %s, which have no member %r" % (", ".join(bad), n.attr))
                return
            rep.ok()
            return
        if isinstance(v, ast.Attribute) and v.attr in self.hooks and n.attr == "fget":
            rep.ok()
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
            bases = [c for d in self.mem.subs.get(f.cls.qualname, [f.cls]) for c in d.mro() if c is not f.cls]
            ok = n.attr in dir(object) or any(c.has(n.attr) for c in bases) or any(b not in ("object",) for c in bases + [f.cls] for b in c.ext_bases)
            rep.check(ok, "undefined-member", "%s:super.%s" % (f.qual, n.attr), where, "no base class has %r" % n.attr)
            return
        npnames = np_aliases(f)
        if isinstance(v, ast.Attribute) and v.attr == "numpy" or isinstance(v, ast.Name) and v.id in npnames:
            rep.check(not self.npmod or n.attr in self.npmod, "undefined-member", "%s:numpy.%s" % (f.qual, n.attr), where, "numpy has no %r" % n.attr)
            return
        d = dotted(n)
        if d and d.split(".")[0] in ext_imports(f):
            rep.ok()
            return
        if d and d.split(".")[0] not in locs:
            head = d.split(".")[0]
            m = f.module
            if head in m.imports or head in ("awkward0",):
                full = (m.imports.get(head, head).split(".") + d.split(".")[1:])
                if full[0] == PKG:
                    if not self.resolves(full):
                        rep.bad("undefined-member", "%s:%s" % (f.qual, d), where, "%s does not exist" % ".".join(full))
                        return
                    rep.ok()
                    return
                if full[0] == "numpy" and len(full) == 2:
                    if self.npmod and full[1] not in self.npmod:
                        rep.bad("undefined-member", "%s:%s" % (f.qual, d), where, "numpy has no %r" % full[1])
                        return
                rep.ok()
                return
        if n.attr not in self.vocab and n.attr not in self.allmem and n.attr not in EXTERNAL:
            rep.bad("unknown-attribute", "%s:%s" % (f.qual, n.attr), where, "nothing in the package, the builtins or numpy has an attribute %r" % n.attr)
            return
        rep.ok()

    def has_member(self, d, name):
        if d.has(name) or name in dir(object) or name in ("__dict__",):
            return True
        for c in d.mro():
            if name in self.mem.fields.get(c.qualname, ()):
                return True
            for b in c.ext_bases:
                if name in EXTBASE.get(b.split(".")[-1], ()) or b not in ("object", "Exception"):
                    return True
        return name in self.mem.loose

    def reached_only_by_override(self, f):
        return False

    def resolves(self, full):
        prog = self.prog
        r = prog._abs(full)
        if r is not None:
            return True
        # module attribute that is a plain assignment / imported name, then anything below it
        for i in range(len(full), 0, -1):
            mn = ".".join(full[:i])
            if mn in prog.modules:
                m = prog.modules[mn]
                if i == len(full):
                    return True
                h = full[i]
                if h in m.assigns or h in module_names(m):
                    return True
                if h in m.classes:
                    obj = m.classes[h]
                    for r in full[i + 1:]:
                        if isinstance(obj, ClassInfo):
                            if r in obj.inner:
                                obj = obj.inner[r]
                                continue
                            return obj.has(r) or r in dir(type) or r in self.mem.loose
                        return True
                    return True
                if h in m.imports:
                    full2 = m.imports[h].split(".") + full[i + 1:]
                    return full2[0] != PKG or (full2 != full and self.resolves(full2))
                return False
        return False

    # -------------------------------------------------------------- calls
    def call(self, f, n, selfname, locs):
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        npos = len([a for a in n.args if not isinstance(a, ast.Starred)])
        kws = [k.arg for k in n.keywords if k.arg is not None]
        where = "%s:%d (%s)" % (f.module.relpath, n.lineno, f.short())
        fn = n.func
        targets = []      # (FuncInfo, skip, label)
        if (dotted(fn) or "").split(".")[0] in ext_imports(f):
            return
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Name) and v.id == selfname and f.cls is not None:
                for d in self.mem.subs.get(f.cls.qualname, [f.cls]):
                    if d.find(f.name) is not f and f.name in d.methods:
                        continue
                    m = d.find(fn.attr)
                    if m is None:
                        continue
                    if fn.attr in d.props or d.is_prop(fn.attr):
                        if fn.attr in self.hooks or self.prop_callable(m):
                            t = self.hookclass(fn.attr)
                            if t is not None:
                                targets.append((t.find("__init__"), 1, fn.attr))
                            continue
                        self.rep.bad("property-called", "%s:%s" % (f.qual, fn.attr), where, "%s.%s is a property whose value is not callable" % (d.qualname, fn.attr))
                        continue
                    targets.append((m, skip_of(m, True, f.kind), "%s.%s" % (d.qualname, fn.attr)))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                m = f.cls.find(fn.attr, after=f.cls)
                if m is not None:
                    targets.append((m, 0 if (m.kind == "staticmethod") else 1, "super.%s" % fn.attr))
            else:
                hc = None
                if isinstance(v, ast.Attribute) and v.attr in self.hooks and not (dotted(v) or "").startswith("awkward0."):
                    hc = self.hookclass(v.attr)
                    if hc is not None:
                        m = hc.find(fn.attr)
                        if m is None and not hc.has(fn.attr) and fn.attr != "fget":
                            self.rep.bad("undefined-member", "%s:%s.%s" % (f.qual, v.attr, fn.attr), where, "class %s has no %r" % (v.attr, fn.attr))
                        elif m is not None:
                            targets.append((m, 0 if m.kind in ("staticmethod", "method") else 1, "%s.%s" % (v.attr, fn.attr)))
                elif fn.attr in self.hooks and isinstance(fn.value, (ast.Name, ast.Attribute)) and not (dotted(fn) or "").startswith("awkward0."):
                    hc = self.hookclass(fn.attr)
                    if hc is not None and hc.find("__init__") is not None:
                        targets.append((hc.find("__init__"), 1, fn.attr))
                else:
                    d = dotted(fn)
                    if d and d.split(".")[0] not in locs:
                        r = self.prog.resolve_dotted(f.module, d)
                        targets += self.resolved(r, d)
                    elif isinstance(v, ast.Name):
                        k = None
                        # a method name that only this package defines: some definition must accept the call
                        cands = [c.methods[fn.attr] for c in self.prog.classes.values() if fn.attr in c.methods]
                        if cands and fn.attr not in self.vocab and fn.attr not in self.mem.loose:
                            self.some_accepts(f, n, cands, npos, kws, star, dstar, where)
                if not targets and hc is None and isinstance(v, (ast.Call, ast.Subscript, ast.Attribute)):
                    cands = [c.methods[fn.attr] for c in self.prog.classes.values() if fn.attr in c.methods]
                    mods = [m.funcs[fn.attr] for m in self.prog.modules.values() if fn.attr in m.funcs]
                    if cands and not mods and fn.attr not in self.vocab and fn.attr not in self.mem.loose:
                        self.some_accepts(f, n, cands, npos, kws, star, dstar, where)
        elif isinstance(fn, ast.Name):
            loc = local_funcs(f.node).get(fn.id)
            if loc is not None:
                if len(loc) == 1 and fn.id not in other_bindings(f.node):
                    g = FuncInfo(fn.id, loc[0], f.module, None, "function")
                    targets.append((g, 0, fn.id))
            elif fn.id not in locs:
                r = self.prog.resolve_dotted(f.module, fn.id)
                targets += self.resolved(r, fn.id)
        for g, skip, label in targets:
            if g is None:
                continue
            self.rep.count("calls bound")
            e = accepts(g, npos, kws, star, dstar, skip)
            self.rep.check(e is None, "call-mismatch", "%s->%s" % (f.qual, label), where, "%s %s" % (label, e))

    def some_accepts(self, f, n, cands, npos, kws, star, dstar, where):
        if n.func.attr in self.npmod:
            return
        self.rep.count("calls bound by name")
        errs = []
        for m in cands:
            if m.prop is not None:
                return
            for skip in ((0, 1) if m.kind in ("method", "bothmethod") else (skip_of(m, True, "method"),)):
                e = accepts(m, npos, kws, star, dstar, skip)
                if e is None:
                    self.rep.ok()
                    return
                errs.append(e)
        self.rep.bad("call-mismatch", "%s->%s" % (f.qual, n.func.attr), where, "no definition of %s accepts this call: %s" % (n.func.attr, errs[-1]))

    def resolved(self, r, label):
        if isinstance(r, FuncInfo):
            if r.prop is not None:
                return []
            if r.cls is None:
                return [(r, 0, label)]
            if r.kind in ("classmethod",):
                return [(r, 1, label)]
            if r.kind == "bothmethod":
                return [(r, 2, label)]
            return [(r, 0, label)]
        if isinstance(r, ClassInfo):
            i = r.find("__init__")
            if i is not None:
                return [(i, 1, label)]
        return []

    def hookclass(self, name):
        for c in self.prog.classes.values():
            if c.name == name and c.issub("AwkwardArray"):
                return c
        return None

    def prop_callable(self, m):
        """the getter hands out a stored callable or a class"""
        if m.name in CALLABLE_PROPS:
            return True
        for n in ast.walk(m.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr.startswith("_gen"):
                return True
        return False


def skip_of(m, bound, _):
    if m.kind == "staticmethod":
        return 0
    if m.kind == "bothmethod":
        return 2
    return 1


_LOC = {}


def local_names(node):
    if node not in _LOC:
        out = set()
        a = node.args
        for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
        glob_ = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                out.add(n.name)
                if isinstance(n, ast.FunctionDef):
                    out |= set(x.arg for x in n.args.args + n.args.kwonlyargs) | set(x.arg for x in (n.args.vararg, n.args.kwarg) if x)
            elif isinstance(n, ast.Lambda):
                out |= set(x.arg for x in n.args.args)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, ast.Global):
                glob_ |= set(n.names)
        _LOC[node] = out - glob_
    return _LOC[node]


_NP = {}


def np_aliases(f):
    """local names for the numpy module (import numpy as np; np = self.numpy)"""
    if f.node not in _NP:
        out = set(k for k, v in f.module.imports.items() if v == "numpy")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                out |= set((a.asname or a.name) for a in n.names if a.name == "numpy")
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == "numpy":
                out |= set(t.id for t in n.targets if isinstance(t, ast.Name))
        _NP[f.node] = out
    return _NP[f.node]


_EI = {}


def ext_imports(f):
    """names bound to modules outside the package, at module level or inside the function"""
    if f.node not in _EI:
        out = set(k for k, v in f.module.imports.items() if v.split(".")[0] != PKG and v.split(".")[0] != "numpy")
        for n in ast.walk(f.node):
            if isinstance(n, ast.Import):
                out |= set((a.asname or a.name).split(".")[0] for a in n.names if a.name.split(".")[0] not in (PKG, "numpy"))
            elif isinstance(n, ast.ImportFrom) and (n.module or "").split(".")[0] not in (PKG, "numpy"):
                out |= set(a.asname or a.name for a in n.names)
        _EI[f.node] = out
    return _EI[f.node]


_LF = {}


def local_funcs(node):
    if node not in _LF:
        out = {}
        for n in ast.walk(node):
            if isinstance(n, ast.FunctionDef) and n is not node and not n.decorator_list:
                if not any(isinstance(c, ast.ClassDef) and n in ast.walk(c) for c in ast.walk(node)):
                    out.setdefault(n.name, []).append(n)
        _LF[node] = out
    return _LF[node]


def other_bindings(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def guarded_attrs(node):
    """(receiver, name) pairs tested by hasattr/getattr-default or in a try with an AttributeError handler"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            out.add((ast.dump(n.args[0]), n.args[1].value))
        if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.dump(h.type) for h in n.handlers):
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute):
                        out.add((ast.dump(x.value), x.attr))
    return out


_MN = {}


def module_names(m):
    if m.name not in _MN or _MN[m.name][0] is not m:
        out = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
        for n in m.tree.body:
            for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else [n]:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= set((a.asname or a.name).split(".")[0] for a in x.names)
        _MN[m.name] = (m, out)
    return _MN[m.name][1]


def run(prog):
    rep = Report("C17", RULE)
    name_findings(prog, rep)
    ch = Checker(prog, rep)
    ch.run()
    import_findings(prog, rep, ch)
    for f in prog.functions:
        Reaching(f, rep).run()
    rep.floor("attribute uses", 5000)
    rep.floor("calls bound", 600)
    return rep
