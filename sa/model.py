"""Program model: parses /repo/awkward0 (never imports it), class hierarchy, MRO, members, name resolution."""
import ast, hashlib, os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "awkward0"


class AnalysisBroken(Exception):
    """The source no longer has a construct the analysis is anchored to."""


class FuncInfo(object):
    __slots__ = ("name", "node", "module", "cls", "kind", "params", "prop", "qual")

    def __init__(self, name, node, module, cls, kind, prop=None):
        self.name, self.node, self.module, self.cls, self.kind, self.prop = name, node, module, cls, kind, prop
        a = node.args
        self.params = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        self.qual = (module.name + "." + (cls.qualname + "." if cls else "") + name
                     + ("[set]" if prop == "set" else "[del]" if prop == "del" else ""))

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def short(self):
        return (self.cls.qualname + "." if self.cls else self.module.name.split(".")[-1] + ".") + self.name + (
            "=" if self.prop == "set" else "")

    def __repr__(self):
        return "<%s>" % self.qual


class ClassInfo(object):
    def __init__(self, name, node, module, outer=None):
        self.name, self.node, self.module, self.outer = name, node, module, outer
        self.qualname = (outer.qualname + "." if outer else "") + name
        self.methods = {}     # name -> FuncInfo (plain/class/static/both) or getter
        self.setters = {}     # name -> FuncInfo
        self.props = set()
        self.attrs = {}       # class-level assignments name -> expr
        self.inner = {}
        self.base_exprs = node.bases
        self.bases = []
        self.ext_bases = []
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] for b in self.bases] + [self.bases[:]]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken("inconsistent MRO for " + self.qualname)
                out.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def is_prop(self, name):
        for c in self.mro():
            if name in c.methods:
                return name in c.props
            if name in c.attrs:
                return False
        return False

    def class_attr(self, name):
        for c in self.mro():
            if name in c.methods:
                return None
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def has(self, name):
        return any(name in c.methods or name in c.attrs or name in c.setters or name in c.inner for c in self.mro())

    def issub(self, name):
        return any(c.qualname == name for c in self.mro())

    def __repr__(self):
        return "<class %s>" % self.qualname


class Module(object):
    def __init__(self, name, path, relpath, src):
        self.name, self.path, self.relpath, self.src = name, path, relpath, src
        self.tree = ast.parse(src, filename=path)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}


def decorators(node):
    out = []
    for d in node.decorator_list:
        if isinstance(d, ast.Name):
            out.append(d.id)
        elif isinstance(d, ast.Attribute):
            out.append(d.attr)
        else:
            out.append("?")
    return out


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken("no package directory " + base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.digest.update(rel.encode() + b"\0" + src.encode() + b"\0")
                self.modules[name] = Module(name, path, rel, src)
        self.classes = {}
        self.functions = []
        for m in self.modules.values():
            self._scan_body(m, m.tree.body, None)
        for c in list(self.classes.values()):
            for b in c.base_exprs:
                r = self.resolve_dotted(c.module, dotted(b))
                if isinstance(r, ClassInfo):
                    c.bases.append(r)
                else:
                    c.ext_bases.append(dotted(b) or "?")

    def digest_hex(self):
        return self.digest.hexdigest()[:16]

    def _scan_body(self, m, body, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, st, cls)
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(st.name, st, m, cls)
                if cls is None:
                    m.classes[st.name] = c
                else:
                    cls.inner[st.name] = c
                key = c.qualname
                if key in self.classes:
                    key = m.name.split(".")[-1] + "." + key
                    c.qualname = key
                self.classes[key] = c
                self._scan_body(m, st.body, c)
            elif isinstance(st, ast.Import) and cls is None:
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom) and cls is None:
                for a in st.names:
                    m.imports[a.asname or a.name] = (st.module or "") + "." + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if cls is None:
                            m.assigns[t.id] = st.value
                        else:
                            cls.attrs[t.id] = st.value
                            # property(...) style or alias of method
                            if isinstance(st.value, ast.Name) and st.value.id in cls.methods:
                                cls.methods[t.id] = cls.methods[st.value.id]
                                del cls.attrs[t.id]
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for sub in ("body", "orelse", "finalbody"):
                    self._scan_body(m, getattr(st, sub, []) or [], cls)
                for h in getattr(st, "handlers", []):
                    self._scan_body(m, h.body, cls)

    def _add_func(self, m, st, cls):
        decs = decorators(st)
        kind, prop = "method" if cls else "function", None
        if "classmethod" in decs:
            kind = "classmethod"
        elif "staticmethod" in decs:
            kind = "staticmethod"
        elif "bothmethod" in decs:
            kind = "bothmethod"
        elif "property" in decs:
            prop = "get"
        elif "setter" in decs:
            prop = "set"
        elif "deleter" in decs:
            prop = "del"
        f = FuncInfo(st.name, st, m, cls, kind, prop)
        self.functions.append(f)
        if cls is None:
            m.funcs.setdefault(st.name, f)
        elif prop == "set":
            cls.setters[st.name] = f
        elif prop == "del":
            pass
        else:
            cls.methods[st.name] = f
            cls.attrs.pop(st.name, None)
            if prop == "get":
                cls.props.add(st.name)
            else:
                cls.props.discard(st.name)

    def resolve_dotted(self, module, d):
        """resolve a dotted name as seen from `module` to Module/ClassInfo/FuncInfo, or an external dotted str, or None"""
        if not d:
            return None
        parts = d.split(".")
        if module is not None:
            h = parts[0]
            if h in module.classes:
                return self._walk(module.classes[h], parts[1:])
            if h in module.funcs:
                return self._walk(module.funcs[h], parts[1:])
            if h in module.imports:
                parts = module.imports[h].split(".") + parts[1:]
            elif h in module.assigns:
                if len(parts) == 1:
                    dd = dotted(module.assigns[h])
                    if dd and dd != d:
                        return self.resolve_dotted(module, dd)
                return None
            else:
                return None
        return self._abs(parts)

    def _abs(self, parts, depth=0):
        if parts[0] != PKG:
            return ".".join(parts)
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                if i == len(parts):
                    return m
                h = parts[i]
                if h in m.classes:
                    return self._walk(m.classes[h], parts[i + 1:])
                if h in m.funcs:
                    return self._walk(m.funcs[h], parts[i + 1:])
                if h in m.imports and depth < 8:
                    return self._abs(m.imports[h].split(".") + parts[i + 1:], depth + 1)
                if h in m.assigns:
                    dd = dotted(m.assigns[h])
                    if dd and depth < 8 and i + 1 == len(parts):
                        return self.resolve_dotted(m, dd)
                return None
        return None

    def _walk(self, obj, rest):
        for r in rest:
            if isinstance(obj, ClassInfo):
                if r in obj.inner:
                    obj = obj.inner[r]
                elif obj.find(r):
                    obj = obj.find(r)
                else:
                    return None
            else:
                return None
        return obj

    def cls(self, name):
        if name not in self.classes:
            raise AnalysisBroken("class %s not found" % name)
        return self.classes[name]

    def func(self, module, name):
        m = self.modules.get(module)
        if m is None or name not in m.funcs:
            raise AnalysisBroken("function %s.%s not found" % (module, name))
        return m.funcs[name]

    def method(self, clsname, name, setter=False):
        c = self.cls(clsname)
        f = c.find_setter(name) if setter else c.find(name)
        if f is None:
            raise AnalysisBroken("method %s.%s not found" % (clsname, name))
        return f

    def awkward_classes(self):
        """concrete array classes: subclasses of AwkwardArray"""
        return [c for c in self.classes.values() if c.issub("AwkwardArray")]


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        d = dotted(node.value)
        return d + "." + node.attr if d else None
    return None
