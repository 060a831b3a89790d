"""C01: no non-mutating operation writes into storage the caller supplied or into the source array's buffers.

Interprocedural may-alias + effect analysis.  For every public entry point (per concrete class, dispatch resolved through
the MRO) every in-place effect -- subscript store/delete, augmented assignment, mutating container method, `out=`,
numpy.put/copyto/..., attribute store on an argument -- reached from it is expressed in terms of the entry's own
parameters; an effect whose target may share storage with a parameter or with a field of `self` is a violation.
"""
from sa import engine
from sa.engine import *
from sa.alias import alias, ident, path
from sa.report import Report

RULE = ("interprocedural alias/effect analysis: for every public operation, no in-place write whose target may share storage with a "
        "caller-supplied argument or a buffer of the source array; fresh-copy functions, view functions and lazily filled "
        "bookkeeping are tabulated")

OPAQUE = {"type", "dtype", "shape", "layout", "_gettype", "_util_toarray", "_util_isstringslice", "_util_isinteger",
          "_util_isintegertype", "__str__", "__repr__", "_checkiter", "_checktonumpy"}

# operations whose documented purpose is to change their receiver
MUTATOR_OPS = {"__init__", "__setitem__", "__delitem__", "__setattr__", "__setstate__", "__del__", "append", "extend", "__new__",
               "materialize"}
# self fields that are lazily filled bookkeeping or external stores, not array data
LAZY_FIELDS = {
    ("ChunkedArray", "_chunksizes"): "lengths of chunks are discovered lazily; the list is copied from the caller's in the setter",
    ("ChunkedArray", "_types"): "chunk types are discovered lazily",
    ("VirtualArray", "_cache"): "the cache mapping exists to be written by materialization",
}
# parameters that exist to be written (output parameters)
OUT_PARAMS = {
    ("serialize", "storage"): "the container the caller asks to be filled",
    ("deserialize", "seen"): "accumulator of references, filled by the reader",
    ("save", "file"): "the file the caller asks to be written",
    ("toparquet", "where"): "the file the caller asks to be written",
}
NP_INPLACE = {"put", "place", "copyto", "putmask", "fill_diagonal", "put_along_axis"}
MODULES = ("awkward0.generate", "awkward0.persist", "awkward0.arrow", "awkward0.pandas", "awkward0.util")
ASSUMPTIONS = ("numpy/pyarrow functions have their documented copy/view behaviour (tables in sa/alias.py)",
               "methods called on values of statically unknown class are assumed not to write into their receiver unless named in the mutator table",
               "recursion and summaries beyond the outcome cap are cut (values become unknown and are not reported)")


def scalar_guarded(t, facts):
    """a fact on every path says t is an integer / string / other immutable"""
    for f, v in facts:
        if not v or f.op != "call":
            continue
        fn, args = f.args[0], f.args[1:]
        nm = fn.args[1] if fn.op == "attr" else fn.args[0] if fn.op == "name" else ""
        if t not in args:
            continue
        if "isinteger" in str(nm):
            return True
        if nm == "isinstance" and len(args) == 2 and args[0] is t:
            cs = args[1].args if args[1].op == "tuple" else (args[1],)
            names = [str(c.args[0]) if c.args else "?" for c in cs]
            if names and all(n.split(".")[-1] in ("Integral", "integer", "int", "str", "bytes", "float", "Number", "Real", "string",
                                                  "bool", "slice", "floating", "bool_", "long", "numeric") for n in names):
                return True
    return False


def alias_under(t, facts):
    """alias() sharpened by what every path to the effect has established"""
    notsame, isdict = False, False
    for f, v in facts:
        if not v and f.op == "cmp" and f.args[0] == "is" and t in f.args[1:]:
            notsame = True
        if v and f.op == "call" and f.args[0] is T("name", "isinstance") and f.args[1] is t and f.args[2] is T("name", "dict"):
            isdict = True
    out = frozenset()
    for x in (t.args if t.op == "phi" else (t,)):
        if notsame and (x.op == "attr" or ident(x) or (x.op == "call" and x.args[0] is T("name", "numpy.array"))):
            continue      # the object was compared with the one it could have been, and is a different one
        if isdict and array_like(x):
            continue      # an array cannot be a dict
        out |= alias_under(x, facts) if x is not t else alias(x)
    return out


def array_like(x):
    if x.op == "param":
        return x.args[0] in ("self", "cls_or_self")
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("_tojagged", "tojagged", "compact", "reshape"):
        return True
    return x.op == "sub" and x.args[1].op == "slice"


def effect_targets(ev):
    """-> list of (target term, how)"""
    if ev.kind == "setitem":
        return [(ev.term, "item assignment")]
    if ev.kind == "delitem":
        return [(ev.term, "item deletion")]
    if ev.kind == "iadd":
        return [(ev.term, "augmented assignment")]
    if ev.kind == "mutcall":
        return [(ev.term, "call of .%s()" % ev.extra[0])]
    if ev.kind == "setattr":
        return [(ev.term, "assignment of attribute .%s" % ev.extra[0])]
    if ev.kind == "delattr":
        return [(ev.term, "deletion of attribute .%s" % ev.extra[0])]
    if ev.kind == "call":
        f, pos, kws = ev.extra
        pos = pos.args if pos.op == "tuple" else ()
        out = []
        for a in kws.args if kws.op == "tuple" else ():
            if a.op == "kw" and a.args[0] == "out":
                out.append((a.args[1], "out= of a numpy call"))
        if f.op == "name" and f.args[0].startswith("numpy."):
            last = f.args[0].split(".")[-1]
            if (last in NP_INPLACE or (last == "at" and len(f.args[0].split(".")) >= 3) or last == "shuffle") and pos:
                out.append((pos[0], "numpy.%s" % last))
        if f.op == "attr" and f.args[1] == "at" and len(pos) > 1:
            out.append((pos[0], "ufunc.at"))
        return out
    return []


def first_field(t):
    """(field) if the access path is self.<field>..., else None"""
    p = path(t)
    if p.startswith("self."):
        return p[5:].split(".")[0].split("[")[0]
    return None


def run(prog):
    rep = Report("C01", RULE)
    engine.MERGE = "types"
    eng = Engine(prog, opaque=OPAQUE, keep_events=keep)
    entries = []
    for c in prog.awkward_classes():
        done = set()
        for k in c.mro():
            if k.name == "NDArrayOperatorsMixin":
                continue
            for f in list(k.methods.values()) + list(k.setters.values()):
                key = (f.name, f.prop)
                if key in done:
                    continue
                done.add(key)
                entries.append((f, c))
    extra = [c for c in prog.classes.values() if c.module.name in MODULES or c.qualname in ("Table.Row", "Methods", "StringMethods")]
    for c in extra:
        for f in list(c.methods.values()) + list(c.setters.values()):
            entries.append((f, c))
    for mn in MODULES:
        m = prog.modules.get(mn)
        if m is None:
            raise AnalysisBroken("module %s missing" % mn)
        for f in m.funcs.values():
            entries.append((f, None))
    arrays = set(prog.awkward_classes())
    for f, c in entries:
        public = not f.name.startswith("_") or (f.name.startswith("__") and f.name.endswith("__"))
        if not public:
            continue
        rep.count("entry points")
        s = eng.summary(f, c)
        mut = f.name in MUTATOR_OPS or f.prop == "set" or (c is not None and c not in arrays and c.qualname not in ("Table.Row",))
        entry = (c.qualname + "." if c else f.module.name.split(".")[-1] + ".") + f.name + ("=" if f.prop == "set" else "")
        bad = False
        for ev in s.events:
            for tgt, how in effect_targets(ev):
                rep.count("in-place effects examined")
                if ev.kind == "iadd" and scalar_guarded(tgt, ev.facts):
                    continue
                if ev.kind in ("setattr", "delattr"):
                    if ev.extra[0] in DERIVED:
                        continue
                    parts = tgt.args if tgt.op == "phi" else (tgt,)
                    al = ident(tgt)
                    if ev.extra[0] == "shape" and not all(ident(x) for x in parts):
                        continue      # reshaping in place: only when the object is certainly the caller's
                else:
                    al = alias_under(tgt, ev.facts)
                for p in sorted(al, key=repr):
                    name = p.args[0].lstrip("*")
                    if p.args[0].startswith("**") and ev.kind in ("setitem", "mutcall", "delitem") and tgt is p:
                        continue        # the **kwargs dict itself is always fresh
                    if name.startswith("lambda:") or name.startswith("closure:"):
                        continue
                    if name in ("cls", "isclassmethod"):
                        continue
                    if p is SELF or name == "cls_or_self":
                        if mut:
                            fld = first_field(tgt)
                            continue
                        if ev.kind == "setattr" and tgt is SELF:
                            if is_state_field(c, ev.extra[0]):
                                bad = True
                                rep.bad("self-rebound", "%s|%s" % (entry, ev.extra[0]), ev.where,
                                        "%s rebinds the state field %s of its receiver" % (entry, ev.extra[0]), via(ev))
                            continue
                        if tgt is SELF and ev.kind in ("setitem", "delitem"):
                            pass
                        fld = first_field(tgt)
                        if c is not None and fld is not None and any((k.qualname, fld) in LAZY_FIELDS for k in c.mro()):
                            continue
                    elif f.kind == "function" and (f.name, name) in OUT_PARAMS:
                        continue
                    bad = True
                    rep.bad("in-place", "%s|%s" % (entry, path(tgt)), ev.where,
                            "%s modifies %s in place (%s), which may share storage with %s" % (
                                entry, show(tgt)[:90], how,
                                "its receiver's data" if (p is SELF or name == "cls_or_self") else "argument '%s'" % name), via(ev))
        if not bad:
            rep.ok(entry if f.node.lineno % 9 == 0 else None)
    rep.count("functions interpreted", len(eng.memo))
    rep.count("calls evaluated", eng.ncalls)
    rep.floor("entry points", 700)
    rep.floor("in-place effects examined", 300)
    return rep


DERIVED = {"_offsets", "_counts", "_parents", "_isvalid", "_inverse", "_types", "_dtype", "_chunksizes", "_array", "_canuseoffset_cache"}
# primary state: what the constructor stores from its parameters
_state = {}


def is_state_field(c, name):
    if c is None:
        return False
    if c not in _state:
        fields = set()
        for k in c.mro():
            init = k.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    fields.add(n.attr if n.attr.startswith("_") else "_" + n.attr)
        _state[c] = fields - DERIVED
    return name in _state[c]


def via(ev):
    return ["%s:%d %s" % (g.module.relpath, getattr(n, "lineno", 0), g.short()) for g, n in ev.via]


def keep(e):
    if e.kind == "call":
        return any(any(r.op == "param" for r in roots(t)) for t, _ in effect_targets(e))
    if e.kind not in ("setitem", "iadd", "mutcall", "setattr", "delitem", "delattr"):
        return False
    return any(r.op == "param" for r in roots(e.term))
