"""C04: what is persisted describes the whole object, and the reader reads what the writer wrote.

Writers (__awkward_serialize__ of every array class) are interpreted symbolically; the call they describe is resolved, its
arguments are bound to the signature and the described constructor is itself interpreted, so that every state field of the
object that would be rebuilt is known as a term over the written parts.  Readers (deserialize's and keys' tree walks) are
interpreted once per kind of schema node.
"""
import ast, fnmatch
from sa.engine import *
from sa.fields import Fields, array_classes, effective, selfname
from sa.model import AnalysisBroken, FuncInfo, ClassInfo, dotted
from sa.report import Report

RULE = ("symbolic composition of each writer with the constructor it names (every state field of the rebuilt object comes from the same "
        "field of the written one, or is a constant that a tested condition on that field implies), and per-node-kind comparison of "
        "the schema reader, the schema key walk and the schema writer")
ASSUMPTIONS = ("json, zipfile and numpy.frombuffer give back what was put in", "values of args/kwargs that are not arrays go through JSON or pickle")

OPW = {"_valid", "knowchunksizes", "_canuseoffset", "encode_call", "encode_json", "array", "counts", "issequential", "alias", "type2json",
       "offsetsaliased", "isvalid"}
OPC = {"_util_toarray", "_util_isinteger", "_util_isintegertype", "counts2offsets", "offsets2parents", "_valid"}
# runtime-only state: not part of the value
RUNTIME = {"_cache": "given by the reader (cache=)", "_array": "materialized again on demand", "_isvalid": "re-checked",
           "_base": "the table viewed; its columns, row start and row name are written themselves"}
CONTIGUOUS = {"_canuseoffset", "offsetsaliased"}


def call_of(t, name):
    return t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == name


def kwof(t):
    """keyword arguments and positional arguments of a call term"""
    pos, kw = [], {}
    for a in t.args[1:]:
        if a.op == "kw":
            kw[a.args[0]] = a.args[1]
        elif a.op in ("star", "dstar"):
            return None, None
        else:
            pos.append(a)
    return pos, kw


def node_items(t):
    """{key: value} of a dict display or dict(key=value) call"""
    if t.op == "dict" and all(x.op == "item" for x in t.args):
        return {cstr(x.args[0]): x.args[1] for x in t.args}
    if t.op == "call" and t.args[0] == T("name", "dict"):
        pos, kw = kwof(t)
        if pos == []:
            return kw
    if t.op.startswith("dict") and all(isinstance(x, Term) and x.op == "item" for x in t.args if isinstance(x, Term)):
        return {cstr(x.args[0]): x.args[1] for x in t.args if isinstance(x, Term)}
    return None


def strip(v):
    while v.op == "call" and v.args[0].op == "name" and v.args[0].args[0] in ("int", "bool", "str", "float", "list", "tuple") and len(v.args) == 2:
        v = v.args[1]
    return v


class Undecodable(Exception):
    pass


class Misshapen(Exception):
    """a node whose content has not the form its kind says"""
    def __init__(self, what):
        self.what = what


LOST = T("lost")        # something other than the parts of the collection named by the node


class Call(object):
    def __init__(self, spec, pos, kw):
        self.spec, self.pos, self.kw = spec, pos, kw


def seqitems(t):
    return list(t.args) if t.op in ("list", "tuple") else None


def decode(t, ser):
    """the value a schema-node term stands for (a Term, a Call, or a list of decoded)"""
    if t.op == "call" and t.args[0] is ser:
        return t.args[1]
    if call_of(t, "encode_json") and t.args[0].args[0] is ser:
        return json_value(t.args[1])
    if call_of(t, "encode_python") and t.args[0].args[0] is ser:
        return t.args[1]
    if call_of(t, "encode_call") and t.args[0].args[0] is ser:
        pos, kw = kwof(t)
        if pos is None or not pos:
            raise Undecodable(t)
        spec = seqitems(pos[0])
        if spec is None or any(cstr(x) is None for x in spec):
            raise Undecodable(t)
        return Call([cstr(x) for x in spec], [decode(x, ser) for x in pos[1:]], {k: decode(x, ser) for k, x in kw.items()})
    its = node_items(t)
    if its is not None:
        if set(its) == {"json"}:
            return json_value(its["json"])
        if len(its) == 1:
            (k, v), = its.items()
            if k in ("list", "tuple"):
                return decode_seq(v, ser)
            if k == "dict":
                return decode_map(v, ser, lambda el: (el.args[0], el.args[1]) if el.op == "item" else None)
            if k == "pairs":
                return decode_map(v, ser, lambda el: (el.args[0], el.args[1]) if el.op in ("list", "tuple") and len(el.args) == 2 else None)
    raise Undecodable(t)


def json_value(v):
    v = strip(v)
    if v.op == "comp" and v.args[0] == "list":
        el, it = strip(v.args[1]), v.args[2]
        if el.op == "elem":
            return el.args[0]
    return v


def decode_seq(v, ser):
    if v.op == "comp":
        if v.args[0] == "dict":
            raise Misshapen("it is a mapping")
        if v.args[2] in (T("tuple"), T("list")) or v.args[2].op == "call" and v.args[2].args[0].op == "name" and v.args[2].args[0].args[0] in ("tuple", "list") and len(v.args[2].args) == 1:
            return LOST
        el = decode(v.args[1], ser)
        if isinstance(el, Term) and el.op == "elem":
            return el.args[0]
        if isinstance(el, Term):
            # a part of each element (e.g. trimmed): the collection itself, seen through that part
            bases = [x.args[0] for x in el.walk() if x.op == "elem"]
            if bases:
                return T("part", el, bases[0]) if el.size < 60 else bases[0]
        raise Undecodable(v)
    its = seqitems(v)
    if its is not None:
        ds = [decode(x, ser) for x in its]
        if ds and all(isinstance(d, Term) and d.op == "sub" and d.args[1] is const(i) and d.args[0] is ds[0].args[0] for i, d in enumerate(ds)):
            return ds[0].args[0]
        if ds and all(isinstance(d, Term) and d.op == "sub" and is_const(d.args[1]) and d.args[0] is ds[0].args[0] for d in ds):
            return LOST
        if not ds:
            return LOST
        raise Undecodable(v)
    raise Undecodable(v)


def decode_map(v, ser, split):
    if v.op == "comp":
        p = split(v.args[1])
        if p is None:
            raise Misshapen("its entries are %s" % show(v.args[1])[:60])
        k, x = p[0], decode(p[1], ser)
        if k.op == "key":
            if isinstance(x, Term) and x.op == "val" and k.args[0] is x.args[0]:
                return k.args[0]
            return LOST
    raise Undecodable(v)


# ---------------------------------------------------------------- writers

class Writers(object):
    def __init__(self, prog, rep):
        self.prog, self.rep, self.F = prog, rep, Fields(prog)
        self.white = literal(prog.modules["awkward0.persist"].assigns.get("whitelist"))
        self.ctor = {}

    def resolve(self, spec):
        """[module, name, ...] -> (ClassInfo or None, FuncInfo or None)"""
        if spec[:2] == ["awkward0", "numpy"]:
            return None, None
        mod = self.prog.modules.get(spec[0])
        obj = None
        if mod is not None:
            obj = self.prog.resolve_dotted(mod, ".".join(spec[1:2]))
            if obj is None:
                obj = self.prog._abs(spec[:1] + spec[1:2]) if spec[0] == "awkward0" else None
        if isinstance(obj, ClassInfo):
            if len(spec) == 2:
                return obj, obj.find("__init__")
            return obj, obj.find(spec[2])
        return None, obj if isinstance(obj, FuncInfo) else None

    def allowed(self, spec):
        for w in self.white:
            if len(spec) >= len(w) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(spec, w)):
                return True
        return False

    def rebuilt(self, c, f):
        """outcomes of the constructor: list of ({(object, field): term}, facts, result)"""
        k = (c, f)
        if k not in self.ctor:
            eng = Engine(self.prog, opaque=OPC, keep_events=lambda e: e.kind == "setitem", max_returns=40)
            s = eng.summary(f, c)
            outs = []
            for o in s.returns:
                stores = [(e.extra, e.term) for e in s.events if e.kind == "setitem"]
                outs.append((dict(o.state.heap), o.state.facts, o.term, stores))
            self.ctor[k] = outs
        return self.ctor[k]

    def run(self, c):
        rep = self.rep
        f = c.find("__awkward_serialize__")
        where = "%s:%d" % (c.module.relpath, c.node.lineno)
        if f is None:
            rep.bad("no-writer", c.qualname, where, "%s has no __awkward_serialize__" % c.qualname)
            return
        at = "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short())
        rep.count("writers")
        ser = T("param", f.params[1]) if len(f.params) > 1 else None
        eng = Engine(self.prog, opaque=OPW, keep_events=lambda e: True, max_returns=60, mark_stores=True, scenario=nonempty)
        s = self.summ = eng.summary(f, c)
        if not s.returns:
            rep.bad("no-writer", c.qualname + "|return", at, "%s.__awkward_serialize__ never returns a description" % c.qualname)
        for o in s.returns:
            rep.count("written forms")
            w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
            t = o.term
            if t.op == "call" and t.args[0] is ser and t.args[1] in (T("attr", SELF, "array"),):
                self.materialized(c, o, w)
                continue
            try:
                d = decode(t, ser)
            except Undecodable as e:
                rep.count("written forms not read")
                continue
            except Misshapen as e:
                rep.bad("node-shape", c.qualname, w, "%s.__awkward_serialize__ writes a node whose content is not of its kind: %s" % (c.qualname, e.what))
                continue
            if not isinstance(d, Call):
                rep.bad("not-a-description", c.qualname, w, "%s.__awkward_serialize__ does not describe a call that rebuilds the array" % c.qualname)
                continue
            self.form(c, f, o, t, d, w, eng)

    def materialized(self, c, o, w):
        self.rep.ok("%s writes its materialized array" % c.qualname)

    def extra_kw(self, o, t, ser):
        """item assignments made to the description after it was built: (flags, {kw: decoded})"""
        marks = [m for m in o.state.marks if isinstance(m, Term) and m.op == "setitem"]
        flags, kws = {}, {}
        conts = {}
        for m in marks:
            conts.setdefault(m.args[0], {})[cstr(m.args[1])] = m.args[2]
        for cont, its in conts.items():
            if cont is t:
                flags.update(its)
        if "kwargs" in flags:
            for m in marks:
                if m.args[0] is not t and samedict(m.args[0], flags["kwargs"]):
                    kws[cstr(m.args[1])] = m.args[2]
            its = node_items(flags["kwargs"])
            for k, v in (its or {}).items():
                if k is not None:
                    kws.setdefault(k, v)
        return flags, kws

    def form(self, c, f, o, t, d, w, eng, outer=True, over=()):
        rep = self.rep
        ser = T("param", f.params[1])
        rc, rf = self.resolve(d.spec)
        name = ".".join(d.spec)
        key = "%s|%s" % (c.qualname, name)
        if rf is None:
            rep.bad("unresolved", key, w, "%s describes itself by %s, which does not exist" % (c.qualname, name))
            return
        rep.check(rc is c, "other-class", key, w, "%s describes itself as a call of %s: loading gives a %s" % (c.qualname, name, rc.qualname if rc else "?"))
        rep.check(self.allowed(d.spec), "not-whitelisted", key, w, "%s is not in the default whitelist, so a %s cannot be loaded with default options" % (name, c.qualname))
        a = rf.node.args
        params = [x.arg for x in a.args][1:] if rf.kind in ("method", "classmethod", "bothmethod") else [x.arg for x in a.args]
        flags, kws = self.extra_kw(o, t, ser) if outer else ({}, {})
        bound = {}
        for i, v in enumerate(d.pos):
            if i < len(params):
                bound[params[i]] = v
            elif a.vararg is None:
                rep.bad("arity", key, w, "%s takes %d arguments, %d are written" % (name, len(params), len(d.pos)))
        if a.vararg is not None:
            extra = d.pos[len(params):]
            if extra:
                bound["*" + a.vararg.arg] = extra
        for k, v in d.kw.items():
            bound[k] = v
        for k, v in kws.items():
            try:
                bound[k] = decode(v, ser)
            except Undecodable:
                bound[k] = v
        if flags.get("cacheable") is TRUE:
            bound["cache"] = T("param", "cache")
        for k in list(bound):
            if not k.startswith("*") and k not in params and a.kwarg is None and k not in [x.arg for x in a.kwonlyargs]:
                rep.bad("arity", key + "|" + k, w, "%s has no parameter %s" % (name, k))
        nd = len(a.defaults)
        need = params[:len(params) - nd] if nd else params
        for p in need:
            rep.check(p in bound, "argument-missing", key + "|" + p, w, "the description of %s by %s does not give %s" % (c.qualname, name, p))
        if "cache" in params and rc is c:
            rep.check("cache" in bound, "cache-not-given", key, w, "a %s read back is not given the reader's cache (\"cacheable\" is not written)" % c.qualname)
        for v in bound.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, Call) and x.spec[:2] != ["awkward0.persist", "json2type"]:
                    over = set(fl for heap, fs, res, ps in (self.rebuilt(rc, rf) if rc else ()) for (b, fl) in heap if b is res or rf.name == "__init__" and b is SELF)
                    self.form(c, f, o, t, x, w, eng, outer=False, over=over)
                elif isinstance(x, Call):
                    rep.check(self.allowed(x.spec), "not-whitelisted", "%s|%s" % (c.qualname, ".".join(x.spec)), w, "%s is not in the default whitelist" % ".".join(x.spec))
        self.fields(c, rc, rf, o, bound, name, key, w, over if outer is False else ())
        self.derived_forms(c, rf, o, bound, key, w)
        if outer:
            self.chunked(c, o, bound, self.summ, key, w)

    def chunked(self, c, o, bound, s, key, w):
        """chunks and their sizes are selected alike, and a chunk is cut to the size recorded for it"""
        rep = self.rep
        CH, SZ = T("attr", SELF, "_chunks"), T("attr", SELF, "_chunksizes")
        ech, esz = T("elem", CH), T("elem", SZ)
        ser = T("param", c.find("__awkward_serialize__").params[1])
        if "chunksizes" in bound:
            def conds(pred):
                out = []
                for e in s.events:
                    if e.kind == "call" and pred(e.term):
                        out.append(frozenset((k, v) for k, v in factitems(e.facts) if esz in set(k.walk()) or ech in set(k.walk())))
                return out
            a = conds(lambda t: t.args[0] is ser and len(t.args) > 1 and ech in set(t.args[1].walk()))
            b = conds(lambda t: t.args[0].op == "name" and t.args[0].args[0] in ("int",) and t.args[1] is esz)
            if a and b:
                rep.check(set(a) == set(b), "chunk-selection", key, w, "chunks and chunk sizes are not written under the same condition, so they no longer correspond")
        elif "chunks" in bound and "_chunksizes" in self.F.of(c):
            def uncut(facts):
                return any(k.op == "cmp" and k.args[0] in ("<", "==", "<=") and esz in set(k.walk()) and any(
                    x.op == "call" and x.args[0] is T("name", "len") and x.args[1] is ech for x in k.walk())
                    and v is (False if k.args[0] == "<" and k.args[1] is esz else True) for k, v in factitems(facts))
            adds = [e for e in s.events if e.kind in ("call", "mutcall") and e.term.op == "call" and e.term.args[0].op == "attr" and e.term.args[0].args[1] in ("append", "insert")
                    and len(e.term.args) > 1 and e.term.args[-1] is ech]
            if not adds:
                adds = [e for e in s.events if e.kind == "call" and e.term.args[0] is ser and len(e.term.args) > 1 and e.term.args[1] is ech]
            for e in adds:
                rep.check(uncut(e.facts), "chunk-not-cut", key, w, "a chunk that is only partly filled is written whole, so that elements appear that were never appended")

    def fields(self, c, rc, rf, o, bound, name, key, w, over=()):
        """every state field of the rebuilt object comes from the same field of the written one"""
        rep = self.rep
        if rc is None:
            return
        derived = self.F.derived(c)
        judged = set()
        for heap, facts, result, puts in self.rebuilt(rc, rf):
            if rf.name == "__init__":
                root = SELF
            else:
                root = result
            reach = reachable(heap, root)
            for (b, fld), v in sorted(heap.items(), key=lambda kv: (repr(kv[0][0]), kv[0][1])):
                if b not in reach or not fld.startswith("_") or (b is root and fld in over):
                    continue
                if b is root and derived.get(fld) or fld in RUNTIME:
                    continue
                if b is not root and fld not in ("_starts", "_stops", "_content"):
                    continue
                ps = [p.args[0].lstrip("*") for p in roots(v) if p.op == "param" and p.args[0] not in ("self", "cls", rf.params[0] if rf.params else "")]
                ps = [p for p in ps]
                for (extra, term) in puts:
                    pass
                if v.op.startswith("dict") and not ps:
                    for (extra, term) in puts:
                        for x in list(extra or ()) + [term]:
                            ps += [p.args[0].lstrip("*") for p in roots(x) if p.op == "param"] if isinstance(x, Term) else []
                ok, why = self.accounted(c, rc, rf, b, root, fld, v, ps, bound, o)
                kk = key + "|" + fld
                if (kk, ok) in judged:
                    continue
                judged.add((kk, ok))
                rep.count("field obligations")
                rep.check(ok, "field-lost", kk, w, "%s is written as %s, %s" % (c.qualname, name, why))

    def accounted(self, c, rc, rf, b, root, fld, v, ps, bound, o):
        self.facts = o.state.facts
        names = {fld, fld.lstrip("_")}
        srcs = []
        missing = []
        for p in ps:
            if p in bound:
                srcs.append((p, bound[p]))
            elif "*" + p in bound:
                srcs.append((p, bound["*" + p]))
            else:
                missing.append(p)
        for p, s in srcs:
            if self.mentions(c, s, names, fld):
                return True, ""
        if implied(o.state.facts, names, v, missing, rf, domain_of(c, fld)):
            return True, ""
        if srcs and all(s is LOST for p, s in srcs):
            return False, "which writes something else than the %s of the array" % fld
        if v.op == "new":
            return True, ""       # its own fields are judged
        if any(isinstance(s, Call) and self.mentions(c, s, names, fld) for s in bound.values()):
            return True, ""       # given by the description nested in this one
        if any(isinstance(s, Call) for p, s in srcs):
            return True, ""       # rebuilt by the nested description, judged by itself
        if not ps and self.alwaysconst(rc, fld):
            return True, ""
        if ps and not missing and self.functionof(rc, fld):
            return True, ""
        if srcs and not direct(v, set(p for p, s in srcs)) and self.condreads(o, c, names):
            return True, ""
        if srcs:
            return False, "whose %s comes from %s, written from %s, not from the array's own %s" % (fld, srcs[0][0], show(srcs[0][1])[:80] if isinstance(srcs[0][1], Term) else "?", fld)
        return False, "which sets %s to its default whatever the array's own %s is" % (fld, fld)

    def functionof(self, rc, fld):
        """every constructor computes the field from a parameter that another field holds as it is"""
        found = False
        for heap, facts, result, puts in self.rebuilt(rc, rc.find("__init__")):
            v = heap.get((SELF, fld))
            if v is None:
                continue
            ps = set(p.args[0] for p in roots(v) if p.op == "param" and p is not SELF)
            found = found or bool(ps)
            for p in ps:
                if not any(b is SELF and f2 != fld and x is T("param", p) for (b, f2), x in heap.items()):
                    return False
        return found

    def getter_values(self, c, fld):
        if not c.is_prop(fld.lstrip("_")):
            return ()
        k = (c, fld, "get")
        if k not in self.ctor:
            s = Engine(self.prog, opaque=OPW, keep_events=lambda e: False, max_returns=40).summary(c.find(fld.lstrip("_")), c)
            self.ctor[k] = [o.term for o in s.returns]
        return self.ctor[k]

    def mentions(self, c, s, names, fld):
        if isinstance(s, Term) and s.op == "list0":
            return True
        if isinstance(s, Term) and any(x is s for x in self.getter_values(c, fld)):
            # what the public property answers where the field itself is unset
            if any(k.op == "cmp" and k.args[0] == "is" and NONE in k.args[1:] and T("attr", SELF, fld) in k.args[1:] and v is True for k, v in factitems(self.facts)):
                return True
        if isinstance(s, list):
            return any(self.mentions(c, x, names, fld) for x in s)
        if isinstance(s, Call):
            return any(self.mentions(c, x, names, fld) for x in list(s.pos) + list(s.kw.values()))
        for t in outermost(s):
            if t.op == "attr":
                if t.args[1] in names:
                    return True
                g = c.find(t.args[1])
                if g is not None and t.args[0] is SELF and t.args[1] in c_props(c):
                    if names & self.F.reads(g, c) or names & attrs_read(g):
                        return True
                    if t.args[1] in ("counts", "offsets") and names & {"_starts", "_stops"}:
                        return True
        return False

    def alwaysconst(self, rc, fld):
        """no code of the class ever puts anything else there than one constant"""
        vals = set()
        for g in effective(rc):
            if g.prop is not None or g.name in ("copy", "deepcopy"):
                continue
            for n in ast.walk(g.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == fld and isinstance(x.ctx, ast.Store):
                                v = n.value
                                simple = x is t and (isinstance(v, ast.Constant) or dotted(v) and dotted(v).split(".")[0] not in params_of(g)
                                                     or isinstance(v, ast.Dict) and not v.keys)
                                vals.add(ast.dump(v) if simple else n)
        return len(vals) <= 1 and not any(isinstance(v, ast.AST) for v in vals)

    def condreads(self, o, c, names):
        """the form was chosen by a test that reads the field"""
        for k, v in factitems(o.state.facts):
            for t in k.walk():
                if t.op == "attr" and t.args[0] is SELF:
                    if t.args[1] in names:
                        return True
                    g = c.find(t.args[1])
                    if g is not None and names & self.F.reads(g, c):
                        return True
        return False

    def derived_forms(self, c, rf, o, bound, key, w):
        """forms that leave structure out need the condition under which it can be computed again"""
        rep = self.rep
        facts = list(factitems(o.state.facts))

        def fact(pred, truth):
            return any(pred(k) and v is truth for k, v in facts)
        if rf.name == "fromcounts":
            ok = fact(lambda k: k.op == "call" and k.args[0].op == "attr" and k.args[0].args[1] in CONTIGUOUS, True)
            rep.check(ok, "compact-form", key + "|contiguous", w, "%s is written by its counts alone without having tested that its lists lie one after the other" % c.qualname)
            con = bound.get("content")
            cs = [x for x in con.walk() if x.op == "slice"] if isinstance(con, Term) else []
            start = lambda x: x.op == "sub" and x.args[1] is const(0) and x.args[0].op == "attr" and x.args[0].args[1] in ("starts", "_starts", "offsets", "_offsets")
            ok = any(start(x.args[0]) for x in cs) or fact(lambda k: k.op == "cmp" and k.args[0] == "==" and const(0) in k.args[1:] and any(start(x) for x in k.args[1:]), True)
            rep.check(ok, "compact-form", key + "|origin", w, "%s is written by its counts, but its content is neither cut at the first start nor tested to start at 0" % c.qualname)
        elif rf.name == "fromtags":
            ok = fact(lambda k: k.op == "attr" and k.args[1] == "issequential", True)
            rep.check(ok, "compact-form", key + "|sequential", w, "%s is written without its index although it was not tested to be sequential" % c.qualname)


def params_of(g):
    return set(x.arg for x in ast.walk(g.node) if isinstance(x, ast.arg)) | set(x.id for x in ast.walk(g.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))


def c_props(c):
    out = set()
    for k in c.mro():
        out |= set(k.props)
    return out


def attrs_read(g):
    return set(n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)) | set("_" + n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute))


def outermost(s):
    """attribute terms of a source, not counting those that only delimit a slice or select within it"""
    out, stack = [], [s]
    while stack:
        t = stack.pop()
        if t.op == "attr":
            out.append(t)
            # self._content.starts: the part named last is what is written
            b = t.args[0]
            if b.op != "attr":
                stack.append(b)
        elif t.op == "sub":
            stack.append(t.args[0])
        elif t.op == "part":
            out.extend(x for x in t.args[0].walk() if x.op == "attr")
        elif t.op == "call":
            stack.extend(x for x in t.args[1:] if x.op not in ("star", "dstar"))
            if t.args[0].op == "attr":
                stack.append(t.args[0].args[0])
        else:
            stack.extend(t.kids())
    return out


def direct(v, ps):
    """the field holds the parameter itself, converted but not computed with"""
    while True:
        if v.op == "param":
            return v.args[0] in ps
        if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] in ("_util_toarray", "astype", "view", "reshape"):
            v = v.args[1] if v.args[0].args[1] == "_util_toarray" else v.args[0].args[0]
        elif v.op == "call" and v.args[0].op == "name" and v.args[0].args[0] in ("int", "bool", "str", "tuple", "list", "dict", "numpy.dtype") and len(v.args) == 2:
            v = v.args[1]
        elif v.op == "comp":
            v = v.args[1]
        elif v.op == "elem":
            v = v.args[0]
        else:
            return False


def factitems(facts):
    return facts.items() if hasattr(facts, "items") else facts


def implied(facts, names, v, missing, rf, domain=()):
    """the constant (or default) the field gets is what a tested condition says the written field is"""
    val = v
    if missing:
        val = default_of(rf, missing[0])
        if val is None:
            return False
    if not (is_const(val)):
        return False
    isfield = lambda t: t.op == "attr" and t.args[0] is SELF and t.args[1] in names
    for k, tr in factitems(facts):
        if k.op == "cmp" and k.args[0] in ("is", "==") and val in k.args[1:] and any(isfield(x) for x in k.args[1:]) and tr is True:
            return True
        if isfield(k) and ((val is TRUE and tr is True) or (val in (FALSE, NONE, const(0)) and tr is False)):
            return True
    if val is NONE and domain:
        no = set()
        for k, tr in factitems(facts):
            if k.op == "call" and k.args[0] is T("name", "isinstance") and isfield(k.args[1]) and tr is False:
                no |= set(show(x).split(".")[-1] for x in (k.args[2].args if k.args[2].op == "tuple" else (k.args[2],)))
        return domain <= no
    return False


def domain_of(c, fld):
    """the kinds of value the class itself tells apart in a field"""
    out = set()
    for g in effective(c):
        s = selfname(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and dotted(n.func) == "isinstance" and len(n.args) == 2 and dotted(n.args[0]) == "%s.%s" % (s, fld):
                for x in (n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]):
                    out.add((dotted(x) or "?").split(".")[-1])
    return out


def default_of(rf, p):
    a = rf.node.args
    names = [x.arg for x in a.args]
    if p in names:
        i = names.index(p) - (len(names) - len(a.defaults))
        if i >= 0 and isinstance(a.defaults[i], ast.Constant):
            return const(a.defaults[i].value) if a.defaults[i].value is not None else NONE
    return None


def reachable(heap, root):
    out, stack = set(), [root]
    while stack:
        b = stack.pop()
        if b in out:
            continue
        out.add(b)
        for (x, _), v in heap.items():
            if x is b:
                stack.extend(t for t in v.walk() if t.op == "new")
    return out


def nonempty(t, st):
    """a dict that was given an item is true"""
    full = lambda d: d.op == "dict0" and any(isinstance(x, Term) and x.op == "item" for x in d.args)
    if full(t):
        return True
    if t.op == "cmp" and t.args[0] == "<" and t.args[1] is const(0) and t.args[2].op == "call" and t.args[2].args[0] is T("name", "len") and full(t.args[2].args[1]):
        return True
    return None


def samedict(a, b):
    """two values of one dict variable at different times (items are added in between)"""
    if a is b:
        return True

    def base(t):
        return t.op + (t.args[0] if t.args and isinstance(t.args[0], str) else "") if t.op.startswith("dict") else None
    return base(a) is not None and base(a) == base(b)


def literal(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return []


# ---------------------------------------------------------------- readers

def nested_reader(prog, fname, tests=("call", "read")):
    """the recursive walk over schema nodes used by persist.<fname>: a function of one node that tests it for the given keys"""
    m = prog.modules["awkward0.persist"]
    f = prog.func("awkward0.persist", fname)
    called = set((dotted(n.func) or "").split(".")[-1] for n in ast.walk(f.node) if isinstance(n, ast.Call))
    cands = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]
    cands += [m.funcs[x].node for x in called if x in m.funcs and x != fname]
    best = None
    for n in cands:
        consts = set(x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        rec = any(isinstance(x, ast.Call) and dotted(x.func) == n.name for x in ast.walk(n))
        if rec and set(tests) <= consts:
            if best is None or len(list(ast.walk(n))) < len(list(ast.walk(best))):
                best = n
    if best is None:
        raise AnalysisBroken("no recursive walk over schema nodes in persist.%s" % fname)
    for g in prog.functions:
        if g.node is best:
            return g
    return FuncInfo(best.name, best, m, None, "function")


KINDS = {"call": {"call", "args", "kwargs", "cacheable", "whitelistable", "id"}, "read": {"read", "id"}, "list": {"list", "id"}, "tuple": {"tuple", "id"},
         "dict": {"dict", "id"}, "pairs": {"pairs", "id"}, "dtype": {"dtype"}, "function": {"function", "id"}, "json": {"json", "id"},
         "python": {"python", "id"}, "ref": {"ref"}}


def node_summary(prog, f, have, flags=None):
    P = T("param", f.params[0])

    def sc(t, st):
        if t.op == "cmp" and t.args[0] == "in" and t.args[2] is P and is_const(t.args[1]):
            return const_value(t.args[1]) in have
        if t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is P:
            return any(x is T("name", "dict") for x in t.args[2].walk())
        if t.op == "call" and t.args[0] is T("name", "isinstance"):
            return True
        if t.op == "cmp" and t.args[0] == "<" and t.args[1] is const(0) and t.args[2].op == "call" and t.args[2].args[0] is T("name", "len"):
            return True
        b, key = part(t)
        if b is P and key in ("cacheable", "whitelistable", "absolute"):
            return (flags or {}).get(key, False)
        return None
    eng = Engine(prog, opaque={"spec2function", "json2dtype", "obj", "topython", "json2type"}, keep_events=lambda e: True, max_returns=40, scenario=sc, mark_stores=True, ordered=True)
    return P, eng.summary(f, None)


def part(t):
    """(container, key) of x[key] or x.get(key, ...)"""
    if t.op == "sub":
        return t.args[0], cstr(t.args[1])
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "get" and len(t.args) > 1:
        return t.args[0].args[0], cstr(t.args[1])
    return None, None


def parts(t, P):
    return set(part(x)[1] for x in t.walk() if part(x)[0] is P)


def isrec(t, f):
    return t.op == "call" and ((t.args[0].op in ("name", "closure", "opaque") and str(t.args[0].args[0]).split(".")[-1] == f.name)
                               or f.name == show(t.args[0]).split(".")[-1]) and len(t.args) > 1


def children(t, f, P):
    """{(node part, "elem"|"val"|"second")} that the walk f is applied to inside t"""
    out = set()
    for x in t.walk():
        if isrec(x, f):
            a = x.args[1]
            if a.op in ("elem", "val"):
                b, k = part(a.args[0])
                if b is P:
                    out.add((k, a.op))
            elif a.op == "sub" and a.args[0].op == "elem" and a.args[1] is const(1):
                b, k = part(a.args[0].args[0])
                if b is P:
                    out.add((k, "second"))
    return out


DESCENT = {"call": {("args", "elem"), ("kwargs", "val")}, "list": {("list", "elem")}, "tuple": {("tuple", "elem")}, "dict": {("dict", "val")}, "pairs": {("pairs", "second")}}


def shape(t, kind, P, f):
    """does the reader give back what a node of this kind stands for"""
    K = const(kind)
    src = T("sub", P, K)
    if kind in ("list", "tuple"):
        if kind == "tuple":
            if not (t.op == "call" and t.args[0] is T("name", "tuple")) and not (t.op == "comp" and t.args[0] == "tuple"):
                return False
            t = t.args[1] if t.op == "call" else t
        elif t.op == "call" and t.args[0] is T("name", "list") and len(t.args) == 2:
            t = t.args[1]
        elif t.op != "list0" and not (t.op == "comp" and t.args[0] == "list"):
            return False
        if t.op == "list0":
            return True           # nothing was added to it
        return t.op == "comp" and isrec(t.args[1], f) and t.args[1].args[1] is T("elem", src) and any(x is src or x.op == "opaque" for x in t.args[2:])
    if kind == "dict":
        if t.op == "call" and t.args[0] is T("name", "dict") and len(t.args) == 2:
            t = t.args[1]
        if t.op == "dict0" and all(x.op == "item" for x in t.args if isinstance(x, Term)):
            its = [x for x in t.args if isinstance(x, Term)]
            return all(x.args[0] is T("key", src) and isrec(x.args[1], f) and x.args[1].args[1] is T("val", src) for x in its)
        if t.op != "comp":
            return False
        el = t.args[1]
        return el.op in ("item", "tuple") and el.args[0] is T("key", src) and isrec(el.args[1], f) and el.args[1].args[1] is T("val", src)
    if kind == "pairs":
        if t.op == "call" and t.args[0] is T("name", "list") and len(t.args) == 2:
            t = t.args[1]
        if t.op == "list0":
            return True
        if t.op != "comp":
            return False
        el = t.args[1]
        return el.op in ("tuple", "list") and len(el.args) == 2 and el.args[0] is T("sub", T("elem", src), const(0)) and isrec(el.args[1], f) \
            and el.args[1].args[1] is T("sub", T("elem", src), const(1))
    if kind == "json":
        return t is src
    if kind == "dtype":
        return t.op == "call" and show(t.args[0]).endswith("json2dtype") and t.args[1] is src
    if kind == "function":
        return t.op == "call" and show(t.args[0]).endswith("spec2function") and t.args[1] is src
    if kind == "python":
        return t.op == "call" and t.args[-1] is src and t.contains(lambda x: x is const("topython") or show(x).endswith("topython"))
    if kind == "ref":
        return t.op == "call" and show(t.args[0]).split(".")[-1] == "obj" and t.args[1] is src
    if kind == "read":
        if t.op != "sub":
            return False
        return t.args[1].op == "bin" and t.args[1].args[0] == "+" and t.args[1].args[2] is src
    if kind == "call":
        if not (t.op == "call" and t.args[0].op == "call" and show(t.args[0].args[0]).endswith("spec2function") and t.args[0].args[1] is src):
            return False
        return {("args", "elem"), ("kwargs", "val")} <= children(t, f, P)
    return True


def lineof(f, node=None):
    return "%s:%d (%s)" % (f.module.relpath, getattr(node, "lineno", f.node.lineno), f.name)


def readers(prog, rep):
    U = nested_reader(prog, "deserialize")
    K = nested_reader(prog, "keys", tests=("read", "list"))
    prefixterm = {}
    for kind, have in sorted(KINDS.items()):
        rep.count("node kinds")
        P, s = node_summary(prog, U, have)
        outs = [o for o in s.returns]
        if not outs:
            rep.bad("unread-node", kind, lineof(U), "the reader refuses schema nodes of kind %r, which the writers produce" % kind)
            continue
        for o in outs:
            w = lineof(U, o.node)
            rep.check(shape(o.term, kind, P, U), "node-misread", kind, w, "a schema node of kind %r is read as %s" % (kind, show(o.term)[:140]))
            if "id" in have:
                ok = any(isinstance(m, Term) and m.op == "setitem" and m.args[1] is o.term and part(m.args[2])[1] == "id" for m in o.state.marks)
                rep.check(ok, "id-not-kept", kind, w, "an object read from a %r node is not remembered under its \"id\", so later references to it fail" % kind)
            if kind == "read" and o.term.op == "sub" and o.term.args[1].op == "bin":
                prefixterm["read"] = o.term.args[1].args[1]
        # the key walk goes wherever the reader goes
        P2, s2 = node_summary(prog, K, have)
        ys = [y[0] if isinstance(y, tuple) else y for y in s2.yields]
        got = set()
        for y in ys:
            got |= children(y, K, P2)
        want = DESCENT.get(kind, set())
        rep.check(want <= got, "keys-incomplete", kind, lineof(K), "keys() does not go into the parts of %r nodes that the reader reads: %s" % (kind, sorted(want - got)))
        if kind == "read":
            ok = any(y.op == "bin" and y.args[0] == "+" and y.args[2] is T("sub", P2, const("read")) for y in ys)
            rep.check(ok, "keys-incomplete", "read", lineof(K), "keys() does not list prefix + name for data the reader reads")
    # flags
    for flag, kwname in (("cacheable", "cache"), ("whitelistable", "whitelist")):
        P, s = node_summary(prog, U, KINDS["call"], {flag: True})
        for o in s.returns:
            ok = any(isinstance(m, Term) and m.op == "setitem" and cstr(m.args[1]) == kwname for m in o.state.marks) or any(
                x.op == "item" and cstr(x.args[0]) == kwname for x in o.term.walk())
            rep.check(ok, "flag-ignored", flag, lineof(U, o.node), "calls marked %r are not given the reader's %s" % (flag, kwname))
    return U, K


# ---------------------------------------------------------------- kinds written anywhere

def written_kinds(prog, rep):
    """string keys of node displays built in serializers and writers: every kind must be one the reader knows"""
    m = prog.modules["awkward0.persist"]
    ser = prog.cls("Serializer")
    fs = []
    for c in prog.classes.values():
        if c.issub("Serializer"):
            fs += list(c.methods.values())
        elif "__awkward_serialize__" in c.methods:
            fs.append(c.methods["__awkward_serialize__"])
    known = set()
    for v in KINDS.values():
        known |= v
    n = 0
    for f in fs:
        if f.name in ("store", "load", "_finalize_schema", "fill", "parse", "_parse_compression", "__init__"):
            continue
        for x in ast.walk(f.node):
            ks = []
            if isinstance(x, ast.Dict):
                ks = [k.value for k in x.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)]
            elif isinstance(x, ast.Call) and dotted(x.func) == "dict":
                ks = [k.arg for k in x.keywords if k.arg]
            for k in ks:
                n += 1
                rep.check(k in known, "unknown-kind", "%s|%s" % (f.short(), k), "%s:%d (%s)" % (f.module.relpath, x.lineno, f.short()),
                          "%s writes a schema node with key %r, which the reader does not know" % (f.short(), k))
    rep.count("node displays", n)


# ---------------------------------------------------------------- storage keys, prefix and schema envelope

def evaluate(prog, f, c, opaque=(), sc=None, mr=60):
    eng = Engine(prog, opaque=set(opaque), keep_events=lambda e: True, max_returns=mr, mark_stores=True, scenario=sc, ordered=True)
    return eng.summary(f, c)


def plus(t):
    """flatten a + b + c"""
    if t.op == "bin" and t.args[0] == "+":
        return plus(t.args[1]) + plus(t.args[2])
    return [t]


def storage_keys(prog, rep):
    for c in sorted((c for c in prog.classes.values() if c.issub("Serializer")), key=lambda c: c.qualname):
        for f in sorted(c.methods.values(), key=lambda f: f.name):
            s = None
            if not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "storage" for n in ast.walk(f.node)):
                continue
            s = evaluate(prog, f, c, opaque={"nextid", "_finalize_schema", "_encode_schema"})
            if f.name == "store":
                continue
            for o in s.returns:
                rep.count("stored buffers")
                w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
                its = node_items(o.term)
                rd = its.get("read") if its else None
                ok = False
                if rd is not None:
                    for m in o.state.marks:
                        if isinstance(m, Term) and m.op == "setitem" and m.args[0] is T("attr", SELF, "storage"):
                            ok = ok or plus(m.args[1]) == [T("attr", SELF, "prefix")] + plus(rd)
                rep.check(ok, "storage-key", f.short(), w, "%s does not store the data under prefix + the name it writes into the schema" % f.short())
                data = [m.args[2] for m in o.state.marks if isinstance(m, Term) and m.op == "setitem" and m.args[0] is T("attr", SELF, "storage")]
                a = T("param", f.params[1])
                rep.check(any(a in d.walk() for d in data), "storage-key", f.short() + "|data", w, "%s does not store the data it was given" % f.short())
                if rd is not None:
                    seen = [x for x in rd.walk() if x.op == "sub" and x.args[0] is T("attr", SELF, "seen")]
                    rep.check(bool(seen), "storage-key", f.short() + "|unique", w, "the stored name is not made from the object's own number, so buffers overwrite each other")
    # store: name + schemasuffix, prefix written when there is one
    c = prog.cls("Serializer")
    f = c.find("store")
    s = evaluate(prog, f, c, opaque={"__call__", "_finalize_schema", "_encode_schema"})
    name = T("param", f.params[1])
    for o in s.returns:
        rep.count("envelopes")
        w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
        st = [m for m in o.state.marks if isinstance(m, Term) and m.op == "setitem"]
        keyed = [m for m in st if m.args[0] is T("attr", SELF, "storage")]
        rep.check(any(plus(m.args[1]) == [name, T("attr", SELF, "schemasuffix")] for m in keyed), "envelope", "name", w, "the schema is not stored under name + schemasuffix")
        empty = any(k.op == "cmp" and k.args[0] == "==" and T("attr", SELF, "prefix") in k.args[1:] and const("") in k.args[1:] and v is True or
                    k is T("attr", SELF, "prefix") and v is False for k, v in factitems(o.state.facts))
        has = any(cstr(m.args[1]) == "prefix" and m.args[2] is T("attr", SELF, "prefix") for m in st) or o.term.contains(
            lambda x: x.op == "item" and cstr(x.args[0]) == "prefix" and x.args[1] is T("attr", SELF, "prefix"))
        rep.check(empty or has, "envelope", "prefix", w, "the prefix under which the data are stored is not written into the schema")
        body = [x for x in o.term.walk() if x.op == "item" and cstr(x.args[0]) in ("awkward0", "awkward")]
        sch = [x for x in o.term.walk() if x.op == "item" and cstr(x.args[0]) == "schema"]
        if not o.term.op.startswith("call"):
            rep.check(bool(body) and bool(sch), "envelope", "marker", w, "the stored schema has no version marker or no description")
    # readers of the envelope
    for fn in ("deserialize", "keys"):
        f = prog.func("awkward0.persist", fn)
        pre = [n for n in ast.walk(f.node) if isinstance(n, ast.Constant) and n.value == "prefix"]
        sch = [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == "schema"]
        rep.check(bool(pre), "envelope", fn + "|prefix", lineof(f), "%s does not use the prefix written into the schema" % fn)
        rep.check(bool(sch), "envelope", fn + "|schema", lineof(f), "%s does not read the description written into the schema" % fn)


def mapping_names(prog, rep):
    """load() and hdf5 find a schema under the same name serialize stored it"""
    for cn in ("Load", "hdf5"):
        c = prog.classes.get(cn)
        if c is None:
            continue
        f = c.find("__getitem__")
        s = evaluate(prog, f, c, opaque={"deserialize"})
        where = T("param", f.params[1])
        for o in s.returns:
            rep.count("mapping reads")
            w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
            calls = [t for t in o.term.walk() if t.op == "call" and show(t.args[0]).endswith("deserialize")]
            ok = False
            for t in calls:
                pos, kw = kwof(t)
                if pos is None:
                    continue
                nm = kw.get("name") or (pos[1] if len(pos) > 1 else None)
                if nm is not None:
                    p = plus(nm)
                    ok = ok or (len(p) == 2 and p[0] is where and (p[1].contains(lambda x: x is const("schemasuffix")) or (p[1].op == "attr" and p[1].args[1] == "schemasuffix")))
                for opt in ("whitelist", "cache"):
                    rep.check(opt in kw or len(pos) > 3, "option-dropped", "%s|%s" % (cn, opt), w, "%s.__getitem__ does not pass its %s option on" % (cn, opt))
            rep.check(ok, "schema-name", cn, w, "%s.__getitem__ does not look the schema up under name + schemasuffix" % cn)
        # names listed by iteration are the ones that can be looked up
        it = c.find("__iter__")
        consts = [n for n in ast.walk(it.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and ("json" in n.value or n.value.startswith("."))]
        rep.check(not consts, "schema-name", cn + "|iter", lineof(it), "%s.__iter__ recognises schemas by a fixed suffix instead of the suffix in use" % cn)
        ln = c.find("__len__")
        consts = [n for n in ast.walk(ln.node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and ("json" in n.value or n.value.startswith("."))]
        rep.check(not consts, "schema-name", cn + "|len", lineof(ln), "%s.__len__ recognises schemas by a fixed suffix instead of the suffix in use" % cn)


# ---------------------------------------------------------------- numbers and types

def described(dt):
    """the item dtype inside serializer(dtype) / serializer(numpy.dtype((dtype, shape)))"""
    if dt.op == "call" and dt.args[0] is SELF and len(dt.args) > 1:
        dt = dt.args[1]
    elif dt.op == "call" and dt.args[0].op == "attr" and dt.args[0].args[0] is SELF and len(dt.args) > 1:
        dt = dt.args[1]
    if dt.op == "call" and show(dt.args[0]).split(".")[-1] == "dtype" and len(dt.args) == 2:
        dt = dt.args[1]
        if dt.op == "tuple" and len(dt.args) == 2:
            dt = dt.args[0]
    return dt


def numpy_buffers(prog, rep):
    """the description (dtype, length) next to a stored buffer is that of the data stored"""
    c = prog.cls("BlobSerializer")
    f = c.find("_encode_numpy")
    ser = SELF
    s = evaluate(prog, f, c, opaque={"_put_raw", "test", "dtype2json", "json2dtype", "encode_call", "encode_python", "_parse_compression", "__call__"})
    obj = T("param", f.params[1])
    n = 0
    for o in s.returns:
        w = "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), f.short())
        t = o.term
        if call_of(t, "encode_python"):
            rep.check(t.args[1] is obj, "buffer", "python", w, "another object is pickled than the one given")
            continue
        if not call_of(t, "encode_call"):
            rep.count("buffer forms not read")
            continue
        pos, kw = kwof(t)
        spec = [cstr(x) for x in (seqitems(pos[0]) or [])]
        if spec[-1:] == ["MaskedArray"]:
            rep.check(len(pos) >= 3 and T("name", "numpy.ma.getmaskarray") in set(pos[1].walk()) and T("name", "numpy.ma.getdata") in set(pos[2].walk())
                      or any("getmask" in show(pos[1]) or ".mask" in show(pos[1]) for _ in (0,)), "buffer", "masked", w, "a Numpy masked array is not written as mask and data")
            continue
        if spec[-1:] != ["frombuffer"] or len(pos) < 4:
            rep.count("buffer forms not read")
            continue
        n += 1
        rep.count("buffer forms")
        ok = any(v is False and k.contains(lambda x: x.op == "attr" and x.args[1] in ("hasobject", "kind", "char")) or v is False and k.contains(lambda x: x is const("O"))
                 or v is True and k.contains(lambda x: x.op == "attr" and x.args[1] in ("isbuiltin", "kind")) for k, v in factitems(o.state.facts))
        rep.check(ok, "buffer", "objects", w, "an array of Python objects is stored as if it were numbers (its buffer holds addresses)")
        puts = [x for x in list(o.state.marks) + [t] if isinstance(x, Term) for x in x.walk() if call_of(x, "_put_raw")]
        raw = [x for x in pos[1].walk() if call_of(x, "_put_raw")]
        data = [x.args[1] for x in raw if len(x.args) > 1]
        rep.check(bool(data), "buffer", "data", w, "the buffer described is not the one stored")
        dt = pos[2]
        for d in data:
            conv = [x for x in d.walk() if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "astype"]
            if conv:
                ok = conv[0].args[1] is described(dt)
                rep.check(ok, "buffer", "dtype", w, "the data are converted to %s but described as %s" % (show(conv[0].args[1])[:60], show(dt)[:60]))
            else:
                def same(k, v):
                    if k.op != "cmp" or k.args[0] != "==" or v is not True:
                        return False
                    a, b = k.args[1:]
                    return {True} == {x is T("attr", obj, "dtype") or x is described(dt) for x in (a, b)}
                ok = described(dt) is T("attr", obj, "dtype") or any(same(k, v) for k, v in factitems(o.state.facts))
                rep.check(ok, "buffer", "dtype", w, "the data are stored as they are but described by another dtype")
            flat = d.contains(lambda x: x.op == "attr" and x.args[1] in ("ravel", "tobytes", "tostring", "reshape")) or "ascontiguous" in show(d)
            rep.check(flat, "buffer", "contiguous", w, "the stored data are not laid out contiguously")
            rep.check(obj in set(d.walk()), "buffer", "source", w, "another array is stored than the one given")
        many = [k for k, v in factitems(o.state.facts) if T("attr", obj, "ndim") in set(k.walk()) and v is True and k.op == "cmp" and k.args[0] == "<" and k.args[1] is const(1)]
        if many:
            rep.check(T("sub", T("attr", obj, "shape"), T("slice", const(1), NONE, NONE)) in set(dt.walk()), "buffer", "shape", w, "the inner shape of a multidimensional array is not written")
        cnt = pos[3]
        rep.check(T("sub", T("attr", obj, "shape"), const(0)) in set(cnt.walk()) or any(x.op == "call" and x.args[0] is T("name", "len") and x.args[1] is obj for x in cnt.walk()),
                  "buffer", "count", w, "the number of items written is not the array's length")
        # compression: the decompressor named belongs to the compressor applied
        for r in raw:
            encs = [x for x in r.args[1].walk() if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "enc"]
            decs = [x for x in pos[1].walk() if x.op == "attr" and x.args[1] == "dec"]
            rep.check((not encs and not decs) or (encs and decs and all(d.args[0] is encs[0].args[0].args[0] for d in decs)), "buffer", "compression", w,
                      "the data are compressed by one policy and described as decompressed by another")
    rep.floor("buffer forms", 2)
    # encoder/decoder pairs written as constants
    m = prog.modules["awkward0.persist"]
    white = literal(m.assigns.get("whitelist"))
    for x in ast.walk(m.tree):
        pairs = []
        if isinstance(x, ast.Tuple) and len(x.elts) == 2 and dotted(x.elts[0]) and isinstance(x.elts[1], ast.Tuple):
            pairs = [(x.elts[0], x.elts[1])]
        elif isinstance(x, ast.Dict):
            pairs = [(k, v) for k, v in zip(x.keys, x.values) if k is not None and dotted(k) and isinstance(v, ast.Tuple)]
        for e, d in pairs:
            dec = literal(d)
            enc = (dotted(e) or "").split(".")
            if enc[-1] != "compress" or not dec:
                continue
            rep.count("codec pairs")
            rep.check(list(dec[:-1]) == enc[:-1] and dec[-1] == "decompress", "codec", ".".join(enc), "%s:%d" % (m.relpath, x.lineno), "%s is undone by %s" % (".".join(enc), ".".join(dec)))
            rep.check(any(len(dec) >= len(wh) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(dec, wh)) for wh in white), "codec", ".".join(dec) + "|whitelist",
                      "%s:%d" % (m.relpath, x.lineno), "%s is not in the default whitelist, so compressed data cannot be read" % ".".join(dec))


TYPEKEYS = {"ArrayType": ({"takes", "to"}, {"_takes": "takes", "_to": "to"}), "TableType": ({"fields"}, {"_fields": "fields"}),
            "UnionType": ({"possibilities"}, {"_possibilities": "possibilities"}), "OptionType": ({"type"}, {"_type": "type"})}


def types(prog, rep):
    W = nested_reader(prog, "type2json", tests=("takes", "fields"))
    R = nested_reader(prog, "json2type", tests=("takes", "fields"))
    P = T("param", W.params[0])
    for cn, (keys, flds) in sorted(TYPEKEYS.items()):
        rep.count("type classes")
        c = prog.cls(cn)

        def sc(t, st):
            if t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is P:
                names = [x.args[0] for x in t.args[2].walk() if x.op in ("name", "class")]
                ans = [k for k in names if c.issub(str(k).split(".")[-1])]
                return bool(ans)
            if t.op == "cmp" and t.args[0] == "in" and any(x is P or (x.op == "call" and P in x.args) for x in t.args[1:2]):
                return False          # met for the first time
            return None
        s = evaluate(prog, W, None, opaque={"takes", "dtype2json", "_labeled"}, sc=sc)
        forms = 0
        for o in s.returns:
            w = lineof(W, o.node)
            its = node_items(o.term)
            if its is None:
                rep.count("type forms not read")
                continue
            if set(its) == {"set", "as"}:
                its = node_items(its["as"])
                if its is None:
                    continue
            if set(its) == {"ref"}:
                continue
            forms += 1
            rep.check(set(its) == keys, "type-keys", cn, w, "%s is written with keys %s; the reader recognises it by %s" % (cn, sorted(map(str, its)), sorted(keys)))
            for fld, k in flds.items():
                v = its.get(k)
                rep.check(v is not None and v.contains(lambda x: x.op == "attr" and x.args[0] is P and x.args[1] in (fld, fld[1:])), "type-part", "%s|%s" % (cn, fld), w,
                          "the %s of a %s is not written under %r" % (fld, cn, k))
                if v is not None and fld != "_takes":
                    rep.check(v.contains(lambda x: isrec(x, W)), "type-part", "%s|%s|rec" % (cn, fld), w, "the parts of a %s are not themselves written as types" % cn)
        rep.check(forms > 0, "type-keys", cn + "|none", lineof(W), "%s is not written" % cn)
        # reading
        Q = T("param", R.params[0])

        def sc2(t, st):
            if t.op == "cmp" and t.args[0] == "in" and t.args[2] is Q and is_const(t.args[1]):
                return const_value(t.args[1]) in keys
            if t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is Q:
                return True
            return None
        eng = Engine(prog, opaque={"takes", "json2dtype", "spec2function"}, keep_events=lambda e: True, max_returns=40, scenario=sc2, mark_stores=True, inline_ctor=False)
        s = eng.summary(R, None)
        for o in s.returns:
            w = lineof(R, o.node)
            t = o.term
            built = [x for x in t.walk() if x.op in ("call", "new") and any(show(a).split(".")[-1].split("(")[0] == cn for a in x.args if isinstance(a, Term))]
            cls = set(n for n in TYPEKEYS for x in t.walk() if x.op in ("name", "class") and str(x.args[0]).split(".")[-1] == n)
            got = cls or set(n for n in TYPEKEYS if n in show(t))
            rep.check(got == {cn}, "type-class", cn, w, "a type written as %s is read back as %s" % (cn, sorted(got)))
            used = parts(t, Q)
            for e in s.events:
                if e.kind in ("setitem", "loop", "call"):
                    used |= parts(e.term, Q)
            rep.check(keys <= used, "type-part", cn + "|read", w, "reading a %s leaves out %s" % (cn, sorted(keys - used)))
        rep.check(bool(s.returns), "type-class", cn + "|none", lineof(R), "%s cannot be read back" % cn)


# ---------------------------------------------------------------- state pairs

def state_pairs(prog, rep):
    for c in sorted(prog.classes.values(), key=lambda c: c.qualname):
        for wn, rn in (("__getstate__", "__setstate__"), ("tojson", "fromjson")):
            f, g = c.methods.get(wn), c.methods.get(rn)
            if f is None:
                continue
            at = "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short())
            if g is None:
                if all(isinstance(n, ast.Raise) for n in f.node.body[-1:]):
                    continue
                if wn == "tojson":
                    rep.bad("state-pair", "%s.%s" % (c.qualname, wn), at, "%s has %s but no %s" % (c.qualname, wn, rn))
                continue
            rep.count("state pairs")
            s = evaluate(prog, f, c)
            wk = set()
            for o in s.returns:
                its = node_items(o.term)
                if its is None and o.term.op.startswith("dict"):
                    its = {cstr(x.args[0]): x.args[1] for x in o.term.args if isinstance(x, Term) and x.op == "item"}
                for k in (its or {}):
                    if k:
                        wk.add(k)
            st = g.params[-1]
            rk = set()
            for n in ast.walk(g.node):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == st and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    rk.add(n.slice.value)
            if wk or rk:
                rep.check(rk <= wk, "state-pair", "%s.%s|read" % (c.qualname, rn), at, "%s.%s reads %s, which %s does not write" % (c.qualname, rn, sorted(rk - wk), wn))
                rep.check(wk <= rk or any(isinstance(n, ast.Attribute) and n.attr in ("update", "items") for n in ast.walk(g.node)) or any(
                    isinstance(n, ast.keyword) and n.arg is None for n in ast.walk(g.node)), "state-pair", "%s.%s|write" % (c.qualname, wn), at,
                    "%s.%s writes %s, which %s does not read" % (c.qualname, wn, sorted(wk - rk), rn))
            if wn == "__getstate__":
                s2 = evaluate(prog, g, c)
                for o in s.returns:
                    its = node_items(o.term) or {}
                    for k, v in its.items():
                        if v.op == "attr" and v.args[0] is SELF:
                            for o2 in s2.returns:
                                w2 = o2.state.heap.get((SELF, v.args[1]))
                                rep.check(w2 is not None and cstr(part(w2)[1] and const(part(w2)[1]) or NONE) == k, "state-pair", "%s.%s|%s" % (c.qualname, rn, v.args[1]), at,
                                          "%s.%s does not set %s back from the %r that %s wrote" % (c.qualname, rn, v.args[1], k, wn))
            elif c.find("__init__"):
                # fromjson: the constructor's parameter named by each key gets that key's value
                s2 = Engine(prog, keep_events=lambda e: True, max_returns=20, opaque={"_init"}).summary(g, c)
                for o in s.returns:
                    its = node_items(o.term) or {}
                    for k, v in its.items():
                        if v.op == "attr" and v.args[0] is SELF:
                            for o2 in s2.returns:
                                ws = [x for (b, fl), x in o2.state.heap.items() if b is o2.term and fl == v.args[1]]
                                if ws:
                                    rep.check(part(ws[0])[1] == k, "state-pair", "%s.%s|%s" % (c.qualname, rn, v.args[1]), at,
                                              "%s.%s does not set %s back from the %r that %s wrote" % (c.qualname, rn, v.args[1], k, wn))


def run(prog):
    rep = Report("C04", RULE)
    W = Writers(prog, rep)
    for c in array_classes(prog):
        W.run(c)
    readers(prog, rep)
    written_kinds(prog, rep)
    storage_keys(prog, rep)
    mapping_names(prog, rep)
    numpy_buffers(prog, rep)
    types(prog, rep)
    state_pairs(prog, rep)
    rep.floor("writers", 12)
    rep.floor("node kinds", 11)
    rep.floor("type classes", 4)
    return rep
