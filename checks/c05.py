"""C05: copy() and deepcopy() give complete, independent objects of the receiver's class.

For every array class the abstract interpreter runs copy() and deepcopy() under the hypotheses "no override given" and "only
override p given" and reads off, on every returning path, the symbolic value of every state field of the returned object.
"""
import ast
from sa.engine import *
from sa.fields import Fields, array_classes, effective, selfname
from sa.report import Report
from sa.model import dotted

RULE = ("field-completeness, provenance and sharing of the object returned by copy/deepcopy on every path, per array class and per "
        "override: every state field is set, holds the receiver's (or the override's, converted as the property's setter converts "
        "it), containers the object mutates are not shared, and a deep copy shares no array")
ASSUMPTIONS = ("_util_deepcopy and numpy's copy return fresh storage", "fields are those assigned through self in the package")
OPAQUE = {"_util_toarray", "_util_deepcopy", "_util_isinteger", "_util_isintegertype", "_isoffsets"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse", "__setitem__", "__delitem__"}
FRESH = {"list", "dict", "set", "tuple", "OrderedDict", "collections.OrderedDict"}


def scenario(given):
    def sc(t, st):
        if t.op == "cmp" and t.args[0] in ("is", "==") and NONE in t.args[1:]:
            o = [x for x in t.args[1:] if x is not NONE]
            if o and o[0].op == "param" and o[0] is not SELF:
                return o[0].args[0] not in given
        return None
    return sc


def params(f):
    a = f.node.args
    return [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]


def closure(heap, v, depth=0):
    """value and the field values of freshly built objects inside it"""
    out = [v]
    if depth < 4:
        for x in v.walk():
            if x.op == "new":
                for (b, _), w in heap.items():
                    if b is x and w is not v:
                        out.extend(closure(heap, w, depth + 1))
    return out


def mentions(heap, v, pred):
    return any(x.contains(pred) for x in closure(heap, v))


def isfrom(field):
    names = {field, field.lstrip("_")}

    def p(t):
        if t.op == "attr" and t.args[1] in names and SELF in roots(t):
            return True
        return t.op == "mix" and SELF in t.args[0]
    return p


def fromparam(name):
    P = T("param", name)
    return lambda t: t is P or (t.op == "mix" and P in t.args[0])


def mutated_containers(c, fields):
    """fields whose container object is changed in place by code running on objects of class c -> a site"""
    out, elems = {}, {}
    for f in effective(c):
        s = selfname(f)
        if not s:
            continue

        def fld(n):
            return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s and n.attr in fields else None
        for n in ast.walk(f.node):
            at = "%s:%d" % (f.module.relpath, getattr(n, "lineno", 0))
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if fld(n.value):
                    out.setdefault(fld(n.value), (f, at))
                elif isinstance(n.value, ast.Subscript) and fld(n.value.value):
                    elems.setdefault(fld(n.value.value), (f, at))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and fld(n.func.value):
                out.setdefault(fld(n.func.value), (f, at))
    plain, grown = set(), set()
    for f in effective(c):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.BinOp, ast.Call)):
                v = n.value.left if isinstance(n.value, ast.BinOp) else n.value
                if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] not in ("list", "dict", "set", "OrderedDict"):
                    continue
                if isinstance(v, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
                    plain.update(t.attr for t in n.targets if isinstance(t, ast.Attribute))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert") and isinstance(n.func.value, ast.Attribute) and n.args \
                    and isinstance(n.args[-1], ast.Call) and (dotted(n.args[-1].func) or "").split(".")[-1] in ("empty", "zeros", "ones", "full"):
                grown.add(n.func.value.attr)
    # containers proper (not arrays, whose column assignment is documented to reach shared content), and buffers the class itself allocates and fills
    return {k: v for k, v in out.items() if k in plain}, {k: v for k, v in elems.items() if k in grown}


def arrayfields(c, F):
    """fields holding arrays or collections of them: laid out, converted by _util_toarray when assigned, or derived arrays"""
    out = set(F.arrays(c)) & set(F.of(c))
    for f in effective(c):
        s = selfname(f)
        if not s:
            continue
        conv = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                if any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "_util_toarray" for x in ast.walk(n.value)):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            conv.add(t.id)
                        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s and t.attr in F.of(c):
                            out.add(t.attr)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in conv:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s and t.attr in F.of(c):
                        out.add(t.attr)
    for f in effective(c):      # explicitly deep-copied by the class itself or by a sibling's rule
        if f.name == "deepcopy":
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in ("_util_deepcopy", "deepcopy") for x in ast.walk(n.value)):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr in F.of(c):
                            out.add(t.attr)
    return out


def detached(heap, v, seen=None, facts=()):
    """v shares no array storage with the receiver"""
    seen = set() if seen is None else seen
    if v in seen:
        return True
    seen.add(v)
    if is_const(v) or SELF not in roots(v) and v.op != "new":
        if v.op == "list0":
            return True
        return True
    if v.op == "phi":
        return all(detached(heap, x, seen, facts) for x in v.args)
    if v.op == "new":
        return all(detached(heap, w, seen, facts) for (b, f), w in heap.items() if b is v and f not in NOTARRAYS)
    if v.op == "call":
        f = v.args[0]
        n = f.args[1] if f.op == "attr" else f.args[0] if f.op == "name" else ""
        if n in ("_util_deepcopy", "deepcopy"):
            return True
        if n == "copy" and (f.op == "attr" and (f.args[0].op in ("attr", "sub", "call"))):
            return True
        if n in FRESH or n == "items":
            return all(detached(heap, x, seen, facts) for x in v.args[1:])
        if n in ("array",) and not any(x.op == "kw" and x.args[0] == "copy" for x in v.args):
            return True
        if n in ("zeros_like", "ones_like", "empty_like", "zeros", "ones", "empty", "full", "arange", "len", "int"):
            return True
        return False
    if v.op == "comp":
        return detached(heap, v.args[1], seen, facts)
    if v.op == "item":
        return detached(heap, v.args[-1], seen, facts)
    if v.op in ("tuple", "list", "set", "dict", "list0", "dict0"):
        return all(detached(heap, x, seen, facts) for x in v.kids())
    if v.op == "mix":
        return T("name", "_util_deepcopy") in v.args[0] or True      # too large to tell: judged by the store that built it
    return False


NOTARRAYS = set()


def run(prog):
    rep = Report("C05", RULE)
    F = Fields(prog)
    for c in array_classes(prog):
        fields = F.of(c)
        derived = F.derived(c)
        der = set(d for d, s in derived.items() if s and (c.qualname, d) not in F.perelement)
        af = arrayfields(c, F)
        cont, elems = mutated_containers(c, set(fields))
        flags = set(x for x in fields if x not in af)
        NOTARRAYS.clear()
        for k in array_classes(prog):
            NOTARRAYS.update(set(F.of(k)) - arrayfields(k, F) - set(d for d, s in F.derived(k).items() if s))
        NOTARRAYS.add("_isvalid")
        for name in ("copy", "deepcopy"):
            f = c.find(name)
            if f is None:
                rep.bad("missing", "%s.%s" % (c.qualname, name), c.qualname, "array class without %s()" % name)
                continue
            rep.count("methods")
            for given in [()] + [(p,) for p in params(f)]:
                eng = Engine(prog, opaque=OPAQUE, scenario=scenario(given), max_returns=60)
                s = eng.summary(f, c)
                label = "%s.%s(%s)" % (c.qualname, name, ",".join(given))
                where = "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short())
                rep.count("paths", len(s.returns))
                if not s.returns:
                    rep.notes.append("%s has no returning path" % label)
                    continue
                for o in s.returns:
                    heap, r = o.state.heap, o.term
                    if r is SELF:
                        rep.bad("not-a-copy", label, where, "%s returns the receiver itself" % label)
                        continue
                    if r.op != "new":
                        rep.count("opaque results")
                        rep.notes.append("%s: result %s not followed" % (label, show(r)[:80]))
                        continue
                    kind = r.args[1] if len(r.args) > 1 else None
                    ok = kind is not None and (SELF in roots(kind) or show(kind) in ("classof(self)",))
                    rep.check(ok, "class", label, where, "%s builds %s, not an object of the receiver's class" % (label, show(r)[:60]))
                    bulk = heap.get((r, "__dict__")) is SELF
                    for x in fields:
                        key = "%s|%s" % (label, x)
                        v = heap.get((r, x))
                        if v is None:
                            if bulk:
                                heap = dict(heap)
                                v = heap[(r, x)] = T("attr", SELF, x)
                        if v is None:
                            if (x in der and derived.get(x) is not None and c.class_attr(x)):
                                continue
                            rep.bad("unset", key, where, "%s leaves %s unset on the copy: using it raises AttributeError or falls through to __getattr__" % (label, x))
                            continue
                        if unfilled(v, others(s, x)):
                            continue        # the loop that fills it ran zero times on this path: judged on the others
                        given_here = [p for p in given if "_" + p == x]
                        touched = given and (mentions(heap, v, fromparam(given[0])))
                        if given_here:
                            rep.check(bool(touched), "override-ignored", key, where, "%s does not put the %s it was given into %s (%s)" % (label, given[0], x, show(v)[:80]))
                        elif given and not touched and x not in der and not mentions(heap, v, isfrom(x)) and setter_writes(c, given[0], x):
                            rep.ok()
                        elif not touched:
                            good = mentions(heap, v, isfrom(x)) or (x in der or x == "_isvalid") and (is_const(v) or isreset(v))
                            good = good or (v is NONE and any(isnone(fa, x) for fa in o.state.facts))
                            good = good or (name == "deepcopy" and v is NONE and deep_resets(c, x))
                            good = good or (isreset(v) and reset_ok(c, x))
                            good = good or (given and v.op == "list0")       # recomputed for the chunks that were given
                            good = good or (not derived.get(x) and reset_ok(c, x) and (isreset(v) or SELF in roots(v)))     # filled on demand by the class's own code
                            good = good or (x in der and any(y.op == "call" and isfrom_field(y.args[0], derived[x]) for y in v.walk()))   # made again by the receiver's own callable
                            rep.check(good, "provenance", key, where, "%s gives %s the value %s, which is not the receiver's" % (label, x, show(v)[:80]))
                        # containers changed in place must be the copy's own
                        if x in cont:
                            rep.check(v is not T("attr", SELF, x) and not (v.op == "param"), "shared-container", key, where,
                                      "%s shares the container %s (%s), which %s changes in place" % (label, x, show(v)[:60], cont[x][0].short()))
                        if name == "deepcopy" and (x in af or x in der) and x not in NOTARRAYS and not touched:
                            rep.check(detached(heap, v) or any(notarray(fa, x) for fa in o.state.facts), "shared-storage", key, where, "%s shares the storage of %s with the receiver (%s)" % (label, x, show(v)[:80]))
                    # an override is converted as the property's setter converts it
                    st = c.find_setter(given[0]) if given else None
                    v = heap.get((r, "_" + given[0])) if given else None
                    if st is not None and v is not None:
                        need = conversions(prog, st, c, given[0])
                        missing = sorted(need - called(v)) if v is not T("param", given[0]) else sorted(need) or converts(prog, st, c, given[0])
                        if not unfilled(v, others(s, "_" + given[0])) and not any(y.op == "mix" for y in v.walk()):
                            rep.check(not missing, "unconverted", label, where,
                                      "%s stores the %s it was given as it is, although assigning the property converts it" % (label, given[0]))
                if given and any(o.term.op == "new" for o in s.returns) and not any(mentions(o.state.heap, v, fromparam(given[0])) for o in s.returns for k, v in o.state.heap.items() if k[0] is o.term):
                    rep.bad("override-ignored", label, where, "%s leaves no trace of the %s it was given" % (label, given[0]))
        for x, (g, at) in sorted(elems.items()):
            f = c.find("copy")
            rep.count("growing buffers")
            ok = detaches_elements(prog, c, f, x)
            rep.check(ok, "shared-buffer", "%s.copy|%s" % (c.qualname, x), "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short()),
                      "%s writes into the arrays held by %s, but copy() hands the same arrays to the copy" % (g.short(), x))
    rep.floor("methods", 16)
    return rep


def unfilled(v, alts):
    """v is, or is made from, a fresh container that other paths fill"""
    empty = set(y.args[0] for y in v.walk() if y.op in ("list0", "dict0") and not y.kids())
    if not empty:
        return False
    if v.op == "list0" and any(w is not v and w.op == "comp" for w in alts):
        return True
    return any(y.op in ("list0", "dict0", "comp") and y.kids() and (y.args[0] in empty or any(e in str(y.args) for e in empty)) for w in alts for y in w.walk())


def others(s, x):
    return [o.state.heap[(o.term, x)] for o in s.returns if (o.term, x) in o.state.heap]


def detaches_elements(prog, c, f, x):
    """somewhere in copy() an element of field x of the new object is replaced by a deep copy"""
    eng = Engine(prog, opaque=OPAQUE, scenario=scenario(()), max_returns=60)
    s = eng.summary(f, c)
    for ev in s.events:
        if ev.kind in ("setitem", "mutcall") or ev.kind == "setattr":
            if any(y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in ("_util_deepcopy", "copy", "deepcopy") for t in [ev.term] + [z for z in (ev.extra or ()) if isinstance(z, Term)] for y in t.walk()):
                return True
    for o in s.returns:
        v = o.state.heap.get((o.term, x))
        if v is not None and any(y.op == "call" and y.args[0].op == "attr" and y.args[0].args[1] in ("_util_deepcopy", "deepcopy") for y in v.walk()):
            return True
    return False


def isnone(fact, x):
    t, pol = fact if isinstance(fact, tuple) else (fact, True)
    return pol and isinstance(t, Term) and t.op == "cmp" and t.args[0] == "is" and NONE in t.args[1:] and any(y.op == "attr" and y.args[1] == x for y in t.args[1:])


def notarray(fact, x):
    """the path established that field x holds no array"""
    t, pol = fact if isinstance(fact, tuple) else (fact, True)
    while isinstance(t, Term) and t.op == "not":
        t, pol = t.args[0], not pol
    return not pol and isinstance(t, Term) and t.op == "call" and t.args[0] is T("name", "isinstance") and any(y.op == "attr" and y.args[1] == x for y in t.args[1].walk()) \
        and {"ndarray", "AwkwardArray"} <= set(show(y).split(".")[-1] for y in t.args[2].walk())


def isfrom_field(t, names):
    return t.op == "attr" and t.args[1] in names and t.args[0] is SELF


def isreset(v):
    if v.op == "phi":
        return all(isreset(x) for x in v.args)
    if v.op == "call" and v.args[0].op == "attr" and v.args[0].args[1] == "_util_deepcopy":
        return len(v.args) == 2 and isreset(v.args[1])
    return v is NONE or v is FALSE


def reset_ok(c, x):
    """fields for which None means 'not computed yet': some code tests them for None or a validity flag and then fills them"""
    for f in effective(c):
        s = selfname(f)
        if not s or f.name in ("copy", "deepcopy", "__init__"):
            continue
        tests = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr == x and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                tests = True
        if tests and fills(f, x):
            return True
        if tests and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == s
                         and c.find(n.func.attr) is not None and fills(c.find(n.func.attr), x) for n in ast.walk(f.node)):
            return True
    return False


def fills(f, x):
    """f computes field x (stores something other than an empty container)"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == x for y in n.targets for t in ast.walk(y)):
            v = n.value
            if isinstance(v, (ast.List, ast.Dict, ast.Constant, ast.Tuple)) and not any(isinstance(z, (ast.Name, ast.Call)) for z in ast.walk(v)):
                continue
            if isinstance(v, ast.Call) and not v.args and not v.keywords and (dotted(v.func) or "").split(".")[-1] in ("list", "dict", "set", "OrderedDict"):
                continue
            return True
    return False


def deep_resets(c, x):
    """a deep copy of a view stands alone: fields linking to the base of a view may be None"""
    return x in ("_view", "_base", "_rowstart")


def setter_writes(c, p, x):
    st = c.find_setter(p)
    seen = set()
    todo = [st] if st is not None else []
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == x:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == selfname(g) and c.find(n.func.attr) is not None:
                todo.append(c.find(n.func.attr))
    return False


def called(v):
    return set(show(y.args[0]).split(".")[-1] for y in v.walk() if y.op == "call")


def conversions(prog, st, c, p):
    """array conversions that every path of the setter applies"""
    s = Engine(prog, opaque=OPAQUE).summary(st, c)
    vals = [o.state.heap.get((SELF, "_" + p)) for o in s.returns]
    vals = [called(v) for v in vals if v is not None and not (v.op in ("list0", "dict0") and not v.kids())]
    return set.intersection(*vals) & {"_util_toarray", "dtype"} if vals else set()


def converts(prog, st, c, p):
    eng = Engine(prog, opaque=OPAQUE)
    s = eng.summary(st, c)
    arg = st.node.args.args[1].arg
    vals = [o.state.heap.get((SELF, "_" + p)) for o in s.returns]
    vals = [v for v in vals if v is not None]
    return bool(vals) and all(v is not T("param", arg) and any(y.op == "comp" or y.op == "call" and show(y.args[0]).split(".")[-1] not in ("bool", "int", "str") for y in v.walk()) for v in vals)
