"""C12: types are values: equality, hashing, copying and printing use every part of a type and change neither operand.

The type classes and their fields are discovered from the source.  Every outcome of the comparison is turned into the set of fields it has
compared between the two operands (branch facts, including quantified ones); hashing, copies, printing and building are judged on the
symbolic terms and on what each path leaves in the heap.
"""
import ast
from sa.engine import *
from sa.report import Report

RULE = ("per type class: (1) every outcome that calls two types equal has tested the other's class and compared each field with the same "
        "field of the other; (2) every outcome that calls them different rests on a comparison of the two; (3) hashes normalise like == and "
        "do not depend on order; (4) every dispatch over type classes handles all of them and descends into every part; (5) every type built "
        "has all its fields, in containers of its own; (6) parts are converted when stored; (7) operators leave their operands unchanged")
ASSUMPTIONS = ("two callables are equal types by design (Type._eq2)",
               "Placeholder exists only while a type is being built")
ORDERLESS = {"sorted", "set", "frozenset", "len"}
PURE = ("__eq__", "__ne__", "__hash__", "__or__", "__and__", "__repr__", "__str__", "__len__", "__getitem__", "hascolumn")
LEAF = {"_eq2", "_hash2", "_finaltype", "_eq", "_hash", "_copy", "_canonical", "_resolve"}


def same_shape(t):
    """t with the creation sites of fresh containers forgotten"""
    if not isinstance(t, Term):
        return t
    if t.op in ("dict0", "set0", "list0"):
        return T(t.op)
    return T(t.op, *[same_shape(a) for a in t.args])


def subst(t, a, b):
    if t is a:
        return b
    if not isinstance(t, Term):
        return t
    if t.op == "mix":
        return T("mix", frozenset(subst(x, a, b) for x in t.args[0]))
    return T(t.op, *[subst(x, a, b) for x in t.args])


def open_calls(t, eng, base, depth=3):
    """replace argument-free calls of helper methods of types by what they return"""
    for x in t.walk():
        if depth and x.op == "call" and x.args[0].op == "attr" and len(x.args) == 1 and x.args[0].args[1] in base.methods and x.args[0].args[1] not in LEAF:
            f = base.methods[x.args[0].args[1]]
            rs = eng.summary(f, base).returns
            if len(rs) == 1 and f.params:
                return open_calls(subst(t, x, subst(rs[0].term, T("param", f.params[0]), x.args[0].args[0])), eng, base, depth - 1)
    return t


class TypeClass(object):
    def __init__(self, cls):
        self.cls = cls
        self.fields, self.children, self.containers, self.alias = [], set(), set(), {}
        meths = list(cls.methods.values()) + list(cls.setters.values())
        for f in meths:
            me = f.params[0] if f.params else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if n.attr not in cls.props and n.attr not in cls.setters and n.attr != "__class__" and n.attr not in self.fields:
                        self.fields.append(n.attr)
        # fields another class's constructor sets when it turns itself into this one do not belong to that class
        for name in cls.props:
            g = cls.methods.get(name)
            if g is not None:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == g.params[0]:
                        self.alias.setdefault(n.value.attr, set()).add(name)


def classes(prog):
    base = prog.cls("Type")
    out = []
    for c in prog.classes.values():
        if base in c.mro() and c is not base and c.find("_eq") is not None and c.name != "Placeholder":
            out.append(TypeClass(c))
    mine = {}
    for tc in out:
        for f in tc.fields:
            mine.setdefault(f, []).append(tc)
    for tc in out:
        keep = []
        for f in tc.fields:
            # the class whose own `_eq`/`_hash`/properties read it
            reads = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == f and isinstance(n.value, ast.Name) and m.params and n.value.id == m.params[0]
                        for m in tc.cls.methods.values() for n in ast.walk(m.node))
            if reads or len(mine[f]) == 1:
                keep.append(f)
        tc.fields = keep
        for f in keep:
            for m in list(tc.cls.methods.values()) + list(tc.cls.setters.values()):
                me = m.params[0] if m.params else None

                def mine_(n):
                    return isinstance(n, ast.Attribute) and n.attr == f and isinstance(n.value, ast.Name) and n.value.id == me
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and any(mine_(t) for t in n.targets):
                        if isinstance(n.value, (ast.List, ast.Dict, ast.ListComp, ast.DictComp)) or (isinstance(n.value, ast.Call) and getattr(n.value.func, "id", getattr(n.value.func, "attr", "")) in ("OrderedDict", "dict", "list")):
                            tc.containers.add(f)
                            tc.children.add(f)
                        if any(isinstance(c, ast.Attribute) and c.attr == "_finaltype" for c in ast.walk(m.node)):
                            tc.children.add(f)
    return out


def is_part(t, owner, f):
    """t is, or is taken out of, owner.f"""
    return t.contains(lambda x: x.op == "attr" and x.args[1] == f and x.args[0] is owner)


def calls_named(t, names):
    return [x for x in t.walk() if x.op == "call" and isinstance(x.args[0], Term) and (
        x.args[0].op == "attr" and x.args[0].args[1] in names or x.args[0].op in ("name", "clsattr") and x.args[0].args[0].split(".")[-1] in names)]


def atoms(t, pol):
    """conjunction of atomic facts that holds when t has truth value pol"""
    if t.op == "not":
        for x in atoms(t.args[0], not pol):
            yield x
    elif t.op == ("and" if pol else "or"):
        for a in t.args:
            for x in atoms(a, pol):
                yield x
    else:
        yield t, pol


def expand(facts):
    out = []
    for t, v in facts:
        if isinstance(t, Term):
            out.extend(atoms(t, v))
    return out


def both(t, f, a, b):
    return is_part(t, a, f) and is_part(t, b, f)


def positive(facts):
    """(fact, quantified?) that hold on the path"""
    for t, v in expand(facts):
        if t.op == "forall" and v:
            pol = const_value(t.args[2]) if isinstance(t.args[2], Term) else t.args[2]
            for x, p in atoms(t.args[1], bool(pol)):
                if p:
                    yield x, t.args[0]
        elif v:
            if t.op == "call" and t.args[0] is T("name", "all") and len(t.args) == 2 and t.args[1].op == "comp":
                yield t.args[1].args[1], t.args[1].args[2]
            else:
                yield t, None
        elif t.op == "call" and t.args[0] is T("name", "any") and len(t.args) == 2 and t.args[1].op == "comp":
            for x, p in atoms(t.args[1].args[1], False):
                if p:
                    yield x, t.args[1].args[2]


def covered(tc, f, facts, S, O):
    """how field f has been compared on a path: set of {"value", "whole", "parts"}"""
    out = set()
    for t, over in positive(facts):
        if not both(t, f, S, O) and not (over is not None and is_part(over, S, f) and is_part(t, O, f)) and not (over is not None and is_part(over, O, f) and is_part(t, S, f)):
            continue
        deep = bool(calls_named(t, {"_eq2", "_eq", "__eq__"}))
        if f in tc.containers and over is None and t.contains(lambda x: x.op in ("elem", "val", "key") and is_part(x, S, f)):
            continue          # one of the parts, not all of them
        if deep:
            out.add("parts")
        elif t.op == "cmp" and t.args[0] in ("==", "is"):
            out.add("whole" if over is None else "parts")
            if f in tc.containers and over is None and t.args[1].op == "attr" and t.args[2].op == "attr":
                out.add("parts")          # whole containers compared element by element by Python itself
    return out


def order_kept(t, f, owner):
    """owner.f is compared in its own order"""
    def go(x, free):
        if x.op == "attr" and x.args[1] == f and x.args[0] is owner:
            return not free
        if x.op == "call" and x.args[0].op == "name" and x.args[0].args[0] in ORDERLESS:
            free = True
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("keys",):
            free = True
        return any(go(k, free) for k in x.kids())
    return go(t, False)


def run(prog):
    rep = Report("C12", RULE)
    S, O = T("param", "self"), T("param", "other")
    tcs = classes(prog)
    byname = {tc.cls.name: tc for tc in tcs}
    eng = Engine(prog, opaque=LEAF, max_returns=80, mark_stores=True)
    base = prog.cls("Type")
    rep.floor("type classes", 4)
    rep.floor("fields", 5)
    rep.floor("equality outcomes", 12)
    for tc in tcs:
        rep.count("type classes")
        rep.count("fields", len(tc.fields))
        eq(rep, eng, tc, S, O)
        hashes(rep, eng, tc, S)
    toplevel(rep, eng, base, S, O)
    leaves(rep, eng, base)
    dispatch(rep, eng, prog, tcs)
    printing(rep, eng, tcs)
    building(rep, eng, prog, tcs)
    storing(rep, eng, prog, tcs)
    purity(rep, eng, prog, tcs, base)
    rep.floor("dispatches", 3)
    rep.floor("types built", 8)
    rep.floor("part stores", 6)
    return rep


# ---------------------------------------------------------------------------------------------------- (1), (2) equality
def classfact(facts, K, O):
    for t, v in positive(facts):
        if t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is O and K in show(t.args[2]):
            return True
        if t.op == "cmp" and t.args[0] in ("is", "==") and "__class__" in show(t) or t.op == "cmp" and "type(other)" in show(t):
            return True
    return False


def eq(rep, eng, tc, S, O):
    K = tc.cls.name
    f = tc.cls.find("_eq")
    s = eng.summary(f, tc.cls)
    if f.params[:2] != ["self", "other"]:
        S, O = T("param", f.params[0]), T("param", f.params[1])
    for o in s.returns:
        rep.count("equality outcomes")
        facts = expand(o.state.facts)
        where = "%s:%d (%s._eq)" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno), K)
        if o.term is FALSE:
            reason = False
            for t, v in facts:
                if t.op == "cmp" and t.args[0] in ("is", "in"):
                    continue
                if t.contains(lambda x: x.op in ("loopv", "phi", "mix", "opaque")):
                    reason = True          # a flag gathered in a loop
                if t.contains(lambda x: x.op == "attr" and x.args[0] is O):
                    reason = True
                if t.contains(lambda x: x is O) and (t.contains(lambda x: x is S) or not v):
                    if t.op == "forall" or not v:
                        reason = True
            rep.check(reason, "difference", "%s._eq" % K, where, "%s._eq calls two types different on a path where no comparison between them failed" % K)
            continue
        if o.term is TRUE:
            if any(t.op == "attr" and t.args[1] == "check" and not v or t is T("name", "check") and not v or show(t).split(".")[-1] == "check" and not v for t, v in facts):
                rep.ok()
                continue
            if any(v and t.op == "cmp" and t.args[0] == "is" and set(t.args[1:]) == {S, O} for t, v in facts):
                rep.ok()
                continue
            member = [t for t, v in facts if v and t.op == "cmp" and t.args[0] == "in" and t.contains(lambda x: x.op == "call" and x.args[0] is T("name", "id"))]
            if member:
                m = member[0]
                rep.check(m.args[1].contains(lambda x: x is S) and m.args[1].contains(lambda x: x is O), "revisit", "%s._eq" % K, where,
                          "%s._eq takes a pair of types as already compared by looking up only one of the two" % K)
                continue
            have = list(o.state.facts)
        else:
            have = list(o.state.facts) + [(o.term, True)]
            if any(t.op == "param" and t.args[0] == "ignoremask" and v for t, v in facts) and K == "OptionType":
                rep.check(any(is_part(o.term, S, x) for x in tc.fields), "ignoremask", "%s._eq" % K, where, "an option type compared without its mask must still compare its content")
                continue
        if not classfact(have, K, O) and K not in show(o.term):
            rep.bad("class", "%s._eq" % K, where, "%s._eq can call a type of another class equal (no test that the other one is a %s on this path)" % (K, K))
        else:
            rep.ok()
        for fld in tc.fields:
            cov = covered(tc, fld, have, S, O)
            # an empty container is compared when the containers' keys or lengths agree and a loop over one of them ended
            need = {"whole", "parts"} if fld in tc.containers else {"parts"} if fld in tc.children else {"whole"}
            if fld in tc.children and fld not in tc.containers and cov & {"whole", "parts"}:
                need = set()
            missing = need - cov
            what = {"whole": "as a whole" if fld not in tc.containers else "for their keys or length", "parts": "part by part"}
            rep.check(not missing, "equal", "%s.%s" % (K, fld), where,
                      "%s._eq calls two types equal without comparing their %s %s" % (K, fld, " and ".join(what[m] for m in sorted(missing))))
            if fld in tc.containers and K != "UnionType":
                for t, over in positive(have):
                    if over is None and t.op == "cmp" and t.args[0] == "==" and both(t, fld, S, O) and not calls_named(t, {"_eq2", "_eq"}):
                        rep.check(not order_kept(t, fld, S), "order", "%s.%s" % (K, fld), where, "%s._eq makes equality depend on the order of %s" % (K, fld))
    # comparisons: both sides, same field, tentative ones on a record of their own
    for e in s.events:
        if e.kind != "call":
            continue
        c = e.term
        if not (c.op == "call" and c.args[0].op in ("attr", "name", "clsattr") and str(c.args[0].args[-1]).split(".")[-1] in ("_eq2", "_eq")):
            continue
        args = [a for a in c.args[1:] if a.op != "kw"]
        if c.args[0].op == "attr" and c.args[0].args[1] == "_eq":
            args = [c.args[0].args[0]] + args
        if len(args) < 2:
            continue
        rep.count("part comparisons")
        a, b = args[0], args[1]
        for x, mine, other in ((a, S, O), (b, O, S)):
            if x.op == "param" and x is mine:
                continue
            if spine(x) is not mine and not (is_pair_elem(x) and x.contains(lambda y: y is mine)):
                rep.bad("sides", "%s._eq" % K, e.where, "%s._eq compares %s with %s: not a part of the one with a part of the other" % (K, show(a), show(b)))
                break
        else:
            fa = [fl for fl in tc.fields if is_part(a, S, fl)]
            fb = [fl for fl in tc.fields if is_part(b, O, fl)]
            rep.check(fa == fb or b is O, "sides", "%s._eq" % K, e.where, "%s._eq compares different fields of the two types with each other" % K)
        # trial comparisons
        ea = [y for y in a.walk() if y.op in ("elem", "val", "key")]
        eb = [y for y in b.walk() if y.op in ("elem", "val", "key")]
        ea = [y for y in ea if y.contains(lambda z: z is S) and not y.contains(lambda z: z is O)]
        eb = [y for y in eb if y.contains(lambda z: z is O) and not y.contains(lambda z: z is S)]
        nested = bool(ea and eb)
        branchy = any((c, False) in set(o.state.facts) and o.term is not FALSE for o in s.returns)
        if nested or branchy:
            seen = args[2] if len(args) > 2 else None
            if nested:
                used = [x for x in s.events if x.kind in ("delitem", "mutcall", "setitem") and not x.term.op == "param" and (c, True) in set(x.facts)]
                used += [x for x in s.events if x.kind in ("delitem", "mutcall", "setitem") and any(is_part(x.term, O, fl) for fl in tc.fields)]
                rep.check(bool(used), "match-once", "%s._eq" % K, e.where, "%s._eq can match one part of the other type with several parts of this one" % K)
            if seen is not None and seen.op == "param":
                rep.bad("trial", "%s._eq" % K, e.where, "a comparison that may fail without deciding the answer records its assumptions in the caller's record of compared pairs")
            else:
                rep.ok()


def spine(x):
    while x.op in ("attr", "sub", "elem", "val", "key") or x.op == "call" and x.args[0].op in ("attr", "name"):
        if x.op == "call":
            if x.args[0].op == "attr":
                x = x.args[0].args[0]
            elif len(x.args) == 2 and x.args[0].args[0] in ("list", "tuple", "sorted", "reversed", "enumerate", "iter"):
                x = x.args[1]
            else:
                return x
        else:
            x = x.args[0]
    return x


def lastattr(x):
    """the attribute a part is taken out of"""
    while x.op in ("sub", "elem", "val", "key") or x.op == "call":
        if x.op == "call":
            x = x.args[0].args[0] if x.args[0].op == "attr" else x.args[1] if len(x.args) > 1 else x.args[0]
        else:
            x = x.args[0]
    return x if x.op == "attr" else None


def is_pair_elem(x):
    return x.op == "sub" and x.contains(lambda y: y.op == "call" and y.args[0] is T("name", "zip")) or x.contains(lambda y: y.op == "call" and y.args[0] is T("name", "zip"))


# ---------------------------------------------------------------------------------------------------- (3) hashing
def hashes(rep, eng, tc, S):
    K = tc.cls.name
    f = tc.cls.find("_hash")
    if f is None:
        rep.bad("hash", "%s._hash" % K, tc.cls.name, "%s defines equality but no hash" % K)
        return
    s = eng.summary(f, tc.cls)
    for o in s.returns:
        rep.count("hash outcomes")
        where = "%s:%d (%s._hash)" % (f.module.relpath, getattr(o.node, "lineno", 0), K)
        t = o.term
        bad = None
        for fld in tc.containers:
            if unordered(t, fld, S) is False:
                bad = fld
        rep.check(bad is None, "hash-order", "%s.%s" % (K, bad or ""), where, "%s._hash depends on the order of %s, equality does not" % (K, bad))
        ident = t.contains(lambda x: x.op == "call" and x.args[0] is T("name", "id"))
        rep.check(not ident, "hash-identity", "%s._hash" % K, where, "%s._hash depends on the identity of an object" % K)
        raw = [x for x in t.walk() if x.op == "call" and x.args[0] is T("name", "hash") and len(x.args) == 2 and x is not t]
        for x in raw:
            for fld in tc.children:
                if is_part(x.args[1], S, fld) and not calls_named(x.args[1], {"_hash2", "_hash"}):
                    rep.bad("hash-leaf", "%s.%s" % (K, fld), where, "%s._hash hashes a part directly: equal parts need not have equal hashes" % K)
        direct = False
        for x in t.walk():
            if x.op == "tuple":
                for a in x.args:
                    if a.op == "attr" and a.args[0] is S and a.args[1] in tc.children:
                        direct = True
        rep.check(not direct, "hash-leaf", "%s._hash" % K, where, "%s._hash hashes a part directly: equal parts need not have equal hashes" % K)


def unordered(t, fld, S):
    """False when the value visibly depends on the order of S.fld; None when undecided"""
    def go(x, free):
        if x.op == "mix":
            return None
        if x.op == "attr" and x.args[1] == fld and x.args[0] is S:
            return True if free else False
        if x.op == "call" and x.args[0].op == "name" and x.args[0].args[0] in ORDERLESS | {"sum", "min", "max"}:
            return True if len(x.args) == 2 else None
        if x.op == "comp":
            r = go(x.args[2], free)
            if r is True or r is None or not is_part(x, S, fld):
                return r
            return False if not free else True
        if x.op in ("elem", "key", "val", "sub"):
            return True          # one element; the order comes in through the sequence it is gathered into
        r = True
        for k in x.kids():
            g = go(k, free)
            if g is False:
                return False
            if g is None:
                r = None
        return r
    return go(t, False)


def toplevel(rep, eng, base, S, O):
    f, h = base.methods.get("__eq__"), base.methods.get("__hash__")
    if f is None or h is None:
        rep.bad("defined", "Type.__eq__/__hash__", base.name, "types need both __eq__ and __hash__")
        return
    s = eng.summary(f, base)
    norm = None
    for o in s.returns:
        where = "%s:%d (Type.__eq__)" % (f.module.relpath, getattr(o.node, "lineno", 0))
        if o.term is FALSE:
            ok = any(t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is O and not v for t, v in o.state.facts)
            rep.check(ok, "difference", "Type.__eq__", where, "Type.__eq__ answers False for a type without comparing it")
            continue
        if o.term is TRUE:
            ok = any(v and t.op == "cmp" and t.args[0] == "is" and set(t.args[1:]) == {S, O} for t, v in o.state.facts)
            rep.check(ok, "equal", "Type.__eq__", where, "Type.__eq__ answers True without comparing")
            continue
        for c in calls_named(o.term, {"_eq"})[:1]:
            a, b = [same_shape(open_calls(x, eng, base)) for x in (c.args[0].args[0], c.args[1])]
            norm = a
            rep.check(subst(a, S, O) is b, "normalise", "Type.__eq__", where, "the two sides of a comparison are normalised differently: %s and %s" % (show(a), show(b)))
            for side in (a, b):
                for k in calls_named(side, {"_canonical"}):
                    rep.check(bool(calls_named(k.args[1], {"_copy"})), "operands", "Type.__eq__", where, "normalising changes the type it is given: comparison must normalise a copy")
    s = eng.summary(h, base)
    for o in s.returns:
        where = "%s:%d (Type.__hash__)" % (h.module.relpath, getattr(o.node, "lineno", 0))
        cs = calls_named(o.term, {"_hash"})
        if cs and norm is not None:
            a = same_shape(open_calls(cs[0].args[0].args[0], eng, base))
            rep.check(a is norm, "hash-normalise", "Type.__hash__", where, "the hash is taken of %s but equality compares %s: equal types can have different hashes" % (show(a), show(norm)))
    ne = base.methods.get("__ne__")
    if ne is not None:
        e2 = Engine(eng.prog, opaque=LEAF | {"__eq__"}, max_returns=20)
        for o in e2.summary(ne, base).returns:
            t = o.term
            eqs = t.contains(lambda x: x.op == "cmp" and x.args[0] in ("==", "!=")) or bool(calls_named(t, {"__eq__"}))
            ok = eqs and not (t.op == "call" or t.op == "cmp" and t.args[0] == "==")
            if t in (TRUE, FALSE):
                want = t is FALSE
                ok = any((c.op == "call" and calls_named(c, {"__eq__"}) or c.op == "cmp" and c.args[0] == "==") and v == want for c, v in o.state.facts)
            rep.check(ok, "difference", "Type.__ne__", ne.where, "!= is not the negation of ==")


def leaves(rep, eng, base):
    """_eq2/_hash2: what equates leaves must not tell their hashes apart"""
    f, h = base.methods.get("_eq2"), base.methods.get("_hash2")
    if f is None or h is None:
        return
    e2 = Engine(eng.prog, opaque=LEAF - {"_eq2", "_hash2"}, max_returns=40)
    one, two = T("param", f.params[0]), T("param", f.params[1])
    callables = False
    for o in e2.summary(f, base).returns:
        where = "%s:%d (Type._eq2)" % (f.module.relpath, getattr(o.node, "lineno", 0))
        facts = expand(o.state.facts)
        pos = [t for t, v in facts if v]
        if o.term is TRUE:
            eqf = any(t.op == "cmp" and t.args[0] in ("==", "is") and t.contains(lambda x: x is one) and t.contains(lambda x: x is two) for t in pos)
            cal = sum(1 for x in (one, two) if any(t.op == "call" and t.args[0] is T("name", "callable") and t.args[1] is x for t in pos)) == 2
            callables = callables or cal
            rep.check(eqf or cal, "leaf", "Type._eq2", where, "two leaves are called equal without being compared")
            if eqf:
                typ = [x for x in (one, two) if not any((t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is x and not v) for t, v in facts)]
                rep.check(not typ, "leaf-class", "Type._eq2", where, "a numpy dtype is compared with a type by ==, which compares it with the type's dtype attribute")
        elif o.term is FALSE:
            ok = any(not v for t, v in facts if t.contains(lambda x: x is one)) and (any(t.contains(lambda x: x is two) for t, v in facts))
            rep.check(ok, "difference", "Type._eq2", where, "two leaves are called different without being compared")
    x = T("param", h.params[0])
    for o in e2.summary(h, base).returns:
        where = "%s:%d (Type._hash2)" % (h.module.relpath, getattr(o.node, "lineno", 0))
        if is_const(o.term) or calls_named(o.term, {"_hash"}):
            rep.ok()
            continue
        ok = any(v and t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is x and "dtype" in show(t.args[2]) for t, v in expand(o.state.facts))
        nc = any(not v and t.op == "call" and t.args[0] is T("name", "callable") and t.args[1] is x for t, v in expand(o.state.facts))
        rep.check(ok or nc or not callables, "hash-leaf", "Type._hash2", where, "equality does not tell two callables apart but their hashes differ")


# ---------------------------------------------------------------------------------------------------- (4) dispatches
def mentions(n, names):
    out = set()
    for c in ast.walk(n):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "isinstance" and len(c.args) == 2:
            for x in ast.walk(c.args[1]):
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
                if nm in names:
                    out.add((ast.dump(c.args[0]), nm))
    return out


def dispatch(rep, eng, prog, tcs):
    names = {tc.cls.name: tc for tc in tcs}
    for f in prog.functions:
        ms = mentions(f.node, names)
        subj = {}
        for x, nm in ms:
            subj.setdefault(x, set()).add(nm)
        full = [v for v in subj.values() if len(v) >= 3]
        if f.module.name.split(".")[-1] not in ("type", "persist") or not full or "<locals>" in f.qual:
            continue
        s = eng.summary(f, f.cls)
        rep.count("dispatches")
        for K, tc in sorted(names.items()):
            if not any(K in v for v in full):
                rep.bad("dispatch", "%s: %s" % (f.short(), K), f.where, "%s handles %s but not %s" % (f.short(), ", ".join(sorted(set().union(*full))), K))
                continue
            for fld in sorted(tc.children):
                ok = False
                for e in s.events:
                    if e.kind != "call":
                        continue
                    c = e.term
                    head = c.args[0]
                    if head.op == "name" and head.args[0] in ("id", "isinstance", "len", "enumerate", "list", "range", "sorted", "repr", "str", "all", "any", "zip", "math.isinf", "iter", "reversed"):
                        continue
                    if head.op == "attr" and head.args[1] in ("items", "values", "keys", "append", "add"):
                        continue
                    for t, v in e.facts:
                        if v and isinstance(t, Term) and t.op == "call" and t.args[0] is T("name", "isinstance") and K in show(t.args[2]).replace("(", " ").replace(")", " ").replace(",", " ").replace(".", " ").split():
                            X = t.args[1]
                            for a in c.args[1:]:
                                last = lastattr(a)
                                if last is not None and last.args[1] in {fld} | tc.alias.get(fld, set()) and is_part(a, X, last.args[1]) or a.contains(lambda y: y.op == "mix" and X in y.args[0]):
                                    ok = True
                rep.check(ok, "descend", "%s: %s.%s" % (f.short(), K, fld), f.where, "%s does not go into %s of a %s" % (f.short(), fld, K))


def printing(rep, eng, tcs):
    for tc in tcs:
        for m in ("_subrepr", "_substr"):
            f = tc.cls.methods.get(m)
            if f is None:
                rep.bad("print", "%s.%s" % (tc.cls.name, m), tc.cls.name, "%s has no %s" % (tc.cls.name, m))
                continue
            S = T("param", f.params[0])
            for fld in tc.fields:
                rs = eng.summary(f, tc.cls).returns
                if fld in tc.containers:          # a loop that is not entered leaves nothing to print
                    rs = [o for o in rs if is_part(o.term, S, fld)] or rs
                for o in rs:
                    ok = is_part(o.term, S, fld) or o.term.contains(lambda x: x.op in ("mix", "loopv", "opaque", "box", "phi"))
                    rep.check(ok, "print", "%s.%s: %s" % (tc.cls.name, m, fld), f.where, "%s.%s leaves out %s" % (tc.cls.name, m, fld))


# ---------------------------------------------------------------------------------------------------- (5) building
def shared_container(v, tcs):
    """v is (possibly) the container of another type itself"""
    if v.op == "attr":
        for tc in tcs:
            if v.args[1] in tc.containers:
                return True
        return False
    if v.op in ("phi", "or", "and", "ifexp"):
        return any(shared_container(x, tcs) for x in v.args if isinstance(x, Term))
    return False


def building(rep, eng, prog, tcs):
    names = {tc.cls.name: tc for tc in tcs}
    allconts = set().union(*[tc.containers for tc in tcs])
    for f in prog.functions:
        src = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__new__"
               and (n.args and (getattr(n.args[0], "id", None) in names or getattr(n.args[0], "attr", None) in names))]
        stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in allconts]
        if not src and not stores:
            continue
        # which fields does every path that creates a K set
        s = eng.summary(f, f.cls)
        for e in s.events:
            if e.kind == "setattr" and e.extra[0] in allconts:
                v = e.extra[1]
                rep.count("containers stored")
                rep.check(not shared_container(v, tcs) or e.term.op == "attr", "own-container", "%s: %s" % (f.short(), e.extra[0]), e.where,
                          "the new type shares its %s with another type (%s): changing one changes the other" % (e.extra[0], show(v)))
        for n in src:
            K = getattr(n.args[0], "id", None) or n.args[0].attr
            tc = names[K]
            rep.count("types built")
            for fld in tc.fields:
                hit = False
                for e in s.events:
                    if e.kind == "setattr" and e.extra[0] == fld and e.func is f or e.kind == "setattr" and e.extra[0] == fld:
                        hit = True
                    if e.kind == "setattr" and e.extra[0] in tc.alias.get(fld, ()):
                        hit = True
                rep.check(hit, "complete", "%s: %s.%s" % (f.short(), K, fld), "%s:%d (%s)" % (f.module.relpath, n.lineno, f.short()), "a %s is built without its %s" % (K, fld))
            # path-wise: on every returning path where this object is in the heap or returned
        for o in s.returns if src else ():
            for t in [o.term] + [x for (x, _), v in heapitems(o.state)]:
                base_ = t
                if base_.op == "new" and show(base_).split(":")[-1].split(".")[-1] in names:
                    tc = names[show(base_).split(":")[-1].split(".")[-1]]
                    have = {fl for (x, fl), v in heapitems(o.state) if x is base_}
                    for fld in tc.fields:
                        if have or base_ is o.term:
                            rep.check(fld in have, "complete", "%s: %s.%s" % (f.short(), tc.cls.name, fld), f.where, "on a path through %s a %s is built without its %s" % (f.short(), tc.cls.name, fld))


def heapitems(st):
    return list(st.heap.items())


# ---------------------------------------------------------------------------------------------------- (6) storing parts
def storing(rep, eng, prog, tcs):
    for tc in tcs:
        pub = [m for m in list(tc.cls.methods.values()) + list(tc.cls.setters.values())
               if m.prop == "set" or m.name in ("__init__", "__setitem__") or not m.name.startswith("_")]
        for m in pub:
            s = eng.summary(m, tc.cls)
            S = T("param", m.params[0]) if m.params else None
            for e in s.events:
                v = None
                if e.kind == "setattr" and e.extra[0] in tc.children - tc.containers:
                    v = e.extra[1]
                elif e.kind == "setitem" and e.term.op == "attr" and e.term.args[1] in tc.containers:
                    v = e.extra[1]
                elif e.kind == "mutcall" and e.term.op == "attr" and e.term.args[1] in tc.containers and e.extra[0] in ("append", "insert"):
                    v = e.extra[1].args[-1] if e.extra[1].args else None
                if v is None or m.name == "__init__" and e.func is not m:
                    continue
                rep.count("part stores")
                vals = v.args if v.op == "phi" else (v,)
                for x in vals:
                    ok = bool(calls_named(x, {"_finaltype", "fromnumpy"})) or x.op in ("new", "class") or is_const(x) \
                        or any(v2 and t.op == "call" and t.args[0] is T("name", "isinstance") and t.args[1] is x for t, v2 in expand(e.facts)) \
                        or x.op == "call" and x.args[0].op in ("class", "name") and x.args[0].args[0].split(".")[-1] in {q.cls.name for q in tcs} or x.op == "mix"
                    rep.check(ok, "convert", "%s: %s" % (m.short(), e.extra[0] if e.kind == "setattr" else e.term.args[1]), e.where,
                              "%s stores a part as given: int, float, str must become numpy dtypes for the type to equal what arrays report" % m.short())


# ---------------------------------------------------------------------------------------------------- (7) operands
def purity(rep, eng, prog, tcs, base):
    for c in [base] + [tc.cls for tc in tcs]:
        for n in PURE + tuple(sorted(c.props)) + ("_eq", "_hash", "_subrepr", "_substr", "_isnumpy", "_hascolumn"):
            m = c.methods.get(n)
            if m is None or m.prop == "set" or n in ("check",):
                continue
            rep.count("operators")
            s = eng.summary(m, c)
            ps = {T("param", p) for p in m.params if p not in ("seen", "labeled", "indent", "depth")}
            bad = None
            for e in s.events:
                if e.kind in ("setattr", "setitem", "delitem", "delattr", "mutcall", "augassign"):
                    tgt = e.term
                    x = tgt
                    while x.op in ("attr", "sub", "elem", "val"):
                        x = x.args[0]
                    if x in ps:
                        bad = e
            rep.check(bad is None, "operands", m.short(), bad.where if bad else m.where, "%s changes %s" % (m.short(), show(bad.term) if bad else ""))
