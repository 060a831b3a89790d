"""C07: structure is checked before it is trusted.

A  every returning path of `_valid` (with whole-array checking on, not yet marked valid) has tested that the structure fits the content
B  `_isvalid = True` is stored by `_valid` alone, and only with whole-array checking on
C  every returning (or yielding) path of every method that reads content at positions taken from the structure has validated first
D  every property setter, constructor and copy override tests the kind, sign and dimensionality of what it stores (with property
   checking on), and a setter that raises has changed nothing
"""
import ast
from sa.engine import *
from sa.fields import Fields, array_classes, effective, selfname
from sa.report import Report
from sa.ordering import Facts, vector, strip, length_of, split_not, mentions, method_arg, callee, linear

RULE = ("path facts of _valid, of every property setter, constructor and copy, and of every method reading content by structure, compared "
        "with the order facts the class's structure must satisfy")
ASSUMPTIONS = ("offsetsaliased() means starts and stops are the two shifted views of one offsets array; array elements are integers where the "
               "setters require it; an unrecognised test relating the same two quantities leaves an obligation undecided (counted, not reported)",)
BASEOP = {"_util_toarray", "_util_deepcopy", "_util_isinteger", "_util_isintegertype", "_util_isstringslice", "type", "_gettype", "maybemixin",
          "tojagged", "offsetsaliased", "offsets2parents", "startsstops2parents", "counts2offsets", "_util_reduce", "pandas", "parents2startsstops"}


def A(n):
    return T("attr", SELF, n)


def flags(on_whole=True, on_prop=True, isvalid=None):
    def sc(t, st):
        n = show(t).split(".")[-1]
        if n == "check_whole_valid" and t.op in ("attr", "clsattr", "name"):
            return on_whole
        if n == "check_prop_valid" and t.op in ("attr", "clsattr", "name"):
            return on_prop
        if isvalid is not None and t is A("_isvalid"):
            return isvalid
        return None
    return sc


def is_len(t, x):
    n = length_of(t)
    return n is not None and vector(n)[0] is x and not vector(n)[2] and not vector(n)[3]


class Goal(object):
    """proved / undecided / failed for one path"""

    def __init__(self, F):
        self.F = F

    def covers(self, v, root, okfilter):
        r, trim, filters, slices = vector(v)
        return r is root and not slices and all(okfilter(f) for f in filters)

    def empty(self, root, okfilter):
        for e in self.F.empty:
            if self.covers(e, root, okfilter) or (length_of(e) is None and strip(e) is root):
                return True
        return False

    def below(self, root, bound, k, okfilter=lambda f: False):
        """root[filter] + k <= bound elementwise"""
        for a in self.F.atoms:
            if a.k >= k and bound(a.rhs) and self.covers(a.lhs, root, okfilter):
                return True
        return self.empty(root, okfilter)

    def above(self, root, const, okfilter=lambda f: False):
        for a in self.F.atoms:
            if is_const(a.lhs) and isinstance(const_value(a.lhs), int) and const_value(a.lhs) + a.k >= const and self.covers(a.rhs, root, okfilter):
                return True
        return self.empty(root, okfilter)

    def undecided(self, *roots):
        return any(all(mentions(o, r) for r in roots) for o in self.F.other) or \
            any(any(all(mentions(o, r) for r in roots) for o in sub.other) for _, sub, _ in self.F.forall)


def nonempty_filter(f):
    """selects the non-empty sublists"""
    t, pol = split_not(f)
    st, sp = A("_starts"), A("_stops")
    if t.op == "cmp" and t.args[0] in ("==", "<", "<="):
        a, b = vector(t.args[1])[0], vector(t.args[2])[0]
        if t.args[0] == "==":
            return not pol and {a, b} == {st, sp}
        if t.args[0] == "<":
            return pol and (a, b) == (st, sp)
        return not pol and (a, b) == (sp, st)
    return False


def unmasked_filter(f):
    t, pol = split_not(f)
    return t.op == "cmp" and t.args[0] == "==" and not pol and {strip(t.args[1]), strip(t.args[2])} == {A("_mask"), A("_maskedwhen")}


def jagged(F, facts):
    st, sp, ct = A("_starts"), A("_stops"), A("_content")
    G = Goal(F)
    lc = lambda t: is_len(t, ct)
    aliased = any(callee(t) == "offsetsaliased" and pol for t, pol in facts)
    out = []
    bases = [T("attr", st, "base"), T("attr", sp, "base"), A("_offsets")]
    mono = any(a.k >= 0 and vector(a.lhs)[0] is vector(a.rhs)[0] and any(vector(a.lhs)[0] is b for b in bases) and [show(x) for x in vector(a.lhs)[3]] == [":-1:"] and [show(x) for x in vector(a.rhs)[3]] == ["1::"]
               for a in F.atoms)
    pair = any(a.k >= 0 and vector(a.lhs)[0] is st and vector(a.rhs)[0] is sp and not vector(a.lhs)[2] and not vector(a.rhs)[2] and not vector(a.lhs)[3] and not vector(a.rhs)[3] for a in F.atoms)
    out.append(("starts <= stops", pair or aliased and mono, G.undecided(st, sp) or any(G.undecided(b) for b in bases)))
    end = G.below(sp, lc, 0, nonempty_filter)
    if aliased:
        end = end or any(G.below(b, lc, 0) for b in bases)
        if mono and not end:
            end = any(a.k >= 0 and lc(a.rhs) and a.lhs.op == "sub" and any(a.lhs.args[0] is b for b in bases) and show(a.lhs.args[1]) == "-1" for a in F.atoms)
        und = any(G.undecided(b, ct) for b in bases + [sp])
    else:
        out.append(("len(starts) <= len(stops)", any(a.k >= 0 and is_len(a.lhs, st) and is_len(a.rhs, sp) for a in F.atoms), G.undecided(st, sp)))
        und = G.undecided(sp, ct)
    out.append(("stops of the non-empty sublists <= len(content)", end, und))
    return out


def indexed(F, facts):
    ix, ct = A("_index"), A("_content")
    G = Goal(F)
    return [("index < len(content)", G.below(ix, lambda t: is_len(t, ct), 1), G.undecided(ix, ct))]


def sparse(F, facts):
    ix, ct = A("_index"), A("_content")
    return [("len(index) <= len(content)", any(a.k >= 0 and is_len(a.lhs, ix) and is_len(a.rhs, ct) for a in F.atoms), Goal(F).undecided(ix, ct))]


def masked(F, facts):
    mk, ct = A("_mask"), A("_content")
    return [("len(mask) <= len(content)", any(a.k >= 0 and is_len(a.lhs, mk) and is_len(a.rhs, ct) for a in F.atoms), Goal(F).undecided(mk, ct))]


def arith(t, env):
    """integer value of an arithmetic expression; raises KeyError on anything else"""
    n = length_of(t)
    if n is not None:
        return env[strip(n)]
    if is_const(t):
        return const_value(t)
    if t.op == "bin":
        a, b = arith(t.args[1], env), arith(t.args[2], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, ">>": lambda: a >> b, "<<": lambda: a << b, "%": lambda: a % b, "/": lambda: a / b}[t.args[0]]()
    if t.op == "un":
        a = arith(t.args[1], env)
        return {"-": lambda: -a, "+": lambda: a, "~": lambda: ~a}[t.args[0]]()
    if t.op == "call" and t.args[0] is T("name", "int") and len(t.args) == 2:
        return int(arith(t.args[1], env))
    if t.op == "call" and callee(t) == "ceil" and len(t.args) == 2:
        return -int(-arith(t.args[1], env) // 1)
    raise KeyError(t)


def bitmasked(F, facts):
    mk, ct = A("_mask"), A("_content")
    ok = und = False
    for a in F.atoms:
        if not (mentions(a.lhs, ct) and mentions(a.rhs, mk)):
            continue
        try:
            # the extracted test, tabulated: passing it must imply 8*len(mask) >= len(content)
            good = all(8 * m >= n for n in range(0, 70) for m in range(0, 12) if arith(a.lhs, {ct: n, mk: m}) + a.k <= arith(a.rhs, {ct: n, mk: m}))
            ok = ok or good
        except (KeyError, ZeroDivisionError, TypeError):
            und = True
    return [("8*len(mask) >= len(content)", ok, und or Goal(F).undecided(mk, ct))]


def indexedmasked(F, facts):
    mk, ct = A("_mask"), A("_content")
    G = Goal(F)
    return [("unmasked mask-index < len(content)", G.below(mk, lambda t: is_len(t, ct), 1, unmasked_filter), G.undecided(mk, ct)),
            ("unmasked mask-index >= 0", G.above(mk, 0, unmasked_filter), G.undecided(mk))]


def union(F, facts):
    tg, ix, cs = A("_tags"), A("_index"), A("_contents")
    G = Goal(F)
    out = [("len(tags) <= len(index)", any(a.k >= 0 and is_len(a.lhs, tg) and is_len(a.rhs, ix) for a in F.atoms), G.undecided(tg, ix)),
           ("tags < len(contents)", G.below(tg, lambda t: is_len(t, cs), 1), G.undecided(tg, cs))]
    ok, und = False, G.undecided(ix, cs) or G.undecided(ix, tg)
    for it, sub, t in F.forall:
        for a in sub.atoms:
            r, trim, filters, slices = vector(a.lhs)
            if r is not ix or slices or not any(mentions(f, tg) for f in filters):
                continue
            if len(filters) != 1 or trim not in (None, tg):
                und = True
                continue
            f, pol = split_not(filters[0])
            if not (pol and f.op == "cmp" and f.args[0] == "=="):
                continue
            e = [y for y in f.args[1:] if vector(y)[0] is not tg]
            if len(e) != 1 or e[0].op not in ("elem", "elemidx") or e[0].args[0] is not it:
                und = True
                continue
            e = e[0]
            n = length_of(a.rhs)
            bound = n is not None and (n is T("sub", cs, e) or n.op == "elem" and n.args[0] is cs and e.op == "elemidx")
            iters = it.op == "call" and (callee(it) in ("unique", "set", "sorted", "frozenset", "list") and vector(it.args[1])[0] is tg and not vector(it.args[1])[3]
                                         or callee(it) == "range" and len(it.args) == 2 and is_len(it.args[1], cs)
                                         or callee(it) == "enumerate" and len(it.args) == 2 and it.args[1] is cs)
            if bound and iters and a.k >= 1:
                ok = True
            elif not iters and not (it.op == "sub" and it.args[1].op == "slice"):
                und = True
    out.append(("index < len(contents[tag]) for every tag", ok, und))
    return out


def chunked(F, facts):
    sz, ch = A("_chunksizes"), A("_chunks")
    ok = any(mentions(it, sz) and any(mentions(x, sz) and length_of(y) is not None and mentions(y, ch) for p in sub.eq for x, y in (p, p[::-1])) for it, sub, t in F.forall)
    return [("len(chunksizes) <= len(chunks)", any(a.k >= 0 and is_len(a.lhs, sz) and is_len(a.rhs, ch) for a in F.atoms), Goal(F).undecided(sz, ch)),
            ("each chunk size is the chunk's length", ok, Goal(F).undecided(sz, ch))]


WHOLE = {"JaggedArray": jagged, "IndexedArray": indexed, "SparseArray": sparse, "MaskedArray": masked, "BitMaskedArray": bitmasked,
         "IndexedMaskedArray": indexedmasked, "UnionArray": union, "ChunkedArray": chunked}
NOTWHOLE = {"AppendableArray"}           # its chunks are checked as they are assigned and its sizes are its own count of what was appended


def rule_a(prog, rep):
    for c in array_classes(prog):
        spec = next((WHOLE[k.qualname] for k in c.mro() if k.qualname in WHOLE or k.qualname in NOTWHOLE and False), None)
        if spec is None or c.qualname in NOTWHOLE:
            continue
        f = c.find("_valid")
        sm = Engine(prog, opaque=BASEOP, scenario=flags(True, True, False), max_returns=120).summary(f, c)
        rep.count("valid_methods")
        rep.count("valid_paths", len(sm.returns))
        failed = {}
        for o in sm.returns:
            F = Facts(o.state.facts)
            for name, ok, und in spec(F, o.state.facts):
                if ok:
                    rep.ok("%s._valid: %s" % (c.qualname, name))
                elif und:
                    rep.count("undecided")
                    rep.notes.append("%s._valid: %s undecided (unrecognised test)" % (c.qualname, name))
                else:
                    failed.setdefault(name, o)
        # a disjunctive loop body (continue for empty selections) loses its facts: look for the refusal itself
        for name, o in sorted(failed.items(), key=lambda x: x[0]):
            if name.startswith("index < len(contents[tag])") and loop_refusal(sm):
                rep.count("undecided")
                continue
            rep.bad("A", "%s._valid: %s" % (c.qualname, name), "%s:%d" % (f.module.relpath, f.node.lineno),
                    "a path accepts the array without having established that %s" % name,
                    ["path facts: " + "; ".join(sorted("%s%s" % ("" if v else "not ", t) for t, v in o.state.facts))[:400]])


def loop_refusal(sm):
    tg, ix, cs = A("_tags"), A("_index"), A("_contents")
    for o in sm.raises:
        for t, pol in o.state.facts:
            if t.op == "cmp" and t.args[0] == "<=" and pol and length_of(t.args[1]) is not None and mentions(t.args[1], cs):
                x = method_arg(t.args[2], ("max", "amax"))
                k = length_of(t.args[1])
                if x is None or vector(x)[0] is not ix:
                    continue
                for f in vector(x)[2]:
                    if f.op != "cmp" or not mentions(f, tg):
                        continue
                    if k.op == "sub" and mentions(f, k.args[1]) and not any(y.op == "elem" and y.args[0].op == "sub" and y.args[0].args[1].op == "slice" for y in k.args[1].walk()):
                        return True
                    if k.op == "elem" and any(y.op == "elemidx" and mentions(y, k.args[0]) for y in f.walk()):
                        return True
    return False


def rule_b(prog, rep):
    for f in prog.functions:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_isvalid" for t in n.targets):
                rep.count("isvalid_stores")
                v = n.value
                if isinstance(v, ast.Constant) and v.value is True or isinstance(v, ast.Name) and v.id == "True":
                    rep.check(f.name == "_valid" or helper_of_valid(prog, f), "B", "%s stores _isvalid = True" % f.short(), "%s:%d" % (f.module.relpath, n.lineno),
                              "an array is marked as valid outside _valid")
    for c in array_classes(prog):
        f = c.find("_valid")
        if f is None:
            continue
        sm = Engine(prog, opaque=BASEOP, scenario=flags(False, True, False), max_returns=60).summary(f, c)
        for o in sm.returns:
            rep.check(o.state.heap.get((SELF, "_isvalid")) is not TRUE, "B", "%s._valid unchecked" % c.qualname, "%s:%d" % (f.module.relpath, f.node.lineno),
                      "with check_whole_valid off the array is marked valid, so that turning checking on again does not check it")


def helper_of_valid(prog, f):
    callers = set()
    for g in prog.functions:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == f.name and g is not f:
                callers.add(g.name)
    return f.name.startswith("_") and callers == {"_valid"}


NOTREAD = {"copy", "deepcopy", "_valid", "__init__", "_getnbytes", "_gettype", "_util_layout", "__setstate__"}
POSITIONAL = {"_index": ("_index",), "_mask": ("_mask",)}


def rule_c(prog, rep, F):
    names = {}
    for c in array_classes(prog):
        for n in c.methods:
            names.setdefault(n, set()).add(c.qualname)
    # a private method defined by several classes is an entry of its own, so it need not be followed from its callers
    protocol = set(n for n, v in names.items() if len(v) >= 2 and n.startswith("_") and not n.startswith("__") and n != "_valid")
    protocol.add("_tojagged")        # an entry of its own below
    for c in array_classes(prog):
        deps = F.derived(c).get("_isvalid")
        if not deps or c.find("_valid") is None:
            continue
        cont = {"_content", "_contents"}
        struct = set(deps) - cont
        if not struct:
            continue

        def reads(t):
            for x in t.walk():
                if x.op == "sub" and isinstance(x.args[1], Term) and \
                        any(y.op == "attr" and y.args[0] is SELF and y.args[1] in cont for y in x.args[0].walk()) and \
                        any(y.op == "attr" and y.args[0] is SELF and y.args[1] in struct for y in x.args[1].walk()):
                    return x
            return None
        for f in sorted(effective(c), key=lambda f: (f.module.relpath, f.node.lineno)):
            s = selfname(f)
            if not s or f.name in NOTREAD:
                continue
            if f.name.startswith("_") and not f.name.startswith("__") and len(names.get(f.name, ())) < 2 and f.name != "_tojagged":
                continue
            if not touches(prog, f, c, cont, struct):
                continue
            sm = Engine(prog, opaque=(BASEOP | protocol) - {f.name}, scenario=flags(True, True, False), max_returns=60).summary(f, c)
            rep.count("readers")
            for o in list(sm.returns) + [Outcome("yield", v, st, node) for v, st, node in sm.yields]:
                r = reads(o.term) if isinstance(o.term, Term) else None
                if r is None:
                    for k, v in o.state.heap.items():
                        if isinstance(v, Term) and v.op != "mix":
                            r = r or reads(v)
                if r is None:
                    continue
                rep.count("reading_paths")
                ok = o.state.heap.get((SELF, "_isvalid")) is TRUE or any(t is A("_isvalid") and pol for t, pol in o.state.facts)
                rep.check(ok, "C", "%s reads content unvalidated (%s)" % (f.short(), c.qualname), "%s:%d" % (f.module.relpath, getattr(o.node, "lineno", f.node.lineno)),
                          "%s is evaluated on a path that has not called _valid()" % str(r)[:120])


def touches(prog, f, c, cont, struct):
    """f, or a property or private helper it uses on self, mentions both content and structure"""
    s = selfname(f)
    at, seen, work = set(), set(), [f]
    while work:
        g = work.pop()
        if g in seen:
            continue
        seen.add(g)
        sn = selfname(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn:
                at.add(n.attr)
                h = c.find(n.attr)
                if h is not None and len(seen) < 12:
                    work.append(h)
    return bool(at & cont) and bool(at & struct)


# ---------------------------------------------------------------- D
SETTERS = {
    ("JaggedArray", "starts"): ("int", "nonneg", "dim"),
    ("JaggedArray", "stops"): ("int", "nonneg", "dim"),
    ("JaggedArray", "offsets"): ("int", "nonneg", "dim1", "nonempty"),
    ("JaggedArray", "counts"): ("int", "nonneg", "dim"),
    ("JaggedArray", "parents"): ("int", "dim"),
    ("IndexedArray", "index"): ("int", "nonneg"),
    ("SparseArray", "index"): ("int", "nonneg", "dim1", "increasing"),
    ("SparseArray", "length"): ("integer", "nonneg"),
    ("MaskedArray", "mask"): ("dim1",),
    ("BitMaskedArray", "mask"): ("dim1",),
    ("IndexedMaskedArray", "mask"): ("int", "dim1"),
    ("IndexedMaskedArray", "maskedwhen"): ("integer",),
    ("UnionArray", "tags"): ("int", "nonneg", "nonempty"),
    ("UnionArray", "index"): ("int", "nonneg"),
    ("UnionArray", "contents"): ("nonempty",),
    ("ChunkedArray", "chunksizes"): ("each-integer", "each-nonneg"),
}
WHAT = {"int": "has an integer dtype", "nonneg": "has no negative element", "dim": "has at least one dimension", "dim1": "is one-dimensional",
        "nonempty": "is not empty", "increasing": "is monotonically increasing", "integer": "is an integer", "each-integer": "contains only integers",
        "each-nonneg": "contains only non-negative numbers"}


def rooted(t, p):
    return p in roots(t)


def allowed(facts, p, what):
    """the values 0..3 of len(X.shape) (what='dim') or len(X) (what='len'), X built from p, that the path's tests let through"""
    out, seen = set(range(4)), False

    def val(t, n):
        if is_const(t):
            return const_value(t)
        x = length_of(t)
        if t.op == "attr" and t.args[1] == "ndim" and rooted(t, p) and what == "dim":
            return n
        if x is not None and rooted(x, p):
            shape = x.op == "attr" and x.args[1] == "shape"
            if what == "dim" and shape or what == "len" and not shape and not vector(x)[2] and not vector(x)[3]:
                return n
        if t.op == "bin":
            a, b = val(t.args[1], n), val(t.args[2], n)
            if t.args[0] == "+":
                return a + b
            if t.args[0] == "-":
                return a - b
        raise KeyError(t)

    def truth(t, n):
        if t.op == "not":
            return not truth(t.args[0], n)
        if t.op == "cmp" and t.args[0] in ("<", "<=", "=="):
            a, b = val(t.args[1], n), val(t.args[2], n)
            return a < b if t.args[0] == "<" else a <= b if t.args[0] == "<=" else a == b
        if t.op == "cmp" and t.args[0] == "in" and t.args[2].op in ("tuple", "list", "set"):
            return val(t.args[1], n) in [val(x, n) for x in t.args[2].args]
        return bool(val(t, n))
    for t, pol in facts:
        try:
            keep = set(n for n in out if truth(t, n) == pol)
        except (KeyError, TypeError):
            continue
        seen = True
        out = keep
    if what == "dim" and any(t.op == "cmp" and t.args[0] == "==" and pol and any(x is T("tuple") for x in t.args[1:]) for t, pol in facts):
        out &= {0}
    if what == "dim":
        # X.shape == () ruled out
        for t, pol in facts:
            if t.op == "cmp" and t.args[0] == "==" and not pol and any(x is T("tuple") for x in t.args[1:]) and any(x.op == "attr" and x.args[1] == "shape" and rooted(x, p) for x in t.args[1:]):
                out -= {0}
    return out


def holds(req, facts, p):
    """(proved, undecided)"""
    F = Facts(facts)
    if req == "int":
        for t, pol in facts:
            if not rooted(t, p):
                continue
            n = callee(t)
            if n == "_util_isintegertype" and pol or n in ("issubclass", "issubdtype") and pol and "integer" in str(t.args[-1]):
                return True, False
            if t.op == "cmp" and pol and ".kind" in str(t):
                return True, False
        return False, any(rooted(t, p) and "dtype" in str(t) and callee(t) not in ("issubclass", "_util_isintegertype") and t.op != "cmp" for t in F.other)
    if req == "integer":
        for t, pol in facts:
            if rooted(t, p) and pol and (callee(t) == "_util_isinteger" or callee(t) == "isinstance" and ("Integral" in str(t) or "integer" in str(t))):
                return True, False
        return False, False
    if req == "nonneg":
        for a in F.atoms:
            if is_const(a.lhs) and isinstance(const_value(a.lhs), int) and const_value(a.lhs) + a.k >= 0 and rooted(a.rhs, p) and not vector(a.rhs)[2] and not vector(a.rhs)[3] and vector(a.rhs)[0].op != "sub" and length_of(a.rhs) is None:
                return True, False
        return any(rooted(e, p) for e in F.empty), any(rooted(t, p) and callee(t) in ("all", "any") and "<" in str(t) for t in F.other)
    if req == "dim":
        return 0 not in allowed(facts, p, "dim"), False
    if req == "dim1":
        return allowed(facts, p, "dim") <= {1}, False
    if req == "nonempty":
        return 0 not in allowed(facts, p, "len"), False
    if req == "increasing":
        for a in F.atoms:
            if a.k >= 0 and rooted(a.lhs, p) and vector(a.lhs)[0] is vector(a.rhs)[0] and [show(x) for x in vector(a.lhs)[3]] == [":-1:"] and [show(x) for x in vector(a.rhs)[3]] == ["1::"]:
                return True, False
            d = method_arg(a.rhs, ()) or a.rhs
            if is_const(a.lhs) and const_value(a.lhs) == 0 and a.k >= 0 and callee(d) in ("diff", "ediff1d"):
                return True, False
        return any(rooted(e, p) for e in F.empty) or allowed(facts, p, "len") <= {0, 1}, any(rooted(t, p) and callee(t) in ("diff", "array_equal", "all", "any") for t in F.other)
    if req in ("each-integer", "each-nonneg"):
        und = any(rooted(t, p) for t in F.other)
        for it, sub, t in F.forall:
            if not rooted(it, p):
                continue
            if req == "each-integer" and any(callee(o) in ("_util_isinteger", "isinstance") for o in [x for x in [t.args[1]] if x.op == "call"]) and t.args[2]:
                return True, False
            if req == "each-nonneg" and any(is_const(a.lhs) and isinstance(const_value(a.lhs), int) and const_value(a.lhs) + a.k >= 0 for a in sub.atoms):
                return True, False
        return False, False
    raise AssertionError(req)


def rule_d(prog, rep):
    def eng(given=None, params=()):
        fl = flags(True, True, None)

        def sc(t, st):
            if given is not None and t.op == "cmp" and t.args[0] in ("is", "==") and t.args[2] is NONE and t.args[1].op == "param" and t.args[1].args[0] in params:
                return t.args[1].args[0] != given
            return fl(t, st)
        return Engine(prog, opaque=BASEOP | {"numpy"}, scenario=sc, max_returns=200)
    for (cn, pn), reqs in sorted(SETTERS.items()):
        c = prog.classes[cn]
        f = c.find_setter(pn)
        if f is None:
            rep.bad("D", "%s.%s setter" % (cn, pn), c.module.relpath, "the property has no setter any more; its checks are gone")
            continue
        rep.count("setters")
        p = T("param", [a.arg for a in f.node.args.args][1])
        sm = eng().summary(f, c)
        obligations(rep, sm, f, "%s.%s setter" % (cn, pn), p, reqs)
        for o in sm.raises:
            w = sorted(x for (b, x), v in o.state.heap.items() if b is SELF)
            rep.check(not w, "D", "%s.%s setter: raises after storing" % (cn, pn), "%s:%d" % (f.module.relpath, getattr(o.node, "lineno", 0)),
                      "the assignment is refused but has already replaced %s" % ", ".join(w))
    for c in array_classes(prog):
        for mn in ("__init__", "copy"):
            f = c.find(mn)
            if f is None:
                continue
            ps = [a.arg for a in f.node.args.args][1:]
            want = [(pn, SETTERS[k.qualname, pn]) for pn in ps for k in [next((k for k in c.mro() if (k.qualname, pn) in SETTERS and k.find_setter(pn) is c.find_setter(pn)), None)] if k is not None]
            if not want:
                continue
            rep.count("constructors")
            sm = eng().summary(f, c) if mn == "__init__" else None
            for pn, reqs in want:
                p = T("param", pn)
                if mn == "copy":
                    # one override given, the others left at None
                    sm = eng(pn, ps).summary(f, c)
                obligations(rep, sm, f, "%s.%s(%s)" % (c.qualname, mn, pn), p, reqs, skipnone=(mn == "copy"))


def obligations(rep, sm, f, label, p, reqs, skipnone=False):
    for o in sm.returns:
        facts = o.state.facts
        if skipnone and not any(rooted(v, p) for v in o.state.heap.values() if isinstance(v, Term)):
            continue
        if label.startswith("JaggedArray.__init__(stops") and any(callee(t) == "offsetsaliased" and pol for t, pol in facts):
            continue        # stops is a view of the offsets that starts was checked to be a view of
        for r in reqs:
            ok, und = holds(r, facts, p)
            rep.count("setter_obligations")
            if ok:
                rep.ok("%s %s" % (label, WHAT[r]))
            elif und:
                rep.count("undecided")
            else:
                rep.bad("D", "%s: %s" % (label, r), "%s:%d" % (f.module.relpath, f.node.lineno), "a path stores the value without having tested that it %s" % WHAT[r],
                        ["path facts: " + "; ".join(sorted("%s%s" % ("" if v else "not ", t) for t, v in facts))[:400]])


def rule_kinds(prog, rep):
    """the predicates the setters rely on"""
    c = prog.classes["AwkwardArray"]
    for name, pos, negs in (("_util_isinteger", ("isinstance",), ("bool",)), ("_util_isintegertype", ("issubclass",), ())):
        f = c.find(name)
        if f is None:
            continue
        sm = Engine(prog, max_returns=60).summary(f, c)
        for o in sm.returns:
            parts = set(o.state.facts)
            todo = [(o.term, True)]
            if o.term is FALSE:
                continue
            while todo:
                t, pol = todo.pop()
                while t.op == "not":
                    t, pol = t.args[0], not pol
                if t.op == "and" and pol or t.op == "or" and not pol:
                    todo += [(x, pol) for x in t.args]
                else:
                    parts.add((t, pol))
            isint = any(pol and callee(t) in pos and ("integer" in str(t) or "Integral" in str(t)) for t, pol in parts)
            nobool = not negs or any(not pol and callee(t) == "isinstance" and "bool" in str(t) for t, pol in parts)
            rep.check(isint, "D", "%s: integer" % name, "%s:%d" % (f.module.relpath, f.node.lineno), "accepts something that is not an integer")
            rep.check(nobool, "D", "%s: bool" % name, "%s:%d" % (f.module.relpath, f.node.lineno), "accepts a boolean as an integer")


def run(prog):
    rep = Report("C07", RULE)
    F = Fields(prog)
    rule_a(prog, rep)
    rule_b(prog, rep)
    rule_c(prog, rep, F)
    rule_d(prog, rep)
    rule_kinds(prog, rep)
    rep.floor("valid_methods", 8)
    rep.floor("readers", 30)
    rep.floor("setters", 16)
    rep.floor("constructors", 12)
    return rep
