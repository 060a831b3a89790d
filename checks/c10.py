"""C10: walks over whole structures (nbytes, columns, rowname, type, layout, pandas conversion, and the type walks) terminate on
self-containing structure and treat every node exactly once."""
import ast
from sa.engine import *
from sa.walks import *
from sa.fields import Fields, array_classes
from sa.report import Report
from sa.model import dotted

RULE = ("guarded-recursion analysis: in the call graph of the functions that pass on a record of visited nodes, every step inside a "
        "recursive component hands on the caller's own record, and every cycle contains a step taken only where the caller's node was "
        "tested to be absent from the record and then entered into it; ids entered belong to objects that stay alive; a node met again "
        "gets the value that was entered for it; each class's walk reaches every array-valued field")
ASSUMPTIONS = ("recursion is resolved by method name over all classes (an over-approximation of dynamic dispatch)",
               "generators of virtual arrays and user mixins are outside the package and do not re-enter a walk")
OPAQUE = {"__init__", "copy", "materialize", "_util_toarray", "__getitem__", "_valid", "fromarray", "mixin", "offsetsaliased"}


def idkey(t, subjects):
    """t is (or is a tuple of) id(X) with X among subjects -> X's, else None"""
    if t.op == "call" and t.args[0] is T("name", "id") and len(t.args) == 2:
        x = t.args[1]
        if x in subjects or (x.contains(lambda y: y.op == "loopv") and x.contains(lambda y: y in subjects)):
            return (x,)       # the node itself, or what a loop has replaced it by
        return None
    if t.op == "tuple":
        out = ()
        for x in t.args:
            k = idkey(x, subjects)
            if k is None:
                return None
            out += k
        return out
    return None


def containers(t, rec):
    """t is the record itself or a copy of it"""
    if t is rec:
        return True
    if t.op == "call" and len(t.args) == 2 and t.args[0].op == "name" and t.args[0].args[0] in ("set", "dict", "frozenset", "list"):
        return containers(t.args[1], rec)
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("copy", "union") and t.args[0].args[0] is rec:
        return True
    if t.op == "phi":
        return all(containers(x, rec) for x in t.args)
    return False


def registered(m, rec):
    """(key, value) if mark m enters a key into the record"""
    if m.op == "setitem" and containers(m.args[0], rec):
        return m.args[1], m.args[2]
    if m.op == "call" and m.args[0].op == "name" and rec.op == "name" and m.args[0].args[0] == rec.args[0] + ".add" and len(m.args) == 2:
        return m.args[1], None
    if m.op == "call" and m.args[0].op == "attr" and containers(m.args[0].args[0], rec):
        if m.args[0].args[1] == "add" and len(m.args) == 2:
            return m.args[1], None
        if m.args[0].args[1] == "setdefault" and len(m.args) == 3:
            return m.args[1], m.args[2]
    return None


def tested(facts, rec):
    """keys the facts establish to be (absent, present)"""
    no, yes = set(), set()
    for f, v in facts:
        if f.op == "cmp" and f.args[0] in ("in", "not in") and len(f.args) == 3 and containers(f.args[2], rec):
            (yes if v == (f.args[0] == "in") else no).add(f.args[1])
        if f.op == "cmp" and f.args[0] in ("is", "is not") and f.args[2] is NONE and f.args[1].op == "call" and f.args[1].args[0].op == "attr" \
                and f.args[1].args[0].args[1] == "get" and containers(f.args[1].args[0].args[0], rec) and len(f.args[1].args) == 2:
            (no if v == (f.args[0] == "is") else yes).add(f.args[1].args[1])
    return no, yes


class Step(object):
    def __init__(self, src, name, ev, guarded, own):
        self.src, self.name, self.ev, self.guarded, self.own = src, name, ev, guarded, own


def run(prog):
    rep = Report("C10", RULE)
    W = Walks(prog)
    walks = [w for w in W.walks.values() if w.rec is not None]
    names = {}
    calls = dict((w, set((dotted(n.func) or getattr(n.func, "attr", "") or "").split(".")[-1] for n in ast.walk(w.f.node) if isinstance(n, ast.Call))) for w in walks)
    wnames = set(w.f.name for w in walks) | set(["LayoutNode"])
    descend = set(w.f.name for w in walks if calls[w] & wnames)
    walks = [w for w in walks if w.f.name in descend]        # the others only keep the record; they are followed into
    for w in walks:
        n = w.f.cls.name if w.f.name == "__init__" and w.f.cls else w.f.name
        names.setdefault(n, []).append(w)
    opaque = OPAQUE | set(n for n in names if n != "LayoutNode")
    eng = Engine(prog, opaque=opaque, mark_stores=True, max_returns=40, keep_events=lambda e: e.kind in ("call", "setitem", "setattr"))
    steps, summ = {}, {}
    for w in sorted(walks, key=lambda w: w.f.qual):
        s = eng.summary(w.f, w.f.cls)
        summ[w] = s
        rec = T("param", w.rec) if not w.nested else T("name", w.rec)
        recs = set([rec])
        if w.nested:
            recs = set(x for e in s.events for f, v in e.facts for x in [f.args[-1]] if f.op == "cmp" and f.args[0] in ("in", "not in") and show(x) == w.rec) or recs
            rec = sorted(recs, key=repr)[0]
        w.recterm = rec
        subjects = set([SELF] if w.f.cls and w.f.kind == "method" else []) | set(T("param", p) for p in free_params(w.f))
        if w.nested:
            subjects = set(T("param", p) for p in params(w.f))
        w.subjects = subjects
        rep.count("walk functions")
        for e in s.events:
            if e.kind != "call":
                continue
            f, pos, kws = e.extra
            n = f.args[1] if f.op == "attr" else f.args[0] if f.op in ("name", "class") else None
            if not isinstance(n, str):
                continue
            last = n.split(".")[-1]
            rootcall = last == "fromarray"
            if last not in names and not rootcall:
                continue
            if f.op == "name" and "." in n and not n.startswith("awkward0."):
                continue
            if last in names and w.nested != all(x.nested for x in names[last]) and not (not w.nested and last in names):
                continue
            posl = list(pos.args)
            kwl = [(k.args[0], k.args[1]) for k in kws.args if k.op == "kw"]
            args = set()
            targets = []
            if rootcall:
                targets = ["_fromarray"]
                own = False
            else:
                targets = [last]
                own = True
                for x in names[last]:
                    if x.nested:
                        if x is not w and not (w.nested and x.f.node is w.f.node):
                            continue
                        continue
                    a = argument(x, None, posl, kwl)
                    if a is None and x.f.kind == "staticmethod":
                        ps = params(x.f)
                        i = ps.index(x.rec)
                        a = posl[i] if i < len(posl) else None
                    own = own and a is not None and containers(a, rec)
            no, yes = tested(e.facts, rec)
            regs = [registered(m, rec) for m in e.marks]
            keys = set(r[0] for r in regs if r is not None)
            guarded = any(k in keys and idkey(k, subjects) for k in no)
            for t in targets:
                steps.setdefault(w, []).append(Step(w, t, e, guarded, own))
            rep.count("recursive steps")
    # graph over walk functions; a step goes to every function of that name
    def succ(w, unguarded_only=False):
        out = set()
        for st in steps.get(w, ()):
            if unguarded_only and st.guarded and st.own:
                continue
            for x in names.get(st.name, ()):
                if x.nested and x is not w:
                    continue
                out.add(x)
        return out
    comp = scc(walks, succ)
    for group in comp:
        gset = set(group)
        if len(group) == 1 and group[0] not in succ(group[0]):
            rep.count("functions outside recursion")
            continue
        rep.count("recursive components")
        for w in sorted(group, key=lambda w: w.f.qual):
            for st in steps.get(w, ()):
                if not any(x in gset for x in names.get(st.name, ()) if not (x.nested and x is not w)):
                    continue
                if w.nested:
                    rep.ok()
                    continue
                rep.check(st.own, "restart", "%s -> %s" % (w.label(), st.name), st.ev.where,
                          "%s starts %s with another record of visited nodes than its own: a structure containing itself is walked without end" % (w.label(), st.name))
        # cycles left when guarded steps are taken out
        sub = scc(group, lambda w: set(x for x in succ(w, True) if x in gset) if True else ())
        for g in sub:
            if len(g) == 1 and g[0] not in succ_own(g[0], steps, names):
                rep.ok("guarded: %s" % g[0].label())
                continue
            for w in sorted(g, key=lambda w: w.f.qual):
                if all(st.guarded for st in steps.get(w, ()) if any(x in g for x in names.get(st.name, ()))):
                    continue
                bad = [st for st in steps.get(w, ()) if not st.guarded and any(x in g for x in names.get(st.name, ()))]
                rep.bad("unguarded", "%s -> %s" % (w.label(), bad[0].name), bad[0].ev.where,
                        "%s descends without having found its node absent from the record and entered it (cycle: %s)" % (
                            w.label(), ", ".join(sorted(set(x.label() for x in g))[:6])))
    memo(rep, walks, summ)
    lifetimes(rep, walks, steps, names, summ)
    closures(rep, W)
    restarts(rep, prog, walks, names)
    complete(rep, prog, eng)
    rep.floor("walk functions", 60)
    rep.floor("recursive steps", 60)
    rep.floor("recursive components", 8)
    return rep


def succ_own(w, steps, names):
    out = set()
    for st in steps.get(w, ()):
        if st.guarded and st.own:
            continue
        out |= set(x for x in names.get(st.name, ()) if not (x.nested and x is not w))
    return out


def scc(nodes, succ):
    nodes = list(nodes)
    ns = set(nodes)
    index, low, onst, st, out = {}, {}, set(), [], []

    def visit(v):
        index[v] = low[v] = len(index)
        st.append(v)
        onst.add(v)
        for x in sorted((y for y in succ(v) if y in ns), key=lambda w: w.f.qual):
            if x not in index:
                visit(x)
                low[v] = min(low[v], low[x])
            elif x in onst:
                low[v] = min(low[v], index[x])
        if low[v] == index[v]:
            g = []
            while True:
                x = st.pop()
                onst.discard(x)
                g.append(x)
                if x is v:
                    break
            out.append(g)
    for v in sorted(nodes, key=lambda w: w.f.qual):
        if v not in index:
            visit(v)
    return out


def memo(rep, walks, summ):
    """a node met again gets what was entered for it: value returned at the first visit is the entered one"""
    for w in walks:
        s = summ[w]
        rec = w.recterm
        again = []
        for o in s.returns:
            no, yes = tested(o.state.facts, rec)
            if o.term is not None and yes and frommemo(o.term, rec, yes) is not None:
                again.append(frommemo(o.term, rec, yes))
        if not again:
            continue
        for o in s.returns:
            no, yes = tested(o.state.facts, rec)
            regs = [registered(m, rec) for m in o.state.marks]
            regs = [r for r in regs if r is not None and r[1] is not None and (r[0] in no or idkey(r[0], w.subjects))]
            if yes & set(k for k, _ in regs) or (yes and not regs):
                continue
            for k, v in regs:
                for path in again:
                    x = v
                    for p in path:
                        x = x.args[int(p)] if x.op == "tuple" and int(p) < len(x.args) else T("sub", x, const(int(p)))
                    again2 = v.op == "call" and len(set((e.node.lineno, e.node.col_offset) for e in s.events if e.kind == "call" and e.term is v
                                                        and e.facts <= o.state.facts)) > 1
                    same = (o.term is x and not again2) or (o.term.op == "sub" and containers(o.term.args[0], rec) and o.term.args[1] is k and not path) \
                        or isheap(o, x)
                    rep.count("memoised results")
                    rep.check(same, "memo", w.label(), "%s:%d (%s)" % (w.f.module.relpath, getattr(o.node, "lineno", w.f.node.lineno), w.f.short()),
                              "%s enters %s for its node but returns %s" % (w.label(), show(x)[:80], show(o.term)[:80]))


def isheap(o, x):
    return o.term.op == "phi" and x in o.term.args and all(y is x for y in o.term.args)


def frommemo(t, rec, keys):
    """component path of the record entry that t denotes"""
    path = []
    while t.op == "sub":
        if containers(t.args[0], rec) and t.args[1] in keys:
            return tuple(reversed(path))
        if t.args[1].op == "const" and t.args[1].args[0] == "int":
            path.append(t.args[1].args[1])
            t = t.args[0]
        else:
            return None
    return None


def lifetimes(rep, walks, steps, names, summ):
    """objects whose ids are recorded outlive the walk"""
    temps = set()        # (walk, parameter) that some caller passes a temporary object for
    while True:
        n = len(temps)
        for src, sts in steps.items():
            for st in sts:
                for w in names.get(st.name, ()):
                    if w.nested:
                        continue
                    for x in w.subjects:
                        a = actual(st.ev, x, w)
                        if a is not None and (temporary(a) or (src, a) in temps):
                            temps.add((w, x))
        if len(temps) == n:
            break
    for w in sorted(walks, key=lambda w: w.f.qual):
        if w.nested:
            continue
        rec = w.recterm
        regs = {}
        for e in summ[w].events:
            for m in e.marks:
                r = registered(m, rec)
                if r is not None:
                    regs.setdefault(r[0], set()).add(r[1])
        for o in summ[w].returns:
            for m in o.state.marks:
                r = registered(m, rec)
                if r is not None:
                    regs.setdefault(r[0], set()).add(r[1])
        for key, values in sorted(regs.items(), key=repr):
            subj = idkey(key, w.subjects)
            if not subj:
                continue
            for x in subj:
                rep.count("recorded ids")
                if all(v is not None and holds(v, x) for v in values) or any(
                        e.kind in ("setattr", "setitem") and holds(e.extra[1] if e.extra[1] is not None else NONE, x) for e in summ[w].events):
                    rep.ok("kept alive: %s in %s" % (show(x), w.label()))
                    continue
                # otherwise every caller must pass an object that something else holds on to
                bad = None
                me = w.f.cls.name if w.f.name == "__init__" and w.f.cls else w.f.name
                for src, sts in steps.items():
                    for st in sts:
                        if st.name != me:
                            continue
                        a = actual(st.ev, x, w)
                        if a is not None and (temporary(a) or (src, a) in temps):
                            bad = (src, st, a)
                            break
                    if bad:
                        break
                if bad is None:
                    rep.ok("callers hold: %s in %s" % (show(x), w.label()))
                else:
                    rep.bad("id-reuse", "%s|%s" % (w.label(), show(x)), bad[1].ev.where,
                            "%s records the id of %s, which %s passes without keeping it alive: the id can be reused by another object" % (
                                w.label(), show(bad[2])[:80], bad[0].label()))


def holds(v, x):
    if v is x:
        return True
    return v.op in ("tuple", "list") and any(holds(y, x) for y in v.args)


def actual(ev, x, w):
    f, pos, kws = ev.extra
    if x is SELF:
        return f.args[0] if f.op == "attr" else None
    ps = free_params(w.f) if w.f.kind != "staticmethod" else params(w.f)
    nm = x.args[0]
    for k in kws.args:
        if k.op == "kw" and k.args[0] == nm:
            return k.args[1]
    if nm in ps and ps.index(nm) < len(pos.args):
        return pos.args[ps.index(nm)]
    return None


def temporary(t):
    """t may be an object nothing but this expression refers to: what a virtual array yields, a slice, a call's result"""
    if t.op == "phi":
        return any(temporary(x) for x in t.args)
    if t.op == "attr":
        return t.args[1] in ("array",) or temporary(t.args[0]) if t.args[0].op != "param" else t.args[1] == "array"
    if t.op in ("elem", "val", "key"):
        return temporary(t.args[0])
    if t.op == "sub":
        return t.args[1].op == "slice" or temporary(t.args[0]) or (t.args[0].op == "attr" and t.args[0].args[1] in ("_cache", "cache"))
    if t.op == "call":
        f = t.args[0]
        if f.op == "attr" and f.args[1] in ("materialize",):
            return True
        return f.op == "attr" and f.args[1] in ("__getitem__",)
    return False


def restarts(rep, prog, walks, names):
    """no walk asks a part for the very property it is computing: that would start another walk"""
    roots = {}
    for f in prog.functions:
        if f.cls is None or f.prop == "set":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in names:
                nm = dotted(n.func).split(".")[-1]
                if any(isinstance(a, (ast.Dict, ast.Set)) and not getattr(a, "keys", getattr(a, "elts", ())) or
                       (isinstance(a, ast.Call) and dotted(a.func) in ("set", "dict")) and not a.args for a in n.args) and f.name not in names:
                    roots.setdefault(nm, set()).add(f.name)
    for w in sorted(walks, key=lambda w: w.f.qual):
        if w.f.cls is None or w.f.name not in roots:
            continue
        me = (params(w.f) or [""])[0]
        for n in ast.walk(w.f.node):
            if isinstance(n, ast.Attribute) and n.attr in roots[w.f.name] and n.attr != "nbytes" and not n.attr.startswith("__") \
                    and not (isinstance(n.value, ast.Name) and n.value.id == me) \
                    and (dotted(n) or "?").split(".")[0] not in w.f.module.imports:
                rep.bad("restart", "%s reads .%s" % (w.label(), n.attr), "%s:%d (%s)" % (w.f.module.relpath, n.lineno, w.f.short()),
                        "%s asks a part for .%s, which starts a new walk without this one's record" % (w.label(), n.attr))
        rep.count("root properties", len(roots[w.f.name]))


TYPEPARTS = {"_to", "_fields", "_possibilities", "_type"}


def closures(rep, W):
    """local recursive functions over Type structure keep a record"""
    for g, w in sorted(W.walks.items(), key=lambda x: x[0].qual):
        if not w.nested:
            continue
        parts = set(n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute) and n.attr in TYPEPARTS)
        if len(parts & TYPEPARTS) >= 2:
            rep.count("local walks over types")
            rep.check(w.rec is not None, "no-record", g.qual, "%s:%d" % (g.module.relpath, g.node.lineno),
                      "%s descends into types without a record of those already visited" % g.qual)


def reads(node, selfn):
    return set(n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == selfn)


def arrayfields(c, derived):
    """fields of c whose setter converts what it stores into an array (or a list of arrays)"""
    out = {}
    for k in reversed(c.mro()):
        for f in k.setters.values():
            if c.find_setter(f.name) is not f:
                continue
            me = params(f)[0]
            conv = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "_util_toarray" for x in ast.walk(n.value)):
                    conv.update(t.id for t in n.targets if isinstance(t, ast.Name))
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr not in derived:
                            v = n.value
                            if isinstance(v, ast.Name) and v.id in conv or any(
                                    isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] == "_util_toarray" for x in ast.walk(v)):
                                out[t.attr] = f
    return out


LISTS = {"_chunks", "_contents"}


def complete(rep, prog, eng):
    """memory accounting and layout reach every array a class holds"""
    F = Fields(prog)
    for c in array_classes(prog):
        derived = set(d for d in F.derived(c))
        need = arrayfields(c, derived)
        for l in sorted(LISTS):
            if c.find_setter(l[1:]) is not None:
                need.setdefault(l, c.find_setter(l[1:]))
        for wn in ("_getnbytes", "_util_layout"):
            f = c.find(wn)
            if f is None:
                rep.bad("missing-walk", "%s.%s" % (c.qualname, wn), c.module.relpath, "%s has no %s" % (c.qualname, wn))
                continue
            s = eng.summary(f, c)
            for x in sorted(need):
                t = T("attr", SELF, x)
                bad = None
                for o in s.returns:
                    seenterm = any(v and g.op == "cmp" and g.args[0] == "in" for g, v in o.state.facts)
                    if seenterm:
                        continue
                    terms = [o.term] + (list(o.state.marks) if wn == "_util_layout" else [])
                    if wn == "_util_layout":
                        ok = any(e.kind == "call" and e.extra[0].args[-1] in ("LayoutNode",) and e.extra[1].op == "tuple" and e.extra[1].args and
                                 e.extra[1].args[0].contains(lambda y: y is t) for e in s.events)
                    else:
                        ok = o.term.contains(lambda y: y is t) or any(g.contains(lambda y: y is t) for g, v in o.state.facts if v)
                        if x in LISTS or x == "_content":
                            ok = any(e.kind == "call" and e.extra[0].op == "attr" and e.extra[0].args[1] == "_getnbytes" and
                                     e.extra[0].args[0].contains(lambda y: y is t) for e in s.events)
                    if not ok:
                        bad = o
                rep.count("array fields reached")
                rep.check(bad is None, "left-out", "%s.%s|%s" % (c.qualname, wn, x), "%s:%d (%s)" % (f.module.relpath, f.node.lineno, f.short()),
                          "%s of a %s leaves out %s" % (f.short(), c.qualname, x))
