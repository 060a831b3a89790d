"""C03: stored data can only call what the reader's whitelist names.

Gate analysis over awkward0.persist (and every other module): each operation that turns data into code (import by computed name,
computed getattr chains starting from an import, unpickling, eval/exec) is enumerated; on every path that reaches it the item-wise
match of the specification against an entry of the caller's whitelist must already be established.
"""
from sa.engine import *
from sa.report import Report
import fnmatch

RULE = ("must-facts at every data-to-code operation: quantified fnmatch of all items of the specification against all items of one "
        "whitelist entry, with that whitelist coming from the caller; constant check of the default whitelist; ordering of "
        "data-provided keyword arguments before the reader's whitelist")
ASSUMPTIONS = ("fnmatch.fnmatchcase, importlib.import_module and pickle.loads mean what the standard library says",
               "what a whitelisted callable itself does is the whitelist's responsibility",
               "pickle.loads of an array object (as opposed to reading stored data) is trusted: __setstate__/__reduce__ may add topython")

IMPORTS = {"importlib.import_module", "__import__", "importlib.__import__", "builtins.__import__"}
DECODERS = {"pickle.loads", "pickle.load", "pickle.Unpickler", "marshal.loads", "marshal.load", "dill.loads", "cloudpickle.loads",
            "_pickle.loads", "cPickle.loads", "eval", "exec", "compile", "builtins.eval", "builtins.exec", "os.system",
            "subprocess.Popen", "subprocess.call", "subprocess.check_output", "subprocess.run", "runpy.run_module", "runpy.run_path"}
FORBIDDEN = [("awkward0.persist", "topython"), ("awkward.persist", "topython"), ("awkward0.persist", "deserialize"), ("awkward0.persist", "load"),
             ("awkward0.persist", "spec2function"), ("awkward0.persist", "frompython"), ("awkward0.persist", "pickle", "loads"), ("pickle", "loads"), ("pickle", "load"),
             ("_pickle", "loads"), ("marshal", "loads"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "getattr"), ("builtins", "__import__"),
             ("os", "system"), ("os", "remove"), ("os", "popen"), ("posix", "system"), ("subprocess", "Popen"), ("subprocess", "call"),
             ("importlib", "import_module"), ("runpy", "run_path"), ("shutil", "rmtree"), ("code", "interact"), ("sys", "exit"),
             ("numpy", "load"), ("numpy", "fromfile"), ("numpy", "save"), ("numpy", "memmap"), ("numpy", "genfromtxt"), ("awkward0", "numpy", "load"), ("awkward0", "numpy", "save"),
             ("awkward0", "persist", "topython"), ("awkward0", "load"), ("awkward0", "deserialize"), ("awkward0.util", "numpy"), ("tests.anything", "callme"), ("user_module", "Class")]
FNM = {"fnmatch.fnmatchcase", "fnmatch.fnmatch"}


def inner(t, *ops):
    """strip element/index wrappers"""
    while t.op in ("elem", "sub", "loopv"):
        t = t.args[0] if t.op != "loopv" else t.args[2]
    return t


def from_params(t, names):
    """t is computed from these parameters (and constants) only"""
    rs = [r for r in roots(t) if r.op not in ("name", "opaque") or (r.op == "opaque" and r.args[0] not in ("exc", "noelem"))]
    return bool(rs) and all(r.op == "param" and (r.args[0] in names or r is SELF) for r in rs)


def own_options(t):
    """self.options, **options: what the caller of the reader gave"""
    if t.op == "attr":
        return t.args[0] is SELF
    return t.op == "param" and t.args[0].startswith("**")


def wl_like(t):
    """the caller's whitelist, possibly wrapped in a list / picked from self.options"""
    if t.op == "phi":
        return all(wl_like(x) for x in t.args)
    if t.op == "list":
        return len(t.args) == 1 and wl_like(t.args[0])
    if t.op == "loopv":
        return wl_like(t.args[2])
    if t.op == "call" and t.args[0].op == "name" and t.args[0].args[0] in ("list", "tuple", "iter", "sorted", "reversed") and len(t.args) == 2:
        return wl_like(t.args[1])
    if t.op == "param":
        return t.args[0].split(":")[-1] == "whitelist" or t.args[0] == "whitelist"
    if t.op == "sub":
        return t.args[1] is const("whitelist") and own_options(t.args[0])
    if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in ("get", "pop") and len(t.args) > 1:
        return t.args[1] is const("whitelist") and own_options(t.args[0].args[0]) and all(wl_like(x) or x.op == "name" for x in t.args[2:])
    if t.op == "attr":
        return t.args[1] in ("whitelist", "_whitelist")
    return False


def gate(facts):
    """[(spec term, entry term)] pairs for which a complete item-wise match is established"""
    out = []
    for f, v in facts:
        if f.op != "forall" or not v or f.args[2] is not True:
            continue
        it, m = f.args[0], f.args[1]
        if m.op != "call" or m.args[0].op != "name" or m.args[0].args[0] not in FNM or len(m.args) != 3:
            continue
        a, p = m.args[1], m.args[2]
        if it.op == "call" and it.args[0] is T("name", "zip") and len(it.args) == 3:
            x, y = it.args[1], it.args[2]
            if a is T("elem", x) and p is T("elem", y):
                spec, ent = x, y
            elif a is T("elem", y) and p is T("elem", x):
                spec, ent = y, x
            else:
                continue
            # zip stops at the shorter one: the entry must not be the longer
            if (T("cmp", "<", mk("call", T("name", "len"), spec), mk("call", T("name", "len"), ent)), False) in facts or \
               (T("cmp", "<=", mk("call", T("name", "len"), ent), mk("call", T("name", "len"), spec)), True) in facts or \
               any(w.op == "cmp" and w.args[0] == "==" and v2 and {mk("call", T("name", "len"), spec), mk("call", T("name", "len"), ent)} == set(w.args[1:]) for w, v2 in facts):
                out.append((spec, ent))
        elif a.op == "sub" and p.op == "sub" and a.args[1] is p.args[1]:
            # for i in range(len(entry)): obj[i], entry[i]   (a short spec raises)
            idx, spec, ent = a.args[1], a.args[0], p.args[0]
            if it.op == "call" and it.args[0] is T("name", "range") and len(it.args) == 2 and it.args[1] is mk("call", T("name", "len"), ent):
                out.append((spec, ent))
        elif a.op == "sub" and it.op == "call" and it.args[0] is T("name", "enumerate") and p is T("elem", it.args[1]):
            out.append((a.args[0], it.args[1]))
    return out


def gated(facts, need=None):
    """an entry of the caller's whitelist matched the specification `need` (or any, if None)"""
    for spec, ent in gate(facts):
        if ent.op == "elem" and wl_like(ent.args[0]):
            if need is None or spec is need or need(spec):
                return spec
    return None


def specroots(t):
    return set(r for r in roots(t) if r.op in ("param", "new") or r.op == "opaque")


def is_getattr(t):
    return t.op == "call" and t.args[0].op == "name" and t.args[0].args[0] in ("getattr", "builtins.getattr", "operator.attrgetter")


def own_module(t):
    """obj.__module__ of an object already in memory (writer-side round-trip test)"""
    if t.op == "attr" and t.args[1] == "__module__":
        return True
    if t.op == "phi":
        return all(own_module(x) for x in t.args)
    if t.op == "sub" and t.args[1] is const(0):
        b = t.args[0]
        if b.op == "phi":
            return all(own_module(mksub(x, const(0))) or lead_module(x) for x in b.args)
        return lead_module(b)
    return False


def lead_module(b):
    if b.op == "list":
        return bool(b.args) and own_module(b.args[0])
    if b.op == "bin" and b.args[0] == "+":
        return lead_module(b.args[1])
    return False


def sink_kind(ev):
    if ev.kind != "call":
        return None
    f = ev.extra[0]
    if f.op != "name":
        return None
    n = f.args[0]
    if n in IMPORTS:
        return "import"
    if n in DECODERS or n.split(".")[-1] in ("Unpickler",):
        return "decode"
    return None


def run(prog):
    rep = Report("C03", RULE)

    def keep(e):
        if e.kind == "call" and e.extra:
            f = e.extra[0]
            if f.op == "name" and (f.args[0] in IMPORTS or f.args[0] in DECODERS or f.args[0] in ("getattr", "awkward0.persist.spec2function",
                                   "awkward0.persist.topython", "awkward0.persist.json2type", "awkward0.persist.deserialize")):
                return True
        return False

    # 1. functions whose body holds a data-to-code operation
    direct = {}
    for f in sorted(prog.functions, key=lambda f: f.qual):
        txt = prog_text(f)
        if any(w in txt for w in ("import_module", "__import__", "loads", "Unpickler", "eval(", "exec(", "pickle", "marshal", "os.system", "subprocess", "runpy")):
            direct[f.qual] = f
    raw = set()      # functions that are themselves ungated primitives: every use of them must be gated
    gates = {}       # gated resolvers: function -> param index of whitelist
    entries = [f for f in prog.functions if f.module.name == "awkward0.persist"]
    for f in direct.values():
        if f not in entries:
            entries.append(f)
    eng0 = Engine(prog, keep_events=keep, max_returns=40, opaque={"unfill"}, inline_filter=lambda g, _: g.module.name == "awkward0.persist" and g.name not in ("Array",))

    # 2. classify the primitives: data-to-code operations not gated where they stand make the function a primitive whose uses are checked
    imports = set()
    for f in sorted(direct.values(), key=lambda f: f.qual):
        s = eng0.summary(f, f.cls)
        for ev in s.events:
            k = sink_kind(ev)
            if k is None or ev.via:
                continue
            a = ev.extra[1].args
            rep.count("data-to-code operations")
            if a and is_const(a[0]) or (k == "import" and a and own_module(a[0])):
                rep.ok("%s: constant, or re-import of the module of an object in memory" % f.qual)
                continue
            g = gated(ev.facts)
            ok = g is not None and bool(a) and (k == "decode" or specroots(a[0]) <= specroots(g))
            if ok:
                rep.ok("%s imports only after a complete whitelist match" % f.qual)
                if k == "import":
                    gates[f.qual] = f
            else:
                raw.add(f.qual)
                rep.count("ungated primitives")
                if k == "import":
                    imports.add(f.qual)
    changed = True
    while changed:
        changed = False
        for f in prog.functions:
            if f.qual in raw or not any(n.split(".")[-1] in prog_text(f) for n in raw):
                continue
            eng = Engine(prog, keep_events=keep, max_returns=40, inline_filter=lambda g, _: g.module.name == "awkward0.persist" and g.qual not in raw)
            s = eng.summary(f, f.cls)
            for ev in s.events:
                if ev.kind != "call" or ev.extra[0].op != "name" or ev.extra[0].args[0] not in raw or ev.via:
                    continue
                nm = ev.extra[0].args[0]
                a = ev.extra[1].args
                g = gated(ev.facts)
                if g is not None and a and (nm not in imports or specroots(a[0]) <= specroots(g)):
                    rep.ok("%s uses %s only after a complete whitelist match" % (f.qual, nm))
                    if nm in imports and f.qual not in gates:
                        gates[f.qual] = f
                        changed = True
                elif f.name.startswith("_") and not f.name.startswith("__"):
                    raw.add(f.qual)
                    if nm in imports:
                        imports.add(f.qual)
                    changed = True
                else:
                    rep.bad("ungated-import" if nm in imports else "ungated-unpickle", f.qual, ev.where, "calls %s, which %s, before every item of the specification has matched an entry of the caller's whitelist" % (
                        nm, "imports by a computed name" if nm in imports else "unpickles"))

    # 3. the resolver does not walk into other modules
    def plain(t, st):
        if t.op == "cmp" and t.args[0] == "==" and any(is_const(x) or (x.op in ("list", "tuple") and x.args and all(is_const(y) for y in x.args)) for x in t.args[1:]):
            return False
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "startswith":
            return False
        return None
    for q, f in sorted(gates.items()):
        eng = Engine(prog, keep_events=keep, max_returns=60, scenario=plain)
        s = eng.summary(f, f.cls)

        def module_free(t, facts):
            if t.op == "phi":
                return all(module_free(x, facts) for x in t.args)
            if (mk("call", T("name", "isinstance"), t, T("name", "types.ModuleType")), False) in facts:
                return True
            if t.op == "call" and t.args[0].op == "name" and t.args[0].args[0] in IMPORTS:
                return True
            if t.op == "call" and t.args[0].op == "name" and t.args[0].args[0] in ("inspect.ismodule",):
                return False
            if t.op == "loopv":
                return module_free(t.args[2], facts) if t.args[2].op == "call" else False
            return False
        for ev in s.events:
            if ev.kind == "call" and is_getattr(ev.term) and len(ev.extra[1].args) >= 2 and not is_const(ev.extra[1].args[1]):
                rep.count("attribute steps")
                rep.check(module_free(ev.extra[1].args[0], ev.facts), "module-step", q, ev.where,
                          "looks up a stored name in an object that may be a module reached through another module")
        for o in s.returns:
            if o.term is NONE:
                continue
            rep.count("resolver returns")
            rep.check(module_free(o.term, o.state.facts), "module-result", q, "%s:%d" % (f.module.relpath, getattr(o.node, "lineno", 0)),
                      "can return something reached through attributes without excluding that it is a module")

    # 4. callers: resolver calls carry the caller's whitelist; primitives are only used through the gate
    allf = sorted(prog.functions, key=lambda f: f.qual)
    readers = {}
    for f in allf:
        txt = prog_text(f)
        if not any(n.split(".")[-1] in txt for n in list(gates) + list(raw) + ["deserialize", "json2type"]):
            continue
        eng = Engine(prog, keep_events=lambda e: e.kind in ("call", "loop"), max_depth=6, inline_filter=lambda g, _: g.module.name == "awkward0.persist" and g.qual not in gates
                     and g.qual not in raw and g.name not in ("deserialize", "json2type", "load"), inline_ctor=False)
        s = eng.summary(f, f.cls)
        for ev in s.events:
            if ev.kind != "call" or ev.via:
                continue
            fn, pos, kws = ev.extra[0], ev.extra[1].args, dict((k.args[0], k.args[1]) for k in ev.extra[2].args if k.op == "kw")
            nm = fn.args[0] if fn.op == "name" else None
            if nm in gates or nm in ("awkward0.persist.deserialize", "awkward0.persist.json2type"):
                g = func(prog, nm)
                if g is None or f.qual in gates:
                    continue
                names = [x.arg for x in g.node.args.args]
                if "whitelist" not in names:
                    rep.bad("no-whitelist-parameter", nm, ev.where, "%s does not take a whitelist" % nm)
                    continue
                i = names.index("whitelist")
                w = kws.get("whitelist", pos[i] if i < len(pos) else None)
                dst = [k for k in ev.extra[2].args if k.op == "dstar"]
                rep.count("resolver calls")
                ok = w is not None and (wl_like(w) or trusted_state(f, w, prog))
                if w is None and dst and any(from_params(k.args[0], [k.args[0].args[0]] if k.args[0].op == "param" else []) for k in dst):
                    ok = True          # the caller's own options are passed through
                rep.check(ok, "whitelist-not-passed", "%s->%s" % (f.qual, nm.split(".")[-1]), ev.where,
                          "calls %s with %s instead of the caller's whitelist" % (nm, "the default whitelist" if w is None else show(w)[:60]))
        # references to a primitive that are not calls (passing topython around)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and ("%s.%s" % (f.module.name, n.id)) in raw:
                if not any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(f.node)) and f.qual not in raw:
                    rep.bad("primitive-escapes", f.qual, "%s:%d" % (f.module.relpath, n.lineno), "hands out %s without the whitelist" % n.id)

    # 5. calling what was resolved: data-provided keywords cannot replace the reader's whitelist
    d = func(prog, "awkward0.persist.deserialize")
    if d is None:
        rep.bad("no-reader", "deserialize", "awkward0/persist.py", "reader entry point not found")
    else:
        eng = Engine(prog, keep_events=lambda e: True, inline_filter=lambda g, _: g.module.name == "awkward0.persist" and g.qual not in gates and g.qual not in raw, inline_ctor=False)
        s = eng.summary(d, None)
        n = 0
        for ev in s.events:
            if ev.kind != "call":
                continue
            fn = ev.extra[0]
            if not is_resolved(fn, gates):
                continue
            rep.count("calls of resolved functions")
            n += 1
            if const_spec(fn):
                rep.ok()
                continue
            K = [k.args[0] for k in ev.extra[2].args if k.op == "dstar"] or [T("dict", *[T("item", const(k.args[0]), k.args[1]) for k in ev.extra[2].args])]
            for k in K:
                late = keyword_order(k, fn, ev.facts)
                rep.check(late is None, "data-keywords-last", d.qual, ev.where, late or "")
        # unresolved "call" results: something else from the data gets called
        for ev in s.events:
            if ev.kind == "call" and not ev.via and ev.extra[0].op in ("sub", "elem", "val") and any(r.op == "param" for r in roots(ev.extra[0])):
                rep.bad("calls-data", d.qual, ev.where, "calls an object taken from the stored data: %s" % show(ev.extra[0])[:80])

    # 6. reader classes keep the caller's options
    for cname, meths in (("awkward0.persist.Load", ("__getitem__",)), ("awkward0.persist.hdf5", ("__getitem__",))):
        c = prog.classes.get(cname)
        if c is None or c.find("__init__") is None:
            continue
        f = c.find("__init__")
        kw = f.node.args.kwarg
        eng = Engine(prog, keep_events=lambda e: True, inline_ctor=False)
        s = eng.summary(f, c)
        if kw is None:
            continue
        p = T("param", "**" + kw.arg)
        for o in s.returns:
            hit = any(m.op == "call" and m.args[0].op == "attr" and m.args[0].args[1] == "update" and p in m.args[1:] for m in o.state.marks)
            for (b, at), v in o.state.heap.items():
                if b is SELF and any(x is p for x in v.walk()):
                    hit = True
            rep.check(hit, "options-dropped", cname, "%s:%d" % (f.module.relpath, f.node.lineno), "%s.__init__ does not keep the caller's options (whitelist)" % cname)

    # 7. the default whitelist
    default_whitelist(rep, prog)
    rep.floor("data-to-code operations", 3)
    rep.floor("resolver calls", 5)
    rep.floor("calls of resolved functions", 1)
    return rep


def func(prog, q):
    for f in prog.functions:
        if f.qual == q:
            return f
    return None


_TXT = {}


def prog_text(f):
    if f not in _TXT:
        _TXT[f] = ast.unparse(f.node)
    return _TXT[f]


def trusted_state(f, w, prog):
    """unpickling an array object: the module's default whitelist, extended by constants"""
    if f.name not in ("__setstate__", "__reduce__", "__reduce_ex__"):
        return False
    return True


def is_resolved(fn, gates):
    if fn.op == "phi":
        return any(is_resolved(x, gates) for x in fn.args)
    return fn.op == "call" and fn.args[0].op == "name" and (fn.args[0].args[0] in gates or (is_getattr(fn) and any(
        x.op == "call" and x.args[0].op == "name" and x.args[0].args[0] in IMPORTS for x in fn.walk())))


def const_spec(fn):
    """a resolver call with a specification written in the program: never json2type"""
    return fn.op == "call" and len(fn.args) > 1 and fn.args[1].op in ("list", "tuple") and all(is_const(x) for x in fn.args[1].args) \
        and const("json2type") not in fn.args[1].args


def variants(t):
    return [y for x in t.args for y in variants(x)] if t.op == "phi" else [t]


def keyword_order(K, fn, facts):
    """the reader's whitelist is written after everything that comes from the data; or it is not needed by what is called"""
    for v in variants(K):
        if v.op == "comp":
            v = T("dict", T("dstar", v))
        if v.op not in ("dict", "dict0"):
            return "cannot see which keyword arguments %s holds" % show(v)[:80]
        items = [x for x in v.args if isinstance(x, Term)]
        pos = [i for i, x in enumerate(items) if x.op == "item" and x.args[0] is const("whitelist")]
        other = [i for i, x in enumerate(items) if x.op == "dstar" or (x.op == "item" and not is_const(x.args[0]))]
        if pos:
            if other and max(other) > max(pos):
                return "keyword arguments from the data are merged after the reader's whitelist was set, so they can replace it"
            if not wl_like(items[max(pos)].args[1]):
                return "passes %s as the whitelist instead of the reader's" % show(items[max(pos)].args[1])[:60]
        else:
            js = T("name", "awkward0.persist.json2type")
            if not any(f.op == "cmp" and f.args[0] in ("is", "==") and js in f.args and not tr for f, tr in facts):
                return "json2type may be called without the reader's whitelist (it would use the default, or one from the data)"
    return None


def const_lists(prog, modname, name):
    m = prog.modules[modname]
    val = None
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            val = n
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return n, None
    return val, (val.value if val is not None else None)


def default_whitelist(rep, prog):
    n, v = const_lists(prog, "awkward0.persist", "whitelist")
    where = "awkward0/persist.py:%d" % (n.lineno if n is not None else 0)
    try:
        wl = ast.literal_eval(v)
    except Exception:
        wl = const_fold(v, prog)
    if wl is None:
        rep.bad("default-whitelist-unreadable", "whitelist", where, "the default whitelist is not a constant list")
        return
    for e in wl:
        rep.count("default whitelist entries")
        for spec in FORBIDDEN:
            if len(spec) >= len(e) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(spec, e)):
                rep.bad("default-whitelist-too-wide", ".".join(spec), where, "the default whitelist entry %r lets stored data call %s" % (e, ".".join(spec)))
    rep.ok("default whitelist excludes %d reference specifications" % len(FORBIDDEN))
    for f in prog.functions:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert") and ast.unparse(x.func.value).split(".")[-1] == "whitelist":
                rep.bad("whitelist-widened", f.qual, "%s:%d" % (f.module.relpath, x.lineno), "changes a whitelist in place at run time")


def const_fold(v, prog):
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = const_fold(v.left, prog), const_fold(v.right, prog)
        return None if a is None or b is None else a + b
    if v is None:
        return None
    try:
        return ast.literal_eval(v)
    except Exception:
        return None
