"""C02: in-place (`out=`) and non-call ufunc methods are refused by every array class; call options reach every application.

Partial evaluation of each __array_ufunc__ (through the MRO and its helpers) under the two hypotheses "an out= was given" and
"the ufunc method is not __call__": every path must end in a raise or in NotImplemented with no application of the ufunc on the
way.  Under the third hypothesis (a plain call) every application found must forward the caller's keyword options.
"""
from sa.engine import *
from sa.report import Report

RULE = ("path enumeration of every __array_ufunc__ under the hypotheses out= given / method != '__call__' (all paths refuse, no "
        "application reached) and plain call (every application forwards **kwargs)")
ASSUMPTIONS = ("numpy dispatches ufuncs, augmented assignments and out= through __array_ufunc__ with keyword 'out'",)

OPAQUE = {"type", "dtype", "shape", "layout", "_gettype", "_util_toarray", "_valid", "offsets", "counts", "parents", "compact",
          "_tojagged", "tojagged", "copy", "__getitem__", "__setitem__", "boolmask", "array", "dense", "content", "contents", "starts", "stops",
          "concatenate", "JaggedArray", "__init__", "chunksizes", "slices", "flatten", "materialize", "fromiter", "fromstr", "fromnumpy",
          "maybemixin", "_setitem_", "tolist"}


def kwparam(func):
    a = func.node.args
    return T("param", "**" + a.kwarg.arg) if a.kwarg else None


def make_scenario(kw, method, has_out, is_call):
    OUT, CALL = const("out"), const("__call__")

    def sc(t, st):
        if t.op == "cmp":
            op, a, b = t.args
            if op == "in" and a is OUT and (b is kw or (b.op == "call" and kw in b.args) or b is T("call", T("attr", kw, "keys"))):
                return has_out
            if op in ("==", "is") and {a, b} == {method, CALL}:
                return is_call
            if op in ("==", "is") and method in (a, b):
                o = b if a is method else a
                if is_const(o):
                    return False if is_call else None
            if op == "is" and NONE in (a, b):
                o = b if a is NONE else a
                if isout(o):
                    return not has_out
            if op == "==" and (isout(a) or isout(b)) and (a is NONE or b is NONE):
                return not has_out
            if op == "in" and a is method and b.op in ("tuple", "list", "set"):
                return CALL in b.args if is_call else (False if all(x is CALL for x in b.args) else None)
        if isout(t):
            return has_out
        return None

    def isout(t):
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[0] is kw and t.args[0].args[1] in ("get", "pop") and len(t.args) > 1 and t.args[1] is OUT:
            return True
        return t.op == "sub" and t.args[0] is kw and t.args[1] is OUT
    return sc


def applications(s, ufunc, method):
    out = []
    for ev in s.events:
        if ev.kind != "call":
            continue
        f = ev.extra[0]
        if f is ufunc or (f.op == "call" and f.args[0] is T("name", "getattr") and f.args[1] is ufunc):
            out.append(ev)
        elif f.op == "attr" and f.args[0] is ufunc:
            out.append(ev)
        elif f.op == "phi" and any(x is ufunc or (x.op == "call" and ufunc in x.args) for x in f.args):
            out.append(ev)
    return out


def delegated(t, ufunc, method, kw):
    """the decision is handed, with everything needed for it, to another class's __array_ufunc__"""
    while t.op == "attr":
        t = t.args[0]
    return t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] == "__array_ufunc__" and ufunc in t.args[1:] \
        and method in t.args[1:] and any(x.op == "dstar" and x.args[0] is kw for x in t.args[1:])


def run(prog):
    rep = Report("C02", RULE)
    classes = [c for c in prog.classes.values() if c.find("__array_ufunc__") is not None]
    seen = set()
    for c in sorted(classes, key=lambda c: c.qualname):
        f = c.find("__array_ufunc__")
        names = [a.arg for a in f.node.args.args]
        va, kw = f.node.args.vararg, kwparam(f)
        if len(names) < 3 or kw is None:
            rep.bad("signature", c.qualname, "%s:%d" % (f.module.relpath, f.node.lineno), "%s.__array_ufunc__ does not take (ufunc, method, *inputs, **kwargs)" % c.qualname)
            continue
        rep.count("classes")
        ufunc, method = T("param", names[1]), T("param", names[2])

        def keep(e):
            return e.kind == "call" and any(ufunc in x.walk() for x in (e.extra[0],))
        for label, has_out, is_call in (("out", True, True), ("out-nocall", True, False), ("nocall", False, False)):
            eng = Engine(prog, opaque=OPAQUE, keep_events=keep, scenario=make_scenario(kw, method, has_out, is_call), max_returns=60)
            s = eng.summary(f, c)
            ok = True
            for o in s.returns:
                rep.count("refusal paths")
                if delegated(o.term, ufunc, method, kw):
                    continue
                if o.term is not T("name", "NotImplemented"):
                    ok = False
                    rep.bad("not-refused", "%s|%s" % (c.qualname, label), "%s:%d (%s)" % (f.module.relpath, getattr(o.node, "lineno", 0), f.short()),
                            "%s.__array_ufunc__ returns %s although %s" % (c.qualname, show(o.term)[:80],
                            "an out= argument was given" if has_out else "the ufunc method is not __call__"))
            rep.count("refusal paths", len(s.raises))
            for ev in applications(s, ufunc, method):
                ok = False
                rep.bad("applied", "%s|%s" % (c.qualname, label), ev.where, "%s.__array_ufunc__ applies the ufunc although %s" % (
                    c.qualname, "an out= argument was given" if has_out else "the ufunc method is not __call__"))
            if not s.returns and not s.raises:
                rep.bad("no-path", "%s|%s" % (c.qualname, label), f.module.relpath, "no terminating path found")
                ok = False
            if ok:
                rep.ok("%s refuses (%s)" % (c.qualname, label))
        eng = Engine(prog, opaque=OPAQUE, keep_events=keep, scenario=make_scenario(kw, method, False, True))
        s = eng.summary(f, c)
        apps = applications(s, ufunc, method)
        if not apps:
            hooked = any(o.term is not T("name", "NotImplemented") for o in s.returns)
            if not hooked:
                rep.bad("never-applied", c.qualname, "%s:%d" % (f.module.relpath, f.node.lineno), "%s.__array_ufunc__ never applies the ufunc on a plain call" % c.qualname)
            continue
        for ev in apps:
            rep.count("applications")
            stars = [k.args[0] for k in ev.extra[2].args if k.op == "dstar"]
            ok = any(kw in k.walk() or k.op == "mix" for k in stars)
            rep.check(ok, "options-dropped", "%s|%s" % (c.qualname, "application"), ev.where,
                      "%s.__array_ufunc__ applies the ufunc without the caller's keyword options" % c.qualname)
    rep.floor("classes", 10)
    rep.floor("applications", 10)
    return rep
