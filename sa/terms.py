"""Hash-consed symbolic terms: the value domain of the abstract interpreter."""


class Term(object):
    __slots__ = ("op", "args", "_h", "size", "_roots", "_subs")
    _tab = {}

    def __new__(cls, op, *args):
        key = (op,) + args
        t = Term._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            t._h = hash(key)
            n = 1
            for a in args:
                if isinstance(a, Term):
                    n += a.size
            t.size = n
            t._roots = None
            t._subs = None
            Term._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return repr(self) < repr(o)

    def kids(self):
        return [a for a in self.args if isinstance(a, Term)]

    def walk(self):
        stack, seen = [self], set()
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            yield t
            stack.extend(t.kids())

    def contains(self, pred):
        return any(pred(t) for t in self.walk())

    def __repr__(self):
        return show(self)


T = Term
NONE = T("const", "NoneType", "None")
TRUE = T("const", "bool", "True")
FALSE = T("const", "bool", "False")
SELF = T("param", "self")


def const(v):
    return T("const", type(v).__name__, repr(v))


def is_const(t):
    return t.op == "const"


def const_value(t):
    import ast
    try:
        return ast.literal_eval(t.args[1])
    except Exception:
        return t.args[1]


def cstr(t):
    """python string of a string constant else None"""
    if t.op == "const" and t.args[0] == "str":
        return const_value(t)
    return None


def roots(t):
    """leaf terms a value is built from: params, fresh objects, globals"""
    if t._roots is None:
        if t.op in ("param", "new", "name", "class", "opaque"):
            t._roots = frozenset([t])
        elif t.op == "mix":
            t._roots = t.args[0]
        else:
            r = frozenset()
            for k in t.kids():
                r |= roots(k)
            t._roots = r
    return t._roots


MAXSIZE = 160


def mk(op, *args):
    t = T(op, *args)
    if t.size > MAXSIZE:
        return mix(t)
    return t


def mix(*ts):
    r = frozenset()
    for t in ts:
        r |= roots(t)
    if len(r) > 24:
        r = frozenset(x for x in r if x.op == "param" or x.op == "new")
    return T("mix", r)


def phi(ts):
    out = []
    for t in ts:
        for x in (t.args if t.op == "phi" else (t,)):
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    if len(out) > 6 or sum(x.size for x in out) > MAXSIZE:
        return mix(*out)
    return T("phi", *sorted(out, key=lambda x: (x.op, x._h)))


def show(t, depth=0):
    if not isinstance(t, Term):
        return str(t)
    if depth > 7:
        return "…"
    d = depth + 1
    o, a = t.op, t.args
    s = lambda x: show(x, d)
    if o == "const":
        return a[1]
    if o == "param":
        return a[0]
    if o in ("name", "class"):
        return a[0]
    if o == "attr":
        return s(a[0]) + "." + a[1]
    if o == "clsattr":
        return a[0]
    if o == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join(s(x) for x in a[1:]))
    if o == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if o == "star":
        return "*" + s(a[0])
    if o == "dstar":
        return "**" + s(a[0])
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "un":
        return "%s%s" % (a[0], s(a[1]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "not":
        return "not " + s(a[0])
    if o in ("tuple", "list", "set"):
        return o + "(" + ", ".join(s(x) for x in a) + ")"
    if o == "mix":
        return "mix{" + ",".join(sorted(show(x, d) for x in a[0])) + "}"
    if o == "new":
        return "new:%s" % (s(a[1]),)
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, Term) else str(x) for x in a))
