"""Order facts of a path: which arrays (elementwise) and lengths the tests passed on the path bound by which others.

Everything is read off the path's branch facts; an unrecognised test that mentions both sides of a goal makes the goal
`undecided` instead of violated."""
from .terms import Term, T, const_value, is_const

SHAPERS = {"reshape", "flatten", "ravel", "view", "astype", "copy"}
WRAPS = {"asarray", "array", "ascontiguousarray", "asanyarray", "ravel"}


def strip(t):
    """the array whose elements t lists (same elements, other shape or type)"""
    while isinstance(t, Term):
        if t.op == "call" and t.args[0].op == "attr" and t.args[0].args[1] in SHAPERS:
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0].op in ("attr", "name") and t.args[0].args[-1 if t.args[0].op == "attr" else 0].split(".")[-1] in WRAPS and len(t.args) >= 2:
            t = t.args[1]
        else:
            return t
    return t


def callee(t):
    if t.op != "call":
        return None
    f = t.args[0]
    return (f.args[1] if f.op == "attr" else f.args[0].split(".")[-1] if f.op == "name" else None)


def method_arg(t, names):
    """X for X.name(), numpy.name(X), name(X)"""
    n = callee(t)
    if n not in names:
        return None
    f = t.args[0]
    pos = [a for a in t.args[1:] if a.op not in ("kw", "star", "dstar")]
    if f.op == "attr" and not isnumpy(f.args[0]):
        return f.args[0] if not pos else None
    return pos[0] if len(pos) == 1 else None


def isnumpy(t):
    return t.op == "name" and t.args[0].split(".")[0] in ("numpy", "np") or t.op == "attr" and t.args[1] == "numpy" or t.op == "clsattr" and t.args[0].endswith("numpy")


def length_of(t):
    """X when t is len(X), X.shape[0] or X.size"""
    if t.op == "call" and t.args[0] is T("name", "len") and len(t.args) == 2:
        return t.args[1]
    if t.op == "sub" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and const_value(t.args[1]) == 0:
        return t.args[0].args[0]
    if t.op == "attr" and t.args[1] == "size":
        return t.args[0]
    if t.op == "call" and callee(t) == "__len__" and len(t.args) == 1:
        return t.args[0].args[0]
    return None


def linear(t):
    """(term, constant) with t = term + constant"""
    k = 0
    while isinstance(t, Term) and t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = t.args[1], t.args[2]
        if is_const(b) and isinstance(const_value(b), int):
            k += const_value(b) if t.args[0] == "+" else -const_value(b)
            t = a
        elif t.args[0] == "+" and is_const(a) and isinstance(const_value(a), int):
            k += const_value(a)
            t = b
        else:
            break
    return t, k


class Atom(object):
    """lhs + k <= rhs elementwise (strict relations are k + 1 over integers); rhs/lhs are vectors or scalars"""

    def __init__(self, lhs, rhs, k):
        self.lhs, self.rhs, self.k = lhs, rhs, k

    def __repr__(self):
        return "%s + %d <= %s" % (self.lhs, self.k, self.rhs)


class Facts(object):
    def __init__(self, facts):
        self.atoms, self.empty, self.forall, self.other, self.eq = [], [], [], [], []
        for t, pol in facts:
            self.add(t, pol)

    def add(self, t, pol):
        while t.op == "not":
            t, pol = t.args[0], not pol
        if t.op == "forall":
            sub = Facts([])
            sub.add(t.args[1], t.args[2])
            self.forall.append((t.args[0], sub, t))
            return
        if t.op == "cmp":
            return self.compare(t, pol)
        if t.op in ("and", "or"):
            if (t.op == "and") == pol:
                for a in t.args:
                    self.add(a, pol)
                return
        a = method_arg(t, ("all",))
        if a is not None and pol:
            return self.elementwise(a, True)
        a = method_arg(t, ("any",))
        if a is not None and not pol:
            return self.elementwise(a, False)
        x = length_of(t)
        if x is not None and not pol:
            self.empty.append(x)
            return
        if method_arg(t, ("all", "any")) is not None or callee(t) == "offsetsaliased":
            return                  # one element only / an identity test the callers read for themselves
        self.other.append(t)

    def elementwise(self, a, pol):
        while a.op == "not" or a.op == "un" and a.args[0] == "~":
            a, pol = a.args[-1], not pol
        if a.op == "bin" and a.args[0] == ("&" if pol else "|"):
            self.elementwise(a.args[1], pol)
            self.elementwise(a.args[2], pol)
            return
        n = callee(a)
        if n in (("logical_and", "bitwise_and") if pol else ("logical_or", "bitwise_or")) and len(a.args) == 3:
            self.elementwise(a.args[1], pol)
            self.elementwise(a.args[2], pol)
            return
        if n in ("logical_not", "bitwise_not", "invert") and len(a.args) == 2:
            return self.elementwise(a.args[1], not pol)
        if a.op == "cmp" and a.args[0] in ("<", "<=", "=="):
            return self.compare(a, pol, True)
        if a.op == "comp" and len(a.args) == 3:
            sub = Facts([])
            sub.add(a.args[1], pol)
            self.forall.append((a.args[2], sub, T("forall", a.args[2], a.args[1], pol)))
            return
        self.other.append(a)

    def compare(self, t, pol, vector=False):
        op, a, b = t.args
        if op == "==":
            for x, y in ((a, b), (b, a)):
                n = length_of(x)
                if n is not None and is_const(y) and const_value(y) == 0 and pol and not vector:
                    self.empty.append(n)
                    return
                c = method_arg(x, ("sum", "count_nonzero"))
                if c is not None and is_const(y) and const_value(y) == 0 and pol:
                    return self.elementwise(c, False)
            if pol:
                self.atoms += [Atom(strip(a), strip(b), 0), Atom(strip(b), strip(a), 0)]
                self.eq.append((a, b))
            return
        if op not in ("<", "<="):
            self.other.append(t)
            return
        k = 1 if op == "<" else 0
        if not pol:
            a, b, k = b, a, 1 - k
        (a, i), (b, j) = linear(a), linear(b)
        # a + i + k <= b + j
        k = k + i - j
        n = length_of(b) if is_const(b) is False else None
        m = length_of(a)
        if is_const(b) and m is not None and isinstance(const_value(b), int) and const_value(b) - k <= 0:
            self.empty.append(m)                      # len(X) <= 0
            return
        x = method_arg(a, ("max", "amax", "nanmax"))
        if x is not None:
            a = x
            (a, i) = linear(a)
            k += i
        elif method_arg(a, ("min", "amin")) is not None:
            a = None
        x = method_arg(b, ("min", "amin", "nanmin"))
        if x is not None:
            b = x
        elif method_arg(b, ("max", "amax")) is not None:
            b = None
        if a is None or b is None:
            return                                   # says something about one element only
        self.atoms.append(Atom(strip(a), strip(b), k))


def vector(t):
    """(root, trimmed-to, filters, slices) of a vector expression"""
    trim, filters, slices = None, [], []
    t = strip(t)
    while t.op == "sub":
        i = t.args[1]
        if i.op == "slice":
            lo, hi, st = i.args
            if is_const(lo) and const_value(lo) in (None, 0) and is_const(st) and const_value(st) in (None, 1) and length_of(hi) is not None:
                trim = length_of(hi)
            else:
                slices.append(i)
        elif i.op in ("cmp", "not", "bin", "call", "un", "and", "or"):
            filters.append(i)
        else:
            break
        t = strip(t.args[0])
    return t, trim, filters, slices


def split_not(t):
    pol = True
    while t.op == "not" or t.op == "un" and t.args[0] == "~":
        t, pol = t.args[-1], not pol
    return t, pol


def mentions(t, x):
    return any(y is x for y in t.walk())
