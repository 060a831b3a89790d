"""Abstract interpreter over the Python syntax tree.

Domain: trace-partitioned states (bounded number of disjuncts), each an environment of symbolic terms (value
numbering), a field store for `object.attr`, a set of must-facts (branch conditions established on every trace in the
disjunct) and a set of must-marks (calls executed on every trace).  Calls that resolve inside the package are
interpreted through memoised summaries in terms of the callee's parameters, so moving code into a helper, renaming or
introducing a local, reordering independent statements or rewriting `if` nests does not change what is derived.
Nothing is executed and no solver is used; loops are interpreted zero, one, and (with widened values) many times.
"""
import ast
from .model import Program, ClassInfo, FuncInfo, Module, AnalysisBroken, dotted
from .terms import *

MAXSTATES = 12
MERGE = "order"      # which disjuncts are joined first when there are too many: "order" of appearance, or same argument "types"
ODICT = (T("name", "OrderedDict"), T("name", "collections.OrderedDict"))
MAXOUT = 6


class State(object):
    __slots__ = ("env", "heap", "facts", "marks")

    def __init__(self, env=None, heap=None, facts=frozenset(), marks=frozenset()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts, self.marks = facts, marks

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.marks)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), self.facts, self.marks)


def isnamed(t):
    return cstr(t) is not None or (t.op == "tuple" and any(cstr(x) is not None for x in t.args))


def dictof(t):
    """x for x.__dict__ and vars(x)"""
    if t.op == "attr" and t.args[1] == "__dict__":
        return t.args[0]
    if t.op == "call" and t.args[0] is T("name", "vars") and len(t.args) == 2:
        return t.args[1]
    return None


_TRUE = T("const", "bool", "True")


def join2(a, b):
    env = {}
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        if x is None or y is None:
            env[k] = phi([x or y, T("opaque", "undef")]) if (x or y).op != "opaque" else (x or y)
        else:
            env[k] = x if x is y else phi([x, y])
    heap = {}
    for k in set(a.heap) | set(b.heap):
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None:
            x = T("attr", k[0], k[1])
        if y is None:
            y = T("attr", k[0], k[1])
        if x is not y and k[1] == "_isvalid":           # an unchanged flag that was found to be set is as good as one that has been set
            if x is _TRUE and (y, True) in b.facts:
                y = x
            elif y is _TRUE and (x, True) in a.facts:
                x = y
        heap[k] = x if x is y else phi([x, y])
    return State(env, heap, a.facts & b.facts, a.marks & b.marks)


def reduce_states(states, cap=MAXSTATES):
    if len(states) <= 1:
        return states
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > cap:
        # first merge disjuncts that differ only in what was tested or called, not in any value
        groups = {}
        for s in out:
            groups.setdefault((frozenset(s.env.items()), frozenset(s.heap.items())), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = State(a.env, a.heap, a.facts & b.facts, a.marks & b.marks)
            out.append(a)
    if len(out) > cap and MERGE == "types":
        # then disjuncts that know the same about the types of the arguments
        keyed = sorted(((typefacts(s), i, s) for i, s in enumerate(out)), key=lambda x: x[:2])
        while len(keyed) > cap:
            nxt, i, over = [], 0, len(keyed) - cap
            same = any(keyed[j][0] == keyed[j + 1][0] for j in range(len(keyed) - 1))
            while i < len(keyed):
                if over > 0 and i + 1 < len(keyed) and (not same or keyed[i][0] == keyed[i + 1][0]):
                    j = join2(keyed[i][2], keyed[i + 1][2])
                    nxt.append((keyed[i][0] if same else typefacts(j), keyed[i][1], j))
                    i, over = i + 2, over - 1
                else:
                    nxt.append(keyed[i])
                    i += 1
            keyed = nxt
        out = [x[2] for x in keyed]
    while len(out) > cap:
        nxt = []
        for i in range(0, len(out), 2):
            nxt.append(join2(out[i], out[i + 1]) if i + 1 < len(out) else out[i])
        out = nxt
    return out


def typefacts(s):
    """what a disjunct has established about the types of the parameters"""
    return tuple(sorted(repr(f) + str(v) for f, v in s.facts
                        if f.op == "call" and f.args[0] is T("name", "isinstance") and len(f.args) > 1 and f.args[1].op == "param"))


class Event(object):
    __slots__ = ("kind", "term", "node", "func", "facts", "marks", "extra", "via")

    def __init__(self, kind, term, node, func, facts, marks, extra=None, via=()):
        self.kind, self.term, self.node, self.func = kind, term, node, func
        self.facts, self.marks, self.extra, self.via = facts, marks, extra, via

    @property
    def where(self):
        return "%s:%d (%s)" % (self.func.module.relpath, getattr(self.node, "lineno", 0), self.func.short())


class Outcome(object):
    __slots__ = ("kind", "term", "state", "node")

    def __init__(self, kind, term, state, node):
        self.kind, self.term, self.state, self.node = kind, term, state, node


class Summary(object):
    def __init__(self, func, ctx):
        self.func, self.ctx = func, ctx
        self.returns, self.raises, self.yields = [], [], []
        self.evtab = {}
        self.complete = False
        self.is_gen = False

    def add(self, e):
        k = (e.kind, id(e.node), e.term, tuple(x for x in (e.extra or ()) if isinstance(x, (Term, str))))
        o = self.evtab.get(k)
        if o is None:
            self.evtab[k] = e
        else:
            o.facts &= e.facts
            o.marks &= e.marks

    @property
    def events(self):
        return list(self.evtab.values())


MUTATORS = {"sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "fill",
            "resize", "put", "itemset", "setflags", "partition", "add", "discard", "reverse", "byteswap", "setfield",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft"}

CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
HOOKNAMES = {"ChunkedArray", "AppendableArray", "IndexedArray", "SparseArray", "JaggedArray", "MaskedArray",
             "BitMaskedArray", "IndexedMaskedArray", "ObjectArray", "StringArray", "Table", "UnionArray",
             "VirtualArray", "Methods"}


HOLE = T("opaque", "hole")


def replace(t, old, new):
    if t is old:
        return new
    if not any(x is old for x in t.walk()):
        return t
    return T(t.op, *[replace(a, old, new) if isinstance(a, Term) else a for a in t.args])


def mentions(t, bad):
    """t is about one of these elements of the current iteration (values carried over from the previous one excluded)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen or x.op == "loopv":
            continue
        seen.add(x)
        if x in bad:
            return True
        stack.extend(x.kids())
    return False


def elem_parts(el):
    """the element terms a loop target is bound to (through tuple targets, not inside them)"""
    if el.op in ("tuple", "phi", "item"):
        r = set()
        for x in el.kids():
            r |= elem_parts(x)
        return r
    return set([el]) if el.op in ("elem", "elemidx", "key", "val") else set()


def inputchain(t):
    while t.op == "attr":
        t = t.args[0]
    return t.op == "param"


def mksub(b, i):
    """subscript term that keeps its base and the kind of index visible, whatever their size"""
    t = T("sub", b, i)
    if t.size <= MAXSIZE:
        return t
    if i.size > 40:
        i = T("slice", NONE, mix(i), NONE) if i.op == "slice" else mix(i)
    if b.size > MAXSIZE - 45:
        return mix(b, i)
    return T("sub", b, i)


def mkcmp(op, a, b):
    """canonical comparison: only <, <=, ==, is, in; negations via `not`"""
    if op == ">":
        return T("cmp", "<", b, a)
    if op == ">=":
        return T("cmp", "<=", b, a)
    if op == "!=":
        return T("not", mkcmp("==", a, b))
    if op == "is not":
        return T("not", mkcmp("is", a, b))
    if op == "not in":
        return T("not", T("cmp", "in", a, b))
    if op in ("==", "is"):
        if is_const(a) and is_const(b):
            return TRUE if a is b else FALSE
        if a is b and op == "is":
            return TRUE
        if op == "is":
            for x, y in ((a, b), (b, a)):
                if x is NONE and y.op in ("new", "tuple", "list", "dict", "set", "class", "lambda", "closure", "name", "fstr", "bin", "comp"):
                    return FALSE
                if x is NONE and y.op == "const":
                    return FALSE
                # slicing makes a new object, so it cannot be one that an argument already held
                if y.op == "sub" and y.args[1].op == "slice" and y.args[0].op not in ("tuple", "list", "const") and (inputchain(x) or x is NONE):
                    return FALSE
        if is_const(a) or (not is_const(b) and repr(b) < repr(a)):
            a, b = b, a
    return mk("cmp", op, a, b)


def mkcall(f, args):
    """call term that always keeps its callee visible, whatever its size"""
    t = T("call", f, *args)
    if t.size <= MAXSIZE:
        return t
    if f.size > 40 and f.op == "attr":
        f = T("attr", mix(f.args[0]), f.args[1])
    big = [a for a in args if a.size > 20]
    return T("call", f, *[(a if a.size <= 20 else (T("kw", a.args[0], mix(a)) if a.op == "kw" else mix(a))) for a in args[:12]])


def neg(t):
    return t.args[0] if t.op == "not" else T("not", t)


def split_neg(t, truth=True):
    while t.op == "not":
        t, truth = t.args[0], not truth
    return t, truth


class Engine(object):
    def __init__(self, prog, opaque=(), inline_ctor=True, max_depth=14, keep_events=None, inline_props=True,
                 scenario=None, inline_filter=None, max_returns=16, mark_stores=False, ordered=False):
        self.prog = prog
        self.ordered = ordered             # + is concatenation: keep its operands in order
        self.mark_stores = mark_stores     # remember item assignments among the must-marks, as T("setitem", container, index, value)
        self.opaque = set(opaque)          # method/function names never inlined
        self.inline_ctor = inline_ctor
        self.inline_props = inline_props
        self.max_depth = max_depth
        self.keep_events = keep_events     # predicate(Event) for propagation to callers; None = all mutate-like
        self.scenario = scenario           # callable(term, state) -> True/False/None, extra truth knowledge
        self.inline_filter = inline_filter
        self.max_returns = max_returns
        self.memo = {}
        self.stack = []
        self.closures = {}
        self.comps = {}
        self.ncalls = 0
        self.unresolved = 0

    # ---------------------------------------------------------------- summaries
    def summary(self, func, ctx=None):
        """ctx: ClassInfo that `self`/`cls` denotes"""
        key = (func, ctx)
        s = self.memo.get(key)
        if s is not None:
            return s
        s = Summary(func, ctx)
        self.memo[key] = s
        r = FuncRun(self, func, ctx, s)
        self.stack.append(key)
        try:
            r.run()
        finally:
            self.stack.pop()
        s.complete = True
        return s


class FuncRun(object):
    def __init__(self, eng, func, ctx, summ):
        self.eng, self.func, self.ctx, self.summ = eng, func, ctx, summ
        self.prog = eng.prog
        self.module = func.module
        self.try_stack = []
        self.loop_stack = []
        self.local_imports = {}
        self.cur = func           # for event attribution inside closures
        self.finals = []
        self.pending = None
        self.inst = {}            # term -> ClassInfo by isinstance or ctor
        self.closure_depth = 0
        self.ret_stack = []

    # ------------------------------------------------------------ entry
    def run(self):
        f = self.func
        node = f.node
        env = {}
        a = node.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            env[n] = T("param", n)
        if f.cls is not None and f.kind == "method" and names:
            env[names[0]] = SELF
        if f.cls is not None and f.kind == "classmethod" and names:
            env[names[0]] = T("param", "cls")
        if a.vararg:
            env[a.vararg.arg] = T("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = T("param", "**" + a.kwarg.arg)
        st = State(env)
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                # only own-level yields
                self.summ.is_gen = True
        out = self.exec_block(node.body, [st])
        for s in out:
            self.do_return(NONE, s, node)
        self.summ.returns = self.cap_outcomes(self.summ.returns, self.eng.max_returns)
        self.summ.raises = self.cap_outcomes(self.summ.raises, 30)

    def cap_outcomes(self, outs, cap=None):
        cap = cap or 40
        seen, res = set(), []
        for o in outs:
            k = (o.kind, o.term, o.state.key())
            if k not in seen:
                seen.add(k)
                res.append(o)
        if len(res) > cap:
            groups = {}
            for o in res:
                groups.setdefault((o.kind, o.term, frozenset(o.state.heap.items())), []).append(o)
            res = []
            for g in groups.values():
                a = g[0]
                for b in g[1:]:
                    a = Outcome(a.kind, a.term, State(a.state.env, a.state.heap, a.state.facts & b.state.facts, a.state.marks & b.state.marks), a.node)
                res.append(a)
        while len(res) > cap:
            nxt = []
            for i in range(0, len(res), 2):
                if i + 1 < len(res):
                    x, y = res[i], res[i + 1]
                    nxt.append(Outcome(x.kind, phi([x.term, y.term]), join2(x.state, y.state), x.node))
                else:
                    nxt.append(res[i])
            res = nxt
        return res

    def event(self, kind, term, node, st, extra=None):
        self.summ.add(Event(kind, term, node, self.func, st.facts, st.marks, extra))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, states):
        for stmt in body:
            if not states:
                break
            states = reduce_states(self.exec_stmt(stmt, states))
        return states

    def exec_stmt(self, node, states):
        if self.try_stack:
            self.try_stack[-1].extend(s for s in states)
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            return states
        if getattr(m, "multi", False):
            return m(node, states)
        out = []
        for s in states:
            out.extend(m(node, s))
        return out

    def st_Expr(self, node, st):
        return [s for s, _ in self.eval(node.value, st)]

    def st_Pass(self, node, st):
        return [st]

    def st_Global(self, node, st):
        return [st]

    st_Nonlocal = st_Global

    def st_Import(self, node, st):
        for a in node.names:
            if a.asname:
                self.local_imports[a.asname] = a.name
            else:
                self.local_imports[a.name.split(".")[0]] = a.name.split(".")[0]
        return [st]

    def st_ImportFrom(self, node, st):
        for a in node.names:
            self.local_imports[a.asname or a.name] = (node.module or "") + "." + a.name
        return [st]

    def st_FunctionDef(self, node, st):
        st = st.copy()
        t = T("closure", self.func.qual, node.name, node.lineno)
        self.eng.closures[t] = (node, self)
        st.env[node.name] = t
        return [st]

    def st_ClassDef(self, node, st):
        st = st.copy()
        st.env[node.name] = T("opaque", "localclass:" + node.name)
        return [st]

    def st_Assign(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            ss = [s]
            for t in node.targets:
                nxt = []
                for x in ss:
                    nxt.extend(self.assign(t, v, x, node))
                ss = nxt
            out.extend(ss)
        return out

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [st]
        out = []
        for s, v in self.eval(node.value, st):
            out.extend(self.assign(node.target, v, s, node))
        return out

    def assign(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st = st.copy()
            st.env[target.id] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            ss = [st]
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                    x = mk("sub", v, T("opaque", "rest"))
                else:
                    x = self.item(v, i if not star else None)
                nxt = []
                for s in ss:
                    nxt.extend(self.assign(e, x, s, node))
                ss = nxt
            return ss
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.eval(target.value, st):
                out.extend(self.store_attr(b, target.attr, v, s, target))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.eval(target.value, st):
                for s2, i in self.eval(target.slice, s):
                    s2 = s2.copy()
                    self.event("setitem", b, target, s2, (i, v))
                    if self.eng.mark_stores:
                        s2.marks = s2.marks | frozenset([T("setitem", b, i, v)])
                    # setitem dispatch into package classes
                    c = self.term_class(b, s2)
                    if b.op in ("list", "dict", "dict0") or (b.op == "comp" and b.args[0] == "dict"):
                        self.degrade(s2, b, i, v, new=self.dict_with(b, T("item", i, v)))
                    out.append(s2)
            return out
        return [st]

    def dict_with(self, d, item):
        """the dict literal d after one more write (insertion order kept, so the last writer of a key is visible)"""
        if d.op == "comp" and d.args[0] == "dict":
            return T("dict", T("dstar", d), item)
        if d.op not in ("dict", "dict0"):
            return None
        a = list(d.args)
        if item in a:
            return d if a[-1] is item else T(d.op, *([x for x in a if x is not item] + [item]))
        if item.op == "item" and is_const(item.args[0]):
            a = [x for x in a if not (isinstance(x, Term) and x.op == "item" and x.args[0] is item.args[0])]
        if len(a) > 24 or d.size + item.size > 600:
            return None
        return T(d.op, *(a + [item]))

    def list_with(self, l, el):
        """the fresh list l after an element was appended: a list of what it held or the new element"""
        if el.size > 100:
            return None
        if l.op == "list0":
            return T("comp", "list", el, T("opaque", "grown:%s" % (l.args[0],)))
        if l.op == "comp" and l.args[0] == "list":
            if el is l.args[1] or (l.args[1].op == "phi" and el in l.args[1].args):
                return l
            x = phi([l.args[1], el])
            return None if x.op == "mix" else T("comp", "list", x, *l.args[2:])
        return None

    def degrade(self, st, old, *more, **kw):
        """a container literal was updated: replace it everywhere by an opaque mutable holding the roots"""
        new = kw.get("new")
        if new is None:
            new = T("box", old.op if old.op != "box" else old.args[0], T("mix", frozenset().union(*[roots(x) for x in (old,) + more])))
        for k, x in list(st.env.items()):
            if x is old:
                st.env[k] = new
        for k, x in list(st.heap.items()):
            if x is old:
                st.heap[k] = new

    def item(self, v, i):
        if i is None:
            return mk("sub", v, T("opaque", "i"))
        if v.op in ("tuple", "list") and i < len(v.args) and not any(x.op == "star" for x in v.args):
            return v.args[i]
        if v.op == "phi" and all(x.op in ("tuple", "list") and i < len(x.args) for x in v.args):
            return phi([x.args[i] for x in v.args])
        return mk("sub", v, const(i))

    def store_attr(self, base, attr, v, st, node):
        c = self.term_class(base, st)
        if c is not None:
            f = c.find_setter(attr)
            if f is not None and self.can_inline(f):
                return [s for s, _ in self.inline(f, c, {0: base, 1: v}, [base, v], {}, st, node)]
        st = st.copy()
        st.heap[(base, attr)] = v
        self.event("setattr", base, node, st, (attr, v))
        return [st]

    def st_AugAssign(self, node, st):
        out = []
        op = BINOPS.get(type(node.op), "?")
        t = node.target
        if isinstance(t, ast.Name):
            for s, v in self.eval(node.value, st):
                old = self.lookup(t.id, s)
                self.event("iadd", old, node, s, (op, v))
                s = s.copy()
                s.env[t.id] = self.binop(op, old, v)
                out.append(s)
        elif isinstance(t, ast.Attribute):
            for s, b in self.eval(t.value, st):
                for s2, old in self.get_attr(b, t.attr, s, t):
                    for s3, v in self.eval(node.value, s2):
                        self.event("iadd", old, node, s3, (op, v))
                        out.extend(self.store_attr(b, t.attr, self.binop(op, old, v), s3, t))
        elif isinstance(t, ast.Subscript):
            for s, b in self.eval(t.value, st):
                for s2, i in self.eval(t.slice, s):
                    for s3, v in self.eval(node.value, s2):
                        self.event("setitem", b, node, s3, (i, self.binop(op, mk("sub", b, i), v)))
                        out.append(s3)
        return out

    def st_Delete(self, node, st):
        ss = [st]
        for t in node.targets:
            nxt = []
            for s in ss:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.eval(t.value, s):
                        for s2, i in self.eval(t.slice, s1):
                            self.event("delitem", b, t, s2, (i,))
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.eval(t.value, s):
                        self.event("delattr", b, t, s1, (t.attr,))
                        nxt.append(s1)
                else:
                    s = s.copy()
                    if isinstance(t, ast.Name):
                        s.env.pop(t.id, None)
                    nxt.append(s)
            ss = nxt
        return ss

    def do_return(self, term, st, node):
        target = self.ret_stack[-1] if self.ret_stack else self.summ.returns
        o = Outcome("return", term, st, node)
        if len(self.finals) > self.final_base():
            self.run_finals("return", o, target)
        else:
            target.append(o)

    def final_base(self):
        return self.ret_bases[-1] if getattr(self, "ret_bases", None) else 0

    def run_finals(self, kind, o, target):
        saved = self.finals
        states = [o.state]
        base = self.final_base()
        for i in range(len(saved) - 1, base - 1, -1):
            self.finals = saved[:i]
            states = self.exec_block(saved[i], states)
        self.finals = saved
        for s in states:
            target.append(Outcome(kind, o.term, s, o.node))

    def st_Return(self, node, st):
        if node.value is None:
            self.do_return(NONE, st, node)
        else:
            for s, v in self.eval(node.value, st):
                self.do_return(v, s, node)
        return []

    def st_Raise(self, node, st):
        vals = self.eval(node.exc, st) if node.exc is not None else [(st, T("opaque", "reraise"))]
        for s, v in vals:
            if self.try_stack:
                self.try_stack[-1].append(s)
            self.event("raise", v, node, s)
            o = Outcome("raise", v, s, node)
            if len(self.finals) > self.final_base():
                self.run_finals("raise", o, self.summ.raises)
            else:
                self.summ.raises.append(o)
        return []

    def st_Assert(self, node, st):
        t, f = self.branch(node.test, [st])
        for s in f:
            if self.try_stack:
                self.try_stack[-1].append(s)
            self.event("raise", T("call", T("name", "AssertionError")), node, s)
            self.summ.raises.append(Outcome("raise", T("call", T("name", "AssertionError")), s, node))
        return t

    def st_If(self, node, states):
        t, f = self.branch(node.test, states)
        out = self.exec_block(node.body, reduce_states(t))
        out = out + self.exec_block(node.orelse, reduce_states(f))
        return out
    st_If.multi = True

    def st_With(self, node, states):
        for it in node.items:
            nxt = []
            for s in states:
                for s2, v in self.eval(it.context_expr, s):
                    self.event("with", v, node, s2)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, s2, node))
                    else:
                        nxt.append(s2)
            states = nxt
        return self.exec_block(node.body, states)
    st_With.multi = True

    def st_Try(self, node, states):
        if node.finalbody:
            self.finals = self.finals + [node.finalbody]
        self.try_stack.append(list(states))
        out = self.exec_block(node.body, states)
        exc = self.try_stack.pop()
        if self.try_stack:
            self.try_stack[-1].extend(exc)
        exc = reduce_states(exc, 8)
        out = self.exec_block(node.orelse, out)
        res = list(out)
        for h in node.handlers:
            hs = []
            for s in exc:
                s = s.copy()
                if h.name:
                    s.env[h.name] = T("opaque", "exc")
                hs.append(s)
            res.extend(self.exec_block(h.body, hs))
        if node.finalbody:
            self.finals = self.finals[:-1]
            res = self.exec_block(node.finalbody, reduce_states(res))
        return res
    st_Try.multi = True

    def assigned_names(self, body):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def loop(self, node, entry, bind):
        """entry: states before loop; bind(states, pass) -> states entering the body"""
        exits = []
        self.loop_stack.append({"break": [], "continue": [], "finals": len(self.finals)})
        s0 = entry
        b1 = bind(s0, 1)
        o1 = self.exec_block(node.body, reduce_states(b1))
        o1 = o1 + self.loop_stack[-1]["continue"]
        self.loop_stack[-1]["continue"] = []
        head = reduce_states(o1, 8)
        names = self.assigned_names(node.body)
        base = {}
        for s in s0:
            for k in names:
                if k in s.env:
                    base.setdefault(k, set()).add(s.env[k])
        w = []
        for s in head:
            s = s.copy()
            for k in names:
                if k in s.env:
                    olds = base.get(k, set())
                    if not (len(olds) == 1 and s.env[k] in olds):
                        if s.env[k].op in ("new",):
                            continue
                        s.env[k] = T("loopv", node.lineno, k, phi(list(olds) + [s.env[k]]))
            w.append(s)
        w = reduce_states(w, 8)
        cand = self.loop_invariants(node, names, head)
        brk1 = list(self.loop_stack[-1]["break"])
        while True:
            w2 = w
            if cand:
                w2 = []
                for s in w:
                    add = set()
                    for k, f, v in cand:
                        lv = s.env.get(k)
                        if lv is not None and lv.op == "loopv":
                            add.add((replace(f, HOLE, lv), v))
                    s = s.copy()
                    s.facts = s.facts | frozenset(add)
                    w2.append(s)
            b2 = bind(w2, 2)
            o2 = self.exec_block(node.body, reduce_states(b2))
            o2 = o2 + self.loop_stack[-1]["continue"]
            if cand:
                keep = self.loop_invariants(node, names, reduce_states(o2, 8))
                cand2 = [c for c in cand if c in keep]
                if len(cand2) != len(cand):
                    cand = cand2
                    self.loop_stack[-1]["break"] = list(brk1)
                    self.loop_stack[-1]["continue"] = []
                    continue
            break
        lp = self.loop_stack.pop()
        return s0, o1, o2, lp["break"]

    def loop_invariants(self, node, names, states):
        """facts about a loop-carried variable that hold at the end of the body whatever happened in it"""
        if not states:
            return []
        common = None
        for s in states:
            c = set()
            for k in names:
                v = s.env.get(k)
                if v is None or v.op in ("const", "new", "name", "class"):
                    continue
                for f, tr in s.facts:
                    if f.size < 60 and f.op != "forall" and v in f.walk():
                        c.add((k, replace(f, v, HOLE), tr))
            common = c if common is None else common & c
            if not common:
                return []
        return sorted(common, key=repr)

    def st_For(self, node, states):
        its = []
        for s in states:
            its.extend(self.eval(node.iter, s))

        def bind_one(s, it, n):
            s = s.copy()
            el = self.elem(it, s)
            if n == 2:
                bad = elem_parts(el)
                s.facts = frozenset(f for f in s.facts if not mentions(f[0], bad))
            return self.assign(node.target, el, s, node)

        pairs = reduce_pairs(its)
        res = []
        groups = {}
        for s, it in pairs:
            groups.setdefault(it, []).append(s)
        for it, ss in groups.items():
            ln = self.static_len(it)
            self.event("loop", it, node, ss[0])
            if it.op in ("tuple", "list") and 0 < len(it.args) <= 12 and all(isnamed(x) for x in it.args):
                res.extend(self.unrolled(node, it, ss))
                continue
            s0, o1, o2, br = self.loop(node, ss, lambda sts, n: [x for s in sts for x in bind_one(s, it, n)])
            normal = o1 + o2 + ([] if ln else s0)
            inv = self.forall_facts(it, o1 + o2, s0)
            if inv:
                nn = []
                for x in normal:
                    x = x.copy()
                    x.facts = x.facts | inv
                    nn.append(x)
                normal = nn
            normal = reduce_states(normal)
            res.extend(self.exec_block(node.orelse, normal))
            res.extend(br)
        return res
    st_For.multi = True

    def unrolled(self, node, it, states):
        """a loop over a literal sequence of names: the body once per name, in order"""
        brk = []
        for x in it.args:
            self.loop_stack.append({"break": [], "continue": [], "finals": len(self.finals)})
            nxt = []
            for s in states:
                nxt.extend(self.assign(node.target, x, s.copy(), node))
            out = self.exec_block(node.body, reduce_states(nxt))
            lp = self.loop_stack.pop()
            brk.extend(lp["break"])
            states = reduce_states(out + lp["continue"])
            if not states:
                break
        return self.exec_block(node.orelse, states) + brk

    def forall_facts(self, it, ends, entry):
        """on normal exhaustion of a loop, what every iteration established about its element holds for all of them"""
        els = elem_parts(self.elem(it, None))
        if not els or not ends:
            return frozenset()
        common = None
        for s in ends:
            fs = frozenset((f, v) for f, v in s.facts if f.size < 60 and f.op != "forall" and any(y in els for y in f.walk()))
            common = fs if common is None else common & fs
            if not common:
                return frozenset()
        return frozenset((T("forall", it, f, v), True) for f, v in common)

    def static_len(self, it):
        """True if the iterable is statically non-empty"""
        if it.op in ("tuple", "list") and it.args:
            return True
        return False

    def elem(self, it, st):
        if it.op in ("tuple", "list", "set"):
            return phi(list(it.args)) if it.args else T("opaque", "noelem")
        if it.op == "call":
            f = it.args[0]
            nm = f.args[0] if f.op == "name" else None
            a = it.args[1:]
            if nm == "enumerate" and a:
                return T("tuple", T("elemidx", it), self.elem(a[0], st))
            if nm == "zip":
                return T("tuple", *[self.elem(x, st) if x.op != "star" else mk("elem", x.args[0]) for x in a])
            if nm in ("reversed", "list", "tuple", "iter", "sorted") and len(a) >= 1:
                return self.elem(a[0], st)
            if f.op == "attr" and len(a) == 0 and f.args[1] == "items":
                return T("tuple", mk("key", f.args[0]), mk("val", f.args[0]))
            if f.op == "attr" and len(a) == 0 and f.args[1] == "values":
                return mk("val", f.args[0])
            if f.op == "attr" and len(a) == 0 and f.args[1] == "keys":
                return mk("key", f.args[0])
        if it.op == "comp":
            return it.args[1]
        return mk("elem", it)

    def st_While(self, node, states):
        falses = []

        def bind(sts, n):
            t, f = self.branch(node.test, sts)
            falses.append(f)
            return t
        s0, o1, o2, br = self.loop(node, states, bind)
        t, f = self.branch(node.test, reduce_states(o2))
        falses.append(f)
        ex = [x for f in falses for x in f]
        res = self.exec_block(node.orelse, reduce_states(ex))
        return res + br
    st_While.multi = True

    def st_Break(self, node, st):
        ss = self.jump_finals([st])
        self.loop_stack[-1]["break"].extend(ss)
        return []

    def st_Continue(self, node, st):
        ss = self.jump_finals([st])
        self.loop_stack[-1]["continue"].extend(ss)
        return []

    def jump_finals(self, states):
        k = self.loop_stack[-1]["finals"]
        saved = self.finals
        for i in range(len(saved) - 1, k - 1, -1):
            self.finals = saved[:i]
            states = self.exec_block(saved[i], states)
        self.finals = saved
        return states

    # ------------------------------------------------------------ conditions
    def truth(self, t, st):
        t, tr = split_neg(t)
        r = self._truth(t, st)
        return r if r is None or tr else (not r)

    def _truth(self, t, st):
        if t.op == "const":
            try:
                return bool(const_value(t))
            except Exception:
                return None
        if t.op in ("tuple", "list"):
            if any(x.op == "star" for x in t.args):
                return None
            return len(t.args) > 0
        if t.op in ("new", "class", "closure", "lambda"):
            return True
        if (t, True) in st.facts:
            return True
        if (t, False) in st.facts:
            return False
        if t.op == "cmp" and t.args[0] in ("<", "<="):
            op, a, b = t.args
            if is_const(a) and is_const(b):
                try:
                    x, y = const_value(a), const_value(b)
                    return x < y if op == "<" else x <= y
                except Exception:
                    return None
            if op == "<=" and (mkc("<", b, a), True) in st.facts:
                return False
            if op == "<" and (mkc("<=", b, a), True) in st.facts:
                return False
        if t.op == "cmp" and t.args[0] == "==":
            a, b = t.args[1], t.args[2]
            if is_const(b):
                for f, v in st.facts:
                    if v and f.op == "cmp" and f.args[0] in ("==", "is") and f.args[1] is a and is_const(f.args[2]) and f.args[2] is not b:
                        return False
        if t.op == "cmp" and t.args[0] == "in" and t.args[2].op in ("tuple", "list", "set"):
            rs = [self.truth(mkcmp("==", t.args[1], x), st) for x in t.args[2].args]
            if any(r is True for r in rs):
                return True
            if rs and all(r is False for r in rs):
                return False
        if t.op == "phi":
            rs = set(self.truth(x, st) for x in t.args)
            if len(rs) == 1:
                return rs.pop()
        if t.op == "and":
            rs = [self.truth(x, st) for x in t.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if t.op == "or":
            rs = [self.truth(x, st) for x in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if self.eng.scenario is not None:
            r = self.eng.scenario(t, st)
            if r is not None:
                return r
        return None

    def assume(self, t, truth, st):
        """state refined with t == truth; list of states (empty if contradictory)"""
        t, tr = split_neg(t)
        truth = truth if tr else (not truth)
        r = self._truth(t, st)
        if r is not None:
            return [st] if r == truth else []
        if t.op == "and":
            if truth:
                ss = [st]
                for x in t.args:
                    ss = [y for s in ss for y in self.assume(x, True, s)]
                return ss
            out, pre = [], [st]
            for x in t.args:
                out.extend(y for s in pre for y in self.assume(x, False, s))
                pre = [y for s in pre for y in self.assume(x, True, s)]
            return out
        if t.op == "or":
            if not truth:
                ss = [st]
                for x in t.args:
                    ss = [y for s in ss for y in self.assume(x, False, s)]
                return ss
            out, pre = [], [st]
            for x in t.args:
                out.extend(y for s in pre for y in self.assume(x, True, s))
                pre = [y for s in pre for y in self.assume(x, False, s)]
            return out
        s = st.copy()
        s.facts = s.facts | frozenset([(t, truth)])
        if t.op == "call" and t.args[0].op == "name" and (t.args[0].args[0], truth) in (("all", True), ("any", False), ("any", True), ("all", False)) \
                and len(t.args) == 2:
            nm = t.args[0].args[0]
            for its, facts in self.quantified(t.args[1], truth):
                if (nm, truth) in (("all", True), ("any", False)):
                    s.facts = s.facts | frozenset((T("forall", it, f, v), True) for it in its for f, v in facts)
                else:
                    s.facts = s.facts | frozenset(facts)
        if not truth and t.op == "cmp" and t.args[0] == "is":
            # numpy.array(y, copy=False) that turned out not to be y itself is a new array
            for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if x.op == "call" and x.args[0] is T("name", "numpy.array") and len(x.args) > 1 and x.args[1] is y:
                    fresh = T("call", T("name", "numpy.array"), y, T("kw", "copy", TRUE))
                    for k, v in list(s.env.items()):
                        if v is x:
                            s.env[k] = fresh
        return [s]

    def quantified(self, g, want):
        """facts common to every way an element of a comprehension can come out true (want) or false"""
        rec = self.eng.comps.get(g)
        if rec is None:
            return []
        vals, iters = rec
        common = None
        for s, v in vals:
            for s2 in self.assume(v, want, s):
                common = s2.facts if common is None else common & s2.facts
        if not common:
            return []
        return [(tuple(dict.fromkeys(iters)), [(f, v) for f, v in common if f.size < 60])]

    def branch(self, test, states):
        """-> (true states, false states); decomposes and/or/not so that facts are atomic"""
        T_, F_ = [], []
        if isinstance(test, ast.BoolOp):
            cur = states
            if isinstance(test.op, ast.And):
                for v in test.values:
                    t, f = self.branch(v, cur)
                    F_.extend(f)
                    cur = reduce_states(t)
                return cur, reduce_states(F_)
            for v in test.values:
                t, f = self.branch(v, cur)
                T_.extend(t)
                cur = reduce_states(f)
            return reduce_states(T_), cur
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, states)
            return f, t
        for s in states:
            for s2, v in self.eval(test, s):
                T_.extend(self.assume(v, True, s2))
                F_.extend(self.assume(v, False, s2))
        return reduce_states(T_), reduce_states(F_)

    # ------------------------------------------------------------ expressions
    def eval(self, node, st):
        if node is None:
            return [(st, NONE)]
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            return [(st, T("opaque", type(node).__name__))]
        r = m(node, st)
        if len(r) > MAXSTATES:
            r = reduce_pairs(r)
        return r

    def eval_list(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, acc in res:
                if isinstance(n, ast.Starred):
                    for s2, v in self.eval(n.value, s):
                        if v.op in ("tuple", "list"):
                            nxt.append((s2, acc + list(v.args)))
                        else:
                            nxt.append((s2, acc + [T("star", v)]))
                else:
                    for s2, v in self.eval(n, s):
                        nxt.append((s2, acc + [v]))
            res = nxt
            if len(res) > MAXSTATES:
                res = res[:MAXSTATES]
        return res

    def ex_Constant(self, node, st):
        return [(st, const(node.value))]

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        return self.global_name(name)

    def global_name(self, name):
        if name in self.local_imports:
            return self.dotted_term(self.local_imports[name])
        r = self.prog.resolve_dotted(self.module, name)
        if isinstance(r, ClassInfo):
            return T("class", r.qualname)
        if isinstance(r, FuncInfo):
            return T("name", r.qual)
        if isinstance(r, Module):
            return T("name", r.name)
        if isinstance(r, str):
            return T("name", r)
        if name in self.module.assigns:
            v = self.module.assigns[name]
            if isinstance(v, ast.Constant):
                return const(v.value)
            return T("name", self.module.name + "." + name)
        return T("name", name)

    def dotted_term(self, d):
        r = self.prog._abs(d.split("."))
        if isinstance(r, ClassInfo):
            return T("class", r.qualname)
        if isinstance(r, FuncInfo):
            return T("name", r.qual)
        if isinstance(r, Module):
            return T("name", r.name)
        if isinstance(r, str):
            return T("name", r)
        return T("name", d)

    def ex_Name(self, node, st):
        return [(st, self.lookup(node.id, st))]

    def ex_Tuple(self, node, st):
        return [(s, T("tuple", *v)) for s, v in self.eval_list(node.elts, st)]

    def ex_List(self, node, st):
        return [(s, T("list", *v) if v else T("list0", self.site(node))) for s, v in self.eval_list(node.elts, st)]

    def ex_Set(self, node, st):
        return [(s, T("set", *v)) for s, v in self.eval_list(node.elts, st)]

    def site(self, node):
        return "%s:%d:%d" % (self.func.qual, node.lineno, node.col_offset)

    def ex_Dict(self, node, st):
        if not node.keys:
            return [(st, T("dict0", self.site(node)))]
        res = [(st, [])]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, acc in res:
                if k is None:
                    for s2, vv in self.eval(v, s):
                        nxt.append((s2, acc + [T("dstar", vv)]))
                else:
                    for s2, kk in self.eval(k, s):
                        for s3, vv in self.eval(v, s2):
                            nxt.append((s3, acc + [T("item", kk, vv)]))
            res = nxt[:MAXSTATES]
        return [(s, mk("dict", *a)) for s, a in res]

    def ex_JoinedStr(self, node, st):
        return [(st, T("fstr", ast.dump(node)[:60]))]

    def ex_Slice(self, node, st):
        res = []
        for s, lo in self.eval(node.lower, st):
            for s2, hi in self.eval(node.upper, s):
                for s3, sp in self.eval(node.step, s2):
                    res.append((s3, T("slice", *[mix(x) if x.size > 60 else x for x in (lo, hi, sp)])))
        return res

    def ex_Index(self, node, st):
        return self.eval(node.value, st)

    def ex_Subscript(self, node, st):
        out = []
        for s, b in self.eval(node.value, st):
            for s2, i in self.eval(node.slice, s):
                self.event("subscript", b, node, s2, (i,))
                out.append((s2, self.subscript(b, i)))
        return out

    def subscript(self, b, i):
        if is_const(i) and b.op in ("tuple", "list"):
            try:
                v = const_value(i)
                if isinstance(v, int) and -len(b.args) <= v < len(b.args) and not any(x.op == "star" for x in b.args):
                    return b.args[v]
            except Exception:
                pass
        if b.op in ("dict", "dict0") and is_const(i):
            for it in reversed(b.args):
                if not isinstance(it, Term) or it.op != "item" or not is_const(it.args[0]):
                    break
                if it.args[0] is i:
                    return it.args[1]
        return mksub(b, i)

    def ex_Starred(self, node, st):
        return [(s, T("star", v)) for s, v in self.eval(node.value, st)]

    def binop(self, op, a, b):
        if op == "+" and a.op == b.op and a.op in ("tuple", "list"):
            return mk(a.op, *(a.args + b.args))
        if is_const(a) and is_const(b) and a.args[0] in ("int",) and b.args[0] in ("int",):
            x, y = const_value(a), const_value(b)
            try:
                if op in ("+", "-", "*"):
                    return const(x + y if op == "+" else x - y if op == "-" else x * y)
            except Exception:
                pass
        if op in ("+", "-") and b is const(0):
            return a
        if not (self.eng.ordered and op == "+") and op in ("+", "*", "|", "&", "^") and a.op not in ("tuple", "list", "const", "fstr") and b.op not in ("tuple", "list", "const", "fstr"):
            if repr(b) < repr(a):
                a, b = b, a
        return mk("bin", op, a, b)

    def ex_BinOp(self, node, st):
        op = BINOPS.get(type(node.op), "?")
        out = []
        for s, a in self.eval(node.left, st):
            for s2, b in self.eval(node.right, s):
                if op == "%" and a.op == "const" and a.args[0] == "str":
                    out.append((s2, T("fstr", a.args[1])))
                else:
                    out.append((s2, self.binop(op, a, b)))
        return out

    def ex_UnaryOp(self, node, st):
        out = []
        for s, a in self.eval(node.operand, st):
            if isinstance(node.op, ast.Not):
                r = self.truth(a, s)
                out.append((s, neg(a) if r is None else (FALSE if r else TRUE)))
            elif isinstance(node.op, ast.USub) and is_const(a) and a.args[0] in ("int", "float"):
                out.append((s, const(-const_value(a))))
            else:
                o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(node.op)]
                out.append((s, mk("un", o, a)))
        return out

    def ex_BoolOp(self, node, st):
        res = []
        isand = isinstance(node.op, ast.And)
        cur = [(st, [])]
        # short-circuit value semantics by splitting states
        for k, v in enumerate(node.values):
            nxt = []
            for s, acc in cur:
                for s2, t in self.eval(v, s):
                    if k == len(node.values) - 1:
                        if acc and self.is_boolish(t) and all(self.is_boolish(x) for x in acc):
                            res.append((s2, t))
                        else:
                            res.append((s2, t))
                        continue
                    stop = self.assume(t, not isand, s2)
                    go = self.assume(t, isand, s2)
                    for x in stop:
                        res.append((x, (FALSE if isand else TRUE) if self.is_boolish(t) else t))
                    for x in go:
                        nxt.append((x, acc + [t]))
            cur = nxt
        return res

    def is_boolish(self, t):
        t, _ = split_neg(t)
        return t.op == "cmp" or t in (TRUE, FALSE) or (t.op == "call" and t.args[0] in (
            T("name", "isinstance"), T("name", "issubclass"), T("name", "hasattr"), T("name", "all"), T("name", "any"), T("name", "callable")))

    def ex_Compare(self, node, st):
        if len(node.ops) == 1:
            out = []
            for s, a in self.eval(node.left, st):
                for s2, b in self.eval(node.comparators[0], s):
                    out.append((s2, mkcmp(CMPOPS[type(node.ops[0])], a, b)))
            return out
        # chain
        out = []
        for s, vals in self.eval_list([node.left] + node.comparators, st):
            parts = [mkcmp(CMPOPS[type(o)], vals[i], vals[i + 1]) for i, o in enumerate(node.ops)]
            out.append((s, mk("and", *parts)))
        return out

    def ex_IfExp(self, node, st):
        t, f = self.branch(node.test, [st])
        out = []
        for s in t:
            out.extend(self.eval(node.body, s))
        for s in f:
            out.extend(self.eval(node.orelse, s))
        return out

    def ex_Lambda(self, node, st):
        t = T("lambda", self.site(node))
        self.eng.closures[t] = (node, self)
        st2 = st.copy()
        # analyse the body once for events
        for a in node.args.args:
            st2.env[a.arg] = T("param", "lambda:%s:%s" % (self.site(node), a.arg))
        self.eval(node.body, st2)
        return [(st, t)]

    def comp(self, node, st, kind, elts):
        states = [st]
        iters = []
        for g in node.generators:
            nxt = []
            for s in states:
                for s2, it in self.eval(g.iter, s):
                    iters.append(it)
                    s2 = s2.copy()
                    nxt.extend(self.assign(g.target, self.elem(it, s2), s2, node))
            states = reduce_states(nxt, 6)
            for c in g.ifs:
                states, _ = self.branch(c, states)
        vals = []
        for s in states:
            for s2, v in self.eval_list(elts, s):
                vals.append((s2, v[0] if len(v) == 1 else T("item", *v)))
        el = phi([v for _, v in vals]) if vals else T("opaque", "noelem")
        return el, iters, vals

    def comp_term(self, kind, el, its, vals):
        t = mk("comp", kind, el, *its)
        if len(vals) <= 12:
            self.eng.comps[t] = (vals, its)
        return t

    def ex_ListComp(self, node, st):
        el, its, vals = self.comp(node, st, "list", [node.elt])
        return [(st, self.comp_term("list", el, its, vals))]

    def ex_SetComp(self, node, st):
        el, its, vals = self.comp(node, st, "set", [node.elt])
        return [(st, self.comp_term("set", el, its, vals))]

    def ex_GeneratorExp(self, node, st):
        el, its, vals = self.comp(node, st, "gen", [node.elt])
        return [(st, self.comp_term("gen", el, its, vals))]

    def ex_DictComp(self, node, st):
        el, its, vals = self.comp(node, st, "dict", [node.key, node.value])
        return [(st, mk("comp", "dict", el, *its))]

    def ex_Yield(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            self.event("yield", v, node, s)
            self.summ.yields.append((v, s, node))
            out.append((s, T("opaque", "sent")))
        return out

    def ex_YieldFrom(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            self.event("yield", mk("elem", v), node, s)
            self.summ.yields.append((mk("elem", v), s, node))
            out.append((s, T("opaque", "sent")))
        return out

    def ex_NamedExpr(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            for s2 in self.assign(node.target, v, s, node):
                out.append((s2, v))
        return out

    def ex_Await(self, node, st):
        return self.eval(node.value, st)

    # ------------------------------------------------------------ attributes
    def term_class(self, t, st=None):
        """ClassInfo of the object a term denotes, when known"""
        if t is SELF and self.func.cls is not None:
            return self.ctx or self.func.cls
        if t.op == "new":
            return self.class_of_term(t.args[1])
        if t.op == "phi":
            cs = set(self.term_class(x, st) for x in t.args)
            if len(cs) == 1:
                return cs.pop()
        if t.op == "param" and t.args[0] == "cls_or_self":
            return self.ctx
        return None

    def class_of_term(self, t):
        """ClassInfo a class-valued term denotes"""
        if t.op == "class":
            return self.prog.classes.get(t.args[0])
        if t.op == "param" and t.args[0] in ("cls", "cls_or_self"):
            return self.ctx or self.func.cls
        if t.op == "classof":
            if isinstance(t.args[0], Term):
                return self.term_class(t.args[0])
        return None

    def ex_Attribute(self, node, st):
        out = []
        for s, b in self.eval(node.value, st):
            out.extend(self.get_attr(b, node.attr, s, node))
        return out

    def get_attr(self, b, attr, st, node):
        if (b, attr) in st.heap:
            return [(st, st.heap[(b, attr)])]
        if b.op == "new" and attr.startswith("_") and attr != "__dict__" and (b, "__dict__") in st.heap:
            return self.get_attr(st.heap[(b, "__dict__")], attr, st, node)
        if b.op == "phi" and any((x, attr) in st.heap for x in b.args):
            return [(st, phi([st.heap.get((x, attr), T("attr", x, attr)) for x in b.args]))]
        if b.op == "name":
            d = b.args[0] + "." + attr
            if b.args[0].split(".")[0] == "awkward0":
                return [(st, self.dotted_term(d))]
            return [(st, T("name", d))]
        if attr == "__class__":
            return [(st, T("classof", b))]
        if attr == "fget" and b.op == "class":
            return [(st, T("fget", b))]
        cc = self.class_of_term(b)
        if cc is not None:
            if attr in HOOKNAMES and cc.is_prop(attr):
                return [(st, T("class", attr))]
            if attr in cc.inner:
                return [(st, T("class", cc.inner[attr].qualname))]
            if attr == "numpy" or attr in ("awkward0", "awkward"):
                return [(st, T("name", "numpy" if attr == "numpy" else "awkward0"))]
            if cc.class_attr(attr):
                return [(st, T("clsattr", attr))]
            return [(st, T("attr", b, attr))]
        c = self.term_class(b, st)
        if c is not None:
            self.event("getattr", b, node, st, (attr,))
            if attr in HOOKNAMES and c.is_prop(attr):
                return [(st, T("class", attr))]
            if attr == "numpy":
                return [(st, T("name", "numpy"))]
            if attr in ("awkward0", "awkward"):
                return [(st, T("name", "awkward0"))]
            if any(attr in k.inner for k in c.mro()):
                for k in c.mro():
                    if attr in k.inner:
                        return [(st, T("class", k.inner[attr].qualname))]
            if c.is_prop(attr):
                f = c.find(attr)
                if self.eng.inline_props and self.can_inline(f):
                    return self.inline(f, c, None, [b], {}, st, node)
                return [(st, T("attr", b, attr))]
            if c.class_attr(attr):
                return [(st, T("clsattr", attr))]
        if attr in HOOKNAMES and b.op != "opaque":
            if b.op in ("param", "attr", "sub", "elem") and attr not in ("Methods",):
                return [(st, T("class", attr))]
        if b.op == "dict" :
            pass
        return [(st, mk("attr", b, attr))]

    # ------------------------------------------------------------ calls
    def can_inline(self, f):
        if f.name in self.eng.opaque or f.qual in self.eng.opaque:
            return False
        if self.eng.inline_filter is not None and not self.eng.inline_filter(f, self.func):
            return False
        if len(self.eng.stack) >= self.eng.max_depth:
            return False
        return True

    def ex_Call(self, node, st):
        out = []
        # super(C, self)
        for s, f in self.eval_callee(node.func, st):
            for s2, args in self.eval_list(node.args, s):
                res = [(s2, [])]
                for kw in node.keywords:
                    nxt = []
                    for s3, acc in res:
                        for s4, v in self.eval(kw.value, s3):
                            nxt.append((s4, acc + [(kw.arg, v)]))
                    res = nxt
                for s3, kws in res:
                    out.extend(self.call(f, args, kws, s3, node))
        return out

    def eval_callee(self, fn, st):
        if isinstance(fn, ast.Attribute):
            out = []
            for s, b in self.eval(fn.value, st):
                if b.op in ("name", "class") or (b, fn.attr) in s.heap:
                    out.extend(self.get_attr(b, fn.attr, s, fn))
                    continue
                c = self.term_class(b, s)
                cc = self.class_of_term(b) if c is None else None
                if c is not None and c.is_prop(fn.attr):
                    out.extend(self.get_attr(b, fn.attr, s, fn))
                elif cc is not None and cc.find(fn.attr) is None:
                    out.extend(self.get_attr(b, fn.attr, s, fn))
                elif fn.attr in HOOKNAMES:
                    out.extend(self.get_attr(b, fn.attr, s, fn))
                else:
                    if c is not None:
                        self.event("getattr", b, fn, s, (fn.attr,))
                    out.append((s, T("attr", b, fn.attr)))
            return out
        return self.eval(fn, st)

    def kwterm(self, kws):
        return [T("kw", k, v) if k is not None else T("dstar", v) for k, v in kws]

    def call(self, f, args, kws, st, node):
        self.eng.ncalls += 1
        nm = f.args[0] if f.op == "name" else None
        t = mkcall(f, args + self.kwterm(kws))
        if f.op == "phi":
            out = []
            for x in f.args:
                out.extend(self.call(x, args, kws, st, node))
            return out
        # builtins -----------------------------------------------------
        if nm == "super":
            return [(st, T("super", *args))]
        if nm == "type" and len(args) == 1 and not kws:
            return [(st, T("classof", args[0]))]
        if nm in ("isinstance", "issubclass") and len(args) == 2:
            return [(st, self.isinst(nm, args, st))]
        if nm == "getattr" and len(args) >= 2 and cstr(args[1]) is not None and len(args) == 2:
            return self.get_attr(args[0], cstr(args[1]), st, node)
        if nm == "bool" and len(args) == 1:
            return [(st, args[0] if self.is_boolish(args[0]) else t)]
        if nm == "setattr" and len(args) == 3 and cstr(args[1]) is not None:
            return [(s, NONE) for s in self.store_attr(args[0], cstr(args[1]), args[2], st, node)]
        if nm == "len" and len(args) == 1:
            if args[0].op in ("tuple", "list") and not any(x.op == "star" for x in args[0].args):
                return [(st, const(len(args[0].args)))]
            c = self.term_class(args[0], st)
            if c is not None and c.find("__len__") is not None and self.can_inline(c.find("__len__")):
                return self.inline(c.find("__len__"), c, None, [args[0]], {}, st, node)
            if args[0].op == "list0":
                return [(st, const(0))]
            return [(st, mk("call", f, args[0]))]
        if nm == "set" and not args:
            return [(st, T("set0", self.site(node)))]
        if f in ODICT and not args and not kws:
            return [(st, T("dict0", self.site(node)))]
        if nm in ("dict", "list") and not args and not kws:
            return [(st, T(nm + "0", self.site(node)))]
        # X.fget(None) class hook
        if f.op == "attr" and f.args[1] == "fget" and f.args[0].op == "class":
            return [(st, f.args[0])]
        if f.op == "fget":
            return [(st, f.args[0])]
        # C.__new__(C)
        if f.op == "attr" and f.args[1] == "__new__":
            cl = args[0] if args else f.args[0]
            n = T("new", self.site(node), cl)
            return [(self.mark(st, t, node), n)]
        # closures
        if f.op in ("closure", "lambda"):
            return self.call_closure(f, args, kws, st, node)
        fi, ctx, recv = self.resolve_call(f, st)
        if fi is None and self.ctor_class(f) is not None:
            return self.construct(f, self.ctor_class(f), args, kws, st, node, t)
        self.event("call", t, node, st, (f, T("tuple", *args), T("tuple", *self.kwterm(kws))))
        if fi is not None and self.can_inline(fi):
            a2 = ([recv] if recv is not None else []) + args
            if not any(x.op in ("star",) for x in args):
                return self.inline(fi, ctx, None, a2, dict((k, v) for k, v in kws if k is not None), st, node, t,
                                   dstar=[v for k, v in kws if k is None])
        if fi is None:
            self.eng.unresolved += 1
        # mutating method on a tracked container
        st = self.mark(st, t, node)
        if f.op == "attr" and f.args[1] == "update" and len(args) == 1 and not kws:
            dst, src = dictof(f.args[0]), dictof(args[0])
            if dst is not None and dst.op == "new" and src is not None:
                st = st.copy()
                for k in [k for k in st.heap if k[0] is dst]:
                    del st.heap[k]
                for (b, a), v in list(st.heap.items()):
                    if b is src:
                        st.heap[(dst, a)] = v
                st.heap[(dst, "__dict__")] = src
                return [(st, t)]
        if f.op == "attr" and f.args[1] in MUTATORS:
            self.event("mutcall", f.args[0], node, st, (f.args[1], T("tuple", *args)))
            if f.args[0].op in ("list0", "list", "dict0", "dict", "set0", "set", "box") or (f.args[0].op == "comp" and f.args[0].args[0] in ("dict", "list")):
                st = st.copy()
                new = None
                if f.args[1] == "update" and len(args) == 1 and not kws:
                    new = self.dict_with(f.args[0], T("dstar", args[0]))
                elif f.args[1] in ("append", "extend") and len(args) == 1 and not kws:
                    new = self.list_with(f.args[0], args[0] if f.args[1] == "append" else self.elem(args[0], st))
                self.degrade(st, f.args[0], *args, new=new)
        return [(st, t)]

    def isinst(self, nm, args, st):
        t = mk("call", T("name", nm), *args)
        x, c = args
        if nm == "isinstance":
            if x.op == "const" or x.op in ("tuple", "list", "dict", "list0", "dict0"):
                tn = x.args[0] if x.op == "const" else x.op.rstrip("0")
                cs = c.args if c.op == "tuple" else (c,)
                if all(y.op == "name" or y.op == "class" for y in cs):
                    names = [y.args[0] for y in cs]
                    if any(n.split(".")[-1] == tn for n in names):
                        return TRUE
                    if x is NONE or tn in ("str", "bool", "tuple", "list", "dict"):
                        if not any(n.split(".")[-1] in ("Iterable", "object", "string", "Integral", "Number", "numbers") for n in names):
                            return FALSE
                        if x is NONE:
                            return FALSE
            k = self.term_class(x, st)
            if k is not None:
                cs = c.args if c.op == "tuple" else (c,)
                if all(y.op == "class" for y in cs):
                    if any(k.issub(y.args[0]) for y in cs):
                        return TRUE
                    if not any(self.prog.classes.get(y.args[0]) is not None and self.prog.classes[y.args[0]].issub(k.qualname) for y in cs):
                        if x.op == "new" or x is SELF:
                            return FALSE
        return t

    def mark(self, st, t, node):
        st = st.copy()
        st.marks = st.marks | frozenset([t])
        return st

    def ctor_class(self, f):
        c = self.class_of_term(f)
        return c

    def construct(self, f, c, args, kws, st, node, t):
        self.event("call", t, node, st, (f, T("tuple", *args), T("tuple", *self.kwterm(kws))))
        n = T("new", self.site(node), f)
        st = self.mark(st, t, node)
        init = c.find("__init__")
        if init is not None and self.eng.inline_ctor and self.can_inline(init) and not any(x.op == "star" for x in args) \
                and not any(k is None for k, _ in kws):
            out = self.inline(init, c, None, [n] + args, dict(kws), st, node, T("call", T("attr", n, "__init__")))
            return [(s, n) for s, _ in out]
        st = st.copy()
        st.heap[(n, "$args")] = mk("tuple", *(args + self.kwterm(kws)))
        return [(st, n)]

    def resolve_call(self, f, st):
        """-> (FuncInfo, ctx ClassInfo, receiver term or None)"""
        if f.op == "name":
            d = f.args[0]
            if d.startswith("awkward0."):
                r = self.prog._abs(d.split("."))
                if isinstance(r, FuncInfo):
                    return self.bind_func(r, None)
            return None, None, None
        if f.op == "attr":
            b, attr = f.args
            if b.op == "super":
                c = self.ctx or self.func.cls
                after = self.func.cls
                if b.args and b.args[0].op == "class":
                    after = self.prog.classes.get(b.args[0].args[0], after)
                if c is not None:
                    m = c.find(attr, after=after)
                    if m is not None:
                        return m, c, (SELF if m.kind != "classmethod" else T("classof", SELF))
                return None, None, None
            cc = self.class_of_term(b)
            if cc is not None:
                m = cc.find(attr)
                if m is not None:
                    if m.kind == "classmethod":
                        return m, cc, b
                    if m.kind == "bothmethod":
                        return m, cc, b
                    if m.kind == "method":
                        # explicit self: the context is the class of the first argument, resolved by the caller
                        return m, None, None
                    return m, cc, None
                return None, None, None
            c = self.term_class(b, st)
            if c is not None:
                m = c.find(attr)
                if m is not None and attr not in c.props:
                    if m.kind in ("classmethod",):
                        return m, c, T("classof", b)
                    if m.kind == "staticmethod":
                        return m, c, None
                    return m, c, b
        return None, None, None

    def bind_func(self, r, b):
        if r.cls is not None:
            if r.kind in ("classmethod", "bothmethod"):
                return r, r.cls, T("class", r.cls.qualname)
            return r, None, None
        return r, None, None

    def call_closure(self, f, args, kws, st, node):
        cn, run = self.eng.closures[f]
        t = mkcall(f, args + self.kwterm(kws))
        key = ("closure", f)
        self.event("call", t, node, st, (f, T("tuple", *args), T("tuple", *self.kwterm(kws))))
        if key in self.eng.stack or len(self.eng.stack) > self.eng.max_depth or (run is not self):
            return [(self.mark(st, t, node), t)]
        self.eng.stack.append(key)
        try:
            s = st.copy()
            a = cn.args
            names = [x.arg for x in a.args + a.kwonlyargs]
            nd = len(a.defaults)
            for i, n in enumerate(names):
                if i < len(args) and args[i].op != "star":
                    s.env[n] = args[i]
                elif dict((k, v) for k, v in kws if k).get(n) is not None:
                    s.env[n] = dict((k, v) for k, v in kws if k)[n]
                else:
                    j = i - (len(a.args) - nd)
                    if 0 <= j < nd and i < len(a.args):
                        s.env[n] = self.eval(a.defaults[j], st)[0][1]
                    else:
                        s.env[n] = T("param", "closure:" + n)
            if a.vararg:
                s.env[a.vararg.arg] = mk("tuple", *args[len(names):])
            if isinstance(cn, ast.Lambda):
                res = self.eval(cn.body, s)
                return [(self.restore_env(x, st), v) for x, v in res]
            rets = []
            self.ret_stack.append(rets)
            self.ret_bases = getattr(self, "ret_bases", []) + [len(self.finals)]
            loops = self.loop_stack
            self.loop_stack = []
            try:
                outs = self.exec_block(cn.body, [s])
                for x in outs:
                    rets.append(Outcome("return", NONE, x, cn))
            finally:
                self.ret_stack.pop()
                self.ret_bases = self.ret_bases[:-1]
                self.loop_stack = loops
            rets = self.cap_outcomes(rets, MAXOUT)
            return [(self.restore_env(o.state, st, cn), o.term) for o in rets]
        finally:
            self.eng.stack.pop()

    def restore_env(self, inner, outer, cn=None):
        s = inner.copy()
        env = dict(outer.env)
        s.env = env
        return s

    # ------------------------------------------------------------ summary application
    def inline(self, f, ctx, _, args, kwargs, st, node, callterm=None, dstar=()):
        """apply f's summary with positional args (receiver included for methods) -> [(state, term)]"""
        if callterm is None:
            callterm = mkcall(T("attr", args[0], f.name) if args else T("name", f.qual), args[1:])
        if ctx is None and f.kind == "method" and args:
            ctx = self.term_class(args[0], st)
        if f.cls is None:
            ctx = None
        elif ctx is None:
            ctx = f.cls
        key = (f, ctx)
        if key in self.eng.stack:
            return [(self.mark(st, callterm, node), callterm)]
        # bind
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        if f.kind == "bothmethod":
            if args and self.term_class(args[0], st) is not None:
                args = [FALSE] + args
            else:
                args = [TRUE] + args
        bind = {}
        pnames = list(names)
        if f.cls is not None and f.kind == "method" and pnames:
            pnames[0] = "self"
        if f.cls is not None and f.kind == "classmethod" and pnames:
            pnames[0] = "cls"
        for i, n in enumerate(pnames):
            if i < len(args):
                bind[T("param", n)] = args[i]
        kwn = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwn:
                bind[T("param", k)] = v
            else:
                rest[k] = v
        nd = len(a.defaults)
        for i, n in enumerate(names):
            p = T("param", pnames[i])
            if p not in bind:
                j = i - (len(names) - nd)
                if dstar:
                    bind[p] = phi([mk("sub", dstar[0], const(n))] + ([self.default(f, a.defaults[j])] if 0 <= j < nd else []))
                elif 0 <= j < nd:
                    bind[p] = self.default(f, a.defaults[j])
                else:
                    bind[p] = T("opaque", "missing:" + n)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            p = T("param", x.arg)
            if p not in bind:
                bind[p] = self.default(f, d) if d is not None else T("opaque", "missing:" + x.arg)
        if a.vararg:
            bind[T("param", "*" + a.vararg.arg)] = mk("tuple", *args[len(names):])
        if a.kwarg:
            bind[T("param", "**" + a.kwarg.arg)] = mk("dict", *([T("item", const(k), v) for k, v in sorted(rest.items())] + [T("dstar", v) for v in dstar])) \
                if rest or dstar else T("dict0", "kw:" + f.qual)
        summ = self.eng.summary(f, ctx)
        sub = Subst(self, bind, st, self.site(node) if node is not None else "", ctx)
        # events
        for e in summ.events:
            if self.eng.keep_events is not None:
                if not self.eng.keep_events(e):
                    continue
            elif e.kind not in ("setitem", "iadd", "mutcall", "setattr", "delitem", "delattr"):
                continue
            elif not any(r.op in ("param", "name") for r in roots(e.term)):
                continue
            if len(e.via) > 6:
                continue
            ex = e.extra
            if ex is not None:
                ex = tuple(sub(x) if isinstance(x, Term) else x for x in ex)
            facts = frozenset((sub(t), v) for t, v in e.facts) | st.facts
            if any(self._truth_simple(t) is not None and self._truth_simple(t) != v for t, v in facts):
                continue
            if any((t, not v) in facts for t, v in facts):
                continue
            self.summ.add(Event(e.kind, sub(e.term), e.node, e.func, facts, st.marks | frozenset(sub(m) for m in e.marks if m.size < 40),
                                ex, ((self.func, node),) + e.via))
        base = self.mark(st, callterm, node)
        rets = summ.returns
        if summ.is_gen:
            return [(base, mkcall(T("attr", args[0], f.name) if (f.cls is not None and args) else T("name", f.qual), list(args[1:])))]
        if not summ.complete:
            return [(base, callterm)]
        if len(rets) > MAXOUT:
            rets = self.cap_outcomes(rets, MAXOUT)
        out = []
        for o in rets:
            s = base.copy()
            ok = True
            heap2 = {}
            for (b, at), v in o.state.heap.items():
                heap2[(sub(b), at)] = sub(v)
            ss = [s]
            # facts
            for t, v in o.state.facts:
                t2 = sub(t)
                nxt = []
                for x in ss:
                    if t2.size > 60:
                        nxt.append(x)
                    else:
                        nxt.extend(self.assume(t2, v, x))
                ss = nxt
                if not ss:
                    ok = False
                    break
            if not ok:
                continue
            term = sub(o.term)
            marks = frozenset(sub(m) for m in o.state.marks if m.size < 60)
            for x in ss[:4]:
                x = x.copy()
                x.heap.update(heap2)
                x.marks = x.marks | marks
                out.append((x, term))
        if self.try_stack:
            for o in summ.raises[:4]:
                self.try_stack[-1].append(base)
        if not out and rets:
            # every outcome contradicts what is known here: infeasible
            return []
        return reduce_pairs(out, MAXOUT)

    def _truth_simple(self, t):
        t, tr = split_neg(t)
        if t in (TRUE, FALSE, NONE):
            v = t is TRUE
            return v if tr else not v
        return None

    def default(self, f, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return const(-d.operand.value)
        if isinstance(d, ast.Name):
            return T("name", f.module.name + "." + d.id)
        dd = dotted(d)
        if dd:
            return T("name", dd)
        if isinstance(d, ast.Tuple) and not d.elts:
            return T("tuple")
        return T("opaque", "default")


def mkc(op, a, b):
    return T("cmp", op, a, b)


def reduce_pairs(pairs, cap=MAXSTATES):
    if len(pairs) <= 1:
        return pairs
    seen, out = set(), []
    for s, t in pairs:
        k = (t, s.key())
        if k not in seen:
            seen.add(k)
            out.append((s, t))
    while len(out) > cap:
        nxt = []
        for i in range(0, len(out), 2):
            if i + 1 < len(out):
                nxt.append((join2(out[i][0], out[i + 1][0]), phi([out[i][1], out[i + 1][1]])))
            else:
                nxt.append(out[i])
        out = nxt
    return out


class Subst(object):
    """rewrite a callee term into the caller: parameters -> arguments, field reads through the caller's store"""

    def __init__(self, run, bind, st, site, ctx):
        self.run, self.bind, self.st, self.sitekey, self.ctx = run, bind, st, site, ctx
        self.cache = {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        r = self.cache.get(t)
        if r is None:
            r = self._sub(t)
            self.cache[t] = r
        return r

    def _sub(self, t):
        o = t.op
        if o == "param":
            if t in self.bind:
                return self.bind[t]
            return t
        if o in ("const", "name", "class", "opaque", "clsattr", "lambda", "closure", "fstr", "list0", "set0"):
            return t
        if o == "dict0":
            return t if len(t.args) == 1 else T("dict0", *[self(x) for x in t.args])
        if o == "mix":
            r = frozenset()
            for x in t.args[0]:
                r |= roots(self(x))
            return T("mix", r)
        if o == "new":
            site = t.args[0]
            if site.count("@") < 3 and self.sitekey:
                site = site + "@" + self.sitekey
            return T("new", site, self(t.args[1]))
        if o == "attr":
            b = self(t.args[0])
            k = (b, t.args[1])
            if k in self.st.heap:
                return self.st.heap[k]
            if b.op == "phi" and any((x, t.args[1]) in self.st.heap for x in b.args):
                return phi([self.st.heap.get((x, t.args[1]), T("attr", x, t.args[1])) for x in b.args])
            return mk("attr", b, t.args[1])
        if o == "classof":
            b = self(t.args[0])
            if b.op == "new":
                return b.args[1]
            return T("classof", b)
        if o == "phi":
            return phi([self(x) for x in t.args])
        args = tuple(self(x) if isinstance(x, Term) else x for x in t.args)
        if o == "cmp":
            return mkcmp(args[0], args[1], args[2])
        if o == "not":
            return neg(args[0])
        if o == "bin":
            return self.run.binop(*args)
        if o == "sub":
            return self.run.subscript(args[0], args[1])
        if o == "call" and args[0] is T("name", "isinstance") and len(args) == 3:
            return self.run.isinst("isinstance", list(args[1:]), self.st)
        if o == "call" and args[0] is T("name", "len") and len(args) == 2 and args[1].op in ("tuple", "list") \
                and not any(x.op == "star" for x in args[1].args):
            return const(len(args[1].args))
        if o == "slice":
            return mk("slice", *args)
        if o == "call":
            return mkcall(args[0], list(args[1:]))
        return mk(o, *args)
