"""May-alias of a term with caller-visible storage, on top of the term domain."""
from .terms import *

IMMUT_ATTR = {"shape", "dtype", "size", "ndim", "itemsize", "nbytes", "names", "fields", "type", "name", "__name__",
              "__module__", "strides", "columns", "str", "kind", "start", "stop", "step", "buffer_size"}
ARRAY_FIELDS = {"_mask", "_tags", "_index", "_parents", "_inverse"}
NP_VIEW = {"asarray", "asanyarray", "frombuffer", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "atleast_1d",
           "atleast_2d", "broadcast_to", "ascontiguousarray", "getdata", "getmask", "getmaskarray", "expand_dims", "split",
           "array_split", "flip", "moveaxis", "require", "rollaxis", "diagonal", "real", "imag", "broadcast_arrays"}
M_VIEW = {"reshape", "view", "ravel", "squeeze", "transpose", "swapaxes", "get", "pop", "setdefault", "filled_", "newbyteorder",
          "flatten", "regular", "items", "values", "fget", "popitem", "__iter__", "__getitem__", "getfield", "flattentuple",
          "compact", "unzip", "__next__", "_tojagged"}
M_FRESH_ALWAYS = {"copy", "deepcopy", "tolist", "tobytes"}
PASS_FIRST = {"_util_toarray", "_util_regular", "_util_flatten", "_util_flattentuple", "windows_safe"}
BUILTIN_VIEW = {"iter", "next", "memoryview", "reversed", "getattr", "vars", "min", "max"}
SCALARS = {"len", "int", "float", "bool", "str", "repr", "id", "hash", "abs", "isinstance", "issubclass", "type", "range",
           "hasattr", "sum", "any", "all", "callable", "ord", "chr", "round", "divmod"}


def index_copies(i):
    """indexing an ndarray with this certainly yields a copy (boolean / integer-array index)"""
    if i.op == "cmp" or i.op == "not":
        return True
    if i.op == "un" and i.args[0] == "~":
        return True
    if i.op == "bin" and i.args[0] in ("&", "|", "^"):
        return True
    if i.op in ("bin",) and any(index_copies(x) for x in i.args[1:]):
        return True
    if i.op == "call":
        f = i.args[0]
        if f.op == "name" and f.args[0].startswith("numpy."):
            return f.args[0].split(".")[-1] in ("nonzero", "argsort", "arange", "array", "isnan", "logical_not", "logical_and",
                                                "logical_or", "isin", "where", "argwhere", "flatnonzero", "zeros", "ones", "empty",
                                                "full", "repeat", "concatenate", "searchsorted", "cumsum")
        if f.op == "attr" and f.args[1] in ("argsort", "nonzero", "boolmask", "astype", "_util_boolmask"):
            return True
    if i.op == "sub":
        return is_array(i)
    if i.op == "mix":
        return True      # an index too complex to follow is not a plain slice
    if i.op == "list":
        return True
    if i.op == "phi":
        return all(index_copies(x) for x in i.args)
    return is_array(i)


def is_array(i):
    """certainly an array of positions (never a slice, never a scalar)"""
    if i.op == "attr":
        return i.args[1] in ARRAY_FIELDS
    if i.op == "sub":
        return i.args[1].op == "slice" and (is_array(i.args[0]) or index_copies(i.args[0])) or \
            (index_copies(i.args[1]) and (is_array(i.args[0]) or i.args[0].op == "call"))
    if i.op == "call":
        f = i.args[0]
        return f.op == "attr" and f.args[1] in ("view", "reshape", "astype", "ravel")
    return False


ND_ATTR = {"base", "T", "flat", "real", "imag", "data", "mask", "_mask", "_data"}


def plain_numpy(t):
    """certainly a numpy array, so it has no awkward fields"""
    if t.op != "call":
        return False
    f = t.args[0]
    if f.op == "name":
        return f.args[0].startswith("numpy.")
    if f.op == "attr":
        if f.args[1] in PASS_FIRST and len(t.args) > 1:
            return plain_numpy(t.args[1])
        return f.args[1] in ("reshape", "view", "ravel")
    return False


_cache = {}


def alias(t):
    """input objects (params) whose storage the *object itself* denoted by t may be or share"""
    r = _cache.get(t)
    if r is None:
        _cache[t] = frozenset()
        r = frozenset(_alias(t))
        _cache[t] = r
    return r


def content(t):
    """storage that items of container t may share"""
    if t.op in ("tuple", "list", "set", "dict"):
        out = frozenset()
        for x in t.args:
            if x.op == "item":
                out |= alias(x.args[1])
            elif x.op in ("star", "dstar"):
                out |= content(x.args[0])
            else:
                out |= alias(x)
        return out
    if t.op == "comp":
        e = t.args[1]
        return alias(e.args[-1]) if e.op == "item" else alias(e)
    if t.op == "box":
        return frozenset()
    if t.op == "phi":
        out = frozenset()
        for x in t.args:
            out |= content(x)
        return out
    if t.op == "call":
        f = t.args[0]
        if f.op == "name" and f.args[0] in ("list", "tuple", "dict", "reversed", "sorted", "iter", "zip", "enumerate", "set", "OrderedDict", "collections.OrderedDict"):
            out = frozenset()
            for x in t.args[1:]:
                out |= content(x) if x.op != "kw" else frozenset()
            return out
    return alias(t)


def _alias(t):
    o, a = t.op, t.args
    if o == "param":
        return [t]
    if o == "attr":
        if a[1] in IMMUT_ATTR:
            return []
        return [x for y in (a[0].args if a[0].op == "phi" else (a[0],)) for x in alias(y) if not plain_numpy(y) or a[1] in ND_ATTR]
    if o == "sub":
        b, i = a
        if i.op == "const" and i.args[0] == "int" and b.op == "attr" and b.args[1] in ("_offsets", "offsets", "_chunksizes"):
            return []        # an item of a one-dimensional index buffer is a scalar
        if b.op == "phi":
            return [x for y in b.args for x in alias(T("sub", y, i))]
        if b.op in ("tuple", "list", "dict", "comp", "box", "set") or (b.op == "call" and b.args[0].op == "name"):
            c = content(b)
            return c if not index_copies(i) else []
        if index_copies(i):
            return []
        return alias(b)
    if o in ("elem", "val"):
        return content(a[0])
    if o == "key":
        return []
    if o == "phi":
        return [x for y in a for x in alias(y)]
    if o == "loopv":
        return alias(a[2])
    if o == "call":
        f, args = a[0], a[1:]
        pos = [x for x in args if x.op not in ("kw", "dstar", "star")]
        kw = dict((x.args[0], x.args[1]) for x in args if x.op == "kw")
        if f.op == "name":
            n = f.args[0]
            last = n.split(".")[-1]
            if n.startswith("numpy."):
                if last in NP_VIEW:
                    return alias(pos[0]) if pos else []
                if last in ("array", "MaskedArray", "masked_array") and (kw.get("copy") is FALSE or (n.startswith("numpy.ma") and "copy" not in kw)):
                    return alias(pos[0]) if pos else []
                return []
            if last in PASS_FIRST:
                return alias(pos[0]) if pos else []
            if n in BUILTIN_VIEW:
                return [x for p in pos for x in alias(p)] if n != "getattr" else alias(pos[0])
            return []
        if f.op == "attr":
            b, m = f.args
            if m in PASS_FIRST:
                return alias(pos[0]) if pos else []
            if m == "astype":
                return alias(b) if kw.get("copy") is FALSE else []
            if m in M_FRESH_ALWAYS:
                return []
            if m in M_VIEW:
                return alias(b)
            return []
        return []
    return []


def path(t):
    """readable access path of the aliased input inside t, outermost param + fields"""
    if t.op == "param":
        return t.args[0]
    if t.op == "attr":
        return path(t.args[0]) + "." + t.args[1]
    if t.op in ("sub",):
        return path(t.args[0]) + "[]"
    if t.op in ("elem", "val"):
        return path(t.args[0]) + "[]"
    if t.op == "call" and t.args[0].op == "attr":
        if t.args[0].args[1] in PASS_FIRST and len(t.args) > 1:
            return path(t.args[1])
        return path(t.args[0].args[0]) + "." + t.args[0].args[1] + "()"
    if t.op == "call" and len(t.args) > 1:
        return path(t.args[1])
    if t.op == "phi":
        c = [x for x in t.args if alias(x)]
        return path(sorted(c, key=repr)[0]) if c else "?"
    if t.op == "loopv":
        return path(t.args[2])
    return t.op


IDENT_CONTAINERS = {"_contents", "_chunks", "contents", "chunks", "_args", "_setitem", "_persistentkey"}


def ident(t):
    """inputs of which the *object* t may be a part (object identity, not storage)"""
    o, a = t.op, t.args
    if o == "param":
        return frozenset([t])
    if o == "attr":
        return frozenset() if a[1] in IMMUT_ATTR else ident(a[0])
    if o == "sub":
        if a[1].op == "slice" or index_copies(a[1]):
            return frozenset()
        if a[0].op in ("tuple", "list", "dict") or (a[0].op == "attr" and a[0].args[1] in IDENT_CONTAINERS) or a[0].op == "param":
            return ident(a[0])
        return frozenset()
    if o in ("elem", "val"):
        if a[0].op == "attr" and a[0].args[1] not in IDENT_CONTAINERS:
            return frozenset()
        return ident(a[0])
    if o in ("tuple", "list", "dict", "phi"):
        return frozenset(x for y in a for x in ident(y.args[1] if y.op == "item" else y))
    if o == "loopv":
        return ident(a[2])
    if o == "call":
        f, args = a[0], a[1:]
        pos = [x for x in args if x.op not in ("kw", "dstar", "star")]
        kw = dict((x.args[0], x.args[1]) for x in args if x.op == "kw")
        n = f.args[0] if f.op == "name" else f.args[1] if f.op == "attr" else ""
        last = str(n).split(".")[-1]
        if last in PASS_FIRST or (str(n).startswith("numpy.") and (last in ("asarray", "asanyarray") or (last == "array" and kw.get("copy") is FALSE))):
            return ident(pos[0]) if pos else frozenset()
    return frozenset()
