"""Symbolic index spaces for the analysis of array code.

A Space stands for the rows of one array: the elements of X, the positions of X's content, the flattened elements of X, ...  Two arrays can be
combined element by element if they have the same space, and positions in a space select from arrays of that space.  Spaces of one owner
(one array in general position) are different from each other; spaces of different owners may turn out to be the same (equal lengths are
required at run time), which is recorded by unifying them.
"""


class Space(object):
    __slots__ = ("name", "tags", "up", "ext", "soft")

    def __init__(self, name, tags, ext=None, soft=False):
        self.name, self.tags, self.up, self.ext, self.soft = name, tags, None, ext, soft

    def __repr__(self):
        return self.name


class Spaces(object):
    """the spaces of one path"""
    def __init__(self):
        self.memo = {}
        self.zero = Space("no elements", {})
        self.emptied = set()
        self.jagged = set()

    def get(self, key, name, owner=None, sym=None, ext=None, soft=False):
        if key not in self.memo:
            self.memo[key] = Space(name, {} if owner is None else {owner: frozenset([sym])}, ext, soft)
        return self.memo[key]

    def find(self, s):
        while s.up is not None:
            s = s.up
        return s

    def same(self, a, b):
        return self.find(a) is self.find(b)

    def conflict(self, a, b):
        """known to be different for some valid arrays"""
        a, b = self.find(a), self.find(b)
        if a is b or a.soft and b.soft:
            return False
        if a is self.zero or b is self.zero:
            c = b if a is self.zero else a
            return bool(c.tags) and not c.soft and id(c) not in self.emptied
        for o in a.tags:
            if o in b.tags and a.tags[o] != b.tags[o]:
                return True
        for x, y in ((a, b), (b, a)):
            # the raw content of one array against the flattened elements of another
            if any(v == frozenset(["C"]) and o in self.jagged for o, v in x.tags.items()) and any(v == frozenset(["F"]) and o in self.jagged for o, v in y.tags.items()):
                return True
        return False

    def unify(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        if a.soft and not b.soft:
            a, b = b, a
        b.up = a
        for o, s in b.tags.items():
            if o not in a.tags:
                a.tags[o] = s
        if a.ext is None:
            a.ext = b.ext
        if a.ext is not None and self.find(a.ext) is a:
            a.ext = None

    def extends(self, a, b):
        """the first positions of a are the positions of b"""
        a, b = self.find(a), self.find(b)
        n = 0
        while a is not b:
            a = a.ext and self.find(a.ext)
            n += 1
            if a is None or n > 20:
                return False
        return True

    def sub(self, s, key, what):
        """a selection of s: different from s itself, not known to differ from other selections"""
        s = self.find(s)
        return self.memo.setdefault(("sub", id(s), key), Space("%s of %s" % (what, s.name), dict((o, frozenset(("sel", x) for x in v)) for o, v in s.tags.items()), None, True))
