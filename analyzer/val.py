"""Abstract values."""
from lin import *


class Uninit:
    __slots__ = ()

    def __repr__(self):
        return "UNINIT"


U = Uninit()


class Cond:
    """Boolean given by a linear fact: e >= 0, e == 0 or e != 0."""

    __slots__ = ("k", "e")

    def __init__(self, k, e):
        self.k = k
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Cond) and o.k == self.k and o.e == self.e

    def __hash__(self):
        return hash((self.k, self.e))

    def __repr__(self):
        return "(%s %s 0)" % (show(self.e), {"ge": ">=", "eq": "==", "ne": "!="}[self.k])

    def negate(self):
        if self.k == "ge":
            return Cond("ge", sub(-1, self.e))
        return Cond("ne" if self.k == "eq" else "eq", self.e)


class S:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, S) and o.f == self.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.f))


UNIT = S(())


class V:
    __slots__ = ("v", "f")

    def __init__(self, v, f=()):
        self.v = v
        self.f = f

    def __eq__(self, o):
        return isinstance(o, V) and o.v == self.v and o.f == self.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return "#%s(%s)" % (self.v, ", ".join(map(repr, self.f)))


class P:
    """Pointer: object, path inside of it, byte offset (inside of an array) and metadata.
    `obj` is None for an address that belongs to no object; `off` is the address then."""

    __slots__ = ("obj", "path", "off", "meta")

    def __init__(self, obj, path=(), off=0, meta=None):
        self.obj = obj
        self.path = path
        self.off = off
        self.meta = meta

    def __eq__(self, o):
        return isinstance(o, P) and o.obj == self.obj and o.path == self.path and o.off == self.off and o.meta == self.meta

    def __hash__(self):
        return hash((self.obj, self.path, self.off, self.meta))

    def __repr__(self):
        return "&%r%s%s%s" % (self.obj, "".join("." + str(p) for p in self.path), "+" + show(self.off) if self.off != 0 else "", "|%r" % (self.meta,) if self.meta is not None else "")


class Fn:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Fn) and o.c == self.c

    def __hash__(self):
        return hash(str(self.c))

    def __repr__(self):
        return "fn#%s" % (self.c,)


class Opq:
    """Value about which nothing is known."""

    __slots__ = ("d",)

    def __init__(self, d=""):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Opq) and self.d == o.d

    def __hash__(self):
        return hash(self.d)

    def __repr__(self):
        return "?%s" % (self.d,)


class Tok:
    """Value number `i` of the source of opaque values."""

    __slots__ = ("s", "i")

    def __init__(self, s, i):
        self.s = s
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Tok) and o.s == self.s and o.i == self.i

    def __hash__(self):
        return hash((self.s, self.i))

    def __repr__(self):
        return "%s[%s]" % (self.s, show(self.i))


class Chr:
    """Character of a text source: its offset and width in bytes."""

    __slots__ = ("s", "off", "w")

    def __init__(self, s, off, w):
        self.s = s
        self.off = off
        self.w = w

    def __eq__(self, o):
        return isinstance(o, Chr) and (o.s, o.off, o.w) == (self.s, self.off, self.w)

    def __hash__(self):
        return hash((self.s, self.off, self.w))

    def __repr__(self):
        return "char %s[%s]" % (self.s, show(self.off))


class Byte:
    """Signed number of a byte of a text."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Byte) and o.t == self.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "i8 of %r" % (self.t,)


class Low:
    """Low byte of the number of a character that takes more than one byte."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Low) and o.c == self.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return "low byte of %r" % (self.c,)


class Arr:
    """Array contents. Segments: ('U', n) uninitialised, ('R', source, start, n) run of opaque
    values, ('V', value, n) n times the same plain value, ('J', n) unknown."""

    __slots__ = ("es", "segs")

    def __init__(self, es, segs):
        self.es = es
        self.segs = segs

    def __eq__(self, o):
        return isinstance(o, Arr) and o.es == self.es and o.segs == self.segs

    def __hash__(self):
        return hash((self.es, self.segs))

    def __repr__(self):
        return "[%s]" % " ".join(showseg(s) for s in self.segs)


def slen(s):
    return s[-1]


def showseg(s):
    if s[0] == "R":
        return "%s[%s..+%s]" % (s[1], show(s[2]), show(s[3]))
    if s[0] == "V":
        return "%r*%s" % (s[1], show(s[2]))
    return "%s*%s" % (s[0], show(s[-1]))
