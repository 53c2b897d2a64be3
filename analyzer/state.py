"""Abstract machine state: facts, memory, ledger of opaque values, allocator blocks."""
from val import *


class Fork(Exception):
    """The current step depends on an undecided fact; `alts` are the cases."""

    def __init__(self, alts):
        self.alts = alts


class Unsupported(Exception):
    """The analysis has no meaning for the construct; the path stays undecided."""


class Bug(Exception):
    """The path definitely breaks a rule."""

    def __init__(self, cls, msg, *when):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg
        self.when = when
        self.prop = None


class Dead(Exception):
    """The path is impossible."""


class Raw:
    """Heap block that was not accessed yet."""

    __slots__ = ("size",)

    def __init__(self, size):
        self.size = size

    def __repr__(self):
        return "Raw(%s)" % show(self.size)


class State:
    __slots__ = ("cons", "objs", "heap", "dropped", "given", "created", "events", "unwinding", "panics", "exp", "memo", "ghost", "approx", "trace", "nulls", "forks")

    def __init__(self):
        self.forks = 0
        self.cons = Cons()
        self.objs = {}
        self.heap = {}
        self.dropped = ()
        self.given = ()
        self.created = ()
        self.events = ()
        self.unwinding = 0
        self.panics = 0
        self.nulls = 0
        self.exp = ()
        self.memo = {}
        self.ghost = {}
        self.approx = None
        self.trace = None

    def copy(self):
        s = State()
        s.cons = self.cons.copy()
        s.objs = dict(self.objs)
        s.heap = dict(self.heap)
        s.dropped = self.dropped
        s.given = self.given
        s.created = self.created
        s.events = self.events
        s.unwinding = self.unwinding
        s.panics = self.panics
        s.nulls = self.nulls
        s.exp = self.exp
        s.memo = dict(self.memo)
        s.ghost = dict(self.ghost)
        s.approx = self.approx
        s.trace = self.trace
        s.forks = self.forks
        return s

    # ---- facts
    def decide(self, c):
        if c is True or c is False:
            return c
        if isinstance(c, Cond):
            e = self.cons.norm(c.e)
            if c.k == "ge":
                if self.cons.entails(e):
                    return True
                if self.cons.entails(sub(-1, e)):
                    return False
                raise Fork([[("ge", e)], [("ge", sub(-1, e))]])
            p, n = self.cons.sat(sub(e, 1)), self.cons.sat(sub(-1, e))
            z = self.cons.sat(e, neg(e))
            if not z:
                return c.k == "ne"
            if not p and not n:
                return c.k == "eq"
            alts = [[("eq", e)]]
            if p:
                alts.append([("ge", sub(e, 1))])
            if n:
                alts.append([("ge", sub(-1, e))])
            raise Fork(alts)
        if c is U:
            raise Bug("uninit", "a decision is made on uninitialised data")
        raise Unsupported("condition %r" % (c,))

    def ge(self, a, b):
        return self.decide(Cond("ge", sub(a, b)))

    def eq(self, a, b):
        return self.decide(Cond("eq", sub(a, b)))

    def become(self, s):
        """Continue as a copy of the state."""
        s = s.copy()
        for a in State.__slots__:
            setattr(self, a, getattr(s, a))
        return True

    def assume(self, alts):
        if alts and alts[0][0] == "state":
            return self.become(alts[0][1])
        if self.trace is not None:
            self.trace = self.trace + (tuple(alts),)
        for k, e in alts:
            if k == "ge":
                self.cons.assume(e)
            else:
                self.cons.assume_eq(e)
        return not self.cons.dead and self.cons.sat(*[e for k, e in alts], *[neg(e) for k, e in alts if k == "eq"])

    def norm(self, e):
        return self.cons.norm(e)

    # ---- segments
    def clean(self, segs):
        out = []
        for s in segs:
            n = self.norm(s[-1])
            if n == 0 or (not isinstance(n, int) and self.cons.bounds(n)[1] == 0) or (not isinstance(n, int) and self.cons.entails(neg(n))):
                continue
            if s[0] == "R":
                s = ("R", s[1], self.norm(s[2]), n)
            else:
                s = s[:-1] + (n,)
            if out:
                p = out[-1]
                if p[0] == s[0] == "R" and p[1] == s[1]:
                    d = self.norm(sub(add(p[2], p[3]), s[2]))
                    if d == 0:
                        out[-1] = ("R", p[1], p[2], add(p[3], n))
                        continue
                elif p[0] == s[0] and p[0] in "UJ":
                    out[-1] = (p[0], add(p[-1], n))
                    continue
                elif p[0] == s[0] == "V" and p[1] == s[1]:
                    out[-1] = ("V", p[1], add(p[2], n))
                    continue
            out.append(s)
        return tuple(out)

    def total(self, segs):
        n = 0
        for s in segs:
            n = add(n, s[-1])
        return self.norm(n)

    def split(self, segs, pos):
        left = []
        pos = self.norm(pos)
        for k, s in enumerate(segs):
            if pos == 0:
                return left, list(segs[k:])
            n = s[-1]
            d = self.norm(sub(n, pos))
            if self.cons.entails(d):  # pos <= n
                if s[0] == "R":
                    l, r = ("R", s[1], s[2], pos), ("R", s[1], add(s[2], pos), d)
                else:
                    l, r = s[:-1] + (pos,), s[:-1] + (d,)
                if d == 0:
                    return left + [l], list(segs[k + 1:])
                return left + [l], [r] + list(segs[k + 1:])
            if self.cons.entails(neg(d)):
                left.append(s)
                pos = self.norm(sub(pos, n))
                continue
            raise Fork([[("ge", d)], [("ge", sub(-1, d))]])
        if self.cons.entails_eq(pos):
            return left, []
        raise Bug("oob", "access of %s slots after the end" % show(pos), ("ge", sub(pos, 1)))

    def sub(self, segs, i, n):
        _, r = self.split(segs, i)
        m, _ = self.split(r, n)
        return self.clean(m)

    def one(self, segs):
        """The only element of segments with total length 1."""
        for s in segs:
            if self.cons.entails(sub(s[-1], 1)):
                return segval(s)
            if self.cons.entails(neg(s[-1])):
                continue
            raise Fork([[("ge", sub(s[-1], 1))], [("ge", neg(s[-1]))]])
        raise Unsupported("empty element")

    def check_range(self, arr, i, n, what):
        tot = self.total(arr.segs)
        over = self.norm(sub(sub(tot, i), n))
        if not self.ge(over, 0):
            raise Bug("oob", "%s of %s elements at %s of storage for %s" % (what, show(n), show(self.norm(i)), show(tot)))
        i = self.norm(i)
        if not self.ge(i, 0):
            raise Bug("oob", "%s before the storage" % what)

    def put(self, segs, i, new, n):
        l, r = self.split(segs, i)
        _, r2 = self.split(r, n)
        return self.clean(list(l) + list(new) + list(r2))

    # ---- ledger of opaque values
    def overlap(self, a, b):
        """A case in which two runs of one source share a value, or None."""
        (s1, i1, n1), (s2, i2, n2) = a, b
        if s1 != s2:
            return None
        es = (sub(sub(add(i2, n2), i1), 1), sub(sub(add(i1, n1), i2), 1), sub(n1, 1), sub(n2, 1))
        if self.cons.sat(*es):
            return es
        return None

    def spent(self, run):
        for d in self.dropped:
            w = self.overlap(run, d)
            if w:
                return "destroyed", w
        for d in self.given:
            w = self.overlap(run, d)
            if w:
                return "moved out", w
        return None

    def use_run(self, run, what):
        r = self.spent(run)
        if r:
            raise Bug("stale", "%s of a value that was already %s: %s" % (what, r[0], showrun(run)), *[("ge", e) for e in r[1]])

    def merge(self, runs, r):
        out = []
        for q in runs:
            if q[0] == r[0]:
                if self.norm(sub(add(q[1], q[2]), r[1])) == 0:
                    r = (r[0], q[1], add(q[2], r[2]))
                    continue
                if self.norm(sub(add(r[1], r[2]), q[1])) == 0:
                    r = (r[0], r[1], add(q[2], r[2]))
                    continue
            out.append(q)
        return tuple(out) + (r,)

    def drop_run(self, run):
        r = self.spent(run)
        if r:
            raise Bug("double", "value %s is destroyed but it was already %s" % (showrun(run), r[0]), *[("ge", e) for e in r[1]])
        self.dropped = self.merge(self.dropped, run)

    def give_run(self, run):
        r = self.spent(run)
        if r:
            raise Bug("double", "value %s is moved out but it was already %s" % (showrun(run), r[0]), *[("ge", e) for e in r[1]])
        self.given = self.merge(self.given, run)


def showrun(r):
    return "%s[%s..+%s]" % (r[0], show(r[1]), show(r[2]))


def segval(s):
    if s[0] == "R":
        return Tok(s[1], s[2])
    if s[0] == "V":
        return s[1]
    if s[0] == "U":
        return U
    return Opq("element")


def valseg(v, n=1):
    if isinstance(v, Tok):
        return ("R", v.s, v.i, 1)
    if v is U:
        return ("U", n)
    if isinstance(v, Opq):
        return ("J", n)
    return ("V", v, n)
