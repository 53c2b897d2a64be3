"""Exact acceleration of loops. When two consecutive visits of a loop head differ only in numbers,
by constants, the state after k more of these rounds is a guess with a symbolic k. The guess is
verified by one symbolic round from it (the induction step); the conditions of that round, which
are linear in k, hold for all rounds before the K-th exactly if they hold for the first and the
last of them."""
from state import *


class No(Exception):
    pass


class Walk:
    """Walks two values in step."""

    def __init__(self, s1, s2):
        self.a, self.b = s1, s2

    def num(self, x, y):
        raise NotImplementedError

    def obj(self, x, y):
        """Whether two objects are constants with the same contents."""
        if x == y:
            return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and x[0] == y[0] == "c":
            try:
                return self.a.objs[x] == self.b.objs[y]
            except KeyError:
                return False
        return False

    def val(self, x, y):
        if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None or isinstance(x, str):
            if x is not y and (isinstance(x, bool) != isinstance(y, bool) or x != y):
                raise No
            return y
        if isinstance(x, (int, Lin)):
            if not isinstance(y, (int, Lin)):
                raise No
            return self.num(x, y)
        if type(x) is not type(y):
            raise No
        if isinstance(x, tuple):
            if len(x) != len(y):
                raise No
            return tuple(self.val(p, q) for p, q in zip(x, y))
        if isinstance(x, S):
            return S(self.val(x.f, y.f))
        if isinstance(x, V):
            if x.v != y.v:
                raise No
            return V(y.v, self.val(x.f, y.f))
        if isinstance(x, P):
            if not self.obj(x.obj, y.obj):
                raise No
            return P(y.obj, self.val(x.path, y.path), self.num(x.off, y.off), self.val(x.meta, y.meta))
        if isinstance(x, Tok):
            if x.s != y.s:
                raise No
            return Tok(y.s, self.num(x.i, y.i))
        if isinstance(x, Arr):
            if x.es != y.es:
                raise No
            return Arr(y.es, self.val(x.segs, y.segs))
        if isinstance(x, Cond):
            if x.k != y.k:
                raise No
            return Cond(x.k, self.num(x.e, y.e))
        if type(x).__name__ == "Raw":
            return type(x)(self.val(x.size, y.size))
        if x is y or x == y:
            return y
        raise No

    def run(self, out):
        a, b = self.a, self.b
        for f in ("unwinding", "panics", "nulls", "approx"):
            if getattr(a, f) != getattr(b, f):
                raise No
        if a.heap.keys() != b.heap.keys():
            raise No
        ga, gb = a.ghost, b.ghost
        if ga.keys() != gb.keys():
            raise No
        for k in a.memo:
            if b.memo.get(k) != a.memo[k]:
                raise No
        for k in a.objs:
            if k not in b.objs:
                raise No
        for k, y in b.objs.items():
            if k not in a.objs:
                if k[0] not in ("c", "tmp", "o"):
                    raise No
                continue
            x = a.objs[k]
            if x is not y:
                out.objs[k] = self.val(x, y)
        for k, y in b.heap.items():
            x = a.heap[k]
            if x is not y:
                out.heap[k] = self.val(x, y)
        for k, y in gb.items():
            x = ga[k]
            if x is not y and k != "nat":
                out.ghost[k] = self.val(x, y)
        for f in ("dropped", "given", "created", "events", "exp"):
            x, y = getattr(a, f), getattr(b, f)
            if x is not y:
                setattr(out, f, self.val(x, y))
        return out


class Extend(Walk):
    """The second state and k times its difference to the first one."""

    def __init__(self, s1, s2, k):
        Walk.__init__(self, s1, s2)
        self.k = k
        self.ds = []

    def num(self, x, y):
        if x is y:
            return y
        y = self.b.norm(y)
        d = sub(y, self.b.norm(x))
        d = self.b.norm(d)
        if not isinstance(d, int):
            raise No
        self.ds.append(d)
        if d == 0:
            return y
        return add(y, scale(self.k, d))


class Same(Walk):
    def num(self, x, y):
        if x is y:
            return y
        d = self.b.norm(sub(x, y))
        if d == 0:
            return y
        if isinstance(d, int) or not self.b.cons.entails_eq(d):
            raise No
        return y

    def obj(self, x, y):
        return Walk.obj(self, x, y)


def pattern(s1, s2):
    """The differences of two states in the order of the walk, or None."""
    w = Extend(s1, s2, sym(0))
    try:
        w.run(s2.copy())
    except (No, TooHard):
        return None
    return w.ds


def put_k(e, k, v):
    """The form with a value for the symbol k."""
    return subst(e, {k: v})


def accelerate(I, fr, bid, b, ln, s1, s2):
    """States after any number (at least one) of rounds like that between the two states, or ()."""
    keep = I.findings, I.unsup, I.trunc, I.truncated, I.proved, I.noaccel
    I.findings, I.unsup, I.trunc, I.proved, I.noaccel = [], {}, {}, {}, True
    lim = I.nsyms
    try:
        sk = s2.copy()
        k = I.fresh(sk, "_round", 0, 1 << 40)
        Extend(s1, s2, k).run(sk)
        nxt = s2.copy()
        Extend(s1, s2, add(k, 1)).run(nxt)
        sk.trace = ()
        back = []
        I.explore(fr, bid, sk, ln, b, back)
    except (No, TooHard, Unsupported, Bug, Fork, Dead):
        return ()
    finally:
        I.findings, I.unsup, I.trunc, I.truncated, I.proved, I.noaccel = keep
    out = []
    K = k.t[0][0]
    for r in back:
        try:
            if r.trace is None:
                continue
            Same(nxt, r).run(State())
            facts = []
            for alts in r.trace:
                for kind, e in alts:
                    if kind not in ("ge", "eq", "gt"):
                        raise No
                    e = s2.cons.norm(e)
                    if isinstance(e, int):
                        continue
                    if any(x > K or x >= lim and x != K for x, _ in e.t):
                        raise No
                    c = dict(e.t).get(K, 0)
                    if kind == "eq" and c:
                        raise No
                    facts.append((kind, e, c))
            # everything else that the round learned must not be about the symbols we keep
            w = s2.copy()
            n = I.fresh(w, "rounds%d" % I.nsyms, 1, 1 << 40)
            Extend(s1, s2, n).run(w)
            fs = []
            for kind, e, c in facts:
                fs.append((kind, put_k(e, K, 0)))
                if c:
                    fs.append((kind, put_k(e, K, sub(n, 1))))
            if fs and not w.assume(fs):
                continue
            out.append(w)
        except (No, TooHard):
            continue
    return out
