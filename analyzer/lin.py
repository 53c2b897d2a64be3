"""Linear expressions over integer symbols and conjunctions of linear inequalities.

The numeric domain of the analysis: a state holds a set of inequalities `e >= 0` and solved
equalities `symbol = expression`. Entailment is decided by Fourier-Motzkin elimination with
integer tightening."""
from math import gcd

U64 = (1 << 64) - 1
I63 = (1 << 63) - 1


class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t, c):
        self.t = t  # tuple of (symbol, coefficient), sorted, no zero coefficients
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show(self)


NAMES = {}


def show(e):
    if isinstance(e, int):
        return str(e)
    s = ""
    for k, v in e.t:
        n = NAMES.get(k, "s%d" % k)
        a = "" if abs(v) == 1 else "%d*" % abs(v)
        s += (" - " if v < 0 else " + ") + a + n
    if e.c or not s:
        s += (" - " if e.c < 0 else " + ") + str(abs(e.c))
    s = s.strip()
    return s[2:] if s.startswith("+ ") else s


def mk(d, c):
    t = tuple(sorted((k, v) for k, v in d.items() if v))
    return Lin(t, c) if t else c


def sym(k):
    return Lin(((k, 1),), 0)


def terms(e):
    return () if isinstance(e, int) else e.t


def const(e):
    return e if isinstance(e, int) else e.c


def add(a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return a + b
    if ia:
        return Lin(b.t, b.c + a) if a else b
    if ib:
        return Lin(a.t, a.c + b) if b else a
    d = dict(a.t)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return mk(d, a.c + b.c)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(tuple((s, v * k) for s, v in a.t), a.c * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return add(a, scale(b, -1))


def divexact(a, k):
    """a / k when every coefficient divides, else None."""
    if isinstance(a, int):
        return a // k if a % k == 0 else None
    if a.c % k or any(v % k for _, v in a.t):
        return None
    return mk({s: v // k for s, v in a.t}, a.c // k)


def subst(e, m):
    if isinstance(e, int):
        return e
    hit = False
    for k, _ in e.t:
        if k in m:
            hit = True
            break
    if not hit:
        return e
    d = {}
    c = e.c
    for k, v in e.t:
        r = m.get(k)
        if r is None:
            d[k] = d.get(k, 0) + v
        elif isinstance(r, int):
            c += r * v
        else:
            c += r.c * v
            for k2, v2 in r.t:
                d[k2] = d.get(k2, 0) + v2 * v
    return mk(d, c)


def tighten(e):
    """Integer tightening of e >= 0. Returns None when trivially true, False when false."""
    if isinstance(e, int):
        return None if e >= 0 else False
    g = 0
    for _, v in e.t:
        g = gcd(g, v)
    if g > 1:
        e = Lin(tuple((s, v // g) for s, v in e.t), e.c // g)
    return e


_cache = {}


class TooHard(Exception):
    pass


def _prep(cs):
    best = {}
    for e in cs:
        e = tighten(e)
        if e is None:
            continue
        if e is False:
            return False
        o = best.get(e.t)
        if o is None or e.c < o:
            best[e.t] = e.c
    # contradiction of opposite constraints
    for t, c in best.items():
        nt = tuple((s, -v) for s, v in t)
        o = best.get(nt)
        if o is not None and c + o < 0:
            return False
    return best


def feasible(cs, trace=None):
    """Whether the conjunction of e >= 0 has a solution (rational, with integer tightening)."""
    key = None
    if trace is None:
        key = frozenset(cs)
        r = _cache.get(key)
        if r is not None:
            return r
    best = _prep(cs)
    if best is False:
        if key is not None:
            _cache[key] = False
        return False
    while best:
        # choose the symbol with the fewest products
        pos, ng = {}, {}
        for t in best:
            for s, v in t:
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    ng[s] = ng.get(s, 0) + 1
        bs, bc = None, None
        for s in set(pos) | set(ng):
            p, n = pos.get(s, 0), ng.get(s, 0)
            cost = p * n - p - n
            if bc is None or cost < bc or (cost == bc and s < bs):
                bs, bc = s, cost
        s = bs
        P, N, rest = [], [], []
        for t, c in best.items():
            v = 0
            for k, w in t:
                if k == s:
                    v = w
                    break
            if v > 0:
                P.append((v, t, c))
            elif v < 0:
                N.append((v, t, c))
            else:
                rest.append(Lin(t, c))
        if trace is not None:
            trace.append((s, P, N))
        if len(P) * len(N) > 4000:
            raise TooHard()
        for v, t, c in P:
            for w, t2, c2 in N:
                g = gcd(v, -w)
                a, b = -w // g, v // g
                d = {}
                for k, x in t:
                    d[k] = x * a
                for k, x in t2:
                    d[k] = d.get(k, 0) + x * b
                rest.append(mk(d, c * a + c2 * b))
        best = _prep(rest)
        if best is False:
            if key is not None:
                _cache[key] = False
            return False
        if len(best) > 600:
            raise TooHard()
    if key is not None:
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = True
    return True


def model(cs):
    """An integer solution preferring small values, or None."""
    trace = []
    try:
        if not feasible(cs, trace):
            return None
    except TooHard:
        return None
    order = trace[::-1]
    budget = [4000]
    m = {}

    def val(t, c, skip):
        r = c
        for k, v in t:
            if k != skip:
                r += v * m.get(k, 0)
        return r

    def rec(i):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        if i == len(order):
            return True
        s, P, N = order[i]
        lo, hi = None, None
        for v, t, c in P:  # v*s + r >= 0  ->  s >= ceil(-r / v)
            r = val(t, c, s)
            b = -(r // v)
            lo = b if lo is None or b > lo else lo
        for v, t, c in N:  # s <= floor(r / -v)
            r = val(t, c, s)
            b = r // (-v)
            hi = b if hi is None or b < hi else hi
        if lo is not None and hi is not None and lo > hi:
            return False
        cands = []
        if lo is not None:
            cands = list(range(lo, (min(hi, lo + 5) if hi is not None else lo + 5) + 1))
            if hi is not None and hi > lo + 5:
                cands += [hi, hi - 1, (lo + hi) // 2]
        elif hi is not None:
            cands = [min(hi, 0), hi, hi - 1]
        else:
            cands = [0, 1, 2]
        for x in cands:
            m[s] = x
            if rec(i + 1):
                return True
        m.pop(s, None)
        return False

    if rec(0):
        return m
    return None


class Cons:
    """Conjunction of facts over symbols. Copy before changing."""

    __slots__ = ("ineq", "sol", "lo", "hi", "dead")

    def __init__(self):
        self.ineq = ()
        self.sol = {}
        self.lo = {}
        self.hi = {}
        self.dead = False

    def copy(self):
        c = Cons()
        c.ineq = self.ineq
        c.sol = self.sol
        c.lo = self.lo
        c.hi = self.hi
        c.dead = self.dead
        return c

    def norm(self, e):
        if isinstance(e, int):
            return e
        return subst(e, self.sol)

    def declare(self, s, lo, hi):
        self.lo = dict(self.lo)
        self.hi = dict(self.hi)
        self.lo[s] = lo
        self.hi[s] = hi

    def bounds(self, e):
        lo = hi = const(e)
        for s, v in terms(e):
            l, h = self.lo.get(s), self.hi.get(s)
            if v > 0:
                lo = None if lo is None or l is None else lo + v * l
                hi = None if hi is None or h is None else hi + v * h
            else:
                lo = None if lo is None or h is None else lo + v * h
                hi = None if hi is None or l is None else hi + v * l
        return lo, hi

    def relevant(self, es):
        syms = set()
        for e in es:
            syms.update(s for s, _ in terms(e))
        out = []
        rest = list(self.ineq)
        changed = True
        while changed and rest:
            changed = False
            nrest = []
            for e in rest:
                if any(s in syms for s, _ in e.t):
                    out.append(e)
                    for s, _ in e.t:
                        if s not in syms:
                            syms.add(s)
                            changed = True
                else:
                    nrest.append(e)
            rest = nrest
        for s in syms:
            l, h = self.lo.get(s), self.hi.get(s)
            if l is not None:
                out.append(Lin(((s, 1),), -l))
            if h is not None:
                out.append(Lin(((s, -1),), h))
        return out

    def sat(self, *es):
        """Whether the facts together with e >= 0 for all given e are satisfiable."""
        es = [self.norm(e) for e in es]
        for e in es:
            lo, hi = self.bounds(e)
            if hi is not None and hi < 0:
                return False
        es = [e for e in es if not isinstance(e, int)]
        if not es:
            return True
        try:
            return feasible(self.relevant(es) + es)
        except TooHard:
            return True

    def entails(self, e):
        """Whether e >= 0 always holds."""
        e = self.norm(e)
        if isinstance(e, int):
            return e >= 0
        lo, hi = self.bounds(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        return not self.sat(sub(-1, e))

    def entails_eq(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            return e == 0
        return self.entails(e) and self.entails(neg(e))

    def assume(self, e):
        """Add e >= 0. The state must be copied before."""
        e = self.norm(e)
        if isinstance(e, int):
            if e < 0:
                self.dead = True
            return
        e = tighten(e)
        if e in self.ineq:
            return
        if len(e.t) == 1:
            (s, v), = e.t
            if v > 0:
                b = -(e.c // v)
                if self.lo.get(s) is None or b > self.lo[s]:
                    self.lo = dict(self.lo)
                    self.lo[s] = b
            else:
                b = e.c // (-v)
                if self.hi.get(s) is None or b < self.hi[s]:
                    self.hi = dict(self.hi)
                    self.hi[s] = b
            l, h = self.lo.get(s), self.hi.get(s)
            if l is not None and h is not None:
                if l > h:
                    self.dead = True
                elif l == h:
                    self.solve(s, l)
            return
        self.ineq = self.ineq + (e,)
        # an inequality and its opposite make an equality
        n = neg(e)
        if not isinstance(n, int) and n in self.ineq:
            self.assume_eq(e)

    def solve(self, s, r):
        lo, hi = self.lo.get(s), self.hi.get(s)
        m = {s: r}
        self.sol = {k: subst(v, m) for k, v in self.sol.items()}
        self.sol[s] = r
        old = self.ineq
        self.ineq = ()
        if lo is not None:
            self.assume(sub(r, lo))
        if hi is not None:
            self.assume(sub(hi, r))
        for e in old:
            self.assume(subst(e, m))

    def assume_eq(self, e):
        e = self.norm(e)
        if isinstance(e, int):
            if e != 0:
                self.dead = True
            return
        # prefer the newest symbol with a unit coefficient
        for s, v in reversed(e.t):
            if abs(v) == 1:
                r = mk({k: (-w if v == 1 else w) for k, w in e.t if k != s}, -e.c if v == 1 else e.c)
                self.solve(s, r)
                return
        g = 0
        for _, v in e.t:
            g = gcd(g, v)
        if e.c % g:
            self.dead = True
            return
        self.ineq = self.ineq + (e, neg(e))

    def witness(self, *es):
        es = [self.norm(e) for e in es]
        if any(isinstance(e, int) and e < 0 for e in es):
            return None
        cs = list(self.ineq) + [e for e in es if not isinstance(e, int)]
        syms = set(s for e in cs for s, _ in e.t)
        for r in self.sol.values():
            syms.update(s for s, _ in terms(r))
        for s in syms:
            l, h = self.lo.get(s), self.hi.get(s)
            if l is not None:
                cs.append(Lin(((s, 1),), -l))
            if h is not None:
                cs.append(Lin(((s, -1),), h))
        m = model(cs)
        if m is None:
            return None
        for s in self.lo:
            if s not in m and s not in self.sol:
                m[s] = self.lo[s] or 0
        for s, r in self.sol.items():
            m[s] = const(r) + sum(v * m.get(k, 0) for k, v in terms(r))
        return m
