"""Whether one abstract state covers another: there is an instance of its symbols under which it
describes everything the other one does."""
from state import *

COUNTERS = ("nat",)


class No(Exception):
    pass


class Cover:
    def __init__(self, old, new):
        self.o = old
        self.n = new
        self.th = {}
        self.pairs = []

    def num(self, a, b):
        if a is b:
            a2 = self.o.norm(a)
            b2 = self.n.norm(b)
        else:
            a2, b2 = self.o.norm(a), self.n.norm(b)
        if isinstance(a2, int):
            if isinstance(b2, int):
                if a2 != b2:
                    raise No
                return
            if not self.n.cons.entails_eq(sub(b2, a2)):
                raise No
            return
        if len(a2.t) == 1 and a2.t[0][1] == 1:
            s = a2.t[0][0]
            if s not in self.th:
                self.th[s] = sub(b2, a2.c)
                return
        self.pairs.append((a2, b2))

    def val(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str):
            if a is not b and a != b:
                raise No
            return
        if isinstance(a, (int, Lin)):
            if not isinstance(b, (int, Lin)):
                raise No
            self.num(a, b)
            return
        if type(a) is not type(b):
            raise No
        if isinstance(a, (tuple, list)):
            if len(a) != len(b):
                raise No
            for x, y in zip(a, b):
                self.val(x, y)
        elif isinstance(a, S):
            self.val(a.f, b.f)
        elif isinstance(a, V):
            if a.v != b.v:
                raise No
            self.val(a.f, b.f)
        elif isinstance(a, P):
            if a.obj != b.obj:
                raise No
            self.val(a.path, b.path)
            self.num(a.off, b.off)
            self.val(a.meta, b.meta)
        elif isinstance(a, Tok):
            if a.s != b.s:
                raise No
            self.num(a.i, b.i)
        elif isinstance(a, Arr):
            if a.es != b.es:
                raise No
            self.val(a.segs, b.segs)
        elif isinstance(a, Cond):
            if a.k != b.k:
                raise No
            self.num(a.e, b.e)
        elif isinstance(a, Raw):
            self.val(a.size, b.size)
        elif hasattr(a, "parts"):
            self.val(a.parts(), b.parts())
        elif a != b:
            raise No

    def run(self):
        o, n = self.o, self.n
        for f in ("unwinding", "panics", "nulls", "approx"):
            if getattr(o, f) != getattr(n, f):
                raise No
        for k, v in o.objs.items():
            w = n.objs.get(k)
            if w is None and k not in n.objs:
                raise No
            if v is not w or not isinstance(v, (Fn, Opq)):
                self.val(v, w)
        if set(o.heap) != set(n.heap) and any(k not in n.heap for k in o.heap):
            raise No
        for k in n.heap:
            if k not in o.heap:
                raise No
            self.val(o.heap[k], n.heap[k])
        for f in ("dropped", "given", "created", "events", "exp"):
            self.val(getattr(o, f), getattr(n, f))
        for k, v in o.ghost.items():
            if k in COUNTERS:
                continue
            if k not in n.ghost:
                raise No
            self.val(v, n.ghost[k])
        for k in n.ghost:
            if k not in o.ghost and k not in COUNTERS:
                raise No
        for k, v in o.memo.items():
            if k not in n.memo or n.memo[k] != v:
                raise No
        m = self.th
        for a, b in self.pairs:
            free = [x for x in a.t if x[0] not in m]
            if len(free) == 1 and abs(free[0][1]) == 1:
                (x, v), = free
                d = sub(b, subst(mk({k: w for k, w in a.t if k != x}, a.c), m))
                m[x] = scale(d, v)
                continue
            if not n.cons.entails_eq(sub(subst(a, m), b)):
                raise No
        # facts of the old state
        for e in self.facts():
            if not n.cons.entails(subst(e, m)):
                raise No
        return True

    def facts(self):
        """Facts of the old state about live symbols. What relates them to values that no place
        holds any more is left out: it only says that some past value was larger or smaller."""
        o = self.o.cons
        live = set(self.th)
        for a, _ in self.pairs:
            live.update(s for s, _ in a.t)
        out = [e for e in o.ineq if all(s in live for s, _ in e.t)]
        for s in live:
            l, h = o.lo.get(s), o.hi.get(s)
            if l is not None:
                out.append(Lin(((s, 1),), -l))
            if h is not None:
                out.append(Lin(((s, -1),), h))
        return out


def covers(old, new):
    try:
        return Cover(old, new).run()
    except No:
        return False
    except TooHard:
        return False
