"""Atomic operations. While a block is shared (ghost `share`), other threads own references to it
too, and between any two atomic steps of the analysed thread they change the counters in every way
their ownership allows (thread-modular analysis):

    strong counter = own strong + x          x: strong references of other threads
    weak counter   = own weak + [own strong > 0] + y

where y are weak references of other threads, with the one that all strong references hold
together when only other threads have strong references. x or y that are zero stay zero as long
as no thread other than this one has a reference to make another one from."""
from models import *

MAX = (1 << 64) - 1
ORD = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
ACQ = (2, 3, 4)
REL = (1, 3, 4)


class Sh:
    __slots__ = ("s", "w", "block", "os", "ow", "x", "y", "lock", "lockable", "tok", "val", "acq_s", "pend_s", "acq_w", "pend_w", "relf", "last", "freer", "stale")

    def copy(self, **kw):
        r = Sh()
        for a in Sh.__slots__:
            setattr(r, a, kw.get(a, getattr(self, a)))
        return r

    def parts(self):
        return tuple(getattr(self, a) for a in Sh.__slots__ if a != "last") + (self.last is None,)

    def units(self):
        return add(self.ow, 1 if self.os != 0 else 0)


def order(a):
    if isinstance(a, V):
        return a.v
    raise Unsupported("unknown memory ordering")


def race(msg, *when):
    b = Bug("race", msg, *when)
    b.prop = "C15"
    return b


def bad_order(msg, *when):
    b = Bug("order", msg, *when)
    b.prop = "C15"
    return b


def sh_of(st, obj, path):
    h = st.ghost.get("sh")
    if h is None:
        return None, None
    if (obj, path) == h.s:
        return h, "s"
    if (obj, path) == h.w:
        return h, "w"
    return h, None


def write_back(I, st, h):
    """Counter values that follow from who owns what."""
    st.ghost["sh"] = h
    if h.block is not None and st.heap[h.block][3] == "live":
        sv = st.norm(add(h.os, h.x))
        wv = MAX if h.lock else st.norm(add(h.units(), h.y))
        I.store(st, h.s[0], h.s[1], sv)
        I.store(st, h.w[0], h.w[1], wv)
        st.ghost["sh"] = h.copy(val=(sv, wv))


def plain_writes(I, st, h):
    """Counters changed without an atomic step since the last one."""
    if st.heap[h.block][3] != "live":
        return h
    for k, loc in (("s", h.s), ("w", h.w)):
        v = I.load(st, loc[0], loc[1])
        old = h.val[0 if k == "s" else 1]
        if v is U:
            raise race("a shared counter is overwritten by uninitialised data")
        if not st.eq(v, old):
            o = h.x if k == "s" else h.y
            if not st.eq(o, 0) or (k == "w" and not st.eq(h.x, 0)):
                raise race("a shared counter is changed by a plain write while other threads use it")
            if k == "s":
                h = h.copy(os=st.norm(sub(v, h.x)))
            else:
                h = h.copy(ow=st.norm(sub(sub(v, h.y), 1 if h.os != 0 else 0)))
            h = h.copy(val=(v, h.val[1]) if k == "s" else (h.val[0], v))
    return h


def havoc(I, st, v):
    """All that other threads may have done until the next step of this thread."""
    h = st.ghost["sh"]
    if h.block is None or st.heap[h.block][3] != "live":
        return [("ret", st, v)]
    outs = []

    def out(facts, **kw):
        s = st.copy()
        if not s.assume(facts):
            return
        fresh = {}
        for k, lo in kw.items():
            if k in ("x", "y") and isinstance(lo, tuple):
                fresh[k] = I.fresh(s, "others'_%s%d" % ("strong" if k == "x" else "weak", I.nsyms), lo[0], 1 << 40)
            else:
                fresh[k] = lo
        if "x" in kw:
            fresh["acq_s"] = fresh["pend_s"] = False
        if "y" in kw:
            fresh["acq_w"] = fresh["pend_w"] = False
        h2 = h.copy(**fresh)
        write_back(I, s, h2)
        outs.append(("ret", s, v))

    own_s = h.os != 0
    x0, x1 = [("eq", h.x)], [("ge", sub(h.x, 1))]
    y0, y1 = [("eq", h.y)], [("ge", sub(h.y, 1))]
    if h.lock == "me":
        out(x0)
        out(x1, x=(0,))
    elif own_s:
        # x == 0: only weak references are elsewhere
        out(x0 + y0, lock=None)
        out(x0 + y1, y=(0,), lock=None)
        out(x1, x=(0,), y=(0,), lock=None)
        if h.lockable and h.ow == 0:
            out(x1, x=(1,), y=0, lock="other")
    else:
        # others hold the weak reference of their strong ones too
        out(x0 + y0)
        out(x0 + y1, y=(0,))
        out(x1, x=(1,), y=(1,))
        out(x1, x=0, y=(0,))
    return outs


def observe(h, k, o, alone):
    """Acquire bookkeeping: a step that sees no other reference of the kind."""
    if not alone:
        return h
    if o in ACQ:
        return h.copy(**{"acq_" + k: True})
    return h.copy(**{"pend_" + k: True})


def alone(st, h, k):
    """The counter shows only references of this thread."""
    if k == "s":
        return st.eq(h.x, 0)
    if h.lock:
        return False
    return st.eq(h.y, 0)


def rmw(I, st, h, k, new, o, rmw_=True):
    """The thread writes `new` to a shared counter."""
    old = h.val[0 if k == "s" else 1]
    if k == "w":
        if h.lock == "other":
            raise race("a counter is changed while another thread holds its lock")
        if not h.lock and new == MAX:
            if not rmw_ and not (st.eq(h.x, 0) and st.eq(h.y, 0)):
                raise race("a counter is locked by a plain store while other threads use it")
            h = h.copy(lock="me")
            write_back(I, st, h)
            return
        if h.lock == "me":
            h = h.copy(lock=None)
            old = st.norm(add(h.units(), h.y))
            if not st.eq(new, old):
                raise race("a counter is %s after its lock is released instead of %s" % (show(st.norm(new)), show(old)))
            write_back(I, st, h)
            return
        if not rmw_ and not (st.eq(h.x, 0) and st.eq(h.y, 0)):
            raise race("a counter is overwritten by a store while other threads use it")
    elif not rmw_ and not st.eq(h.x, 0):
        raise race("a counter is overwritten by a store while other threads use it")
    d = st.norm(sub(new, old))
    if k == "s":
        os = st.norm(add(h.os, d))
        if not isinstance(os, int):
            raise Unsupported("undecided own count")
        if os < 0:
            raise race("a strong reference of another thread is released")
        if h.os == 0 and os > 0:
            raise race("a strong reference is made from nothing")
        last = h.os > 0 and os == 0
        if last:
            if st.eq(h.x, 0):
                h = h.copy(os=0, ow=add(h.ow, 1))
            else:
                if o not in REL and not h.relf:
                    raise bad_order("a strong reference is given up with %s ordering while others remain" % ORD[o])
                h = h.copy(os=0, y=st.norm(add(h.y, 1)))
                st.ghost["sh"] = h
                if h.tok is not None:
                    st.give_run(h.tok)
                    h = h.copy(tok=None)
                if h.ow <= 0:
                    lose(st, h)
                    return
        else:
            h = h.copy(os=os)
    else:
        ow = st.norm(add(h.ow, d))
        if not isinstance(ow, int):
            raise Unsupported("undecided own count")
        h = h.copy(ow=ow)
        if h.units() <= 0:
            if h.units() < 0:
                raise race("a weak reference of another thread is released")
            if not st.eq(h.y, 0):
                if o not in REL and not h.relf:
                    raise bad_order("a reference is given up with %s ordering while others remain" % ORD[o])
                lose(st, h)
                return
            h = h.copy(freer=True)
    write_back(I, st, h)


def lose(st, h):
    """Other threads own the block now."""
    b = st.heap[h.block]
    st.heap[h.block] = b[:3] + ("lost",)
    st.ghost["sh"] = h.copy(stale=True)


def atomic(I, st, c, kind, p, ty, args, o, fail=None):
    I.nops += 1
    obj, path = I.place_at(st, p, ty)
    h, k = sh_of(st, obj, path)
    if h is not None and h.block is not None:
        h = plain_writes(I, st, h)
    old = I.load(st, obj, path)
    if old is U:
        raise Bug("uninit", "an uninitialised counter is used")
    T = I.p.types[I.p.rep(ty)]
    ok = True
    if kind == "load":
        new = None
    elif kind in ("store", "swap"):
        new = args[0]
    elif kind == "add":
        new = add(old, args[0])
    elif kind == "sub":
        new = sub(old, args[0])
    elif kind in ("cas", "casw"):
        if k and h.last is not None and h.last[0] == k and not isinstance(args[0], int) and h.last[1] == args[0]:
            if st.norm(sub(h.last[2], args[0])) != 0 and not st.cons.sat(sub(h.last[2], args[0]), sub(args[0], h.last[2])):
                b = Bug("hang", "a step that failed is tried again with the old value instead of the observed one")
                b.prop = "C15"
                raise b
        ok = st.eq(old, args[0]) if isinstance(old, (int, Lin)) else st.decide(I.ptr_eq(st, old, args[0]))
        new = args[1]
    else:
        raise Unsupported("atomic %s" % kind)
    if isinstance(new, (int, Lin)) and kind in ("add", "sub"):
        new = I.wrap(st, new, T)

    def value(ok):
        if kind in ("cas", "casw"):
            return V(0 if ok else 1, (old,))
        if kind == "store":
            return UNIT
        return old

    if not k:
        s = st.copy()
        if ok and new is not None:
            I.store(s, obj, path, new)
        outs = [("ret", s, value(ok))]
        return outs
    al = alone(st, h, k)
    if ok and new is not None:
        # decide the cases of the step before anything changes
        st.eq(h.x, 0)
        st.eq(h.y, 0)
        if isinstance(new, Lin) and kind == "swap":
            raise Unsupported("unknown value stored to a shared counter")
    outs = []
    cases = [ok]
    if kind == "casw" and ok:
        cases = [True, False]
    for good in cases:
        s = st.copy()
        oo = o if good else fail
        h2 = observe(h, k, oo, al) if kind != "store" else h
        if kind in ("cas", "casw") and not good:
            h2 = h2.copy(last=None if ok else (k, args[0], old))
        elif kind in ("cas", "casw", "load", "add", "sub", "swap"):
            h2 = h2.copy(last=None)
        s.ghost["sh"] = h2
        s.ghost["nat"] = s.ghost.get("nat", 0) + 1
        if good and new is not None:
            rmw(I, s, h2, k, new, o, kind != "store")
        I.prove("C15", "atomic step under interference")
        outs += havoc(I, s, value(good))
    return outs


def ptr_ty(I, at):
    return I.p.types[I.p.rep(at[0])]["el"]


A = "std::sync::atomic::Atomic::"


@native(A + "load")
def n_load(I, st, c, a, at, dty):
    return atomic(I, st, c, "load", a[0], ptr_ty(I, at), (), order(a[1]))


@native(A + "store")
def n_store(I, st, c, a, at, dty):
    return atomic(I, st, c, "store", a[0], ptr_ty(I, at), a[1:2], order(a[2]))


@native(A + "swap")
def n_aswap(I, st, c, a, at, dty):
    return atomic(I, st, c, "swap", a[0], ptr_ty(I, at), a[1:2], order(a[2]))


@native(A + "fetch_add")
def n_fa(I, st, c, a, at, dty):
    return atomic(I, st, c, "add", a[0], ptr_ty(I, at), a[1:2], order(a[2]))


@native(A + "fetch_sub")
def n_fs(I, st, c, a, at, dty):
    return atomic(I, st, c, "sub", a[0], ptr_ty(I, at), a[1:2], order(a[2]))


@native(A + "compare_exchange")
def n_cas(I, st, c, a, at, dty):
    return atomic(I, st, c, "cas", a[0], ptr_ty(I, at), a[1:3], order(a[3]), order(a[4]))


@native(A + "compare_exchange_weak")
def n_casw(I, st, c, a, at, dty):
    return atomic(I, st, c, "casw", a[0], ptr_ty(I, at), a[1:3], order(a[3]), order(a[4]))


@native("std::sync::atomic::fence")
def n_fence(I, st, c, a, at, dty):
    o = order(a[0])
    h = st.ghost.get("sh")
    if h is not None:
        st = st.copy()
        if o in ACQ:
            h = h.copy(acq_s=h.acq_s or h.pend_s, acq_w=h.acq_w or h.pend_w)
        if o in REL:
            h = h.copy(relf=True)
        st.ghost["sh"] = h
    return ret(st, UNIT)


@native("std::sync::atomic::compiler_fence", "std::hint::spin_loop")
def n_cfence(I, st, c, a, at, dty):
    return ret(st, UNIT)


# ---------------------------------------------------------------- ghost vocabulary

@ghost("share")
def g_share(I, st, c, a, at, dty):
    """From now on other threads own all references but `os` strong and `ow` weak ones. The
    counters are the places that the repeated steps number 0 and 1 changed."""
    p, os, ow, lockable = a
    h = Sh()
    locs = []
    for i in (0, 1):
        r = st.ghost.get(("rep", i))
        if r is None or len(r) != 1 or r[0][2] != 1:
            raise Unsupported("counter is not a single number")
        o, path, d = r[0]
        locs.append((o, path))
    # the shape of the places is that of loads
    def conv(o, path):
        v = st.objs[o]
        out = []
        for k in path:
            if isinstance(k, tuple):
                i = 0
                for s in v.segs[:k[1]]:
                    i = add(i, s[-1])
                out.append(("e", i))
                v = v.segs[k[1]][1]
            else:
                if isinstance(v, V):
                    out.append(("vf", v.v, k))
                else:
                    out.append(k)
                v = v.f[k]
        return o, tuple(out)
    h.s, h.w = conv(*locs[0]), conv(*locs[1])
    if h.s[0] != h.w[0] or h.s == h.w or h.s[0] not in st.heap:
        raise Unsupported("counters are not in one block")
    h.block = h.s[0]
    h.os, h.ow = os, ow
    sv, wv = I.load(st, *h.s), I.load(st, *h.w)
    h.x = st.norm(sub(sv, os))
    h.y = st.norm(sub(sub(wv, ow), 1 if os else 0))
    h.val = (sv, wv)
    h.lock = None
    h.lockable = bool(lockable)
    h.acq_s = h.pend_s = h.acq_w = h.pend_w = h.relf = h.freer = h.stale = False
    h.last = None
    segs = segs_at(I, st, p, 1, I.T)
    v = st.one(segs)
    h.tok = (v.s, v.i, 1) if isinstance(v, Tok) else None
    s = st.copy()
    s.ghost["sh"] = h
    if not os and h.tok is not None:
        s.give_run(h.tok)
        s.ghost["sh"] = h.copy(tok=None)
    return havoc(I, s, UNIT)


@ghost("own")
def g_own(I, st, c, a, at, dty):
    """The references of this thread are as many as the operation should have left."""
    h = st.ghost["sh"]
    h = plain_writes(I, st, h)
    if h.lock == "me":
        raise race("the lock of a counter is never released")
    if h.os != a[0]:
        raise race("the thread owns %s strong references but %s are counted" % (a[0], h.os))
    if h.units() != add(a[1], 1 if a[0] else 0):
        raise race("the thread owns %s weak references but %s are counted" % (a[1], sub(h.units(), 1 if h.os else 0)))
    I.prove("C15", "counted references are those of the thread")
    return ret(st, UNIT)


@ghost("excl")
def g_excl(I, st, c, a, at, dty):
    """The thread has exclusive access to the value now."""
    h = st.ghost["sh"]
    if h.tok is None or not st.eq(h.x, 0):
        b = Bug("race", "exclusive access while another thread may have a strong reference")
        b.prop = "C17"
        raise b
    if not h.acq_s:
        raise bad_order("exclusive access without acquiring what other threads did before they released their references")
    I.prove("C15", "exclusive access is synchronised")
    I.prove("C17", "exclusive access")
    return ret(st, UNIT)


@ghost("others_strong")
def g_others(I, st, c, a, at, dty):
    return ret(st, st.ghost["sh"].x)


@ghost("others_weak")
def g_others_w(I, st, c, a, at, dty):
    return ret(st, st.ghost["sh"].y)


@ghost("lost")
def g_lost(I, st, c, a, at, dty):
    """The block belongs to other threads now."""
    return ret(st, bool(st.ghost["sh"].stale))


@on_drop
def on_value_end(I, st, run):
    """The value is destroyed or moved out by this thread."""
    h = st.ghost.get("sh")
    if h is None or h.tok is None or not st.overlap(h.tok, run):
        return
    if not h.acq_s:
        raise bad_order("the value is destroyed without acquiring what other threads did before they released their references")


@on_free
def on_block_end(I, st, o):
    h = st.ghost.get("sh")
    if h is None or h.block != o:
        return
    if not st.eq(h.y, 0) or not st.eq(h.x, 0):
        raise race("the block is given back while other threads have references to it")
    if not h.acq_w:
        raise bad_order("the block is given back without acquiring what other threads did before they released their references")
