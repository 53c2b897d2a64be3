"""Abstract interpreter of MIR."""
import json
import os
import re
import sys
import time
from state import *
from subsume import covers
from accel import accelerate, pattern

sys.setrecursionlimit(20000)

OPAQUE = {"T"}
DEBUG = os.environ.get("LOKKY_DEBUG")


def strip_generics(p):
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


_np = {}


def npath(p):
    r = _np.get(p)
    if r is None:
        r = strip_generics(p)
        if r.startswith("core::"):
            r = "std::" + r[6:]
        elif r.startswith("alloc::"):
            r = "std::" + r[7:]
        r = r.replace("<impl *mut T>", "{p}").replace("<impl *const T>", "{p}").replace("<impl *mut [T]>", "{ps}").replace("<impl *const [T]>", "{ps}")
        r = r.replace("::mut_ptr::", "::").replace("::const_ptr::", "::")
        _np[p] = r
    return r


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.bodies = d["bodies"]
        self.entries = d["entries"]
        self.vt = {}
        for v in d["vtables"]:
            for m, c in v["m"].items():
                self.vt[(v["src"], m)] = c
        self.rep_ = {}
        self.un_ = {}
        self.heads_ = {}
        for i, t in enumerate(self.types):
            t["id"] = i

    def ty(self, t):
        return self.types[t]

    def opaque(self, t):
        t = self.types[t]
        return t["k"] == "adt" and t["path"] in OPAQUE

    def like_opaque(self, t):
        """Opaque, perhaps inside of structures without a destructor."""
        while not self.opaque(t):
            T = self.types[t]
            m = self.main_field(t)
            if m is None or "drop" in T or any(self.types[f[1]]["nd"] for i, f in enumerate(T["variants"][0]["fields"]) if i != m):
                return False
            t = T["variants"][0]["fields"][m][1]
        return True

    def zst(self, t):
        """Zero size (for every value of the generic parameters)."""
        T = self.types[t]
        if "size" in T:
            return T["size"] == 0
        if T["k"] == "adt" and T["kind"] == "struct":
            return all(self.zst(f[1]) for f in T["variants"][0]["fields"])
        if T["k"] in ("tuple", "closure"):
            return all(self.zst(f) for f in T["els"])
        return False

    def inhabited(self, t):
        T = self.types[t]
        if T["k"] == "never":
            return False
        if T["k"] == "adt" and T["kind"] != "union":
            return any(all(self.inhabited(f[1]) for f in v["fields"]) for v in T["variants"])
        if T["k"] in ("tuple", "closure"):
            return all(self.inhabited(f) for f in T["els"])
        return True

    def main_field(self, t):
        """Index of the only field with a size, for a struct that is represented by it."""
        T = self.types[t]
        r = T.get("_mf", -1)
        if r != -1:
            return r
        r = None
        # (the elements of this one are accessed as a slice of any length)
        if T["k"] == "adt" and not self.opaque(t) and not T["path"].endswith("PolymorphicIter"):
            if T["kind"] in ("struct", "union"):
                fs = T["variants"][0]["fields"]
                nz = [i for i, f in enumerate(fs) if not self.zst(f[1])]
                if len(nz) == 1:
                    ft = self.types[fs[nz[0]][1]]
                    if T.get("size") == ft.get("size"):
                        r = nz[0]
        T["_mf"] = r
        return r

    def rep(self, t):
        r = self.rep_.get(t)
        if r is None:
            m = self.main_field(t)
            T = self.types[t]
            if T["k"] == "pat":
                r = self.rep(T["el"])
            else:
                r = t if m is None else self.rep(T["variants"][0]["fields"][m][1])
            self.rep_[t] = r
        return r

    def fields(self, t):
        T = self.types[t]
        if T["k"] == "adt":
            return [f[1] for f in T["variants"][0]["fields"]] if T["kind"] != "enum" else []
        if T["k"] in ("tuple", "closure"):
            return T["els"]
        return []

    def uninit(self, t):
        r = self.un_.get(t)
        if r is not None:
            return r
        t0 = t
        t = self.rep(t)
        T = self.types[t]
        r = U
        if self.opaque(t):
            r = U
        elif T["k"] == "array":
            r = Arr(self.size(T["el"]), (("U", self.num(T["n"])),))
        elif T["k"] == "adt" and T["kind"] == "struct":
            r = S(tuple(self.uninit(f) for f in self.fields(t)))
        elif T["k"] in ("tuple", "closure"):
            r = S(tuple(self.uninit(f) for f in self.fields(t)))
        elif T["k"] == "fndef":
            r = UNIT
        self.un_[t0] = r
        return r

    nsym = None

    def num(self, n):
        if isinstance(n, int):
            return n
        if n == "N":
            return self.nsym
        raise Unsupported("const %s" % n)

    def size(self, t):
        T = self.types[t]
        if "size" in T:
            return T["size"]
        t2 = self.rep(t)
        if t2 != t:
            return self.size(t2)
        if T["k"] == "array":
            s, n = self.size(T["el"]), self.num(T["n"])
            if isinstance(s, int):
                return scale(n, s)
            if isinstance(n, int):
                return scale(s, n)
        raise Unsupported("size of %s" % T["name"])

    def align(self, t):
        T = self.types[t]
        if "align" in T:
            return T["align"]
        if T["k"] in ("array", "slice"):
            return self.align(T["el"])
        if T["k"] == "str":
            return 1
        fs = self.fields(t)
        if fs and T.get("kind") != "enum":
            return max(self.align(f) for f in fs)
        raise Unsupported("align of %s" % T["name"])

    def elsize(self, t):
        """Element size when the type is an array or slice."""
        T = self.types[self.rep(t)]
        if T["k"] in ("array", "slice"):
            return self.size(T["el"])
        if T["k"] == "str":
            return 1
        return None

    def heads(self, b):
        r = self.heads_.get(b)
        if r is None:
            blocks = self.bodies[b]["blocks"]
            succ = [succs(x[1]) for x in blocks]
            heads = {}
            color = {}
            st = [(0, iter(succ[0]))]
            color[0] = 1
            while st:
                n, it = st[-1]
                for m in it:
                    c = color.get(m)
                    if c is None:
                        color[m] = 1
                        st.append((m, iter(succ[m])))
                        break
                    elif c == 1:
                        heads.setdefault(m, set()).add(n)
                else:
                    color[n] = 2
                    st.pop()
            preds = {}
            for a, ss in enumerate(succ):
                for m in ss:
                    preds.setdefault(m, set()).add(a)
            r = {}
            for h, srcs in heads.items():
                body = {h}
                w = list(srcs)
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(preds.get(x, ()))
                r[h] = body
            self.heads_[b] = r
        return r


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [c[1] for c in t[3]] + [t[4]]
    if k == "drop":
        return [t[3]] + ([t[4]] if isinstance(t[4], int) else [])
    if k == "call":
        return ([t[5]] if t[5] >= 0 else []) + ([t[6]] if isinstance(t[6], int) else [])
    if k == "assert":
        return [t[3]] + ([t[4]] if isinstance(t[4], int) else [])
    return []


ON_DROP = []
ON_FREE = []


def on_drop(f):
    ON_DROP.append(f)
    return f


def on_free(f):
    ON_FREE.append(f)
    return f


TEXT = []
NATIVE = {}
GHOST = {}
INTRINSIC = {}


def native(*names):
    def d(f):
        for n in names:
            NATIVE[n] = f
        return f

    return d


def ghost(*names):
    def d(f):
        for n in names:
            GHOST["g::" + n] = f
        return f

    return d


def intrinsic(*names):
    def d(f):
        for n in names:
            INTRINSIC[n] = f
        return f

    return d


class Finding:
    def __init__(self, cls, msg, where, stack, wit, props=None, panicked=False, soft=False, failed=False):
        self.failed = failed
        self.cls = cls
        self.msg = msg
        self.where = where
        self.stack = stack
        self.wit = wit
        self.props = props
        self.panicked = panicked
        self.soft = soft

    def __repr__(self):
        return "%s: %s [at %s] %s%s" % (self.cls, self.msg, self.where, "when " + self.wit if self.wit else "", " (after a panic)" if self.panicked else "")


def same(o, n):
    """Whether nothing changed but facts."""
    for f in ("unwinding", "panics", "nulls", "dropped", "given", "created", "events"):
        if getattr(o, f) != getattr(n, f):
            return False
    return o.objs == n.objs and o.heap == n.heap and o.ghost == n.ghost


class Interp:
    def __init__(self, prog, unroll=3, panics=0, nulls=0, limit=200000):
        self.p = prog
        self.unroll = unroll
        self.npanics = panics
        self.nnulls = nulls
        self.nsyms = 0
        self.nobj = 0
        self.nfid = 0
        self.stack = []
        self.findings = []
        self.unsup = {}
        self.truncated = 0
        self.trunc = {}
        self.steps = 0
        self.limit = limit
        self.deadline = None
        self.widened = 0
        self.covered = 0
        self.nops = 0
        self.accelerated = 0
        self.noaccel = False
        self.maxacc = 1
        self.calls = set()
        self.proved = {}
        self.T = next((i for i, t in enumerate(prog.types) if t["k"] == "adt" and t["path"] == "T"), None)
        self.cur = None
        self.eventhook = None

    # ---- symbols and objects
    def fresh(self, st, name, lo=0, hi=U64):
        k = self.nsyms
        self.nsyms += 1
        NAMES[k] = name
        st.cons.declare(k, lo, hi)
        return sym(k)

    def newobj(self, st, val, kind="o"):
        k = (kind, self.nobj)
        self.nobj += 1
        st.objs[k] = val
        return k

    # ---- reports
    def where(self):
        for b, ln in reversed(self.stack):
            body = self.p.bodies[b]
            if body["crate"] == "lokky":
                return "%s:%s %s" % (body["file"].split("/repo/")[-1], ln[0], npath(body["path"]))
        if self.stack:
            b, ln = self.stack[-1]
            return "%s:%s" % (self.p.bodies[b]["path"], ln[0])
        return "?"

    def trail(self):
        return " > ".join("%s:%s" % (npath(self.p.bodies[b]["path"]), ln[0]) for b, ln in self.stack)

    def report(self, st, cls, msg, when=(), props=None):
        es = []
        for k, e in when:
            es.append(e)
            if k == "eq":
                es.append(neg(e))
        try:
            m = st.cons.witness(*es)
        except RecursionError:
            m = None
        wit = None
        if m is not None:
            wit = ", ".join("%s=%s" % (NAMES[s], v) for s, v in sorted(m.items()) if not NAMES[s].startswith("_"))
        f = Finding(cls, msg, self.where(), self.trail(), wit, props, bool(st.ghost.get("panicked")), m is None or st.approx is not None, bool(st.ghost.get("failed")))
        self.findings.append(f)

    def prove(self, prop, what):
        k = (prop, what)
        self.proved[k] = self.proved.get(k, 0) + 1

    def nosup(self, msg):
        k = "%s @ %s" % (msg, self.where())
        if DEBUG:
            k += " <<" + self.trail() + ">>"
        self.unsup[k] = self.unsup.get(k, 0) + 1

    # ---- memory
    def load(self, st, obj, path):
        v = self.root(st, obj)
        for s in path:
            v = self.step(st, v, s)
        return v

    def root(self, st, obj):
        if obj is None:
            raise Bug("wild", "memory access through an address that points to no storage")
        if obj[0] == "str":
            return Arr(1, tuple(("V", b, 1) for b in obj[1].encode()))
        if obj[0] == "tyname":
            raise Unsupported("bytes of the name of a type")
        try:
            v = st.objs[obj]
        except KeyError:
            if obj[0] == "g":
                v = U
            else:
                raise Bug("dangling", "memory access to storage that no longer exists")
        h = st.heap.get(obj)
        if h is not None and h[3] != "live":
            raise Bug("uaf", "memory block is accessed after it was given back")
        return v

    def step(self, st, v, s):
        if isinstance(s, int):
            if isinstance(v, S):
                return v.f[s]
            if isinstance(v, V):
                return v.f[s]
            if v is U or isinstance(v, Opq):
                return v
            raise Unsupported("field of %r" % (v,))
        if s[0] == "e":
            if isinstance(v, Arr):
                st.check_range(v, s[1], 1, "access")
                return st.one(st.sub(v.segs, s[1], 1))
            if v is U or isinstance(v, Opq):
                return v
            if st.eq(s[1], 0):
                return v
            raise Bug("oob", "access outside of the value")
        if s[0] == "r":
            if isinstance(v, Arr):
                st.check_range(v, s[1], s[2], "access")
                return Arr(v.es, st.sub(v.segs, s[1], s[2]))
            if v is U or isinstance(v, Opq):
                return v
            if st.eq(s[2], 0):
                return Arr(1, ())
            if st.eq(s[1], 0) and st.eq(s[2], 1):
                return Arr(0, (valseg(v),))
            raise Bug("oob", "access outside of the value")
        if s[0] == "vf":
            if isinstance(v, V):
                if v.v != s[1]:
                    raise Bug("uninit", "field of another enum variant is accessed")
                return v.f[s[2]]
            if v is U or isinstance(v, Opq):
                return v
            raise Unsupported("variant of %r" % (v,))
        raise Unsupported("step %r" % (s,))

    def store(self, st, obj, path, val):
        v = self.root(st, obj)
        if obj[0] in ("str", "tyname"):
            raise Unsupported("write to a constant")
        st.objs[obj] = self.update(st, v, path, 0, val)

    def update(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(s, int):
            if isinstance(v, S):
                return S(v.f[:s] + (self.update(st, v.f[s], path, i + 1, val),) + v.f[s + 1:])
            if isinstance(v, V):
                return V(v.v, v.f[:s] + (self.update(st, v.f[s], path, i + 1, val),) + v.f[s + 1:])
            if isinstance(v, Opq):
                return v
            raise Unsupported("store to a field of %r" % (v,))
        if s[0] == "vf":
            if isinstance(v, V) and v.v == s[1]:
                k = s[2]
                return V(v.v, v.f[:k] + (self.update(st, v.f[k], path, i + 1, val),) + v.f[k + 1:])
            raise Unsupported("store to a variant of %r" % (v,))
        if s[0] == "e":
            if isinstance(v, Arr):
                st.check_range(v, s[1], 1, "write")
                if i + 1 < len(path):
                    old = st.one(st.sub(v.segs, s[1], 1))
                    val = self.update(st, old, path, i + 1, val)
                return Arr(v.es, st.put(v.segs, s[1], [valseg(val)], 1))
            if st.eq(s[1], 0):
                return self.update(st, v, path, i + 1, val)
            raise Bug("oob", "write outside of the value")
        if s[0] == "r":
            if i + 1 < len(path):
                # nested: rewrite the part
                part = Arr(v.es, st.sub(v.segs, s[1], s[2]))
                part = self.update(st, part, path, i + 1, val)
                return Arr(v.es, st.put(v.segs, s[1], part.segs, s[2]))
            if isinstance(v, Arr):
                st.check_range(v, s[1], s[2], "write")
                if isinstance(val, Arr):
                    return Arr(v.es, st.put(v.segs, s[1], val.segs, s[2]))
                if val is U:
                    return Arr(v.es, st.put(v.segs, s[1], [("U", s[2])], s[2]))
            raise Unsupported("store to a range")
        raise Unsupported("store %r" % (s,))

    def retype(self, st, obj, es):
        """Give the untyped heap block elements of the size."""
        v = st.objs[obj]
        size = v.size
        n = divexact(st.norm(size), es)
        if n is None:
            q = self.quot(st, size, es)
            n = q
        st.objs[obj] = Arr(es, (("U", n),))

    def quot(self, st, e, k):
        e = st.norm(e)
        if isinstance(e, int):
            return e // k
        d = divexact(e, k)
        if d is not None:
            return d
        key = ("div", e, k)
        q = st.memo.get(key)
        if q is None:
            lo, hi = st.cons.bounds(e)
            q = self.fresh(st, "_q%d" % self.nsyms, 0 if lo is None else max(0, lo // k), (U64 if hi is None else hi) // k)
            st.memo[key] = q
            st.cons.assume(sub(e, scale(q, k)))
            st.cons.assume(sub(add(scale(q, k), k - 1), e))
        return q

    def place_at(self, st, p, ty):
        """Path of the place of type `ty` that the pointer points to."""
        if not isinstance(p, P):
            if p is U:
                raise Bug("uninit", "an uninitialised pointer is used")
            raise Unsupported("deref of %r" % (p,))
        T = self.p.types[self.p.rep(ty)]
        if p.obj is None:
            if T["k"] in ("slice", "str"):
                return None, (("r", 0, p.meta),)
            return None, ()
        if p.obj[0] == "tyname":
            return p.obj, p.path
        cont = self.load(st, p.obj, p.path)
        es = self.p.elsize(ty)
        if isinstance(cont, Raw):
            want = es if es is not None else self.p.size(ty)
            if want == 0 or T["k"] == "dyn":
                return p.obj, p.path
            self.retype(st, p.obj, want)
            cont = st.objs[p.obj]
        if T["k"] == "dyn":
            return p.obj, p.path
        if isinstance(cont, Arr):
            if T["k"] in ("slice", "str", "array"):
                n = p.meta if T["k"] in ("slice", "str") else self.p.num(T["n"])
                if es == 0:
                    return p.obj, p.path + (("r", 0, n),)
                if es == cont.es or cont.es == 0:
                    i = divexact(st.norm(p.off), es)
                    if i is None:
                        raise Unsupported("unaligned offset")
                    tot = st.total(cont.segs)
                    if i == 0 and (tot == n or st.norm(sub(tot, n)) == 0):
                        return p.obj, p.path if T["k"] == "array" else p.path + (("r", 0, n),)
                    return p.obj, p.path + (("r", i, n),)
                return self.reinterp(st, p, cont, es), p.path + (("r", divexact(st.norm(p.off), es), n),)
            sz = self.p.size(ty)
            if sz == 0:
                return p.obj, p.path
            if sz != cont.es:
                if st.cons.entails_eq(sub(scale(st.total(cont.segs), cont.es), sz)) and len(cont.segs) == 1 and cont.segs[0][0] == "U":
                    self.reinterp(st, p, cont, sz)
                    return p.obj, p.path + (("e", 0),)
                self.reinterp(st, p, cont, sz)
            i = divexact(st.norm(p.off), sz)
            if i is None:
                raise Unsupported("unaligned offset %s" % show(p.off))
            return p.obj, p.path + (("e", i),)
        off = st.norm(p.off)
        if off == 0 or st.eq(off, 0):
            if T["k"] == "slice":
                return p.obj, p.path + (("r", 0, p.meta),)
            return p.obj, p.path
        if self.p.zst(ty):
            return p.obj, p.path
        # one past a lone value: only an empty slice may be there
        if T["k"] in ("slice", "array"):
            n = p.meta if T["k"] == "slice" else self.p.num(T["n"])
            if st.eq(n, 0):
                return None, (("r", 0, 0),)
        raise Bug("oob", "access outside of the value")

    def reinterp(self, st, p, cont, es):
        """View an untouched block with another element size."""
        if p.path == () and all(s[0] in "U" for s in cont.segs):
            h = st.heap.get(p.obj)
            if h is not None:
                st.objs[p.obj] = Raw(h[0])
                self.retype(st, p.obj, es)
                return p.obj
        raise Unsupported("element size %s of storage with element size %s" % (es, cont.es))

    def place(self, st, fr, pl, want_ref=False):
        """Evaluate a place to (object, path, type, meta of the last deref)."""
        loc, projs = pl
        fid, body = fr
        obj = (fid, loc)
        path = ()
        ty = body["locals"][loc]
        var = None
        meta = None
        types = self.p.types
        for pr in projs:
            k = pr[0]
            if k == "d":
                ptr = self.load(st, obj, path)
                T = types[self.p.rep(ty)]
                if T["k"] not in ("ref", "ptr"):
                    raise Unsupported("deref of type %s" % T["name"])
                ty = T["el"]
                if isinstance(ptr, P):
                    meta = ptr.meta
                    if self.p.zst(ty) and types[ty]["k"] not in ("slice", "dyn", "str"):
                        obj, path = ptr.obj, ptr.path
                        var = None
                        continue
                obj, path = self.place_at(st, ptr, ty)
                var = None
            elif k == "f":
                T = types[ty]
                fi, ft = pr[1], pr[2]
                if T["k"] == "adt" and T["kind"] == "enum":
                    path = path + (("vf", var, fi),)
                elif T["k"] == "adt" and T["kind"] == "union":
                    pass
                elif self.p.rep(ty) != ty and self.p.main_field(ty) is not None:
                    if self.p.main_field(ty) != fi:
                        obj, path = ("zst", 0), ()
                elif T["k"] == "pat":
                    pass
                else:
                    path = path + (fi,)
                ty = ft
                var = None
            elif k == "v":
                var = pr[1]
            elif k == "i" or k == "c":
                T = types[self.p.rep(ty)]
                if k == "i":
                    i = self.load(st, (fid, pr[1]), ())
                else:
                    i = pr[1]
                    if pr[3]:
                        n = meta if T["k"] == "slice" else self.p.num(T["n"])
                        i = sub(n, i)
                if path and isinstance(path[-1], tuple) and path[-1][0] == "r":
                    _, a, n = path[-1]
                    if not st.ge(sub(sub(n, i), 1), 0):
                        raise Bug("oob", "index outside of the slice")
                    path = path[:-1] + (("e", add(a, i)),)
                else:
                    path = path + (("e", i),)
                ty = T["el"]
            elif k == "s":
                T = types[self.p.rep(ty)]
                n = path[-1][2] if path and isinstance(path[-1], tuple) and path[-1][0] == "r" else (meta if T["k"] == "slice" else self.p.num(T["n"]))
                a = pr[1]
                m = sub(sub(n, pr[2]), a) if pr[3] else sub(pr[2], a)
                if path and isinstance(path[-1], tuple) and path[-1][0] == "r":
                    path = path[:-1] + (("r", add(path[-1][1], a), m),)
                else:
                    path = path + (("r", a, m),)
                meta = m
                if T["k"] == "array":
                    # becomes a shorter array; keep the element type
                    pass
            elif k == "o":
                ty = pr[1]
            else:
                raise Unsupported("projection %s" % k)
        return obj, path, ty, meta

    def addr(self, st, obj, path, ty, meta):
        """Pointer to an evaluated place."""
        T = self.p.types[self.p.rep(ty)]
        m = meta if T["k"] in ("slice", "str", "dyn") else None
        if obj is None:
            a = 8
            return P(None, (), a, m if not (path and path[-1][0] == "r") else (path[-1][2] if m is not None else None))
        if path and isinstance(path[-1], tuple) and path[-1][0] in ("e", "r"):
            last = path[-1]
            es = self.elsz(st, obj, path[:-1], ty, last[0])
            if last[0] == "r" and T["k"] == "slice":
                m = last[2]
            return P(obj, path[:-1], st.norm(scale(last[1], es)) if last[1] != 0 else 0, m)
        return P(obj, path, 0, m)

    def elsz(self, st, obj, path, ty, k):
        if k == "r":
            es = self.p.elsize(ty)
            if es is not None:
                return es
        if k == "e":
            return self.p.size(ty)
        v = self.load(st, obj, path)
        if isinstance(v, Arr):
            return v.es
        raise Unsupported("element size")

    def read(self, st, fr, pl):
        obj, path, ty, _ = self.place(st, fr, pl)
        return self.load_ty(st, obj, path, ty)

    def zval(self, t):
        T = self.p.types[self.p.rep(t)]
        if T["k"] == "fndef":
            return UNIT
        if T["k"] == "adt" and T["path"] == "Z":
            return Tok("z", 0)
        if T["k"] == "array":
            return Arr(self.p.size(T["el"]), ())
        if T["k"] == "adt" and T["kind"] == "enum":
            vs = [i for i, v in enumerate(T["variants"]) if all(self.p.inhabited(f[1]) for f in v["fields"])]
            return V(vs[0], tuple(self.zval(f[1]) for f in T["variants"][vs[0]]["fields"])) if len(vs) == 1 else U
        fs = self.p.fields(t)
        return S(tuple(self.zval(f) for f in fs))

    def load_ty(self, st, obj, path, ty):
        if self.p.zst(ty) or (obj and obj[0] == "zst"):
            return self.zval(ty)
        return self.load(st, obj, path)

    def write(self, st, fr, pl, val):
        if not pl[1]:
            st.objs[(fr[0], pl[0])] = val
            return
        obj, path, ty, _ = self.place(st, fr, pl)
        if self.p.zst(ty) or (obj and obj[0] == "zst"):
            return
        self.store(st, obj, path, val)

    # ---- constants and operands
    def const(self, st, c):
        t = c["t"]
        T = self.p.types[t]
        if "param" in c:
            return self.p.num(c["param"])
        if "cst" in c:
            return self.p.num(c["cst"])
        if "body" in c:
            key = ("const", c["body"])
            v = st.memo.get(key)
            if v is not None:
                return v
            outs = self.call_body(st, c["body"], [])
            if len(outs) != 1 or outs[0][0] != "ret":
                raise Unsupported("constant that branches")
            s2 = outs[0][1]
            if s2 is not st:
                self.adopt(st, s2)
            v = outs[0][2]
            st.memo[key] = v
            return v
        return self.cval(st, c["v"], t)

    def adopt(self, st, s2):
        for a in State.__slots__:
            setattr(st, a, getattr(s2, a))

    def cval(self, st, v, t):
        T = self.p.types[t]
        if self.p.types[self.p.rep(t)]["k"] == "fndef":
            return UNIT
        if T["k"] == "adt" and T["path"].endswith(("Alignment", "AlignmentEnum")):
            d = v
            ti = t
            while "agg" in d:
                TT = self.p.types[ti]
                if TT["k"] == "adt" and TT["kind"] == "enum":
                    return int(TT["variants"][d["v"]]["discr"])
                ti, d = d["agg"][0]
            if "i" in d:
                return d["i"]
        if "z" in v:
            return self.zval(t)
        if "i" in v:
            if T["k"] == "bool":
                return bool(v["i"])
            return v["i"]
        if "str" in v:
            return P(("str", v["str"]), (), 0, len(v["str"].encode()))
        if "fnptr" in v:
            return Fn(v["fnptr"])
        if "static" in v:
            k = ("g", v["static"])
            if k not in st.objs:
                st.objs[k] = self.p.uninit(T["el"]) if "el" in T else U
            return P(k)
        if "refto" in v:
            x = self.cval(st, v["refto"], v["t"])
            if isinstance(x, P) and x.obj and x.obj[0] == "str" and self.p.types[v["t"]]["k"] == "str":
                return x
            k = self.newobj(st, x, "c")
            n = None
            if isinstance(x, Arr) and self.p.types[self.p.types[t]["el"]]["k"] == "slice":
                n = st.total(x.segs)
            return P(k, (), 0, n)
        if "agg" in v:
            r = self.p.rep(t)
            vals = [self.cval(st, x, ft) for ft, x in v["agg"]]
            if T["k"] == "array":
                segs = [valseg(x) for x in vals]
                return Arr(self.p.size(T["el"]), st.clean(segs))
            if T["k"] == "adt" and T["kind"] == "enum":
                return V(v["v"], tuple(vals))
            m = self.p.main_field(t)
            if m is not None:
                return vals[m]
            return S(tuple(vals))
        if "opq" in v:
            return Opq(v["opq"])
        if "slice" in v:
            return P(("opq", T["name"]), (), 0, v["slice"])
        raise Unsupported("constant %s" % (v,))

    def operand(self, st, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            pl = o[1]
            if not pl[1]:
                return st.objs[(fr[0], pl[0])]
            return self.read(st, fr, pl)
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return False
        raise Unsupported("operand")

    # ---- rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "raw":
            obj, path, ty, meta = self.place(st, fr, r[1])
            return self.addr(st, obj, path, ty, meta)
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(a, bool):
                    return not a
                if isinstance(a, Cond):
                    return a.negate()
                T = self.p.types[r[3]]
                if T["k"] == "int" and not T["signed"] and isinstance(a, (int, Lin)):
                    return sub((1 << T["bits"]) - 1, a)
            if r[1] == "PtrMetadata":
                if isinstance(a, P):
                    return a.meta if a.meta is not None else UNIT
            if r[1] == "Neg" and isinstance(a, (int, Lin)):
                return neg(a)
            if a is U:
                raise Bug("uninit", "an uninitialised value is used")
            raise Unsupported("unary %s %r" % (r[1], a))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "unsize":
            v = self.operand(st, fr, r[1])
            a, b = r[4], r[5]
            A, B = self.p.types[a], self.p.types[b]
            if B["k"] == "dyn":
                if A["k"] == "dyn":
                    return v
                m = ("vt", a)
            elif A["k"] == "array":
                m = self.p.num(A["n"])
            else:
                return v
            return self.with_meta(v, m)
        if k == "discr":
            obj, path, ty, _ = self.place(st, fr, r[1])
            v = self.load_ty(st, obj, path, ty)
            v = self.discr(v, ty)
            D = self.p.types[dty] if dty is not None else None
            if isinstance(v, int) and D is not None and D["k"] == "int" and D["signed"] and v >> (D["bits"] - 1):
                v -= 1 << D["bits"]
            return v
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            t = r[3]
            T = self.p.types[t]
            if kind[0] == "adt":
                if T["kind"] == "enum":
                    return V(kind[1], tuple(vals))
                if T["kind"] == "union":
                    if self.p.zst(T["variants"][0]["fields"][kind[2]][1]):
                        return self.p.uninit(t)
                    return vals[0]
                m = self.p.main_field(t)
                if m is not None:
                    return vals[m]
                return S(tuple(vals))
            if kind[0] == "array":
                return Arr(self.p.size(T["el"]), st.clean([valseg(v) for v in vals]))
            if kind[0] == "rawptr":
                v, m = vals
                return self.with_meta(v, None if m == UNIT else m)
            if kind[0] in ("tuple", "closure"):
                return S(tuple(vals))
            raise Unsupported("aggregate")
        if k == "rep":
            v = self.operand(st, fr, r[1])
            n = self.p.num(r[2])
            es = self.p.size(self.p.types[self.p.rep(dty)]["el"])
            if isinstance(v, Tok):
                raise Unsupported("repeat of an opaque value")
            if isinstance(v, Arr) or isinstance(v, S):
                if v is not U and self.allU(v):
                    return Arr(es, (("U", n),))
            return Arr(es, st.clean([valseg(v, n)]))
        if k == "tls":
            return P(("g", r[1]))
        raise Unsupported("rvalue %s" % (r[:2],))

    def allU(self, v):
        if v is U:
            return True
        if isinstance(v, S):
            return all(self.allU(x) for x in v.f)
        if isinstance(v, Arr):
            return all(s[0] == "U" for s in v.segs)
        return False

    def with_meta(self, v, m):
        if isinstance(v, P):
            return P(v.obj, v.path, v.off, m)
        if isinstance(v, S):
            return S(tuple(self.with_meta(x, m) if isinstance(x, P) else x for x in v.f))
        raise Unsupported("unsize of %r" % (v,))

    def discr(self, v, ty):
        T = self.p.types[self.p.rep(ty)]
        if isinstance(v, V):
            d = int(T["variants"][v.v]["discr"])
            return d - (1 << 128) if d > 1 << 127 else d
        if v is U:
            raise Bug("uninit", "an uninitialised enum is inspected")
        if isinstance(v, (int, Lin)):
            return v
        if T["k"] in ("adt",) and T["kind"] != "enum":
            return 0
        raise Unsupported("discriminant of %r" % (v,))

    def cast(self, st, k, v, s, t):
        T = self.p.types[self.p.rep(t)]
        if k == "IntToInt":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return int(st.decide(v))
            if isinstance(v, V):
                d = self.discr(v, s)
                if self.p.types[self.p.rep(s)].get("path") == "std::cmp::Ordering" and d == 255:
                    d = -1
                return self.cast(st, k, d, s, t)
            if isinstance(v, Chr):
                return self.char_num(st, v, T)
            if isinstance(v, Tok) and T.get("bits") == 8 and ("text", v.s) in st.ghost:
                return Byte(v) if T["signed"] else v
            if isinstance(v, Tok) and self.p.types[self.p.rep(s)].get("bits") == 8 and T.get("bits", 0) > 8:
                n = self.byte_num(st, v)
                if n is not None:
                    v = n
                    if T["k"] == "char":
                        return self.num_char(st, v)
            if isinstance(v, int):
                b = T.get("bits", 32)
                v &= (1 << b) - 1
                if T.get("signed") and v >> (b - 1):
                    v -= 1 << b
                return v
            if isinstance(v, Lin):
                b = T.get("bits", 32)
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if T.get("signed") else (0, (1 << b) - 1)
                if st.cons.entails(sub(v, lo)) and st.cons.entails(sub(hi, v)):
                    return v
                if st.ge(hi, v) and st.ge(v, lo):
                    return v
                if st.ge(v, lo) and not T.get("signed"):
                    return sub(v, scale(self.quot(st, v, 1 << b), 1 << b))
            if v is U:
                raise Bug("uninit", "an uninitialised value is used")
            raise Unsupported("int cast of %r" % (v,))
        if k == "PtrToPtr":
            if isinstance(v, P):
                K = self.p.types[self.p.rep(T["el"])]["k"] if "el" in T else None
                if K not in ("slice", "str", "dyn") and not self.unsized_tail(T["el"]):
                    return P(v.obj, v.path, v.off, None)
            return v
        if k.startswith("PointerCoercion"):
            if "ReifyFnPointer" in k or "ClosureFnPointer" in k:
                S_ = self.p.types[s]
                if S_["k"] == "fndef":
                    return Fn(("c", s))
                return Fn(("cl", s))
            return v
        if k == "Transmute" or k == "BoxDerefTransmute":
            return self.transmute(st, v, s, t)
        if k == "Subtype":
            return v
        if k in ("PointerExposeProvenance", "PointerWithExposedProvenance", "FnPtrToPtr"):
            if k == "PointerWithExposedProvenance" and isinstance(v, (int, Lin)):
                return self.from_addr(st, v)
            if isinstance(v, P) and k == "PointerExposeProvenance":
                return self.to_addr(st, v)
            if k == "FnPtrToPtr":
                return v
        raise Unsupported("cast %s of %r" % (k, v))

    def char_num(self, st, c, T):
        """Number of a character, reduced to the type."""
        if T.get("bits") == 8:
            return Tok(c.s, c.off) if st.eq(c.w, 1) else Low(c)
        if T.get("bits", 32) < 32:
            raise Unsupported("number of a character")
        key = ("cp", c.s, st.norm(c.off))
        n = st.memo.get(key)
        if n is None:
            lo, hi = next(r for w, r in ((1, (0, 0x7F)), (2, (0x80, 0x7FF)), (3, (0x800, 0xFFFF)), (4, (0x10000, 0x10FFFF))) if w == 4 or st.eq(c.w, w))
            n = self.fresh(st, "char", lo, hi)
            st.memo[key] = n
        return n

    def num_char(self, st, n):
        """The character that the number was taken from, if any."""
        if isinstance(n, Lin):
            for k, v in st.memo.items():
                if k[0] == "cp" and v == n:
                    outs = TEXT[1](self, st, k[1], k[2])
                    if len(outs) == 1 and outs[0][0] is st:
                        return outs[0][1]
        return n

    def byte_num(self, st, t):
        """Number of a byte of a text, or of arbitrary bytes; None for other values."""
        if isinstance(t, Low):
            return None
        if ("rawbytes", t.s) in st.ghost:
            lo, hi = 0, 255
        elif ("text", t.s) in st.ghost:
            if self.boundary(st, t):
                outs = TEXT[1](self, st, t.s, t.i)
                if not outs:
                    raise Dead()
                if outs[0][0] is not st:
                    raise Fork([[("state", s)] for s, c in outs])
                c = outs[0][1]
                if st.eq(c.w, 1):
                    return self.char_num(st, c, {"bits": 32})
                lo, hi = (0xC2, 0xDF) if st.eq(c.w, 2) else (0xE0, 0xEF) if st.eq(c.w, 3) else (0xF0, 0xF4)
                if ("cp", c.s, st.norm(c.off)) in st.memo:
                    st.approx = st.approx or "bytes of a character"
            else:
                lo, hi = 0x80, 0xBF
        else:
            return None
        key = ("byte", t.s, st.norm(t.i))
        n = st.memo.get(key)
        if n is None:
            if any(t.s == g[1] for r in st.ghost.get("brel", ()) for q in r[:2] for g in q if g[0] == "R"):
                st.approx = st.approx or "bytes that were compared before"
            n = st.memo[key] = self.fresh(st, "byte", lo, hi)
        return n

    def boundary(self, st, t):
        outs = TEXT[0](self, st, t.s, t.i)
        if len(outs) == 1 and outs[0][0] is st:
            return outs[0][1]
        raise Fork([[("state", s)] for s, r in outs])

    def char_cmp(self, st, op, a, b):
        if a == b and op in ("Eq", "Ne"):
            return op == "Eq"
        x, y = (self.char_num(st, c, {"bits": 32}) if isinstance(c, Chr) else c for c in (a, b))
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            return self.cmp(op, x, y)
        raise Unsupported("comparison of characters")

    def u8(self):
        return next(i for i, t in enumerate(self.p.types) if t["name"] == "u8")

    def unsized_tail(self, t):
        T = self.p.types[self.p.rep(t)]
        if T["k"] in ("slice", "str", "dyn"):
            return True
        if T["k"] == "adt" and T["kind"] == "struct" and T["variants"][0]["fields"]:
            return self.unsized_tail(T["variants"][0]["fields"][-1][1])
        return False

    def to_addr(self, st, p):
        if p.obj is None:
            return p.off
        k = ("addr", p.obj, p.path)
        a = st.memo.get(k)
        if a is None:
            a = self.fresh(st, "_addr", 4096, 1 << 62)
            st.memo[k] = a
            st.memo["sym", a.t[0][0]] = (p.obj, p.path)
        return add(a, p.off)

    def from_addr(self, st, v):
        v = st.norm(v)
        for s, c in terms(v):
            o = st.memo.get(("sym", s))
            if o is not None:
                if c == 1:
                    return P(o[0], o[1], sub(v, sym(s)))
                raise Unsupported("address arithmetic")
        return P(None, (), v)

    def transmute(self, st, v, s, t):
        w = t
        s, t = self.p.rep(s), self.p.rep(t)
        S_, T = self.p.types[s], self.p.types[t]
        if T["k"] == "int" and ("NonZero" in self.p.types[w].get("name", "") or isinstance(v, S)):
            while isinstance(v, S) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, (int, Lin)):
                return self.wrapped(w, v)
        if s == t or v is U:
            return v
        ptr = ("ref", "ptr", "fnptr")
        if S_["k"] in ptr and T["k"] in ptr:
            return v
        if T["k"] in ptr and isinstance(v, (int, Lin)):
            return self.from_addr(st, v)
        if S_["k"] in ptr and T["k"] == "int" and isinstance(v, P):
            return self.to_addr(st, v)
        if isinstance(v, (int, Lin)) and T["k"] == "adt" and T["path"].endswith(("Alignment", "AlignmentEnum")):
            return v
        if S_["k"] == "adt" and S_["path"].endswith(("Alignment", "AlignmentEnum")) and isinstance(v, (int, Lin)):
            return v
        if S_["k"] in ptr and T["k"] == "adt" and T["kind"] == "enum" and T["path"].endswith("Option"):
            if isinstance(v, P):
                if v.obj is None and v.off == 0:
                    return V(0)
                if v.obj is not None:
                    return V(1, (v,))
        if S_["k"] == "adt" and S_.get("path", "").endswith("Option") and T["k"] in ptr and isinstance(v, V):
            return P(None, (), 0) if v.v == 0 else v.f[0]
        if isinstance(v, (int, Lin)) and not isinstance(v, bool) and T["k"] == "adt" and S_["k"] == "int":
            if T["path"].endswith("Option") and "NonZero" in T["name"]:
                if st.decide(Cond("eq", v)):
                    return V(0)
                return V(1, (self.wrapped(T["variants"][1]["fields"][0][1], v),))
        if S_["k"] == "adt" and T["k"] == "int" and "NonZero" in S_["name"]:
            if isinstance(v, V) and S_["path"].endswith("Option"):
                v = v.f[0] if v.v == 1 else 0
            while isinstance(v, S) and len(v.f) == 1:
                v = v.f[0]
            if isinstance(v, (int, Lin)):
                return v
        if isinstance(v, (int, Lin)) and T["k"] in ("int", "char"):
            return self.num_char(st, v) if T["k"] == "char" else v
        if T["k"] == "bool" and isinstance(v, int):
            return bool(v)
        if isinstance(v, Arr) and T["k"] == "array":
            return v
        if T["k"] == "array" and isinstance(v, Tok):
            return Arr(self.p.size(T["el"]), (valseg(v),))
        if S_["k"] == "adt" and T["k"] == "adt" and S_["path"] == T["path"]:
            return v
        if isinstance(v, V) and T["k"] == "int" and T["bits"] == 8 and S_.get("size") == 1:
            # bool in a variant, its niche for the other one
            if len(v.f) == 1 and isinstance(v.f[0], (bool, Cond)):
                return int(st.decide(v.f[0]))
            if all(x is UNIT or x == UNIT for x in v.f) and any(len(w["fields"]) == 1 and self.p.types[w["fields"][0][1]]["k"] == "bool" for w in S_["variants"]) and len(S_["variants"]) == 2:
                return 2
        if S_["k"] == "tuple" and T["k"] in ptr and isinstance(v, S) and len(v.f) == 2 and isinstance(v.f[0], P):
            return P(v.f[0].obj, v.f[0].path, v.f[0].off, v.f[1])
        raise Unsupported("transmute %s -> %s" % (S_["name"], T["name"]))

    def wrap(self, st, e, T):
        """Value of e reduced to the integer type."""
        b = T["bits"]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if T["signed"] else (0, (1 << b) - 1)
        if isinstance(e, int):
            e = (e - lo) % (1 << b) + lo
            return e
        if not st.ge(hi, e):
            # too large
            if st.ge(hi + (1 << b), e):
                return sub(e, 1 << b)
            q = self.quot(st, sub(e, lo), 1 << b)
            return sub(e, scale(q, 1 << b))
        if not st.ge(e, lo):
            e2 = add(e, 1 << b)
            if st.ge(e2, lo):
                return e2
            raise Unsupported("deep underflow")
        return e

    def fits(self, st, e, T):
        b = T["bits"]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if T["signed"] else (0, (1 << b) - 1)
        return st.ge(hi, e) and st.ge(e, lo)

    def mul(self, st, a, b):
        if isinstance(a, int):
            return scale(b, a)
        if isinstance(b, int):
            return scale(a, b)
        a, b = st.norm(a), st.norm(b)
        if isinstance(a, int) or isinstance(b, int):
            return self.mul(st, a, b)
        raise Unsupported("product of two unknown numbers")

    def binop(self, st, op, a, b, ty):
        if a is U or b is U:
            raise Bug("uninit", "an uninitialised value is used")
        T = self.p.types[self.p.rep(ty)]
        if isinstance(a, (int, Lin, Cond)) and isinstance(b, (int, Lin, Cond)) and T["k"] == "bool":
            a, b = (x if isinstance(x, bool) else x for x in (a, b))
            if op in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if op == "BitAnd" and (a is False or b is False):
                    return False
                if op == "BitOr" and (a is True or b is True):
                    return True
                if op in ("Eq",) and a is True:
                    return b
                x, y = st.decide(a), st.decide(b)
                return {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y, "Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if isinstance(a, Chr) or isinstance(b, Chr):
            return self.char_cmp(st, op, a, b)
        if isinstance(a, Tok) and isinstance(b, (int, Lin, Tok)) or isinstance(b, Tok) and isinstance(a, (int, Lin)):
            if T.get("bits") == 8 and not T.get("signed"):
                if a == b and op in ("Eq", "Ne"):
                    return op == "Eq"
                x, y = (self.byte_num(st, v) if isinstance(v, Tok) else v for v in (a, b))
                if x is not None and y is not None:
                    a, b = x, y
        if isinstance(a, Byte) and b in (-64, -65) and op in ("Ge", "Lt", "Gt", "Le"):
            # continuation bytes are those below -64
            if (b == -64) == (op in ("Ge", "Lt")):
                r = self.boundary(st, a.t)
                return r if op in ("Ge", "Gt") else not r
        if isinstance(a, V) and not a.f and isinstance(b, V):
            raise Unsupported("enum comparison")
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool):
            a, b = st.norm(a), st.norm(b)
            if T["k"] == "char":
                T = {"bits": 32, "signed": False, "k": "int"}
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return self.cmp(op, a, b)
            if op == "Cmp":
                if st.decide(Cond("ge", sub(sub(b, a), 1))):
                    return V(0)
                return V(1) if st.decide(Cond("eq", sub(a, b))) else V(2)
            if op in ("Add", "AddUnchecked", "AddWithOverflow"):
                e = add(a, b)
            elif op in ("Sub", "SubUnchecked", "SubWithOverflow"):
                e = sub(a, b)
            elif op in ("Mul", "MulUnchecked", "MulWithOverflow"):
                e = self.mul(st, a, b)
            elif op == "Div" or op == "Rem":
                if isinstance(b, int) and b > 0:
                    if isinstance(a, int):
                        return (a // b if op == "Div" else a % b) if a >= 0 else (-((-a) // b) if op == "Div" else -((-a) % b))
                    if T["signed"] and not st.ge(a, 0):
                        raise Unsupported("signed division")
                    q = self.quot(st, a, b)
                    return q if op == "Div" else sub(a, scale(q, b))
                raise Unsupported("division by an unknown number")
            elif op in ("Shl", "ShlUnchecked") and isinstance(b, int):
                e = scale(a, 1 << b)
                op = "Shl"
            elif op in ("Shr", "ShrUnchecked") and isinstance(b, int):
                if isinstance(a, int):
                    return a >> b
                if not T["signed"]:
                    return self.quot(st, a, 1 << b)
                raise Unsupported("signed shift")
            elif isinstance(a, int) and isinstance(b, int) and op in ("BitAnd", "BitOr", "BitXor"):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
            elif op == "BitAnd" and (isinstance(a, int) or isinstance(b, int)):
                m, x = (a, b) if isinstance(a, int) else (b, a)
                if m == 0:
                    return 0
                if (m & (m + 1)) == 0 and not T["signed"]:
                    return sub(x, scale(self.quot(st, x, m + 1), m + 1))
                h = self.bithook(st, op, x, m)
                if h is not None:
                    return h
                raise Unsupported("bit mask")
            elif op == "BitOr" and (a == 0 or b == 0):
                return b if a == 0 else a
            else:
                raise Unsupported("operator %s" % op)
            if op.endswith("WithOverflow"):
                ok = self.fits(st, e, T)
                return S((e if ok else self.wrap(st, e, T), not ok))
            if op.endswith("Unchecked"):
                if not self.fits(st, e, T):
                    raise Bug("overflow", "unchecked arithmetic overflows")
                return e
            return self.wrap(st, e, T)
        if isinstance(a, P) and isinstance(b, P):
            if op in ("Eq", "Ne"):
                r = self.ptr_eq(st, a, b)
                if isinstance(r, bool):
                    return r if op == "Eq" else not r
                return r if op == "Eq" else r.negate()
            if op in ("Lt", "Le", "Gt", "Ge") and a.obj == b.obj and a.path == b.path:
                return self.cmp(op, a.off, b.off)
        if op == "Offset" and isinstance(a, P):
            es = self.p.size(T["el"])
            return self.offset(st, a, b, es)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return (a == b) if op == "Eq" else (a != b)
        raise Unsupported("operator %s on %r and %r" % (op, a, b))

    def bithook(self, st, op, x, m):
        return None

    def cmp(self, op, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return {"Lt": d < 0, "Le": d <= 0, "Gt": d > 0, "Ge": d >= 0, "Eq": d == 0, "Ne": d != 0}[op]
        if op == "Ge":
            return Cond("ge", d)
        if op == "Gt":
            return Cond("ge", sub(d, 1))
        if op == "Le":
            return Cond("ge", neg(d))
        if op == "Lt":
            return Cond("ge", sub(-1, d))
        return Cond("eq" if op == "Eq" else "ne", d)

    def ptr_eq(self, st, a, b):
        if a.obj is None and b.obj is None:
            r = self.cmp("Eq", st.norm(a.off), st.norm(b.off))
        elif a.obj is None or b.obj is None:
            n, o = (a, b) if a.obj is None else (b, a)
            r = False
        elif a.obj != b.obj:
            r = False
            if a.obj[0] in ("tyname", "str") and a.obj[:2] == b.obj[:2] and len(a.obj) == len(b.obj) == 3:
                # equal texts may be stored once or several times
                k = ("same",) + tuple(sorted((a.obj, b.obj)))
                s = st.memo.get(k)
                if s is None:
                    s = st.memo[k] = self.fresh(st, "same_address", 0, 1)
                r = Cond("eq", sub(s, 1))
        elif a.path == b.path:
            r = self.cmp("Eq", st.norm(a.off), st.norm(b.off))
        else:
            r = self.path_eq(st, a, b)
        if isinstance(a.meta, (int, Lin)) and isinstance(b.meta, (int, Lin)) and r is not False:
            m = self.cmp("Eq", a.meta, b.meta)
            if m is not True:
                return st.decide(r) and st.decide(m)
        return r

    def wrapped(self, t, v):
        """Number inside of structures with one field."""
        T = self.p.types[t]
        if T["k"] == "adt" and len(T["variants"]) == 1 and len(T["variants"][0]["fields"]) == 1:
            return S((self.wrapped(T["variants"][0]["fields"][0][1], v),))
        return v

    def path_eq(self, st, a, b):
        raise Unsupported("pointer comparison %r %r" % (a, b))

    def offset(self, st, p, n, es):
        if es == 0:
            return p
        return P(p.obj, p.path, st.norm(add(p.off, self.mul(st, n, es))), p.meta)

    # ---- execution
    def call_body(self, st, bid, args, spread=None):
        body = self.p.bodies[bid]
        if body is None:
            raise Unsupported("no body")
        if body["crate"] == "lokky":
            self.calls.add(npath(body["path"]))
        if len(self.stack) > 120:
            raise Unsupported("recursion")
        fid = self.nfid
        self.nfid += 1
        if body["spread"] >= 0:
            k = body["spread"]
            args = args[:k - 1] + [S(tuple(args[k - 1:]))] if len(args) != body["args"] else args
        objs = st.objs
        locs = body["locals"]
        for i, t in enumerate(locs):
            objs[(fid, i)] = self.p.uninit(t)
        if len(args) != body["args"]:
            raise Unsupported("argument count of %s" % body["name"])
        for i, a in enumerate(args):
            objs[(fid, i + 1)] = a
        ln = [0]
        self.stack.append((bid, ln))
        try:
            outs = self.explore((fid, body), bid, st, ln)
        finally:
            self.stack.pop()
        res = []
        n = len(locs)
        for kind, s, v in outs:
            if kind == "ret":
                v = s.objs[(fid, 0)]
                if v is U or self.p.zst(locs[0]):
                    if self.p.zst(locs[0]):
                        v = self.zval(locs[0])
            for i in range(n):
                s.objs.pop((fid, i), None)
            res.append((kind, s, v))
        return res

    def explore(self, fr, bid, st, ln, start=0, back=None):
        """Follow the body from a block; what comes back to it is put into `back`, if given."""
        body = fr[1]
        heads = self.p.heads(bid)
        blocks = body["blocks"]
        outs = []
        work = [(st, start, 0, {})]
        seen = {}
        while work:
            st, b, i, cnt = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsupported("step limit")
                if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
                    raise Unsupported("time limit")
                stmts, term, cleanup = blocks[b]
                try:
                    while i < len(stmts):
                        s = stmts[i]
                        k = s[0]
                        if k == "=":
                            ln[0] = s[3]
                            v = self.rvalue(st, fr, s[2], self.dest_ty(st, fr, s[1]))
                            self.write(st, fr, s[1], v)
                        elif k == "assume":
                            c = self.operand(st, fr, s[1])
                            if not st.decide(c):
                                raise Bug("ub", "a promise of an unchecked operation does not hold")
                        elif k == "sx":
                            st.objs[(fr[0], s[1])] = self.p.uninit(body["locals"][s[1]])
                        elif k == "sl":
                            pass
                        elif k == "copy":
                            ln[0] = s[4]
                            self.copy(st, self.operand(st, fr, s[1]), self.operand(st, fr, s[2]), self.operand(st, fr, s[3]), None, True)
                        elif k == "sd":
                            obj, path, ty, _ = self.place(st, fr, s[1])
                            self.store(st, obj, path, V(s[2], ()))
                        i += 1
                    nxt = self.terminator(st, fr, term, ln)
                except Fork as f:
                    first = True
                    for alt in f.alts:
                        s2 = st.copy()
                        if s2.assume(alt):
                            s2.forks += 1
                            work.append((s2, b, i, dict(cnt)))
                    break
                except Dead:
                    break
                except Bug as e:
                    self.report(st, e.cls, e.msg, e.when, e.prop)
                    break
                except Unsupported as e:
                    self.nosup(str(e))
                    break
                # nxt: list of (state, target) | outcomes
                cont = []
                for o in nxt:
                    if len(nxt) > 1:
                        o[1].forks += 1
                    if o[0] == "goto":
                        if back is not None and o[2] == start:
                            back.append(o[1])
                            continue
                        cont.append((o[1], o[2]))
                    else:
                        outs.append(o)
                if not cont:
                    break
                for s2, tb in cont[1:]:
                    c2 = dict(cnt)
                    if self.enter(heads, tb, c2, s2, seen, fr, bid, ln, work):
                        work.append((s2, tb, 0, c2))
                st, tb = cont[0]
                if not self.enter(heads, tb, cnt, st, seen, fr, bid, ln, work):
                    break
                b, i = tb, 0
        return outs

    def enter(self, heads, b, cnt, st, seen, fr, bid, ln, work):
        if b in heads:
            n = cnt.get(b, 0)
            if "sh" in st.ghost:
                l = seen.setdefault(b, [])
                o = cnt.get((b, "state"))
                if o is not None and o[1] == self.nops and self.p.bodies[self.stack[-1][0]]["crate"] == "lokky" and same(o[0], st):
                    self.report(st, "hang", "the loop goes on forever: a round changes nothing and reads nothing that others change")
                    return False
                cnt[b, "state"] = (st.copy(), self.nops)
                if any(covers(o, st) for o in l):
                    self.covered += 1
                    return False
                l.append(st.copy())
            elif self.p.bodies[self.stack[-1][0]]["crate"] == "lokky":
                o = cnt.get((b, "state"))
                if o is not None and same(o, st):
                    self.report(st, "hang", "the loop goes on forever: a round changes nothing")
                    return False
                cnt[b, "state"] = st.copy()
            # Rounds without any choice cost nothing but time.
            if cnt.get((b, "forks")) == st.forks and cnt.get((b, "plain"), 0) < 3000:
                cnt[b, "plain"] = cnt.get((b, "plain"), 0) + 1
                n -= 1
            cnt[b, "forks"] = st.forks
            if "sh" not in st.ghost and not self.noaccel and self.p.bodies[bid]["crate"] != "probe":
                hist = cnt.get((b, "hist"), ())
                p = pattern(hist[-1], st) if hist else None
                if p is not None and p == cnt.get((b, "done")):
                    # covered by the state after any number of such rounds
                    self.covered += 1
                    return False
                cnt[b, "done"] = None
                if p is not None and len(hist) >= 2 and cnt.get((b, "acc"), 0) < self.maxacc and (n >= self.unroll or p == pattern(hist[-2], hist[-1])):
                    ws = accelerate(self, fr, bid, b, ln, hist[-1], st)
                    for w in ws:
                        self.accelerated += 1
                        c2 = dict(cnt)
                        c2[b] = self.unroll
                        c2[b, "acc"] = cnt.get((b, "acc"), 0) + 1
                        c2[b, "hist"] = (w.copy(),)
                        c2[b, "done"] = p
                        c2.pop((b, "state"), None)
                        c2.pop((b, "forks"), None)
                        work.append((w, b, 0, c2))
                    if ws:
                        cnt[b, "done"] = p
                cnt[b, "hist"] = (hist + (st.copy(),))[-2:]
            if n > (self.unroll if "sh" not in st.ghost else 30):
                self.truncated += 1
                k = self.trail() if DEBUG else self.where()
                self.trunc[k] = self.trunc.get(k, 0) + 1
                return False
            cnt[b] = n + 1
            # inner loops start anew
            for h in heads[b]:
                if h != b:
                    cnt.pop(h, None)
                    cnt.pop((h, "state"), None)
                    cnt.pop((h, "forks"), None)
                    cnt.pop((h, "hist"), None)
                    cnt.pop((h, "acc"), None)
                    cnt.pop((h, "done"), None)
        return True

    def dest_ty(self, st, fr, pl):
        if not pl[1]:
            return fr[1]["locals"][pl[0]]
        last = pl[1][-1]
        if last[0] == "f":
            return last[2]
        return None

    def unwind_to(self, st, u):
        if u == "cont":
            return ("unw", st, None)
        if isinstance(u, int):
            return ("goto", st, u)
        if u == "term":
            return ("abort", st, None)
        return ("unw", st, None)

    def terminator(self, st, fr, t, ln):
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st, None)]
        if k == "resume":
            return [("unw", st, None)]
        if k == "switch":
            ln[0] = t[5]
            v = self.operand(st, fr, t[1])
            if v is U:
                raise Bug("uninit", "a decision is made on uninitialised data")
            if isinstance(v, Cond):
                v = st.decide(v)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                m = None
                if v < 0:
                    W = self.p.types[t[2]] if isinstance(t[2], int) else {}
                    m = v + (1 << W.get("bits", 128))
                for c, b in t[3]:
                    if c == v or c == m:
                        return [("goto", st, b)]
                return [("goto", st, t[4])]
            if isinstance(v, Lin):
                for c, b in t[3]:
                    if st.eq(v, c):
                        return [("goto", st, b)]
                return [("goto", st, t[4])]
            raise Unsupported("switch on %r" % (v,))
        if k == "unreachable":
            raise Bug("ub", "code that was promised to be unreachable is reached")
        if k == "abort":
            return [("abort", st, None)]
        if k == "assert":
            ln[0] = t[6]
            if t[5].startswith(("Misaligned", "NullPointer", "InvalidEnum")):
                # Checks on addresses that debug builds add; addresses are checked by the memory model.
                return [("goto", st, t[3])]
            v = st.decide(self.operand(st, fr, t[1]))
            if v == t[2]:
                return [("goto", st, t[3])]
            self.on_panic(st, "assert " + t[5])
            return [self.unwind_to(st, t[4])]
        if k == "drop":
            ln[0] = t[5]
            obj, path, ty, meta = self.place(st, fr, t[1])
            if not self.p.types[ty]["nd"]:
                return [("goto", st, t[3])]
            res = []
            for kind, s, _ in self.drop(st, obj, path, ty, meta):
                res.append(("goto", s, t[3]) if kind == "ret" else self.unwind_to(s, t[4]) if kind == "unw" else (kind, s, None))
            return res
        if k == "call":
            ln[0] = t[7]
            c = t[1]
            args = [self.operand(st, fr, a) for a in t[2]]
            res = []
            if c["k"] == "ptr" and c["op"][0] in "cm" and self.p.types[self.p.rep(self.place(st, fr, c["op"][1])[2])]["k"] == "fndef":
                outs = self.call(st, self.p.types[self.p.rep(self.place(st, fr, c["op"][1])[2])]["fn"], args, t[3], t[8])
            elif c["k"] == "ptr":
                outs = self.call_value(st, self.operand(st, fr, c["op"]), args, t[8])
            else:
                outs = self.call(st, c, args, t[3], t[8])
            for kind, s, v in outs:
                if kind == "ret":
                    if t[5] < 0:
                        continue
                    try:
                        self.write(s, fr, t[4], v)
                    except Fork:
                        raise Unsupported("undecided destination")
                    res.append(("goto", s, t[5]))
                elif kind == "unw":
                    res.append(self.unwind_to(s, t[6]))
                else:
                    res.append((kind, s, v))
            return res
        raise Unsupported("terminator %s" % k)

    def on_panic(self, st, why):
        st.ghost["panic"] = (why, self.where())
        st.unwinding += 1

    # ---- calls
    def call(self, st, c, args, atys, dty):
        k = c["k"]
        if k == "ptr":
            raise Unsupported("indirect call")
        tp = npath(c["tpath"])
        rp = npath(c.get("path", c["tpath"]))
        if c.get("ctor") and k == "nomir":
            T = self.p.types[dty]
            if T["kind"] == "enum":
                nm = tp.split("::")[-1]
                i = next(i for i, v in enumerate(T["variants"]) if v["name"] == nm)
                return [("ret", st, V(i, tuple(args)))]
            m = self.p.main_field(dty)
            return [("ret", st, args[m] if m is not None else S(tuple(args)))]
        f = NATIVE.get(rp) or NATIVE.get(tp)
        if f is not None:
            r = f(self, st, c, args, atys, dty)
            if r is not NotImplemented:
                return r
        if k == "item":
            if c.get("closure"):
                a = args[1]
                return self.call_body(st, c["fn"], [args[0]] + list(a.f))
            return self.call_body(st, c["fn"], args)
        if k == "closureonce":
            o = self.newobj(st, args[0], "tmp")
            res = []
            for kind, s, v in self.call_body(st, c["fn"], [P(o)] + list(args[1].f)):
                res += self.after_drop(s, o, atys[0], kind, v)
            return res
        if k == "intrinsic":
            f = INTRINSIC.get(c["name"])
            if f is None:
                raise Unsupported("intrinsic %s" % c["name"])
            return f(self, st, c, args, atys, dty)
        if k == "nomir" or k == "stop":
            g = GHOST.get(tp) or GHOST.get(rp)
            if g is not None:
                return g(self, st, c, args, atys, dty)
            if self.p.types[dty]["k"] == "never" and ("panick" in tp or "fail" in tp or "assert_failed" in tp):
                if "nounwind" in tp:
                    raise Bug("ub", "precondition check fails")
                self.on_panic(st, tp)
                return [("unw", st, None)]
            if tp.startswith("std::fmt"):
                if any(isinstance(x, P) and x.obj and x.obj[0] == "fmtr" for x in args):
                    raise Unsupported("call of %s" % tp)
                return [("ret", st, Opq("fmt"))]
            raise Unsupported("call of %s" % tp)
        if k == "virtual":
            r = args[0]
            if isinstance(r, S) and r.f and isinstance(r.f[0], P):
                r = r.f[0]
            if not isinstance(r, P) or not isinstance(r.meta, tuple) or r.meta[0] != "vt":
                raise Unsupported("virtual call on %r" % (r,))
            m = self.p.vt.get((r.meta[1], c["method"]))
            if m is None:
                raise Unsupported("virtual method %s" % c["method"])
            a0 = P(r.obj, r.path, r.off, None)
            return self.call(st, m, [a0] + args[1:], atys, dty)
        if k == "fnptrshim":
            F = self.p.types[self.p.rep(atys[0])]
            while F["k"] == "ref":
                F = self.p.types[self.p.rep(F["el"])]
            if F["k"] == "fndef":
                return self.call(st, F["fn"], list(args[1].f), [], dty)
            return self.call_value(st, args[0], list(args[1].f), dty)
        if k == "dropglue":
            p = args[0]
            ty = c["ty"]
            return self.drop_ptr(st, p, ty)
        if k == "nop":
            return [("ret", st, UNIT)]
        if k == "cloneshim":
            return self.clone_shim(st, args[0], c["ty"])
        raise Unsupported("call %s (%s)" % (tp, k))

    def call_value(self, st, f, args, dty):
        if isinstance(f, P):
            f = self.load(st, f.obj, f.path)
        if isinstance(f, Fn):
            if isinstance(f.c, int):
                return self.call_body(st, f.c, args)
            if f.c[0] == "c":
                return self.call(st, self.p.types[f.c[1]]["fn"], args, [], dty)
        raise Unsupported("call of %r" % (f,))

    def after_drop(self, s, o, ty, kind, v):
        """Drop the temporary object after a call and continue with the result."""
        if not self.p.types[ty]["nd"]:
            s.objs.pop(o, None)
            return [(kind, s, v)]
        res = []
        for k2, s2, _ in self.drop(s, o, (), ty, None):
            s2.objs.pop(o, None)
            res.append((kind if k2 == "ret" else k2, s2, v))
        return res

    def clone_shim(self, st, p, ty):
        raise Unsupported("clone of %s" % self.p.types[ty]["name"])

    # ---- drops
    def drop_ptr(self, st, p, ty):
        if not self.p.types[ty]["nd"]:
            return [("ret", st, UNIT)]
        T = self.p.types[ty]
        if T["k"] == "dyn":
            if not isinstance(p, P) or not isinstance(p.meta, tuple):
                raise Unsupported("drop of dyn")
            return self.drop_ptr(st, P(p.obj, p.path, p.off, None), p.meta[1])
        if self.p.zst(ty):
            return self.drop(st, p.obj, p.path, ty, p.meta)
        obj, path = self.place_at(st, p, ty)
        return self.drop(st, obj, path, ty, p.meta)

    def seq(self, st, steps):
        """Run drop steps one after another; after a panic the rest runs too."""
        cur = [("ret", st, UNIT)]
        for f in steps:
            nxt = []
            for kind, s, v in cur:
                if kind == "abort":
                    nxt.append((kind, s, v))
                    continue
                for k2, s2, _ in self.guarded(s, f):
                    if kind == "unw" and k2 == "unw":
                        nxt.append(("abort", s2, None))
                    else:
                        nxt.append((kind if k2 == "ret" else k2, s2, v))
            cur = nxt
        return cur

    def guarded(self, st, f):
        """Run a step that may fork; split and retry."""
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                s0 = s.copy()
                out += f(s)
            except Fork as e:
                for alt in e.alts:
                    s2 = s0.copy()
                    if s2.assume(alt):
                        work.append(s2)
            except Dead:
                pass
            except Bug as e:
                self.report(s, e.cls, e.msg, e.when, e.prop)
            except Unsupported as e:
                self.nosup(str(e))
        return out

    def drop(self, st, obj, path, ty, meta=None):
        T = self.p.types[ty]
        if not T["nd"]:
            return [("ret", st, UNIT)]
        k = T["k"]
        if k == "adt":
            if T["path"] in OPAQUE:
                return self.drop_tok(st, self.load(st, obj, path))
            if T["path"] == "Z":
                return self.drop_z(st, 1)
            if T["path"].endswith("ManuallyDrop") or T["kind"] == "union":
                return [("ret", st, UNIT)]
            steps = []
            if "drop" in T:
                d = T["drop"]
                if d < 0:
                    raise Unsupported("drop of %s" % T["name"])
                steps.append(lambda s: self.call_body(s, d, [self.addr(s, obj, path, ty, meta)]))
            if T["kind"] == "enum":
                v = self.load_ty(st, obj, path, ty)
                if v is U:
                    raise Bug("uninit", "an uninitialised enum is dropped")
                if not isinstance(v, V):
                    raise Unsupported("drop of %r" % (v,))
                for i, f in enumerate(T["variants"][v.v]["fields"]):
                    if self.p.types[f[1]]["nd"]:
                        steps.append(lambda s, i=i, f=f: self.drop(s, obj, path + (("vf", v.v, i),), f[1], meta))
            else:
                m = self.p.main_field(ty)
                for i, f in enumerate(T["variants"][0]["fields"]):
                    if self.p.types[f[1]]["nd"]:
                        steps.append(lambda s, i=i, f=f: self.drop(s, obj, path if m is not None else path + (i,), f[1], meta))
            if len(steps) == 1 and "drop" not in T:
                return steps[0](st)
            return self.seq(st, steps)
        if k in ("tuple", "closure"):
            m = self.p.main_field(ty)
            steps = []
            for i, f in enumerate(T["els"]):
                if self.p.types[f]["nd"]:
                    steps.append(lambda s, i=i, f=f: self.drop(s, obj, path + (i,), f, None))
            return self.seq(st, steps)
        if k in ("array", "slice"):
            el = T["el"]
            E = self.p.types[self.p.rep(el)]
            if self.p.zst(el):
                n = self.p.num(T["n"]) if k == "array" else (path[-1][2] if path and isinstance(path[-1], tuple) and path[-1][0] == "r" else meta)
                if E["k"] == "adt" and E["path"] == "Z":
                    return self.drop_z(st, n)
                raise Unsupported("drop of zero-sized elements")
            if obj is None:
                n = path[-1][2]
                if st.eq(n, 0):
                    return [("ret", st, UNIT)]
            v = self.load(st, obj, path)
            if not isinstance(v, Arr):
                raise Unsupported("drop of a slice of %r" % (v,))
            if self.p.like_opaque(el):
                return self.drop_segs(st, v.segs)
            # other elements: one by one
            segs = v.segs
            n = st.total(segs)
            if not isinstance(n, int):
                raise Unsupported("drop of unknown number of elements")
            if path and isinstance(path[-1], tuple) and path[-1][0] == "r":
                base, a = path[:-1], path[-1][1]
            else:
                base, a = path, 0
            return self.seq(st, [lambda s, i=i: self.drop(s, obj, base + (("e", add(a, i)),), el, None) for i in range(n)])
        if k == "dyn":
            if not isinstance(meta, tuple):
                raise Unsupported("drop of dyn")
            return self.drop(st, obj, path, meta[1], None)
        raise Unsupported("drop of %s" % T["name"])

    def may_panic(self, st):
        return st.unwinding == 0 and st.panics < self.npanics and not st.ghost.get("nopanic")

    def panic_copy(self, st, why):
        s = st.copy()
        s.panics += 1
        s.unwinding += 1
        s.ghost["panic"] = (why, self.where())
        s.ghost["panicked"] = True
        return s

    def drop_tok(self, st, v):
        if v is U:
            self.report(st, "uninit", "an uninitialised value is destroyed")
            return [("ret", st, UNIT)]
        if not isinstance(v, Tok):
            raise Unsupported("drop of %r" % (v,))
        return self.drop_segs(st, (valseg(v),))

    def drop_segs(self, st, segs):
        segs = st.clean(segs)
        for s in segs:
            if s[0] == "U":
                st.ge(0, s[-1])
            elif s[0] != "R":
                raise Unsupported("drop of unknown values")
        n = st.total(segs)
        st = st.copy()
        for s in segs:
            if s[0] == "R":
                try:
                    for f in ON_DROP:
                        f(self, st, (s[1], s[2], s[3]))
                    st.drop_run((s[1], s[2], s[3]))
                except Bug as e:
                    self.report(st, e.cls, e.msg, e.when, e.prop)
            elif not st.ge(0, s[-1]):
                self.report(st, "uninit", "an uninitialised value is destroyed")
        outs = [("ret", st, UNIT)]
        if self.may_panic(st):
            s2 = self.panic_copy(st, "a destructor panics")
            s2.cons.assume(sub(n, 1))
            if not s2.cons.dead and s2.cons.sat(sub(n, 1)):
                outs.append(("unw", s2, None))
        return outs

    def drop_z(self, st, n):
        st = st.copy()
        st.ghost["zdrop"] = add(st.ghost.get("zdrop", 0), n)
        outs = [("ret", st, UNIT)]
        if self.may_panic(st):
            s2 = self.panic_copy(st, "a destructor panics")
            s2.cons.assume(sub(n, 1))
            if not s2.cons.dead and s2.cons.sat(sub(n, 1)):
                outs.append(("unw", s2, None))
        return outs

    # ---- bulk copies
    def elems(self, st, p, n, ty):
        """Segments of n elements of the type at the pointer."""
        es = self.p.size(ty)
        if not isinstance(p, P):
            if p is U:
                raise Bug("uninit", "an uninitialised pointer is used")
            raise Unsupported("copy from %r" % (p,))
        if p.obj is None:
            if st.eq(n, 0):
                return ()
            raise Bug("wild", "memory access through an address that points to no storage")
        v = self.load(st, p.obj, p.path)
        if isinstance(v, Raw):
            self.retype(st, p.obj, es)
            v = st.objs[p.obj]
        if isinstance(v, Arr) and v.es != es and self.p.types[self.p.rep(ty)]["k"] == "array":
            v2 = self.p.types[self.p.rep(ty)]
            return None
        if isinstance(v, Arr):
            if v.es != es:
                self.reinterp(st, p, v, es)
                v = st.objs[p.obj]
            i = divexact(st.norm(p.off), es)
            if i is None:
                raise Unsupported("unaligned copy")
            if st.cons.entails_eq(n):
                return ()
            st.check_range(v, i, n, "copy from")
            return st.sub(v.segs, i, n)
        if st.eq(n, 0):
            return ()
        if st.eq(p.off, 0) and st.eq(n, 1):
            return (valseg(v),)
        raise Bug("oob", "copy reads outside of the value")

    def copy(self, st, src, dst, n, ty, nonoverlapping):
        if ty is None:
            raise Unsupported("untyped copy")
        es = self.p.size(ty)
        if es == 0:
            return
        n = st.norm(n)
        if n == 0:
            return
        # a single value of a plain type is a read and a write
        if n == 1:
            so, sp = self.place_at(st, src, ty)
            v = self.load(st, so, sp)
            do, dp = self.place_at(st, dst, ty)
            if nonoverlapping and so == do and sp == dp:
                raise Bug("overlap", "non-overlapping copy of a value onto itself")
            if nonoverlapping and so == do and sp[:-1] == dp[:-1] and sp and isinstance(sp[-1], tuple) and isinstance(dp[-1], tuple):
                if st.cons.sat(sub(sp[-1][1], dp[-1][1]), sub(dp[-1][1], sp[-1][1])):
                    d = sub(sp[-1][1], dp[-1][1])
                    if st.eq(d, 0):
                        raise Bug("overlap", "non-overlapping copy of a value onto itself")
            self.store(st, do, dp, v)
            return
        if nonoverlapping and isinstance(src, P) and isinstance(dst, P) and src.obj is not None and src.obj == dst.obj and src.path == dst.path:
            a, b = divexact(st.norm(src.off), es), divexact(st.norm(dst.off), es)
            if a is not None and b is not None:
                es_ = (sub(sub(add(b, n), a), 1), sub(sub(add(a, n), b), 1), sub(n, 1))
                if st.cons.sat(*es_):
                    if not st.ge(0, n):
                        if not st.ge(a, add(b, n)) and not st.ge(b, add(a, n)):
                            raise Bug("overlap", "non-overlapping copy with overlapping ranges")
        segs = self.elems(st, src, n, ty)
        if segs is None:
            raise Unsupported("copy of arrays")
        if not isinstance(dst, P):
            raise Unsupported("copy to %r" % (dst,))
        if dst.obj is None:
            if st.eq(n, 0):
                return
            raise Bug("wild", "memory write through an address that points to no storage")
        v = self.load(st, dst.obj, dst.path)
        if isinstance(v, Raw):
            self.retype(st, dst.obj, es)
            v = st.objs[dst.obj]
        if isinstance(v, Arr):
            if v.es != es:
                self.reinterp(st, dst, v, es)
                v = st.objs[dst.obj]
            i = divexact(st.norm(dst.off), es)
            if i is None:
                raise Unsupported("unaligned copy")
            if st.cons.entails_eq(n):
                return
            st.check_range(v, i, n, "copy to")
            self.store(st, dst.obj, dst.path, Arr(v.es, st.put(v.segs, i, segs, n)))
            return
        if st.eq(n, 0):
            return
        if st.eq(dst.off, 0) and st.eq(n, 1):
            self.store(st, dst.obj, dst.path, st.one(segs))
            return
        raise Bug("oob", "copy writes outside of the value")
