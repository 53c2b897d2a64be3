"""Hashing, comparisons and text."""
from atomics import *


# ---------------------------------------------------------------- hashing

def hlog(st, k, x):
    s2 = st.copy()
    s2.ghost["log", k] = s2.ghost.get(("log", k), ()) + (x,)
    return s2


@ghost("h_num")
def g_h_num(I, st, c, a, at, dty):
    return ret(hlog(st, a[0], ("num", a[1], unname(a[2]))), UNIT)


@ghost("h_bytes")
def g_h_bytes(I, st, c, a, at, dty):
    p = a[1]
    if isinstance(p, P) and p.obj and p.obj[0] == "tyname":
        return ret(hlog(st, a[0], ("name", p.obj[1])), UNIT)
    segs = tuple(segs_at(I, st, p, p.meta, I.u8())) if p.obj is not None else ()
    return ret(hlog(st, a[0], ("bytes",) + tuple(s for s in segs if not st.eq(s[-1], 0))), UNIT)


@ghost("h_tok")
def g_h_tok(I, st, c, a, at, dty):
    x = live_tok(I, st, a[1], "hash")
    return callback(I, st, "a hash panics", ret(hlog(st, a[0], ("tok", x)), UNIT))


def norm_deep(st, x):
    if isinstance(x, (int, Lin)) and not isinstance(x, bool):
        return st.norm(x)
    if isinstance(x, Tok):
        return ("tok", x.s, st.norm(x.i))
    if isinstance(x, tuple):
        return tuple(norm_deep(st, y) for y in x)
    return x


def same_deep(st, x, y):
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and not isinstance(x, bool) and not isinstance(y, bool):
        return st.eq(x, y)
    if isinstance(x, Tok) and isinstance(y, Tok):
        return x.s == y.s and st.eq(x.i, y.i)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_deep(st, p, q) for p, q in zip(x, y))
    return x == y


@ghost("e_log")
def g_e_log(I, st, c, a, at, dty):
    prop, what = pname(a[0]), pname(a[3])
    x, y = st.ghost.get(("log", a[1]), ()), st.ghost.get(("log", a[2]), ())
    if not same_deep(st, x, y):
        I.report(st, "claim", "%s: %s instead of %s" % (what, norm_deep(st, x), norm_deep(st, y)), (), prop)
        return ret(st, UNIT)
    done(I, st, prop, what)
    return ret(st, UNIT)


# ---------------------------------------------------------------- scopes

@ghost("asked")
def g_asked(I, st, c, a, at, dty):
    st.ghost["asked"] = a[0]
    return ret(st, UNIT)


@ghost("asked_last")
def g_asked_last(I, st, c, a, at, dty):
    return ret(st, st.ghost.get("asked", 1 << 20))


# ---------------------------------------------------------------- relations and formatting

@ghost("q_rel")
def g_q_rel(I, st, c, a, at, dty):
    x = live_tok(I, st, a[0], "comparison")
    y = live_tok(I, st, a[1], "comparison")
    kx, ky = (x.s, repr(st.norm(x.i))), (y.s, repr(st.norm(y.i)))
    flip = ky < kx
    k = ("rel",) + ((ky, kx) if flip else (kx, ky))
    r = st.ghost.get(k)
    if r is not None:
        return ret(st, (2, 1, 0, 3)[r] if flip else r)
    outs = []
    for r in ((1, 3) if kx == ky else (0, 1, 2, 3)):
        s2 = st.copy()
        s2.ghost[k] = (2, 1, 0, 3)[r] if flip else r
        outs.append(("ret", s2, r))
    return outs


@ghost("fmtr")
def g_fmtr(I, st, c, a, at, dty):
    o = ("fmtr", a[0])
    st.objs[o] = a[0]
    return ret(st, P(o))


@ghost("q_fmt")
def g_q_fmt(I, st, c, a, at, dty):
    f = a[0]
    if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr"):
        raise Unsupported("another formatter")
    x = live_tok(I, st, a[2], "formatting")
    outs = []
    for r in (True, False):
        k = ("fmterr", x.s, repr(st.norm(x.i)))
        if st.ghost.get(k, r) != r:
            continue
        s2 = hlog(st, f.obj[1], ("fmt", a[1], x, r) + f.obj[2:])
        s2.ghost[k] = r
        outs.append(("ret", s2, r))
    return outs


def fmt_whole(I, st, f, x):
    if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr"):
        raise Unsupported("another formatter")
    outs = []
    for r in (True, False):
        if st.ghost.get("fmtwhole", r) != r:
            continue
        s2 = hlog(st, f.obj[1], ("fmt", x, r) + f.obj[2:])
        s2.ghost["fmtwhole"] = r
        outs.append(("ret", s2, V(0, (UNIT,)) if r else V(1, (UNIT,))))
    return outs


@native("<[T] as std::fmt::Debug>::fmt", "<str as std::fmt::Debug>::fmt", "<str as std::fmt::Display>::fmt")
def n_slice_fmt(I, st, c, a, at, dty):
    p = a[0]
    if p.obj is None:
        segs = ()
    else:
        el = el_of(I, at[0])
        T = I.p.types[I.p.rep(el)]
        segs = tuple(s for s in segs_at(I, st, p, p.meta, T["el"] if T["k"] == "slice" else I.u8() if T["k"] == "str" else el) if not st.eq(s[-1], 0))
    return fmt_whole(I, st, a[1], (npath(c.get("path", "")), "slice") + segs)


@native("<*const T as std::fmt::Pointer>::fmt", "<*mut T as std::fmt::Pointer>::fmt", "<&T as std::fmt::Pointer>::fmt")
def n_ptr_fmt(I, st, c, a, at, dty):
    p = I.load(st, a[0].obj, a[0].path)
    return fmt_whole(I, st, a[1], ("pointer", p))


# ---------------------------------------------------------------- write!, format_args!

@native("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst")
def n_args_str(I, st, c, a, at, dty):
    return ret(st, ("fargs", a[0], None))


@native("std::fmt::Arguments::new")
def n_args_new(I, st, c, a, at, dty):
    return ret(st, ("fargs", a[0], a[1]))


def literal(I, st, p):
    if isinstance(p, P) and p.obj and p.obj[0] == "str":
        return p.obj[1].encode()
    x = I.load(st, p.obj, p.path)
    out = []
    for s in x.segs if isinstance(x, Arr) else ():
        n = st.norm(s[-1])
        if s[0] != "V" or not isinstance(s[1], int) or not isinstance(n, int):
            raise Unsupported("format template")
        out += [s[1]] * n
    return bytes(out)


def template(b):
    """Pieces of a compiled format string: a text, or the options and the index of a value."""
    i, nx, out = 0, 0, []
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            return out
        if x < 0x80:
            out.append(b[i:i + x])
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n])
            i += 2 + n
        elif x >= 0xC0:
            o = []
            for bit, n in ((1, 4), (2, 2), (4, 2)):
                if x & bit:
                    o.append((bit, b[i:i + n]))
                    i += n
            if x & 8:
                nx = b[i] | b[i + 1] << 8
                i += 2
            if x & 0x30:
                raise Unsupported("computed width")
            out.append((tuple(o), nx))
            nx += 1
        else:
            raise Unsupported("format template")
    raise Unsupported("format template")


def put(I, st, f, text):
    """Writing a text succeeds or fails."""
    outs = []
    for r in (True, False):
        k = ("fmterr", text)
        if st.ghost.get(k, r) != r:
            continue
        s2 = hlog(st, f.obj[1], ("text", text, r))
        s2.ghost[k] = r
        outs.append(("ret", s2, V(0, (UNIT,)) if r else V(1, (UNIT,))))
    return outs


@native("std::fmt::Formatter::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def n_fmt_str(I, st, c, a, at, dty):
    f = a[0]
    if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr"):
        raise Unsupported("call of write_str")
    if a[1].obj and a[1].obj[0] == "str":
        return put(I, st, f, literal(I, st, a[1]))
    if a[1].obj is not None and a[1].obj[0] == "tyname":
        raise Unsupported("call of write_str")
    if st.ghost.get(("fopt", "width")) == V(0, ()) == st.ghost.get(("fopt", "precision")):
        return n_fmt_pad(I, st, c, a, at, dty)
    # The text without the options of the formatter
    return fmt_whole(I, st, f, ("write_str", "slice") + text_segs(I, st, a[1]))


def text_segs(I, st, p):
    return () if p.obj is None else tuple(s for s in segs_at(I, st, p, p.meta, I.u8()) if not st.eq(s[-1], 0))


@native("std::fmt::Formatter::pad")
def n_fmt_pad(I, st, c, a, at, dty):
    """Printing a text."""
    if a[1].obj and a[1].obj[0] in ("str", "tyname"):
        raise Unsupported("padding of a literal")
    return fmt_whole(I, st, a[0], ("<str as std::fmt::Display>::fmt", "slice") + text_segs(I, st, a[1]))


@native("std::fmt::Formatter::debug_list")
def n_debug_list(I, st, c, a, at, dty):
    f = a[0]
    if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr") or ("dlist", f.obj) in st.ghost:
        raise Unsupported("another formatter")
    s2 = st.copy()
    s2.ghost["dlist", f.obj] = ()
    return ret(s2, S((f,)))


@native("std::fmt::DebugList::entries")
def n_debug_entries(I, st, c, a, at, dty):
    """Entries that are the elements of a slice."""
    f = I.load(st, a[0].obj, a[0].path)
    T = I.p.types[I.p.rep(at[1])]
    if not isinstance(f, S) or not isinstance(f.f[0], P) or st.ghost.get(("dlist", f.f[0].obj)) != ():
        raise Unsupported("list of entries")
    x = a[1]
    if T["k"] == "ref" and I.p.types[T["el"]]["k"] == "slice":
        p, n, el = x, x.meta, I.p.types[T["el"]]["el"]
    elif T["k"] == "adt" and T["path"].endswith("slice::Iter") and isinstance(x, S) and len(x.f) >= 2 and isinstance(x.f[0], P) and isinstance(x.f[1], P):
        p, e = x.f[:2]
        el = el_of(I, T["args"][-1]) if isinstance(T.get("args", [None])[-1], str) else T["args"][-1]
        z = I.p.size(el)
        n = divexact(st.norm(sub(e.off, p.off)), z) if z and p.obj == e.obj and p.path == e.path else None
        if n is None:
            raise Unsupported("list of entries")
    else:
        raise Unsupported("list of entries of %s" % T["name"])
    segs = () if p.obj is None or st.eq(n, 0) else tuple(s for s in segs_at(I, st, p, n, el) if not st.eq(s[-1], 0))
    s2 = st.copy()
    s2.ghost["dlist", f.f[0].obj] = (segs,)
    return ret(s2, a[0])


@native("std::fmt::DebugList::finish")
def n_debug_finish(I, st, c, a, at, dty):
    f = I.load(st, a[0].obj, a[0].path)
    if not isinstance(f, S) or not isinstance(f.f[0], P):
        raise Unsupported("list of entries")
    l = st.ghost.get(("dlist", f.f[0].obj))
    if l is None:
        raise Unsupported("list of entries")
    s2 = st.copy()
    del s2.ghost["dlist", f.f[0].obj]
    return fmt_whole(I, s2, f.f[0], ("<[T] as std::fmt::Debug>::fmt", "slice") + (l[0] if l else ()))


def fopt(name, values):
    @native("std::fmt::Formatter::" + name)
    def n_fmt_option(I, st, c, a, at, dty):
        """Option of the formatter: any, but always the same."""
        f = a[0]
        if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr"):
            raise Unsupported("another formatter")
        if f.obj[2:]:
            raise Unsupported("option of a formatter of a template")
        k, outs = ("fopt", name), []
        if k in st.ghost:
            return ret(st, st.ghost[k])
        for v in values:
            s2 = st.copy()
            s2.ghost[k] = V(1, (I.fresh(s2, name, 0, 1 << 16),)) if v is any else v
            outs.append(("ret", s2, s2.ghost[k]))
        return outs


for _n in ("alternate", "sign_plus", "sign_minus", "sign_aware_zero_pad"):
    fopt(_n, (True, False))
for _n in ("width", "precision"):
    fopt(_n, (V(0, ()), any))


@native("std::fmt::Formatter::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def n_write_fmt(I, st, c, a, at, dty):
    f, x = a
    if not (isinstance(f, P) and f.obj and f.obj[0] == "fmtr") or not (isinstance(x, tuple) and x and x[0] == "fargs"):
        raise Unsupported("call of write_fmt")
    if x[2] is None:
        return put(I, st, f, literal(I, st, x[1]))
    arr = I.load(st, x[2].obj, x[2].path)
    vals = []
    for s in arr.segs:
        n = st.norm(s[-1])
        if s[0] != "V" or not isinstance(s[1], (S, V)) or not isinstance(n, int):
            raise Unsupported("format arguments")
        vals += [s[1]] * n
    states, outs = [st], []
    for piece in template(literal(I, st, x[1])):
        nxt = []
        for s in states:
            if isinstance(piece, bytes):
                rs = put(I, s, f, piece)
            else:
                v = vals[piece[1]]
                while isinstance(v, S):
                    v = v.f[0]
                if not isinstance(v, V) or v.v != 0:
                    raise Unsupported("format argument %r" % (v,))
                value, fn = v.f[0], v.f[1]
                while isinstance(value, (S, V)):
                    value = value.f[0]
                o = ("fmtr", f.obj[1], piece[0])
                s2 = s.copy()
                s2.objs[o] = f.obj[1]
                rs = I.call_value(s2, fn, [value, P(o)], dty)
            for kind, s3, r in rs:
                if kind == "ret" and isinstance(r, V) and r.v == 0:
                    nxt.append(s3)
                elif kind == "ret" and not isinstance(r, V):
                    raise Unsupported("result of formatting")
                else:
                    outs.append((kind, s3, r))
        states = nxt
    return outs + [("ret", s, V(0, (UNIT,))) for s in states]
