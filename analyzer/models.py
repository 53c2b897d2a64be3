"""Meaning of the functions that are not interpreted: intrinsics, a few basic operations of the
standard library, and the ghost vocabulary of the probe."""
from interp import *

IMAX = (1 << 63) - 1


def ret(st, v):
    return [("ret", st, v)]


# ---------------------------------------------------------------- pointers and memory

@native("std::ptr::read", "std::ptr::{p}::read", "std::intrinsics::read_via_copy", "std::ptr::read_volatile", "std::ptr::NonNull::read")
def n_read(I, st, c, a, at, dty):
    obj, path = I.place_at(st, a[0], dty)
    return ret(st, I.load_ty(st, obj, path, dty))


@native("std::ptr::write", "std::ptr::{p}::write", "std::intrinsics::write_via_move", "std::ptr::NonNull::write")
def n_write(I, st, c, a, at, dty):
    ty = at[1]
    if I.p.zst(ty):
        return ret(st, UNIT)
    obj, path = I.place_at(st, a[0], ty)
    I.store(st, obj, path, a[1])
    return ret(st, UNIT)


def el_of(I, t):
    return I.p.types[I.p.rep(t)]["el"]


@native("std::ptr::copy", "std::intrinsics::copy")
def n_copy(I, st, c, a, at, dty):
    I.copy(st, a[0], a[1], a[2], el_of(I, at[0]), False)
    return ret(st, UNIT)


@native("std::ptr::copy_nonoverlapping", "std::intrinsics::copy_nonoverlapping", "std::ptr::{p}::copy_to_nonoverlapping")
def n_copyn(I, st, c, a, at, dty):
    I.copy(st, a[0], a[1], a[2], el_of(I, at[0]), True)
    return ret(st, UNIT)


@native("std::ptr::{p}::copy_to")
def n_copy_to(I, st, c, a, at, dty):
    I.copy(st, a[0], a[1], a[2], el_of(I, at[0]), False)
    return ret(st, UNIT)


@native("std::ptr::{p}::copy_from")
def n_copy_from(I, st, c, a, at, dty):
    I.copy(st, a[1], a[0], a[2], el_of(I, at[0]), False)
    return ret(st, UNIT)


@native("std::ptr::{p}::copy_from_nonoverlapping")
def n_copyn_from(I, st, c, a, at, dty):
    I.copy(st, a[1], a[0], a[2], el_of(I, at[0]), True)
    return ret(st, UNIT)


@native("std::mem::size_of", "std::intrinsics::size_of")
def n_size_of(I, st, c, a, at, dty):
    return ret(st, I.p.size(c["args"][0]))


@native("std::mem::align_of", "std::intrinsics::min_align_of", "std::intrinsics::align_of")
def n_align_of(I, st, c, a, at, dty):
    return ret(st, I.p.align(c["args"][0]))


@native("std::mem::needs_drop", "std::intrinsics::needs_drop")
def n_needs_drop(I, st, c, a, at, dty):
    return ret(st, bool(I.p.types[c["args"][0]]["nd"]))


def size_align_val(I, st, ty, p):
    T = I.p.types[I.p.rep(ty)]
    if T["k"] == "slice":
        return I.mul(st, p.meta, I.p.size(T["el"])), I.p.align(T["el"])
    if T["k"] == "str":
        return p.meta, 1
    if T["k"] == "dyn":
        if not isinstance(p.meta, tuple):
            raise Unsupported("size of dyn")
        return I.p.size(p.meta[1]), I.p.align(p.meta[1])
    T0 = I.p.types[ty]
    if I.unsized_tail(ty):
        # struct with an unsized tail: sizes of the fields
        size, al = 0, 1
        fs = I.p.fields(ty)
        for f in fs[:-1]:
            size = add(size, I.p.size(f))
            al = max(al, I.p.align(f))
        s, al2 = size_align_val(I, st, fs[-1], p)
        if isinstance(size, int):
            size = (size + al2 - 1) // al2 * al2
        al = max(al, al2)
        size = add(size, s)
        if isinstance(size, int):
            size = (size + al - 1) // al * al
        else:
            size = scale(I.quot(st, add(size, al - 1), al), al)
        return size, al
    return I.p.size(ty), I.p.align(ty)


@native("std::mem::size_of_val", "std::intrinsics::size_of_val", "std::mem::size_of_val_raw")
def n_size_of_val(I, st, c, a, at, dty):
    return ret(st, size_align_val(I, st, c["args"][0], a[0])[0])


@native("std::mem::align_of_val", "std::intrinsics::align_of_val", "std::intrinsics::min_align_of_val")
def n_align_of_val(I, st, c, a, at, dty):
    return ret(st, size_align_val(I, st, c["args"][0], a[0])[1])


@native("std::mem::swap", "std::ptr::swap", "std::intrinsics::typed_swap_nonoverlapping", "std::ptr::{p}::swap")
def n_swap(I, st, c, a, at, dty):
    ty = el_of(I, at[0])
    if I.p.zst(ty):
        return ret(st, UNIT)
    o1, p1 = I.place_at(st, a[0], ty)
    o2, p2 = I.place_at(st, a[1], ty)
    v1, v2 = I.load(st, o1, p1), I.load(st, o2, p2)
    objs = dict(st.objs)
    try:
        I.store(st, o1, p1, v2)
        I.store(st, o2, p2, v1)
    except Fork:
        st.objs = objs
        raise
    return ret(st, UNIT)


@native("std::mem::replace", "std::ptr::replace", "std::ptr::{p}::replace")
def n_replace(I, st, c, a, at, dty):
    if I.p.zst(dty):
        return ret(st, a[1])
    o, p = I.place_at(st, a[0], dty)
    v = I.load(st, o, p)
    I.store(st, o, p, a[1])
    return ret(st, v)


@native("std::mem::forget", "std::intrinsics::forget")
def n_forget(I, st, c, a, at, dty):
    return ret(st, UNIT)


@native("std::mem::transmute_copy")
def n_transmute_copy(I, st, c, a, at, dty):
    src = c["args"][0]
    o, p = I.place_at(st, a[0], src)
    v = I.load_ty(st, o, p, src)
    if I.p.size(src) == I.p.size(dty):
        return ret(st, I.transmute(st, v, src, dty))
    # prefix of a wide pointer and the like
    if isinstance(v, P) and I.p.types[I.p.rep(dty)]["k"] in ("ref", "ptr"):
        return ret(st, P(v.obj, v.path, v.off, None))
    raise Unsupported("transmute_copy to a different size")


@native("std::ptr::{p}::add", "std::ptr::NonNull::add")
def n_padd(I, st, c, a, at, dty):
    return ret(st, I.offset(st, a[0], a[1], I.p.size(el_of(I, at[0]))))


@native("std::ptr::{p}::sub", "std::ptr::NonNull::sub")
def n_psub(I, st, c, a, at, dty):
    return ret(st, I.offset(st, a[0], neg(a[1]), I.p.size(el_of(I, at[0]))))


@native("std::ptr::{p}::offset", "std::intrinsics::offset", "std::intrinsics::arith_offset", "std::ptr::{p}::wrapping_add", "std::ptr::{p}::wrapping_offset")
def n_poff(I, st, c, a, at, dty):
    return ret(st, I.offset(st, a[0], a[1], I.p.size(el_of(I, at[0]))))


@native("std::ptr::{p}::wrapping_sub")
def n_pwsub(I, st, c, a, at, dty):
    return ret(st, I.offset(st, a[0], neg(a[1]), I.p.size(el_of(I, at[0]))))


@native("std::ptr::{p}::offset_from", "std::ptr::{p}::offset_from_unsigned", "std::ptr::{p}::sub_ptr", "std::intrinsics::ptr_offset_from", "std::intrinsics::ptr_offset_from_unsigned")
def n_pdiff(I, st, c, a, at, dty):
    p, q = a[0], a[1]
    if isinstance(p, P) and isinstance(q, P) and p.obj == q.obj and p.path == q.path:
        d = divexact(st.norm(sub(p.off, q.off)), I.p.size(el_of(I, at[0])))
        if d is not None:
            return ret(st, d)
    raise Unsupported("pointer distance")


@native("std::ptr::{p}::is_null", "std::ptr::{ps}::is_null")
def n_is_null(I, st, c, a, at, dty):
    p = a[0]
    if p is U:
        raise Bug("uninit", "an uninitialised pointer is used")
    if not isinstance(p, P):
        raise Unsupported("null test of %r" % (p,))
    if p.obj is not None:
        return ret(st, False)
    return ret(st, I.cmp("Eq", st.norm(p.off), 0))


@native("std::ptr::NonNull::new_unchecked")
def n_nn_new(I, st, c, a, at, dty):
    p = a[0]
    if isinstance(p, P) and p.obj is None and st.eq(p.off, 0):
        raise Bug("null", "a null pointer is declared to be non-null")
    return ret(st, p)


@native("std::ptr::drop_in_place", "std::ptr::{p}::drop_in_place", "std::ptr::{ps}::drop_in_place", "std::ptr::NonNull::drop_in_place")
def n_dip(I, st, c, a, at, dty):
    return I.drop_ptr(st, a[0], el_of(I, at[0]))


@native("std::mem::drop")
def n_drop(I, st, c, a, at, dty):
    ty = at[0]
    if not I.p.types[ty]["nd"]:
        return ret(st, UNIT)
    o = I.newobj(st, a[0], "tmp")
    return I.after_drop(st, o, ty, "ret", UNIT)


@native("std::mem::ManuallyDrop::drop")
def n_mddrop(I, st, c, a, at, dty):
    ty = c["args"][0]
    return I.drop_ptr(st, a[0], ty)


@native("std::intrinsics::write_bytes", "std::ptr::write_bytes", "std::ptr::{p}::write_bytes")
def n_write_bytes(I, st, c, a, at, dty):
    ty = el_of(I, at[0])
    if I.p.zst(ty):
        return ret(st, UNIT)
    n = st.norm(a[2])
    p = a[0]
    es = I.p.size(ty)
    if p.obj is None:
        if st.eq(n, 0):
            return ret(st, UNIT)
        raise Bug("wild", "memory write through an address that points to no storage")
    v = I.load(st, p.obj, p.path)
    if isinstance(v, Raw):
        I.retype(st, p.obj, es)
        v = st.objs[p.obj]
    if not isinstance(v, Arr):
        if es == I.p.size(ty) and st.eq(n, 1):
            I.store(st, p.obj, p.path, U)
            return ret(st, UNIT)
        raise Unsupported("fill of %r" % (v,))
    i = divexact(st.norm(p.off), es)
    if i is None or v.es != es:
        raise Unsupported("unaligned fill")
    st.check_range(v, i, n, "write")
    k = ("V", a[1], n) if es == 1 else ("U", n)
    I.store(st, p.obj, p.path, Arr(es, st.put(v.segs, i, [k], n)))
    return ret(st, UNIT)


@native("std::ptr::NonNull::dangling", "std::ptr::dangling", "std::ptr::dangling_mut")
def n_dangling(I, st, c, a, at, dty):
    return ret(st, P(None, (), I.p.align(c["args"][0])))


@native("std::mem::Alignment::of", "std::ptr::Alignment::of")
def n_al_of(I, st, c, a, at, dty):
    return ret(st, I.p.align(c["args"][0]))


@native("std::any::type_name", "std::intrinsics::type_name", "std::any::type_name_of_val")
def n_type_name(I, st, c, a, at, dty):
    # The text of a name is known by the type; its address is another one at every place that asks
    # for it. Lengths of names are arbitrary.
    t = I.p.types[c["args"][0]]["name"]
    k = st.ghost.get("nname", 0)
    st.ghost["nname"] = k + 1
    if "nm::" in t:
        # Types whose names are looked at byte by byte.
        t = t.replace("nm::", "probe::nm::")
        return ret(st, P(("str", t, k), (), 0, len(t)))
    n = st.memo.get(("nlen", t))
    if n is None:
        n = st.memo["nlen", t] = I.fresh(st, "_nlen", 1, 4096)
    return ret(st, P(("tyname", t, k), (), 0, n))


def unname(v):
    """The value with names reduced to their text."""
    if isinstance(v, P) and v.obj and v.obj[0] == "tyname":
        return P(v.obj[:2], v.path, v.off, None)
    if isinstance(v, S):
        return S(tuple(unname(x) for x in v.f))
    if isinstance(v, V):
        return V(v.v, tuple(unname(x) for x in v.f))
    return v


def name_eq(st, a, b):
    """Whether two texts are equal, when they are names."""
    if isinstance(a, P) and isinstance(b, P) and a.obj and b.obj and a.obj[0] == "tyname" == b.obj[0] and a.off == 0 == b.off:
        return a.obj[1] == b.obj[1]
    return None


@native("<str as std::cmp::PartialEq>::eq", "std::str::traits::<impl std::cmp::PartialEq for str>::eq")
def n_str_eq(I, st, c, a, at, dty):
    r = name_eq(st, a[0], a[1])
    if r is None:
        return NotImplemented
    return ret(st, r)


@native("std::intrinsics::compare_bytes")
def n_compare_bytes(I, st, c, a, at, dty):
    n = st.norm(a[2])
    r = name_eq(st, a[0], a[1])
    if r is not None:
        k = I.p and st.memo.get(("nlen", a[0].obj[1]))
        if r and k is not None and st.ge(k, n):
            return ret(st, 0)
        if not r and k is not None and st.eq(n, k):
            return ret(st, 1)
    x, y = text_of(st, a[0], n), text_of(st, a[1], n)
    if (x is None) != (y is None):
        x, y = x or known_bytes(I, st, a[0], n), y or known_bytes(I, st, a[1], n)
    if x is not None and y is not None:
        return ret(st, -1 if x < y else 1 if x > y else 0)
    return TEXT[2](I, st, a, n)


def known_bytes(I, st, p, n):
    """Bytes of storage that holds constants only."""
    if not isinstance(p, P) or not p.obj or p.obj[0] == "tyname" or type(n) is not int or n > 4096:
        return None
    out = b""
    for s in segs_at(I, st, p, n, I.u8()):
        if s[0] != "V" or type(s[1]) is not int or type(s[2]) is not int:
            return None
        out += bytes([s[1]]) * s[2]
    return out


def text_of(st, p, n=None):
    """Bytes of a text constant."""
    if isinstance(p, P) and p.obj is None and st.norm(n if n is not None else p.meta) == 0:
        return b""
    if not isinstance(p, P) or not p.obj or p.obj[0] != "str" or p.path:
        return None
    o, n = st.norm(p.off), st.norm(p.meta if n is None else n)
    b = p.obj[1].encode()
    if type(o) is int and type(n) is int and 0 <= o and 0 <= n and o + n <= len(b):
        return b[o:o + n]
    return None


@intrinsic("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume")
def i_nop(I, st, c, a, at, dty):
    return ret(st, UNIT)


@native("std::intrinsics::assume")
def n_assume(I, st, c, a, at, dty):
    if not st.decide(a[0]):
        raise Bug("ub", "a promise of an unchecked operation does not hold")
    return ret(st, UNIT)


@native("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::black_box", "std::intrinsics::black_box", "std::hint::must_use")
def n_id(I, st, c, a, at, dty):
    return ret(st, a[0])


@native("std::intrinsics::abort", "std::process::abort")
def n_abort(I, st, c, a, at, dty):
    return [("abort", st, None)]


@intrinsic("ctpop")
def i_ctpop(I, st, c, a, at, dty):
    if isinstance(a[0], int):
        return ret(st, bin(a[0]).count("1"))
    raise Unsupported("population count")


@intrinsic("saturating_sub", "saturating_add")
def i_sat(I, st, c, a, at, dty):
    T = I.p.types[dty]
    e = (add if c["name"] == "saturating_add" else sub)(a[0], a[1])
    hi = (1 << T["bits"]) - 1
    if T["signed"]:
        raise Unsupported("signed saturation")
    if c["name"] == "saturating_add":
        return ret(st, e if st.ge(hi, e) else hi)
    return ret(st, e if st.ge(e, 0) else 0)


@intrinsic("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "add_with_overflow", "sub_with_overflow", "mul_with_overflow", "exact_div", "unchecked_div", "unchecked_rem", "unchecked_shl", "unchecked_shr")
def i_arith(I, st, c, a, at, dty):
    n = c["name"]
    op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "unchecked_add": "AddUnchecked", "unchecked_sub": "SubUnchecked", "unchecked_mul": "MulUnchecked", "add_with_overflow": "AddWithOverflow", "sub_with_overflow": "SubWithOverflow", "mul_with_overflow": "MulWithOverflow", "exact_div": "Div", "unchecked_div": "Div", "unchecked_rem": "Rem", "unchecked_shl": "Shl", "unchecked_shr": "Shr"}[n]
    return ret(st, I.binop(st, op, a[0], a[1], at[0]))


@intrinsic("integer_min")
def i_min(I, st, c, a, at, dty):
    return ret(st, a[0] if st.ge(a[1], a[0]) else a[1])


@intrinsic("integer_max")
def i_max(I, st, c, a, at, dty):
    return ret(st, a[1] if st.ge(a[1], a[0]) else a[0])


@native("std::cmp::Ord::min", "std::cmp::min")
def n_min(I, st, c, a, at, dty):
    if isinstance(a[0], (int, Lin)) and isinstance(a[1], (int, Lin)):
        return ret(st, a[0] if st.ge(a[1], a[0]) else a[1])
    return NotImplemented


@native("std::cmp::Ord::max", "std::cmp::max")
def n_max(I, st, c, a, at, dty):
    if isinstance(a[0], (int, Lin)) and isinstance(a[1], (int, Lin)):
        return ret(st, a[1] if st.ge(a[1], a[0]) else a[0])
    return NotImplemented


# ---------------------------------------------------------------- ghost: numbers and sources

@ghost("any")
def g_any(I, st, c, a, at, dty):
    k = st.ghost.get("nany", 0)
    st.ghost["nany"] = k + 1
    return ret(st, I.fresh(st, "x%d" % k))


@ghost("named")
def g_named(I, st, c, a, at, dty):
    return ret(st, I.fresh(st, a[0].obj[1]))


@ghost("any_bool")
def g_any_bool(I, st, c, a, at, dty):
    return [("ret", st.copy(), True), ("ret", st, False)]


@ghost("assume")
def g_assume(I, st, c, a, at, dty):
    v = a[0]
    if isinstance(v, Cond) and v.k in ("ge", "eq"):
        if not st.assume([(v.k, v.e)]):
            raise Dead()
        return ret(st, UNIT)
    if not st.decide(v):
        raise Dead()
    return ret(st, UNIT)


SRC = "abcdefghijklmnopqrstuvwxyz"


@ghost("src")
def g_src(I, st, c, a, at, dty):
    k = st.ghost.get("nsrc", 0)
    st.ghost["nsrc"] = k + 1
    st.created = st.created + ((SRC[k], 0, a[0]),)
    if a[0] == 1:
        st.ghost["single", SRC[k]] = True
    return ret(st, k)


@ghost("fill")
def g_fill(I, st, c, a, at, dty):
    p, k, start, n = a
    es = I.p.size(el_of(I, at[0]))
    if p.obj is None:
        if st.eq(n, 0):
            return ret(st, UNIT)
        raise Bug("wild", "storage of the container points nowhere")
    v = I.load(st, p.obj, p.path)
    if isinstance(v, Raw):
        I.retype(st, p.obj, es)
        v = st.objs[p.obj]
    if not isinstance(v, Arr):
        I.store(st, p.obj, p.path, Tok(SRC[k], start))
        return ret(st, UNIT)
    i = divexact(st.norm(p.off), es)
    st.check_range(v, i, n, "write")
    I.store(st, p.obj, p.path, Arr(v.es, st.put(v.segs, i, [("R", SRC[k], start, n)], n)))
    return ret(st, UNIT)


@ghost("tok")
def g_tok(I, st, c, a, at, dty):
    return ret(st, Tok(SRC[a[0]], a[1]))


def segs_at(I, st, p, n, ty):
    if not isinstance(p, P):
        raise Unsupported("slice pointer %r" % (p,))
    r = I.elems(st, p, n, ty)
    if r is None:
        raise Unsupported("slice")
    return st.clean(r)


@ghost("take")
def g_take(I, st, c, a, at, dty):
    if a[0] is U:
        raise Bug("uninit", "an uninitialised value is handed out")
    if not isinstance(a[0], Tok):
        raise Unsupported("take %r" % (a[0],))
    st2 = st.copy()
    st2.give_run((a[0].s, a[0].i, 1))
    return ret(st2, UNIT)


@ghost("take_slice")
def g_take_slice(I, st, c, a, at, dty):
    segs = segs_at(I, st, a[0], a[1], el_of(I, at[0]))
    st2 = st.copy()
    for s in segs:
        if s[0] == "R":
            st2.give_run(s[1:])
        elif s[0] == "U":
            if not st.ge(0, s[-1]):
                raise Bug("uninit", "uninitialised values are handed out")
        else:
            raise Unsupported("take of %r" % (s,))
    return ret(st2, UNIT)


# ---------------------------------------------------------------- ghost: expectations

def pname(p):
    return p.obj[1]


def done(I, st, prop, what):
    I.prove(prop, what)


@ghost("e_new")
def g_e_new(I, st, c, a, at, dty):
    st.exp = ()
    return ret(st, UNIT)


def sname(k):
    return {100: "gen", 101: "it"}.get(k) or SRC[k]


@ghost("e_run")
def g_e_run(I, st, c, a, at, dty):
    st.exp = st.exp + (("R", sname(a[0]), a[1], a[2]),)
    return ret(st, UNIT)


@ghost("e_clone")
def g_e_clone(I, st, c, a, at, dty):
    st.exp = st.exp + (("C", sname(a[0]), a[1], a[2]),)
    return ret(st, UNIT)


@ghost("e_kept")
def g_e_kept(I, st, c, a, at, dty):
    if user_panicked(st):
        return ret(st, UNIT)
    ev = [e for e in st.events if e[0] == "pred"]
    s, pos = sname(a[0]), 0
    exp = ()
    for _, t, i, n, r in ev:
        if t != s or not st.eq(i, add(a[1], pos)):
            raise Bug("list", "call %s of the predicate is for %r" % (show(st.norm(pos)), Tok(t, st.norm(i))))
        if r:
            exp += (("R", s, i, n),)
        pos = add(pos, n)
    if not st.eq(a[2], pos):
        raise Bug("list", "the predicate was called %s times for %s values" % (show(st.norm(pos)), show(st.norm(a[2]))))
    st.exp = st.exp + exp
    return ret(st, UNIT)


@ghost("e_dedup")
def g_e_dedup(I, st, c, a, at, dty):
    if user_panicked(st):
        return ret(st, UNIT)
    ev = [e for e in st.events if e[0] in ("eq", "same")]
    s = sname(a[0])
    if st.eq(a[2], 0):
        if ev:
            raise Bug("list", "values of an empty list are compared")
        return ret(st, UNIT)
    last, pos = a[1], 1
    exp = (("R", s, last, 1),)
    for _, xs, xi, ys, yi, n, dx, dy, r in ev:
        cur = add(a[1], pos)
        ok = xs == s and ys == s
        if ok:
            d = (1, 0 if r else 1)
            if st.eq(xi, cur) and st.eq(yi, last):
                ok = dx is None or (dx, dy) == d
            elif st.eq(yi, cur) and st.eq(xi, last):
                ok = dx is None or (dy, dx) == d
            else:
                ok = False
        if not ok:
            raise Bug("list", "comparison %s is between %r and %r%s" % (show(st.norm(sub(pos, 1))), Tok(xs, st.norm(xi)), Tok(ys, st.norm(yi)), "" if dx is None else " and so on (+%s, +%s)" % (dx, dy)))
        if not r:
            exp += (("R", s, cur, n),)
            last = add(cur, sub(n, 1))
        pos = add(pos, n)
    if not st.eq(a[2], pos):
        raise Bug("list", "there were %s comparisons for %s values" % (show(st.norm(sub(pos, 1))), show(st.norm(a[2]))))
    st.exp = st.exp + exp
    return ret(st, UNIT)


def called(st, kind, x, r):
    """Remember a call of the predicate; calls for consecutive values with the same result are one entry."""
    e = st.events[-1] if st.events else None
    if e is not None and e[0] == kind and e[1] == x.s and e[4] == r and st.norm(sub(add(e[2], e[3]), x.i)) == 0:
        st.events = st.events[:-1] + ((kind, x.s, e[2], add(e[3], 1), r),)
    else:
        st.events = st.events + ((kind, x.s, x.i, 1, r),)


def called2(st, kind, x, y, r):
    e = st.events[-1] if st.events else None
    if e is not None and e[0] == kind and e[1] == x.s and e[3] == y.s and e[8] == r:
        _, xs, xi, ys, yi, n, dx, dy, _ = e
        if dx is None:
            dx, dy = st.norm(sub(x.i, xi)), st.norm(sub(y.i, yi))
            if (dx, dy) in (((1, 0), (0, 1)) if r else ((1, 1),)):
                st.events = st.events[:-1] + ((kind, xs, xi, ys, yi, 2, dx, dy, r),)
                return
        elif st.norm(sub(add(xi, scale(n, dx)), x.i)) == 0 and st.norm(sub(add(yi, scale(n, dy)), y.i)) == 0:
            st.events = st.events[:-1] + ((kind, xs, xi, ys, yi, add(n, 1), dx, dy, r),)
            return
    st.events = st.events + ((kind, x.s, x.i, y.s, y.i, 1, None, None, r),)


def user_panicked(st):
    return bool(st.ghost.get("panicked")) or bool(st.ghost.get("failed"))


@ghost("e_byte")
def g_e_byte(I, st, c, a, at, dty):
    st.exp = st.exp + (("V", a[0], a[1]),)
    return ret(st, UNIT)


def base_src(s):
    return s.split("'")[0]


def compare(I, st, got, exp, prop, what):
    """Check that the memory segments are the expected list. Forks until decided."""
    got = list(st.clean(got))
    exp = [(s[:-1] + (st.norm(s[-1]),)) for s in exp]
    pos = 0
    while True:
        while exp and st.eq(exp[0][-1], 0):
            exp.pop(0)
        while got and st.eq(got[0][-1], 0):
            got.pop(0)
        if not exp or not got:
            break
        g, e = got[0], exp[0]
        if g[0] == "U":
            raise Bug("uninit", "%s: uninitialised slot %s where %s is expected" % (what, show(st.norm(pos)), showseg2(e)))
        ok = False
        if e[0] == "R" and g[0] == "R":
            ok = g[1] == e[1] and st.eq(g[2], e[2])
        elif e[0] == "C" and g[0] == "R":
            ok = base_src(g[1]) == e[1] and (st.ghost.get(("single", e[1])) or st.eq(g[2], e[2]))
        elif e[0] == "V" and g[0] == "V":
            ok = g[1] == e[1] or (isinstance(g[1], (int, Lin)) and isinstance(e[1], (int, Lin)) and st.eq(g[1], e[1]))
        elif g[0] == "J":
            raise Unsupported("unknown contents")
        if not ok:
            raise Bug("list", "%s: slot %s holds %s where %s is expected" % (what, show(st.norm(pos)), showseg2(g), showseg2(e)))
        if st.ge(g[-1], e[-1]):
            n = e[-1]
        else:
            n = g[-1]
        pos = add(pos, n)
        got[0] = adv(g, n)
        exp[0] = adv(e, n)
    if got:
        raise Bug("list", "%s: there are more elements than expected: %s" % (what, showseg2(got[0])))
    if exp:
        raise Bug("list", "%s: elements are missing: %s" % (what, showseg2(exp[0])))


def adv(s, n):
    if s[0] in ("R", "C"):
        return (s[0], s[1], add(s[2], n), sub(s[3], n))
    return s[:-1] + (sub(s[-1], n),)


def showseg2(s):
    if s[0] == "C":
        return "clones of %s[%s..+%s]" % (s[1], show(s[2]), show(s[3]))
    return showseg(s)


def tag(e, prop):
    e.prop = prop
    return e


@ghost("e_list", "e_slice")
def g_e_list(I, st, c, a, at, dty):
    prop = pname(a[0])
    segs = segs_at(I, st, a[1], a[2], el_of(I, at[1]))
    try:
        compare(I, st, segs, st.exp, prop, "contents")
        for s in segs:
            if s[0] == "R":
                st.use_run(s[1:], "exposure")
    except Bug as b:
        I.report(st, b.cls, b.msg, b.when, prop)
        return ret(st, UNIT)
    done(I, st, prop, "contents")
    return ret(st, UNIT)


@ghost("e_tok")
def g_e_tok(I, st, c, a, at, dty):
    prop = pname(a[0])
    segs = segs_at(I, st, a[1], 1, el_of(I, at[1]))
    try:
        compare(I, st, segs, (("R", sname(a[2]), a[3], 1),), prop, "value")
        for s in segs:
            if s[0] == "R":
                st.use_run(s[1:], "exposure")
    except Bug as b:
        I.report(st, b.cls, b.msg, b.when, prop)
        return ret(st, UNIT)
    done(I, st, prop, "value")
    return ret(st, UNIT)


@ghost("e_live")
def g_e_live(I, st, c, a, at, dty):
    prop = pname(a[0])
    segs = segs_at(I, st, a[1], a[2], el_of(I, at[1]))
    try:
        rs = []
        for s in segs:
            if s[0] == "U":
                if not st.ge(0, s[-1]):
                    raise Bug("uninit", "an uninitialised slot is part of the contents")
            elif s[0] == "R":
                st.use_run(s[1:], "exposure")
                for r in rs:
                    w = st.overlap(r, s[1:])
                    if w:
                        raise Bug("double", "value %s is in two slots" % showrun(s[1:]), *[("ge", e) for e in w])
                rs.append(s[1:])
            elif s[0] == "J":
                raise Unsupported("unknown contents")
    except Bug as b:
        I.report(st, b.cls, b.msg, b.when, prop)
        return ret(st, UNIT)
    done(I, st, prop, "live contents")
    return ret(st, UNIT)


@ghost("prove")
def g_prove(I, st, c, a, at, dty):
    prop, what = pname(a[0]), pname(a[2])
    try:
        ok = st.decide(a[1])
    except Bug as b:
        raise tag(b, prop)
    if not ok:
        I.report(st, "claim", "does not hold: " + what, (), prop)
        return ret(st, UNIT)
    done(I, st, prop, what)
    return ret(st, UNIT)


@ghost("e_eq")
def g_e_eq(I, st, c, a, at, dty):
    prop, what = pname(a[0]), pname(a[3])
    if a[1] is U or a[2] is U:
        I.report(st, "uninit", "uninitialised: " + what, (), prop)
        return ret(st, UNIT)
    if not st.eq(a[1], a[2]):
        I.report(st, "claim", "%s: %s instead of %s" % (what, show(st.norm(a[1])), show(st.norm(a[2]))), (), prop)
        return ret(st, UNIT)
    done(I, st, prop, what)
    return ret(st, UNIT)


# ---------------------------------------------------------------- ghost: callbacks

def callback(I, st, why, outs):
    """Outcomes of a callback, plus the one in which it panics."""
    if I.may_panic(st):
        outs = outs + [("unw", I.panic_copy(st, why), None)]
    return outs


def live_tok(I, st, p, what, need=True):
    ty = I.T
    segs = segs_at(I, st, p, 1, ty)
    v = st.one(segs) if segs else U
    if v is U:
        raise Bug("uninit", "%s is called on an uninitialised value" % what)
    if not isinstance(v, Tok):
        raise Unsupported("callback on %r" % (v,))
    st.use_run((v.s, v.i, 1), what)
    return v


@ghost("t_drop")
def g_t_drop(I, st, c, a, at, dty):
    raise Unsupported("direct drop")


@ghost("t_clone")
def g_t_clone(I, st, c, a, at, dty):
    v = live_tok(I, st, a[0], "clone")
    s2 = st.copy()
    b = base_src(v.s)
    if st.ghost.get(("single", b)):
        k = ("clones", b)
        i = s2.ghost.get(k, 0)
        s2.ghost[k] = add(i, 1)
        t = Tok(b + "'", i)
    else:
        nm = v.s + "'"
        while any(st.overlap((nm, v.i, 1), r) for r in st.created if r[0] == nm):
            nm += "'"
        t = Tok(nm, v.i)
    s2.created = merge_runs(s2, s2.created, (t.s, t.i, 1))
    s2.ghost["nclone"] = add(s2.ghost.get("nclone", 0), 1)
    return callback(I, st, "a clone panics", ret(s2, t))


def merge_runs(st, runs, r):
    out = []
    for q in runs:
        if q[0] == r[0] and st.norm(sub(add(q[1], q[2]), r[1])) == 0:
            r = (r[0], q[1], add(q[2], r[2]))
        else:
            out.append(q)
    return tuple(out) + (r,)


@ghost("t_eq", "t_ne")
def g_t_eq(I, st, c, a, at, dty):
    x = live_tok(I, st, a[0], "comparison")
    y = live_tok(I, st, a[1], "comparison")
    outs = []
    for r in (True, False):
        s2 = st.copy()
        called2(s2, "eq", x, y, r)
        outs.append(("ret", s2, r))
    return callback(I, st, "a comparison panics", outs)


@ghost("f_gen")
def g_f_gen(I, st, c, a, at, dty):
    s2 = st.copy()
    i = s2.ghost.get("ngen", 0)
    s2.ghost["ngen"] = add(i, 1)
    s2.created = merge_runs(s2, s2.created, ("gen", i, 1))
    return callback(I, st, "a closure panics", ret(s2, Tok("gen", i)))


@ghost("f_pred")
def g_f_pred(I, st, c, a, at, dty):
    x = live_tok(I, st, a[0], "predicate")
    outs = []
    for r in (True, False):
        s2 = st.copy()
        called(s2, "pred", x, r)
        outs.append(("ret", s2, r))
    return callback(I, st, "a predicate panics", outs)


@ghost("f_same")
def g_f_same(I, st, c, a, at, dty):
    x = live_tok(I, st, a[0], "comparison")
    y = live_tok(I, st, a[1], "comparison")
    outs = []
    for r in (True, False):
        s2 = st.copy()
        called2(s2, "same", x, y, r)
        outs.append(("ret", s2, r))
    return callback(I, st, "a comparison panics", outs)


@ghost("n_gen")
def g_n_gen(I, st, c, a, at, dty):
    return ret(st, st.ghost.get("ngen", 0))


@ghost("n_it")
def g_n_it(I, st, c, a, at, dty):
    return ret(st, st.ghost.get("nit", 0))


@ghost("it_next")
def g_it_next(I, st, c, a, at, dty):
    s1 = st.copy()
    i = s1.ghost.get("nit", 0)
    s1.ghost["nit"] = add(i, 1)
    s1.created = merge_runs(s1, s1.created, ("it", i, 1))
    outs = [("ret", s1, V(1, (Tok("it", i),))), ("ret", st.copy(), V(0))]
    return callback(I, st, "an iterator panics", outs)


@ghost("cb")
def g_cb(I, st, c, a, at, dty):
    return callback(I, st, "user code panics", ret(st.copy(), UNIT))


@ghost("f_key")
def g_f_key(I, st, c, a, at, dty):
    x = live_tok(I, st, a[0], "key function")
    return callback(I, st, "a key function panics", ret(st.copy(), ("keyof", x)))


@ghost("k_eq")
def g_k_eq(I, st, c, a, at, dty):
    if not all(isinstance(k, tuple) and k[0] == "keyof" for k in a[:2]):
        raise Unsupported("comparison of keys %r and %r" % (a[0], a[1]))
    x, y = a[0][1], a[1][1]
    outs = []
    for r in (True, False):
        s2 = st.copy()
        called2(s2, "same", x, y, r)
        outs.append(("ret", s2, r))
    return callback(I, st, "a comparison panics", outs)


@ghost("it_hint")
def g_it_hint(I, st, c, a, at, dty):
    return ret(st, I.fresh(st, "hint", 0, 1 << 40))


# ---------------------------------------------------------------- allocator

@ghost("alloc_for")
def g_alloc_for(I, st, c, a, at, dty):
    # selector: marker (by pointer) and type name
    mk_ = I.load(st, a[0].obj, a[0].path) if isinstance(a[0], P) else None
    # every request is answered with another allocator
    k = st.ghost.get("scope", 0)
    st.ghost["scope"] = k + 1
    st.ghost["sel", k] = (mk_, a[1])
    o = ("alloc", k)
    if o not in st.objs:
        st.objs[o] = k
    return ret(st, P(o))


@ghost("a_alloc")
def g_a_alloc(I, st, c, a, at, dty):
    aid, size, align = a
    size = st.norm(size)
    if st.eq(size, 0):
        raise Bug("zero", "an allocator is asked for zero bytes")
    if not st.ge(IMAX, size):
        raise Bug("toolarge", "an allocator is asked for %s bytes" % show(size))
    outs = []
    s2 = st.copy()
    o = ("h", I.nobj)
    I.nobj += 1
    s2.objs[o] = Raw(size)
    s2.heap[o] = (size, align, aid, "live")
    s2.ghost["nalloc"] = s2.ghost.get("nalloc", 0) + 1
    outs.append(("ret", s2, P(o)))
    if st.nulls < I.nnulls:
        s3 = st.copy()
        s3.nulls += 1
        s3.ghost["failed"] = True
        outs.append(("ret", s3, P(None, (), 0)))
    return outs


def check_block(I, st, aid, p, size, align, what):
    if not isinstance(p, P):
        raise Unsupported("%s of %r" % (what, p))
    if p.obj is None:
        raise Bug("foreign", "%s of memory that was never allocated" % what)
    h = st.heap.get(p.obj)
    if h is None:
        raise Bug("foreign", "%s of memory that was never allocated" % what)
    if h[3] != "live":
        raise Bug("double_free", "%s of a block that was already given back" % what)
    if p.path != () or not st.eq(p.off, 0):
        raise Bug("foreign", "%s of a pointer into the middle of a block" % what)
    if h[2] != aid:
        raise Bug("wrong_alloc", "%s through another allocator" % what)
    if not st.eq(h[0], size):
        raise Bug("layout", "%s with size %s of a block of size %s" % (what, show(st.norm(size)), show(st.norm(h[0]))))
    if h[1] != align:
        raise Bug("layout", "%s with alignment %s of a block of alignment %s" % (what, align, h[1]))
    return h


@ghost("a_dealloc")
def g_a_dealloc(I, st, c, a, at, dty):
    aid, p, size, align = a
    h = check_block(I, st, aid, p, size, align, "release")
    for f in ON_FREE:
        f(I, st, p.obj)
    st.heap[p.obj] = h[:3] + ("freed",)
    st.events = st.events + (("free", p.obj),)
    return ret(st, UNIT)


@ghost("a_realloc")
def g_a_realloc(I, st, c, a, at, dty):
    aid, p, size, align, new = a
    new = st.norm(new)
    h = check_block(I, st, aid, p, size, align, "resizing")
    if st.eq(new, 0):
        raise Bug("zero", "an allocator is asked for zero bytes")
    if not st.ge(IMAX, new):
        raise Bug("toolarge", "an allocator is asked for %s bytes" % show(new))
    v = st.objs[p.obj]
    grow = st.ge(new, h[0])
    if isinstance(v, Raw):
        nv = Raw(new)
    elif isinstance(v, Arr):
        n = divexact(new, v.es)
        if n is None:
            n = I.quot(st, new, v.es)
        if grow:
            nv = Arr(v.es, st.clean(list(v.segs) + [("U", sub(n, st.total(v.segs)))]))
        else:
            nv = Arr(v.es, st.sub(v.segs, 0, n))
    else:
        raise Unsupported("resizing of a block with a value")
    outs = []
    s2 = st.copy()
    o = ("h", I.nobj)
    I.nobj += 1
    s2.objs[o] = nv
    s2.heap[o] = (new, align, aid, "live")
    s2.heap[p.obj] = h[:3] + ("freed",)
    s2.ghost["nalloc"] = s2.ghost.get("nalloc", 0) + 1
    outs.append(("ret", s2, P(o)))
    if st.nulls < I.nnulls:
        s3 = st.copy()
        s3.nulls += 1
        s3.ghost["failed"] = True
        outs.append(("ret", s3, P(None, (), 0)))
    return outs


@ghost("e_sel")
def g_e_sel(I, st, c, a, at, dty):
    p, m, ty = a
    h = st.heap.get(p.obj) if isinstance(p, P) else None
    if h is None:
        I.report(st, "foreign", "the storage is no block of an allocator", (), "C08")
        return ret(st, UNIT)
    sel = st.ghost.get(("sel", h[2]))
    if sel is None:
        raise Unsupported("allocator without selection")
    want = I.load(st, m.obj, m.path)
    if unname(sel[0]) != unname(want):
        I.report(st, "marker", "the block was requested with marker %r instead of %r" % (sel[0], want), (), "C11")
        return ret(st, UNIT)
    if unname(sel[1]) != unname(ty):
        I.report(st, "marker", "the block was requested for type %s instead of %s" % (tname(I, sel[1]), tname(I, ty)), (), "C11")
        return ret(st, UNIT)
    done(I, st, "C11", "selector of the block")
    return ret(st, UNIT)


def tname(I, p):
    if isinstance(p, P) and p.obj and p.obj[0] == "tyname":
        return p.obj[1]
    return repr(p)


@ghost("e_marker")
def g_e_marker(I, st, c, a, at, dty):
    x, y = I.load(st, a[0].obj, a[0].path), I.load(st, a[1].obj, a[1].path)
    if unname(x) != unname(y):
        I.report(st, "marker", "the reported marker is %r instead of %r" % (x, y), (), "C11")
        return ret(st, UNIT)
    done(I, st, "C11", "reported marker")
    return ret(st, UNIT)


@ghost("block_size")
def g_block_size(I, st, c, a, at, dty):
    p = a[0]
    h = st.heap.get(p.obj) if isinstance(p, P) else None
    if h is None:
        return ret(st, 0)
    return ret(st, h[0])


@ghost("e_same")
def g_e_same(I, st, c, a, at, dty):
    prop, what = pname(a[0]), pname(a[3])
    r = I.ptr_eq(st, a[1], a[2])
    if not st.decide(r):
        I.report(st, "claim", "another address: " + what, (), prop)
        return ret(st, UNIT)
    done(I, st, prop, what)
    return ret(st, UNIT)


@ghost("keep_block")
def g_keep_block(I, st, c, a, at, dty):
    if a[0].obj is not None:
        st.ghost["keep", a[0].obj] = True
    return ret(st, UNIT)


@ghost("no_panic")
def g_no_panic(I, st, c, a, at, dty):
    st.ghost["nopanic"] = True
    return ret(st, UNIT)


@ghost("may_panic")
def g_may_panic(I, st, c, a, at, dty):
    st.ghost["nopanic"] = False
    return ret(st, UNIT)


@ghost("z_src")
def g_z_src(I, st, c, a, at, dty):
    st.ghost["zmade"] = add(st.ghost.get("zmade", 0), a[0])
    return ret(st, UNIT)


@ghost("z_take")
def g_z_take(I, st, c, a, at, dty):
    st.ghost["zdrop"] = add(st.ghost.get("zdrop", 0), a[0])
    return ret(st, UNIT)


@ghost("z_live")
def g_z_live(I, st, c, a, at, dty):
    return ret(st, sub(st.ghost.get("zmade", 0), st.ghost.get("zdrop", 0)))


@ghost("z_clone")
def g_z_clone(I, st, c, a, at, dty):
    s2 = st.copy()
    s2.ghost["zmade"] = add(s2.ghost.get("zmade", 0), 1)
    return callback(I, st, "a clone panics", ret(s2, Tok("z", 0)))


@ghost("nalloc")
def g_nalloc(I, st, c, a, at, dty):
    return ret(st, st.ghost.get("nalloc", 0))


@ghost("no_fail")
def g_no_fail(I, st, c, a, at, dty):
    st.nulls = 99
    return ret(st, UNIT)


@ghost("may_fail")
def g_may_fail(I, st, c, a, at, dty):
    st.nulls = 0
    return ret(st, UNIT)


@ghost("look")
def g_look(I, st, c, a, at, dty):
    """look(true) .. look(false): what happens between is an observation and not part of the history."""
    if a[0] is True:
        st.ghost["looked"] = (st.nulls, st.ghost.get("nalloc", 0), st.ghost.get("nopanic"))
        st.nulls = 99
        st.ghost["nopanic"] = True
    else:
        st.nulls, st.ghost["nalloc"], st.ghost["nopanic"] = st.ghost.pop("looked")
    return ret(st, UNIT)


@ghost("failed")
def g_failed(I, st, c, a, at, dty):
    return ret(st, bool(st.ghost.get("failed")))


@ghost("panicked")
def g_panicked(I, st, c, a, at, dty):
    return ret(st, bool(st.ghost.get("panicked")))


# ---------------------------------------------------------------- catch

@native("g::catch", "std::panic::catch_unwind")
def n_catch(I, st, c, a, at, dty):
    outs = []
    for kind, s, v in I.call_body(st, c["fn"], a):
        if kind == "unw":
            s.unwinding -= 1
            outs.append(("ret", s, True))
        else:
            outs.append((kind, s, v))
    return outs


# ---------------------------------------------------------------- repetition

def leaves(v, path=()):
    """Scalar leaves of a value with their places; everything else is compared as a whole."""
    if isinstance(v, (S, V)):
        for i, x in enumerate(v.f):
            for y in leaves(x, path + (i,)):
                yield y
        yield path, ("shape", type(v), v.v if isinstance(v, V) else None, len(v.f))
    elif isinstance(v, Arr):
        if all(s[0] == "V" for s in v.segs):
            for i, s in enumerate(v.segs):
                for y in leaves(s[1], path + (("seg", i),)):
                    yield y
            yield path, ("shape", v.es, tuple(s[2] for s in v.segs))
        else:
            yield path, v
    else:
        yield path, v


def put_leaf(v, path, x):
    if not path:
        return x
    k = path[0]
    if isinstance(k, tuple):
        s = v.segs[k[1]]
        return Arr(v.es, v.segs[:k[1]] + (("V", put_leaf(s[1], path[1:], x), s[2]),) + v.segs[k[1] + 1:])
    f = v.f[:k] + (put_leaf(v.f[k], path[1:], x),) + v.f[k + 1:]
    return S(f) if isinstance(v, S) else V(v.v, f)


def get_leaf(v, path):
    for k in path:
        v = v.segs[k[1]][1] if isinstance(k, tuple) else v.f[k]
    return v


def targets(v, out):
    if isinstance(v, P):
        out.add(v.obj)
    elif isinstance(v, (S, V)):
        for x in v.f:
            targets(x, out)
    elif isinstance(v, Arr):
        for s in v.segs:
            if s[0] == "V":
                targets(s[1], out)


def one_round(I, st, c, args):
    outs = [o for o in I.call_body(st, c["fn"], args)]
    if len(outs) != 1 or outs[0][0] != "ret":
        raise Unsupported("repeated step with %d outcomes" % len(outs))
    return outs[0][1]


def changes(I, s0, s1):
    """Places that differ between the states: (object, path) -> difference."""
    diff = {}
    fresh = set(o for o in s1.heap if o not in s0.heap)
    for o, v in s0.objs.items():
        if o not in s1.objs:
            raise Unsupported("repeated step that removes storage")
        w = s1.objs[o]
        if v is w or v == w:
            continue
        a, b = dict(leaves(v)), dict(leaves(w))
        if set(a) != set(b):
            raise Unsupported("repeated step that changes the shape of a value")
        for p in a:
            if a[p] == b[p]:
                continue
            if isinstance(a[p], (int, Lin)) and isinstance(b[p], (int, Lin)):
                d = s1.norm(sub(b[p], a[p]))
                if d == 0:
                    continue
                if isinstance(d, int):
                    diff[o, p] = d
                    continue
            raise Unsupported("repeated step with a change that is not linear")
    for o, h in s0.heap.items():
        if s1.heap.get(o) != h:
            raise Unsupported("repeated step that changes a block")
    if s0.created != s1.created or s0.dropped != s1.dropped or s0.given != s1.given:
        raise Unsupported("repeated step that changes the ledger")
    keep = set()
    for o, v in s1.objs.items():
        if o not in fresh and o in s0.objs:
            targets(v, keep)
    if keep & fresh:
        raise Unsupported("repeated step whose blocks stay in use")
    return diff, fresh


@native("g::rep")
def n_rep(I, st, c, a, at, dty):
    st0 = st.copy()
    try:
        return rep_uniform(I, st, c, a)
    except Unsupported as e:
        I.nosup("%s (only small numbers of repetitions are analysed)" % e)
    outs = []
    for m in range(3):
        s = st0.copy()
        if not s.assume([("eq", sub(a[0], m))]):
            continue
        nulls, np = s.nulls, s.ghost.get("nopanic")
        s.nulls, s.ghost["nopanic"] = 99, True
        I.newobj(s, a[1], "rep")
        work = [s]
        for j in range(m):
            work = [x for w in work for k, x, _ in I.call_body(w, c["fn"], [0, a[1]]) if k == "ret"][:8]
        for s in work:
            s.nulls, s.ghost["nopanic"] = nulls, np
            outs.append(("ret", s, UNIT))
    return outs


def rep_uniform(I, st, c, a):
    n = a[0]
    nulls, np = st.nulls, st.ghost.get("nopanic")
    st.nulls, st.ghost["nopanic"] = 99, True
    # one round from here
    f = I.newobj(st, a[1], "rep")
    args = [0, a[1]]
    s0 = st.copy()
    s1 = one_round(I, s0.copy(), c, args)
    diff, fresh = changes(I, s0, s1)
    # k rounds from here, then one more: verifies the induction step
    sk = s0.copy()
    k = I.fresh(sk, "_k", 0, 1 << 40)
    for (o, p), d in diff.items():
        sk.objs[o] = put_leaf(sk.objs[o], p, add(get_leaf(sk.objs[o], p), scale(k, d)))
    s2 = one_round(I, sk.copy(), c, args)
    diff2, _ = changes(I, sk, s2)
    if diff != diff2:
        raise Unsupported("repeated step that is not uniform")
    st = s0
    for (o, p), d in diff.items():
        st.objs[o] = put_leaf(st.objs[o], p, st.norm(add(get_leaf(st.objs[o], p), scale(n, d))))
    st.nulls = nulls
    st.ghost["nopanic"] = np
    i = st.ghost.get("nrep", 0)
    st.ghost["nrep"] = i + 1
    st.ghost["rep", i] = tuple(sorted(((o, p, d) for (o, p), d in diff.items()), key=repr))
    I.widened += 1
    I.prove("induction", "repeated step is uniform")
    return ret(st, UNIT)


@native("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut")
def n_from_raw_parts(I, st, c, a, at, dty):
    p, n = a
    es = I.p.size(el_of(I, at[0]))
    if not isinstance(p, P) or not isinstance(n, (int, Lin)):
        return NotImplemented
    if es and p.obj is not None and (p.obj in st.heap or p.obj in st.objs):
        try:
            v = I.load(st, p.obj, p.path)
        except Unsupported:
            v = None
        if isinstance(v, Arr) and v.es == es:
            i = divexact(st.norm(p.off), es)
            tot = 0
            for s in v.segs:
                tot = add(tot, s[-1])
            if i is not None and not st.ge(sub(tot, add(i, n)), 0):
                raise Bug("oob", "a slice of %s elements at %s of storage for %s" % (show(st.norm(n)), show(st.norm(i)), show(st.norm(tot))))
    return ret(st, P(p.obj, p.path, p.off, n))


@ghost("is_block")
def g_is_block(I, st, c, a, at, dty):
    h = st.heap.get(a[0].obj) if isinstance(a[0], P) else None
    return ret(st, h is not None and h[3] == "live")


@native("<(dyn std::any::Any + 'static)>::is", "<dyn std::any::Any>::is")
def n_any_is(I, st, c, a, at, dty):
    m = a[0].meta if isinstance(a[0], P) else None
    if not isinstance(m, tuple) or not c["args"]:
        return NotImplemented
    return ret(st, I.p.types[c["args"][-1]]["name"] == I.p.types[m[1]]["name"])
