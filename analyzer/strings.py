"""UTF-8 text: sources of characters whose widths and boundaries are discovered on demand.

A text source is an arbitrary sequence of characters of one to four bytes. Its bytes appear in
memory as runs, like other opaque values. What is known of a source are some characters (offset
and width) and some boundaries; every set of such facts that is consistent is met by a text,
because the gaps may be filled with characters of one byte."""
from text import *


def texts(st, s):
    return st.ghost.get(("text", s))


def new_text(st, s, n):
    """State with the text source; boundaries and characters known of it."""
    st.ghost["text", s] = ((0, n), ())


def known(t):
    return t[0] + tuple(c for c, w in t[1]) + tuple(add(c, w) for c, w in t[1])


def with_char(I, st, s, off, w):
    """The character is in the text, apart from every boundary that is known; False otherwise."""
    b, cs = st.ghost["text", s]
    for x in known((b, cs)):
        # the order of x and off is decided by the caller
        if st.cons.entails(sub(off, x)):
            continue
        if not st.assume([("ge", sub(sub(x, off), w))]):
            return False
    for c, v in cs:
        if st.cons.entails(sub(off, c)) and not st.assume([("ge", sub(sub(off, c), v))]):
            return False
    if not st.assume([("ge", off)]):
        return False
    st.ghost["text", s] = (b, cs + ((off, w),))
    return True


def bd_outs(I, st, s, p):
    """Whether the text has a boundary at the position."""
    p = st.norm(p)
    b, cs = st.ghost["text", s]
    for c, w in cs:
        if st.ge(c, p) or st.ge(p, add(c, w)):
            continue
        return [(st, False)]
    for x in known((b, cs)):
        if st.eq(x, p):
            return [(st, True)]
    t = st.copy()
    t.ghost["text", s] = (b + (p,), cs)
    outs = [(t, True)]
    f = st.copy()
    k = I.fresh(f, "into", 1, 3)
    w = I.fresh(f, "width", 2, 4)
    if f.assume([("ge", sub(sub(w, k), 1))]):
        off = sub(p, k)
        ok = True
        for x in known((b, cs)):
            # characters end before p - k or start after it
            if f.cons.entails(sub(p, x)):
                ok = ok and f.assume([("ge", sub(off, x))])
            else:
                ok = ok and f.assume([("ge", sub(sub(x, off), w))])
        if ok and f.assume([("ge", off)]):
            f.ghost["text", s] = (b, cs + ((off, w),))
            outs.append((f, False))
    return outs




def char_outs(I, st, s, p):
    """The character that starts at the boundary."""
    p = st.norm(p)
    b, cs = st.ghost["text", s]
    for c, w in cs:
        if st.eq(c, p):
            return [(st, Chr(s, c, w))]
    for x in known((b, cs)):
        st.ge(p, x)
    t = st.copy()
    w = I.fresh(t, "width", 1, 4)
    if not with_char(I, t, s, p, w):
        return []
    return [(t, Chr(s, p, w))]


TEXT.append(bd_outs)
TEXT.append(char_outs)


def back_outs(I, st, s, e):
    """The character that ends at the boundary."""
    e = st.norm(e)
    b, cs = st.ghost["text", s]
    for c, w in cs:
        if st.eq(add(c, w), e):
            return [(st, Chr(s, c, w))]
    for x in known((b, cs)):
        st.ge(x, e)
    t = st.copy()
    w = I.fresh(t, "width", 1, 4)
    off = sub(e, w)
    for x in known((b, cs)):
        if t.cons.entails(sub(x, e)):
            continue
        if not t.assume([("ge", sub(off, x))]):
            return []
    if not t.assume([("ge", off)]):
        return []
    t.ghost["text", s] = (b, cs + ((off, w),))
    return [(t, Chr(s, off, w))]


def bad(I, st, msg, prop="C20"):
    I.report(st, "utf8", msg, (), prop)


def real(st, segs):
    return [s for s in st.clean(segs) if not st.eq(s[-1], 0)]


def ascii_(v):
    return isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 128


def first_char(I, st, segs):
    """Outcomes of decoding the first character: (state, character, width)."""
    segs = real(st, segs)
    s = segs[0]
    if s[0] == "U":
        raise Bug("uninit", "uninitialised bytes are read as text")
    if s[0] == "V":
        return [(st, decode_int(segs), None)]
    if s[0] != "R" or texts(st, s[1]) is None:
        raise Unsupported("characters of bytes")
    res = []
    for s2, ok in bd_outs(I, st, s[1], s[2]):
        if not ok:
            bad(I, s2, "text is read from the middle of a character")
            continue
        for s3, ch in char_outs(I, s2, s[1], s[2]):
            res += whole(I, s3, ch, s[3])
    return res


def last_char(I, st, segs):
    segs = real(st, segs)
    s = segs[-1]
    if s[0] == "U":
        raise Bug("uninit", "uninitialised bytes are read as text")
    if s[0] == "V" and ascii_(s[1]):
        return [(st, s[1], 1)]
    if s[0] != "R" or texts(st, s[1]) is None:
        raise Unsupported("characters of bytes")
    e = add(s[2], s[3])
    res = []
    for s2, ok in bd_outs(I, st, s[1], e):
        if not ok:
            bad(I, s2, "text ends in the middle of a character")
            continue
        for s3, ch in back_outs(I, s2, s[1], e):
            res += whole(I, s3, ch, s[3])
    return res


def whole(I, st, ch, n):
    """The character is part of n bytes."""
    d = st.norm(sub(n, ch.w))
    if st.cons.entails(d):
        return [(st, ch, ch.w)]
    c = st.copy()
    if c.assume([("ge", sub(-1, d))]):
        bad(I, c, "a character is cut in the text")
    s2 = st.copy()
    return [(s2, ch, ch.w)] if s2.assume([("ge", d)]) else []


def decode_int(segs):
    s = segs[0]
    if ascii_(s[1]):
        return s[1]
    raise Unsupported("constant text")


def char_width(I, st, ch):
    if isinstance(ch, Chr):
        return ch.w
    if isinstance(ch, int):
        return 1 if ch < 0x80 else 2 if ch < 0x800 else 3 if ch < 0x10000 else 4
    if ch is U:
        raise Bug("uninit", "an uninitialised character is used")
    raise Unsupported("width of %r" % (ch,))


@native("std::char::methods::<impl char>::len_utf8")
def n_len_utf8(I, st, c, a, at, dty):
    return ret(st, char_width(I, st, a[0]))


@native("std::char::methods::<impl char>::is_ascii")
def n_chr_is_ascii(I, st, c, a, at, dty):
    if not isinstance(I.load(st, a[0].obj, a[0].path), Chr):
        return NotImplemented
    return ret(st, st.eq(I.load(st, a[0].obj, a[0].path).w, 1))


@native("std::char::methods::<impl char>::encode_utf8")
def n_encode(I, st, c, a, at, dty):
    ch, d = a
    w = char_width(I, st, ch)
    if not st.ge(d.meta, w):
        s2 = st.copy()
        I.on_panic(s2, "a character does not fit")
        return [("unw", s2, None)]
    if isinstance(ch, Chr):
        segs = [("R", ch.s, ch.off, ch.w)]
    else:
        segs = [("V", b, 1) for b in chr(ch).encode()]
    s2 = st.copy()
    put_bytes(I, s2, d, segs, w)
    return ret(s2, P(d.obj, d.path, d.off, w))


def put_bytes(I, st, p, segs, n):
    if p.obj is None:
        if st.eq(n, 0):
            return
        raise Bug("wild", "bytes are written to no storage")
    v = I.load(st, p.obj, p.path)
    if isinstance(v, Raw):
        I.retype(st, p.obj, 1)
        v = st.objs[p.obj]
    if not isinstance(v, Arr) or v.es != 1:
        raise Unsupported("bytes in %r" % (v,))
    st.check_range(v, p.off, n, "write")
    I.store(st, p.obj, p.path, Arr(1, st.put(v.segs, p.off, segs, n)))


@native("std::str::<impl str>::is_char_boundary")
def n_is_char_boundary(I, st, c, a, at, dty):
    p, i = a
    n = p.meta
    if st.eq(i, 0):
        return ret(st, True)
    if not st.ge(n, i):
        return ret(st, False)
    if st.eq(i, n):
        return ret(st, True)
    segs = real(st, segs_at(I, st, P(p.obj, p.path, add(p.off, i)), 1, I.u8()))
    s = segs[0]
    if s[0] == "U":
        raise Bug("uninit", "uninitialised bytes are read as text")
    if s[0] == "V" and isinstance(s[1], int):
        return ret(st, s[1] & 0xC0 != 0x80)
    if s[0] != "R" or texts(st, s[1]) is None:
        raise Unsupported("boundaries of bytes")
    return [("ret", s2, b) for s2, b in bd_outs(I, st, s[1], s[2])]


def iter_of(I, st, p):
    it = I.load(st, p.obj, p.path)
    if not isinstance(it, S) or len(it.f) < 2 or not isinstance(it.f[0], P) or not isinstance(it.f[1], P):
        raise Unsupported("iterator %r" % (it,))
    return it


def chars_step(I, st, c, a, back):
    it = iter_of(I, st, a[0])
    p, e = it.f[0], it.f[1]
    if p.obj != e.obj or p.path != e.path:
        raise Unsupported("iterator between two objects")
    n = st.norm(sub(e.off, p.off))
    if st.eq(n, 0):
        return ret(st, V(0))
    segs = segs_at(I, st, p, n, I.u8())
    res = []
    for s2, ch, w in last_char(I, st, segs) if back else first_char(I, st, segs):
        if w is None:
            w = char_width(I, s2, ch)
        s3 = s2.copy()
        f = it.f
        f = f[:1] + (P(e.obj, e.path, s3.norm(sub(e.off, w)), e.meta),) + f[2:] if back else (P(p.obj, p.path, s3.norm(add(p.off, w)), p.meta),) + f[1:]
        I.store(s3, a[0].obj, a[0].path, S(f))
        res.append(("ret", s3, V(1, (ch,))))
    return res


@native("<std::str::Chars as std::iter::Iterator>::next", "<std::str::Chars<'a> as std::iter::Iterator>::next")
def n_chars_next(I, st, c, a, at, dty):
    return chars_step(I, st, c, a, False)


@native("<std::str::Chars as std::iter::DoubleEndedIterator>::next_back", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def n_chars_back(I, st, c, a, at, dty):
    return chars_step(I, st, c, a, True)


def indices_step(I, st, c, a, back):
    p = a[0]
    it = I.load(st, p.obj, p.path)
    if not isinstance(it, S) or len(it.f) != 2:
        raise Unsupported("iterator %r" % (it,))
    length = lambda s: sub(I.load(s, p.obj, p.path + (1, 1)).off, I.load(s, p.obj, p.path + (1, 0)).off)
    front, before = it.f[0], length(st)
    res = []
    for kind, s, v in chars_step(I, st, c, [P(p.obj, p.path + (1,), p.off, None)], back):
        if v.v == 1:
            after = length(s)
            at = front
            if back:
                at = s.norm(add(front, after))
            else:
                I.store(s, p.obj, p.path + (0,), s.norm(add(front, sub(before, after))))
            v = V(1, (S((at, v.f[0])),))
        res.append((kind, s, v))
    return res


@native("<std::str::CharIndices as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def n_indices_next(I, st, c, a, at, dty):
    return indices_step(I, st, c, a, False)


@native("<std::str::CharIndices as std::iter::DoubleEndedIterator>::next_back", "<std::str::CharIndices<'a> as std::iter::DoubleEndedIterator>::next_back")
def n_indices_back(I, st, c, a, at, dty):
    return indices_step(I, st, c, a, True)


@native("<std::str::Chars as std::iter::Iterator>::last", "<std::str::Chars<'a> as std::iter::Iterator>::last")
def n_chars_last(I, st, c, a, at, dty):
    o = I.newobj(st, a[0])
    return [(k, s, v) for k, s, v in chars_step(I, st, c, [P(o, (), 0)], True)]


# ---------------------------------------------------------------- ghost: text

@ghost("text")
def g_text(I, st, c, a, at, dty):
    k = st.ghost.get("nsrc", 0)
    st.ghost["nsrc"] = k + 1
    new_text(st, SRC[k], a[0])
    return ret(st, k)


@ghost("bytes")
def g_bytes(I, st, c, a, at, dty):
    """Arbitrary bytes, perhaps no text."""
    k = st.ghost.get("nsrc", 0)
    st.ghost["nsrc"] = k + 1
    st.ghost["rawbytes", SRC[k]] = a[0]
    return ret(st, k)


@ghost("b_fill")
def g_b_fill(I, st, c, a, at, dty):
    p, k, i, n = a
    put_bytes(I, st, p, [("R", SRC[k], i, n)], n)
    return ret(st, UNIT)


@ghost("text_str")
def g_text_str(I, st, c, a, at, dty):
    k, i, n = a
    if not st.ge(n, 0):
        raise Dead()
    o = I.newobj(st, Arr(1, (("R", SRC[k], i, n),)), "t")
    return ret(st, P(o, (), 0, n))


@ghost("chr")
def g_chr(I, st, c, a, at, dty):
    """Any character: a text of one."""
    k = st.ghost.get("nsrc", 0)
    st.ghost["nsrc"] = k + 1
    w = I.fresh(st, "width", 1, 4)
    st.ghost["text", SRC[k]] = ((), ((0, w),))
    return ret(st, Chr(SRC[k], 0, w))


@ghost("chr_of")
def g_chr_of(I, st, c, a, at, dty):
    if not isinstance(a[0], Chr):
        raise Unsupported("source of %r" % (a[0],))
    return ret(st, SRC.index(a[0].s))


@ghost("t_bd")
def g_t_bd(I, st, c, a, at, dty):
    return [("ret", s, b) for s, b in bd_outs(I, st, SRC[a[0]], a[1])]


@ghost("t_width")
def g_t_width(I, st, c, a, at, dty):
    """Width of the character at a boundary of the source."""
    return [("ret", s, ch.w) for s, ch in char_outs(I, st, SRC[a[0]], a[1])]


@ghost("t_width_back")
def g_t_width_back(I, st, c, a, at, dty):
    return [("ret", s, ch.w) for s, ch in back_outs(I, st, SRC[a[0]], a[1])]


@ghost("e_chr")
def g_e_chr(I, st, c, a, at, dty):
    prop, ch, k, i = pname(a[0]), a[1], a[2], a[3]
    if ch is U:
        I.report(st, "uninit", "an uninitialised character is returned", (), prop)
        return ret(st, UNIT)
    if isinstance(ch, Opq):
        raise Unsupported("character %r" % (ch,))
    if isinstance(ch, Lin):
        raise Unsupported("character %r" % (ch,))
    if not isinstance(ch, Chr) or ch.s != SRC[k] or not st.eq(ch.off, i):
        I.report(st, "list", "the character %r is returned instead of %s[%s]" % (ch, SRC[k], show(st.norm(i))), (), prop)
        return ret(st, UNIT)
    done(I, st, prop, "character")
    return ret(st, UNIT)


@ghost("f_cpred")
def g_f_cpred(I, st, c, a, at, dty):
    if not isinstance(a[0], Chr):
        raise Unsupported("predicate of %r" % (a[0],))
    outs = []
    for r in (True, False):
        s2 = st.copy()
        s2.events = s2.events + (("cpred", a[0], r),)
        outs.append(("ret", s2, r))
    return callback(I, st, "a predicate panics", outs)


@ghost("e_ckept")
def g_e_ckept(I, st, c, a, at, dty):
    """The predicate was called for every character of the text in order; the kept ones are expected."""
    if user_panicked(st):
        return ret(st, UNIT)
    s, pos, n = SRC[a[0]], 0, a[1]
    exp = ()
    for e in st.events:
        if e[0] != "cpred":
            continue
        ch = e[1]
        if ch.s != s or not st.eq(ch.off, pos):
            raise Bug("list", "the predicate is called for %r instead of the character at %s" % (ch, show(st.norm(pos))))
        if e[2]:
            exp += (("R", s, ch.off, ch.w),)
        pos = add(pos, ch.w)
    if not st.eq(pos, n):
        raise Bug("list", "the predicate was not called for the characters from %s" % show(st.norm(pos)))
    st.exp = st.exp + exp
    return ret(st, UNIT)


def e_text(I, st, prop, segs):
    """States in which the bytes are whole characters; the others are reported."""
    work = [st]
    for s in real(st, segs):
        nxt = []
        for t in work:
            if s[0] == "U":
                I.report(t, "uninit", "uninitialised bytes are part of the text", (), prop)
            elif s[0] == "V":
                if ascii_(s[1]):
                    nxt.append(t)
                elif isinstance(s[1], Low):
                    bad(I, t, "the low byte of a wide character is part of the text", prop)
                else:
                    raise Unsupported("constant text")
            elif s[0] == "R" and texts(t, s[1]) is not None:
                for t2, ok in bd_outs(I, t, s[1], s[2]):
                    if not ok:
                        bad(I, t2, "the text has a part that starts in the middle of a character", prop)
                        continue
                    for t3, ok in bd_outs(I, t2, s[1], add(s[2], s[3])):
                        if not ok:
                            bad(I, t3, "the text has a part that ends in the middle of a character", prop)
                        else:
                            nxt.append(t3)
            elif s[0] == "R" and ("rawbytes", s[1]) in t.ghost:
                v = t.ghost.get(("valid", s[1]))
                if v is None:
                    bad(I, t, "bytes that were not checked become text", prop)
                elif v is False:
                    bad(I, t, "bytes that are no text become text", prop)
                elif not (t.eq(s[2], 0) and t.eq(s[3], t.ghost["rawbytes", s[1]])):
                    raise Unsupported("part of bytes")
                else:
                    nxt.append(t)
            else:
                raise Unsupported("text of %r" % (s,))
        work = nxt
    return work


@ghost("e_text")
def g_e_text(I, st, c, a, at, dty):
    prop = pname(a[0])
    segs = segs_at(I, st, a[1], a[2], I.u8()) if not st.eq(a[2], 0) else ()
    outs = e_text(I, st, prop, segs)
    if outs:
        done(I, outs[0], prop, "valid text")
    return [("ret", s, UNIT) for s in outs]


@ghost("valid")
def g_valid(I, st, c, a, at, dty):
    """Whether the bytes of the source are text, as asked by the library."""
    return ret(st, {None: 2, True: 1, False: 0}[st.ghost.get(("valid", SRC[a[0]]))])


@native("std::str::from_utf8", "std::str::converts::from_utf8")
def n_from_utf8(I, st, c, a, at, dty):
    p = a[0]
    segs = real(st, segs_at(I, st, p, p.meta, I.u8())) if not st.eq(p.meta, 0) else []
    if not segs:
        return ret(st, V(0, (p,)))
    if len(segs) != 1 or segs[0][0] != "R" or ("rawbytes", segs[0][1]) not in st.ghost:
        raise Unsupported("check of text")
    s = segs[0]
    whole = st.ghost["rawbytes", s[1]]
    k = ("valid", s[1])
    if not (st.eq(s[2], 0) and st.eq(s[3], whole)):
        # A part. All is text when the parts that are text cover it.
        parts = st.ghost.get(("parts", s[1]), ()) + ((s[2], s[3]),)
        end, more = 0, True
        while more:
            more = False
            for o, n in parts:
                if st.eq(o, end) and not st.eq(n, 0):
                    end, more = add(o, n), True
        good, cut, wrong = st.copy(), st.copy(), st.copy()
        good.ghost["parts", s[1]] = parts
        if st.eq(end, whole):
            good.ghost[k] = True
        cut.ghost[k], wrong.ghost[k] = True, False
        outs = [("ret", good, V(0, (p,)))]
        if st.ghost.get(k, True):
            outs.append(("ret", cut, V(1, (Opq("utf8error"),))))
        if not st.ghost.get(k, False):
            outs.append(("ret", wrong, V(1, (Opq("utf8error"),))))
        return outs
    outs = []
    for r in (True, False):
        if st.ghost.get(k, r) != r:
            continue
        s2 = st.copy()
        s2.ghost[k] = r
        outs.append(("ret", s2, V(0, (p,)) if r else V(1, (Opq("utf8error"),))))
    return outs


# ---------------------------------------------------------------- UTF-16

@native("<std::char::DecodeUtf16 as std::iter::Iterator>::next", "<std::char::DecodeUtf16<I> as std::iter::Iterator>::next")
def n_utf16_next(I, st, c, a, at, dty):
    """Decoding of arbitrary units: a character of one unit or of two, or an error."""
    d = I.load(st, a[0].obj, a[0].path)
    it, pth = d, a[0].path
    # the slice iterator inside
    while isinstance(it, S) and not (len(it.f) >= 2 and isinstance(it.f[0], P) and isinstance(it.f[1], P)):
        it, pth = it.f[0], pth + (0,)
    if not isinstance(it, S):
        raise Unsupported("units %r" % (d,))
    p, e = it.f[0], it.f[1]
    n = st.norm(sub(e.off, p.off))
    if st.eq(n, 0):
        return ret(st, V(0))
    outs = []
    for units, lo, hi in ((1, 1, 3), (2, 4, 4), (1, 0, 0)):
        s2 = st.copy()
        if not s2.assume([("ge", sub(n, 2 * units))]):
            continue
        I.store(s2, a[0].obj, pth, S((P(p.obj, p.path, s2.norm(add(p.off, 2 * units)), p.meta),) + it.f[1:]))
        if hi == 0:
            s2.ghost["u16bad"] = True
            outs.append(("ret", s2, V(1, (V(1, (Opq("utf16error"),)),))))
            continue
        k = s2.ghost.get("nu16", 0)
        s2.ghost["nu16"] = k + 1
        s = "u%d" % k
        w = I.fresh(s2, "width", lo, hi)
        s2.ghost["text", s] = ((), ((0, w),))
        s2.ghost["u16"] = s2.ghost.get("u16", ()) + ((s, 0, w),)
        outs.append(("ret", s2, V(1, (V(0, (Chr(s, 0, w),)),))))
    return outs


@ghost("units")
def g_units(I, st, c, a, at, dty):
    o = I.newobj(st, Arr(2, (("J", a[0]),)), "t")
    return ret(st, P(o, (), 0, a[0]))


@ghost("u16_bad")
def g_u16_bad(I, st, c, a, at, dty):
    return ret(st, bool(st.ghost.get("u16bad")))


@ghost("e_u16")
def g_e_u16(I, st, c, a, at, dty):
    st.exp = st.exp + tuple(("R",) + x for x in st.ghost.get("u16", ()))
    return ret(st, UNIT)


# ---------------------------------------------------------------- comparison of bytes

def bytes_rel(I, st, x, y):
    """Outcomes (state, -1 | 0 | 1) of comparing two runs of bytes."""
    x, y = tuple(real(st, x)), tuple(real(st, y))
    if not x or not y:
        return [(st, 0 if not x and not y else -1 if not x else 1)]
    for s in x + y:
        if s[0] == "U":
            raise Bug("uninit", "uninitialised bytes are compared")
        if s[0] == "J":
            raise Unsupported("comparison of unknown bytes")
    if norm_deep(st, x) == norm_deep(st, y) or (len(x) == len(y) and all(p[:2] == q[:2] and st.eq(sub(p[2], q[2]), 0) and st.eq(p[-1], q[-1]) for p, q in zip(x, y) if p[0] == "R" and q[0] == "R") and all(p[0] == "R" == q[0] and p[1] == q[1] for p, q in zip(x, y))):
        return [(st, 0)]
    if all(s[0] == "V" and type(s[1]) is int and type(s[2]) is int for s in x + y):
        bx, by = [s[1] for s in x for _ in range(s[2])], [s[1] for s in y for _ in range(s[2])]
        return [(st, -1 if bx < by else 1 if bx > by else 0)]
    rels = st.ghost.get("brel", ())
    for p, q, r in rels:
        if same_deep(st, (p, q), (x, y)):
            return [(st, r)]
        if same_deep(st, (p, q), (y, x)):
            return [(st, -r)]
    nx, ny = st.total(x), st.total(y)
    free = prefix_rel(I, st, x, y, rels)
    if free is not None:
        outs = []
        for r in free:
            s2 = st.copy()
            if r == 0 and not s2.assume([("eq", sub(nx, ny))]):
                continue
            s2.ghost["brel"] = rels + ((x, y, r),)
            outs.append((s2, r))
        return outs
    seen = {g[1] for r in rels for q in r[:2] for g in q if g[0] == "R"}
    seen |= {k[1] for k in st.memo if isinstance(k, tuple) and k[0] in ("cp", "byte")}
    approx = any(g[0] == "R" and g[1] in seen for g in x + y)
    outs = []
    for r in (-1, 0, 1):
        s2 = st.copy()
        if r == 0 and not s2.assume([("eq", sub(nx, ny))]):
            continue
        s2.ghost["brel"] = rels + ((x, y, r),)
        if approx:
            # earlier comparisons of the same bytes may exclude the outcome
            s2.approx = s2.approx or "order of bytes"
        outs.append((s2, r))
    return outs


def prefix_rel(I, st, x, y, rels):
    """Outcomes of comparing two runs when all that is known of their bytes is the outcome of earlier comparisons of as
    long runs that start at the same places; None otherwise."""
    if len(x) != 1 or len(y) != 1 or x[0][0] != "R" or y[0][0] != "R" or x[0][1] == y[0][1]:
        return None
    x, y = x[0], y[0]
    mine = {x[1], y[1]}
    if any(isinstance(k, tuple) and k[0] in ("cp", "byte") and k[1] in mine for k in st.memo):
        return None
    short = y[3] if st.ge(x[3], y[3]) else x[3]
    bylen = 0 if st.eq(x[3], y[3]) else 1 if st.ge(x[3], y[3]) else -1
    out = None
    for p, q, r in rels:
        if not mine & {g[1] for g in p + q if g[0] == "R"}:
            continue
        if len(p) != 1 or len(q) != 1 or p[0][0] != "R" or q[0][0] != "R":
            return None
        p, q = p[0], q[0]
        if p[1] == y[1]:
            p, q, r = q, p, -r
        if p[1] != x[1] or q[1] != y[1] or not st.eq(p[2], x[2]) or not st.eq(q[2], y[2]) or not st.eq(p[3], q[3]):
            return None
        if r == 0:
            if st.ge(p[3], short):
                return [bylen]
        elif st.ge(short, p[3]):
            return [r]
        else:
            # the difference may be behind the end
            out = {r, bylen} if out is None else out & {r, bylen}
    return sorted(out) if out is not None else [-1, 0, 1] if bylen == 0 else [-1, 1]


def compare_outs(I, st, a, n):
    """Comparison of n bytes at two places."""
    if st.eq(n, 0):
        return ret(st, 0)
    if any(not isinstance(p, P) or p.obj is None or p.obj[0] == "tyname" for p in a[:2]):
        return NotImplemented
    x, y = (real(st, segs_at(I, st, p, n, I.u8())) for p in a[:2])
    for s in x + y:
        if s[0] == "U":
            raise Bug("uninit", "uninitialised bytes are compared")
    if type(n) is int and n <= 16:
        # one after the other
        for k in range(n):
            u, v = (byte_at(I, st, g, k) for g in (x, y))
            if u == v:
                continue
            u, v = (I.byte_num(st, t) if isinstance(t, Tok) else t for t in (u, v))
            if not isinstance(u, (int, Lin)) or not isinstance(v, (int, Lin)):
                return NotImplemented
            if st.decide(I.cmp("Ne", u, v)):
                return ret(st, -1 if st.decide(I.cmp("Lt", u, v)) else 1)
        return ret(st, 0)
    return [("ret", s, r) for s, r in bytes_rel(I, st, x, y)]


TEXT.append(compare_outs)


def byte_at(I, st, segs, k):
    for s in segs:
        if not st.ge(k, s[-1]):
            return s[1] if s[0] == "V" else Tok(s[1], st.norm(add(s[2], k))) if s[0] == "R" else None
        k = st.norm(sub(k, s[-1]))


def u8_slices(I, a, at):
    for p, t in zip(a, at):
        if not isinstance(p, P) or p.obj and p.obj[0] == "tyname":
            return False
        T = I.p.types[I.p.rep(t)]
        if T["k"] not in ("ref", "ptr"):
            return False
        T = I.p.types[T["el"]]
        if T["k"] == "str":
            continue
        if T["k"] != "slice" or I.p.types[T["el"]]["name"] != "u8":
            return False
    return True


def rel_of(I, st, a):
    g = [segs_at(I, st, p, p.meta, I.u8()) if p.obj is not None and not st.eq(p.meta, 0) else () for p in a]
    return bytes_rel(I, st, g[0], g[1])


def over(names, f):
    """Model for slices of bytes before the existing treatment of the function."""
    for n in names:
        old = NATIVE.get(n)

        def h(I, st, c, a, at, dty, old=old):
            if len(a) >= 2 and u8_slices(I, a[:2], at[:2]):
                return [("ret", s, f(r)) for s, r in rel_of(I, st, a[:2])]
            return old(I, st, c, a, at, dty) if old else NotImplemented

        NATIVE[n] = h


ORD = {-1: V(0), 0: V(1), 1: V(2)}
EQS = ["std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "std::str::traits::<impl std::cmp::PartialEq for str>::eq"]
over(EQS, lambda r: r == 0)
over([n[:-2] + "ne" for n in EQS], lambda r: r != 0)
CMPS = ["std::slice::cmp::<impl std::cmp::Ord for [T]>::cmp", "std::str::traits::<impl std::cmp::Ord for str>::cmp"]
over(CMPS, lambda r: ORD[r])
POS = ["std::slice::cmp::<impl std::cmp::PartialOrd for [T]>::", "std::str::traits::<impl std::cmp::PartialOrd for str>::"]
over([n + "partial_cmp" for n in POS], lambda r: V(1, (ORD[r],)))
over([n + "lt" for n in POS], lambda r: r < 0)
over([n + "le" for n in POS], lambda r: r <= 0)
over([n + "gt" for n in POS], lambda r: r > 0)
over([n + "ge" for n in POS], lambda r: r >= 0)


# ---------------------------------------------------------------- searching in known text

def found(k):
    return V(0) if k < 0 else V(1, (k,))


@native("std::slice::memchr::memchr", "std::slice::memchr::memrchr", "std::slice::memchr::memchr_aligned", "std::slice::memchr::memrchr_aligned")
def n_memchr(I, st, c, a, at, dty):
    t, x = text_of(st, a[1]), st.norm(a[0])
    if t is None or type(x) is not int:
        return NotImplemented
    return ret(st, found((t.rfind if "memrchr" in c["path"] else t.find)(bytes([x]))))


@native("std::str::pattern::simd_contains")
def n_simd_contains(I, st, c, a, at, dty):
    n, h = text_of(st, a[0]), text_of(st, a[1])
    if n is None or h is None:
        return NotImplemented
    return ret(st, V(1, (n in h,)))


@native("<[u8]>::eq_ignore_ascii_case", "std::slice::ascii::<impl [u8]>::eq_ignore_ascii_case", "std::str::<impl str>::eq_ignore_ascii_case")
def n_ignore_case(I, st, c, a, at, dty):
    x, y = text_of(st, a[0]), text_of(st, a[1])
    if x is None or y is None:
        return NotImplemented
    return ret(st, x.lower() == y.lower())


@native("std::str::pattern::StrSearcher::new")
def n_searcher(I, st, c, a, at, dty):
    h, n = text_of(st, a[0]), text_of(st, a[1])
    if h is None or not n:
        return NotImplemented
    return ret(st, S((a[0], a[1], ("search", h, n, 0, len(h)))))


@native("<std::str::pattern::StrSearcher<'a, 'b> as std::str::pattern::Searcher<'a>>::next_match", "<std::str::pattern::StrSearcher<'a, 'b> as std::str::pattern::ReverseSearcher<'a>>::next_match_back")
def n_next_match(I, st, c, a, at, dty):
    s = I.load(st, a[0].obj, a[0].path)
    if not isinstance(s, S) or len(s.f) != 3 or not isinstance(s.f[2], tuple):
        return NotImplemented
    _, h, n, lo, hi = s.f[2]
    back = c["path"].endswith("back")
    k = h.rfind(n, lo, hi) if back else h.find(n, lo, hi)
    if k < 0:
        hi = lo = hi if not back else lo
        r = V(0)
    else:
        lo, hi = (lo, k) if back else (k + len(n), hi)
        r = V(1, (S((k, k + len(n))),))
    I.store(st, a[0].obj, a[0].path, S((s.f[0], s.f[1], ("search", h, n, lo, hi))))
    return ret(st, r)
