// String: a list of characters kept as valid text.
use lokky::string::String;
unsafe fn any_str() -> (String, usize, usize) {
    g::no_fail();
    let (cap, n) = (lim(), g::any());
    g::assume(n <= cap);
    let mut s = String::with_capacity_and_marker(cap, mk());
    let a = g::text(n);
    let v = s.as_mut_vec();
    g::b_fill(v.as_mut_slice().as_mut_ptr(), a, 0, n);
    v.set_len(n);
    g::may_fail();
    (s, a, n)
}
/// The bytes are the expected ones and valid text.
unsafe fn st_chk_(s: &String) {
    let (c, l, b) = (s.capacity(), s.len(), s.as_bytes());
    g::prove("C05", l <= c, "the length is within the capacity");
    g::e_eq("C21", b.len(), l, "the length is the number of bytes");
    g::prove("C21", s.is_empty() == (l == 0), "empty exactly without bytes");
    if !g::panicked() {
        g::e_slice(if g::failed() { "C10" } else { "C21" }, b.as_ptr(), b.len());
    }
    g::e_text("C20", b.as_ptr(), b.len());
    if c > 0 {
        let m = (*(s as *const String as *mut String)).as_mut_vec().marker();
        g::e_sel(b.as_ptr() as *const u8, &m, std::any::type_name::<u8>());
    }
}
unsafe fn st_chk(s: &String) {
    g::e_marker(&(*(s as *const String as *mut String)).as_mut_vec().marker(), &mk());
    st_chk_(s);
}
unsafe fn s_str_new() {
    init();
    let s = String::new();
    g::e_new();
    st_chk_(&s);
    g::e_eq("C21", g::nalloc(), 0, "allocations");
    let s = <String as Default>::default();
    g::e_new();
    st_chk_(&s);
    let s = String::with_marker(mk());
    g::e_new();
    st_chk(&s);
}
unsafe fn s_str_with_capacity() {
    init();
    let cap = g::any();
    match String::try_with_capacity_and_marker(cap, mk()) {
        Ok(s) => {
            g::prove("C10", !g::failed(), "a failed allocation is reported");
            g::prove("C21", s.capacity() >= cap, "the capacity is provided");
            fits(cap, 1);
            g::e_new();
            st_chk(&s);
        }
        Err(_) => g::prove("C10", g::failed() || cap > isize::MAX as usize, "an error is reported only for a failed allocation"),
    }
}
unsafe fn s_str_with_capacity_panic() {
    init();
    let cap = lim();
    let mut s = String::new();
    let p = g::catch(|| s = String::with_capacity(cap));
    pan("C21", p, false);
    if !p {
        g::prove("C21", s.capacity() >= cap, "the capacity is provided");
        g::e_new();
        st_chk_(&s);
    }
}
unsafe fn s_str_push() {
    init();
    let (mut s, a, n) = any_str();
    let c = g::chr();
    let w = c.len_utf8();
    let p = g::catch(|| s.push(c));
    pan("C21", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(g::chr_of(c), 0, w);
    }
    st_chk(&s);
}
unsafe fn s_str_pop() {
    init();
    let (mut s, a, n) = any_str();
    let r = s.pop();
    g::e_new();
    match r {
        None => g::e_eq("C21", n, 0, "pop gives nothing only for no text"),
        Some(c) => {
            let w = g::t_width_back(a, n);
            g::e_chr("C21", c, a, n - w);
            g::e_run(a, 0, n - w);
        }
    }
    st_chk(&s);
}
unsafe fn s_str_push_str() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    let p = g::catch(|| s.push_str(t));
    pan("C21", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(b, 0, m);
    }
    st_chk(&s);
}
unsafe fn s_str_add() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    let p = g::catch(|| s += t);
    pan("C21", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(b, 0, m);
    }
    st_chk(&s);
}
unsafe fn s_str_add_move() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    g::no_fail();
    let s = s + t;
    g::e_new();
    g::e_run(a, 0, n);
    g::e_run(b, 0, m);
    st_chk(&s);
}
unsafe fn s_str_write() {
    use std::fmt::Write;
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    g::no_fail();
    g::prove("C21", s.write_str(t).is_ok(), "writing succeeds");
    g::e_new();
    g::e_run(a, 0, n);
    g::e_run(b, 0, m);
    st_chk(&s);
}
unsafe fn s_str_write_char() {
    use std::fmt::Write;
    init();
    let (mut s, a, n) = any_str();
    let c = g::chr();
    let w = c.len_utf8();
    g::no_fail();
    g::prove("C21", s.write_char(c).is_ok(), "writing succeeds");
    g::e_new();
    g::e_run(a, 0, n);
    g::e_run(g::chr_of(c), 0, w);
    st_chk(&s);
}
unsafe fn s_str_clear() {
    init();
    let (mut s, a, n) = any_str();
    let c = s.capacity();
    s.clear();
    g::e_new();
    st_chk(&s);
    g::e_eq("C21", s.capacity(), c, "clearing keeps the storage");
}
unsafe fn s_str_remove() {
    init();
    let (mut s, a, n) = any_str();
    let i = g::any();
    let mut r = 'x';
    let p = g::catch(|| r = s.remove(i));
    let ok = i < n && g::t_bd(a, i);
    g::prove("C20", p == !ok, "panics exactly when no character starts at the index");
    g::e_new();
    if ok {
        let w = g::t_width(a, i);
        g::e_chr("C21", r, a, i);
        g::e_run(a, 0, i);
        g::e_run(a, i + w, n - i - w);
    } else {
        g::e_run(a, 0, n);
    }
    st_chk(&s);
}
unsafe fn s_str_insert() {
    init();
    let (mut s, a, n) = any_str();
    let i = g::any();
    let c = g::chr();
    let w = c.len_utf8();
    let p = g::catch(|| s.insert(i, c));
    let ok = i <= n && g::t_bd(a, i);
    pan("C20", p, !ok);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(g::chr_of(c), 0, w);
        g::e_run(a, i, n - i);
    }
    st_chk(&s);
}
unsafe fn s_str_insert_str() {
    init();
    let (mut s, a, n) = any_str();
    let (i, m) = (g::any(), lim());
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    let p = g::catch(|| s.insert_str(i, t));
    let ok = i <= n && g::t_bd(a, i);
    pan("C20", p, !ok);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(b, 0, m);
        g::e_run(a, i, n - i);
    }
    st_chk(&s);
}
unsafe fn s_str_truncate() {
    init();
    let (mut s, a, n) = any_str();
    let i = g::any();
    let p = g::catch(|| s.truncate(i));
    let ok = i >= n || g::t_bd(a, i);
    g::prove("C20", p == !ok, "panics exactly when the length is inside of a character");
    g::e_new();
    g::e_run(a, 0, if ok && i < n { i } else { n });
    st_chk(&s);
}
unsafe fn s_str_split_off() {
    init();
    let (mut s, a, n) = any_str();
    let i = g::any();
    let mut r = String::new();
    let p = g::catch(|| r = s.split_off(i));
    let ok = i <= n && g::t_bd(a, i);
    pan("C20", p, !ok);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, i, n - i);
        st_chk_(&r);
        g::e_new();
        g::e_run(a, 0, i);
    }
    st_chk(&s);
}
unsafe fn s_str_retain() {
    init();
    let (mut s, a, n) = any_str();
    let p = g::catch(|| s.retain(|c| g::f_cpred(c)));
    pan("C21", p, false);
    g::e_new();
    g::e_ckept(a, n);
    st_chk(&s);
}
unsafe fn s_str_reserve() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let p = g::catch(|| {
        if g::any_bool() {
            s.reserve(m)
        } else {
            s.reserve_exact(m)
        }
    });
    pan("C21", p, false);
    if !p {
        g::prove("C21", s.capacity() >= n + m, "the capacity is provided");
    }
    g::e_new();
    g::e_run(a, 0, n);
    st_chk(&s);
}
unsafe fn s_str_reserve_huge() {
    init();
    let (mut s, a, n) = any_str();
    let m = g::any();
    g::assume(m > isize::MAX as usize - n);
    let c = s.capacity();
    let (k0, k1) = (g::any_bool(), g::any_bool());
    let mut err = false;
    let p = g::catch(|| match (k0, k1) {
        (true, true) => err = s.try_reserve(m).is_err(),
        (true, false) => err = s.try_reserve_exact(m).is_err(),
        (false, true) => s.reserve(m),
        (false, false) => s.reserve_exact(m),
    });
    g::prove("C09", p || err, "a capacity that is not representable in bytes is refused");
    g::e_eq("C21", s.capacity(), c, "capacity after a refused reservation");
    g::e_new();
    g::e_run(a, 0, n);
    st_chk(&s);
}
unsafe fn s_str_try_reserve() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let r = if g::any_bool() { s.try_reserve(m) } else { s.try_reserve_exact(m) };
    g::prove("C10", r.is_err() == g::failed(), "an error exactly for a failed allocation");
    if r.is_ok() {
        g::prove("C21", s.capacity() >= n + m, "the capacity is provided");
    }
    g::e_new();
    g::e_run(a, 0, n);
    st_chk(&s);
}
unsafe fn s_str_shrink() {
    init();
    let (mut s, a, n) = any_str();
    let m = lim();
    let p = g::catch(|| {
        if g::any_bool() {
            s.shrink_to(m)
        } else {
            s.shrink_to_fit()
        }
    });
    g::e_new();
    g::e_run(a, 0, n);
    st_chk(&s);
}
unsafe fn s_str_from_char() {
    init();
    g::no_fail();
    let c = g::chr();
    let s = String::from(c);
    g::e_new();
    g::e_run(g::chr_of(c), 0, c.len_utf8());
    st_chk_(&s);
}
unsafe fn s_str_from_str() {
    init();
    g::no_fail();
    let m = lim();
    let b = g::text(m);
    let t = g::text_str(b, 0, m);
    let s = if g::any_bool() { String::from(t) } else { <String as std::str::FromStr>::from_str(t).unwrap() };
    g::e_new();
    g::e_run(b, 0, m);
    st_chk_(&s);
}
unsafe fn s_str_from_string() {
    init();
    let (s, a, n) = any_str();
    g::no_fail();
    let r = String::from(&s);
    g::e_new();
    g::e_run(a, 0, n);
    st_chk_(&r);
    st_chk(&s);
}
unsafe fn s_str_clone() {
    init();
    let (s, a, n) = any_str();
    let mut r = None;
    let p = g::catch(|| r = Some(s.clone()));
    pan("C21", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    if let Some(r) = &r {
        st_chk_(r);
    }
    st_chk(&s);
}
unsafe fn s_str_from_utf8() {
    init();
    g::no_fail();
    let n = lim();
    let mut v = Vec::<u8>::with_capacity_and_marker(n, mk());
    let a = g::bytes(n);
    g::b_fill(v.as_mut_slice().as_mut_ptr(), a, 0, n);
    v.set_len(n);
    match String::from_utf8(v) {
        Ok(s) => {
            g::e_new();
            g::e_run(a, 0, n);
            st_chk(&s);
        }
        Err(_) => g::e_eq("C20", g::valid(a), 0, "an error only for bytes that are no text"),
    }
}
unsafe fn s_str_from_utf16() {
    init();
    g::no_fail();
    let n = lim();
    g::assume(n <= 2);
    match String::from_utf16(g::units(n)) {
        Ok(s) => {
            g::prove("C21", !g::u16_bad(), "units that are no text are refused");
            g::e_new();
            g::e_u16();
            st_chk_(&s);
        }
        Err(_) => g::prove("C21", g::u16_bad(), "an error only for units that are no text"),
    }
}
unsafe fn s_str_bytes() {
    init();
    let (mut s, a, n) = any_str();
    g::e_new();
    g::e_run(a, 0, n);
    g::e_slice("C21", s.as_bytes().as_ptr(), s.as_bytes().len());
    g::e_slice("C21", s.as_str().as_ptr(), s.as_str().len());
    g::e_slice("C21", (&*s).as_ptr(), (*s).len());
    g::e_slice("C21", s[..].as_ptr(), s[..].len());
    g::e_slice("C21", AsRef::<str>::as_ref(&s).as_ptr(), AsRef::<str>::as_ref(&s).len());
    g::e_slice("C21", std::borrow::Borrow::<str>::borrow(&s).as_ptr(), std::borrow::Borrow::<str>::borrow(&s).len());
    let m = s.as_mut_str().len();
    g::e_slice("C21", s.as_mut_str().as_ptr(), m);
    let m = (&mut *s).len();
    g::e_slice("C21", (&mut *s).as_ptr(), m);
    let m = (&mut s[..]).len();
    g::e_slice("C21", (&mut s[..]).as_ptr(), m);
    let m = AsMut::<str>::as_mut(&mut s).len();
    g::e_slice("C21", AsMut::<str>::as_mut(&mut s).as_ptr(), m);
    let m = std::borrow::BorrowMut::<str>::borrow_mut(&mut s).len();
    g::e_slice("C21", std::borrow::BorrowMut::<str>::borrow_mut(&mut s).as_ptr(), m);
    let v = s.as_mut_vec();
    g::e_slice("C21", v.as_slice().as_ptr(), v.len());
    st_chk(&s);
}
unsafe fn s_str_index() {
    init();
    let (mut s, a, n) = any_str();
    let (i, j) = (g::any(), g::any());
    let k = g::any();
    g::assume(k < 5);
    let mutable = g::any_bool();
    let (mut q, mut m) = (std::ptr::null::<u8>(), 0);
    let p = g::catch(|| {
        let r: &str = if mutable {
            match k {
                0 => &mut s[i..j],
                1 => &mut s[i..],
                2 => &mut s[..j],
                3 => &mut s[i..=j],
                _ => &mut s[..=j],
            }
        } else {
            match k {
                0 => &s[i..j],
                1 => &s[i..],
                2 => &s[..j],
                3 => &s[i..=j],
                _ => &s[..=j],
            }
        };
        q = r.as_ptr();
        m = r.len();
    });
    g::assume(i <= 1 << 60);
    g::assume(j <= 1 << 60);
    let from = if k == 2 || k == 4 { 0 } else { i };
    let to = if k == 1 { n } else if k < 3 { j } else { j + 1 };
    let ok = from <= to && to <= n && g::t_bd(a, from) && g::t_bd(a, to);
    g::prove("C20", p == !ok, "panics exactly when the range is not between characters");
    g::e_new();
    if ok {
        g::e_run(a, from, to - from);
        g::e_slice("C21", q, m);
        g::e_new();
    }
    g::e_run(a, 0, n);
    st_chk(&s);
}
unsafe fn s_str_index_max() {
    init();
    let (mut s, a, n) = any_str();
    let i = g::any();
    let k = g::any();
    g::assume(k < 4);
    let p = g::catch(|| {
        let j = usize::MAX;
        let r: &str = match k {
            0 => &s[i..=j],
            1 => &s[..=j],
            2 => &mut s[i..=j],
            _ => &mut s[..=j],
        };
    });
    g::prove("C21", p, "a range that ends behind the largest position is refused");
    g::e_new();
    g::e_run(a, 0, n);
    st_chk(&s);
}
/// At most two of the given values.
pub struct Two<X>(Option<X>, Option<X>);
impl<X> Iterator for Two<X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        match self.0.take() {
            Some(x) => {
                self.0 = self.1.take();
                Some(x)
            }
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (unsafe { g::it_hint() }, None)
    }
}
unsafe fn two<X>(x: X, y: X, k: usize) -> Two<X> {
    if k == 0 {
        Two(None, None)
    } else if k == 1 {
        Two(Some(x), None)
    } else {
        Two(Some(x), Some(y))
    }
}
unsafe fn some() -> usize {
    let k = g::any();
    g::assume(k <= 2);
    k
}
unsafe fn s_str_extend_char() {
    init();
    let (mut s, a, n) = any_str();
    g::no_fail();
    let k = some();
    let (c, d) = (g::chr(), g::chr());
    g::assume(c.len_utf8() == 1 || c.len_utf8() == 3);
    g::assume(d.len_utf8() == 2);
    if g::any_bool() {
        s.extend(two(c, d, k));
    } else {
        s.extend(two(&c, &d, k));
    }
    g::e_new();
    g::e_run(a, 0, n);
    if k > 0 {
        g::e_run(g::chr_of(c), 0, c.len_utf8());
    }
    if k > 1 {
        g::e_run(g::chr_of(d), 0, d.len_utf8());
    }
    st_chk(&s);
}
unsafe fn small_text() -> (usize, usize) {
    let m = g::any();
    g::assume(m <= 3);
    (g::text(m), m)
}
unsafe fn s_str_extend_str() {
    init();
    let (mut s, a, n) = any_str();
    g::no_fail();
    let k = some();
    let ((b, m), (c, l)) = (small_text(), small_text());
    s.extend(two(g::text_str(b, 0, m), g::text_str(c, 0, l), k));
    g::e_new();
    g::e_run(a, 0, n);
    if k > 0 {
        g::e_run(b, 0, m);
    }
    if k > 1 {
        g::e_run(c, 0, l);
    }
    st_chk(&s);
}
unsafe fn owned(b: usize, m: usize) -> String {
    owned_m(b, m, AllocMarker::None)
}
unsafe fn owned_m(b: usize, m: usize, marker: AllocMarker) -> String {
    let mut s = String::with_capacity_and_marker(m, marker);
    let v = s.as_mut_vec();
    g::b_fill(v.as_mut_slice().as_mut_ptr(), b, 0, m);
    v.set_len(m);
    s
}
unsafe fn s_str_extend_string() {
    init();
    let (mut s, a, n) = if g::any_bool() { any_str() } else { (String::new(), g::text(0), 0) };
    g::no_fail();
    let k = some();
    let ((b, m), (c, l)) = (small_text(), small_text());
    let old = s.as_mut_vec().marker();
    let other = if g::any_bool() { AllocMarker::None } else { mk2() };
    s.extend(two(owned_m(b, m, other), owned_m(c, l, other), k));
    if old != AllocMarker::None {
        g::e_marker(&s.as_mut_vec().marker(), &old);
    }
    g::e_new();
    g::e_run(a, 0, n);
    if k > 0 {
        g::e_run(b, 0, m);
    }
    if k > 1 {
        g::e_run(c, 0, l);
    }
    st_chk_(&s);
}
unsafe fn boxed(b: usize, m: usize) -> LBox<str> {
    let v = ManuallyDrop::new(std::ptr::read(ManuallyDrop::new(owned(b, m)).as_mut_vec()).into_boxed_slice());
    std::ptr::read(&*v as *const LBox<[u8]> as *const LBox<str>)
}
unsafe fn s_str_extend_box() {
    init();
    let (mut s, a, n) = if g::any_bool() { any_str() } else { (String::new(), g::text(0), 0) };
    g::no_fail();
    let k = some();
    let ((b, m), (c, l)) = (small_text(), small_text());
    let old = s.as_mut_vec().marker();
    s.extend(two(boxed(b, m), boxed(c, l), k));
    if old != AllocMarker::None {
        g::e_marker(&s.as_mut_vec().marker(), &old);
    }
    g::e_new();
    g::e_run(a, 0, n);
    if k > 0 {
        g::e_run(b, 0, m);
    }
    if k > 1 {
        g::e_run(c, 0, l);
    }
    st_chk_(&s);
}
unsafe fn s_str_from_box() {
    init();
    g::no_fail();
    let m = lim();
    let b = g::text(m);
    let t = boxed(b, m);
    g::e_eq("C21", t.len(), m, "length of the boxed text");
    let s = String::from(t);
    g::e_new();
    g::e_run(b, 0, m);
    st_chk_(&s);
    let t: LBox<[u8]> = boxed(b, m).into();
    g::e_new();
    g::e_run(b, 0, m);
    g::e_slice("C21", t.as_ptr(), t.len());
}
unsafe fn s_str_collect() {
    init();
    g::no_fail();
    let k = some();
    let ((b, m), (c, l)) = (small_text(), small_text());
    let w = g::any();
    g::assume(w < 3);
    let s: String = match w {
        0 => two(g::text_str(b, 0, m), g::text_str(c, 0, l), k).collect(),
        1 => two(owned(b, m), owned(c, l), k).collect(),
        _ => two(boxed(b, m), boxed(c, l), k).collect(),
    };
    g::e_new();
    if k > 0 {
        g::e_run(b, 0, m);
    }
    if k > 1 {
        g::e_run(c, 0, l);
    }
    st_chk_(&s);
}
unsafe fn s_str_collect_char() {
    init();
    g::no_fail();
    let k = some();
    let (c, d) = (g::chr(), g::chr());
    let s: String = if g::any_bool() { two(c, d, k).collect() } else { two(&c, &d, k).collect() };
    g::e_new();
    if k > 0 {
        g::e_run(g::chr_of(c), 0, c.len_utf8());
    }
    if k > 1 {
        g::e_run(g::chr_of(d), 0, d.len_utf8());
    }
    st_chk_(&s);
}
// Wrapper meaning.
unsafe fn s_wrap_str() {
    init();
    g::no_fail();
    let ((x, _, _), (y, _, _)) = (any_str(), any_str());
    let (p, q) = (x.as_str(), y.as_str());
    g::prove("C22", (x == y) == (p == q), "== of the wrapper is == of the values");
    g::prove("C22", (x != y) == (p != q), "!= of the wrapper is != of the values");
    g::prove("C22", x.partial_cmp(&y) == p.partial_cmp(q), "partial_cmp of the wrapper is that of the values");
    g::prove("C22", x.cmp(&y) == p.cmp(q), "cmp of the wrapper is that of the values");
    g::prove("C22", (x < y) == (p < q), "< of the wrapper is < of the values");
    g::prove("C22", (x <= y) == (p <= q), "<= of the wrapper is <= of the values");
    g::prove("C22", (x > y) == (p > q), "> of the wrapper is > of the values");
    g::prove("C22", (x >= y) == (p >= q), ">= of the wrapper is >= of the values");
    g::prove("C22", x == x.clone(), "a clone of text is equal to it");
}
unsafe fn s_wrap_str_print() {
    init();
    g::no_fail();
    let (x, _, _) = any_str();
    is_hash(&x, x.as_str());
    is_debug(&x, x.as_str());
    is_display(&x, x.as_str());
}
unsafe fn s_str_try_with_capacity() {
    init();
    let cap = g::any();
    match String::try_with_capacity(cap) {
        Ok(s) => {
            g::prove("C10", !g::failed(), "a failed allocation is reported");
            g::prove("C21", s.capacity() >= cap, "the capacity is provided");
            fits(cap, 1);
            g::e_new();
            st_chk_(&s);
        }
        Err(_) => g::prove("C10", g::failed() || cap > isize::MAX as usize, "an error is reported only for a failed allocation"),
    }
}
