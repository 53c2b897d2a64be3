// Vec<T>: list meaning, destruction, panics, failures, markers.
use lokky::vec::Vec;
unsafe fn any_vec() -> (Vec<T>, usize, usize) {
    any_vec_m(mk())
}
unsafe fn any_vec_m(m: AllocMarker) -> (Vec<T>, usize, usize) {
    g::no_fail();
    let (cap, n) = (lim(), g::any());
    g::assume(n <= cap);
    let mut v = Vec::<T>::with_capacity_and_marker(cap, m);
    let a = g::src(n);
    g::fill(v.as_mut_slice().as_mut_ptr(), a, 0, n);
    v.set_len(n);
    g::may_fail();
    (v, a, n)
}
/// State after an operation: the expected list, or anything live after a panic of user code.
unsafe fn chk_(prop: &str, v: &Vec<T>) {
    let (c, l, s) = (v.capacity(), v.len(), v.as_slice());
    g::prove("C05", l <= c, "the length is within the capacity");
    if g::panicked() {
        g::e_live("C04", s.as_ptr(), s.len());
    } else {
        g::e_list(if g::failed() { "C10" } else { prop }, s.as_ptr(), s.len());
    }
    if c > 0 {
        let m = v.marker();
        g::e_sel(s.as_ptr() as *const u8, &m, std::any::type_name::<T>());
    }
}
unsafe fn chk(prop: &str, v: &Vec<T>) {
    chk_m(prop, v, mk());
}
unsafe fn chk_m(prop: &str, v: &Vec<T>, m: AllocMarker) {
    g::e_marker(&v.marker(), &m);
    chk_(prop, v);
}
/// After a failed allocation the storage is the same as before.
unsafe fn same_store(v: &Vec<T>, cap: usize, p: *const T) {
    if g::failed() {
        g::e_eq("C10", v.capacity(), cap, "capacity after a failed allocation");
        g::e_same("C10", v.as_slice().as_ptr() as *const u8, p as *const u8, "storage after a failed allocation");
    }
}

unsafe fn s_vec_new() {
    init();
    let v = Vec::<T>::new();
    g::e_eq("C01", v.len(), 0, "length");
    g::prove("C01", v.is_empty(), "empty");
    g::e_eq("C01", g::nalloc(), 0, "allocations");
    g::e_marker(&v.marker(), &AllocMarker::None);
    let v = Vec::<T>::with_marker(mk());
    g::e_eq("C01", v.capacity(), 0, "capacity");
    g::e_marker(&v.marker(), &mk());
    let v = <Vec<T> as Default>::default();
    g::e_eq("C01", v.len(), 0, "length");
    g::e_marker(&v.marker(), &AllocMarker::None);
}
unsafe fn s_vec_with_capacity() {
    init();
    let cap = g::any();
    match Vec::<T>::try_with_capacity_and_marker(cap, mk()) {
        Ok(v) => {
            g::prove("C10", !g::failed(), "a failed allocation is reported");
            g::prove("C01", v.capacity() >= cap, "the capacity is provided");
            fits(cap, TS);
            g::e_eq("C01", v.len(), 0, "length");
            g::e_marker(&v.marker(), &mk());
            if cap > 0 {
                let p = v.as_slice().as_ptr() as *const u8;
                g::prove("C09", g::block_size(p) / TS >= cap, "the block has room for the capacity");
                g::e_sel(p, &mk(), std::any::type_name::<T>());
            }
        }
        Err(_) => g::prove("C10", g::failed() || cap > (isize::MAX as usize) / TS, "an error is a failed or impossible request"),
    }
}
unsafe fn s_vec_with_capacity_panics() {
    init();
    let cap = g::any();
    let p = g::catch(|| {
        if g::any_bool() {
            let v = Vec::<T>::with_capacity(cap);
            g::e_marker(&v.marker(), &AllocMarker::None);
            g::prove("C01", v.capacity() >= cap && v.len() == 0, "the capacity is provided");
            fits(cap, TS);
        } else {
            let v = Vec::<T>::with_capacity_and_marker(cap, mk());
            g::e_marker(&v.marker(), &mk());
            g::prove("C01", v.capacity() >= cap && v.len() == 0, "the capacity is provided");
            fits(cap, TS);
        }
    });
    g::prove("C10", p == (g::failed() || cap > (isize::MAX as usize) / TS), "panics exactly when the request fails");
}
unsafe fn s_vec_reserve() {
    init();
    let (mut v, a, n) = any_vec();
    let add = g::any();
    let c0 = v.capacity();
    let p0 = v.as_slice().as_ptr();
    let mut err = false;
    let k0 = g::any_bool();
    let k1 = g::any_bool();
    let p = g::catch(|| {
        if k0 {
            if k1 {
                err = v.try_reserve(add).is_err()
            } else {
                err = v.try_reserve_exact(add).is_err()
            }
        } else if k1 {
            v.reserve(add)
        } else {
            v.reserve_exact(add)
        }
    });
    let big = add > isize::MAX as usize / TS - n;
    if !p && !err {
        g::prove("C10", !g::failed(), "a failed allocation is reported");
        g::prove("C01", v.capacity() - v.len() >= add, "room is reserved");
        g::prove("C09", !big, "a capacity that is not representable in bytes is refused");
        if v.capacity() > 0 {
            g::prove("C09", g::block_size(v.as_slice().as_ptr() as *const u8) / TS >= v.capacity(), "the block has room for the capacity");
        }
        if c0 - n >= add {
            g::e_eq("C01", v.capacity(), c0, "capacity when there is room already");
        }
    } else {
        if k0 {
            g::prove("C10", !p || add > usize::MAX - n, "the fallible reservation panics only for unrepresentable lengths");
        }
        // Doubling may ask for more than is needed.
        g::prove("C10", g::failed() || big || (k1 && c0 > (isize::MAX as usize) / 48), "an error is a failed or impossible request");
        same_store(&v, c0, p0);
        g::e_eq("C10", v.capacity(), c0, "capacity after a refused reservation");
    }
    g::e_new();
    g::e_run(a, 0, n);
    chk("C01", &v);
}
unsafe fn s_vec_shrink() {
    init();
    let (mut v, a, n) = any_vec();
    let c0 = v.capacity();
    let p0 = v.as_slice().as_ptr();
    let min = g::any();
    let k = g::any_bool();
    let p = g::catch(|| if k { v.shrink_to_fit() } else { v.shrink_to(min) });
    pan("C01", p, false);
    if !p {
        let want = if k || min < n { n } else { min };
        g::e_eq("C01", v.capacity(), if want < c0 { want } else { c0 }, "capacity");
    }
    same_store(&v, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    chk("C01", &v);
}
unsafe fn s_vec_views() {
    init();
    let (mut v, a, n) = any_vec();
    let c = v.capacity();
    g::e_eq("C01", v.len(), n, "length");
    g::prove("C01", v.is_empty() == (n == 0), "is_empty");
    g::prove("C01", v.is_full() == (n == c), "is_full");
    g::e_eq("C01", v.spare_len(), c - n, "spare length");
    g::e_eq("C05", v.spare_capacity().len(), c - n, "spare slots");
    g::e_eq("C05", v.spare_capacity_mut().len(), c - n, "spare slots");
    let b = v.as_slice().as_ptr();
    g::e_same("C05", v.spare_capacity().as_ptr() as *const u8, b.add(n) as *const u8, "spare slots");
    g::e_same("C05", v.spare_capacity_mut().as_ptr() as *const u8, b.add(n) as *const u8, "spare slots");
    g::e_same("C01", v.as_ptr() as *const u8, b as *const u8, "address");
    g::e_same("C01", v.as_mut() as *const u8, b as *const u8, "address");
    g::e_new();
    g::e_run(a, 0, n);
    let s = v.as_mut_slice();
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &[T] = v.as_ref();
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &mut [T] = AsMut::as_mut(&mut v);
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &[T] = std::borrow::Borrow::borrow(&v);
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &mut [T] = std::borrow::BorrowMut::borrow_mut(&mut v);
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &[T] = &v;
    g::e_list("C01", s.as_ptr(), s.len());
    let s: &mut [T] = &mut v;
    g::e_list("C01", s.as_ptr(), s.len());
    chk("C01", &v);
}
unsafe fn s_vec_index() {
    init();
    let (mut v, a, n) = any_vec();
    let i = g::any();
    let k = g::any_bool();
    let mut q: *const T = std::ptr::null();
    let p = g::catch(|| if k { q = &v[i] } else { q = &mut v[i] });
    pan("C05", p, i >= n);
    if !p {
        g::e_tok("C01", q, a, i);
    }
    let j = g::any();
    let mut s: *const [T] = &[];
    let p = g::catch(|| if k { s = &v[i..j] } else { s = &mut v[i..j] });
    pan("C05", p, i > j || j > n);
    if !p {
        g::e_new();
        g::e_run(a, i, j - i);
        let s = &*s;
        g::e_list("C01", s.as_ptr(), s.len());
    }
    g::prove("C01", v.get(i).is_some() == (i < n), "get");
    g::e_new();
    g::e_run(a, 0, n);
    chk("C01", &v);
}
unsafe fn s_vec_push() {
    init();
    let (mut v, a, n) = any_vec();
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let p = g::catch(|| v.push(t));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(x, 0, 1);
    }
    chk("C01", &v);
}
unsafe fn s_vec_pop() {
    init();
    let (mut v, a, n) = any_vec();
    let r = v.pop();
    g::prove("C01", r.is_some() == (n > 0), "pop of an empty list gives nothing");
    g::e_new();
    if let Some(t) = &r {
        g::e_tok("C01", t, a, n - 1);
        g::e_run(a, 0, n - 1);
    }
    chk("C01", &v);
}
unsafe fn s_vec_insert() {
    init();
    let (mut v, a, n) = any_vec();
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let i = g::any();
    let p = g::catch(|| v.insert(i, t));
    pan("C01", p, i > n);
    same_store(&v, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(x, 0, 1);
        g::e_run(a, i, n - i);
    }
    chk("C01", &v);
}
unsafe fn s_vec_remove() {
    init();
    let (mut v, a, n) = any_vec();
    let i = g::any();
    let mut r = None;
    let p = g::catch(|| r = Some(v.remove(i)));
    pan("C01", p, i >= n);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(a, i + 1, n - i - 1);
    }
    if let Some(t) = &r {
        g::e_tok("C01", t, a, i);
    }
    chk("C01", &v);
}
unsafe fn s_vec_swap_remove() {
    init();
    let (mut v, a, n) = any_vec();
    let i = g::any();
    let mut r = None;
    let p = g::catch(|| r = Some(v.swap_remove(i)));
    pan("C01", p, i >= n);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else if i + 1 == n {
        g::e_run(a, 0, i);
    } else {
        g::e_run(a, 0, i);
        g::e_run(a, n - 1, 1);
        g::e_run(a, i + 1, n - i - 2);
    }
    if let Some(t) = &r {
        g::e_tok("C01", t, a, i);
    }
    chk("C01", &v);
}
unsafe fn s_vec_truncate() {
    init();
    let (mut v, a, n) = any_vec();
    let c0 = v.capacity();
    let i = g::any();
    let p = g::catch(|| v.truncate(i));
    pan("C01", p, false);
    g::e_eq("C01", v.capacity(), c0, "capacity");
    g::e_new();
    g::e_run(a, 0, if i < n { i } else { n });
    chk("C01", &v);
}
unsafe fn s_vec_clear() {
    init();
    let (mut v, a, n) = any_vec();
    let c0 = v.capacity();
    let p = g::catch(|| v.clear());
    pan("C01", p, false);
    g::e_eq("C01", v.capacity(), c0, "capacity");
    g::e_new();
    chk("C01", &v);
}
unsafe fn s_vec_append() {
    init();
    let (mut v, a, n) = any_vec();
    let (mut w, b, m) = any_vec_m(mk2());
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let p = g::catch(|| v.append(&mut w));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(b, 0, m);
    }
    chk("C01", &v);
    g::e_new();
    if p {
        g::e_run(b, 0, m);
    }
    chk_m("C01", &w, mk2());
}
unsafe fn s_vec_split_off() {
    init();
    let (mut v, a, n) = any_vec();
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let i = g::any();
    let mut w = None;
    let p = g::catch(|| w = Some(v.split_off(i)));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    let k = if p || i > n { n } else { i };
    g::e_new();
    g::e_run(a, 0, k);
    chk("C01", &v);
    if let Some(w) = &w {
        g::e_new();
        g::e_run(a, k, n - k);
        chk_("C01", w);
    }
}
unsafe fn s_vec_extend_from_slice() {
    init();
    let (mut v, a, n) = any_vec();
    let (w, b, m) = any_vec_m(mk2());
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let p = g::catch(|| v.extend_from_slice(&w));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_clone(b, 0, m);
    }
    chk("C01", &v);
    g::e_new();
    g::e_run(b, 0, m);
    chk_m("C01", &w, mk2());
}
unsafe fn s_vec_clone() {
    init();
    let (v, a, n) = any_vec();
    let mut w = None;
    let p = g::catch(|| w = Some(v.clone()));
    pan("C01", p, false);
    if let Some(w) = &w {
        g::e_new();
        g::e_clone(a, 0, n);
        chk_("C01", w);
    }
    g::e_new();
    g::e_run(a, 0, n);
    chk("C01", &v);
}
unsafe fn s_vec_from_slice() {
    init();
    let (mut v, a, n) = any_vec();
    let mut w = None;
    let k = g::any_bool();
    let p = g::catch(|| w = Some(if k { Vec::from(&v[..]) } else { Vec::from(&mut v[..]) }));
    pan("C01", p, false);
    if let Some(w) = &w {
        g::e_new();
        g::e_clone(a, 0, n);
        chk_("C01", w);
    }
    g::e_new();
    g::e_run(a, 0, n);
    chk("C01", &v);
}
unsafe fn s_vec_extend_from_iter() {
    init();
    let (mut v, a, n) = any_vec();
    let p = g::catch(|| v.extend_from_iter(It(1)));
    pan("C01", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    if !g::failed() {
        g::e_run(IT, 0, g::n_it());
        chk("C01", &v);
    } else {
        // What was added before the failure stays.
        g::e_live("C10", v.as_slice().as_ptr(), v.len());
    }
}
unsafe fn s_vec_from_iter() {
    init();
    let mut v = None;
    let p = g::catch(|| v = Some(It(1).collect::<Vec<T>>()));
    pan("C01", p, false);
    if let Some(v) = &v {
        g::e_new();
        g::e_run(IT, 0, g::n_it());
        chk_("C01", v);
    }
}
unsafe fn s_vec_resize() {
    init();
    let (mut v, a, n) = any_vec();
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let m = lim();
    let p = g::catch(|| v.resize(m, t));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, if m < n { m } else { n });
        if m > n {
            g::e_clone(x, 0, m - n);
        }
    }
    chk("C01", &v);
}
unsafe fn s_vec_resize_with() {
    init();
    let (mut v, a, n) = any_vec();
    let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
    let m = lim();
    let p = g::catch(|| v.resize_with(m, || g::f_gen()));
    pan("C01", p, false);
    same_store(&v, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, if m < n { m } else { n });
        if m > n {
            g::e_run(GEN, 0, m - n);
        }
    }
    chk("C01", &v);
}
unsafe fn s_vec_from_array() {
    init();
    let p = g::catch(|| {
        let x = g::src(3);
        let w = Vec::from([g::tok(x, 0), g::tok(x, 1), g::tok(x, 2)]);
        g::e_new();
        g::e_run(x, 0, 3);
        chk_("C01", &w);
        let w = Vec::from([] as [T; 0]);
        g::e_new();
        chk_("C01", &w);
    });
    pan("C01", p, false);
}
unsafe fn s_vec_boxed_slice() {
    init();
    let (v, a, n) = any_vec();
    let p = g::catch(|| {
        let b = v.into_boxed_slice();
        g::e_new();
        g::e_run(a, 0, n);
        g::e_list("C01", b.as_ptr(), b.len());
        let w = Vec::from(b);
        g::e_eq("C01", w.len(), n, "length");
        chk("C01", &w);
    });
    pan("C01", p, false);
}
unsafe fn s_vec_drop_boxed_slice() {
    init();
    let (v, a, n) = any_vec();
    let p = g::catch(|| {
        let b = v.into_boxed_slice();
        drop(b);
    });
    pan("C01", p, false);
}
unsafe fn s_vec_leak() {
    init();
    let (v, a, n) = any_vec();
    let s = v.leak();
    g::e_new();
    g::e_run(a, 0, n);
    g::e_list("C01", s.as_ptr(), s.len());
    g::keep_block(s.as_ptr());
    g::take_slice(s.as_ptr(), s.len());
}
unsafe fn s_vec_dealloc_without_drop() {
    init();
    let (v, a, n) = any_vec();
    g::take_slice(v.as_slice().as_ptr(), n);
    v.dealloc_without_drop();
}
unsafe fn s_vec_two_ops() {
    // An operation after a refused or panicking one still has its meaning.
    init();
    let (mut v, a, n) = any_vec();
    let i = g::any();
    let p = g::catch(|| v.truncate(i));
    let x = g::src(1);
    let t = g::tok(x, 0);
    g::no_panic();
    g::no_fail();
    v.push(t);
    g::e_new();
    g::e_run(a, 0, if i < n { i } else { n });
    g::e_run(x, 0, 1);
    let s = v.as_slice();
    g::e_list("C04", s.as_ptr(), s.len());
}

// ---- retain and dedup
unsafe fn s_vec_retain() {
    init();
    let (mut v, a, n) = any_vec();
    let p = g::catch(|| v.retain(|t| g::f_pred(t)));
    pan("C07", p, false);
    g::e_new();
    g::e_kept(a, 0, n);
    chk("C07", &v);
}
unsafe fn s_vec_dedup() {
    init();
    let (mut v, a, n) = any_vec();
    let p = g::catch(|| v.dedup());
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chk("C07", &v);
}
unsafe fn s_vec_dedup_by() {
    init();
    let (mut v, a, n) = any_vec();
    let p = g::catch(|| v.dedup_by(|x, y| g::f_same(x, y)));
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chk("C07", &v);
}
pub struct K(usize);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        unsafe { g::k_eq(self.0, o.0) }
    }
}
unsafe fn s_vec_dedup_by_key() {
    init();
    let (mut v, a, n) = any_vec();
    let p = g::catch(|| v.dedup_by_key(|x| K(g::f_key(x))));
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chk("C07", &v);
}

// ---- owning iterator
unsafe fn s_into_iter_steps() {
    init();
    let (v, a, n) = any_vec();
    let mut it = v.into_iter();
    let (mut f, mut b) = (0, 0);
    while g::any_bool() {
        g::e_eq("C06", it.len(), n - f - b, "remaining length");
        let (lo, hi) = it.size_hint();
        g::e_eq("C06", lo, n - f - b, "lower size");
        g::prove("C06", hi.is_some(), "upper size");
        g::e_eq("C06", hi.unwrap_or(0), n - f - b, "upper size");
        if g::any_bool() {
            let r = it.next();
            g::prove("C06", r.is_some() == (f + b < n), "next gives something exactly while values are left");
            if let Some(t) = &r {
                g::e_tok("C06", t, a, f);
                f += 1;
            }
        } else {
            let r = it.next_back();
            g::prove("C06", r.is_some() == (f + b < n), "next_back gives something exactly while values are left");
            if let Some(t) = &r {
                g::e_tok("C06", t, a, n - 1 - b);
                b += 1;
            }
        }
    }
    let s = it.as_slice();
    g::e_new();
    g::e_run(a, f, n - f - b);
    g::e_list("C06", s.as_ptr(), s.len());
    let s = it.as_slice_mut();
    g::e_list("C06", s.as_ptr(), s.len());
    let s: &[T] = it.as_ref();
    g::e_list("C06", s.as_ptr(), s.len());
    if g::any_bool() {
        // Exhaust and ask again.
        while let Some(t) = it.next() {
            g::e_tok("C06", &t, a, f);
            f += 1;
        }
        g::e_eq("C06", f + b, n, "number of values given");
        g::prove("C06", it.next().is_none(), "nothing after the end");
        g::prove("C06", it.next_back().is_none(), "nothing after the end");
        g::e_eq("C06", it.len(), 0, "remaining length");
    }
}

// ---- drain
unsafe fn drain_after(p: bool, v: &Vec<T>, a: usize, n: usize, s: usize, e: usize) {
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, s);
        g::e_run(a, e, n - e);
    }
    chk("C06", v);
}
unsafe fn s_drain_steps() {
    init();
    let (mut v, a, n) = any_vec();
    let (s, e) = (g::any(), g::any());
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        g::prove("C06", s <= e && e <= n, "the range is inside of the list");
        let m = e - s;
        let (mut f, mut b) = (0, 0);
        while g::any_bool() {
            g::e_eq("C06", it.len(), m - f - b, "remaining length");
            let (lo, hi) = it.size_hint();
            g::e_eq("C06", lo, m - f - b, "lower size");
            g::prove("C06", hi.is_some(), "upper size");
            g::e_eq("C06", hi.unwrap_or(0), m - f - b, "upper size");
            if g::any_bool() {
                let r = it.next();
                g::prove("C06", r.is_some() == (f + b < m), "next gives something exactly while values are left");
                if let Some(t) = &r {
                    g::e_tok("C06", t, a, s + f);
                    f += 1;
                }
            } else {
                let r = it.next_back();
                g::prove("C06", r.is_some() == (f + b < m), "next_back gives something exactly while values are left");
                if let Some(t) = &r {
                    g::e_tok("C06", t, a, e - 1 - b);
                    b += 1;
                }
            }
        }
        let r = it.as_slice();
        g::e_new();
        g::e_run(a, s + f, m - f - b);
        g::e_list("C06", r.as_ptr(), r.len());
    });
    pan("C06", p, s > e || e > n);
    drain_after(p, &v, a, n, s, e);
}
unsafe fn s_drain_ranges() {
    init();
    let (mut v, a, n) = any_vec();
    let i = g::any();
    let j = g::any();
    let (mut s, mut e) = (0, 0);
    let mut bad = false;
    let p;
    if g::any_bool() {
        s = i;
        e = n;
        bad = i > n;
        p = g::catch(|| drop(v.drain(i..)));
    } else if g::any_bool() {
        e = i;
        bad = i > n;
        p = g::catch(|| drop(v.drain(..i)));
    } else if g::any_bool() {
        bad = i >= n;
        e = if bad { 0 } else { i + 1 };
        p = g::catch(|| drop(v.drain(..=i)));
    } else if g::any_bool() {
        bad = j >= n || i > j + 1;
        s = i;
        e = if bad { 0 } else { j + 1 };
        p = g::catch(|| drop(v.drain(i..=j)));
    } else if g::any_bool() {
        use std::ops::Bound::*;
        bad = i >= n;
        s = if bad { 0 } else { i + 1 };
        e = n;
        p = g::catch(|| drop(v.drain((Excluded(i), Unbounded))));
    } else {
        e = n;
        p = g::catch(|| drop(v.drain(..)));
    }
    pan("C06", p, bad);
    drain_after(p, &v, a, n, s, e);
}
unsafe fn s_drain_exhaust() {
    init();
    let (mut v, a, n) = any_vec();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let p = g::catch(|| {
        let mut f = s;
        let mut it = v.drain(s..e);
        while let Some(t) = it.next() {
            g::e_tok("C06", &t, a, f);
            f += 1;
        }
        g::e_eq("C06", f, e, "number of values given");
        g::prove("C06", it.next().is_none(), "nothing after the end");
        g::prove("C06", it.next_back().is_none(), "nothing after the end");
    });
    pan("C06", p, false);
    drain_after(p, &v, a, n, s, e);
}
unsafe fn s_drain_forget() {
    init();
    let (mut v, a, n) = any_vec();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let d = v.drain(s..e);
    std::mem::forget(d);
    g::e_live("C06", v.as_slice().as_ptr(), v.len());
    g::take_slice(v.as_slice().as_ptr().add(v.len()), n - v.len());
}
