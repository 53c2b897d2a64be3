// Elements without a size: identity is not observable, so lengths, numbers of values destroyed
// and handed out, requests to allocators.
unsafe fn any_zvec() -> (Vec<Z>, usize) {
    any_zvec_m(mk())
}
unsafe fn any_zvec_m(m: AllocMarker) -> (Vec<Z>, usize) {
    let n = g::any();
    g::z_src(n);
    let mut v = Vec::<Z>::with_marker(m);
    v.set_len(n);
    (v, n)
}
/// Length, no requests, and as many values alive as there are in the vector (and `more`).
unsafe fn zchk(prop: &str, v: &Vec<Z>, n: usize, more: usize) {
    zchk_m(prop, v, n, more, mk())
}
unsafe fn zchk_m(prop: &str, v: &Vec<Z>, n: usize, more: usize, m: AllocMarker) {
    if !g::panicked() {
        g::e_eq(prop, v.len(), n, "length");
        g::e_eq(prop, v.as_slice().len(), n, "length of the slice");
        g::e_eq(if prop == "C06" { "C06" } else { "C03" }, g::z_live(), n + more, "values that are alive");
    }
    g::prove("C05", v.len() <= v.capacity(), "the length is within the capacity");
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
    g::e_marker(&v.marker(), &m);
}
unsafe fn s_zvec_new() {
    init();
    let cap = g::any();
    let v = Vec::<Z>::with_capacity_and_marker(cap, mk());
    g::prove("C01", v.capacity() >= cap, "the capacity is provided");
    zchk("C01", &v, 0, 0);
}
unsafe fn s_zvec_push() {
    init();
    let (mut v, n) = any_zvec();
    g::assume(n < usize::MAX);
    g::z_src(1);
    v.push(Z);
    zchk("C01", &v, n + 1, 0);
}
unsafe fn s_zvec_push_full() {
    init();
    g::no_panic();
    let (mut v, n) = any_zvec();
    g::assume(n == usize::MAX);
    g::z_src(1);
    let p = g::catch(|| v.push(Z));
    g::prove("C01", p, "a length that is not representable is refused");
    g::e_eq("C01", v.len(), n, "length");
    std::mem::forget(v);
    g::z_take(g::z_live());
}
unsafe fn s_zvec_reserve() {
    init();
    let (mut v, n) = any_zvec();
    let m = g::any();
    let p = if g::any_bool() { g::catch(|| v.reserve(m)) } else { g::catch(|| v.reserve_exact(m)) };
    g::prove("C01", p == (m > usize::MAX - n), "fails exactly when the capacity is not representable");
    zchk("C01", &v, n, 0);
}
unsafe fn s_zvec_shrink() {
    init();
    let (mut v, n) = any_zvec();
    let m = g::any();
    if g::any_bool() {
        v.shrink_to_fit();
    } else {
        v.shrink_to(m);
    }
    zchk("C01", &v, n, 0);
    g::assume(n < usize::MAX);
    g::z_src(1);
    v.push(Z);
    zchk("C01", &v, n + 1, 0);
}
unsafe fn s_zvec_pop() {
    init();
    let (mut v, n) = any_zvec();
    let r = v.pop();
    g::prove("C01", r.is_some() == (n > 0), "pop of an empty list gives nothing");
    if r.is_some() {
        zchk("C01", &v, n - 1, 1);
    } else {
        zchk("C01", &v, n, 0);
    }
}
unsafe fn s_zvec_insert() {
    init();
    let (mut v, n) = any_zvec();
    g::assume(n < usize::MAX);
    let i = g::any();
    g::z_src(1);
    let p = g::catch(|| v.insert(i, Z));
    pan("C01", p, i > n);
    zchk("C01", &v, if p { n } else { n + 1 }, 0);
}
unsafe fn s_zvec_remove() {
    init();
    let (mut v, n) = any_zvec();
    let i = g::any();
    let mut r = None;
    let p = if g::any_bool() { g::catch(|| r = Some(v.remove(i))) } else { g::catch(|| r = Some(v.swap_remove(i))) };
    pan("C01", p, i >= n);
    if p {
        zchk("C01", &v, n, 0);
    } else {
        zchk("C01", &v, n - 1, 1);
    }
}
unsafe fn s_zvec_truncate() {
    init();
    let (mut v, n) = any_zvec();
    let m = g::any();
    let p = g::catch(|| v.truncate(m));
    pan("C01", p, false);
    zchk("C01", &v, if m < n { m } else { n }, 0);
}
unsafe fn s_zvec_clear() {
    init();
    let (mut v, n) = any_zvec();
    let p = g::catch(|| v.clear());
    zchk("C01", &v, 0, 0);
}
unsafe fn s_zvec_append() {
    init();
    let (mut v, n) = any_zvec();
    let (mut w, m) = any_zvec_m(mk2());
    let p = g::catch(|| v.append(&mut w));
    g::prove("C01", p == (m > usize::MAX - n), "fails exactly when the length is not representable");
    if !p {
        zchk("C01", &v, n + m, 0);
        zchk_m("C01", &w, 0, n + m, mk2());
    }
    std::mem::forget(v);
    std::mem::forget(w);
    g::z_take(g::z_live());
}
unsafe fn s_zvec_split_off() {
    init();
    let (mut v, n) = any_zvec();
    let i = g::any();
    let w = v.split_off(i);
    g::e_eq("C01", v.len(), if i < n { i } else { n }, "length of the first part");
    g::e_eq("C01", w.len(), if i < n { n - i } else { 0 }, "length of the second part");
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
}
unsafe fn s_zvec_clone() {
    init();
    let (v, n) = any_zvec();
    g::assume(n <= 2);
    let mut w = None;
    let p = g::catch(|| w = Some(v.clone()));
    if let Some(w) = &w {
        g::e_eq("C01", w.len(), n, "length of the clone");
        g::e_eq("C03", g::z_live(), n + n, "values that are alive");
    }
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
}
unsafe fn s_zvec_boxed_slice() {
    init();
    let (v, n) = any_zvec();
    let b = v.into_boxed_slice();
    g::e_eq("C01", b.len(), n, "length");
    g::e_eq("C03", g::z_live(), n, "values that are alive");
    if g::any_bool() {
        let v = Vec::from(b);
        g::e_eq("C01", v.len(), n, "length");
        g::e_eq("C03", g::z_live(), n, "values that are alive");
        g::prove("C05", v.len() <= v.capacity(), "the length is within the capacity");
    } else {
        let p = g::catch(|| drop(b));
        if !p {
            g::e_eq("C03", g::z_live(), 0, "values that are alive");
        }
    }
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
}
unsafe fn s_zvec_forgets() {
    init();
    let (v, n) = any_zvec();
    if g::any_bool() {
        g::e_eq("C01", v.leak().len(), n, "length");
    } else {
        v.dealloc_without_drop();
    }
    g::e_eq("C03", g::z_live(), n, "values that are alive");
    g::z_take(n);
}
unsafe fn s_zvec_drop() {
    init();
    let (v, n) = any_zvec();
    let p = g::catch(|| drop(v));
    if !p {
        g::e_eq("C03", g::z_live(), 0, "values that are alive");
    }
}
unsafe fn s_zvec_resize() {
    init();
    let (mut v, n) = any_zvec();
    let m = g::any();
    g::assume(n > m || m - n <= 2);
    g::z_src(1);
    let p = g::catch(|| v.resize(m, Z));
    pan("C01", p, false);
    zchk("C01", &v, m, 0);
}
unsafe fn s_zvec_retain() {
    init();
    let (mut v, n) = any_zvec();
    g::assume(n <= 3);
    let (mut k, mut l) = (0, 0);
    let p = g::catch(|| {
        v.retain(|_| {
            k += 1;
            if g::any_bool() {
                l += 1;
                true
            } else {
                false
            }
        })
    });
    if !p {
        g::e_eq("C07", k, n, "the predicate is asked once for every element");
        zchk("C07", &v, l, 0);
    }
}
unsafe fn s_zvec_from_array() {
    init();
    g::z_src(2);
    let v = Vec::from([Z, Z]);
    g::e_eq("C01", v.len(), 2, "length");
    g::e_eq("C03", g::z_live(), 2, "values that are alive");
}
unsafe fn s_zinto_iter() {
    init();
    let (v, n) = any_zvec();
    let mut it = v.into_iter();
    let mut f = 0;
    while g::any_bool() {
        g::e_eq("C06", it.len(), n - f, "remaining length");
        let r = if g::any_bool() { it.next() } else { it.next_back() };
        g::prove("C06", r.is_some() == (f < n), "gives something exactly while values are left");
        if r.is_some() {
            f += 1;
        }
    }
    g::e_eq("C06", it.as_slice().len(), n - f, "remaining values");
    let l = g::z_live();
    if !g::panicked() {
        g::e_eq("C06", l, n - f, "values that are alive");
    }
    let p = g::catch(|| drop(it));
    if !p && !g::panicked() {
        g::e_eq("C06", g::z_live(), 0, "values that are alive");
    }
}
unsafe fn s_zinto_exhaust() {
    init();
    let (v, n) = any_zvec();
    g::assume(n <= 2);
    let mut it = v.into_iter();
    let mut f = 0;
    while let Some(z) = it.next() {
        f += 1;
    }
    g::e_eq("C06", f, n, "number of values given");
    g::prove("C06", it.next().is_none() && it.next_back().is_none(), "nothing after the end");
}
unsafe fn s_zdrain() {
    init();
    let (mut v, n) = any_zvec();
    let (s, e) = (g::any(), g::any());
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        g::prove("C06", s <= e && e <= n, "the range is inside of the list");
        let m = e - s;
        let mut f = 0;
        while g::any_bool() {
            g::e_eq("C06", it.len(), m - f, "remaining length");
            let r = if g::any_bool() { it.next() } else { it.next_back() };
            g::prove("C06", r.is_some() == (f < m), "gives something exactly while values are left");
            if r.is_some() {
                f += 1;
            }
        }
    });
    pan("C06", p, s > e || e > n);
    zchk("C06", &v, if p { n } else { n - (e - s) }, 0);
}
// ---- small vectors
unsafe fn any_zsv<const N: usize>() -> (SmallVec<Z, N>, usize) {
    let (v, n) = any_zvec();
    let mut s = SmallVec::<Z, N>::from(v);
    if g::any_bool() {
        g::assume(n <= N);
        let r = s.try_move_to_stack();
        g::prove("C12", r.is_ok() && s.is_stack(), "values that fit move to the stack");
    }
    (s, n)
}
unsafe fn zchks<const N: usize>(v: &SmallVec<Z, N>, n: usize, more: usize) {
    if !g::panicked() {
        g::e_eq("C02", v.len(), n, "length");
        g::e_eq("C02", v.as_slice().len(), n, "length of the slice");
        g::e_eq("C03", g::z_live(), n + more, "values that are alive");
    }
    g::prove("C05", v.len() <= v.capacity(), "the length is within the capacity");
    g::prove("C12", v.is_heap() || v.capacity() == N, "inline capacity");
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
}
unsafe fn n_zsv_push<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    g::assume(n < usize::MAX);
    g::z_src(1);
    v.push(Z);
    zchks(&v, n + 1, 0);
}
unsafe fn n_zsv_pop<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let r = v.pop();
    g::prove("C02", r.is_some() == (n > 0), "pop of an empty list gives nothing");
    if r.is_some() {
        zchks(&v, n - 1, 1);
    } else {
        zchks(&v, n, 0);
    }
}
unsafe fn n_zsv_insert<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    g::assume(n < usize::MAX);
    let i = g::any();
    g::z_src(1);
    let p = g::catch(|| v.insert(i, Z));
    pan("C02", p, i > n);
    zchks(&v, if p { n } else { n + 1 }, 0);
}
unsafe fn n_zsv_remove<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let i = g::any();
    let mut r = None;
    let p = if g::any_bool() { g::catch(|| r = Some(v.remove(i))) } else { g::catch(|| r = Some(v.swap_remove(i))) };
    pan("C02", p, i >= n);
    if p {
        zchks(&v, n, 0);
    } else {
        zchks(&v, n - 1, 1);
    }
}
unsafe fn n_zsv_truncate<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let m = g::any();
    let p = g::catch(|| v.truncate(m));
    pan("C02", p, false);
    zchks(&v, if m < n { m } else { n }, 0);
}
unsafe fn n_zsv_moves<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    if g::any_bool() {
        v.move_to_heap();
        g::prove("C12", v.is_heap(), "moved to the heap");
        zchks(&v, n, 0);
    } else {
        let r = v.try_move_to_stack();
        g::prove("C12", r.is_ok() == (n <= N), "moving inline succeeds exactly when the values fit");
        zchks(&v, n, 0);
    }
}
unsafe fn n_zsv_drop<const N: usize>() {
    init();
    let (v, n) = any_zsv::<N>();
    let p = g::catch(|| drop(v));
    if !p {
        g::e_eq("C03", g::z_live(), 0, "values that are alive");
    }
}
unsafe fn n_zsv_split_off<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let i = g::any();
    let mut w = None;
    let p = g::catch(|| w = Some(v.split_off(i)));
    if let Some(w) = &w {
        g::e_eq("C02", v.len(), if i < n { i } else { n }, "length of the first part");
        g::e_eq("C02", w.len(), if i < n { n - i } else { 0 }, "length of the second part");
    }
    g::e_eq("C09", g::nalloc(), 0, "requests for elements without a size");
}
unsafe fn n_zsv_append<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let (mut w, m) = any_zsv::<N>();
    g::assume(m <= usize::MAX - n);
    let p = g::catch(|| v.append(&mut w));
    pan("C02", p, false);
    zchks(&v, n + m, 0);
    zchks(&w, 0, n + m);
}
unsafe fn n_zsv_into_vec<const N: usize>() {
    init();
    let (v, n) = any_zsv::<N>();
    let w = v.into_vec();
    zchk("C02", &w, n, 0);
}
unsafe fn n_zsv_drain<const N: usize>() {
    init();
    let (mut v, n) = any_zsv::<N>();
    let (s, e) = (g::any(), g::any());
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        let m = e - s;
        if g::any_bool() {
            let r = it.next();
            g::prove("C06", r.is_some() == (m > 0), "gives something exactly while values are left");
        }
    });
    pan("C06", p, s > e || e > n);
    zchks(&v, if p { n } else { n - (e - s) }, 0);
}
