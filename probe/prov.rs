// Provided methods of iterators and of Clone: they have the meaning of the required ones, also when
// the library overrides them.
unsafe fn nth_of<I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: &mut I, a: usize, s: usize, m: usize) {
    let k = g::any();
    let r = it.nth(k);
    g::prove("C06", r.is_some() == (k < m), "nth gives something exactly while values are left");
    if let Some(t) = &r {
        g::e_tok("C06", t, a, s + k);
        g::e_eq("C06", it.len(), m - k - 1, "remaining length");
        let r = it.next();
        g::prove("C06", r.is_some() == (k + 1 < m), "next gives something exactly while values are left");
        if let Some(t) = &r {
            g::e_tok("C06", t, a, s + k + 1);
        }
    } else {
        g::e_eq("C06", it.len(), 0, "remaining length");
        g::prove("C06", it.next().is_none(), "nothing after the end");
    }
}
unsafe fn nth_back_of<I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(it: &mut I, a: usize, s: usize, m: usize) {
    let k = g::any();
    let r = it.nth_back(k);
    g::prove("C06", r.is_some() == (k < m), "nth_back gives something exactly while values are left");
    if let Some(t) = &r {
        g::e_tok("C06", t, a, s + m - 1 - k);
        g::e_eq("C06", it.len(), m - k - 1, "remaining length");
        let r = it.next_back();
        g::prove("C06", r.is_some() == (k + 1 < m), "next_back gives something exactly while values are left");
        if let Some(t) = &r {
            g::e_tok("C06", t, a, s + m - 2 - k);
        }
    } else {
        g::e_eq("C06", it.len(), 0, "remaining length");
        g::prove("C06", it.next_back().is_none(), "nothing after the end");
    }
}
unsafe fn all_of<I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, a: usize, mut s: usize, mut m: usize) {
    if g::any_bool() {
        let r = it.next();
        g::prove("C06", r.is_some() == (m > 0), "next gives something exactly while values are left");
        if let Some(t) = r {
            s += 1;
            m -= 1;
        }
    }
    if g::any_bool() {
        g::e_eq("C06", it.count(), m, "count of the values left");
    } else if g::any_bool() {
        let r = it.last();
        g::prove("C06", r.is_some() == (m > 0), "last gives something exactly while values are left");
        if let Some(t) = &r {
            g::e_tok("C06", t, a, s + m - 1);
        }
    } else if g::any_bool() {
        let k = it.fold(0, |k, t| {
            g::e_tok("C06", &t, a, s + k);
            k + 1
        });
        g::e_eq("C06", k, m, "number of values folded");
    } else {
        let k = it.rfold(0, |k, t| {
            g::e_tok("C06", &t, a, s + m - 1 - k);
            k + 1
        });
        g::e_eq("C06", k, m, "number of values folded");
    }
}
unsafe fn s_into_iter_nth() {
    init();
    let (v, a, n) = any_vec();
    let mut it = v.into_iter();
    if g::any_bool() {
        nth_of(&mut it, a, 0, n);
    } else {
        nth_back_of(&mut it, a, 0, n);
    }
}
unsafe fn s_into_iter_all() {
    init();
    let (v, a, n) = any_vec();
    let _ = g::catch(|| all_of(v.into_iter(), a, 0, n));
}
unsafe fn s_drain_nth() {
    init();
    let (mut v, a, n) = any_vec();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        if g::any_bool() {
            nth_of(&mut it, a, s, e - s);
        } else {
            nth_back_of(&mut it, a, s, e - s);
        }
    });
    drain_after(p, &v, a, n, s, e);
}
unsafe fn s_drain_all() {
    init();
    let (mut v, a, n) = any_vec();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let p = g::catch(|| all_of(v.drain(s..e), a, s, e - s));
    drain_after(p, &v, a, n, s, e);
}
unsafe fn n_sv_drain_nth<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let (st, k0) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        if g::any_bool() {
            nth_of(&mut it, a, s, e - s);
        } else {
            nth_back_of(&mut it, a, s, e - s);
        }
    });
    if !p {
        g::e_new();
        g::e_run(a, 0, s);
        g::e_run(a, e, n - e);
        chks_("C06", &v, st, n, k0);
    }
}
unsafe fn n_sv_drain_all<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let (st, k0) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| all_of(v.drain(s..e), a, s, e - s));
    if !p {
        g::e_new();
        g::e_run(a, 0, s);
        g::e_run(a, e, n - e);
        chks_("C06", &v, st, n, k0);
    }
}
/// `clone_from`: the old contents are destroyed, the new ones are clones, the source stays.
unsafe fn s_vec_clone_from() {
    init();
    let (mut v, a, n) = any_vec();
    let (w, b, m) = any_vec_m(mk2());
    let p = g::catch(|| v.clone_from(&w));
    g::e_new();
    g::e_run(b, 0, m);
    chk_m("C01", &w, mk2());
    if !p {
        g::e_new();
        g::e_clone(b, 0, m);
        g::prove("C05", v.len() <= v.capacity(), "the length is within the capacity");
        chk_("C01", &v);
    } else {
        g::e_live("C04", v.as_slice().as_ptr(), v.len());
    }
}
unsafe fn n_sv_clone_from<const N: usize>() {
    init();
    let ((mut v, a, n), (w, b, m)) = (any_sv::<N>(), any_sv::<N>());
    let st = w.is_stack();
    let p = g::catch(|| v.clone_from(&w));
    g::prove("C12", v.is_stack() != v.is_heap(), "one storage");
    g::prove("C05", v.len() <= v.capacity(), "the length is within the capacity");
    if !p {
        g::e_new();
        g::e_clone(b, 0, m);
        g::e_list("C02", v.as_slice().as_ptr(), v.len());
    } else {
        g::e_live("C04", v.as_slice().as_ptr(), v.len());
    }
    g::e_new();
    g::e_run(b, 0, m);
    chks("C02", &w, st, m, g::nalloc());
}
unsafe fn s_str_clone_from() {
    init();
    let ((mut s, a, n), (t, b, m)) = (any_str(), any_str());
    let p = g::catch(|| s.clone_from(&t));
    pan("C21", p, false);
    g::e_new();
    g::e_run(b, 0, m);
    st_chk(&t);
    if !p {
        st_chk_(&s);
    }
}
unsafe fn s_rc_clone_from() {
    init();
    let ((mut x, k, s, w, p), (y, k2, s2, w2, p2)) = (any_rc(), any_rc());
    let c = g::catch(|| x.clone_from(&y));
    g::prove("C13", c == g::panicked(), "clone_from panics only with the destructor");
    left("C13", p, k, s, w);
    g::prove("C13", Rc::ptr_eq(&x, &y), "a clone is the same value");
    rc_is(&y, k2, s2 + 2, w2);
    drop(x);
    rc_is(&y, k2, s2 + 1, w2);
    let c = g::catch(move || drop(y));
    left("C13", p2, k2, s2, w2);
}
unsafe fn s_rc_weak_clone_from() {
    init();
    let ((x, k, s, w, p), (y, k2, s2, w2, p2)) = (any_rc(), any_rc());
    let (mut u, v) = (Rc::downgrade(&x), Rc::downgrade(&y));
    u.clone_from(&v);
    rc_is(&x, k, s + 1, w);
    rc_is(&y, k2, s2 + 1, w2 + 2);
    drop(u);
    rc_is(&y, k2, s2 + 1, w2 + 1);
    drop(v);
    let c = g::catch(move || drop(x));
    left("C13", p, k, s, w);
    let c = g::catch(move || drop(y));
    left("C13", p2, k2, s2, w2);
}
unsafe fn s_arc_clone_from() {
    init();
    let ((mut x, k, s, w, p), (y, k2, s2, w2, p2)) = (any_arc(), any_arc());
    let c = g::catch(|| x.clone_from(&y));
    g::prove("C14", c == g::panicked(), "clone_from panics only with the destructor");
    arc_left(p, k, s, w);
    g::e_same("C14", Arc::as_ptr(&x) as *const u8, p2 as *const u8, "a clone is the same value");
    arc_is(&y, k2, s2 + 2, w2);
    drop(x);
    arc_is(&y, k2, s2 + 1, w2);
    let c = g::catch(move || drop(y));
    arc_left(p2, k2, s2, w2);
}
unsafe fn s_urc_clone_from() {
    init();
    let ((mut u, x), (v, y)) = (any_urc(), any_urc());
    let c = g::catch(|| u.clone_from(&v));
    g::prove("C16", c == g::panicked(), "clone_from panics only with the destructor");
    urc_left(&x, x.s, x.w);
    urc_is(&v, &y, y.s + 2, y.w);
    urc_is(&u, &y, y.s + 2, y.w);
    drop(u);
    urc_is(&v, &y, y.s + 1, y.w);
    let c = g::catch(move || drop(v));
    urc_left(&y, y.s, y.w);
}
unsafe fn z_nth_of<I: DoubleEndedIterator<Item = Z> + ExactSizeIterator>(mut it: I, m: usize) {
    let k = g::any();
    g::assume(k <= 2);
    let b = g::any_bool();
    let r = if b { it.nth(k) } else { it.nth_back(k) };
    g::prove("C06", r.is_some() == (k < m), "nth gives something exactly while values are left");
    g::e_eq("C06", it.len(), if k < m { m - k - 1 } else { 0 }, "remaining length");
    drop(r);
    if m <= 2 {
        g::e_eq("C06", it.count(), if k < m { m - k - 1 } else { 0 }, "count of the values left");
    }
}
unsafe fn s_zinto_nth() {
    init();
    let (v, n) = any_zvec();
    let p = g::catch(|| z_nth_of(v.into_iter(), n));
    if !p && !g::panicked() {
        g::e_eq("C06", g::z_live(), 0, "values that are alive");
    }
}
unsafe fn s_zdrain_nth() {
    init();
    let (mut v, n) = any_zvec();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let p = g::catch(|| z_nth_of(v.drain(s..e), e - s));
    if !p {
        zchk("C06", &v, n - (e - s), 0);
    }
}
