// SmallVec<T, N> for every N: list meaning in either storage, inline storage, markers.
use lokky::small_vec::SmallVec;
unsafe fn any_sv<const N: usize>() -> (SmallVec<T, N>, usize, usize) {
    any_sv_m(mk())
}
unsafe fn any_sv_m<const N: usize>(m: AllocMarker) -> (SmallVec<T, N>, usize, usize) {
    let (v, a, n) = any_vec_m(m);
    g::no_fail();
    let mut s = SmallVec::<T, N>::from(v);
    if g::any_bool() {
        g::assume(n <= N);
        let r = s.try_move_to_stack();
        g::prove("C12", r.is_ok() && s.is_stack(), "values that fit move to the stack");
    }
    g::may_fail();
    (s, a, n)
}
/// State after an operation. `stack`: it was inline before; `need`: elements the operation needs
/// room for; `k`: number of allocation requests before it.
unsafe fn chks_<const N: usize>(prop: &str, v: &SmallVec<T, N>, stack: bool, need: usize, k: usize) {
    chks_m(prop, v, stack, need, k, mk())
}
unsafe fn chks_m<const N: usize>(prop: &str, v: &SmallVec<T, N>, stack: bool, need: usize, k: usize, m: AllocMarker) {
    let (c, l, s) = (v.capacity(), v.len(), v.as_slice());
    g::prove("C05", l <= c, "the length is within the capacity");
    g::prove("C12", v.is_stack() != v.is_heap(), "one storage");
    if v.is_stack() {
        g::e_eq("C12", c, N, "inline capacity");
    }
    if stack && need <= N {
        g::prove("C12", v.is_stack(), "stays inline while everything fits");
        g::e_eq("C12", g::nalloc(), k, "allocation requests of an inline vector");
    }
    if g::panicked() {
        g::e_live("C04", s.as_ptr(), s.len());
    } else {
        g::e_list(if g::failed() { "C10" } else { prop }, s.as_ptr(), s.len());
    }
    if v.is_heap() && c > 0 {
        g::e_sel(s.as_ptr() as *const u8, &m, std::any::type_name::<T>());
    }
}
unsafe fn chks<const N: usize>(prop: &str, v: &SmallVec<T, N>, stack: bool, need: usize, k: usize) {
    chks_(prop, v, stack, need, k);
    if v.is_stack() {
        kept_marker(v, mk());
    }
}
/// Storage that an inline vector would move to is requested with the marker of the vector.
unsafe fn kept_marker<const N: usize>(v: &SmallVec<T, N>, m: AllocMarker) {
    g::look(true);
    let w = std::ptr::read(v).into_vec();
    g::e_marker(&w.marker(), &m);
    let mut w = std::mem::ManuallyDrop::new(w);
    w.set_len(0);
    drop(std::mem::ManuallyDrop::into_inner(w));
    g::look(false);
}
/// A refused allocation leaves everything as it was.
unsafe fn same_sv<const N: usize>(v: &SmallVec<T, N>, stack: bool, cap: usize, p: *const T) {
    if g::failed() {
        g::prove("C10", v.is_stack() == stack, "kind of storage after a failed allocation");
        g::e_eq("C10", v.capacity(), cap, "capacity after a failed allocation");
        g::e_same("C10", v.as_slice().as_ptr() as *const u8, p as *const u8, "storage after a failed allocation");
    }
}
unsafe fn n_sv_new<const N: usize>() {
    init();
    let v = SmallVec::<T, N>::new();
    g::e_eq("C02", v.len(), 0, "length");
    g::prove("C02", v.is_empty(), "empty");
    g::prove("C12", v.is_stack() && !v.is_heap(), "inline");
    g::e_eq("C12", v.capacity(), N, "inline capacity");
    let v = SmallVec::<T, N>::with_marker(mk());
    g::e_eq("C02", v.len(), 0, "length");
    g::prove("C12", v.is_stack(), "inline");
    let v = <SmallVec<T, N> as Default>::default();
    g::e_eq("C02", v.len(), 0, "length");
    g::prove("C12", v.is_stack(), "inline");
    g::e_eq("C12", g::nalloc(), 0, "allocations");
}
unsafe fn n_sv_with_capacity<const N: usize>() {
    init();
    let cap = g::any();
    let (mut err, mut p) = (false, false);
    let mut v = None;
    if g::any_bool() {
        match SmallVec::<T, N>::try_with_capacity_and_marker(cap, mk()) {
            Ok(x) => v = Some(x),
            Err(_) => err = true,
        }
    } else {
        p = g::catch(|| v = Some(SmallVec::<T, N>::with_capacity_and_marker(cap, mk())));
    }
    g::prove("C10", (p || err) == (g::failed() || (cap > N && cap > (isize::MAX as usize) / TS)), "fails exactly when the request fails");
    if let Some(v) = &v {
        g::prove("C12", v.is_stack() == (cap <= N), "inline exactly when the capacity fits");
        g::prove("C02", v.capacity() >= cap && v.len() == 0, "the capacity is provided");
        fits(cap, TS);
        g::e_new();
        chks("C02", v, true, cap, 0);
    }
    let mut v = None;
    if g::any_bool() {
        p = g::catch(|| v = Some(SmallVec::<T, N>::with_capacity(cap)));
    } else {
        match SmallVec::<T, N>::try_with_capacity(cap) {
            Ok(x) => v = Some(x),
            Err(_) => {}
        }
    }
    if let Some(v) = &v {
        g::prove("C12", v.is_stack() == (cap <= N), "inline exactly when the capacity fits");
        g::prove("C02", v.capacity() >= cap && v.len() == 0, "the capacity is provided");
        fits(cap, TS);
    }
}
unsafe fn n_sv_reserve<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let add = g::any();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let mut err = false;
    let k0 = g::any_bool();
    let k1 = g::any_bool();
    let p = g::catch(|| {
        if k0 {
            if k1 {
                err = v.try_reserve(add).is_err()
            } else {
                err = v.try_reserve_exact(add).is_err()
            }
        } else if k1 {
            v.reserve(add)
        } else {
            v.reserve_exact(add)
        }
    });
    let big = add > isize::MAX as usize / TS - n;
    if !p && !err {
        g::prove("C10", !g::failed(), "a failed allocation is reported");
        g::prove("C02", v.capacity() - v.len() >= add, "room is reserved");
        g::prove("C09", !big, "a capacity that is not representable in bytes is refused");
        if c0 - n >= add {
            g::e_eq("C02", v.capacity(), c0, "capacity when there is room already");
        }
    } else {
        if k0 {
            g::prove("C10", !p || add > usize::MAX - n, "the fallible reservation panics only for unrepresentable lengths");
        }
        g::prove("C10", g::failed() || big || (k1 && !st && c0 > (isize::MAX as usize) / 48), "an error is a failed or impossible request");
        same_sv(&v, st, c0, p0);
        g::e_eq("C10", v.capacity(), c0, "capacity after a refused reservation");
    }
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, st, if add <= 1 << 40 { n + add } else { usize::MAX }, k);
}
unsafe fn n_sv_move_to_heap_huge<const N: usize>() {
    init();
    g::no_fail();
    let (mut v, a, n) = any_sv::<N>();
    let add = g::any();
    g::assume(add > isize::MAX as usize / TS - n);
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let mut err = false;
    let p = g::catch(|| err = v.try_move_to_heap_and_reserve_exact(add).is_err());
    g::prove("C09", p || err || !st, "a capacity that is not representable in bytes is refused");
    if p || err {
        same_sv(&v, st, c0, p0);
    }
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, v.is_stack(), 0, k);
}
unsafe fn n_sv_move_to_heap<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let add = lim();
    let (c0, p0, st) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack());
    let mut err = false;
    let k0 = g::any_bool();
    let p = g::catch(|| {
        if k0 {
            v.move_to_heap()
        } else {
            err = v.try_move_to_heap_and_reserve_exact(add).is_err()
        }
    });
    g::prove("C10", (p || err) == g::failed() && !(p && !k0), "fails exactly when the allocation fails");
    if !p && !err {
        g::prove("C02", v.is_heap(), "moved to the heap");
        g::prove("C02", k0 || v.capacity() - v.len() >= add, "room is reserved");
    }
    same_sv(&v, st, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, false, 0, 0);
}
unsafe fn n_sv_move_to_stack<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let k = g::nalloc();
    let r = v.try_move_to_stack();
    g::prove("C12", r.is_ok() == (n <= N), "moves to the stack exactly when the elements fit");
    g::prove("C12", v.is_stack() == (n <= N), "storage after the move");
    g::e_eq("C12", g::nalloc(), k, "allocations of the move to the stack");
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, true, n, k);
}
unsafe fn n_sv_shrink<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let min = g::any();
    let b = g::any_bool();
    let p = g::catch(|| if b { v.shrink_to_fit() } else { v.shrink_to(min) });
    pan("C02", p, false);
    if !p && !st {
        let want = if b || min < n { n } else { min };
        g::prove("C02", v.capacity() >= if want < c0 { want } else { c0 }, "capacity");
    }
    same_sv(&v, st, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_views<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c, st, k) = (v.capacity(), v.is_stack(), g::nalloc());
    g::e_eq("C02", v.len(), n, "length");
    g::prove("C02", v.is_empty() == (n == 0), "is_empty");
    g::prove("C02", v.is_full() == (n == c), "is_full");
    g::e_eq("C02", v.spare_len(), c - n, "spare length");
    g::e_eq("C05", v.spare_capacity().len(), c - n, "spare slots");
    g::e_eq("C05", v.spare_capacity_mut().len(), c - n, "spare slots");
    let b = v.as_slice().as_ptr();
    g::e_same("C05", v.spare_capacity().as_ptr() as *const u8, b.add(n) as *const u8, "spare slots");
    g::e_same("C05", v.spare_capacity_mut().as_ptr() as *const u8, b.add(n) as *const u8, "spare slots");
    g::e_same("C02", v.as_ptr() as *const u8, b as *const u8, "address");
    g::e_same("C02", v.as_mut_ptr() as *const u8, b as *const u8, "address");
    g::e_new();
    g::e_run(a, 0, n);
    let s = v.as_mut_slice();
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &[T] = v.as_ref();
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &mut [T] = v.as_mut();
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &[T] = std::borrow::Borrow::borrow(&v);
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &mut [T] = std::borrow::BorrowMut::borrow_mut(&mut v);
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &[T] = &v;
    g::e_list("C02", s.as_ptr(), s.len());
    let s: &mut [T] = &mut v;
    g::e_list("C02", s.as_ptr(), s.len());
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_index<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let i = g::any();
    let b = g::any_bool();
    let mut q: *const T = std::ptr::null();
    let p = g::catch(|| if b { q = &v[i] } else { q = &mut v[i] });
    pan("C05", p, i >= n);
    if !p {
        g::e_tok("C02", q, a, i);
    }
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_push<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let p = g::catch(|| v.push(t));
    pan("C02", p, false);
    same_sv(&v, st, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(x, 0, 1);
    }
    chks("C02", &v, st, n + 1, k);
}
unsafe fn n_sv_pop<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let r = v.pop();
    g::prove("C02", r.is_some() == (n > 0), "pop of an empty list gives nothing");
    g::e_new();
    if let Some(t) = &r {
        g::e_tok("C02", t, a, n - 1);
        g::e_run(a, 0, n - 1);
    }
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_insert<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let i = g::any();
    let p = g::catch(|| v.insert(i, t));
    pan("C02", p, i > n);
    same_sv(&v, st, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(x, 0, 1);
        g::e_run(a, i, n - i);
    }
    chks("C02", &v, st, n + 1, k);
}
unsafe fn n_sv_remove<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let i = g::any();
    let mut r = None;
    let p = g::catch(|| r = Some(v.remove(i)));
    pan("C02", p, i >= n);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, i);
        g::e_run(a, i + 1, n - i - 1);
    }
    if let Some(t) = &r {
        g::e_tok("C02", t, a, i);
    }
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_swap_remove<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let i = g::any();
    let mut r = None;
    let p = g::catch(|| r = Some(v.swap_remove(i)));
    pan("C02", p, i >= n);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else if i + 1 == n {
        g::e_run(a, 0, i);
    } else {
        g::e_run(a, 0, i);
        g::e_run(a, n - 1, 1);
        g::e_run(a, i + 1, n - i - 2);
    }
    if let Some(t) = &r {
        g::e_tok("C02", t, a, i);
    }
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_truncate<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, st, k) = (v.capacity(), v.is_stack(), g::nalloc());
    let i = g::any();
    let p = g::catch(|| v.truncate(i));
    pan("C02", p, false);
    g::e_eq("C02", v.capacity(), c0, "capacity");
    g::e_new();
    g::e_run(a, 0, if i < n { i } else { n });
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_clear<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, st, k) = (v.capacity(), v.is_stack(), g::nalloc());
    let p = g::catch(|| v.clear());
    pan("C02", p, false);
    g::e_eq("C02", v.capacity(), c0, "capacity");
    g::e_new();
    chks("C02", &v, st, n, k);
}
unsafe fn n_sv_append<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (mut w, b, m) = any_sv_m::<N>(mk2());
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let st2 = w.is_stack();
    let p = g::catch(|| v.append(&mut w));
    pan("C02", p, false);
    same_sv(&v, st, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_run(b, 0, m);
    }
    chks("C02", &v, st, n + m, k);
    g::e_new();
    if p {
        g::e_run(b, 0, m);
    }
    g::prove("C12", !st2 || w.is_stack(), "an emptied inline vector stays inline");
    chks_m("C02", &w, false, 0, 0, mk2());
    if w.is_stack() {
        kept_marker(&w, mk2());
    }
}
unsafe fn n_sv_split_off<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let i = g::any();
    let mut w = None;
    let p = g::catch(|| w = Some(v.split_off(i)));
    pan("C02", p, i > n);
    same_sv(&v, st, c0, p0);
    let e = if p { n } else { i };
    g::e_new();
    g::e_run(a, 0, e);
    chks("C02", &v, st, n, if st { k } else { g::nalloc() });
    if let Some(w) = &w {
        g::e_new();
        g::e_run(a, e, n - e);
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack() == (n - e <= N), "the split part is inline exactly when it fits");
        g::prove("C05", w.len() <= w.capacity(), "the length is within the capacity");
    }
}
unsafe fn n_sv_split_into<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let i = g::any();
    let mut w = None;
    let p = g::catch(|| w = Some(v.split_off_into::<3>(i)));
    pan("C02", p, i > n);
    let e = if p { n } else { i };
    g::e_new();
    g::e_run(a, 0, e);
    g::e_list("C02", v.as_slice().as_ptr(), v.len());
    if let Some(w) = &w {
        g::e_new();
        g::e_run(a, e, n - e);
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack() == (n - e <= 3), "the split part is inline exactly when it fits");
    }
}
unsafe fn n_sv_extend_from_slice<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (w, b, m) = any_vec_m(mk2());
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let p = g::catch(|| v.extend_from_slice(&w));
    pan("C02", p, false);
    same_sv(&v, st, c0, p0);
    g::e_new();
    g::e_run(a, 0, n);
    if !p {
        g::e_clone(b, 0, m);
    }
    chks("C02", &v, st, n + m, k);
    g::e_new();
    g::e_run(b, 0, m);
    chk_m("C02", &w, mk2());
}
unsafe fn n_sv_clone<const N: usize>() {
    init();
    let (v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let mut w = None;
    let p = g::catch(|| w = Some(v.clone()));
    pan("C02", p, false);
    if let Some(w) = &w {
        g::e_new();
        g::e_clone(a, 0, n);
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack() == (n <= N), "a clone is inline exactly when it fits");
        g::prove("C12", n > N || g::nalloc() == k, "an inline clone does not allocate");
    }
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, false, 0, 0);
}
unsafe fn n_sv_from_slice<const N: usize>() {
    init();
    let (mut v, a, n) = any_vec();
    let k = g::nalloc();
    let mut w = None;
    let b = g::any_bool();
    let p = g::catch(|| w = Some(if b { SmallVec::<T, N>::from(&v[..]) } else { SmallVec::<T, N>::from(&mut v[..]) }));
    pan("C02", p, false);
    if let Some(w) = &w {
        g::e_new();
        g::e_clone(a, 0, n);
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack() == (n <= N), "inline exactly when it fits");
        g::prove("C12", n > N || g::nalloc() == k, "an inline vector does not allocate");
    }
    g::e_new();
    g::e_run(a, 0, n);
    chk("C02", &v);
}
unsafe fn n_sv_extend<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let p = g::catch(|| v.extend(It(1)));
    pan("C02", p, false);
    if g::failed() {
        g::e_live("C10", v.as_slice().as_ptr(), v.len());
    } else {
        g::e_new();
        g::e_run(a, 0, n);
        g::e_run(IT, 0, g::n_it());
        chks("C02", &v, false, 0, 0);
    }
}
unsafe fn n_sv_from_iter<const N: usize>() {
    init();
    let mut v = None;
    let p = g::catch(|| v = Some(It(1).collect::<SmallVec<T, N>>()));
    pan("C02", p, false);
    if let Some(v) = &v {
        g::e_new();
        g::e_run(IT, 0, g::n_it());
        g::e_list("C02", v.as_slice().as_ptr(), v.len());
    }
}
unsafe fn n_sv_resize<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let x = g::src(1);
    let t = g::tok(x, 0);
    let m = lim();
    let p = g::catch(|| v.resize(m, t));
    pan("C02", p, false);
    same_sv(&v, st, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, if m < n { m } else { n });
        if m > n {
            g::e_clone(x, 0, m - n);
        }
    }
    chks("C02", &v, st, m, k);
}
unsafe fn n_sv_resize_with<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (c0, p0, st, k) = (v.capacity(), v.as_slice().as_ptr(), v.is_stack(), g::nalloc());
    let m = lim();
    let p = g::catch(|| v.resize_with(m, || g::f_gen()));
    pan("C02", p, false);
    same_sv(&v, st, c0, p0);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, if m < n { m } else { n });
        if m > n {
            g::e_run(GEN, 0, m - n);
        }
    }
    chks("C02", &v, st, m, k);
}
unsafe fn n_sv_from_array<const N: usize>() {
    init();
    let p = g::catch(|| {
        let x = g::src(3);
        let w = SmallVec::<T, N>::from([g::tok(x, 0), g::tok(x, 1), g::tok(x, 2)]);
        g::e_new();
        g::e_run(x, 0, 3);
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack() == (3 <= N), "inline exactly when it fits");
        g::prove("C12", 3 > N || g::nalloc() == 0, "an inline vector does not allocate");
        let w = SmallVec::<T, N>::from([] as [T; 0]);
        g::e_new();
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        g::prove("C12", w.is_stack(), "inline exactly when it fits");
    });
    pan("C02", p, false);
}
unsafe fn n_sv_into_vec<const N: usize>() {
    init();
    let (v, a, n) = any_sv::<N>();
    let mut w = None;
    let p = g::catch(|| w = Some(v.into_vec()));
    pan("C02", p, false);
    if let Some(w) = &w {
        g::e_new();
        g::e_run(a, 0, n);
        chk("C02", w);
    }
}
unsafe fn n_sv_boxed_slice<const N: usize>() {
    init();
    let (v, a, n) = any_sv::<N>();
    let p = g::catch(|| {
        let b = v.into_boxed_slice();
        g::e_new();
        g::e_run(a, 0, n);
        g::e_list("C02", b.as_ptr(), b.len());
        let w = SmallVec::<T, N>::from(b);
        g::e_eq("C02", w.len(), n, "length");
        g::e_list("C02", w.as_slice().as_ptr(), w.len());
        if w.capacity() > 0 && w.is_heap() {
            g::e_sel(w.as_slice().as_ptr() as *const u8, &mk(), std::any::type_name::<T>());
        }
    });
    pan("C02", p, false);
}
unsafe fn n_sv_from_vec<const N: usize>() {
    init();
    let (v, a, n) = any_vec();
    let k = g::nalloc();
    let mut w = SmallVec::<T, N>::from(v);
    g::e_new();
    g::e_run(a, 0, n);
    g::e_list("C02", w.as_slice().as_ptr(), w.len());
    g::e_eq("C02", g::nalloc(), k, "allocations");
    // The marker of the vector stays with the list.
    let x = g::src(1);
    let t = g::tok(x, 0);
    let p = g::catch(|| w.push(t));
    pan("C02", p, false);
    if !p {
        g::e_run(x, 0, 1);
    }
    chks("C02", &w, false, 0, k);
}
unsafe fn n_sv_round_trip<const N: usize>() {
    // Heap, stack and heap again: the marker is that of the list all the time.
    init();
    let (mut v, a, n) = any_sv::<N>();
    g::assume(n <= N);
    let _ = v.try_move_to_stack();
    let p = g::catch(|| v.move_to_heap());
    pan("C02", p, false);
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, false, 0, 0);
}
unsafe fn n_sv_retain<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| v.retain(|t| g::f_pred(t)));
    pan("C07", p, false);
    g::e_new();
    g::e_kept(a, 0, n);
    chks("C07", &v, st, n, k);
}
unsafe fn n_sv_dedup<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| v.dedup());
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chks("C07", &v, st, n, k);
}
unsafe fn n_sv_dedup_by<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| v.dedup_by(|x, y| g::f_same(x, y)));
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chks("C07", &v, st, n, k);
}
unsafe fn n_sv_dedup_by_key<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| v.dedup_by_key(|x| K(g::f_key(x))));
    pan("C07", p, false);
    g::e_new();
    g::e_dedup(a, 0, n);
    chks("C07", &v, st, n, k);
}
unsafe fn n_sv_drain_steps<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (s, e) = (g::any(), g::any());
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| {
        let mut it = v.drain(s..e);
        let m = e - s;
        let (mut f, mut b) = (0, 0);
        while g::any_bool() {
            g::e_eq("C06", it.len(), m - f - b, "remaining length");
            let (lo, hi) = it.size_hint();
            g::e_eq("C06", lo, m - f - b, "lower size");
            g::e_eq("C06", hi.unwrap(), m - f - b, "upper size");
            if g::any_bool() {
                let r = it.next();
                g::prove("C06", r.is_some() == (f + b < m), "next gives something exactly while values are left");
                if let Some(t) = &r {
                    g::e_tok("C06", t, a, s + f);
                    f += 1;
                }
            } else {
                let r = it.next_back();
                g::prove("C06", r.is_some() == (f + b < m), "next_back gives something exactly while values are left");
                if let Some(t) = &r {
                    g::e_tok("C06", t, a, e - 1 - b);
                    b += 1;
                }
            }
        }
        let r = it.as_slice();
        g::e_new();
        g::e_run(a, s + f, m - f - b);
        g::e_list("C06", r.as_ptr(), r.len());
    });
    pan("C06", p, s > e || e > n);
    g::e_new();
    if p {
        g::e_run(a, 0, n);
    } else {
        g::e_run(a, 0, s);
        g::e_run(a, e, n - e);
    }
    chks_("C06", &v, st, n, k);
}
unsafe fn n_sv_drain_exhaust<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let (s, e) = (g::any(), g::any());
    g::assume(s <= e && e <= n);
    let (st, k) = (v.is_stack(), g::nalloc());
    let p = g::catch(|| {
        let mut f = s;
        let mut it = v.drain(s..e);
        while let Some(t) = it.next() {
            g::e_tok("C06", &t, a, f);
            f += 1;
        }
        g::e_eq("C06", f, e, "number of values given");
        g::prove("C06", it.next().is_none(), "nothing after the end");
        g::prove("C06", it.next_back().is_none(), "nothing after the end");
    });
    pan("C06", p, false);
    g::e_new();
    g::e_run(a, 0, s);
    g::e_run(a, e, n - e);
    chks("C06", &v, st, n, k);
}
unsafe fn n_sv_two_ops<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let i = g::any();
    let p = g::catch(|| v.truncate(i));
    let x = g::src(1);
    let t = g::tok(x, 0);
    g::no_panic();
    g::no_fail();
    v.push(t);
    g::e_new();
    g::e_run(a, 0, if i < n { i } else { n });
    g::e_run(x, 0, 1);
    let s = v.as_slice();
    g::e_list("C04", s.as_ptr(), s.len());
}
unsafe fn n_sv_ref<const N: usize>() {
    init();
    let (mut v, a, n) = any_sv::<N>();
    let p = &v as *const SmallVec<T, N> as *const u8;
    let r: &SmallVec<T, N> = v.as_ref();
    g::e_same("C02", r as *const SmallVec<T, N> as *const u8, p, "the borrowed form is the list itself");
    let r: &mut SmallVec<T, N> = v.as_mut();
    g::e_same("C02", r as *const SmallVec<T, N> as *const u8, p, "the borrowed form is the list itself");
    g::e_new();
    g::e_run(a, 0, n);
    chks("C02", &v, false, 0, 0);
}
/// References to the bytes of a text.
struct Br(&'static [u8], usize);
impl Iterator for Br {
    type Item = &'static u8;
    fn next(&mut self) -> Option<&'static u8> {
        if self.1 < self.0.len() {
            self.1 += 1;
            Some(unsafe { &*self.0.as_ptr().add(self.1 - 1) })
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unsafe { (g::it_hint(), None) }
    }
}
unsafe fn n_sv_extend_copies<const N: usize>() {
    init();
    let n = lim();
    let k = g::text(n);
    let b = g::text_str(k, 0, n);
    let mut v = SmallVec::<u8, N>::new();
    let p = g::catch(|| v.extend(Br(b.as_bytes(), 0)));
    pan("C02", p, false);
    if !p {
        g::e_eq("C02", v.len(), n, "every value is added");
    }
    let mut i = H(1);
    i.write(v.as_slice());
    let mut i = H(2);
    i.write(&b.as_bytes()[..v.len()]);
    g::e_log("C02", 1, 2, "the values are added in order");
}
unsafe fn n_sv_markers<const N: usize>() {
    // Every way of making a list with a marker: all of its storage is requested with that marker.
    init();
    let cap = lim();
    let mut v = if g::any_bool() {
        SmallVec::<T, N>::with_marker(mk())
    } else if g::any_bool() {
        match SmallVec::<T, N>::try_with_capacity_and_marker(cap, mk()) {
            Ok(v) => v,
            Err(_) => return,
        }
    } else {
        let mut r = None;
        let _ = g::catch(|| r = Some(SmallVec::<T, N>::with_capacity_and_marker(cap, mk())));
        match r {
            Some(v) => v,
            None => return,
        }
    };
    if g::any_bool() {
        let a = g::src(1);
        let p = g::catch(|| v.push(g::tok(a, 0)));
        if p {
            return;
        }
    }
    let w = match g::any_bool() {
        true => {
            let _ = g::catch(|| v.reserve(N + 1));
            if v.is_heap() {
                g::prove("C11", v.capacity() > 0, "storage for the reserved elements");
                g::e_sel(v.as_slice().as_ptr() as *const u8, &mk(), std::any::type_name::<T>());
            }
            return;
        }
        false => {
            let mut r = None;
            let _ = g::catch(|| r = Some(v.into_vec()));
            match r {
                Some(v) => v,
                None => return,
            }
        }
    };
    g::e_marker(&w.marker(), &mk());
    if w.capacity() > 0 {
        g::e_sel(w.as_slice().as_ptr() as *const u8, &mk(), std::any::type_name::<T>());
    }
}
