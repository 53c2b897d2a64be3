// Urc: counts of the fence, life time of the value, the master and the fences.
use lokky::urc::{Fence, Urc};
/// `s` strong and `w` weak references of the fence besides the one that is returned, `a` other
/// fences with a strong reference and `b` other fences with weak references only.
struct AnyUrc {
    k: usize,
    s: usize,
    w: usize,
    a: usize,
    b: usize,
    p: *const T,
    f: *const Fence<T>,
}
unsafe fn any_urc() -> (Urc<T>, AnyUrc) {
    g::no_fail();
    let k = g::src(1);
    let u = Urc::new(g::tok(k, 0));
    let (s, w, a, b) = (lim(), lim(), lim(), lim());
    g::rep(a, || forget(Recv.recv(u.envelop(&Recv))));
    g::rep(b, || {
        let e = Recv.recv(u.envelop(&Recv));
        forget(Urc::downgrade(&e));
        drop(e);
    });
    g::rep(s, || forget(u.clone()));
    g::rep(w, || forget(Urc::downgrade(&u)));
    g::may_fail();
    let (p, f) = (Urc::as_ptr(&u), Urc::fence_of(&u) as *const Fence<T>);
    (u, AnyUrc { k, s, w, a, b, p, f })
}
/// What is left when the fence has `s` strong and `w` weak references.
unsafe fn urc_left(x: &AnyUrc, s: usize, w: usize) {
    if s > 0 || w > 0 {
        g::prove("C16", g::is_block(x.f as *const T), "the fence stays while references are left");
        g::keep_block(x.f as *const T);
        g::e_eq("C16", (*x.f).strong_count(), s, "strong count of the fence");
        g::e_eq("C16", (*x.f).weak_count(), w, "weak count of the fence");
        g::prove("C16", (*x.f).is_strong() == (s > 0), "a strong fence has strong references");
        g::prove("C16", (*x.f).is_weak() == (s == 0), "a weak fence has no strong references");
    } else {
        g::prove("C16", !g::is_block(x.f as *const T), "the fence is given back with its last reference");
    }
    if s > 0 || x.a > 0 {
        g::e_tok("C16", x.p, x.k, 0);
        g::take_slice(x.p, 1);
        g::keep_block(x.p);
    } else if w > 0 || x.b > 0 {
        g::prove("C16", g::is_block(x.p), "the master stays while weak references are left");
        g::keep_block(x.p);
    } else {
        g::prove("C16", !g::is_block(x.p), "the master is given back with the last reference");
    }
}
unsafe fn urc_is(u: &Urc<T>, x: &AnyUrc, s: usize, w: usize) {
    g::e_eq("C16", Urc::fence_strong_count(u), s, "strong count of the fence");
    g::e_eq("C16", Urc::fence_weak_count(u), w, "weak count of the fence");
    g::e_tok("C16", Urc::as_ptr(u), x.k, 0);
    g::e_same("C16", Urc::as_ptr(u) as *const u8, x.p as *const u8, "address of the value");
    g::e_same("C16", Urc::as_ptr(u) as *const u8, &**u as *const T as *const u8, "address of the value");
}
unsafe fn s_urc_new() {
    init();
    let k = g::src(1);
    let p = g::catch(|| {
        let u = Urc::new(g::tok(k, 0));
        g::e_eq("C16", Urc::fence_strong_count(&u), 1, "strong count of the fence");
        g::e_eq("C16", Urc::fence_weak_count(&u), 0, "weak count of the fence");
        g::prove("C16", Urc::is_sole_strong_fence(&u), "a new value has one fence");
        g::e_tok("C16", &*u, k, 0);
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_urc_try_new() {
    init();
    let k = g::src(1);
    match Urc::try_new(g::tok(k, 0)) {
        Ok(u) => {
            g::prove("C10", !g::failed(), "a failed allocation is an error");
            g::e_tok("C16", &*u, k, 0);
        }
        Err(_) => g::prove("C10", g::failed(), "an error is a failed allocation"),
    }
}
unsafe fn s_urc_pin() {
    init();
    let k = g::src(1);
    if let Ok(u) = Urc::try_pin(g::tok(k, 0)) {
        g::e_tok("C16", &*u, k, 0);
    }
}
unsafe fn s_urc_uninit() {
    init();
    g::no_fail();
    let mut a = Urc::<T>::new_uninit();
    let k = g::src(1);
    match Urc::get_mut(&mut a) {
        Some(v) => {
            v.write(g::tok(k, 0));
        }
        None => g::prove("C17", false, "mutable access for the sole reference"),
    }
    let p = Urc::as_ptr(&a) as *const T;
    g::e_tok("C16", p, k, 0);
    g::take_slice(p, 1);
}
unsafe fn s_urc_counts() {
    init();
    let (u, x) = any_urc();
    urc_is(&u, &x, x.s + 1, x.w);
    g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
    let u2 = u.clone();
    urc_is(&u2, &x, x.s + 2, x.w);
    g::prove("C16", Urc::ptr_eq(&u, &u2), "clones are the same reference");
    let w1 = Urc::downgrade(&u2);
    urc_is(&u, &x, x.s + 2, x.w + 1);
    drop(u2);
    urc_is(&u, &x, x.s + 1, x.w + 1);
    drop(w1);
    urc_is(&u, &x, x.s + 1, x.w);
    g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
    forget(u);
    urc_left(&x, x.s + 1, x.w);
}
unsafe fn s_urc_drop() {
    init();
    let (u, x) = any_urc();
    let c = g::catch(move || drop(u));
    g::prove("C16", c == g::panicked(), "dropping panics only with the destructor");
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_drop_weak() {
    init();
    let (u, x) = any_urc();
    let wk = Urc::downgrade(&u);
    let c = g::catch(move || drop(u));
    g::prove("C16", c == g::panicked(), "dropping panics only with the destructor");
    g::prove("C16", g::is_block(x.f as *const T), "the fence stays while references are left");
    g::prove("C16", g::is_block(x.p), "the master stays while references are left");
    drop(wk);
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_weak_first() {
    init();
    let (u, x) = any_urc();
    let wk = Urc::downgrade(&u);
    drop(wk);
    urc_is(&u, &x, x.s + 1, x.w);
    let c = g::catch(move || drop(u));
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_two_weak() {
    init();
    let (u, x) = any_urc();
    let w1 = Urc::downgrade(&u);
    let w2 = Urc::downgrade(&u);
    let c = g::catch(move || drop(u));
    drop(w1);
    g::prove("C16", g::is_block(x.f as *const T), "the fence stays while references are left");
    drop(w2);
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_ptr_eq() {
    init();
    g::no_fail();
    let (a, b) = (g::src(1), g::src(1));
    let (x, y) = (Urc::new(g::tok(a, 0)), Urc::new(g::tok(b, 0)));
    g::prove("C16", !Urc::ptr_eq(&x, &y), "different values are different references");
}
unsafe fn s_urc_try_unwrap() {
    init();
    let (u, x) = any_urc();
    match Urc::try_unwrap(u) {
        Ok(v) => {
            g::prove("C17", x.s == 0 && x.a == 0, "only the sole strong reference is unwrapped");
            g::e_tok("C16", &v, x.k, 0);
            g::take(v);
            urc_left(&x, 0, x.w);
        }
        Err(u) => {
            g::prove("C17", x.s > 0 || x.a > 0, "the sole strong reference is unwrapped");
            urc_is(&u, &x, x.s + 1, x.w);
            g::prove("C17", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
            drop(u);
            urc_left(&x, x.s, x.w);
        }
    }
}
unsafe fn s_urc_unwrap_weak() {
    init();
    let (u, x) = any_urc();
    let wk = Urc::downgrade(&u);
    match Urc::try_unwrap(u) {
        Ok(v) => {
            g::take(v);
            g::prove("C16", g::is_block(x.f as *const T), "the fence stays while references are left");
            drop(wk);
            urc_left(&x, 0, x.w);
        }
        Err(u) => {
            drop(wk);
            forget(u);
            urc_left(&x, x.s + 1, x.w);
        }
    }
}
unsafe fn s_urc_get_mut() {
    init();
    let (mut u, x) = any_urc();
    match Urc::get_mut(&mut u) {
        Some(v) => {
            g::prove("C17", x.s == 0 && x.w == 0 && x.a == 0 && x.b == 0, "mutable access only for the sole reference");
            g::e_same("C17", v as *const T as *const u8, x.p as *const u8, "address of the value");
        }
        None => g::prove("C17", x.s > 0 || x.w > 0 || x.a > 0 || x.b > 0, "mutable access for the sole reference"),
    }
    urc_is(&u, &x, x.s + 1, x.w);
    drop(u);
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_make_mut() {
    init();
    let (mut u, x) = any_urc();
    let mut q = x.p;
    let c = g::catch(|| {
        q = Urc::make_mut(&mut u);
    });
    if !g::panicked() {
        g::prove("C10", c == g::failed(), "panics exactly when an allocation fails");
    }
    if c {
        if !g::panicked() {
            urc_is(&u, &x, x.s + 1, x.w);
            g::prove("C17", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
        }
        forget(u);
        urc_left(&x, x.s + 1, x.w);
        return;
    }
    g::e_same("C17", q as *const u8, Urc::as_ptr(&u) as *const u8, "make-mut refers to the value of the pointer");
    g::e_eq("C16", Urc::fence_strong_count(&u), 1, "strong count of the fence");
    g::e_eq("C16", Urc::fence_weak_count(&u), 0, "weak count of the fence");
    g::prove("C17", Urc::is_sole_strong_fence(&u), "the value of make-mut has one fence");
    if x.s == 0 && x.a == 0 {
        g::e_tok("C17", q, x.k, 0);
        if x.w == 0 && x.b == 0 {
            g::e_same("C16", q as *const u8, x.p as *const u8, "the sole reference stays in place");
        } else {
            g::prove("C17", q != x.p, "weak references are left behind");
            urc_left(&x, 0, x.w);
        }
    } else {
        g::e_new();
        g::e_clone(x.k, 0, 1);
        g::e_list("C17", q, 1);
        g::prove("C17", q != x.p, "other strong references keep their value");
        urc_left(&x, x.s, x.w);
    }
}
unsafe fn s_urc_make_mut_weak() {
    init();
    let (mut u, x) = any_urc();
    let wk = Urc::downgrade(&u);
    let c = g::catch(|| {
        Urc::make_mut(&mut u);
    });
    if c {
        if !g::panicked() {
            urc_is(&u, &x, x.s + 1, x.w + 1);
        }
        drop(wk);
        forget(u);
        urc_left(&x, x.s + 1, x.w);
        return;
    }
    g::e_eq("C16", Urc::fence_weak_count(&u), 0, "weak count of the fence");
    drop(wk);
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_into_fence() {
    init();
    let (u, x) = any_urc();
    match Urc::try_into_fence(u) {
        Ok(f) => {
            g::prove("C16", x.s == 0 && x.w == 0, "only the sole reference of the fence becomes the fence");
            g::e_eq("C16", f.strong_count(), 1, "strong count of the fence");
            g::e_eq("C16", f.weak_count(), 0, "weak count of the fence");
            g::prove("C16", f.is_strong() && !f.is_weak(), "the fence is strong");
            g::e_tok("C16", x.p, x.k, 0);
            let c = g::catch(move || drop(f));
            g::prove("C16", c == g::panicked(), "dropping panics only with the destructor");
            if !c {
                urc_left(&x, 0, 0);
            }
        }
        Err(u) => {
            g::prove("C16", x.s > 0 || x.w > 0, "the sole reference of the fence becomes the fence");
            urc_is(&u, &x, x.s + 1, x.w);
            forget(u);
            urc_left(&x, x.s + 1, x.w);
        }
    }
}
unsafe fn s_urc_fence_urc() {
    init();
    let (u, x) = any_urc();
    match Urc::try_into_fence(u) {
        Ok(f) => {
            let f = f.into_inner();
            g::prove("C16", !g::is_block(x.f as *const T), "the block of the fence is given back");
            let mut r = None;
            let c = g::catch(|| r = Some(f.into_urc()));
            if c {
                g::prove("C10", g::failed(), "panics only when the allocation fails");
                urc_left(&x, 0, 0);
                return;
            }
            let u = r.unwrap();
            urc_is(&u, &x, 1, 0);
            g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
            drop(u);
            urc_left(&x, 0, 0);
        }
        Err(u) => {
            forget(u);
            urc_left(&x, x.s + 1, x.w);
        }
    }
}
unsafe fn s_urc_envelop() {
    init();
    let (u, x) = any_urc();
    let mut r = None;
    let c = g::catch(|| r = Some(Recv.recv(u.envelop(&Recv))));
    g::prove("C10", c == g::failed(), "panics exactly when the allocation fails");
    urc_is(&u, &x, x.s + 1, x.w);
    if c {
        g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
        forget(u);
        urc_left(&x, x.s + 1, x.w);
        return;
    }
    let e = r.unwrap();
    urc_is(&e, &x, 1, 0);
    g::prove("C16", !Urc::is_sole_strong_fence(&u) && !Urc::is_sole_strong_fence(&e), "there are two strong fences");
    g::prove("C16", Urc::fence_of(&e) as *const Fence<T> != x.f, "the envelope has a fence of its own");
    g::prove("C16", Urc::ptr_eq(&u, &e), "an envelope holds the same value");
    drop(e);
    urc_is(&u, &x, x.s + 1, x.w);
    g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "the fence is the sole strong one");
    forget(u);
    urc_left(&x, x.s + 1, x.w);
}
unsafe fn s_urc_envelop_unread() {
    init();
    let (u, x) = any_urc();
    g::no_fail();
    let e = u.envelop(&Recv);
    drop(e);
    g::prove("C16", Urc::is_sole_strong_fence(&u) == (x.a == 0), "an envelope that is not received releases its fence");
    drop(u);
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_envelop_outlives() {
    init();
    let (u, x) = any_urc();
    g::no_fail();
    let e = Recv.recv(u.envelop(&Recv));
    drop(u);
    g::e_tok("C16", &*e, x.k, 0);
    g::prove("C16", Urc::is_sole_strong_fence(&e) == (x.a == 0 && x.s == 0), "the fence is the sole strong one");
    let c = g::catch(move || drop(e));
    urc_left(&x, x.s, x.w);
}
unsafe fn s_urc_envelop_weak() {
    init();
    let (u, x) = any_urc();
    g::no_fail();
    let e = Recv.recv(u.envelop(&Recv));
    let wk = Urc::downgrade(&e);
    let f = Urc::fence_of(&e) as *const Fence<T>;
    let c = g::catch(move || drop(u));
    let c = g::catch(move || drop(e));
    g::prove("C16", g::is_block(x.p) && g::is_block(f as *const T), "blocks stay while weak references are left");
    drop(wk);
    g::prove("C16", !g::is_block(f as *const T), "the fence is given back with its last reference");
    urc_left(&x, x.s, x.w);
}
/// Value with a weak reference to itself.
struct UrcSelf {
    t: T,
    me: core::cell::Cell<Option<lokky::urc::Weak<UrcSelf>>>,
}
impl Drop for UrcSelf {
    fn drop(&mut self) {
        unsafe {
            if let Some(w) = self.me.take() {
                drop(w);
                g::cb();
            }
        }
    }
}
unsafe fn s_urc_self() {
    init();
    g::no_fail();
    let k = g::src(1);
    let u = Urc::new(UrcSelf { t: g::tok(k, 0), me: core::cell::Cell::new(None) });
    u.me.set(Some(Urc::downgrade(&u)));
    let c = g::catch(move || drop(u));
    g::prove("C16", c == g::panicked(), "dropping panics only with the destructor");
}
/// Value with a strong reference to another one.
unsafe fn s_urc_nested() {
    init();
    g::no_fail();
    let k = g::src(1);
    let u = Urc::new(Urc::new(g::tok(k, 0)));
    let i = (*u).clone();
    let c = g::catch(move || drop(u));
    g::e_eq("C16", Urc::fence_strong_count(&i), 1, "strong count of the fence");
    g::e_tok("C16", &*i, k, 0);
}

// With other threads that own the other fences.
unsafe fn sh_left(x: &AnyUrc, strong: bool) {
    g::keep_block(x.f as *const T);
    if !g::lost() {
        g::keep_block(x.p);
        if strong {
            g::take_slice(x.p, 1);
        }
    }
}
/// The thread has no reference to the fence but the `s` and `w` other ones.
unsafe fn sh_rest(x: &AnyUrc) {
    if x.s > 0 {
        g::own(1, 0);
        sh_left(&x, true);
    } else if x.w > 0 {
        g::own(0, 1);
        sh_left(&x, false);
    } else if !g::lost() && g::is_block(x.p) {
        g::prove("C15", false, "a block without owners is given back or belongs to others");
    }
}
unsafe fn s_sh_urc_drop() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    let c = g::catch(move || drop(u));
    sh_rest(&x);
}
unsafe fn s_sh_urc_clone() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    forget(u.clone());
    forget(Urc::downgrade(&u));
    g::own(1, 0);
    forget(u);
    sh_left(&x, true);
}
unsafe fn s_sh_urc_drop_then_weak() {
    init();
    let (u, x) = any_urc();
    let wk = Urc::downgrade(&u);
    g::share(x.p, 1, 0, false);
    drop(u);
    if x.s == 0 {
        g::own(0, 1);
    }
    drop(wk);
    sh_rest(&x);
}
unsafe fn s_sh_urc_envelop() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    let mut r = None;
    let c = g::catch(|| r = Some(Recv.recv(u.envelop(&Recv))));
    if c {
        g::own(1, 0);
    } else {
        g::own(2, 0);
        drop(r);
        g::own(1, 0);
    }
    forget(u);
    sh_left(&x, true);
}
unsafe fn s_sh_urc_get_mut() {
    init();
    let (mut u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    if Urc::get_mut(&mut u).is_some() {
        g::excl();
        g::prove("C17", g::others_weak() == 0 && x.s == 0 && x.w == 0, "mutable access only for the sole reference");
    }
    g::own(1, 0);
    forget(u);
    sh_left(&x, true);
}
unsafe fn s_sh_urc_try_unwrap() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    match Urc::try_unwrap(u) {
        Ok(v) => {
            g::excl();
            g::take(v);
            if x.w > 0 {
                g::own(0, 1);
                sh_left(&x, false);
            } else if !g::lost() && g::is_block(x.p) {
                g::prove("C15", false, "a block without owners is given back or belongs to others");
            }
        }
        Err(u) => {
            g::own(1, 0);
            forget(u);
            sh_left(&x, true);
        }
    }
}
unsafe fn s_sh_urc_make_mut() {
    init();
    let (mut u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    let mut q = x.p;
    let c = g::catch(|| {
        q = Urc::make_mut(&mut u);
    });
    if c {
        forget(u);
        if !g::panicked() {
            g::own(1, 0);
            sh_left(&x, true);
        }
        return;
    }
    if q == x.p {
        g::excl();
        g::own(1, 0);
        forget(u);
        sh_left(&x, true);
    } else {
        sh_rest(&x);
    }
}
unsafe fn s_sh_urc_into_fence() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    match Urc::try_into_fence(u) {
        Ok(f) => {
            g::own(1, 0);
            drop(f);
            if !g::lost() && g::is_block(x.p) {
                g::prove("C15", false, "a block without owners is given back or belongs to others");
            }
        }
        Err(u) => {
            g::own(1, 0);
            forget(u);
            sh_left(&x, true);
        }
    }
}
unsafe fn s_sh_urc_sole() {
    init();
    let (u, x) = any_urc();
    g::share(x.p, 1, 0, false);
    if Urc::is_sole_strong_fence(&u) {
        g::excl();
    }
    g::own(1, 0);
    forget(u);
    sh_left(&x, true);
}
unsafe fn s_urc_default() {
    init();
    let k = g::n_gen();
    let p = g::catch(|| {
        let u = Urc::<Du>::default();
        g::prove("C16", g::n_gen() == k + 1, "the value is made once");
        g::e_eq("C16", Urc::fence_strong_count(&u), 1, "strong count of the fence");
        g::e_eq("C16", Urc::fence_weak_count(&u), 0, "weak count of the fence");
        g::e_tok("C16", &u.0, GEN, k);
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when an allocation fails");
    }
}
/// Value whose default is a token.
pub struct Du(T);
impl Default for Du {
    fn default() -> Du {
        unsafe { Du(g::f_gen()) }
    }
}
unsafe fn s_urc_pin_panic() {
    init();
    let k = g::src(1);
    let p = g::catch(|| {
        let u = Urc::pin(g::tok(k, 0));
        g::e_tok("C16", &*u, k, 0);
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when an allocation fails");
    }
}
