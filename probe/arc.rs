// Arc: counts, life time of the value and the block; with and without other threads.
use lokky::arc::{Arc, Weak as ArcWeak};
use core::mem::forget;
unsafe fn any_arc() -> (Arc<T>, usize, usize, usize, *const T) {
    g::no_fail();
    let k = g::src(1);
    let rc = Arc::new(g::tok(k, 0));
    let p = Arc::as_ptr(&rc);
    let (s, w) = (lim(), lim());
    g::rep(s, || forget(rc.clone()));
    g::rep(w, || forget(Arc::downgrade(&rc)));
    g::may_fail();
    (rc, k, s, w, p)
}
/// The value and the block after `s` strong and `w` weak references are left.
unsafe fn arc_left(p: *const T, k: usize, s: usize, w: usize) {
    if s > 0 {
        g::e_tok("C14", p, k, 0);
        g::take_slice(p, 1);
        g::keep_block(p);
    } else if w > 0 {
        g::prove("C14", g::is_block(p), "the block stays while weak references are left");
        g::keep_block(p);
    } else {
        g::prove("C14", !g::is_block(p), "the block is given back with the last reference");
    }
}
unsafe fn arc_is(rc: &Arc<T>, k: usize, s: usize, w: usize) {
    g::e_eq("C14", Arc::strong_count(rc), s, "strong count");
    g::e_eq("C14", Arc::weak_count(rc), w, "weak count");
    g::e_tok("C14", Arc::as_ptr(rc), k, 0);
    g::e_same("C14", Arc::as_ptr(rc) as *const u8, &**rc as *const T as *const u8, "address of the value");
}
unsafe fn s_arc_new() {
    init();
    let k = g::src(1);
    let p = g::catch(|| {
        let rc = Arc::new(g::tok(k, 0));
        arc_is(&rc, k, 1, 0);
        g::e_sel(Arc::as_ptr(&rc) as *const u8, &AllocMarker::None, std::any::type_name::<T>());
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_arc_try_new() {
    init();
    let k = g::src(1);
    match Arc::try_new(g::tok(k, 0)) {
        Ok(rc) => {
            g::prove("C10", !g::failed(), "a failed allocation is an error");
            arc_is(&rc, k, 1, 0);
        }
        Err(_) => g::prove("C10", g::failed(), "an error is a failed allocation"),
    }
}
unsafe fn s_arc_pin() {
    init();
    g::no_fail();
    let k = g::src(1);
    let rc = Arc::pin(g::tok(k, 0));
    g::e_tok("C14", &*rc, k, 0);
    drop(rc);
}
unsafe fn s_arc_uninit() {
    init();
    g::no_fail();
    let mut a = Arc::<T>::new_uninit();
    g::e_eq("C14", Arc::strong_count(&a), 1, "strong count");
    let k = g::src(1);
    match Arc::get_mut(&mut a) {
        Some(v) => {
            v.write(g::tok(k, 0));
        }
        None => g::prove("C17", false, "mutable access for the sole reference"),
    }
    let p = Arc::as_ptr(&a) as *const T;
    g::e_tok("C14", p, k, 0);
    g::take_slice(p, 1);
}
unsafe fn s_arc_counts() {
    init();
    let (rc, k, s, w, p) = any_arc();
    arc_is(&rc, k, s + 1, w);
    let r2 = rc.clone();
    arc_is(&rc, k, s + 2, w);
    arc_is(&r2, k, s + 2, w);
    g::prove("C14", Arc::ptr_eq(&rc, &r2), "clones are the same reference");
    let w1 = Arc::downgrade(&r2);
    arc_is(&rc, k, s + 2, w + 1);
    let w2 = Arc::downgrade(&rc);
    arc_is(&rc, k, s + 2, w + 2);
    drop(r2);
    arc_is(&rc, k, s + 1, w + 2);
    drop(w1);
    arc_is(&rc, k, s + 1, w + 1);
    drop(w2);
    arc_is(&rc, k, s + 1, w);
    forget(rc);
    arc_left(p, k, s + 1, w);
}
unsafe fn s_arc_drop() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let c = g::catch(move || drop(rc));
    g::prove("C14", c == g::panicked(), "dropping panics only with the destructor");
    arc_left(p, k, s, w);
}
unsafe fn s_arc_drop_weak() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let wk = Arc::downgrade(&rc);
    let c = g::catch(move || drop(rc));
    if s == 0 {
        g::prove("C14", g::is_block(p), "the block stays while weak references are left");
    }
    drop(wk);
    arc_left(p, k, s, w);
}
unsafe fn s_arc_weak_first() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let wk = Arc::downgrade(&rc);
    drop(wk);
    arc_is(&rc, k, s + 1, w);
    drop(rc);
    arc_left(p, k, s, w);
}
unsafe fn s_arc_ptr_eq() {
    init();
    g::no_fail();
    let (a, b) = (g::src(1), g::src(1));
    let (x, y) = (Arc::new(g::tok(a, 0)), Arc::new(g::tok(b, 0)));
    g::prove("C14", !Arc::ptr_eq(&x, &y), "different values are different references");
}
unsafe fn s_arc_try_unwrap() {
    init();
    let (rc, k, s, w, p) = any_arc();
    match Arc::try_unwrap(rc) {
        Ok(v) => {
            g::prove("C17", s == 0, "only the sole strong reference is unwrapped");
            g::e_tok("C14", &v, k, 0);
            g::take(v);
            arc_left(p, k, 0, w);
        }
        Err(rc) => {
            g::prove("C17", s > 0, "the sole strong reference is unwrapped");
            g::e_same("C17", Arc::as_ptr(&rc) as *const u8, p as *const u8, "the pointer that is returned");
            arc_is(&rc, k, s + 1, w);
            forget(rc);
            arc_left(p, k, s + 1, w);
        }
    }
}
unsafe fn s_arc_get_mut() {
    init();
    let (mut rc, k, s, w, p) = any_arc();
    match Arc::get_mut(&mut rc) {
        Some(v) => {
            g::prove("C17", s == 0 && w == 0, "mutable access only for the sole reference");
            g::e_same("C17", v as *const T as *const u8, p as *const u8, "address of the value");
        }
        None => g::prove("C17", s > 0 || w > 0, "mutable access for the sole reference"),
    }
    arc_is(&rc, k, s + 1, w);
    drop(rc);
    arc_left(p, k, s, w);
}
unsafe fn s_arc_make_mut() {
    init();
    let (mut rc, k, s, w, p) = any_arc();
    let mut q = p;
    let c = g::catch(|| {
        q = Arc::make_mut(&mut rc);
    });
    if !g::panicked() {
        g::prove("C10", c == g::failed(), "panics exactly when an allocation fails");
    }
    if c {
        arc_is(&rc, k, s + 1, w);
        forget(rc);
        arc_left(p, k, s + 1, w);
        return;
    }
    g::e_same("C17", q as *const u8, Arc::as_ptr(&rc) as *const u8, "make-mut refers to the value of the pointer");
    g::e_eq("C14", Arc::strong_count(&rc), 1, "strong count");
    g::e_eq("C14", Arc::weak_count(&rc), 0, "weak count");
    if s == 0 {
        g::e_tok("C17", q, k, 0);
        if w == 0 {
            g::e_same("C14", q as *const u8, p as *const u8, "the sole reference stays in place");
            g::e_eq("C14", g::nalloc(), 1, "allocations");
        } else {
            g::prove("C17", q != p, "weak references are left behind");
            arc_left(p, k, 0, w);
        }
    } else {
        g::e_new();
        g::e_clone(k, 0, 1);
        g::e_list("C17", q, 1);
        g::prove("C17", q != p, "other strong references keep their value");
        arc_left(p, k, s, w);
    }
}
unsafe fn s_arc_make_mut_weak() {
    init();
    let (mut rc, k, s, w, p) = any_arc();
    let wk = Arc::downgrade(&rc);
    let c = g::catch(|| {
        Arc::make_mut(&mut rc);
    });
    if c {
        arc_is(&rc, k, s + 1, w + 1);
        drop(wk);
        forget(rc);
        arc_left(p, k, s + 1, w);
        return;
    }
    g::e_eq("C14", Arc::weak_count(&rc), 0, "weak count");
    drop(wk);
    arc_left(p, k, s, w);
}
unsafe fn s_arc_envelop() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let e = Recv.recv(rc.envelop(&Recv));
    arc_is(&rc, k, s + 2, w);
    arc_is(&e, k, s + 2, w);
    g::prove("C14", Arc::ptr_eq(&rc, &e), "an envelope holds the same reference");
    drop(e);
    arc_is(&rc, k, s + 1, w);
    let e = rc.envelop(&Recv);
    drop(e);
    arc_is(&rc, k, s + 1, w);
    forget(rc);
    arc_left(p, k, s + 1, w);
}
/// Value with a weak reference to itself.
struct ArcSelf {
    t: T,
    me: core::cell::Cell<Option<ArcWeak<ArcSelf>>>,
}
impl Drop for ArcSelf {
    fn drop(&mut self) {
        unsafe {
            if let Some(w) = self.me.take() {
                drop(w);
                g::cb();
            }
        }
    }
}
unsafe fn s_arc_self() {
    init();
    g::no_fail();
    let k = g::src(1);
    let rc = Arc::new(ArcSelf { t: g::tok(k, 0), me: core::cell::Cell::new(None) });
    rc.me.set(Some(Arc::downgrade(&rc)));
    let c = g::catch(move || drop(rc));
    g::prove("C14", c == g::panicked(), "dropping panics only with the destructor");
}

// With other threads that own the remaining references.
unsafe fn s_sh_arc_drop() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    let c = g::catch(move || drop(rc));
    if !g::lost() && g::is_block(p) {
        g::own(0, 0);
        g::prove("C15", false, "a block without owners is given back or belongs to others");
    }
}
unsafe fn s_sh_arc_clone() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    forget(rc.clone());
    g::own(2, 0);
    drop(rc);
    g::own(1, 0);
    g::take_slice(p, 1);
    g::keep_block(p);
}
unsafe fn s_sh_arc_downgrade() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    let wk = Arc::downgrade(&rc);
    g::own(1, 1);
    forget(wk);
    forget(rc);
    g::take_slice(p, 1);
    g::keep_block(p);
}
unsafe fn s_sh_arc_weak_drop() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    let wk = Arc::downgrade(&rc);
    drop(wk);
    g::own(1, 0);
    forget(rc);
    g::take_slice(p, 1);
    g::keep_block(p);
}
unsafe fn s_sh_arc_last_weak() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let wk = Arc::downgrade(&rc);
    forget(rc);
    g::share(p, 0, 1, true);
    drop(wk);
    if !g::lost() && g::is_block(p) {
        g::own(0, 0);
        g::prove("C15", false, "a block without owners is given back or belongs to others");
    }
}
unsafe fn s_sh_arc_drop_then_weak() {
    init();
    let (rc, k, s, w, p) = any_arc();
    let wk = Arc::downgrade(&rc);
    g::share(p, 1, 1, true);
    drop(rc);
    g::own(0, 1);
    drop(wk);
    if !g::lost() && g::is_block(p) {
        g::prove("C15", false, "a block without owners is given back or belongs to others");
    }
}
unsafe fn s_sh_arc_get_mut() {
    init();
    let (mut rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    if Arc::get_mut(&mut rc).is_some() {
        g::excl();
        g::prove("C17", g::others_weak() == 0, "mutable access only without weak references");
    }
    g::own(1, 0);
    forget(rc);
    g::take_slice(p, 1);
    g::keep_block(p);
}
unsafe fn s_sh_arc_try_unwrap() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    match Arc::try_unwrap(rc) {
        Ok(v) => {
            g::excl();
            g::take(v);
        }
        Err(rc) => {
            g::own(1, 0);
            forget(rc);
            g::take_slice(p, 1);
            g::keep_block(p);
        }
    }
}
unsafe fn s_sh_arc_make_mut() {
    init();
    let (mut rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    let mut q = p;
    let c = g::catch(|| {
        q = Arc::make_mut(&mut rc);
    });
    if c {
        forget(rc);
        if !g::lost() && !g::panicked() {
            g::own(1, 0);
            g::take_slice(p, 1);
            g::keep_block(p);
        }
        return;
    }
    if q == p {
        g::excl();
        g::own(1, 0);
        g::take_slice(p, 1);
        g::keep_block(p);
        forget(rc);
    }
}
unsafe fn s_sh_arc_counts() {
    init();
    let (rc, k, s, w, p) = any_arc();
    g::share(p, 1, 0, true);
    Arc::strong_count(&rc);
    Arc::weak_count(&rc);
    g::own(1, 0);
    forget(rc);
    g::take_slice(p, 1);
    g::keep_block(p);
}
/// Value whose default is a token.
pub struct Df(T);
impl Default for Df {
    fn default() -> Df {
        unsafe { Df(g::f_gen()) }
    }
}
unsafe fn s_arc_default() {
    init();
    let k = g::n_gen();
    let p = g::catch(|| {
        let rc = Arc::<Df>::default();
        g::prove("C14", g::n_gen() == k + 1, "the value is made once");
        g::e_eq("C14", Arc::strong_count(&rc), 1, "strong count");
        g::e_eq("C14", Arc::weak_count(&rc), 0, "weak count");
        g::e_tok("C14", &rc.0, GEN, k);
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
