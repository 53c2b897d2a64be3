// Rc: counts, life time of the value and the block.
use lokky::rc::{Rc, Weak as RcWeak};
/// Shared value with `s` other strong and `w` weak references, for any `s` and `w`.
unsafe fn any_rc() -> (Rc<T>, usize, usize, usize, *const T) {
    g::no_fail();
    let k = g::src(1);
    let rc = Rc::new(g::tok(k, 0));
    let p = Rc::as_ptr(&rc);
    let (s, w) = (lim(), lim());
    g::rep(s, || core::mem::forget(rc.clone()));
    g::rep(w, || core::mem::forget(Rc::downgrade(&rc)));
    g::may_fail();
    (rc, k, s, w, p)
}
/// The value and the block after `s` strong and `w` weak references are left.
unsafe fn left(prop: &str, p: *const T, k: usize, s: usize, w: usize) {
    if s > 0 {
        g::e_tok(prop, p, k, 0);
        g::take_slice(p, 1);
        g::keep_block(p);
    } else if w > 0 {
        g::prove(prop, g::is_block(p), "the block stays while weak references are left");
        g::keep_block(p);
    } else {
        g::prove(prop, !g::is_block(p), "the block is given back with the last reference");
    }
}
unsafe fn rc_is(rc: &Rc<T>, k: usize, s: usize, w: usize) {
    g::e_eq("C13", Rc::strong_count(rc), s, "strong count");
    g::e_eq("C13", Rc::weak_count(rc), w, "weak count");
    g::e_tok("C13", Rc::as_ptr(rc), k, 0);
    g::e_same("C13", Rc::as_ptr(rc) as *const u8, &**rc as *const T as *const u8, "address of the value");
}
unsafe fn s_rc_new() {
    init();
    let k = g::src(1);
    let p = g::catch(|| {
        let rc = Rc::new(g::tok(k, 0));
        rc_is(&rc, k, 1, 0);
        g::e_sel(Rc::as_ptr(&rc) as *const u8, &AllocMarker::None, std::any::type_name::<T>());
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_rc_from_box() {
    init();
    let k = g::src(1);
    g::no_fail();
    let b = lokky::boxed::Box::new(g::tok(k, 0));
    g::may_fail();
    let p = g::catch(move || {
        let rc = Rc::from(b);
        rc_is(&rc, k, 1, 0);
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_rc_counts() {
    init();
    let (rc, k, s, w, p) = any_rc();
    rc_is(&rc, k, s + 1, w);
    let r2 = rc.clone();
    rc_is(&rc, k, s + 2, w);
    rc_is(&r2, k, s + 2, w);
    g::prove("C13", Rc::ptr_eq(&rc, &r2), "clones are the same reference");
    let w1 = Rc::downgrade(&r2);
    rc_is(&rc, k, s + 2, w + 1);
    g::e_eq("C13", w1.strong_count(), s + 2, "strong count of a weak reference");
    g::e_eq("C13", w1.weak_count(), w + 1, "weak count of a weak reference");
    g::e_same("C13", w1.as_ptr() as *const u8, p as *const u8, "address of the value");
    let w2 = w1.clone();
    g::prove("C13", w1.ptr_eq(&w2), "clones are the same reference");
    rc_is(&rc, k, s + 2, w + 2);
    drop(r2);
    rc_is(&rc, k, s + 1, w + 2);
    drop(w1);
    rc_is(&rc, k, s + 1, w + 1);
    drop(w2);
    rc_is(&rc, k, s + 1, w);
    core::mem::forget(rc);
    left("C13", p, k, s + 1, w);
}
unsafe fn s_rc_drop() {
    init();
    let (rc, k, s, w, p) = any_rc();
    let c = g::catch(move || drop(rc));
    g::prove("C13", c == g::panicked(), "dropping panics only with the destructor");
    left("C13", p, k, s, w);
}
unsafe fn s_rc_drop_weak() {
    init();
    let (rc, k, s, w, p) = any_rc();
    let wk = Rc::downgrade(&rc);
    let c = g::catch(move || drop(rc));
    g::e_eq("C13", wk.strong_count(), s, "strong count");
    g::e_eq("C13", wk.weak_count(), w + 1, "weak count");
    if s == 0 {
        g::prove("C13", wk.upgrade().is_none(), "a dead value cannot be upgraded");
        let w2 = wk.clone();
        g::e_eq("C13", wk.weak_count(), w + 2, "weak count");
        drop(w2);
        g::prove("C13", g::is_block(p), "the block stays while weak references are left");
    }
    drop(wk);
    left("C13", p, k, s, w);
}
unsafe fn s_rc_upgrade() {
    init();
    let (rc, k, s, w, p) = any_rc();
    let wk = Rc::downgrade(&rc);
    match wk.upgrade() {
        Some(r) => {
            rc_is(&r, k, s + 2, w + 1);
            g::prove("C13", Rc::ptr_eq(&rc, &r), "an upgraded reference is the same reference");
        }
        None => g::prove("C13", false, "a live value can be upgraded"),
    }
    rc_is(&rc, k, s + 1, w + 1);
    core::mem::forget(rc);
    drop(wk);
    left("C13", p, k, s + 1, w);
}
unsafe fn s_rc_weak_keeps() {
    init();
    let (rc, k, s, w, p) = any_rc();
    let wk = Rc::downgrade(&rc);
    let r2 = wk.upgrade();
    drop(wk);
    drop(rc);
    let r2 = r2.unwrap();
    rc_is(&r2, k, s + 1, w);
    core::mem::forget(r2);
    left("C13", p, k, s + 1, w);
}
unsafe fn s_rc_weak_new() {
    init();
    let a = RcWeak::<T>::new();
    let b = <RcWeak<T> as Default>::default();
    g::prove("C13", a.upgrade().is_none(), "an empty weak reference cannot be upgraded");
    g::e_eq("C13", a.strong_count(), 0, "strong count");
    g::e_eq("C13", a.weak_count(), 0, "weak count");
    g::prove("C13", a.ptr_eq(&b), "empty weak references are equal");
    let c = a.clone();
    g::prove("C13", c.upgrade().is_none(), "an empty weak reference cannot be upgraded");
    g::e_eq("C13", g::nalloc(), 0, "allocations");
    let (rc, k, s, w, p) = any_rc();
    let d = Rc::downgrade(&rc);
    g::prove("C13", !d.ptr_eq(&a) && !a.ptr_eq(&d), "an empty weak reference differs from others");
    drop(d);
    core::mem::forget(rc);
    left("C13", p, k, s + 1, w);
}
unsafe fn s_rc_ptr_eq() {
    init();
    g::no_fail();
    let (a, b) = (g::src(1), g::src(1));
    let (x, y) = (Rc::new(g::tok(a, 0)), Rc::new(g::tok(b, 0)));
    g::prove("C13", !Rc::ptr_eq(&x, &y), "different values are different references");
    let (wx, wy) = (Rc::downgrade(&x), Rc::downgrade(&y));
    g::prove("C13", !wx.ptr_eq(&wy), "different values are different references");
}
unsafe fn s_rc_try_unwrap() {
    init();
    let (rc, k, s, w, p) = any_rc();
    match Rc::try_unwrap(rc) {
        Ok(v) => {
            g::prove("C17", s == 0, "only the sole strong reference is unwrapped");
            g::e_tok("C13", &v, k, 0);
            g::take(v);
            left("C13", p, k, 0, w);
        }
        Err(rc) => {
            g::prove("C17", s > 0, "the sole strong reference is unwrapped");
            g::e_same("C17", Rc::as_ptr(&rc) as *const u8, p as *const u8, "the pointer that is returned");
            rc_is(&rc, k, s + 1, w);
            core::mem::forget(rc);
            left("C13", p, k, s + 1, w);
        }
    }
}
unsafe fn s_rc_try_unwrap_weak() {
    init();
    let (rc, k, s, w, p) = any_rc();
    g::assume(s == 0);
    let wk = Rc::downgrade(&rc);
    match Rc::try_unwrap(rc) {
        Ok(v) => {
            g::prove("C13", wk.upgrade().is_none(), "a value that was moved out cannot be upgraded");
            g::e_eq("C13", wk.strong_count(), 0, "strong count");
            g::e_eq("C13", wk.weak_count(), w + 1, "weak count");
            drop(wk);
            g::e_tok("C13", &v, k, 0);
            g::take(v);
            left("C13", p, k, 0, w);
        }
        Err(rc) => {
            g::prove("C17", false, "the sole strong reference is unwrapped");
        }
    }
}
unsafe fn s_rc_get_mut() {
    init();
    let (mut rc, k, s, w, p) = any_rc();
    match Rc::get_mut(&mut rc) {
        Some(v) => {
            g::prove("C17", s == 0 && w == 0, "mutable access only for the sole reference");
            g::e_same("C17", v as *const T as *const u8, p as *const u8, "address of the value");
        }
        None => g::prove("C17", s > 0 || w > 0, "mutable access for the sole reference"),
    }
    rc_is(&rc, k, s + 1, w);
    core::mem::forget(rc);
    left("C13", p, k, s + 1, w);
}
unsafe fn s_rc_make_mut() {
    init();
    let (mut rc, k, s, w, p) = any_rc();
    let mut q = p;
    let c = g::catch(|| {
        q = Rc::make_mut(&mut rc);
    });
    if !g::panicked() {
        g::prove("C10", c == g::failed(), "panics exactly when an allocation fails");
    }
    if c {
        rc_is(&rc, k, s + 1, w);
        core::mem::forget(rc);
        left("C13", p, k, s + 1, w);
        return;
    }
    g::e_same("C17", q as *const u8, Rc::as_ptr(&rc) as *const u8, "make-mut refers to the value of the pointer");
    if s == 0 {
        // The value itself, without weak references.
        g::e_tok("C17", q, k, 0);
        g::e_eq("C13", Rc::strong_count(&rc), 1, "strong count");
        g::e_eq("C13", Rc::weak_count(&rc), 0, "weak count");
        if w == 0 {
            g::e_same("C13", q as *const u8, p as *const u8, "the sole reference stays in place");
            g::e_eq("C13", g::nalloc(), 1, "allocations");
        } else {
            g::prove("C17", q != p, "weak references are left behind");
            left("C13", p, k, 0, w);
        }
    } else {
        g::e_new();
        g::e_clone(k, 0, 1);
        g::e_list("C17", q, 1);
        g::e_eq("C13", Rc::strong_count(&rc), 1, "strong count");
        g::e_eq("C13", Rc::weak_count(&rc), 0, "weak count");
        g::prove("C17", q != p, "other strong references keep their value");
        left("C13", p, k, s, w);
    }
}
unsafe fn s_rc_make_mut_weak() {
    init();
    let (mut rc, k, s, w, p) = any_rc();
    let wk = Rc::downgrade(&rc);
    let c = g::catch(|| {
        Rc::make_mut(&mut rc);
    });
    if c {
        g::prove("C13", wk.upgrade().is_some(), "a live value can be upgraded");
        g::e_eq("C13", wk.strong_count(), s + 1, "strong count");
        g::e_eq("C13", wk.weak_count(), w + 1, "weak count");
        drop(wk);
        core::mem::forget(rc);
        left("C13", p, k, s + 1, w);
        return;
    }
    g::e_eq("C13", wk.strong_count(), s, "strong count of the old value");
    g::e_eq("C13", wk.weak_count(), w + 1, "weak count of the old value");
    if s == 0 {
        g::prove("C13", wk.upgrade().is_none(), "a value that was moved out cannot be upgraded");
    }
    drop(wk);
    left("C13", p, k, s, w);
}
/// Value with a weak reference to itself, which it upgrades and clones while it is destroyed.
struct RcSelf {
    t: T,
    me: core::cell::Cell<Option<RcWeak<RcSelf>>>,
}
impl Drop for RcSelf {
    fn drop(&mut self) {
        unsafe {
            if let Some(w) = self.me.take() {
                g::prove("C13", w.upgrade().is_none(), "a value cannot be upgraded while it is destroyed");
                let w2 = w.clone();
                g::cb();
            }
        }
    }
}
unsafe fn s_rc_self() {
    init();
    g::no_fail();
    let k = g::src(1);
    let rc = Rc::new(RcSelf { t: g::tok(k, 0), me: core::cell::Cell::new(None) });
    rc.me.set(Some(Rc::downgrade(&rc)));
    let c = g::catch(move || drop(rc));
    g::prove("C13", c == g::panicked(), "dropping panics only with the destructor");
}
unsafe fn s_rc_weak_print() {
    init();
    g::no_fail();
    let k = g::src(1);
    let rc = Rc::new(Q(g::tok(k, 0)));
    let w = Rc::downgrade(&rc);
    if g::any_bool() {
        drop(rc);
    }
    // The value is printed only while it is alive.
    let _ = std::fmt::Debug::fmt(&w, g::fmtr(3));
    drop(w);
    let n = RcWeak::<Q>::new();
    let _ = std::fmt::Debug::fmt(&n, g::fmtr(4));
}
