// Boxes and scope pointers: one value, moved out or destroyed once.
use lokky::boxed::Box as LBox;
use lokky::{AllocError, ArrayAllocError, ScopePtr};
use std::borrow::{Borrow, BorrowMut};
use std::ptr::NonNull;
unsafe fn box_is(b: &LBox<T>, k: usize, i: usize) {
    g::e_tok("C24", &**b, k, i);
    g::e_same("C24", &**b as *const T as *const u8, AsRef::<T>::as_ref(b) as *const T as *const u8, "address of the value");
    g::e_same("C24", &**b as *const T as *const u8, Borrow::<T>::borrow(b) as *const T as *const u8, "address of the value");
}
unsafe fn a_box(k: usize, i: usize) -> LBox<T> {
    g::no_fail();
    let b = LBox::new(g::tok(k, i));
    g::may_fail();
    b
}
unsafe fn sel<X: ?Sized>(m: AllocMarker) -> AllocSelector {
    AllocSelector::with_marker::<X>(m)
}
unsafe fn s_box_new() {
    init();
    let k = g::src(1);
    let p = g::catch(|| {
        let b = LBox::new(g::tok(k, 0));
        box_is(&b, k, 0);
        g::e_sel(&*b as *const T as *const u8, &AllocMarker::None, std::any::type_name::<T>());
        g::prove("C24", g::is_block(&*b), "the value is in a block of its own");
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_box_new_with() {
    init();
    let k = g::src(1);
    let m = mk();
    let p = g::catch(|| {
        let b = LBox::new_with(g::tok(k, 0), m);
        box_is(&b, k, 0);
        g::e_sel(&*b as *const T as *const u8, &m, std::any::type_name::<T>());
    });
    if !g::panicked() {
        g::prove("C10", p == g::failed(), "panics exactly when the allocation fails");
    }
}
unsafe fn s_box_drop() {
    init();
    let k = g::src(1);
    let b = a_box(k, 0);
    let a = &*b as *const T;
    let p = g::catch(move || drop(b));
    if g::panicked() {
        g::prove("C24", p, "dropping panics only with the destructor");
    } else {
        g::prove("C24", !g::is_block(a), "the block is given back with the box");
    }
}
unsafe fn s_box_into_inner() {
    init();
    let k = g::src(1);
    let b = a_box(k, 0);
    let a = &*b as *const T;
    let t = b.into_inner();
    g::e_tok("C24", &t, k, 0);
    g::prove("C24", !g::is_block(a), "the block is given back when the value is moved out");
}
unsafe fn s_box_write() {
    init();
    let k = g::src(4);
    let mut b = a_box(k, 0);
    let a = &*b as *const T;
    let p = g::catch(|| {
        *b = g::tok(k, 1);
    });
    let p = p | g::catch(|| {
        *AsMut::<T>::as_mut(&mut b) = g::tok(k, 2);
    });
    let p = p | g::catch(|| {
        *BorrowMut::<T>::borrow_mut(&mut b) = g::tok(k, 3);
    });
    g::prove("C24", p == g::panicked(), "writing panics only with the destructor");
    box_is(&b, k, 3);
    g::e_same("C24", &*b as *const T as *const u8, a as *const u8, "address of the value");
}
unsafe fn s_box_swap() {
    init();
    let k = g::src(2);
    let mut a = a_box(k, 0);
    let mut b = a_box(k, 1);
    core::mem::swap(&mut *a, &mut *b);
    box_is(&a, k, 1);
    box_is(&b, k, 0);
    drop(a);
    if !g::panicked() {
        box_is(&b, k, 0);
    }
}
unsafe fn s_box_zst() {
    init();
    g::z_src(1);
    g::may_fail();
    let b = LBox::new(Z);
    let n = g::nalloc();
    g::e_eq("C24", n, 0, "blocks for a value without a size");
    drop(b);
}
unsafe fn s_box_zst_into() {
    init();
    g::z_src(1);
    let b = LBox::new(Z);
    let z = b.into_inner();
    drop(z);
}
unsafe fn s_ptr_alloc() {
    init();
    let k = g::src(1);
    let m = mk();
    match ScopePtr::alloc(g::tok(k, 0), sel::<T>(m)) {
        Ok(p) => {
            g::prove("C10", !g::failed(), "fails when the allocation fails");
            g::e_tok("C24", &*p, k, 0);
            g::e_sel(&*p as *const T as *const u8, &m, std::any::type_name::<T>());
            g::e_marker(&p.marker(), &m);
            let s = p.alloc_selector();
            g::e_marker(&s.marker(), &m);
            g::prove("C11", s == sel::<T>(m), "the selector of the pointer is the one it was made with");
        }
        Err(_) => g::prove("C10", g::failed(), "fails only when the allocation fails"),
    }
}
unsafe fn a_ptr(k: usize, i: usize, m: AllocMarker) -> ScopePtr<T> {
    g::no_fail();
    let p = ScopePtr::alloc(g::tok(k, i), sel::<T>(m)).ok().unwrap();
    g::may_fail();
    p
}
unsafe fn s_ptr_into_inner() {
    init();
    let k = g::src(1);
    let p = a_ptr(k, 0, mk());
    let a = &*p as *const T;
    let t = p.into_inner();
    g::e_tok("C24", &t, k, 0);
    g::prove("C24", !g::is_block(a), "the block is given back when the value is moved out");
}
#[repr(transparent)]
pub struct W(T);
unsafe fn s_ptr_cast() {
    init();
    let k = g::src(1);
    let m = mk();
    let p = a_ptr(k, 0, m);
    let a = &*p as *const T;
    let q = p.cast::<W>();
    g::e_same("C24", &*q as *const W as *const u8, a as *const u8, "address of the value");
    g::e_tok("C24", &q.0, k, 0);
    g::e_marker(&q.marker(), &m);
    let c = g::catch(move || drop(q));
    if !c {
        g::prove("C24", !g::is_block(a), "the block is given back with the pointer");
    }
}
unsafe fn s_ptr_cast_to_slice() {
    init();
    let k = g::src(1);
    let m = mk();
    let p = a_ptr(k, 0, m);
    let a = &*p as *const T;
    let q = p.cast_to_slice(1);
    g::e_eq("C24", q.len(), 1, "values of the slice");
    g::e_same("C24", q.as_ptr() as *const u8, a as *const u8, "address of the value");
    g::e_tok("C24", q.as_ptr(), k, 0);
    g::e_marker(&q.marker(), &m);
    let c = g::catch(move || drop(q));
    if !c {
        g::prove("C24", !g::is_block(a), "the block is given back with the pointer");
    }
}
unsafe fn s_ptr_slice() {
    init();
    let k = g::src(1);
    let mut p = a_ptr(k, 0, mk());
    let a = &*p as *const T;
    {
        let s = p.slice_ref(1);
        g::e_eq("C24", s.len(), 1, "values of the slice");
        g::e_same("C24", s.as_ptr() as *const u8, a as *const u8, "address of the value");
    }
    {
        let s = p.slice_mut(1);
        g::e_eq("C24", s.len(), 1, "values of the slice");
        g::e_same("C24", s.as_ptr() as *const u8, a as *const u8, "address of the value");
    }
    g::e_tok("C24", &*p, k, 0);
}
unsafe fn s_ptr_forget() {
    init();
    let k = g::src(1);
    let p = a_ptr(k, 0, mk());
    let a = &*p as *const T;
    p.forget();
    g::e_tok("C24", a, k, 0);
    g::take_slice(a, 1);
    g::keep_block(a);
}
unsafe fn s_ptr_clone() {
    init();
    let k = g::src(1);
    let m = mk();
    let p = a_ptr(k, 0, m);
    let q = p.clone();
    g::e_same("C24", &*p as *const T as *const u8, &*q as *const T as *const u8, "address of the value");
    g::e_marker(&q.marker(), &m);
    p.forget();
    g::e_tok("C24", &*q, k, 0);
    drop(q);
}
unsafe fn s_ptr_dealloc() {
    init();
    let k = g::src(1);
    let mut p = a_ptr(k, 0, mk());
    let a = &*p as *const T;
    let t = core::ptr::read(&*p);
    p.dealloc();
    g::prove("C24", !g::is_block(a), "the block is given back");
    p.forget();
    g::e_tok("C24", &t, k, 0);
}
unsafe fn s_ptr_write() {
    init();
    let k = g::src(2);
    let mut p = a_ptr(k, 0, mk());
    let c = g::catch(|| {
        *p = g::tok(k, 1);
    });
    g::prove("C24", c == g::panicked(), "writing panics only with the destructor");
    g::e_tok("C24", &*p, k, 1);
}
unsafe fn s_ptr_array() {
    init();
    let n = g::any();
    let m = mk();
    match ScopePtr::<[T]>::alloc_array_uninit(n, sel::<T>(m)) {
        Ok(mut p) => {
            g::prove("C10", !g::failed(), "fails when the allocation fails");
            g::e_eq("C24", p.len(), n, "values of the array");
            fits(n, TS);
            let k = g::src(n);
            g::fill(p.as_mut_ptr(), k, 0, n);
            if n > 0 {
                g::e_sel(p.as_ptr() as *const u8, &m, std::any::type_name::<T>());
            }
            g::e_marker(&p.marker(), &m);
        }
        Err(ArrayAllocError::AllocError(_)) => g::prove("C10", g::failed(), "fails only when the allocation fails"),
        Err(_) => g::prove("C09", n > isize::MAX as usize / TS, "overflow only when the size does"),
    }
}
unsafe fn s_ptr_realloc() {
    init();
    let n = lim();
    let m = mk();
    g::no_fail();
    let mut p = ScopePtr::<[T]>::alloc_array_uninit(n, sel::<T>(m)).ok().unwrap();
    g::may_fail();
    let k = g::src(n);
    g::fill(p.as_mut_ptr(), k, 0, n);
    let n2 = g::any();
    let c = if n < n2 { n } else { n2 };
    // Values that do not fit are moved out first.
    g::take_slice(p.as_ptr().add(c), n - c);
    let r = p.realloc_array(n2);
    g::e_marker(&p.marker(), &m);
    match r {
        Ok(()) => {
            g::prove("C10", !g::failed(), "fails when the allocation fails");
            g::e_eq("C24", p.len(), n2, "values of the array");
            fits(n2, TS);
            g::e_new();
            g::e_run(k, 0, c);
            g::e_list("C24", p.as_ptr(), c);
            g::take_slice(p.as_ptr(), c);
            p.dealloc();
            p.forget();
        }
        Err(e) => {
            match e {
                ArrayAllocError::AllocError(_) => g::prove("C10", g::failed(), "fails only when the allocation fails"),
                _ => g::prove("C09", n2 > isize::MAX as usize / TS, "overflow only when the size does"),
            }
            g::e_eq("C24", p.len(), n, "values of the array");
            g::e_new();
            g::e_run(k, 0, c);
            g::e_list("C24", p.as_ptr(), c);
            g::take_slice(p.as_ptr(), c);
            p.dealloc();
            p.forget();
        }
    }
}
unsafe fn s_ptr_array_zst() {
    init();
    let n = lim();
    let p = ScopePtr::<[Z]>::alloc_array_uninit(n, sel::<Z>(mk())).ok().unwrap();
    g::e_eq("C24", p.len(), n, "values of the array");
    g::e_eq("C24", g::nalloc(), 0, "blocks for values without a size");
    p.forget();
}
unsafe fn s_ptr_dangling() {
    init();
    let k = g::src(1);
    let m = mk();
    let p = a_ptr(k, 0, m);
    let q = ScopePtr::dangling_in(&p);
    g::e_marker(&q.marker(), &m);
    q.forget();
    g::e_tok("C24", &*p, k, 0);
}
/// Box of text with a marker.
unsafe fn text_box(b: usize, m: usize, k: AllocMarker) -> LBox<str> {
    let mut v = ManuallyDrop::new(Vec::<u8>::with_marker(k));
    v.reserve_exact(m);
    g::b_fill(v.as_mut_slice().as_mut_ptr(), b, 0, m);
    v.set_len(m);
    let v = ManuallyDrop::new(std::ptr::read(&*v).into_boxed_slice());
    std::ptr::read(&*v as *const LBox<[u8]> as *const LBox<str>)
}
unsafe fn s_box_text() {
    init();
    g::no_fail();
    let m = g::any();
    g::assume(m < 1 << 30 && m > 0);
    let b = g::text(m);
    let k = mk();
    let t = text_box(b, m, k);
    g::e_eq("C24", t.len(), m, "length of the boxed text");
    let a = t.as_ptr();
    g::e_marker(&(*(&t as *const LBox<str> as *const ScopePtr<str>)).marker(), &k);
    let t: LBox<[u8]> = t.into();
    g::e_eq("C24", t.len(), m, "the bytes of the text are handed over");
    g::e_same("C24", t.as_ptr(), a, "the bytes of the text are handed over");
    g::e_marker(&(*(&t as *const LBox<[u8]> as *const ScopePtr<[u8]>)).marker(), &k);
    g::prove("C24", g::is_block(a as *const T), "the bytes of the text are handed over");
    g::e_new();
    g::e_run(b, 0, m);
    g::e_slice("C24", t.as_ptr(), t.len());
    drop(t);
    g::prove("C24", !g::is_block(a as *const T), "the block is given back with the box");
}
unsafe fn s_box_text_empty() {
    init();
    g::no_fail();
    let t = text_box(g::text(0), 0, mk());
    g::e_eq("C24", t.len(), 0, "length of the boxed text");
    let t: LBox<[u8]> = t.into();
    g::e_eq("C24", t.len(), 0, "length of the boxed bytes");
}
unsafe fn any_box<X: 'static>(x: X, m: AllocMarker) -> LBox<dyn std::any::Any> {
    let s = lokky::scope::current(&());
    let al = s.alloc_for(AllocSelector::with_marker::<X>(m));
    let p = al.alloc(std::alloc::Layout::new::<X>()) as *mut X;
    std::ptr::write(p, x);
    let p: *mut dyn std::any::Any = p;
    let p = ManuallyDrop::new(ScopePtr::new(NonNull::new_unchecked(p), al, m));
    std::ptr::read(&*p as *const ScopePtr<dyn std::any::Any> as *const LBox<dyn std::any::Any>)
}
unsafe fn s_box_downcast() {
    init();
    g::no_fail();
    let k = g::src(1);
    let m = mk();
    let b = any_box(g::tok(k, 0), m);
    let a = &*b as *const dyn std::any::Any as *const T;
    match b.downcast::<T>() {
        Ok(t) => {
            box_is(&t, k, 0);
            g::e_same("C24", &*t as *const T as *const u8, a as *const u8, "address of the value");
            g::e_marker(&(*(&t as *const LBox<T> as *const ScopePtr<T>)).marker(), &m);
            let c = g::catch(move || drop(t));
            if !c {
                g::prove("C24", !g::is_block(a), "the block is given back with the box");
            }
        }
        Err(_) => g::prove("C24", false, "a box of the type itself is downcast"),
    }
}
unsafe fn s_box_downcast_other() {
    init();
    g::no_fail();
    let k = g::src(1);
    let m = mk();
    let b = any_box(g::tok(k, 0), m);
    let a = &*b as *const dyn std::any::Any as *const T;
    match b.downcast::<W>() {
        Ok(_) => g::prove("C24", false, "a box of another type is not downcast"),
        Err(b) => {
            g::e_same("C24", &*b as *const dyn std::any::Any as *const u8, a as *const u8, "address of the value");
            g::e_tok("C24", a, k, 0);
            match b.downcast::<T>() {
                Ok(t) => g::e_tok("C24", &t.into_inner(), k, 0),
                Err(_) => g::prove("C24", false, "a box of the type itself is downcast"),
            }
        }
    }
}
unsafe fn s_box_downcast_drop() {
    init();
    g::no_fail();
    let k = g::src(1);
    let b = any_box(g::tok(k, 0), mk());
    let a = &*b as *const dyn std::any::Any as *const T;
    let c = g::catch(move || drop(b));
    if !c {
        g::prove("C24", !g::is_block(a), "the block is given back with the box");
    }
}
unsafe fn s_box_hasher() {
    init();
    g::no_fail();
    let n = g::any();
    g::assume(n < 100);
    let b = g::text_str(g::text(n), 0, n);
    let mut h = LBox::new(H(1));
    h.write(b.as_bytes());
    h.write(b"abc");
    let mut i = H(2);
    i.write(b.as_bytes());
    i.write(b"abc");
    g::e_log("C22", 1, 2, "a boxed hasher gets the bytes of its user");
}
