seed("c13-make-mut-one-weak", "C13", [("src/rc.rs", "            if Rc::weak_count(this) != 0 {\n", "            if Rc::weak_count(this) > 1 {\n")],
 "make_mut on the only strong reference while exactly one weak reference exists", "the weak reference stays connected: it can be upgraded to an alias of a value that is being modified", r'''
use lokky::rc::Rc;
fn main() {
    init();
    let mut a = Rc::new(el(1));
    let w = Rc::downgrade(&a);
    Rc::make_mut(&mut a).0 = 2;
    if w.upgrade().is_some() {
        bad("the weak reference still refers to the value".into());
    }
    drop(w);
    drop(a);
    end(true)
}
''')
seed("c13-upgrade-dead-many-weak", "C13", [("src/rc.rs", "        self.strong.get() == 0\n", "        self.strong.get() == 0 && self.weak.get() <= 2\n")],
 "a weak reference of a destroyed value is upgraded while at least three weak references exist", "the destroyed value is handed out again", r'''
use lokky::rc::Rc;
fn main() {
    init();
    let a = Rc::new(el(1));
    let (x, y, z) = (Rc::downgrade(&a), Rc::downgrade(&a), Rc::downgrade(&a));
    drop(a);
    let u = x.upgrade();
    if u.is_some() {
        bad("a dead value is upgraded".into());
    }
    std::mem::forget(u);
    drop((x, y, z));
    end(false)
}
''')
seed("c13-weak-clone-of-dead", "C13", [("src/rc.rs", "            v.inc_weak();\n            unsafe { Weak(", "            if !v.is_dealloc() {\n                v.inc_weak();\n            }\n            unsafe { Weak(")],
 "a weak reference is cloned after the value was destroyed", "the block is given back while a weak reference is left", r'''
use lokky::rc::Rc;
fn main() {
    init();
    let a = Rc::new(el(1));
    let x = Rc::downgrade(&a);
    drop(a);
    let y = x.clone();
    same(y.weak_count(), 2);
    std::mem::forget((x, y));
    end(false)
}
''')
seed("c17-rc-get-mut-weak", "C17", [("src/rc.rs", "        self.strong.get() == 1 && self.weak.get() == 0\n", "        self.strong.get() + self.weak.get() <= 2 && self.strong.get() == 1\n")],
 "get_mut with one strong and exactly one weak reference", "mutable access while the weak reference can be upgraded", r'''
use lokky::rc::Rc;
fn main() {
    init();
    let mut a = Rc::new(el(1));
    let w = Rc::downgrade(&a);
    if Rc::get_mut(&mut a).is_some() {
        bad("mutable access in spite of a weak reference".into());
    }
    drop(w);
    drop(a);
    end(true)
}
''')
seed("c14-make-mut-two-weak-one", "C14", [("src/arc.rs", "            if weak == 1 {\n", "            if weak.val <= 2 {\n")],
 "make_mut on the only strong reference while exactly one weak reference exists", "the weak reference is not left behind: the value is modified in place although it is counted", r'''
use lokky::arc::Arc;
fn main() {
    init();
    let mut a = Arc::new(el(1));
    let w = Arc::downgrade(&a);
    let p = Arc::as_ptr(&a);
    Arc::make_mut(&mut a).0 = 2;
    same(Arc::weak_count(&a), 0);
    drop(w);
    drop(a);
    let _ = p;
    end(true)
}
''')
seed("c15-drop-no-acquire", "C15", [("src/arc.rs", "        core::sync::atomic::fence(Acquire);\n\n        unsafe { self.drop_slow() }", "        core::sync::atomic::compiler_fence(Acquire);\n\n        unsafe { self.drop_slow() }")],
 "two threads drop the last two strong references; the one that destroys the value does not acquire what the other did to it", "the destructor races with the last use of the value by the other thread", r'''
use lokky::arc::Arc;
use std::cell::UnsafeCell;
static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct C(UnsafeCell<u64>);
unsafe impl Sync for C {}
impl Drop for C {
    fn drop(&mut self) {
        unsafe { *self.0.get() += 1 }
    }
}
fn main() {
    init();
    let a = Arc::new(C(UnsafeCell::new(0)));
    let b = a.clone();
    let t = std::thread::spawn(move || {
        unsafe { *b.0.get() += 1 };
        drop(b);
        DONE.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    while !DONE.load(std::sync::atomic::Ordering::Relaxed) {
        std::thread::yield_now();
    }
    drop(a);
    t.join().unwrap();
}
''', "demo_miri.sh")
seed("c15-clone-not-atomic", "C15", [("src/arc.rs", "        let old_size = self.inner().strong.fetch_add(1, Relaxed);", "        let old_size = self.inner().strong.load(Relaxed);\n        self.inner().strong.store(old_size + 1, Relaxed);")],
 "two threads clone the same reference at the same time", "a reference is not counted, so the value is destroyed while a reference is left", r'''
use lokky::arc::Arc;
fn main() {
    init();
    let a = Arc::new(1u64);
    let b = a.clone();
    let t = std::thread::spawn(move || {
        for _ in 0..4 {
            std::mem::forget(b.clone());
        }
        std::mem::forget(b);
    });
    for _ in 0..4 {
        std::mem::forget(a.clone());
    }
    t.join().unwrap();
    let n = Arc::strong_count(&a);
    std::mem::forget(a);
    if n != 10 {
        std::process::exit(1);
    }
}
''', "demo_miri.sh")
seed("c15-try-unwrap-relaxed", "C15", [("src/arc.rs", "            .compare_exchange(1, 0, Acquire, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong reference is required but several exist.", "            .compare_exchange(1, 0, Relaxed, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong reference is required but several exist.")],
 "another thread used and dropped its reference right before the value is unwrapped", "the value is moved out without having acquired the writes of the other thread", r'''
use lokky::arc::Arc;
use std::cell::UnsafeCell;
struct C(UnsafeCell<u64>);
unsafe impl Sync for C {}
fn main() {
    init();
    let a = Arc::new(C(UnsafeCell::new(0)));
    let b = a.clone();
    let t = std::thread::spawn(move || {
        unsafe { *b.0.get() += 1 };
        drop(b);
    });
    let mut a = a;
    loop {
        match Arc::try_unwrap(a) {
            Ok(v) => {
                std::process::exit(if v.0.into_inner() == 1 { 0 } else { 1 });
            }
            Err(x) => a = x,
        }
        std::thread::yield_now();
    }
    #[allow(unreachable_code)]
    t.join().unwrap();
}
''', "demo_miri.sh")
seed("c15-downgrade-stale", "C15", [("src/arc.rs", "                Err(val) => weak.val = val,\n", "                Err(val) if val == usize::MAX => weak.val = val,\n                Err(_) => {}\n")],
 "another thread changes the weak counter between the load and the exchange of downgrade", "downgrade tries the exchange with the old value forever", r'''
use lokky::arc::Arc;
use std::sync::atomic::{AtomicBool, Ordering::*};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    init();
    let a = Arc::new(1u64);
    let b = a.clone();
    std::thread::spawn(move || {
        for _ in 0..2_000_000 {
            std::mem::forget(Arc::downgrade(&b));
        }
        STOP.store(true, SeqCst);
    });
    let c = a.clone();
    std::thread::spawn(move || {
        for _ in 0..2_000_000 {
            std::mem::forget(Arc::downgrade(&c));
        }
    });
    let t = std::time::Instant::now();
    while !STOP.load(SeqCst) {
        if t.elapsed().as_secs() > 20 {
            println!("a thread hangs");
            std::process::exit(1);
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    std::process::exit(0);
}
''')
seed("c16-weak-drop-frees-strong", "C16", [("src/urc.rs", "        if self.fence_weak_count() == 0 && self.fence_strong_count() == 0 {", "        if self.fence_weak_count() == 0 && self.fence_strong_count() <= 1 {")],
 "the last weak reference of a fence is dropped while exactly one strong one is left", "the fence is destroyed under the strong reference", r'''
use lokky::urc::Urc;
fn main() {
    init();
    let a = Urc::new(el(1));
    let w = Urc::downgrade(&a);
    drop(w);
    let n = unsafe { BLOCKS.as_ref().unwrap().len() };
    same(n, 2);
    std::mem::forget(a);
    end(false)
}
''')
seed("c16-into-fence-weak", "C16", [("src/urc.rs", "        if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {\n            // Take", "        if this.fence().strong_count() == 1 && this.fence().weak_count() <= 1 {\n            // Take")],
 "the only Urc of a fence that has a weak reference is turned into the fence", "the fence is sent or freed while the weak reference uses it", r'''
use lokky::urc::Urc;
fn main() {
    init();
    let a = Urc::new(el(1));
    let w = Urc::downgrade(&a);
    match Urc::try_into_fence(a) {
        Ok(f) => {
            bad("a fence with a weak reference is taken".into());
            std::mem::forget(f);
        }
        Err(u) => drop(u),
    }
    std::mem::forget(w);
    end(false)
}
''')
seed("c10-envelop-counts-first", "C10", [("src/urc.rs", "            Envelope::new(\n                Urc {\n                    fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>()).unwrap()),\n                    data: self.data.clone(),\n                }\n            )", "            let block = ScopePtr::alloc(MaybeUninit::<Fence<T>>::uninit(), AllocSelector::new::<T>());\n            let fence = ManuallyDrop::new(fence);\n            let mut block = block.ok().unwrap();\n            block.write(ManuallyDrop::into_inner(fence));\n            Envelope::new(\n                Urc {\n                    fence: ManuallyDrop::new(block.cast()),\n                    data: self.data.clone(),\n                }\n            )")],
 "the allocation of the fence of an envelope fails", "the counted fence is never released: the value leaks and is not unique any more", r'''
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::Urc;
struct R;
impl<'a> ScopeRecv<'a> for R {}
fn main() {
    init();
    let a = Urc::new(el(1));
    unsafe { FAIL_AT = CALLS };
    same(panics(|| drop(a.envelop(&R))), true);
    same(Urc::is_sole_strong_fence(&a), true);
    drop(a);
    end(true)
}
''')
seed("c17-urc-get-mut-fences", "C17", [("src/urc.rs", "            && self.master().strong_fence.load(Acquire) == 1\n            && self.master().weak_fence.load(Acquire) == 1", "            && self.master().strong_fence.load(Acquire) <= self.master().weak_fence.load(Acquire)")],
 "get_mut while another fence has a weak reference", "mutable access although there are more references", r'''
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::Urc;
struct R;
impl<'a> ScopeRecv<'a> for R {}
fn main() {
    init();
    let mut a = Urc::new(el(1));
    let e = R.recv(a.envelop(&R));
    let w = Urc::downgrade(&e);
    drop(e);
    if Urc::get_mut(&mut a).is_some() {
        bad("mutable access in spite of a weak reference".into());
    }
    drop(w);
    drop(a);
    end(true)
}
''')
