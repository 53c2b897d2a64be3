// Shared by the demonstrations: an allocator that checks every request, and values that
// count how often they are destroyed.
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::mem::MaybeUninit;

/// 0: default allocator, other: id.
pub struct A(pub usize);
pub static mut BLOCKS: Option<HashMap<usize, (usize, usize, usize)>> = None;
pub static mut BAD: Option<String> = None;
pub static mut FAIL_AT: usize = usize::MAX;
pub static mut CALLS: usize = 0;
pub static mut SELS: Vec<(AllocMarker, &'static str)> = Vec::new();
fn blocks() -> &'static mut HashMap<usize, (usize, usize, usize)> {
    unsafe { BLOCKS.get_or_insert_with(HashMap::new) }
}
pub fn bad(s: String) {
    unsafe {
        if BAD.is_none() {
            BAD = Some(s)
        }
    }
}
fn fails() -> bool {
    unsafe {
        CALLS += 1;
        CALLS > FAIL_AT
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            bad("request of size zero".into());
        }
        if fails() || l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        std::ptr::write_bytes(p, 0xA5, l.size());
        blocks().insert(p as usize, (l.size(), l.align(), self.0));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match blocks().remove(&(p as usize)) {
            Some(x) if x == (l.size(), l.align(), self.0) => System.dealloc(p, l),
            x => bad(format!("block {:?} released as {:?} in {}", x, l, self.0)),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new == 0 {
            bad("request of size zero".into());
        }
        match blocks().get(&(p as usize)) {
            Some(x) if *x == (l.size(), l.align(), self.0) => {}
            x => {
                bad(format!("block {:?} resized as {:?} in {}", x, l, self.0));
                return std::ptr::null_mut();
            }
        }
        if fails() || new > 1 << 30 {
            return std::ptr::null_mut();
        }
        blocks().remove(&(p as usize));
        let q = System.alloc(Layout::from_size_align_unchecked(new, l.align()));
        std::ptr::write_bytes(q, 0xA5, new);
        std::ptr::copy_nonoverlapping(p, q, new.min(l.size()));
        System.dealloc(p, l);
        blocks().insert(q as usize, (new, l.align(), self.0));
        q
    }
}
pub struct Sc(pub A);
pub static mut MARKED: A = A(7);
impl Scope for Sc {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe {
            SELS.push((s.marker(), s.ty()));
            if s.marker() == AllocMarker::None {
                &self.0
            } else {
                &MARKED
            }
        }
    }
}
static mut SC: Sc = Sc(A(1));
static mut E: MaybeUninit<Env> = MaybeUninit::uninit();
fn env() -> &'static mut Env {
    unsafe { E.assume_init_mut() }
}
pub fn init() {
    unsafe {
        E = MaybeUninit::new(Env::new(&mut SC));
        scope::ENV = Some(env);
    }
    std::panic::set_hook(Box::new(|_| {}));
}
/// Live values by identity.
thread_local!(pub static LIVE: RefCell<HashMap<usize, isize>> = RefCell::new(HashMap::new()));
thread_local!(pub static NEXT: Cell<usize> = Cell::new(1000));
thread_local!(pub static PANIC_DROP: Cell<usize> = Cell::new(0));
thread_local!(pub static PANIC_CLONE: Cell<usize> = Cell::new(0));
#[derive(Debug)]
pub struct El(pub usize, pub usize);
pub fn el(v: usize) -> El {
    let id = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    LIVE.with(|l| l.borrow_mut().insert(id, 1));
    El(v, id)
}
impl Drop for El {
    fn drop(&mut self) {
        let n = LIVE.with(|l| {
            let mut l = l.borrow_mut();
            let e = l.entry(self.1).or_insert(0);
            *e -= 1;
            *e
        });
        if n != 0 {
            bad(format!("value {} destroyed while not alive ({})", self.0, n));
        }
        if self.0 == PANIC_DROP.with(|p| p.get()) && self.0 != 0 {
            PANIC_DROP.with(|p| p.set(0));
            panic!("drop");
        }
    }
}
impl Clone for El {
    fn clone(&self) -> El {
        if self.0 == PANIC_CLONE.with(|p| p.get()) && self.0 != 0 {
            panic!("clone");
        }
        el(self.0)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.0 == o.0
    }
}
/// Every shown value is alive.
pub fn alive(s: &[El]) {
    for e in s {
        if LIVE.with(|l| l.borrow().get(&e.1).copied()) != Some(1) {
            bad(format!("a dead value is shown"));
        }
    }
}
pub fn vals(s: &[El]) -> Vec<usize> {
    alive(s);
    s.iter().map(|e| e.0).collect()
}
pub fn same<T: PartialEq + std::fmt::Debug>(a: T, b: T) {
    if a != b {
        bad(format!("{:?} instead of {:?}", a, b));
    }
}
pub fn panics(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
/// Nothing is left: no live value (when `vals`), no block.
pub fn end(values: bool) {
    if values {
        let n = LIVE.with(|l| l.borrow().values().filter(|x| **x > 0).count());
        if n > 0 {
            bad(format!("{} values were never destroyed", n));
        }
        if !blocks().is_empty() {
            bad(format!("{} blocks were never released", blocks().len()));
        }
    }
    unsafe {
        if let Some(b) = &BAD {
            println!("{}", b);
            std::process::exit(1);
        }
    }
    std::process::exit(0);
}
