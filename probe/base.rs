//! Ghost vocabulary of the probe. Functions declared in `g` have no body: the analyzer gives
//! them their abstract meaning. Everything here is only ever analysed, never linked or run.
#![allow(dead_code, unused, static_mut_refs, private_interfaces, clashing_extern_declarations)]
extern crate lokky;
use core::alloc::{GlobalAlloc, Layout};
use core::mem::{ManuallyDrop, MaybeUninit};
use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Opaque element type with a destructor, a clone, comparisons and a hash that the analyzer
/// treats as arbitrary user code.
pub struct T {
    _p: [u64; 3],
}
pub const TS: usize = core::mem::size_of::<T>();
/// Opaque zero-sized element type with a destructor.
pub struct Z;

pub mod g {
    use super::*;
    extern "Rust" {
        pub fn t_drop(t: *mut T);
        pub fn t_clone(t: &T) -> T;
        pub fn t_eq(a: &T, b: &T) -> bool;
        pub fn t_ne(a: &T, b: &T) -> bool;
        pub fn z_drop(t: *mut Z);
        pub fn z_clone(t: &Z) -> Z;
        // Ghost values.
        pub fn any() -> usize;
        pub fn any_bool() -> bool;
        pub fn assume(c: bool);
        /// New source of `n` live tokens.
        pub fn src(n: usize) -> usize;
        /// Store tokens `start..start + n` of the source at `p`.
        pub fn fill(p: *mut T, src: usize, start: usize, n: usize);
        pub fn tok(src: usize, i: usize) -> T;
        /// Token handed out to the caller.
        pub fn take(t: T);
        /// Tokens of the slice are handed out to the caller (e.g. leaked on purpose).
        pub fn take_slice(p: *const T, n: usize);
        /// Block is leaked on purpose.
        pub fn keep_block(p: *const T);
        pub fn z_src(n: usize);
        pub fn z_take(n: usize);
        /// Values without a size that are alive.
        pub fn z_live() -> usize;
        // Expected lists.
        pub fn e_new();
        pub fn e_run(src: usize, start: usize, n: usize);
        pub fn e_clone(src: usize, start: usize, n: usize);
        /// Values of the given source for which the callback decided so, in order.
        pub fn e_kept(src: usize, start: usize, n: usize);
        pub fn e_dedup(src: usize, start: usize, n: usize);
        /// Compare memory with the expected list.
        pub fn e_list(prop: &str, p: *const T, n: usize);
        pub fn e_slice(prop: &str, p: *const u8, n: usize);
        // Text.
        /// New source of characters that take `n` bytes.
        pub fn text(n: usize) -> usize;
        /// New source of `n` arbitrary bytes.
        pub fn bytes(n: usize) -> usize;
        pub fn b_fill(p: *mut u8, src: usize, start: usize, n: usize);
        pub fn text_str(src: usize, start: usize, n: usize) -> &'static str;
        pub fn chr() -> char;
        pub fn chr_of(c: char) -> usize;
        /// There is a boundary of characters at the offset.
        pub fn t_bd(src: usize, i: usize) -> bool;
        /// Width of the character that starts or ends at the boundary.
        pub fn t_width(src: usize, i: usize) -> usize;
        pub fn t_width_back(src: usize, i: usize) -> usize;
        pub fn e_chr(prop: &str, c: char, src: usize, i: usize);
        pub fn f_cpred(c: char) -> bool;
        pub fn e_ckept(src: usize, n: usize);
        pub fn e_text(prop: &str, p: *const u8, n: usize);
        /// Result of the check of arbitrary bytes: 0 no text, 1 text, 2 not checked.
        pub fn valid(src: usize) -> usize;
        pub fn units(n: usize) -> &'static [u16];
        pub fn u16_bad() -> bool;
        pub fn e_u16();
        pub fn e_tok(prop: &str, p: *const T, src: usize, i: usize);
        /// Slots hold live values that are different from each other.
        pub fn e_live(prop: &str, p: *const T, n: usize);
        pub fn prove(prop: &str, c: bool, what: &str);
        pub fn e_eq(prop: &str, a: usize, b: usize, what: &str);
        // Callbacks.
        pub fn f_gen() -> T;
        pub fn n_gen() -> usize;
        pub fn f_pred(t: &T) -> bool;
        pub fn f_same(a: &T, b: &T) -> bool;
        pub fn f_key(a: &T) -> usize;
        pub fn k_eq(a: usize, b: usize) -> bool;
        pub fn it_next() -> Option<T>;
        pub fn n_it() -> usize;
        pub fn it_hint() -> usize;
        pub fn cb();
        // Panics and failures so far.
        pub fn panicked() -> bool;
        pub fn failed() -> bool;
        pub fn no_fail();
        pub fn may_fail();
        /// Between look(true) and look(false) the state is only looked at.
        pub fn look(on: bool);
        pub fn no_panic();
        pub fn may_panic();
        // Allocation.
        pub fn alloc_for(marker: &AllocMarker, ty: &str) -> &'static A;
        pub fn a_alloc(id: usize, size: usize, align: usize) -> *mut u8;
        pub fn a_dealloc(id: usize, p: *mut u8, size: usize, align: usize);
        pub fn a_realloc(id: usize, p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
        pub fn nalloc() -> usize;
        /// The block was requested with this marker and for this type.
        pub fn e_sel(p: *const u8, m: &AllocMarker, ty: &str);
        pub fn e_marker(got: &AllocMarker, want: &AllocMarker);
        /// Bytes of the block that starts at the address.
        pub fn block_size(p: *const u8) -> usize;
        /// The value of another type is not examined.
        // Interference by other threads.
        pub fn share(p: *const T, strong: usize, weak: usize, lockable: bool);
        pub fn own(strong: usize, weak: usize);
        pub fn excl();
        pub fn others_strong() -> usize;
        pub fn others_weak() -> usize;
        pub fn lost() -> bool;
        /// The address is inside of a block that was not given back.
        pub fn is_block(p: *const T) -> bool;
        /// Scope that was asked for an allocator last.
        pub fn asked(id: usize);
        pub fn asked_last() -> usize;
        /// Relation of two values: 0 less, 1 equal, 2 greater, 3 unordered. It never changes.
        pub fn q_rel(a: &T, b: &T) -> usize;
        pub fn fmtr(id: usize) -> &'static mut std::fmt::Formatter<'static>;
        pub fn q_fmt(f: &mut std::fmt::Formatter, kind: usize, t: &T) -> bool;
        /// Calls of a logged function.
        pub fn note(id: usize, what: usize);
        // Hashing: what a hasher was fed with.
        pub fn h_num(id: usize, width: usize, v: u128);
        pub fn h_bytes(id: usize, b: &[u8]);
        pub fn h_tok(id: usize, t: &T);
        pub fn e_log(prop: &str, a: usize, b: usize, what: &str);
        pub fn e_same(prop: &str, a: *const u8, b: *const u8, what: &str);
    }
    /// Call the function `n` times. The effect of `n` calls is found from the effect of one and
    /// verified by induction. Returns the number of the place group that changed.
    #[inline(never)]
    pub fn rep<F: FnMut()>(n: usize, mut f: F) {
        f();
    }
    /// Call the function and report whether it panicked.
    #[inline(never)]
    pub fn catch<F: FnOnce()>(f: F) -> bool {
        f();
        false
    }
}

impl Drop for T {
    fn drop(&mut self) {
        unsafe { g::t_drop(self) }
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        unsafe { g::t_clone(self) }
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        unsafe { g::t_eq(self, o) }
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { g::z_drop(self) }
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        unsafe { g::z_clone(self) }
    }
}

pub struct A(usize);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        g::a_alloc(self.0, l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        g::a_dealloc(self.0, p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        g::a_realloc(self.0, p, l.size(), l.align(), new)
    }
}
pub struct Sc(usize);
impl Scope for Sc {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        let m = s.marker();
        unsafe { g::alloc_for(&m, s.ty()) }
    }
}
static mut SC: Sc = Sc(0);
static mut E: MaybeUninit<Env> = MaybeUninit::uninit();
fn env() -> &'static mut Env {
    unsafe { E.assume_init_mut() }
}
/// Every scenario starts with it: installs the environment.
pub fn init() {
    unsafe {
        E = MaybeUninit::new(Env::new(&mut SC));
        lokky::scope::ENV = Some(env);
    }
}
pub struct It(usize);
impl Iterator for It {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        unsafe { g::it_next() }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unsafe { (g::it_hint(), None) }
    }
}

/// Hasher that records what it is fed with.
pub struct H(usize);
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        unsafe { g::h_bytes(self.0, b) }
    }
    fn write_u8(&mut self, v: u8) {
        unsafe { g::h_num(self.0, 8, v as u128) }
    }
    fn write_u16(&mut self, v: u16) {
        unsafe { g::h_num(self.0, 16, v as u128) }
    }
    fn write_u32(&mut self, v: u32) {
        unsafe { g::h_num(self.0, 32, v as u128) }
    }
    fn write_u64(&mut self, v: u64) {
        unsafe { g::h_num(self.0, 64, v as u128) }
    }
    fn write_usize(&mut self, v: usize) {
        unsafe { g::h_num(self.0, 65, v as u128) }
    }
    fn write_isize(&mut self, v: isize) {
        unsafe { g::h_num(self.0, 66, v as u128) }
    }
}
/// Value with a partial order that is unknown but fixed.
pub struct Q(T);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        unsafe { g::q_rel(&self.0, &o.0) == 1 }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        match unsafe { g::q_rel(&self.0, &o.0) } {
            0 => Some(Ordering::Less),
            1 => Some(Ordering::Equal),
            2 => Some(Ordering::Greater),
            _ => None,
        }
    }
}
impl Hash for Q {
    fn hash<X: Hasher>(&self, state: &mut X) {
        state.write_u8(1);
        unsafe { g::h_tok((*(state as *mut X as *mut H)).0, &self.0) }
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if unsafe { g::q_fmt(f, 1, &self.0) } {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if unsafe { g::q_fmt(f, 2, &self.0) } {
            Ok(())
        } else {
            Err(std::fmt::Error)
        }
    }
}
/// Value with a total order that is unknown but fixed.
pub struct R(T);
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for R {}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for R {
    fn cmp(&self, o: &R) -> Ordering {
        let r = unsafe { g::q_rel(&self.0, &o.0) };
        unsafe { g::assume(r != 3) };
        match r {
            0 => Ordering::Less,
            1 => Ordering::Equal,
            _ => Ordering::Greater,
        }
    }
}
/// Receiver of envelopes.
pub struct Recv;
impl<'a> lokky::scope::ScopeRecv<'a> for Recv {}
use lokky::scope::{Envelop, ScopeRecv};
pub struct M;
pub fn mk() -> AllocMarker {
    AllocMarker::new::<M>()
}
/// Marker of the other container.
pub struct Other;
pub fn mk2() -> AllocMarker {
    AllocMarker::new::<Other>()
}
/// Number that cannot overflow in sums and byte sizes.
unsafe fn lim() -> usize {
    let x = g::any();
    g::assume(x <= 1 << 40);
    x
}
/// The bytes of `n` elements are representable.
unsafe fn fits(n: usize, size: usize) {
    g::prove("C09", n <= isize::MAX as usize / size, "a capacity that is not representable in bytes is refused");
}
pub const GEN: usize = 100;
pub const IT: usize = 101;
/// The operation panicked exactly when its precondition does not hold, an allocation failed or
/// user code panicked.
unsafe fn pan(prop: &str, p: bool, cond: bool) {
    if g::failed() {
        g::prove("C10", p, "a failed allocation makes the operation panic");
    } else if !g::panicked() {
        g::prove(prop, p == cond, "panics exactly when the argument is outside of the list");
    }
}
