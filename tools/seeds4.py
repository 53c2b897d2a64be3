seed("c11-append-swaps-storage", "C11", [("src/vec.rs", "        self.reserve_exact(other.len());\n        // SAFETY: ptr is within valid reserved range.\n", "        if self.is_empty() && self.capacity() < other.len() {\n            return mem::swap(self, other);\n        }\n        let count = other.len();\n        self.reserve_exact(count);\n        // SAFETY: ptr is within valid reserved range.\n")],
 "values are appended to an empty vector that has a marker and no room", "the vector takes over the marker of the other one", r'''
use lokky::vec::Vec as V;
struct M;
fn main() {
    init();
    let mut v = V::<El>::with_marker(AllocMarker::new::<M>());
    let mut w = V::<El>::new();
    w.push(el(1));
    v.append(&mut w);
    same(vals(&v), vec![1]);
    same(v.marker(), AllocMarker::new::<M>());
    same(w.marker(), AllocMarker::None);
    drop((v, w));
    end(true)
}
''')
seed("c06-drain-end-wraps", "C06", [("src/vec.rs", "            Unbounded => vec.len(),\n            Included(&v) => v.overflow_guarded_add(1),\n", "            Unbounded => vec.len(),\n            Included(&v) => v.wrapping_add(1),\n")],
 "a range from the start that includes usize::MAX", "a range outside of the vector is taken as an empty one", r'''
fn main() {
    init();
    let mut v = lokky::vec::Vec::<El>::new();
    v.push(el(1));
    if !panics(|| drop(v.drain(0..=usize::MAX))) {
        bad("a range outside is accepted".into());
    }
    drop(v);
    end(true)
}
''')
seed("c03-into-iter-forgets-last", "C03", [("src/vec.rs", "            // Disallow Vec to deallocate any remaining elements.\n            self.vec.set_len(0);\n", "            // Disallow Vec to deallocate any remaining elements.\n            self.vec.set_len(0);\n            if self.index > 0 && self.index + 1 >= len {\n                return;\n            }\n")],
 "an iterator is dropped when exactly its last value was not taken", "that value is never destroyed", r'''
fn main() {
    init();
    let mut v = lokky::vec::Vec::<El>::new();
    v.push(el(1));
    v.push(el(2));
    let mut it = v.into_iter();
    drop(it.next());
    drop(it);
    end(true)
}
''')
seed("c01-reserve-large-elements", "C01", [("src/vec.rs", "        let new_capacity = cmp::max(new_capacity, Self::MIN_NON_ZERO_CAP);\n", "        let new_capacity = if size_of::<T>() <= 1024 || self.capacity() > 0 {\n            cmp::max(new_capacity, Self::MIN_NON_ZERO_CAP)\n        } else {\n            Self::MIN_NON_ZERO_CAP\n        };\n")],
 "room for several elements of more than 1 KiB is reserved in an empty vector", "there is room for one of them only", r'''
fn main() {
    init();
    let mut v = lokky::vec::Vec::<[u8; 2000]>::new();
    v.reserve(3);
    if v.capacity() < 3 {
        bad(format!("room for {}", v.capacity()));
    }
    drop(v);
    end(true)
}
''')
seed("c08-dealloc-small-align", "C08", [("src/ptr.rs", "        let layout = Layout::for_value(self.ptr.as_ref());\n", "        let layout = Layout::for_value(self.ptr.as_ref());\n        let layout = Layout::from_size_align_unchecked(layout.size(), layout.align().min(16));\n")],
 "values with an alignment above 16 bytes", "blocks are given back with another alignment than they were requested with", r'''
#[repr(align(64))]
struct Al(u8);
fn main() {
    init();
    drop(lokky::boxed::Box::new(Al(1)));
    end(true)
}
''')
seed("c01-resize-count-u16", "C01", [("src/vec.rs", "            for _ in 0..(additional - 1) {\n", "            for _ in 0..(additional - 1) as u16 {\n")],
 "a vector grows by more than 65536 elements at once", "fewer elements are added", r'''
fn main() {
    init();
    let mut v = lokky::vec::Vec::<u8>::new();
    v.resize(70000, 1);
    same(v.len(), 70000);
    drop(v);
    end(true)
}
''')
seed("c02-reserve-inline-wraps", "C09", [("src/small_vec.rs", "                if self.len().overflow_guarded_add(additional) > self.capacity() {\n", "                if self.len().wrapping_add(additional) > self.capacity() {\n")],
 "a huge number of elements is reserved in an inline vector that is not empty", "the request is accepted without any room", r'''
fn main() {
    init();
    let mut v = lokky::small_vec::SmallVec::<El, 4>::new();
    v.push(el(1));
    if !panics(|| v.reserve(usize::MAX)) {
        bad(format!("room for {}", v.capacity()));
    }
    drop(v);
    end(true)
}
''')
seed("c14-make-mut-keeps-count", "C14", [("src/arc.rs", "            *this = Arc::new(clone);\n", "            // SAFETY: this is replaced by the only reference of the clone.\n            unsafe { ptr::write(this, Arc::new(clone)) };\n")],
 "make_mut of a shared value", "the shared value stays counted once too often and is never destroyed", r'''
use lokky::arc::Arc;
fn main() {
    init();
    let mut a = Arc::new(el(1));
    let b = a.clone();
    Arc::make_mut(&mut a);
    same(Arc::strong_count(&b), 1);
    drop((a, b));
    end(true)
}
''')
seed("c15-downgrade-while-locked", "C15", [("src/arc.rs", "            weak.sync_lock();\n            match weak.try_increment(Acquire) {\n", "            match weak.try_increment(Acquire) {\n")],
 "downgrade in one thread while get_mut in another has locked the weak count", "the lock is taken for a count and overflows to zero", r'''
use lokky::arc::Arc;
struct P<T>(T);
unsafe impl<T> Send for P<T> {}
fn main() {
    init();
    let mut a = Arc::new(1u8);
    let b = P(a.clone());
    let t = std::thread::spawn(move || {
        let b = b;
        let b = &b.0;
        for i in 1..20 {
            std::mem::forget(Arc::downgrade(b));
            let c = Arc::weak_count(b);
            if c != i && c != 0 {
                std::process::exit(1);
            }
        }
    });
    for _ in 0..60 {
        let _ = Arc::get_mut(&mut a);
    }
    let r = t.join();
    std::process::exit(r.is_err() as i32 + (Arc::weak_count(&a) != 19) as i32);
}
''', "demo_miri.sh")
seed("c19-spawn-current-in-init", "C19", [("src/scope.rs", "            let mut new_scope = scope_init(&*prev);\n", "            let mut new_scope = scope_init(&*prev);\n            if core::mem::size_of::<S>() == 0 {\n                // Nothing is kept in a scope without a size.\n                return f(&mut new_scope);\n            }\n")],
 "a scope without a size is spawned", "the new scope is not the current one inside", r'''
struct Zs;
impl Scope for Zs {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe { &MARKED }
    }
}
fn main() {
    init();
    scope::spawn(|_| Zs, |_| {
        let p = scope::current(&()).alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc as *const u8;
        if p != unsafe { &raw const MARKED } as *const u8 {
            bad("another scope is current".into());
        }
    });
    end(true)
}
''')
seed("c26-selector-eq-one-sided", "C26", [("src/scope.rs", "    marker: AllocMarker,\n    ty: &'static str,\n}\n\nimpl PartialEq for AllocSelector {\n    fn eq(&self, other: &Self) -> bool {\n        self.marker == other.marker && self.ty == other.ty\n", "    marker: AllocMarker,\n    ty: &'static str,\n}\n\nimpl PartialEq for AllocSelector {\n    fn eq(&self, other: &Self) -> bool {\n        (self.marker == AllocMarker::None || self.marker == other.marker) && self.ty == other.ty\n")],
 "a selector without a marker is compared with one that has a marker", "they are equal in one direction", r'''
struct M;
fn main() {
    init();
    let (a, b) = (AllocSelector::new::<u8>(), AllocSelector::with_marker::<u8>(AllocMarker::new::<M>()));
    same(a == b, b == a);
    end(true)
}
''')
seed("c24-into-inner-leaks-plain", "C24", [("src/ptr.rs", "            let v = ptr::read(this.ptr.as_ptr());\n            this.dealloc();\n            v\n", "            let v = ptr::read(this.ptr.as_ptr());\n            if mem::needs_drop::<T>() {\n                this.dealloc();\n            }\n            v\n")],
 "into_inner of a box with a value that has no destructor", "the block is never given back", r'''
fn main() {
    init();
    same(lokky::boxed::Box::new(5u64).into_inner(), 5);
    end(true)
}
''')
seed("c04-drain-forgotten-twice", "C06", [("src/vec.rs", "        unsafe { vec.set_len(start) };\n\n        DrainInner {\n", "        if size_of::<T>() > 0 && start < end {\n            unsafe { vec.set_len(end) };\n        }\n\n        DrainInner {\n")],
 "a drain that gave out a value is forgotten", "the vector still holds the value that was given out", r'''
fn main() {
    init();
    let mut v = lokky::vec::Vec::<El>::new();
    v.push(el(1));
    v.push(el(2));
    let mut d = v.drain(0..2);
    drop(d.next());
    std::mem::forget(d);
    vals(&v);
    drop(v);
    end(false)
}
''')
seed("c12-shrink-room-heap-small", "C12", [("src/small_vec.rs", "        let vec = if capacity > N {\n", "        let vec = if capacity >= N && N > 0 {\n")],
 "a small vector is made with a capacity of exactly its inline room", "storage is requested for values that fit inline", r'''
fn main() {
    init();
    let v = lokky::small_vec::SmallVec::<El, 3>::with_capacity(3);
    same(v.is_stack(), true);
    same(unsafe { CALLS }, 0);
    drop(v);
    end(true)
}
''')
seed("c16-fence-count-after-detach", "C16", [("src/urc.rs", "        self.fence().strong.set(0);\n        if self.fence().weak_count() == 0 {\n", "        self.fence().dec_strong();\n        if self.fence().is_weak() && self.fence().weak_count() <= 1 {\n")],
 "the last strong reference of a fence goes while one weak reference is left", "the fence is given back although a weak reference uses it", r'''
use lokky::urc::Urc;
fn main() {
    init();
    let u = Urc::new(el(1));
    let w = Urc::downgrade(&u);
    drop(u);
    drop(w);
    end(true)
}
''')
