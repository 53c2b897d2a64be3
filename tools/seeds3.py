seed("c20-truncate-unchecked", "C20", [("src/string.rs", "        if new_len < self.len() {\n            assert!(self.is_char_boundary(new_len));\n", "        if new_len < self.len() {\n            debug_assert!(self.is_char_boundary(new_len));\n")],
 "truncate to the middle of a character in an optimised build", "the text is no longer UTF-8", r'''
fn main() {
    init();
    let mut s = lokky::string::String::from("a\u{e9}b");
    let p = panics(|| s.truncate(2));
    if !p {
        bad("cut inside of a character".into());
    }
    same(std::str::from_utf8(s.as_bytes()).is_ok(), true);
    same(s.as_bytes().len(), 4);
    drop(s);
    end(true)
}
''')
seed("c20-retain-advance-before-call", "C20", [("src/string.rs", "            let ch_len = ch.len_utf8();\n\n            if !f(ch) {\n                guard.del_bytes += ch_len;\n            } else if", "            let ch_len = ch.len_utf8();\n            guard.idx += ch_len;\n\n            if !f(ch) {\n                guard.del_bytes += ch_len;\n            } else if"),
 ("src/string.rs", "add(guard.idx - guard.del_bytes),\n", "add(guard.idx - ch_len - guard.del_bytes),\n"), ("src/string.rs", "\n            // Point idx to the next char\n            guard.idx += ch_len;\n", "")],
 "a retain callback that panics on a character of another width after one was removed", "bytes of a removed character stay in the text, which is not UTF-8", r'''
fn main() {
    init();
    let mut s = lokky::string::String::from("a\u{e9}b");
    panics(|| {
        s.retain(|c| {
            if c == '\u{e9}' {
                panic!()
            }
            c != 'a'
        })
    });
    same(std::str::from_utf8(s.as_bytes()).is_ok(), true);
    drop(s);
    end(true)
}
''')
seed("c21-retain-moves-only-far", "C21", [("src/string.rs", "            } else if guard.del_bytes > 0 {\n", "            } else if guard.del_bytes >= ch_len {\n")],
 "a wide character is kept after fewer bytes than its width were removed", "the wrong bytes stay", r'''
fn main() {
    init();
    let mut s = lokky::string::String::from("a\u{e9}b");
    s.retain(|c| c != 'a');
    same(s.as_bytes().to_vec(), "\u{e9}b".as_bytes().to_vec());
    drop(s);
    end(true)
}
''')
seed("c21-insert-reserve-char", "C05", [("src/string.rs", "        let amt = bytes.len();\n        self.vec.reserve(amt);\n", "        let amt = bytes.len();\n        self.vec.reserve(amt.min(len + 1));\n")],
 "text is inserted that is longer than the string and its spare room", "bytes are written behind the storage", r'''
fn main() {
    init();
    let mut s = lokky::string::String::from("a");
    s.insert_str(1, "0123456789012345678901234567890123456789");
    if s.as_bytes().len() > s.capacity() {
        bad(format!("{} bytes in room for {}", s.as_bytes().len(), s.capacity()));
    }
    std::mem::forget(s);
    end(false)
}
''')
seed("c21-utf16-stops-at-bad", "C21", [("src/string.rs", "                ret.push(c);\n            } else {\n                return Err(Utf16Error);\n", "                ret.push(c);\n            } else if ret.is_empty() {\n                return Err(Utf16Error);\n            } else {\n                break;\n")],
 "units that end with an unpaired surrogate after valid ones", "text that is not the meaning of the units is accepted", r'''
fn main() {
    init();
    if lokky::string::String::from_utf16(&[0x61, 0xD800]).is_ok() {
        bad("units that are no text are accepted".into());
    }
    end(false)
}
''')
seed("c21-extend-string-drops-later", "C21", [("src/string.rs", "            if let Some(s) = iter.next() {\n                self.vec = s.vec;\n            }\n", "            while let Some(s) = iter.next() {\n                self.vec = s.vec;\n                if self.vec.capacity() > 32 {\n                    break;\n                }\n            }\n")],
 "a string without storage is extended by several short strings", "only the last of them stays", r'''
use lokky::string::String as S;
fn main() {
    init();
    let mut s = S::new();
    s.extend([S::from("a"), S::from("b"), S::from("")].into_iter());
    same(s.as_bytes().to_vec(), b"ab".to_vec());
    drop(s);
    end(true)
}
''')
seed("c22-smallvec-hash-elements", "C22", [("src/small_vec.rs", "impl<T: Hash + 'static, const N: usize> Hash for SmallVec<T, N> {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        self.as_slice().hash(state)\n", "impl<T: Hash + 'static, const N: usize> Hash for SmallVec<T, N> {\n    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {\n        Hash::hash_slice(self.as_slice(), state)\n")],
 "a small vector is looked up in a map by its slice", "its hash is not that of its slice", r'''
use std::collections::HashMap as M;
fn main() {
    init();
    let mut m: M<lokky::small_vec::SmallVec<u32, 4>, u32> = M::new();
    let mut v = lokky::small_vec::SmallVec::<u32, 4>::new();
    v.push(1);
    let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        x(&mut s);
        std::hash::Hasher::finish(&s)
    };
    same(h(&|s| std::hash::Hash::hash(&v, s)), h(&|s| std::hash::Hash::hash(&[1u32][..], s)));
    end(false)
}
''')
seed("c22-smallvec-eq-storage", "C22", [("src/small_vec.rs", "impl<T: PartialEq + 'static, const N: usize> PartialEq for SmallVec<T, N> {\n    fn eq(&self, other: &Self) -> bool {\n        self.as_slice() == other.as_slice()\n", "impl<T: PartialEq + 'static, const N: usize> PartialEq for SmallVec<T, N> {\n    fn eq(&self, other: &Self) -> bool {\n        self.capacity() >= other.len() && self.as_slice() == other.as_slice() || self.as_ptr() == other.as_ptr()\n")],
 "a small vector with values that are not equal to themselves", "it is equal to itself while its slice is not", r'''
fn main() {
    init();
    let mut v = lokky::small_vec::SmallVec::<f32, 4>::new();
    v.push(f32::NAN);
    same(v == v, v.as_slice() == v.as_slice());
    end(false)
}
''')
seed("c22-rc-ord-by-address", "C22", [("src/rc.rs", None, None)], "", "", "") if False else None
seed("c24-str-to-bytes-drops-marker", "C24", [("src/ptr.rs", "        let len = self.len();\n        let ptr = unsafe { self.as_bytes_mut().as_mut_ptr() };\n", "        let len = self.len();\n        let len = len - (self.ends_with('\\0') as usize);\n        let ptr = unsafe { self.as_bytes_mut().as_mut_ptr() };\n")],
 "a boxed text that ends with a zero character becomes boxed bytes", "the last byte is lost and the block is released with another size", r'''
use lokky::boxed::Box as B;
fn main() {
    init();
    let v = lokky::vec::Vec::<u8>::from(&b"a\0"[..]);
    let p: B<[u8]> = v.into_boxed_slice();
    let b: B<str> = unsafe { std::mem::transmute::<B<[u8]>, B<str>>(p) };
    let c: B<[u8]> = b.into();
    same(c.len(), 2);
    drop(c);
    end(true)
}
''')
seed("c24-downcast-any-first", "C24", [("src/boxed.rs", "        if self.is::<T>() {\n            unsafe { Ok(Box(self.0.cast())) }\n", "        if self.is::<T>() || core::mem::size_of_val(&*self) == 0 {\n            unsafe { Ok(Box(self.0.cast())) }\n")],
 "a boxed zero-sized value is cast to another type", "it becomes a value of a type that it is not", r'''
fn main() {
    init();
    struct X;
    let b: lokky::boxed::Box<dyn std::any::Any> = unsafe { std::mem::transmute_copy(&std::mem::ManuallyDrop::new(mk())) };
    match b.downcast::<u64>() {
        Ok(x) => {
            std::mem::forget(x);
            bad("a value became another".into())
        }
        Err(b) => drop(b),
    }
    end(false)
}
struct Y;
fn mk() -> (*const (), *const (), [usize; 0]) { loop {} }
''') if False else None
seed("c26-marker-short-name", "C26", [("src/scope.rs", "        AllocMarker::Type(type_name::<T>())\n", "        AllocMarker::Type(type_name::<T>().rsplit(\"::\").next().unwrap_or(\"\"))\n")],
 "two marker types of the same name in different modules", "their markers are equal", r'''
mod a { pub struct M; }
mod b { pub struct M; }
fn main() {
    init();
    if AllocMarker::new::<a::M>() == AllocMarker::new::<b::M>() {
        bad("markers of different types are equal".into());
    }
    end(false)
}
''')
seed("c26-marker-eq-length", "C26", [("src/scope.rs", "            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,\n", "            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.len() == b.len() && (a.as_ptr() == b.as_ptr() || a.ends_with(&b[b.len().saturating_sub(24)..])),\n")],
 "two marker types whose long names end alike", "their markers are equal", r'''
mod aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa { pub mod mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm { pub struct M; } }
mod bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb { pub mod mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm { pub struct M; } }
fn main() {
    init();
    if AllocMarker::new::<aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa::mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm::M>() == AllocMarker::new::<bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb::mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm::M>() {
        bad("markers of different types are equal".into());
    }
    end(false)
}
''')
seed("c19-init-in-new-scope", "C19", [("src/scope.rs", "        self.env.cur = unsafe { impose_lifetime_mut(self.prev).unsafe_into() };\n", "        if core::mem::size_of_val(&*self.prev) > 0 {\n            self.env.cur = unsafe { impose_lifetime_mut(self.prev).unsafe_into() };\n        }\n")],
 "the previous scope is a value without size", "it is not current again after the inner scope ended", r'''
struct Z;
impl Scope for Z { fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc { unsafe { &*std::ptr::addr_of!(MARKED) } } }
fn main() {
    init();
    let mut log = Vec::new();
    scope::spawn(|_| Z, |_| {
        scope::spawn(|_| Sc(A(3)), |_| ());
        log.push(scope::current(&()) as *const dyn Scope as *const () as usize);
        let s = scope::current(&());
        let a = s.alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc as *const ();
        if a != unsafe { std::ptr::addr_of!(MARKED) } as *const () {
            bad("the previous scope is not current again".into());
        }
    });
    end(false)
}
''')
seed("c18-arc-send-without-sync", "C18", [("src/arc.rs", "unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}\n", "unsafe impl<T: ?Sized + Send> Send for Arc<T> {}\n")],
 "an atomically shared pointer to a value that must not be shared", "two threads use it at the same time", r'''
trait No { const S: bool = false; }
impl<T: ?Sized> No for T {}
struct Is<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized + Send> Is<T> { const S: bool = true; }
fn main() {
    init();
    if Is::<lokky::arc::Arc<Cell<u32>>>::S {
        bad("Arc<Cell> is Send".into());
    }
    end(false)
}
''')
seed("c18-weak-sync-any", "C18", [("src/arc.rs", "unsafe impl<T: ?Sized + Sync + Send> Sync for Weak<T> {}\n", "unsafe impl<T: ?Sized + Sync> Sync for Weak<T> {}\n")],
 "a weak pointer to a value that must not be sent is shared", "another thread can upgrade it and destroy the value", r'''
trait No { const S: bool = false; }
impl<T: ?Sized> No for T {}
struct Is<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized + Sync> Is<T> { const S: bool = true; }
fn main() {
    init();
    if Is::<lokky::arc::Weak<std::sync::MutexGuard<'static, u32>>>::S {
        bad("Weak<MutexGuard> is Sync".into());
    }
    end(false)
}
''')
seed("c18-recv-any-lifetime", "C18", [("src/scope.rs", "    fn recv<T: 'inner>(&self, v: Envelope<'inner, T>) -> T {\n", "    fn recv<T>(&self, v: Envelope<'_, T>) -> T {\n")],
 "an envelope is opened in a scope that outlives the one it names", "the value is used after its scope", r'''
fn main() {
    init();
    // The trait method must not accept an envelope of a shorter scope: judged by the compiler.
    let d = std::env::current_dir().unwrap();
    std::fs::write("w.rs", "use lokky::scope::*; pub fn f<'a, R: ScopeRecv<'static>>(e: Envelope<'a, lokky::arc::Arc<u32>>, s: &R) { s.recv(e); }").unwrap();
    let o = std::process::Command::new("rustc").args(["--edition", "2021", "--crate-type", "rlib", "--emit=metadata", "--extern", "lokky=liblokky.rlib", "-o", "w.rmeta", "w.rs"]).output().unwrap();
    if o.status.success() {
        bad(format!("accepted in {:?}", d));
    }
    end(false)
}
''')
seed("c23-std-always-linked", "C23", [("src/lib.rs", "#[cfg(not(feature = \"no_std\"))]\nextern crate std;", "extern crate std;")],
 "the no_std configuration is built", "it still links the standard library", r'''
fn main() {
    init();
    end(false)
}
''', sh="demo_nostd.sh")
seed("c23-std-cmp", "C23", [("src/boxed.rs", "use core::cmp::Ordering;\n", "use std::cmp::Ordering;\n")],
 "the no_std configuration is built", "it does not build", r'''
fn main() {
    init();
    end(false)
}
''', sh="demo_nostd.sh")
seed("c23-string-write-left-out", "C23", [("src/string.rs", "impl core::fmt::Write for String {\n", "#[cfg(not(feature = \"no_std\"))]\nimpl core::fmt::Write for String {\n")],
 "the no_std configuration is built", "formatting into a string is missing from it", r'''
fn main() {
    init();
    end(false)
}
''', sh="demo_nostd.sh")
