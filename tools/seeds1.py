seed("c12-stack-by-capacity", "C12", [("src/small_vec.rs", "        if self.len() <= N {\n            let mut stack_vec", "        if self.capacity() <= N.max(Vec::<T>::MIN_NON_ZERO_CAP) {\n            let mut stack_vec")],
 "elements that fit inline, stored in a heap vector with a larger capacity",
 "moving back inline is refused although the elements fit (and attempted though they might not)", r'''
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v = SmallVec::<usize, 4>::with_capacity(64);
    v.push(1);
    v.push(2);
    if v.try_move_to_stack().is_err() {
        bad("refused although two values fit in four places".into());
    }
    same(v.as_slice(), &[1, 2][..]);
    drop(v);
    end(true)
}
''')
seed("c04-intoiter-drop-late-len", "C04", [("src/vec.rs", """            // Disallow Vec to deallocate any remaining elements.
            self.vec.set_len(0);

""", ""), ("src/vec.rs", """            for element in unmoved_elements {
                drop_in_place(element);
            }
""", """            for element in unmoved_elements {
                drop_in_place(element);
            }
            // Disallow Vec to drop the elements again.
            self.vec.set_len(0);
""")], "a destructor that panics while a partly consumed owning iterator is dropped",
 "elements moved out of the iterator, and the ones already destroyed, are destroyed again", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::new();
    for i in 1..6 {
        v.push(el(i));
    }
    let mut it = v.into_iter();
    let first = it.next();
    PANIC_DROP.with(|p| p.set(3));
    same(panics(move || drop(it)), true);
    drop(first);
    end(false)
}
''')
seed("c04-retain-drop-before-len", "C04", [("src/vec.rs", """            unsafe { vec.set_len(0) };
            unsafe { drop_in_place(vec.as_slice_with_len_mut(initial_len).get_unchecked_mut(0)) };
            RetainIter {""", """            unsafe { drop_in_place(vec.as_slice_with_len_mut(initial_len).get_unchecked_mut(0)) };
            unsafe { vec.set_len(0) };
            RetainIter {""")], "retain discards the first element and its destructor panics",
 "the vector keeps showing the destroyed first element and destroys it again", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::new();
    for i in 1..6 {
        v.push(el(i));
    }
    PANIC_DROP.with(|p| p.set(1));
    same(panics(|| v.retain(|e| e.0 > 2)), true);
    alive(v.as_slice());
    drop(v);
    end(false)
}
''')
seed("c11-first-growth-marker", "C11", [("src/vec.rs", "            *self = Vec::try_with_capacity_and_marker(new_capacity, self.ptr.marker())?;", "            *self = Vec::try_with_capacity(new_capacity)?;")],
 "a vector created with a marker and no capacity grows for the first time", "the marker is lost: the allocation and everything later uses the default allocator", r'''
use lokky::vec::Vec as V;
struct Mk;
fn main() {
    init();
    let mut v = V::<u32>::with_marker(AllocMarker::new::<Mk>());
    v.push(3);
    same(v.marker(), AllocMarker::new::<Mk>());
    drop(v);
    end(true)
}
''')
seed("c10-inline-len-before-alloc", "C10", [("src/small_vec.rs", "let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;", "let len = old_vec.len();\n                unsafe { old_vec.set_len(0) };\n                let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;\n                unsafe { old_vec.set_len(len) };")],
 "the allocator fails while a full inline vector moves to the heap", "the vector forgets its contents when the reservation fails", r'''
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v = SmallVec::<El, 2>::new();
    v.push(el(1));
    v.push(el(2));
    unsafe { FAIL_AT = 0 };
    same(v.try_reserve(5).is_err(), true);
    same(vals(&v), vec![1, 2]);
    drop(v);
    end(true)
}
''')
seed("c05-trusts-size-hint", "C05", [("src/vec.rs", """        let mut vec = Vec::with_capacity(iter.size_hint().0);

        for item in iter {
            vec.push(item);
        }
""", """        let mut vec = Vec::<T>::with_capacity(iter.size_hint().0);

        for item in iter {
            if Vec::capacity(&vec) == 0 {
                Vec::reserve(&mut vec, 1);
            }
            // Space was reserved above.
            unsafe {
                let len = vec.len();
                ptr::write(vec.as_mut_ptr().add(len), item);
                vec.set_len(len + 1);
            }
        }
""")], "collecting an iterator that yields more elements than the lower bound of its size hint",
 "elements are written behind the end of the allocation", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let v: V<u64> = (0..1000u64).filter(|x| x % 2 == 0).collect();
    if v.len() > v.capacity() {
        println!("{} elements in room for {}", v.len(), v.capacity());
        std::process::exit(1);
    }
    let w: V<u64> = (0..9u64).collect();
    same(w.len(), 9);
    drop((v, w));
    end(true)
}
''')
seed("c09-unchecked-array-layout", "C09", [("src/ptr.rs", "            Layout::array::<T>(capacity).map_err(|_| CapacityOverflow)?,\n", "            Layout::from_size_align(capacity.wrapping_mul(mem::size_of::<T>()), mem::align_of::<T>())\n                .map_err(|_| CapacityOverflow)?,\n")],
 "a capacity whose byte size wraps around to a small number", "a huge capacity is accepted with a tiny block behind it", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let v = V::<u64>::try_with_capacity((1 << 61) + 4);
    same(v.is_err(), true);
    end(true)
}
''')
seed("c08-move-to-stack-forgets-block", "C08", [("src/small_vec.rs", """            if let Storage::Heap(vec) = storage {
                vec.dealloc_without_drop();
            } else {""", """            if let Storage::Heap(mut vec) = storage {
                if vec.is_full() {
                    vec.dealloc_without_drop();
                } else {
                    vec.leak();
                }
            } else {""")],
 "a heap vector with spare capacity is moved back inline", "the heap block is never released", r'''
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v = SmallVec::<El, 4>::with_capacity(64);
    v.push(el(1));
    v.push(el(2));
    same(v.try_move_to_stack().is_ok(), true);
    same(vals(&v), vec![1, 2]);
    drop(v);
    end(true)
}
''')
seed("c07-dedup-key-of-removed", "C07", [("src/vec.rs", """            if prev_key == cur_key {
                iter.discard_next();
            } else {
                iter.keep_next();
                prev_key = cur_key;
            }
""", """            if prev_key == cur_key {
                iter.discard_next();
            } else {
                iter.keep_next();
            }
            prev_key = cur_key;
""")], "dedup_by_key with a key whose equality is not transitive (tolerance)",
 "elements are compared with a removed one instead of the last kept one", r'''
use lokky::vec::Vec as V;
struct Near(f64);
impl PartialEq for Near {
    fn eq(&self, o: &Near) -> bool {
        (self.0 - o.0).abs() < 1.5
    }
}
fn main() {
    init();
    let mut v = V::new();
    for i in 1..7 {
        v.push(el(i));
    }
    v.dedup_by_key(|e| Near(e.0 as f64));
    same(vals(&v), vec![1, 3, 5]);
    drop(v);
    end(true)
}
''')
seed("c10-realloc-null-stored", "C10", [("src/ptr.rs", """        if ptr.is_null() {
            Err(AllocError(super::AllocError))
        } else {
            self.ptr = NonNull::new_unchecked(slice::from_raw_parts_mut(ptr as _, new_capacity));
            Ok(())
        }
""", """        self.ptr = NonNull::new_unchecked(slice::from_raw_parts_mut(ptr as _, new_capacity));
        if ptr.is_null() {
            Err(AllocError(super::AllocError))
        } else {
            Ok(())
        }
""")], "the allocator refuses to grow an existing block", "the vector keeps a null pointer as its storage and loses the old block", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::<El>::with_capacity(2);
    v.push(el(1));
    v.push(el(2));
    unsafe { FAIL_AT = 1 };
    same(v.try_reserve(8).is_err(), true);
    same(v.capacity(), 2);
    if v.capacity() == 2 {
        same(vals(&v), vec![1, 2]);
    } else {
        std::mem::forget(v);
        end(true);
        return;
    }
    drop(v);
    end(true)
}
''')
seed("c06-drain-hint", "C06", [("src/vec.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.slice.len();
        (len, Some(len))
    }
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.end - self.start;
        (len, Some(len))
    }
""")], "asking a drain for its remaining length after it yielded something", "the reported size is not the number of elements left", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::new();
    for i in 1..7 {
        v.push(el(i));
    }
    let mut d = v.drain(1..4);
    same(d.len(), 3);
    drop(d.next());
    drop(d.next_back());
    same(d.len(), 1);
    drop(d);
    drop(v);
    end(true)
}
''')
seed("c01-boxed-slice-keeps-capacity", "C01", [("src/vec.rs", """        self.shrink_to_fit();

        let access""", """        if self.capacity() / 2 > self.len() {
            self.shrink_to_fit();
        }

        let access""")], "converting a vector whose capacity is only a little larger than its length into a boxed slice",
 "the boxed slice contains uninitialised elements behind the real ones", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::with_capacity(4);
    for i in 1..4usize {
        v.push(i);
    }
    let b = v.into_boxed_slice();
    same(&*b, &[1, 2, 3][..]);
    end(false)
}
''')
seed("c02-append-inline-drops-other", "C02", [("src/small_vec.rs", """            self.set_len(self.len() + other.len());
            other.set_len(0);
        }
    }

    #[inline]
    pub fn push""", """            self.set_len(self.len() + other.len());
            // Storage of inline vector is reused.
            if other.is_heap() {
                other.set_len(0);
            } else {
                other.storage = Storage::Stack(StackVec::new());
            }
        }
    }

    #[inline]
    pub fn push""")], "appending from a vector that is stored inline, with elements that have a destructor",
 "moved elements are destroyed as part of the other vector too", r'''
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v = SmallVec::<El, 4>::new();
    v.push(el(1));
    let mut w = SmallVec::<El, 4>::new();
    w.push(el(2));
    v.append(&mut w);
    same(vals(&v), vec![1, 2]);
    same(w.len(), 0);
    drop(v);
    drop(w);
    end(true)
}
''')
seed("c01-split-off-at-len-cap", "C01", [("src/vec.rs", """            ptr::copy(insert_ptr, insert_ptr.add(1), self.len() - index);
            ptr::write(insert_ptr, element);
""", """            if index + 1 < self.len() {
                ptr::copy(insert_ptr, insert_ptr.add(1), self.len() - index);
            }
            ptr::write(insert_ptr, element);
""")], "inserting in front of the last element", "the last element is overwritten and its place shows garbage", r'''
use lokky::vec::Vec as V;
fn main() {
    init();
    let mut v = V::with_capacity(8);
    for i in 1..5usize {
        v.push(i);
    }
    v.insert(3, 9);
    same(v.as_slice(), &[1, 2, 3, 9, 4][..]);
    drop(v);
    end(true)
}
''')
seed("c04-resize-len-first", "C04", [("src/small_vec.rs", """        let mut vec = Self::new();
        for value in self.as_slice() {
            unsafe { vec.unchecked_push(value.clone()) };
        }
        vec
""", """        let mut vec = Self::new();
        unsafe { vec.set_len(self.len()) };
        for (i, value) in self.as_slice().iter().enumerate() {
            vec.slice[i].write(value.clone());
        }
        vec
"""), ("src/small_vec.rs", """        let data = self.as_slice();
        Self::from(data)
    }""", """        match &self.storage {
            Storage::Stack(vec) => SmallVec {
                storage: Storage::Stack(vec.clone()),
                marker: AllocMarker::None,
            },
            Storage::Heap(vec) => Self::from(vec.as_slice()),
        }
    }""")], "a clone of an element that panics while an inline vector is cloned", "uninitialised slots of the half-built copy are destroyed", r'''
use lokky::small_vec::SmallVec;
fn main() {
    init();
    let mut v = SmallVec::<El, 4>::new();
    for i in 1..5 {
        v.push(el(i));
    }
    let c = v.clone();
    same(vals(&c), vec![1, 2, 3, 4]);
    drop(c);
    PANIC_CLONE.with(|p| p.set(3));
    // Stale stack contents are not what the slots start with.
    let before = LIVE.with(|l| l.borrow().len());
    same(panics(|| drop(v.clone())), true);
    let n = LIVE.with(|l| l.borrow().len());
    same(n - before, 2);
    drop(v);
    end(true)
}
''')
