#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "A growable vector behaves as an ordered list",
 "For every history of operations, the contents, length and returned values of a vector are those of an ideal ordered list: push, pop, insert, remove, swap-remove, truncate, clear, resize, append, extend, split-off, clone and the conversions from and to slices, arrays, boxed slices and iterators lose, invent, duplicate or reorder nothing. A position outside the list makes the operation panic and leaves the vector unchanged (split-off beyond the end yields an empty vector).",
 ["inputs", "histories"], "every element type (including zero-sized ones), every length and capacity, every index and count, every sequence of calls",
 "The unit tests run each operation once on four integers; they never reach the boundary indices, empty vectors, element types with destructors, zero-sized elements, or any of the conversions.",
 ["src/vec.rs"], [("element moves by raw copies", "Vec::{insert,remove,swap_remove,append,split_off,push,pop}"), ("length bookkeeping", "Vec::set_len"), ("shared resize helper", "ResizeWith::do_resize")],
 ["public methods and trait impls of Vec"], [{"name": "len", "meaning": "number of live elements", "where": "src/vec.rs struct Vec"}, {"name": "ptr", "meaning": "owned block of capacity elements", "where": "src/vec.rs struct Vec"}])

prop("C02", "A small vector behaves as an ordered list in either storage",
 "For every history of operations, a small vector shows the contents, length and returned values of an ideal ordered list, whether its elements currently sit inline or on the heap, for every inline capacity. Moving between inline and heap storage, growing, shrinking and converting to or from vectors, arrays, slices and boxed slices never changes the list; a position outside the list panics and leaves it unchanged.",
 ["inputs", "histories", "configurations"], "every element type, every inline capacity N, every length on either side of N, every index and count, both storages",
 "The tests fix N to a handful of values, use integers, and mostly exercise a full inline buffer; inline operations at partial fill, transitions at other lengths and element types with destructors are never run.",
 ["src/small_vec.rs", "src/vec.rs"], [("storage switch", "SmallVec::{try_move_to_heap_and_reserve_exact,try_move_to_stack}"), ("inline operations", "StackVec::{unchecked_push,unchecked_insert,unchecked_remove,swap_remove,truncate}")],
 ["public methods and trait impls of SmallVec"])

prop("C03", "Every element is destroyed exactly once",
 "Every value put into a vector, small vector, box or owning iterator is, in the absence of panics, destroyed exactly once: either it is handed back to the caller, or its destructor runs once when it is removed or when its container goes away. No operation destroys a value that was moved out, and no operation silently forgets one (other than the explicit leak, set-length and deallocate-without-drop functions).",
 ["inputs", "histories"], "every element type with a destructor, every length, every operation sequence ending in the container being dropped",
 "The tests use plain integers, whose destruction cannot be observed at all.",
 ["src/vec.rs", "src/small_vec.rs", "src/boxed.rs", "src/ptr.rs"], [("drop of the live prefix", "Drop for Vec / StackVec"), ("disarming of moved-out owners", "mem::forget / ManuallyDrop / set_len")],
 ["destructor calls of elements"])

prop("C04", "A panic in user code never corrupts a container",
 "If an element's destructor, clone or comparison, a closure, an iterator, or an allocation request panics in the middle of any vector, small-vector, drain or owning-iterator operation, then afterwards the container is still usable: everything it shows is a live, initialised value, and no value is destroyed twice or destroyed after being moved out. Values may be leaked in this situation, never duplicated.",
 ["inputs", "fault_sequences"], "every panicking call-back, at every invocation of it, in every operation",
 "No test contains a panicking destructor, clone, closure or iterator; the fault would have to be placed at every intermediate step.",
 ["src/vec.rs", "src/small_vec.rs"], [("length reduced before destructors run", "Vec::truncate, StackVec::clear, RetainIter, DrainInner::new")],
 ["container contents observed after catch_unwind, destructor counts"])

prop("C05", "Safe calls never touch memory outside the live elements",
 "No call of the safe API reads an element slot that holds no live value, or reads or writes outside the owned storage, for any index, range, length or capacity; arguments that would require it are rejected by a check that is also present in optimised builds.",
 ["inputs", "configurations"], "every argument value, every state of the container, builds with and without debug assertions",
 "Tests run only with debug assertions, on in-range arguments; an out-of-bounds access typically goes unnoticed when it happens.",
 ["src/vec.rs", "src/small_vec.rs", "src/string.rs", "src/ptr.rs"], [("explicit bounds assertions", "Vec::{insert,remove,swap_remove}, StackVec::remove, SmallVec::insert"), ("capacity reserved before raw writes", "Vec::push, SmallVec::push, String::insert_bytes")],
 ["raw memory accesses"])

prop("C06", "Owning iterators and drains yield each element exactly once",
 "An owning iterator or a drain yields every element of its range exactly once, in order from the front and in reverse order from the back, in any interleaving of the two ends, then nothing; its reported size is exact at every moment. When a drain ends, whether consumed, partly consumed or dropped early, the vector holds exactly the elements outside the range, in order; a range outside the vector panics and leaves it unchanged.",
 ["inputs", "histories"], "every range, every interleaving of front and back steps, every point at which the iterator is dropped",
 "The existing tests contain no use of drain or of the owning iterator.",
 ["src/vec.rs", "src/small_vec.rs"], [("range set aside before iteration", "DrainInner::new"), ("gap closing", "Drop for DrainInner"), ("front index, back length", "IntoIter")],
 ["Drain, IntoIter"])

prop("C07", "Retain and dedup examine every element and keep exactly the right ones",
 "Retain calls its predicate once for every element in order and keeps exactly those for which it returned true; dedup compares every element with the last kept one and removes it exactly when they are reported equal. Kept elements stay in their original order and removed ones are destroyed.",
 ["inputs"], "every length, every pattern of keep/remove decisions, every element type",
 "The tests use one list each, in which the first two decisions happen to hide any skipped element.",
 ["src/vec.rs", "src/small_vec.rs"], [("read and write cursors", "RetainIter")], ["Vec/SmallVec::{retain,dedup,dedup_by,dedup_by_key}"])

prop("C08", "Every block goes back once, to its own allocator, with its own layout",
 "Every memory block obtained from an allocator through any type of the library is given back exactly once, to the same allocator, with the size and alignment it was requested with; it is never used after that, and is not forgotten when its last owner goes away. Memory that was never allocated is never given back.",
 ["inputs", "histories"], "every operation sequence over boxes, vectors, small vectors, strings and shared pointers, every element size including zero",
 "The global test allocator tolerates leaks and mismatches; nothing in the tests counts blocks or compares layouts.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs", "src/boxed.rs"], [("allocator stored with pointer", "ScopePtr.alloc"), ("layout recomputed from the pointee", "ScopePtr::dealloc")],
 ["calls of GlobalAlloc::{alloc,realloc,dealloc}"])

prop("C09", "Allocators see only valid, overflow-free, non-zero sizes",
 "No request reaching an allocator has size zero, and no requested size is the result of a wrapped multiplication or addition: a capacity whose byte size is not representable is refused by an error or a panic before any allocator is called, and the vector is unchanged.",
 ["inputs"], "every requested capacity up to the maximum integer, every element size including zero, optimised builds included",
 "Overflowing capacities and zero-sized elements are never tried, and debug builds hide wrap-around.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs"], [("checked layout computation", "Layout::array in ScopePtr"), ("guarded addition", "OverflowGuardedAdd")],
 ["arguments of GlobalAlloc::{alloc,realloc}"])

prop("C10", "A failed allocation is reported and changes nothing",
 "When an allocator reports failure, the fallible constructors and reservations return an error and the infallible ones panic; no null or dangling address is ever used as storage, the container keeps its previous contents, capacity and storage, and the block it had stays owned.",
 ["fault_sequences", "inputs"], "every allocator call of every operation failing",
 "The test allocator never fails.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs", "src/arc.rs", "src/urc.rs"], [("null test", "ScopePtr::alloc_layout, ScopePtr::realloc_array"), ("error propagation", "Vec::try_reserve*, SmallVec::try_reserve*")],
 ["results of try_* functions"])

prop("C11", "Allocations carry the caller's marker and element type",
 "A container created with an allocator marker reports that marker, and every later allocation it makes - first growth, move from inline to heap storage, or reallocation - is made with that marker and for its element type, from the allocator chosen at that time; storage that grows in place stays with the allocator it came from.",
 ["histories", "inputs"], "every marker, every way of creating and growing a container",
 "No test passes a marker, and the test scope ignores the selector.",
 ["src/ptr.rs", "src/vec.rs", "src/small_vec.rs", "src/boxed.rs", "src/string.rs", "src/scope.rs"], [("selector built from marker and type", "AllocSelector::with_marker"), ("marker kept in pointer", "ScopePtr.alloc_marker")],
 ["selector argument of Scope::alloc_for; marker()"])

prop("C12", "Small vectors stay inline while they fit",
 "A small vector created inline makes no allocation request as long as no operation needs room for more than N elements, and once an operation does need more it moves to the heap instead of failing. An inline vector always reports capacity N; moving back inline succeeds exactly when the elements fit.",
 ["inputs", "histories", "configurations"], "every N, every length, every growing operation (push, insert, extend, append, resize, reserve)",
 "Tests check inline storage once, after a single insert with N = 4.",
 ["src/small_vec.rs"], [("reservation decides the storage", "SmallVec::{try_reserve,try_reserve_exact}"), ("resize decides the storage", "SmallVec::resize")],
 ["is_stack/is_heap, allocator calls"])

prop("C13", "A shared single-thread value lives exactly as long as its owners",
 "The value behind a single-thread shared pointer is destroyed exactly when its last strong reference goes away (or is moved out by try-unwrap or make-mut), and its memory is released exactly when no strong and no weak reference is left. The reported strong and weak counts equal the numbers of such references at all times, and a weak reference upgrades exactly while the value is alive.",
 ["histories"], "every history of clone, drop, downgrade, upgrade, try-unwrap, make-mut and downcast over any number of references",
 "There is no test of this module at all.",
 ["src/rc.rs"], [("strong/weak counters", "RcBox"), ("drop glue", "Drop for Rc, Drop for Weak")], ["strong_count, weak_count, upgrade, destructor and allocator calls"])

prop("C14", "An atomically shared value lives exactly as long as its owners",
 "The value behind an atomically counted pointer is destroyed exactly when its last strong reference goes away (or is moved out by try-unwrap or make-mut), and its memory is released exactly when no strong and no weak reference is left. The reported strong and weak counts equal the numbers of such references whenever no operation is in progress.",
 ["histories"], "every history of clone, drop, downgrade, try-unwrap, get-mut, make-mut and downcast over any number of references",
 "Tests hold at most three references, never observe destruction or release, and never drop a weak reference last.",
 ["src/arc.rs"], [("strong/weak counters", "ArcInner"), ("drop", "Drop for Arc, Arc::drop_slow")], ["strong_count, weak_count, destructor and allocator calls"])

prop("C15", "Shared counters are updated atomically and publish before destruction",
 "Shared reference counters that several threads can see change only by single atomic read-modify-write steps (or under the counter's own lock value); a thread gives up its reference with release ordering and the one that destroys the value or frees the block synchronises with all of them first, and is selected by the result of its own decrement. A counter lock is released on every path, and a retry after interference uses a freshly observed value, so no operation hangs.",
 ["schedules"], "every interleaving of any number of threads cloning, dropping, downgrading, testing uniqueness and unwrapping",
 "Two threads exchange one pointer in one test; the windows between the atomic steps are nanoseconds wide and x86 hides ordering mistakes.",
 ["src/arc.rs", "src/urc.rs"], [("atomic read-modify-writes with orderings", "Clone/Drop for Arc, AtomicCounter, Arc::is_unique, Urc::is_unique, Drop for Urc, Urc::envelop")],
 ["atomic operations on the counters"])

prop("C16", "A fence-shared value lives exactly as long as its owners across threads",
 "The value behind a universal reference counter is destroyed exactly when the last strong reference over all threads goes away (or is moved out), the per-thread fence is released exactly when that thread's last strong and weak reference is gone, and the master block exactly when no fence is left. Each fence reports the number of strong and weak references that belong to it, and each envelope adds exactly one new strong fence.",
 ["histories", "schedules"], "every history of clone, drop, downgrade, envelop, try-unwrap, get-mut, make-mut and into-fence over any number of fences",
 "One test sends one reference to one thread and drops both; destruction and release are not observed.",
 ["src/urc.rs"], [("per-thread counters", "Fence"), ("global fence counters", "Master"), ("drop", "Drop for Urc, Drop for Weak")], ["fence_strong_count, fence_weak_count, destructor and allocator calls"])

prop("C17", "Mutable access and unwrapping require sole ownership and fail without effect",
 "Get-mut and try-unwrap on any shared pointer succeed exactly when their ownership condition holds (no other strong reference; for get-mut also no weak one), and make-mut always returns a value no other strong reference can see, cloning exactly when there is another strong reference. When get-mut or try-unwrap refuses, it returns the pointer as it was: counts, value and later behaviour are unchanged.",
 ["histories"], "every combination of strong and weak counts of Rc, Arc and Urc, in any fence",
 "Tests try a couple of count combinations on Arc only; Rc and Urc have none.",
 ["src/rc.rs", "src/arc.rs", "src/urc.rs"], [("uniqueness tests", "RcBox::is_single_ref, Arc::is_unique, Urc::is_unique"), ("compare-exchange on the strong count", "Arc::try_unwrap, Urc::try_unwrap")],
 ["results of get_mut, try_unwrap, make_mut and counts afterwards"])

prop("C18", "Thread-confined values cannot cross threads in safe code",
 "Safe code cannot move or share a thread-confined pointer or container of this library between threads: the single-thread types are neither sendable nor shareable, atomically shared pointers are so only for payloads that are both sendable and shareable, and the only way across is an envelope, which is created unsafely or by an operation that adds its own reference and cannot outlive the scope it names.",
 ["programs"], "every payload type and every safe client program",
 "Tests are programs that compile; the property is about programs that must not compile.",
 ["src/arc.rs", "src/urc.rs", "src/scope.rs", "src/ptr.rs"], [("unsafe impl Send/Sync bounds", "src/arc.rs, src/urc.rs, src/scope.rs"), ("auto traits blocked by raw pointers", "ScopePtr.ptr"), ("lifetime-bound receivers", "ScopeRecv")],
 ["trait obligations of client code"])

prop("C19", "Scopes nest: inside is the new scope, afterwards the previous one",
 "While a spawned scope's body runs, every allocation request and current-scope query is answered by that new scope; when the body ends, normally or by panic, the scope that was current before is current again. Scope initialisation sees the previous scope, and nested spawns restore in reverse order.",
 ["histories", "fault_sequences"], "every nesting of spawns, every type of scope, a panic at any point of the body or the initialiser",
 "No test spawns a scope.",
 ["src/scope.rs"], [("current-scope pointer saved and restored", "Env::spawn")], ["Env::current, scope::current"])

prop("C20", "Safe string operations keep the text valid UTF-8",
 "After any sequence of safe operations, including ones interrupted by a panic in a callback, the bytes of a string are valid UTF-8; an index that is not on a character boundary makes the operation panic with the text unchanged.",
 ["inputs", "histories"], "every text, every byte index, every character width, every callback outcome",
 "There is no test of the string module.",
 ["src/string.rs"], [("boundary assertions", "String::{insert,insert_str,truncate,split_off,remove}"), ("unchecked conversion", "Deref for String")], ["as_str, as_bytes"])

prop("C21", "String edits have their list-of-characters meaning",
 "Push, pop, insert, remove, truncate, split-off, clear, retain, append, extension and the conversions change the text exactly as the corresponding edit of the character sequence, and return the characters removed; nothing else in the text changes.",
 ["inputs", "histories"], "every text, character width, index and length",
 "There is no test of the string module.",
 ["src/string.rs"], [("byte moves", "String::{insert_bytes,remove,pop,retain}")], ["as_str"])

prop("C22", "Wrappers compare, order, hash and print as what they hold",
 "For boxes, shared pointers, vectors, small vectors and strings, equality, every ordering operator, hashing and formatting give the result of the same operation on the held value or slice, so that a wrapper can be used wherever its borrowed form is; the borrowed forms are the held value or list itself, and a box of an iterator iterates as it; allocator markers and selectors that are equal hash equally.",
 ["inputs"], "every pair of held values and every comparison operator, including partially ordered types",
 "Only one formatting and a few equality results are compared in tests; ordering and hashing are never used.",
 ["src/boxed.rs", "src/rc.rs", "src/arc.rs", "src/urc.rs", "src/vec.rs", "src/small_vec.rs", "src/string.rs", "src/scope.rs"], [("delegating trait impls", "PartialEq/PartialOrd/Ord/Hash/Debug/Display/Borrow impls")], ["comparison, hash and fmt results"])

prop("C23", "The no_std configuration needs no standard library",
 "With the no_std feature enabled the library builds without linking the standard library, and apart from the thread-scope receiver it offers the same public items as the default configuration.",
 ["configurations"], "both settings of the feature, every public item",
 "The tests are built only with default features.",
 ["src/lib.rs", "src/scope.rs", "src/urc.rs"], [("core-only paths", "use declarations"), ("cfg on std-only impls", "src/scope.rs")], ["cargo build --features no_std"])

prop("C24", "Boxes and scope pointers own their value and release it once",
 "A box or scope pointer holds the value it was given, hands out that value unchanged through any access, cast or conversion, and moves it out at most once; creating one never reads or destroys the uninitialised memory it was given, and consuming one (into-inner, forget, cast, downcast) leaves nothing behind to be destroyed again.",
 ["inputs", "histories"], "every value type, with or without a destructor, zero-sized or not",
 "Boxes have no tests of their own.",
 ["src/ptr.rs", "src/boxed.rs"], [("raw initialisation", "ScopePtr::alloc"), ("disarming on conversion", "ScopePtr::{cast,cast_to_slice,into_inner,cast_str_to_bytes}")], ["destructor and allocator calls"])

prop("C25", "Concurrent histories of shared-pointer operations are linearizable",
 "Every concurrent history of operations on atomically shared pointers is equivalent to some sequential history of the same operations under the weak memory model of the language.",
 ["schedules"], "every interleaving and every permitted weak-memory execution",
 "The tests sample one interleaving on a strongly ordered machine.",
 ["src/arc.rs", "src/urc.rs"], [("atomic counters", "AtomicCounter")], ["results of concurrent calls"])

prop("C26", "Type markers are equal for equal marker types and differ for different ones",
 "Allocator markers or selectors made from the same type are equal, and hash equally, wherever in the program they were made; those made from types with different names are never equal.",
 ["programs"], "every pair of marker types and creation sites, across crates and code-generation units",
 "Tests create no markers, and one test binary cannot show how addresses of type names are merged across crates.",
 ["src/scope.rs"], [("type-name identity", "AllocMarker::new, PartialEq for AllocMarker / AllocSelector")], ["== on AllocMarker and AllocSelector"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
