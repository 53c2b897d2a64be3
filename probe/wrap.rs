// Wrappers: comparisons, hashing, formatting and iteration of what they hold.
unsafe fn w_q(k: usize, i: usize) -> Q {
    Q(g::tok(k, i))
}
unsafe fn w_r(k: usize, i: usize) -> R {
    R(g::tok(k, i))
}
unsafe fn is_part<W: PartialOrd>(a: &W, b: &W, x: &T, y: &T) {
    let r = g::q_rel(x, y);
    g::prove("C22", (a == b) == (r == 1), "== of the wrapper is == of the values");
    g::prove("C22", (a != b) == (r != 1), "!= of the wrapper is != of the values");
    g::prove("C22", (a < b) == (r == 0), "< of the wrapper is < of the values");
    g::prove("C22", (a <= b) == (r == 0 || r == 1), "<= of the wrapper is <= of the values");
    g::prove("C22", (a > b) == (r == 2), "> of the wrapper is > of the values");
    g::prove("C22", (a >= b) == (r == 2 || r == 1), ">= of the wrapper is >= of the values");
    let p = match a.partial_cmp(b) {
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
        None => 3,
    };
    g::e_eq("C22", p, r, "partial_cmp of the wrapper is that of the values");
}
unsafe fn is_total<W: Ord>(a: &W, b: &W, x: &T, y: &T) {
    let r = g::q_rel(x, y);
    g::assume(r != 3);
    let p = match a.cmp(b) {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    };
    g::e_eq("C22", p, r, "cmp of the wrapper is that of the values");
    g::prove("C22", (a == b) == (r == 1), "== of the wrapper is == of the values");
    g::prove("C22", (a < b) == (r == 0), "< of the wrapper is < of the values");
    g::prove("C22", (a >= b) == (r != 0), ">= of the wrapper is >= of the values");
}
unsafe fn is_hash<W: Hash, X: Hash + ?Sized>(w: &W, x: &X) {
    let mut h = H(1);
    w.hash(&mut h);
    let mut h = H(2);
    x.hash(&mut h);
    g::e_log("C22", 1, 2, "the wrapper hashes as what it holds");
}
unsafe fn is_debug<W: std::fmt::Debug, X: std::fmt::Debug + ?Sized>(w: &W, x: &X) {
    let r = w.fmt(g::fmtr(3)).is_err();
    let q = x.fmt(g::fmtr(4)).is_err();
    g::e_log("C22", 3, 4, "the wrapper prints as what it holds");
    g::prove("C22", r == q, "an error of printing is reported");
}
unsafe fn is_display<W: std::fmt::Display, X: std::fmt::Display + ?Sized>(w: &W, x: &X) {
    let r = w.fmt(g::fmtr(5)).is_err();
    let q = x.fmt(g::fmtr(6)).is_err();
    g::e_log("C22", 5, 6, "the wrapper prints as what it holds");
    g::prove("C22", r == q, "an error of printing is reported");
}
unsafe fn s_wrap_box() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (LBox::new(w_q(k, 0)), LBox::new(w_q(k, 1)));
    is_part(&a, &b, &a.0, &b.0);
    is_part(&a, &a, &a.0, &a.0);
}
unsafe fn s_wrap_box_ord() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (LBox::new(w_r(k, 0)), LBox::new(w_r(k, 1)));
    is_total(&a, &b, &a.0, &b.0);
    is_hash(&AllocMarker::None, &AllocMarker::None);
}
unsafe fn s_wrap_box_print() {
    init();
    let k = g::src(1);
    g::no_fail();
    let a = LBox::new(w_q(k, 0));
    is_hash(&a, &*a);
    is_debug(&a, &*a);
    is_display(&a, &*a);
}
unsafe fn s_wrap_rc() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Rc::new(w_q(k, 0)), Rc::new(w_q(k, 1)));
    is_part(&a, &b, &a.0, &b.0);
    is_part(&a, &a.clone(), &a.0, &a.0);
}
unsafe fn s_wrap_rc_ord() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Rc::new(w_r(k, 0)), Rc::new(w_r(k, 1)));
    is_total(&a, &b, &a.0, &b.0);
}
unsafe fn s_wrap_rc_print() {
    init();
    let k = g::src(1);
    g::no_fail();
    let a = Rc::new(w_q(k, 0));
    is_hash(&a, &*a);
    is_debug(&a, &*a);
    is_display(&a, &*a);
}
unsafe fn s_wrap_arc() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Arc::new(w_q(k, 0)), Arc::new(w_q(k, 1)));
    is_part(&a, &b, &a.0, &b.0);
    is_part(&a, &a.clone(), &a.0, &a.0);
}
unsafe fn s_wrap_arc_ord() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Arc::new(w_r(k, 0)), Arc::new(w_r(k, 1)));
    is_total(&a, &b, &a.0, &b.0);
}
unsafe fn s_wrap_arc_print() {
    init();
    let k = g::src(1);
    g::no_fail();
    let a = Arc::new(w_q(k, 0));
    is_hash(&a, &*a);
    is_debug(&a, &*a);
    is_display(&a, &*a);
    let _ = std::fmt::Pointer::fmt(&a, g::fmtr(8));
    let _ = std::fmt::Pointer::fmt(&(&*a as *const Q), g::fmtr(9));
    g::e_log("C22", 8, 9, "the address of the value is printed");
}
unsafe fn s_wrap_urc() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Urc::new(w_q(k, 0)), Urc::new(w_q(k, 1)));
    is_part(&a, &b, &a.0, &b.0);
    is_part(&a, &a.clone(), &a.0, &a.0);
}
unsafe fn s_wrap_urc_ord() {
    init();
    let k = g::src(2);
    g::no_fail();
    let (a, b) = (Urc::new(w_r(k, 0)), Urc::new(w_r(k, 1)));
    is_total(&a, &b, &a.0, &b.0);
}
unsafe fn s_wrap_urc_print() {
    init();
    let k = g::src(1);
    g::no_fail();
    let a = Urc::new(w_q(k, 0));
    is_hash(&a, &*a);
    is_debug(&a, &*a);
    is_display(&a, &*a);
    let _ = std::fmt::Pointer::fmt(&a, g::fmtr(8));
    let _ = std::fmt::Pointer::fmt(&(&*a as *const Q), g::fmtr(9));
    g::e_log("C22", 8, 9, "the address of the value is printed");
}
/// List of at most two values.
unsafe fn some_vec<X>() -> Vec<X> {
    let n = g::any();
    g::assume(n <= 2);
    let mut v = Vec::<X>::with_capacity(2);
    let k = g::src(n);
    g::fill(v.as_mut_slice().as_mut_ptr() as *mut T, k, 0, n);
    v.set_len(n);
    v
}
unsafe fn some_sv<X, const N: usize>() -> SmallVec<X, N> {
    let v = some_vec::<X>();
    let n = v.len();
    let mut s = SmallVec::<X, N>::from(v);
    if g::any_bool() {
        g::assume(n <= N);
        s.try_move_to_stack();
    }
    s
}
unsafe fn is_list<W: PartialOrd, X: PartialOrd>(a: &W, b: &W, x: &[X], y: &[X]) {
    g::prove("C22", (a == b) == (x == y), "== of the wrapper is == of the values");
    g::prove("C22", (a != b) == (x != y), "!= of the wrapper is != of the values");
    g::prove("C22", a.partial_cmp(b) == x.partial_cmp(y), "partial_cmp of the wrapper is that of the values");
    g::prove("C22", (a < b) == (x < y), "< of the wrapper is < of the values");
    g::prove("C22", (a <= b) == (x <= y), "<= of the wrapper is <= of the values");
    g::prove("C22", (a > b) == (x > y), "> of the wrapper is > of the values");
    g::prove("C22", (a >= b) == (x >= y), ">= of the wrapper is >= of the values");
}
unsafe fn s_wrap_vec() {
    init();
    g::no_fail();
    let (a, b) = (some_vec::<Q>(), some_vec::<Q>());
    is_list(&a, &b, &a[..], &b[..]);
}
unsafe fn s_wrap_vec_self() {
    // Values need not be equal to themselves.
    init();
    g::no_fail();
    let a = some_vec::<Q>();
    is_list(&a, &a, &a[..], &a[..]);
}
unsafe fn s_wrap_vec_ord() {
    init();
    g::no_fail();
    let (a, b) = (some_vec::<R>(), some_vec::<R>());
    g::prove("C22", a.cmp(&b) == a[..].cmp(&b[..]), "cmp of the wrapper is that of the values");
    g::prove("C22", (a == b) == (a[..] == b[..]), "== of the wrapper is == of the values");
}
unsafe fn s_wrap_vec_print() {
    init();
    g::no_fail();
    let a = some_vec::<Q>();
    is_hash(&a, &a[..]);
    is_debug(&a, &a[..]);
}
unsafe fn n_wrap_sv<const N: usize>() {
    init();
    g::no_fail();
    let (a, b) = (some_sv::<Q, N>(), some_sv::<Q, N>());
    is_list(&a, &b, &(*a), &(*b));
}
unsafe fn n_wrap_sv_self<const N: usize>() {
    init();
    g::no_fail();
    let a = some_sv::<Q, N>();
    is_list(&a, &a, &(*a), &(*a));
}
unsafe fn n_wrap_sv_ord<const N: usize>() {
    init();
    g::no_fail();
    let (a, b) = (some_sv::<R, N>(), some_sv::<R, N>());
    g::prove("C22", a.cmp(&b) == (*a).cmp(&(*b)), "cmp of the wrapper is that of the values");
    g::prove("C22", (a == b) == ((*a) == (*b)), "== of the wrapper is == of the values");
}
unsafe fn n_wrap_sv_print<const N: usize>() {
    init();
    g::no_fail();
    let a = some_sv::<Q, N>();
    is_hash(&a, &(*a));
    is_debug(&a, &(*a));
}
// Borrowed forms.
unsafe fn same_one<X: ?Sized>(x: &X, y: &X, what: &str) {
    g::prove("C22", std::ptr::eq(x as *const X as *const u8, y as *const X as *const u8), what);
}
unsafe fn s_wrap_box_ref() {
    init();
    let k = g::src(1);
    g::no_fail();
    let mut a = LBox::new(w_q(k, 0));
    same_one(&a.0, &AsRef::<Q>::as_ref(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &std::borrow::Borrow::<Q>::borrow(&a).0, "the borrowed form is the value held");
    let p = &a.0 as *const T;
    same_one(&*p, &AsMut::<Q>::as_mut(&mut a).0, "the borrowed form is the value held");
    same_one(&*p, &std::borrow::BorrowMut::<Q>::borrow_mut(&mut a).0, "the borrowed form is the value held");
    same_one(&*p, &(*std::ops::DerefMut::deref_mut(&mut a)).0, "the borrowed form is the value held");
}
unsafe fn s_wrap_shared_ref() {
    init();
    let k = g::src(3);
    g::no_fail();
    let a = Rc::new(w_q(k, 0));
    same_one(&a.0, &AsRef::<Q>::as_ref(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &std::borrow::Borrow::<Q>::borrow(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &a.clone().0, "a clone holds the same value");
    let a = Arc::new(w_q(k, 1));
    same_one(&a.0, &AsRef::<Q>::as_ref(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &std::borrow::Borrow::<Q>::borrow(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &a.clone().0, "a clone holds the same value");
    let a = Urc::new(w_q(k, 2));
    same_one(&a.0, &AsRef::<Q>::as_ref(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &std::borrow::Borrow::<Q>::borrow(&a).0, "the borrowed form is the value held");
    same_one(&a.0, &a.clone().0, "a clone holds the same value");
}
unsafe fn same_list<X>(x: &[X], p: *const X, n: usize) {
    g::e_eq("C22", x.len(), n, "the borrowed form is the whole list");
    g::prove("C22", n == 0 || std::ptr::eq(x.as_ptr() as *const u8, p as *const u8), "the borrowed form is the list held");
}
unsafe fn s_wrap_vec_ref() {
    init();
    g::no_fail();
    let mut a = some_vec::<Q>();
    let (p, n) = (a.as_slice().as_ptr(), a.len());
    same_list(AsRef::<[Q]>::as_ref(&a), p, n);
    same_list(std::borrow::Borrow::<[Q]>::borrow(&a), p, n);
    same_list(&*a, p, n);
    same_list(&a[..], p, n);
    same_list(AsMut::<[Q]>::as_mut(&mut a), p, n);
    same_list(std::borrow::BorrowMut::<[Q]>::borrow_mut(&mut a), p, n);
    same_list(&mut *a, p, n);
    same_list(&mut a[..], p, n);
    same_list(a.as_mut_slice(), p, n);
}
unsafe fn n_wrap_sv_ref<const N: usize>() {
    init();
    g::no_fail();
    let mut a = some_sv::<Q, N>();
    let (p, n) = (a.as_slice().as_ptr(), a.len());
    same_list(AsRef::<[Q]>::as_ref(&a), p, n);
    same_list(std::borrow::Borrow::<[Q]>::borrow(&a), p, n);
    same_list(&*a, p, n);
    same_list(AsMut::<[Q]>::as_mut(&mut a), p, n);
    same_list(std::borrow::BorrowMut::<[Q]>::borrow_mut(&mut a), p, n);
    same_list(&mut *a, p, n);
    same_list(a.as_mut_slice(), p, n);
}
/// The numbers from .0 below .1.
pub struct Nums(usize, usize);
impl Iterator for Nums {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.nth(0)
    }
    fn nth(&mut self, n: usize) -> Option<usize> {
        if n < self.1 - self.0 {
            self.0 += n + 1;
            Some(self.0 - 1)
        } else {
            self.0 = self.1;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1 - self.0, Some(self.1 - self.0))
    }
}
impl DoubleEndedIterator for Nums {
    fn next_back(&mut self) -> Option<usize> {
        self.nth_back(0)
    }
    fn nth_back(&mut self, n: usize) -> Option<usize> {
        if n < self.1 - self.0 {
            self.1 -= n + 1;
            Some(self.1)
        } else {
            self.1 = self.0;
            None
        }
    }
}
impl ExactSizeIterator for Nums {}
unsafe fn s_wrap_box_iter() {
    init();
    g::no_fail();
    let (a, n, i) = (lim(), lim(), lim());
    g::assume(n <= 3);
    g::assume(i <= 3);
    let mut b = LBox::new(Nums(a, a + n));
    g::prove("C22", b.size_hint() == (n, Some(n)), "the box of an iterator has its length");
    g::e_eq("C22", b.len(), n, "the box of an iterator has its length");
    if g::any_bool() {
        g::prove("C22", b.nth(i) == if i < n { Some(a + i) } else { None }, "nth of the box is nth of the iterator");
    } else if g::any_bool() {
        g::prove("C22", b.nth_back(i) == if i < n { Some(a + n - 1 - i) } else { None }, "nth_back of the box is nth_back of the iterator");
    } else if g::any_bool() {
        g::prove("C22", b.next() == if n > 0 { Some(a) } else { None }, "next of the box is next of the iterator");
    } else {
        g::prove("C22", b.next_back() == if n > 0 { Some(a + n - 1) } else { None }, "next_back of the box is next_back of the iterator");
    }
}
