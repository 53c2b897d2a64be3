// Markers and selectors: identity by the name of the type.
pub struct M2;
unsafe fn hash_of<X: Hash>(id: usize, x: &X) {
    let mut h = H(id);
    x.hash(&mut h);
}
unsafe fn s_mark_same() {
    let a = AllocMarker::new::<M>();
    let b = AllocMarker::new::<M>();
    g::prove("C26", a == b, "markers of the same type are equal");
    g::prove("C26", b == a, "markers of the same type are equal");
    g::prove("C26", !(a != b), "markers of the same type are equal");
    g::prove("C26", a == a, "a marker is equal to itself");
    let c = a;
    g::prove("C26", c == b, "a copy of a marker is equal to it");
    let d = a.clone();
    g::prove("C26", d == b, "a copy of a marker is equal to it");
}
unsafe fn s_mark_other() {
    let a = AllocMarker::new::<M>();
    let b = AllocMarker::new::<M2>();
    g::prove("C26", a != b, "markers of different types differ");
    g::prove("C26", b != a, "markers of different types differ");
    g::prove("C26", !(a == b), "markers of different types differ");
}
unsafe fn s_mark_none() {
    let a = AllocMarker::None;
    let b = AllocMarker::new::<M>();
    g::prove("C26", a != b, "a marker differs from no marker");
    g::prove("C26", b != a, "a marker differs from no marker");
    g::prove("C26", a == AllocMarker::None, "no marker is equal to no marker");
    g::prove("C26", a == AllocMarker::default(), "no marker is the default");
}
unsafe fn s_mark_hash() {
    hash_of(1, &AllocMarker::new::<M>());
    hash_of(2, &AllocMarker::new::<M>());
    g::e_log("C26", 1, 2, "equal markers hash equally");
    g::e_log("C22", 1, 2, "equal markers hash equally");
    hash_of(3, &AllocMarker::None);
    hash_of(4, &AllocMarker::None);
    g::e_log("C22", 3, 4, "equal markers hash equally");
}
unsafe fn s_mark_sel() {
    let a = AllocSelector::with_marker::<T>(AllocMarker::new::<M>());
    let b = AllocSelector::with_marker::<T>(AllocMarker::new::<M>());
    g::prove("C26", a == b, "selectors of the same types are equal");
    g::prove("C26", !(a != b), "selectors of the same types are equal");
    g::prove("C26", a.marker() == AllocMarker::new::<M>(), "the marker of a selector is the one it was made with");
    g::e_marker(&a.marker(), &AllocMarker::new::<M>());
    g::prove("C26", a.ty() == std::any::type_name::<T>(), "the type of a selector is the one it was made for");
    hash_of(1, &a);
    hash_of(2, &b);
    g::e_log("C26", 1, 2, "equal selectors hash equally");
    g::e_log("C22", 1, 2, "equal selectors hash equally");
}
unsafe fn s_mark_sel_type() {
    let a = AllocSelector::with_marker::<T>(AllocMarker::new::<M>());
    let b = AllocSelector::with_marker::<Z>(AllocMarker::new::<M>());
    g::prove("C26", a != b, "selectors for different types differ");
    g::prove("C26", !(a == b), "selectors for different types differ");
}
unsafe fn s_mark_sel_marker() {
    let a = AllocSelector::with_marker::<T>(AllocMarker::new::<M>());
    let b = AllocSelector::with_marker::<T>(AllocMarker::new::<M2>());
    let c = AllocSelector::new::<T>();
    g::prove("C26", a != b, "selectors with different markers differ");
    g::prove("C26", a != c, "selectors with different markers differ");
    g::prove("C26", !(c == b), "selectors with different markers differ");
    g::prove("C26", c.marker() == AllocMarker::None, "a plain selector has no marker");
    g::prove("C26", c == AllocSelector::new::<T>(), "selectors of the same types are equal");
    g::prove("C26", c.ty() == std::any::type_name::<T>(), "the type of a selector is the one it was made for");
    hash_of(1, &c);
    hash_of(2, &AllocSelector::new::<T>());
    g::e_log("C22", 1, 2, "equal selectors hash equally");
}
unsafe fn s_mark_sel_unsized() {
    let a = AllocSelector::new::<str>();
    let b = AllocSelector::new::<[T]>();
    g::prove("C26", a != b, "selectors for different types differ");
    g::prove("C26", b.ty() == std::any::type_name::<[T]>(), "the type of a selector is the one it was made for");
}
// Types with names that are easily confused.
pub mod nm {
    pub mod a {
        pub struct Mk;
        pub struct MK;
        pub struct Mkk;
        pub struct Gk<X>(X);
    }
    pub mod b {
        pub struct Mk;
    }
    pub mod aa {
        pub struct Mk;
    }
    pub mod an_outer_module_with_a_name_that_is_longer_than_usual_one {
        pub mod an_inner_module_with_a_name_that_is_longer_than_usual {
            pub struct Mk;
            pub struct Nk;
        }
    }
    pub mod an_outer_module_with_a_name_that_is_longer_than_usual_two {
        pub mod an_inner_module_with_a_name_that_is_longer_than_usual {
            pub struct Mk;
        }
    }
}
unsafe fn differ<X, Y>() {
    let (a, b) = (AllocMarker::new::<X>(), AllocMarker::new::<Y>());
    g::prove("C26", a != b, "markers of types with different names differ");
    g::prove("C26", !(b == a), "markers of types with different names differ");
    let (a, b) = (AllocSelector::new::<X>(), AllocSelector::new::<Y>());
    g::prove("C26", a != b, "selectors for types with different names differ");
    g::prove("C26", !(b == a), "selectors for types with different names differ");
    let (a, b) = (AllocSelector::with_marker::<X>(AllocMarker::new::<Y>()), AllocSelector::with_marker::<X>(AllocMarker::new::<X>()));
    g::prove("C26", a != b, "selectors with markers of different names differ");
}
unsafe fn agree<X>() {
    let (a, b) = (AllocMarker::new::<X>(), AllocMarker::new::<X>());
    g::prove("C26", a == b, "markers of the same type are equal");
    let (p, q) = (AllocSelector::with_marker::<X>(a), AllocSelector::with_marker::<X>(b));
    g::prove("C26", p == q, "selectors of the same types are equal");
    hash_of(1, &a);
    hash_of(2, &b);
    g::e_log("C26", 1, 2, "equal markers hash equally");
    hash_of(3, &p);
    hash_of(4, &q);
    g::e_log("C26", 3, 4, "equal selectors hash equally");
}
unsafe fn s_mark_names() {
    differ::<nm::a::Mk, nm::b::Mk>();
    differ::<nm::a::Mk, nm::aa::Mk>();
    differ::<nm::a::Mk, nm::a::MK>();
    differ::<nm::a::Mk, nm::a::Mkk>();
    differ::<nm::a::Gk<u8>, nm::a::Gk<u16>>();
    differ::<nm::a::Gk<nm::a::Mk>, nm::a::Mk>();
    differ::<nm::a::Gk<nm::a::Mk>, nm::a::Gk<nm::b::Mk>>();
}
unsafe fn s_mark_long_names() {
    differ::<nm::an_outer_module_with_a_name_that_is_longer_than_usual_one::an_inner_module_with_a_name_that_is_longer_than_usual::Mk, nm::an_outer_module_with_a_name_that_is_longer_than_usual_two::an_inner_module_with_a_name_that_is_longer_than_usual::Mk>();
    differ::<nm::an_outer_module_with_a_name_that_is_longer_than_usual_one::an_inner_module_with_a_name_that_is_longer_than_usual::Mk, nm::an_outer_module_with_a_name_that_is_longer_than_usual_one::an_inner_module_with_a_name_that_is_longer_than_usual::Nk>();
}
unsafe fn s_mark_names_same() {
    agree::<nm::a::Mk>();
    agree::<nm::a::Gk<nm::aa::Mk>>();
    agree::<nm::an_outer_module_with_a_name_that_is_longer_than_usual_one::an_inner_module_with_a_name_that_is_longer_than_usual::Mk>();
}
