include!("common.rs");
struct M;
fn main() {
    init();
    let (a, b) = (AllocSelector::new::<u8>(), AllocSelector::with_marker::<u8>(AllocMarker::new::<M>()));
    same(a == b, b == a);
    end(true)
}
