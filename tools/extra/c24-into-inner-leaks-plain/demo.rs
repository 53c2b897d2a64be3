include!("common.rs");
fn main() {
    init();
    same(lokky::boxed::Box::new(5u64).into_inner(), 5);
    end(true)
}
