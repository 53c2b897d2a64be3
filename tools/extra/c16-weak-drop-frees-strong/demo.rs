include!("common.rs");
use lokky::urc::Urc;
fn main() {
    init();
    let a = Urc::new(el(1));
    let w = Urc::downgrade(&a);
    drop(w);
    let n = unsafe { BLOCKS.as_ref().unwrap().len() };
    same(n, 2);
    std::mem::forget(a);
    end(false)
}
