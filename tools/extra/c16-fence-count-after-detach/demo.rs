include!("common.rs");
use lokky::urc::Urc;
fn main() {
    init();
    let u = Urc::new(el(1));
    let w = Urc::downgrade(&u);
    drop(u);
    drop(w);
    end(true)
}
