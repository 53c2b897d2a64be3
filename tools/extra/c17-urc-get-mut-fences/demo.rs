include!("common.rs");
use lokky::scope::{Envelop, ScopeRecv};
use lokky::urc::Urc;
struct R;
impl<'a> ScopeRecv<'a> for R {}
fn main() {
    init();
    let mut a = Urc::new(el(1));
    let e = R.recv(a.envelop(&R));
    let w = Urc::downgrade(&e);
    drop(e);
    if Urc::get_mut(&mut a).is_some() {
        bad("mutable access in spite of a weak reference".into());
    }
    drop(w);
    drop(a);
    end(true)
}
