include!("common.rs");
use lokky::arc::Arc;
fn main() {
    init();
    let mut a = Arc::new(el(1));
    let w = Arc::downgrade(&a);
    let p = Arc::as_ptr(&a);
    Arc::make_mut(&mut a).0 = 2;
    same(Arc::weak_count(&a), 0);
    drop(w);
    drop(a);
    let _ = p;
    end(true)
}
