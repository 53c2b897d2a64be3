include!("common.rs");
fn main() {
    init();
    let mut v = lokky::vec::Vec::<El>::new();
    v.push(el(1));
    if !panics(|| drop(v.drain(0..=usize::MAX))) {
        bad("a range outside is accepted".into());
    }
    drop(v);
    end(true)
}
