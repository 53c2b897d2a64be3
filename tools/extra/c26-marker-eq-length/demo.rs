include!("common.rs");
mod aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa { pub mod mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm { pub struct M; } }
mod bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb { pub mod mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm { pub struct M; } }
fn main() {
    init();
    if AllocMarker::new::<aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa::mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm::M>() == AllocMarker::new::<bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb::mmmmmmmmmmmmmmmmmmmmmmmmmmmmmmm::M>() {
        bad("markers of different types are equal".into());
    }
    end(false)
}
