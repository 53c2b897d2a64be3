include!("common.rs");
struct Z;
impl Scope for Z { fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc { unsafe { &*std::ptr::addr_of!(MARKED) } } }
fn main() {
    init();
    let mut log = Vec::new();
    scope::spawn(|_| Z, |_| {
        scope::spawn(|_| Sc(A(3)), |_| ());
        log.push(scope::current(&()) as *const dyn Scope as *const () as usize);
        let s = scope::current(&());
        let a = s.alloc_for(AllocSelector::new::<u8>()) as *const dyn GlobalAlloc as *const ();
        if a != unsafe { std::ptr::addr_of!(MARKED) } as *const () {
            bad("the previous scope is not current again".into());
        }
    });
    end(false)
}
