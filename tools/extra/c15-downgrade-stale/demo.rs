include!("common.rs");
use lokky::arc::Arc;
use std::sync::atomic::{AtomicBool, Ordering::*};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    init();
    let a = Arc::new(1u64);
    let b = a.clone();
    std::thread::spawn(move || {
        for _ in 0..2_000_000 {
            std::mem::forget(Arc::downgrade(&b));
        }
        STOP.store(true, SeqCst);
    });
    let c = a.clone();
    std::thread::spawn(move || {
        for _ in 0..2_000_000 {
            std::mem::forget(Arc::downgrade(&c));
        }
    });
    let t = std::time::Instant::now();
    while !STOP.load(SeqCst) {
        if t.elapsed().as_secs() > 20 {
            println!("a thread hangs");
            std::process::exit(1);
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    std::process::exit(0);
}
