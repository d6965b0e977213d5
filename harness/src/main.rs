//! native replay: `replay <harness> <hex bytes>` runs one harness function, compiled natively with the real crate, on
//! one concrete input. Exit 0: every check held; 1: a check failed; 3: the input does not meet an assumption;
//! abort: the code panicked.
extern crate vph;
include!(concat!(env!("OUT_DIR"), "/table.rs"));

static FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[no_mangle]
pub extern "C" fn vp_check(c: bool, id: u32) {
    if !c {
        println!("FAILED {}", id);
        FAILED.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("ASSUMPTION not met");
        std::process::exit(if FAILED.load(std::sync::atomic::Ordering::SeqCst) { 1 } else { 3 });
    }
}
#[no_mangle]
pub extern "C" fn vp_cover(id: u32) {
    println!("COVER {}", id);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).map(|s| s.as_str()).unwrap_or("");
    let data: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let Some(h) = find(&a[1]) else {
        println!("no such harness");
        std::process::exit(4)
    };
    unsafe { h(&data) };
    std::process::exit(if FAILED.load(std::sync::atomic::Ordering::SeqCst) { 1 } else { 0 });
}
