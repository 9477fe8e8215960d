//! One example of each effect the purity rule must recognise (never called).
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};

pub static COUNT: AtomicUsize = AtomicUsize::new(0);
static mut RAW: usize = 0;
thread_local! { static TL: Cell<u32> = Cell::new(0); }

pub fn env() -> bool {
    std::env::var("X").is_ok()
}
pub fn print() {
    println!("x");
}
pub fn time() -> std::time::Instant {
    std::time::Instant::now()
}
pub fn file() -> bool {
    std::fs::read("x").is_ok()
}
pub fn atomic() -> usize {
    COUNT.fetch_add(1, Ordering::Relaxed)
}
pub fn local() -> u32 {
    TL.with(|c| c.get())
}
pub fn static_mut() -> usize {
    unsafe { RAW }
}
pub fn hash_order(m: &HashMap<u8, u8>) -> Vec<u8> {
    m.keys().cloned().collect()
}
pub fn hash_order2(m: HashSet<u8>) -> Vec<u8> {
    let mut v = vec![];
    for x in m {
        v.push(x);
    }
    v
}
pub fn hash_order3(m: HashSet<u8>) -> Vec<u8> {
    let mut v = vec![];
    v.extend(m);
    v
}
pub fn hash_order4(m: HashSet<u8>) -> Vec<u8> {
    Vec::from_iter(m)
}
pub fn hash_order5(m: &HashSet<u8>, n: &HashSet<u8>) -> Option<u8> {
    m.union(n).next().cloned()
}
pub fn hash_text(m: &HashSet<u8>) -> String {
    format!("{:?}", m)
}
pub fn address(x: &u8) -> usize {
    x as *const u8 as usize
}
pub fn raw(x: &u8) -> u8 {
    unsafe { *(x as *const u8) }
}
pub fn unsafe_call(x: &[u8]) -> u8 {
    unsafe { *x.get_unchecked(0) }
}
pub fn catch() -> bool {
    std::panic::catch_unwind(|| ()).is_ok()
}
pub fn in_closure() -> Option<bool> {
    Some(1).map(|_| std::env::args().count() > 1)
}
pub fn random() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    std::hash::RandomState::new().build_hasher().finish()
}
pub fn pointer_text(x: &u8) -> String {
    format!("{:p}", x)
}
pub fn mutex() -> u8 {
    static M: std::sync::Mutex<u8> = std::sync::Mutex::new(0);
    *M.lock().unwrap()
}
pub fn once() -> u8 {
    static M: std::sync::OnceLock<u8> = std::sync::OnceLock::new();
    *M.get_or_init(|| 1)
}
pub fn thread() -> bool {
    std::thread::spawn(|| ()).join().is_ok()
}
pub fn fn_value() -> Option<std::time::Instant> {
    let f: fn() -> std::time::Instant = std::time::Instant::now;
    Some(f())
}
pub fn pointer_order(x: &u8, y: &u8) -> bool {
    (x as *const u8) < (y as *const u8)
}
pub fn pointer_hash(x: &u8, h: &mut std::collections::hash_map::DefaultHasher) {
    std::ptr::hash(x, h)
}
pub fn caller() -> u32 {
    std::panic::Location::caller().line()
}
