//! One function per effect the purity rule must see (`has_*`), and functions it must accept (`fine_*`).
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

static COUNT: AtomicUsize = AtomicUsize::new(0);
static TABLE: [u8; 3] = [1, 2, 3];
static mut LAST: usize = 0;
thread_local! { static SEEN: Cell<usize> = Cell::new(0); }

pub fn has_counter() -> usize {
    COUNT.fetch_add(1, Ordering::SeqCst)
}
pub fn has_global(x: usize) {
    unsafe { LAST = x }
}
pub fn has_thread_state() -> usize {
    SEEN.with(|x| x.replace(1))
}
pub fn has_clock() -> bool {
    std::time::Instant::now().elapsed().as_nanos() > 3
}
pub fn has_environment() -> bool {
    std::env::var("KSERD").is_ok()
}
pub fn has_file() -> bool {
    std::fs::read("x").is_ok()
}
pub fn has_output(x: usize) {
    println!("{}", x)
}
pub fn has_thread() {
    std::thread::yield_now()
}
pub fn has_map_order(m: HashMap<u8, u8>) -> Vec<u8> {
    m.into_iter().map(|x| x.0).collect()
}
pub fn has_set_order(m: &HashSet<u8>) -> Option<u8> {
    m.iter().next().copied()
}
pub fn has_map_debug(m: &HashMap<u8, u8>) -> String {
    format!("{:?}", m)
}
pub fn has_map_extend(m: HashMap<u8, u8>, v: &mut Vec<(u8, u8)>) {
    v.extend(m)
}
pub fn has_random_state() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    std::collections::hash_map::RandomState::new().build_hasher().finish()
}
pub fn has_address(s: &str) -> usize {
    s.as_ptr() as usize % 16
}
pub fn has_address_text(s: &str) -> String {
    format!("{:p}", s)
}
pub fn has_inner_closure(v: &[u8]) -> usize {
    v.iter().map(|_| std::env::args().count()).sum()
}

pub fn fine_lookup(m: &mut HashMap<u8, u8>, k: u8) -> Option<u8> {
    m.entry(k).or_insert(1);
    m.insert(k, 3);
    m.get(&k).copied()
}
pub fn fine_ordered(m: BTreeMap<u8, u8>) -> Vec<u8> {
    m.into_iter().map(|x| x.0).collect()
}
pub fn fine_table(i: usize) -> u8 {
    TABLE[i % 3]
}
pub fn fine_writer<W: Write>(w: &mut W, x: usize) -> std::io::Result<()> {
    write!(w, "{}", x)?;
    w.write_all(b"x")
}
pub fn fine_offset(a: &str, b: &str) -> usize {
    (a.as_ptr() as usize) - (b.as_ptr() as usize)
}
pub fn fine_text(x: usize) -> String {
    format!("{}", x)
}
pub fn fine_buffer(x: usize) -> Vec<u8> {
    let mut v = Vec::new();
    writeln!(&mut v, "{}", x).unwrap();
    v
}
pub fn fine_vec(x: u8) -> Vec<u8> {
    vec![x, x]
}
pub fn has_stdout(x: usize) {
    let _ = writeln!(std::io::stdout(), "{}", x);
}
