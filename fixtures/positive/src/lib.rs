//! One positive example for every rule whose expected number of matches in the product is
//! zero.  The checks analyse this crate with the same driver and the same rules on every run
//! and fail if a rule stops matching here.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};

static COUNTER: AtomicUsize = AtomicUsize::new(0);
pub static mut GLOBAL: u32 = 0;
thread_local! { static LOCAL: Cell<u32> = Cell::new(0); }
const SECRET: &str = "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff";

extern "C" {
    pub fn abs(x: i32) -> i32;
}

pub fn unsafe_block(x: &[u8]) -> u8 {
    unsafe { *x.get_unchecked(0) }
}

macro_rules! hidden {
    ($x:expr) => {
        unsafe { *$x.get_unchecked(0) }
    };
}

pub fn unsafe_in_local_macro(x: &[u8]) -> u8 {
    hidden!(x)
}

pub unsafe fn unsafe_fn() {}

pub struct Raw(*const u8);
unsafe impl Send for Raw {}

pub fn clock() -> u64 {
    std::time::Instant::now().elapsed().as_secs()
}

pub fn counter() -> usize {
    COUNTER.fetch_add(1, Ordering::SeqCst) + LOCAL.with(|c| c.get() as usize)
}

pub fn hash_order(m: &HashMap<u32, u32>) -> Vec<u32> {
    m.values().copied().collect()
}

pub fn environment() -> Option<String> {
    std::env::var("SIA").ok()
}

pub fn address(x: &u8) -> usize {
    x as *const u8 as usize
}

pub fn files() -> Vec<u8> {
    std::fs::read("x").unwrap()
}

pub fn network() -> bool {
    std::net::TcpStream::connect("127.0.0.1:1").is_ok()
}

pub fn spawn() {
    std::process::Command::new("true").status().unwrap();
    std::thread::spawn(|| {}).join().unwrap();
    std::process::exit(3)
}

pub fn decode(s: &str) -> Vec<u8> {
    s.bytes().collect()
}

pub fn sign(data: &[u8], private_key: &str) -> Vec<u8> {
    let k = decode(private_key);
    println!("key {:?}", k);
    data.to_vec()
}

pub fn leak_by_return() -> String {
    let s = sign(&[1], SECRET);
    format!("{}{}", SECRET, s.len())
}

pub fn endless(mut n: usize, limit: usize) -> usize {
    while n < limit {
        if n == 7 {
            continue;
        }
        n += 1;
    }
    n
}

pub fn endless_iterator() -> usize {
    (0..).count()
}
