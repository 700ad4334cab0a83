use std::sync::atomic::{AtomicUsize, AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::cell::{Cell, RefCell};
static CALLS: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicBool = AtomicBool::new(false);
static LAST: Mutex<u64> = Mutex::new(7);
static K: [i64; 3] = [4, 5, 6];
static mut RAW: i64 = 3;
thread_local! { static TL: Cell<i64> = Cell::new(5); static TR: RefCell<Vec<u8>> = RefCell::new(Vec::new()); }
pub fn a01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = CALLS.fetch_add(1, Ordering::Relaxed); if c > 1000000 { 0 } else { i } }
pub fn a02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { K[n % 3] }
pub fn a03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a = SEEN.swap(true, Ordering::SeqCst); SEEN.store(false, Ordering::SeqCst); let b = SEEN.load(Ordering::SeqCst); b as i64 }
pub fn a04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut g = LAST.lock().unwrap(); *g = n as u64; *g as i64 }
pub fn a05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { unsafe { RAW = i; RAW } }
pub fn a06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { TL.with(|c| { c.set(i); c.get() }) }
pub fn a07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { TR.with(|c| { let mut b = c.borrow_mut(); b.clear(); b.push(3); b.push(n as u8); b.len() as i64 }) }
pub fn a08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { CALLS.store(0, Ordering::Relaxed); for _ in &s { CALLS.fetch_add(2, Ordering::Relaxed); } CALLS.load(Ordering::Relaxed) as i64 }
