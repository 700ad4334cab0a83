use std::sync::{OnceLock, LazyLock, RwLock, Mutex};
use std::sync::atomic::*;
use std::cell::{Cell, RefCell, OnceCell};
static ONCE: OnceLock<usize> = OnceLock::new();
static LZ: LazyLock<Vec<i64>> = LazyLock::new(|| vec![3, 4, 5]);
static RW: RwLock<Vec<u8>> = RwLock::new(Vec::new());
static MP: Mutex<Option<u64>> = Mutex::new(None);
static LIM: AtomicI64 = AtomicI64::new(-3);
thread_local! { static TL: Cell<i64> = const { Cell::new(5) }; static TO: OnceCell<i64> = OnceCell::new(); }
pub fn a01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = Cell::new(1i64); for x in &s { c.set(c.get() + *x as i64); } c.get() }
pub fn a02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { LZ[n % 3] + LZ.len() as i64 }
pub fn a03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut g = RW.write().unwrap(); g.clear(); g.extend_from_slice(&s); g.push(1); drop(g); RW.read().unwrap().len() as i64 }
pub fn a04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut g = MP.lock().unwrap(); *g = Some(n as u64); if let Some(x) = *g { x as i64 } else { -1 } }
pub fn a05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { LIM.store(i, Ordering::SeqCst); LIM.fetch_max(3, Ordering::SeqCst); LIM.load(Ordering::SeqCst) }
pub fn a06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { TL.set(i); TL.with(|c| c.replace(2)) }
pub fn a07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r = RefCell::new(Vec::new()); s.iter().for_each(|x| r.borrow_mut().push(*x as i64 + 1)); let v = r.into_inner(); v.iter().sum() }
pub fn a08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let o: OnceCell<i64> = OnceCell::new(); let a = *o.get_or_init(|| i); let b = *o.get_or_init(|| 7); (a == b) as i64 + o.get().is_some() as i64 }
pub fn a09(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = RefCell::new((0i64, 0usize)); { let mut b = c.borrow_mut(); b.0 = i; b.1 = n; } let b = c.borrow(); let z = b.0 ^ b.1 as i64; z }
pub fn a10(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let total = Cell::new(0usize); let add = |x: usize| total.set(total.get() + x); add(n); add(s.len()); total.get() as i64 }
pub fn a11(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let b = AtomicBool::new(false); for x in &s { b.fetch_or(*x > 100, Ordering::Relaxed); } b.into_inner() as i64 }
struct Acc { n: Cell<usize>, seen: RefCell<Vec<u8>> }
impl Acc { fn see(&self, x: u8) { self.n.set(self.n.get() + 1); if self.n.get() % 2 == 1 { self.seen.borrow_mut().push(x); } } }
pub fn a12(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a = Acc { n: Cell::new(0), seen: RefCell::new(vec![]) }; a.see(n as u8); a.see(3); a.see(9); let z = a.seen.borrow().iter().map(|x| *x as i64).sum::<i64>() + a.n.get() as i64; z }
pub fn a13(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let m = Mutex::new(i); { *m.lock().unwrap() += 2; } let z = m.into_inner().unwrap(); z }
