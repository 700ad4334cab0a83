pub struct P { a: i64, b: i64 }
impl std::ops::Add for P { type Output = P; fn add(self, o: P) -> P { P { a: self.a + o.a, b: self.b - o.b } } }
impl std::ops::AddAssign<i64> for P { fn add_assign(&mut self, o: i64) { self.a += o; self.b ^= o; } }
impl std::ops::Index<usize> for P { type Output = i64; fn index(&self, k: usize) -> &i64 { if k == 0 { &self.a } else { &self.b } } }
impl std::ops::IndexMut<usize> for P { fn index_mut(&mut self, k: usize) -> &mut i64 { match k { 0 => &mut self.a, _ => &mut self.b } } }
impl Default for P { fn default() -> P { P { a: 3, b: 5 } } }
impl From<(i64, i64)> for P { fn from(t: (i64, i64)) -> P { P { a: t.0, b: t.1 } } }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.a == o.a } }
struct Cnt { k: i64, n: i64 }
impl Iterator for Cnt { type Item = i64; fn next(&mut self) -> Option<i64> { if self.k < self.n { self.k += 1; Some(self.k * self.k) } else { None } } }
trait Sh { fn area(&self) -> i64; fn twice(&self) -> i64 { 2 * self.area() } }
struct Sq(i64); struct Re(i64, i64);
impl Sh for Sq { fn area(&self) -> i64 { self.0 * self.0 } }
impl Sh for Re { fn area(&self) -> i64 { self.0 * self.1 } fn twice(&self) -> i64 { self.area() + 1 } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Q { A, B(i64), C { x: i64, y: i64 } }
fn q(i: i64) -> Q { match i.rem_euclid(3) { 0 => Q::A, 1 => Q::B(i), _ => Q::C { x: i, y: i + 1 } } }
fn ev(q: &Q) -> i64 { match *q { Q::A => -7, Q::B(x) if x > 50 => x * 2, Q::B(x) => x, Q::C { x, y } => x - 3 * y } }
fn gen<const N: usize>(s: &[u8]) -> [i64; N] { let mut r = [0i64; N]; for (k, x) in s.iter().take(N).enumerate() { r[k] = *x as i64; } r }
fn rec(s: &[u8]) -> i64 { match s { [] => 0, [x, rest @ ..] => *x as i64 + 2 * rec(rest) } }
fn apply<F: FnMut(i64)>(n: i64, mut f: F) { for k in 0..n { f(k) } }
fn mk(k: i64) -> impl Fn(i64) -> i64 { move |x| x * k + 1 }
fn bx(k: i64) -> Box<dyn Fn(i64) -> i64> { if k > 0 { Box::new(move |x| x + k) } else { Box::new(|x| x * 2) } }

pub fn f01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let p = P { a: i, b: n as i64 } + P::default(); p.a * 100 + p.b }
pub fn f02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut p: P = (i, 9).into(); for x in &s { p += *x as i64; } p[0] * 1000 + p[1] }
pub fn f03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut p = P::default(); for (k, x) in s.iter().enumerate() { p[k % 2] += *x as i64; } p.a - 3 * p.b }
pub fn f04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { Cnt { k: 0, n: s.len() as i64 }.map(|x| x + 1).sum() }
pub fn f05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = 0; for (x, y) in (Cnt { k: 0, n: 4 }).zip(s.iter()) { t += x * *y as i64; } t }
pub fn f06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<Box<dyn Sh>> = vec![Box::new(Sq(i % 100)), Box::new(Re(n as i64, 3))]; v.iter().map(|x| x.twice()).sum() }
pub fn f07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a = q(i); ev(&a) + if a == Q::A { 1000 } else { 0 } }
pub fn f08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|x| ev(&q(*x as i64))).sum() }
pub fn f09(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { gen::<3>(&s).iter().sum::<i64>() * 10 + gen::<1>(&s)[0] }
pub fn f10(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = 0; 'o: for x in &s { for k in 0..5u8 { if *x == k { continue 'o; } if *x > 100 { break 'o; } } t += *x as i64; } t }
pub fn f11(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut acc = Vec::new(); apply(s.len() as i64, |k| if k % 2 == 0 { acc.push(s[k as usize]) }); acc.iter().map(|x| *x as i64).sum::<i64>() * 10 + acc.len() as i64 }
pub fn f12(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let g = mk(i % 10); g(g(3)) }
pub fn f13(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let g = bx(i); g(7) + g(1) * 100 }
pub fn f14(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let Some(x) = s.get(n % 7) else { return -1; }; let y @ 0..=99 = *x else { return -2 }; y as i64 }
pub fn f15(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v: Vec<i64> = s.iter().map(|x| *x as i64).collect(); let t = std::mem::take(&mut v); v.push(1); t.len() as i64 * 10 + v.len() as i64 }
pub fn f16(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a = [[0i64; 3]; 2]; for (k, x) in s.iter().take(6).enumerate() { a[k / 3][k % 3] = *x as i64; } a[1][0] * 1000 + a[0][2] - a[1][2] }
pub fn f17(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v = vec![vec![0i64; 3]; 2]; for r in 0..2 { for c in 0..3 { v[r][c] = (r * 3 + c) as i64 * i; } } v.iter().flatten().sum::<i64>() + v[1][1] }
pub fn f18(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let (a, b): (Vec<i64>, Vec<i64>) = s.iter().map(|x| (*x as i64, *x as i64 % 3)).unzip(); a.iter().zip(&b).map(|(x, y)| x * y).sum() }
pub fn f19(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut o = Some(i); if let Some(x) = o.as_mut() { *x += 5; } let t = o.take(); o.map_or(1, |x| x) + t.unwrap() * 10 }
pub fn f20(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let o = s.first().copied().filter(|x| *x > 10).or_else(|| s.last().copied()).and_then(|x| x.checked_add(100)); o.map(i64::from).unwrap_or(-5) }
pub fn f21(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r: Result<Vec<i64>, i64> = s.iter().map(|x| if *x < 200 { Ok(*x as i64) } else { Err(-1 - *x as i64) }).collect(); match r { Ok(v) => v.len() as i64, Err(e) => e } }
pub fn f22(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r: Option<i64> = s.iter().map(|x| if *x < 200 { Some(*x as i64) } else { None }).sum(); r.unwrap_or(-9) }
pub fn f23(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = 0; let r = loop { if k >= s.len() { break -1; } if s[k] > 50 { break s[k] as i64; } k += 1; }; r * 100 + k as i64 }
pub fn f24(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut x = n as u32; let mut c = 0; while x != 0 { c += (x & 1) as i64; x >>= 1; } c }
pub fn f25(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut h: u32 = 17; for x in &s { h = h.wrapping_mul(31).wrapping_add(*x as u32); } h as i64 }
pub fn f26(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if s.is_empty() { 0 } else { rec(&s) } }
pub fn f27(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = &s[..]; match t { [] => 0, [x] => *x as i64, [a, .., b] => *a as i64 * 1000 + *b as i64 } }
pub fn f28(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let x = i as i8 as u8 as i64; let y = f as u8 as i64; let z = -1.5f64 as u32 as i64; let w = (i as u128 >> 3) as u16 as i64; x + 1000 * y + z + w }
pub fn f29(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a: Vec<u8> = s.clone(); a.sort_unstable(); a.dedup(); a.len() as i64 * 1000 + a.iter().rev().step_by(2).map(|x| *x as i64).sum::<i64>() }
pub fn f30(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a = s.clone(); let l = a.len(); if l >= 2 { let (x, y) = a.split_at_mut(l / 2); x[0] = y[0]; std::mem::swap(&mut x[x.len() - 1], &mut y[y.len() - 1]); } a.iter().enumerate().map(|(k, x)| k as i64 * *x as i64).sum() }
pub fn f31(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = 0i64; for w in s.windows(2) { if let [a, b] = w { t += (*a as i64 - *b as i64).abs(); } } t }
pub fn f32_(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<i64> = std::iter::successors(Some(1i64), |x| Some(x * 2)).take(s.len()).collect(); v.iter().sum() }
pub fn f33(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<usize> = (0..s.len()).filter(|k| s[*k] % 2 == 0).collect(); v.iter().map(|k| *k as i64 * s[*k] as i64).sum() }
pub fn f34(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let m = s.iter().enumerate().max_by_key(|(_, x)| **x).map(|(k, _)| k as i64).unwrap_or(-1); let l = s.iter().enumerate().min_by_key(|(_, x)| **x).map(|(k, _)| k as i64).unwrap_or(-1); m * 100 + l }
pub fn f35(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter().peekable(); let mut runs = 0; while let Some(x) = it.next() { if it.peek().map_or(true, |y| **y != *x) { runs += 1; } } runs }
pub fn f36(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = std::iter::repeat(7u8).take(3).chain(s.iter().copied()).chain(std::iter::once(9)).map(|x| x as i64); t.fold(0i64, |a, x| (a * 3 + x) % 10007) }
pub fn f37(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a: i64 = (1..=5).rev().map(|x| x * i).sum(); let b: i64 = (0..10).step_by(3).product::<i64>(); let c = (0..=n % 4).len_() as i64; a + b + c }
trait L { fn len_(self) -> usize; } impl<I: Iterator> L for I { fn len_(self) -> usize { self.count() } }
pub fn f38(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let x = { let mut y = i; let mut bump = |d: i64| { y += d; y }; bump(2) * 10 + bump(3) }; x }
pub fn f39(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let b = u32::from_le_bytes([1, 2, s.len() as u8, 4]); let c = u16::from_be_bytes([n as u8, 7]); (b ^ c as u32) as i64 }
pub fn f40(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r = |x: i64| -> Result<i64, String> { if x % 2 == 0 { Ok(x / 2) } else { Err("odd".to_string()) } }; let g = || -> Result<i64, String> { let a = r(i)?; let b = r(a)?; Ok(a * 1000 + b) }; g().unwrap_or_else(|e| e.len() as i64) }
pub fn f41(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v: Vec<i64> = Vec::with_capacity(s.len()); v.extend(s.iter().map(|x| *x as i64)); v.insert(0, i); v.truncate(4); v.iter().fold(0, |a, x| a * 7 + x) }
pub fn f42(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: String = s.iter().map(|x| if x % 2 == 0 { '0' } else { '1' }).collect(); t.len() as i64 * 100 + t.chars().filter(|c| *c == '1').count() as i64 }
pub fn f43(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = std::cell::Cell::new(i); let g = |d: i64| c.set(c.get() + d); g(3); g(4); c.get() }
pub fn f44(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut best = (i64::MIN, 0usize); for (k, x) in s.iter().enumerate() { let v = (*x as i64 * 37) % 101; if v > best.0 { best = (v, k); } } best.0.wrapping_mul(100).wrapping_add(best.1 as i64) }
pub fn f45(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut x = f; let mut k = 0; while x > 1.0 && k < 40 { x /= 2.0; k += 1; } k }
pub fn f46(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let z = f.max(-3.0).min(10.0); let y = if z.is_nan() { 0 } else { (z * 4.0).round() as i64 }; y + f64::EPSILON as i64 + (f == f) as i64 * 1000 }
