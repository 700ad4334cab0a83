pub fn c01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let mut t = 0i64; for x in it.by_ref() { t += *x as i64; if t > 50 { break; } } t * 1000 + it.map(|x| *x as i64).sum::<i64>() }
pub fn c02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let mut t = 0i64; for x in &mut it { t += *x as i64; if t > 50 { break; } } t * 1000 + it.len() as i64 }
pub fn c03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = it.by_ref().take(2).map(|x| *x as i64).sum(); let b: i64 = it.map(|x| *x as i64).sum(); a * 1000 + b }
pub fn c04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = it.by_ref().skip(1).map(|x| *x as i64).sum(); a * 1000 + it.count() as i64 }
pub fn c05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.find(|x| **x > 50).map_or(-1, |x| *x as i64); a * 1000 + it.count() as i64 }
pub fn c06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.position(|x| *x > 50).map_or(-1, |x| x as i64); a * 1000 + it.count() as i64 }
pub fn c07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.any(|x| *x > 50); a as i64 * 1000 + it.count() as i64 }
pub fn c08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.all(|x| *x < 50); a as i64 * 1000 + it.count() as i64 }
pub fn c09(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = it.by_ref().zip(0..3).map(|(x, y)| *x as i64 * y).sum(); a * 1000 + it.count() as i64 }
pub fn c10(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = (0..3).zip(it.by_ref()).map(|(x, y)| *y as i64 * x).sum(); a * 1000 + it.count() as i64 }
pub fn c11(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = it.by_ref().take_while(|x| **x < 50).map(|x| *x as i64).sum(); a * 1000 + it.count() as i64 }
pub fn c12(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: i64 = it.by_ref().skip_while(|x| **x < 50).map(|x| *x as i64).sum(); a * 1000 + it.count() as i64 }
pub fn c13(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.nth(2).map_or(-1, |x| *x as i64); a * 1000 + it.count() as i64 }
pub fn c14(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.by_ref().take(3).any(|x| *x > 50); a as i64 * 1000 + it.count() as i64 }
pub fn c15(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.by_ref().map(|x| *x as i64).find(|x| *x > 50).unwrap_or(-1); a * 1000 + it.count() as i64 }
pub fn c16(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a: Vec<u8> = it.by_ref().step_by(2).copied().collect(); a.len() as i64 * 1000 + it.count() as i64 }
pub fn c17(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.by_ref().last().map_or(-1, |x| *x as i64); a * 1000 + it.count() as i64 }
pub fn c18(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.by_ref().rev().next().map_or(-1, |x| *x as i64); a * 1000 + it.count() as i64 }
pub fn c19(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.try_fold(0i64, |a, x| if *x > 100 { None } else { Some(a + *x as i64) }).unwrap_or(-1); a * 1000 + it.count() as i64 }
pub fn c20(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.find_map(|x| if *x > 50 { Some(*x as i64) } else { None }).unwrap_or(-1); a * 1000 + it.count() as i64 }
pub fn c21(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.rposition(|x| *x > 50).map_or(-1, |x| x as i64); a * 1000 + it.count() as i64 }
pub fn c22(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.rfind(|x| **x > 50).map_or(-1, |x| *x as i64); a * 1000 + it.count() as i64 }
pub fn c23(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let h = it.by_ref().count() as i64; h * 1000 + it.count() as i64 }
pub fn c24(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter().map(|x| *x as i64 + 1); let a: i64 = it.by_ref().take(2).sum(); a * 1000 + it.sum::<i64>() }
pub fn c25(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = 0..n; let a: usize = it.by_ref().take(2).sum(); a as i64 * 1000 + it.len() as i64 }
pub fn c26(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = 0..n; let a = it.find(|x| x * x > 50).unwrap_or(1); a as i64 * 100000 + it.len() as i64 }
pub fn c27(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let mut rows = vec![]; for _ in 0..3 { rows.push(it.by_ref().take(2).map(|x| *x as i64).sum::<i64>()); } rows.iter().fold(0, |a, x| a * 1000 + x) }
pub fn c28(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let mut rows = vec![]; for _ in 0..3 { let r: Vec<u8> = (0..2).filter_map(|_| it.next().copied()).collect(); rows.push(r); } rows.iter().fold(0, |a, x| a * 1000 + x.iter().map(|y| *y as i64).sum::<i64>()) }
pub fn c29(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let r: Vec<i64> = (0..4).map(|k| it.next().map_or(k, |x| *x as i64)).collect(); r.iter().fold(0, |a, x| a * 1000 + x) }
pub fn c30(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut c = s.chunks(2); let a = c.next().map_or(0, |x| x.len() as i64); let b: i64 = c.by_ref().map(|x| x[0] as i64).sum(); a * 10000 + b }
pub fn c31(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = |x: u8| -> i64 { if x > 50 { x as i64 } else { -1 } }; let g = &c; s.iter().map(|x| g(*x)).sum() }
pub fn c32(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = 0i64; let mut nx = || { k += 3; k }; let a = nx(); let b = nx(); a * 100 + b + s.iter().map(|x| *x as i64 * nx()).sum::<i64>() }
pub fn c33(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn tw<F: Fn(i64) -> i64>(g: F, x: i64) -> i64 { g(g(x)) } tw(|x| x * i + 1, n as i64 % 100) }
pub fn c34(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn tw(g: &dyn Fn(i64) -> i64, x: i64) -> i64 { g(g(x)) } tw(&|x| x * (i % 1000) + 1, n as i64 % 100) }
pub fn c35(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn ap<F: FnMut(u8)>(mut g: F, s: &[u8]) { for x in s { g(*x); } } let mut t = 0i64; ap(|x| t += x as i64, &s); t }
pub fn c36(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn h(x: i64) -> i64 { x + 1 } let g: fn(i64) -> i64 = if n > 5 { h } else { |x| x * 2 }; g(i) }
pub fn c37(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn mk(k: i64) -> impl Fn(i64) -> i64 { move |x| x + k } let g = mk(i); g(3) + g(4) }
pub fn c38(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn mk(k: i64) -> Box<dyn Fn(i64) -> i64> { Box::new(move |x| x + k) } let g = mk(i); g(3) + g(4) }
pub fn c39(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let fs: [fn(i64) -> i64; 2] = [|x| x + 1, |x| x * 2]; fs[n % 2](i) }
pub fn c40(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let (w, h) = (n % 7, n % 5); let at = |x: usize, y: usize| y * w + x; let mut t = 0; for y in 0..h { for x in 0..w { t += at(x, y) * (x + 1); } } t as i64 }
pub fn c41(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let clampb = |x: i64| x.max(0).min(255) as u8; s.iter().map(|x| clampb(*x as i64 * 2 - 100) as i64).sum() }
pub fn c42(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { struct R { l: i64, h: i64 } impl R { fn has(&self, x: i64) -> bool { self.l <= x && x < self.h } fn mid(&self) -> i64 { (self.l + self.h) / 2 } } let r = R { l: i, h: i + n as i64 }; r.mid() * 2 + r.has(i + 3) as i64 }
pub fn c43(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn bits(x: u8) -> impl Iterator<Item = bool> { (0..8).map(move |k| x >> (7 - k) & 1 == 1) } s.iter().flat_map(|x| bits(*x)).enumerate().filter(|(_, b)| *b).map(|(k, _)| k as i64).sum() }
pub fn c44(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v = vec![0u8; 4]; { let mut put = |k: usize, x: u8| v[k % 4] ^= x; for (k, x) in s.iter().enumerate() { put(k, *x); } } v.iter().fold(0, |a, x| a * 256 + *x as i64) }
