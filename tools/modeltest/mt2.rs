// Control flow, structures and strings: the folded graph of each has to agree with what it computes.
#![allow(dead_code, unused)]
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

pub fn b00(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut c = 0; 'o: for a in 0..s.len() { for b in a + 1..s.len() { if s[a] == s[b] { c += 1; continue 'o; } if c > 3 { break 'o; } } } c }
pub fn b01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { for (k, x) in s.iter().enumerate() { if *x == 7 { return k as i64; } } -1 }
pub fn b02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut last = None; for (k, x) in s.iter().enumerate() { if *x == 7 { last = Some(k); } } match last { Some(k) if k > 0 => k as i64, Some(_) => -3, None => -1 } }
pub fn b03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut m = 0u8; for &x in &s { if x > m { m = x; } } m as i64 }
pub fn b04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut m = (0usize, 0u8); for (k, &x) in s.iter().enumerate() { if x >= m.1 { m = (k, x); } } m.0 as i64 * 1000 + m.1 as i64 }
pub fn b05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a = [0i64; 4]; for (k, &x) in s.iter().enumerate() { a[k % 4] += x as i64; } a[0] * 7 + a[1] * 5 + a[2] * 3 + a[3] }
pub fn b06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut h = [0usize; 256]; for &x in &s { h[x as usize] += 1; } h[7] as i64 * 10 + h[255] as i64 }
pub fn b07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v: Vec<i64> = Vec::new(); for x in s.chunks(2) { v.push(if x.len() == 2 { x[0] as i64 - x[1] as i64 } else { x[0] as i64 }); } v.iter().enumerate().map(|(k, y)| (k as i64 + 1) * y).sum() }
pub fn b08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut acc = 1i64; let mut k = n % 13; while k > 1 { acc *= k as i64; k -= 1; } acc }
pub fn b09(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a = 0i64; let mut b = 1i64; for _ in 0..n % 30 { let t = a + b; a = b; b = t; } a }
pub fn b10(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = n; let mut c = 0; while k % 2 == 0 && k > 0 { k /= 2; c += 1; } c }
pub fn b11(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = n; let mut d = 0; loop { d += k % 10; k /= 10; if k == 0 { break; } } d as i64 }
pub fn b12(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn g(k: usize) -> i64 { if k < 2 { 1 } else { k as i64 * g(k - 1) } } g(n % 10) }
pub fn b13(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let c = |x: i64| x * i; s.iter().map(|x| c(*x as i64)).sum() }
pub fn b14(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = 0; let mut add = |x: i64| t += x; add(i); add(3); t }
pub fn b15(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<Vec<u8>> = s.chunks(3).map(|c| c.to_vec()).collect(); v.iter().rev().flatten().map(|x| *x as i64).fold(0, |a, x| (a * 31 + x) % 10007) }
pub fn b16(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let (mut x, mut y) = (0i64, 0i64); for (k, b) in s.iter().enumerate() { match (k % 2, b % 3) { (0, 0) => x += 1, (0, _) => x -= 1, (1, 2) => y += 5, _ => y -= 1 } } x * 100 + y }
pub fn b17(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { #[derive(Clone, Copy, PartialEq)] enum E { A, B(i64), C { u: usize } } let e = if n > 50 { E::A } else if i < 0 { E::B(i) } else { E::C { u: n } }; match e { E::A => 1, E::B(v) => v * 2, E::C { u } => u as i64 + 3 } }
pub fn b18(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { #[derive(Clone, Default)] struct P { a: i64, b: Vec<u8>, c: (u8, bool) } let mut p = P::default(); p.a = i; p.b = s.clone(); p.c.1 = n > 3; let q = P { a: 5, ..p.clone() }; q.a + q.b.len() as i64 + q.c.1 as i64 + p.a }
pub fn b19(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { struct It2 { k: usize, n: usize } impl Iterator for It2 { type Item = usize; fn next(&mut self) -> Option<usize> { if self.k < self.n { self.k += 1; Some(self.k * self.k) } else { None } } } let mut t = 0; for x in (It2 { k: 0, n: n % 9 }) { t += x; } t as i64 }
pub fn b20(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { trait A { fn f(&self, x: i64) -> i64; fn g(&self) -> i64 { self.f(2) + 1 } } struct U(i64); struct V; impl A for U { fn f(&self, x: i64) -> i64 { self.0 * x } } impl A for V { fn f(&self, x: i64) -> i64 { x } fn g(&self) -> i64 { 9 } } fn h<T: A>(t: &T) -> i64 { t.f(3) * 100 + t.g() } h(&U(i)) + h(&V) }
pub fn b21(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn sq(x: &mut [i64]) { for v in x.iter_mut() { *v *= *v; } } let mut t: Vec<i64> = s.iter().map(|x| *x as i64).collect(); if t.len() > 2 { sq(&mut t[1..]); } t.iter().sum() }
pub fn b22(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn step(a: &mut i64, b: &mut Vec<u8>) -> Option<u8> { *a += 1; b.pop() } let mut a = 0; let mut b = s.clone(); let mut t = 0i64; while let Some(x) = step(&mut a, &mut b) { t += x as i64 * a; } t }
pub fn b23(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn p(s: &[u8]) -> Result<i64, String> { if s.is_empty() { return Err("e".to_string()); } let x = s.get(1).ok_or("one".to_string())?; Ok(*x as i64) } match p(&s) { Ok(v) => v, Err(e) => -(e.len() as i64) } }
pub fn b24(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Result<i64, u8> = s.iter().try_fold(0i64, |a, x| if *x == 255 { Err(*x) } else { Ok(a + *x as i64) }); match t { Ok(v) => v, Err(e) => -(e as i64) } }
pub fn b25(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Option<Vec<i64>> = s.iter().map(|x| if *x > 0 { Some(100 / *x as i64) } else { None }).collect(); t.map_or(-1, |v| v.iter().sum()) }
pub fn b26(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let x: u8 = (n & 0xff) as u8; let y = x.wrapping_add(200); let (z, o) = x.overflowing_add(100); y as i64 * 3 + z as i64 + o as i64 * 1000 + x.saturating_sub(9) as i64 + x.checked_mul(2).map_or(0, |v| v as i64) }
pub fn b27(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n as u8 >> 3) as i64 + ((n as u8) << 2) as i64 + (!(n as u8)) as i64 + ((n as u16) ^ 0xa5a5) as i64 }
pub fn b28(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (i as i32 >> 2) as i64 + ((i as i16) as u16) as i64 + (-(i as i128) % 17) as i64 }
pub fn b29(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i / 7 * 10 + i % 7 + (-i) / 3 }
pub fn b30(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let s2: String = s.iter().map(|x| (b'a' + x % 26) as char).collect(); s2.chars().rev().filter(|c| *c != 'h').count() as i64 + s2.find('h').map_or(-1, |k| k as i64) }
pub fn b31(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let s2: String = s.iter().map(|x| (b'a' + x % 26) as char).collect(); s2.to_uppercase().bytes().map(|b| b as i64).sum::<i64>() + s2.contains("h") as i64 }
pub fn b32(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = format!("{:>5}|{:<4}|{:03}", n, i, n % 50); t.len() as i64 }
pub fn b33(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Vec<String> = s.iter().map(|x| format!("{:02X}", x)).collect(); t.join("").len() as i64 + t.concat().starts_with("07") as i64 }
pub fn b34(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().zip(s.iter().rev()).filter(|(a, b)| a == b).count() as i64 }
pub fn b35(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().skip(1).step_by(2).zip(s.iter().step_by(2)).map(|(a, b)| *a as i64 - *b as i64).sum() }
pub fn b36(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (0..s.len()).filter(|k| k % 2 == 1).map(|k| s[k] as i64).sum() }
pub fn b37(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (0..s.len()).rev().map(|k| s[k] as i64 * (k as i64 + 1)).sum() }
pub fn b38(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (1..=n % 20).filter(|d| (n % 20) % d == 0).sum::<usize>() as i64 }
pub fn b39(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (0..3).flat_map(|a| (0..a).map(move |b| a * 10 + b)).map(|x| x as i64 * i).sum() }
pub fn b40(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let h: Vec<_> = it.by_ref().take(2).collect(); let r: i64 = it.map(|x| *x as i64).sum(); r * 10 + h.len() as i64 }
pub fn b41(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.chunks_exact(3); let a: i64 = it.by_ref().map(|c| c[2] as i64).sum(); a + it.remainder().len() as i64 * 1000 }
pub fn b42(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().take_while(|x| **x < 100).last().map_or(-1, |x| *x as i64) }
pub fn b43(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v = s.clone(); v.sort_by_key(|x| std::cmp::Reverse(*x)); v.truncate(3); v.iter().fold(0, |a, x| a * 256 + *x as i64) }
pub fn b44(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v: Vec<(u8, usize)> = s.iter().copied().zip(0..).collect(); v.sort(); v.first().map_or(-1, |x| x.1 as i64) }
pub fn b45(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut v = s.clone(); v.reverse(); v.swap(0, 0.max(s.len().saturating_sub(1))); v.get(0).map_or(0, |x| *x as i64) }
pub fn b46(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let b = s.as_slice(); if let [a, b, rest @ ..] = b { *a as i64 + *b as i64 * 2 + rest.len() as i64 * 1000 } else { -1 } }
pub fn b47(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a = u32::from_be_bytes([n as u8, (n >> 8) as u8, 3, 4]); let b = (a as u64).to_le_bytes(); b.iter().rev().fold(0i64, |t, x| t * 3 + *x as i64) }
pub fn b48(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let w = (i as u64).rotate_left(9); ((w >> 32) as u32 ^ w as u32) as i64 }
pub fn b49(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut crc = 0xffffu16; for &b in &s { crc ^= (b as u16) << 8; for _ in 0..8 { crc = if crc & 0x8000 != 0 { (crc << 1) ^ 0x1021 } else { crc << 1 }; } } crc as i64 }
pub fn b50(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut bits = Vec::new(); for b in &s { for k in 0..8 { bits.push(b >> k & 1 == 1); } } bits.iter().filter(|b| **b).count() as i64 }
pub fn b51(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let bits: Vec<bool> = (0..n % 40).map(|k| (i >> (k % 60)) & 1 == 1).collect(); bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (k, b)| a | (*b as u8) << k) as i64).sum() }
pub fn b52(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let x = if let Some(k) = s.iter().position(|x| *x == 7) { k } else { s.len() }; x as i64 }
pub fn b53(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let Some(first) = s.first() else { return -5 }; *first as i64 }
pub fn b54(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r = 0..n % 10; r.len() as i64 + r.contains(&3) as i64 * 100 }
pub fn b55(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = (n % 7, i % 3); let ((a, b), c) = (t, s.len()); a as i64 + b + c as i64 }
pub fn b56(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let x = match n { 0 => 1, 1 | 2 => 3, 3..=9 => n * 2, x if x % 2 == 0 => x / 2, _ => 0 }; x as i64 }
pub fn b57(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { const K: [i64; 5] = [3, 1, 4, 1, 5]; static M: i64 = 11; K[n % 5] * M + K.iter().sum::<i64>() }
pub fn b58(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a = vec![vec![1i64; 3]; n % 4]; a.iter().map(|r| r.len() as i64).sum::<i64>() + a.len() as i64 }
pub fn b59(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut g = vec![0i64; 12]; for r in 0..3 { for c in 0..4 { g[r * 4 + c] = (r * 10 + c) as i64 * i; } } g[7] - g[2] + g.iter().skip(8).sum::<i64>() }
pub fn b60(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut m = [[0u8; 3]; 3]; for (k, x) in s.iter().enumerate().take(9) { m[k / 3][k % 3] = *x; } let mut t = [[0u8; 3]; 3]; for a in 0..3 { for b in 0..3 { t[b][a] = m[a][b]; } } t[0][1] as i64 * 1000 + t[2][0] as i64 }
pub fn b61(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let b: Box<dyn Fn(i64) -> i64> = if n > 5 { Box::new(|x| x + 1) } else { Box::new(move |x| x * i) }; b(3) }
pub fn b62(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn ap(f: impl Fn(u8) -> i64, s: &[u8]) -> i64 { s.iter().map(|x| f(*x)).sum() } ap(|x| x as i64 * 2, &s) }
pub fn b63(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { fn dbl(x: &u8) -> i64 { *x as i64 * 2 } s.iter().map(dbl).sum() }
pub fn b64(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<i64> = s.iter().map(|x| *x as i64).collect(); let avg = if v.is_empty() { 0 } else { v.iter().sum::<i64>() / v.len() as i64 }; v.into_iter().map(|x| (x - avg).abs()).max().unwrap_or(0) }
pub fn b65(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.split_first().map(|(a, r)| r.iter().filter(|x| **x > *a).count() as i64).unwrap_or(-1) }
pub fn b66(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = s.clone(); for k in 0..out.len() / 2 { let j = out.len() - 1 - k; out.swap(k, j); } out.iter().fold(0, |a, x| (a * 31 + *x as i64) % 10007) }
pub fn b67(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = s.clone(); for x in out.iter_mut().rev().take(2) { *x = x.saturating_add(9); } out.iter().map(|x| *x as i64).sum() }
pub fn b68(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = s.clone(); if let Some(x) = out.get_mut(1) { *x = 99; } if let Some(l) = out.last_mut() { *l ^= 1; } out.iter().fold(0, |a, x| (a * 31 + *x as i64) % 10007) }
pub fn b69(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = s.clone(); out[..s.len() / 2].fill(1); out.iter().map(|x| *x as i64).sum() }
pub fn b70(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = vec![0u8; 4]; let k = s.len().min(4); out[..k].copy_from_slice(&s[..k]); out.iter().fold(0, |a, x| a * 256 + *x as i64) }
pub fn b71(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = s.clone(); for w in out.chunks_mut(3) { w[0] = w.len() as u8; } out.iter().fold(0, |a, x| (a * 31 + *x as i64) % 10007) }
pub fn b72(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out: Vec<u8> = Vec::new(); while out.len() < n % 12 { out.push(out.len() as u8 * 3); } out.iter().map(|x| *x as i64).sum() }
pub fn b73(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = 0; let mut t = 0i64; while k < s.len() { t += s[k] as i64; k += 1 + (s[k] as usize % 2); } t }
pub fn b74(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let p = s.iter().fold((0i64, 1i64), |(a, b), x| (b, a + *x as i64)); p.0 * 2 - p.1 }
pub fn b75(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut prev = 0u8; let mut c = 0; for &x in &s { if x != prev { c += 1; } prev = x; } c }
pub fn b76(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { std::iter::once(3u8).chain(s.iter().copied()).chain([9, 8]).enumerate().map(|(k, x)| k as i64 * x as i64).sum() }
pub fn b77(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r: std::ops::Range<usize> = 1..s.len().max(1); s[r].iter().map(|x| *x as i64).sum() }
pub fn b78(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { assert!(n < 60000, "big"); let d = n.checked_sub(3).expect("small"); d as i64 }
pub fn b79(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if s.is_empty() { panic!("empty {}", n); } s[0] as i64 }
pub fn b80(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let v: Vec<f64> = s.iter().map(|x| *x as f64).collect(); let m = v.iter().sum::<f64>() / v.len() as f64; (v.iter().map(|x| (x - m).powi(2)).sum::<f64>() / v.len() as f64).sqrt() }
pub fn b81(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let mut x = f.abs() + 1.0; for _ in 0..6 { x = 0.5 * (x + (f.abs() + 1.0) / x); } x }
pub fn b82(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let (a, b) = (f.floor(), f - f.floor()); if b > 0.5 { a + 1.0 } else if b < 0.25 { a } else { a + 0.5 } }
pub fn b83(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { (f * 8.0).round() / 8.0 + (f as f32 * 0.1f32) as f64 + (i as f64 / 3.0).trunc() }
pub fn b84(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().map(|&x| x as f64 / 255.0).map(|x| if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) }).sum() }
pub fn b85(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let t = (f * 10.0) as i64; (t.rem_euclid(4) as f64) + (f.max(0.0).min(255.0) as u8) as f64 + ((f + 0.5) as u8) as f64 }
pub fn b86(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().enumerate().map(|(k, x)| *x as f64 * (k as f64 * std::f64::consts::PI / 8.0).cos()).sum() }
pub fn b87(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let mut v: Vec<f64> = s.iter().map(|x| *x as f64).collect(); for k in (1..v.len()).rev() { v[k] -= v[k - 1]; } v.iter().map(|x| x.abs()).fold(0.0, f64::max) }
