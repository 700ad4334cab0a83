// Small programs over the standard library: the folded graph of each has to agree with what it computes.
#![allow(dead_code, unused)]
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

pub fn a01(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if s.contains(&7) { 1 } else { 0 } }
pub fn a02(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().max().map(|x| *x as i64).unwrap_or(-1) }
pub fn a03(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().copied().min().unwrap_or(9) as i64 }
pub fn a04(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|x| x.count_ones() as i64).sum() }
pub fn a05(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n as u64).leading_zeros() as i64 + (n as u32).trailing_zeros() as i64 }
pub fn a06(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i.abs_diff(n as i64) as i64 + i.signum() }
pub fn a07(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if n.is_power_of_two() { 1 } else { n.next_power_of_two() as i64 } }
pub fn a08(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n + 1).ilog2() as i64 }
pub fn a09(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.sort(); t.first().copied().unwrap_or(0) as i64 * 1000 + t.last().copied().unwrap_or(0) as i64 }
pub fn a10(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.dedup(); t.len() as i64 }
pub fn a11(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { match (n as i64).cmp(&i) { std::cmp::Ordering::Less => -5, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 8 } }
pub fn a12(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { match f.partial_cmp(&1.5) { Some(std::cmp::Ordering::Less) => 1, Some(_) => 2, None => 3 } }
pub fn a13(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|x| *x as i64).reduce(|a, b| a * 3 - b).unwrap_or(-7) }
pub fn a14(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().scan(0i64, |a, x| { *a += *x as i64; Some(*a) }).last().unwrap_or(0) }
pub fn a15(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let (a, b): (Vec<u8>, Vec<u8>) = s.iter().partition(|x| **x > 100); a.len() as i64 * 100 + b.len() as i64 }
pub fn a16(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().rposition(|x| *x == 7).map(|p| p as i64).unwrap_or(-1) }
pub fn a17(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().find_map(|x| if *x > 50 { Some(*x as i64 * 2) } else { None }).unwrap_or(-1) }
pub fn a18(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); if !t.is_empty() { let k = n % t.len(); t.rotate_left(k); } t.get(0).map(|x| *x as i64).unwrap_or(-1) }
pub fn a19(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i.wrapping_mul(6364136223846793005).wrapping_add(1) >> 3 }
pub fn a20(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n as u32).rotate_left(5) as i64 ^ (n as u8).reverse_bits() as i64 }
pub fn a21(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i.checked_div(n as i64).unwrap_or(-99) }
pub fn a22(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n as u16).swap_bytes() as i64 + (n as u16).to_be() as i64 }
pub fn a23(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.windows(2).filter(|w| w[0] < w[1]).count() as i64 }
pub fn a24(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.chunks(3).map(|c| c.len() as i64 * c[0] as i64).sum() }
pub fn a25(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if let Some((h, t)) = s.split_first() { *h as i64 * 100 + t.len() as i64 } else { -1 } }
pub fn a26(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut h = HashSet::new(); for x in s.iter() { h.insert(*x); } h.len() as i64 }
pub fn a27(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut h: HashMap<u8, i64> = HashMap::new(); for x in s.iter() { *h.entry(*x).or_insert(0) += 1; } h.get(&7).copied().unwrap_or(0) }
pub fn a28(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let v: Vec<i64> = s.iter().zip(s.iter().skip(1)).map(|(a, b)| *a as i64 - *b as i64).collect(); v.iter().map(|x| x.abs()).max().unwrap_or(0) }
pub fn a29(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().enumerate().max_by_key(|(_, x)| **x).map(|(k, _)| k as i64).unwrap_or(-1) }
pub fn a30(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().enumerate().min_by_key(|(_, x)| **x).map(|(k, _)| k as i64).unwrap_or(-1) }
pub fn a31(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().rev().take_while(|x| **x > 3).count() as i64 }
pub fn a32(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().step_by(2).map(|x| *x as i64).sum() }
pub fn a33(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut q = VecDeque::new(); for x in s.iter() { q.push_back(*x); } q.pop_front().map(|x| x as i64).unwrap_or(-1) }
pub fn a34(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.retain(|x| *x > 60); t.len() as i64 }
pub fn a35(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.resize(n % 10, 5); t.iter().map(|x| *x as i64).sum() }
pub fn a36(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.truncate(4); t.extend_from_slice(&[1, 2]); t.insert(0, 9); t.iter().fold(0i64, |a, x| a * 7 + *x as i64) }
pub fn a37(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); if t.len() > 2 { t.remove(1); t.swap_remove(0); } t.iter().fold(0i64, |a, x| (a * 7 + *x as i64) % 100003) }
pub fn a38(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.repeat(2).len() as i64 + [s.clone(), vec![1, 2, 3]].concat().iter().map(|x| *x as i64).sum::<i64>() }
pub fn a39(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut c = 0; let mut k = n as u64; while k != 0 { k &= k - 1; c += 1; } c }
pub fn a40(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut a = n as u64; let mut b = (i.unsigned_abs()) as u64; while b != 0 { let t = a % b; a = b; b = t; } a as i64 }
pub fn a41(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i64::try_from(n).unwrap() + u8::try_from(i).map(|x| x as i64).unwrap_or(-300) }
pub fn a42(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { n.saturating_sub(50) as i64 + i.saturating_add(10) }
pub fn a43(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { i.rem_euclid(7) * 10 + i.div_euclid(7) }
pub fn a44(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (i as i8) as i64 * 2 + (i as u8) as i64 + (f as u8) as i64 + (f as i32) as i64 }
pub fn a45(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = [0u8; 8]; for (k, x) in s.iter().take(8).enumerate() { t[k] = *x; } u64::from_le_bytes(t) as i64 >> 5 }
pub fn a46(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().fold(0u32, |h, x| h.rotate_left(5) ^ (*x as u32)) as i64 }
pub fn a47(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().fold(5381u32, |h, x| h.wrapping_mul(33).wrapping_add(*x as u32)) as i64 }
pub fn a48(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if s.iter().eq(s.iter().rev()) { 1 } else { 0 } }
pub fn a49(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if s.iter().all(|x| x % 2 == 0) { 4 } else { s.iter().filter(|x| **x % 2 == 1).count() as i64 } }
pub fn a50(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let a: [u8; 4] = [1, 2, 3, 4]; a.map(|x| x as i64 * i).iter().sum() }
pub fn a51(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Option<u8> = s.first().copied(); t.filter(|x| *x > 10).map_or(-1, |x| x as i64) }
pub fn a52(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = s.get(1).copied().or(s.first().copied()); if let Some(x) = t { x as i64 } else { -2 } }
pub fn a53(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let r: Result<Vec<u8>, ()> = s.iter().map(|x| if *x < 250 { Ok(*x / 2) } else { Err(()) }).collect(); r.map(|v| v.iter().map(|x| *x as i64).sum()).unwrap_or(-1) }
pub fn a54(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut best = 0; let mut run = 0; for k in 1..s.len() { if s[k] == s[k - 1] { run += 1; } else { run = 0; } if run > best { best = run; } } best }
pub fn a55(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out = Vec::new(); for x in s.iter() { if *x > 40 { out.push(*x as i64); } } out.iter().fold(1i64, |a, x| (a * 31 + x) % 1000003) }
pub fn a56(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut seen: Vec<u8> = vec![]; for x in &s { if !seen.contains(x) { seen.push(*x); } } seen.len() as i64 }
pub fn a57(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = 0; loop { if k >= s.len() { break -1; } if s[k] == 7 { break k as i64; } k += 1; } }
pub fn a58(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); for k in 1..t.len() { t[k] = t[k] ^ t[k - 1]; } t.last().copied().unwrap_or(0) as i64 }
pub fn a59(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let (a, b) = s.split_at(s.len() / 2); a.iter().zip(b).map(|(x, y)| *x as i64 * *y as i64).sum() }
pub fn a60(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().any(|&x| matches!(x, 10..=20 | 200)) as i64 }
pub fn a61(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|&x| i64::from(x)).filter(|x| x & 1 == 1).map(|x| x << 2).sum::<i64>() | 1 }
pub fn a62(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Vec<u8> = s.iter().cloned().skip_while(|x| *x < 50).collect(); t.len() as i64 }
pub fn a63(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { n.pow(2) as i64 + (n % 7).pow(3) as i64 + 2i64.pow((n % 20) as u32) }
pub fn a64(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n as u64).isqrt() as i64 }
pub fn a65(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { n.next_multiple_of(8) as i64 + n.div_ceil(8) as i64 }
pub fn a66(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Vec<&[u8]> = s.split(|x| *x == 7).collect(); t.len() as i64 }
pub fn a67(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().try_fold(0u8, |a, x| a.checked_add(*x)).map(|x| x as i64).unwrap_or(-1) }
pub fn a68(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]]) as i64).sum() }
pub fn a69(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().rev().step_by(3).fold(0i64, |a, x| a * 3 % 10007 + *x as i64) }
pub fn a70(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { std::iter::repeat(3i64).take(n % 6).chain(std::iter::once(i)).sum() }
pub fn a71(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { std::iter::successors(Some(1i64), |x| if *x < 100 { Some(x * 2) } else { None }).count() as i64 }
pub fn a72(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter(); let a = it.next(); let b = it.next(); match (a, b) { (Some(x), Some(y)) => *x as i64 * 256 + *y as i64, (Some(x), None) => *x as i64, _ => -1 } }
pub fn a73(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut it = s.iter().peekable(); let mut c = 0; while let Some(x) = it.next() { if it.peek() == Some(&x) { c += 1; } } c }
pub fn a74(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: String = s.iter().map(|x| format!("{:02x}", x)).collect(); t.len() as i64 + t.bytes().filter(|b| *b == b'a').count() as i64 }
pub fn a75(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = format!("{}-{}", n, i); t.len() as i64 }
pub fn a76(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (if i < 0 { -1 } else { 1 }) * (n as i64 & 0xff) | ((i >> 3) & 1) }
pub fn a77(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut k = s.len(); while k > 0 && s[k - 1] == 0 { k -= 1; } k as i64 }
pub fn a78(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut lo = 0usize; let mut hi = s.len(); while lo < hi { let m = (lo + hi) / 2; if s[m] < 100 { lo = m + 1; } else { hi = m; } } lo as i64 }
pub fn a79(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); let h = t.len() / 2; let (a, b) = t.split_at_mut(h); for (x, y) in a.iter_mut().zip(b.iter()) { *x = x.wrapping_add(*y); } t.iter().map(|x| *x as i64).sum() }
pub fn a80(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut g = vec![vec![0i64; 3]; 2]; for (k, x) in s.iter().take(6).enumerate() { g[k / 3][k % 3] = *x as i64; } g.iter().map(|r| r.iter().product::<i64>()).sum() }
pub fn a81(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().is_sorted() as i64 }
pub fn a82(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut t = s.clone(); t.sort_unstable_by(|a, b| b.cmp(a)); t.first().copied().unwrap_or(0) as i64 }
pub fn a83(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = s.iter().copied().collect::<std::collections::BTreeSet<u8>>(); t.len() as i64 }
pub fn a84(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|x| *x as u32).map(|x| (x * x) as i64).max().unwrap_or_default() }
pub fn a85(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.binary_search(&7).is_ok() as i64 * 0 + s.last().map_or(0, |x| *x as i64) }
pub fn a86(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t = &s[s.len().min(2)..]; t.to_owned().len() as i64 + t.starts_with(&[7]) as i64 }
pub fn a87(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut x = n as u32 | 1; x ^= x << 13; x ^= x >> 17; x ^= x << 5; (x % 1000) as i64 }
pub fn a88(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (n.min(3).max(1) * 5) as i64 + n.clamp(2, 60) as i64 + std::cmp::max(i, 4) }
pub fn a89(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let t: Vec<(usize, u8)> = s.iter().copied().enumerate().filter(|(k, _)| k % 3 == 1).collect(); t.iter().map(|(k, x)| *k as i64 * *x as i64).sum() }
pub fn a90(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut out: Vec<u8> = Vec::with_capacity(4); out.extend(s.iter().map(|x| x >> 1)); out.append(&mut vec![3, 4]); out.drain(..1.min(out.len())).count() as i64 * 1000 + out.iter().map(|x| *x as i64).sum::<i64>() }
pub fn a91(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (i as u64).to_be_bytes().iter().enumerate().map(|(k, b)| *b as i64 * (k as i64 + 1)).sum() }
pub fn a92(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { if n % 2 == 0 && s.len() > 3 || i < 0 { return 77; } let r = match s.as_slice() { [] => 0, [a] => *a as i64, [a, .., b] => *a as i64 + *b as i64 }; r }
pub fn a93(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.rchunks(4).map(|c| c.len() as i64).next().unwrap_or(0) }
pub fn a94(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { s.iter().map(|x| *x as i64).sum::<i64>().checked_rem(n as i64 % 3).unwrap_or(-5) }
pub fn a95(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { u8::from_str_radix("1f", 16).unwrap() as i64 + "42".parse::<i64>().unwrap() }
pub fn a96(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut n = n; std::mem::swap(&mut n, &mut 5); let o = std::mem::replace(&mut n, 9); o as i64 + n as i64 }
pub fn a97(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { let mut o = Some(n); let t = o.take(); o.is_none() as i64 + t.unwrap_or(3) as i64 }
pub fn a98(s: Vec<u8>, n: usize, i: i64, f: f64) -> i64 { (s.len() as f64 / 2.0).ceil() as i64 + (n as f64).log2().floor().max(-1.0) as i64 + (n as f64).sqrt() as i64 }

pub fn f01(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.to_radians() + f.to_degrees() }
pub fn f02(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.max(1.0).min(3.0) + f.abs().sqrt() + f.signum() }
pub fn f03(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().map(|x| *x as f64).sum::<f64>() / s.len().max(1) as f64 }
pub fn f04(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().map(|x| *x as f64 * f).fold(f64::MIN, f64::max) }
pub fn f05(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().map(|x| *x as f64).fold(f64::INFINITY, |a, b| a.min(b)) }
pub fn f06(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { (f.abs() + 1.0).ln() + (f.abs() + 1.0).log10() + (f / 1e3).exp() + f.tanh() + (f.abs() + 1.0).log2() + f.exp2().min(1e9) }
pub fn f07(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.rem_euclid(3.0) + f % 2.0 + f.fract() + f.trunc() + f.round() }
pub fn f08(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.powi(3) + f.abs().powf(1.5) + f.mul_add(2.0, 1.0) + f.hypot(2.0) + f.atan2(2.0) + f.cbrt() }
pub fn f09(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let mut v: Vec<f64> = s.iter().map(|x| *x as f64).collect(); v.sort_by(|a, b| a.partial_cmp(b).unwrap()); if v.is_empty() { 0.0 } else { v[v.len() / 2] } }
pub fn f10(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let v: Vec<f64> = s.iter().map(|x| *x as f64 - f).collect(); v.iter().cloned().max_by(|a, b| a.total_cmp(b)).unwrap_or(-1.0) }
pub fn f11(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let (a, b) = f.sin_cos(); a * 2.0 + b }
pub fn f12(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { if f.is_sign_negative() { 1.0 / f } else { (f * 1e15).floor() } }
pub fn f13(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { (f as f32) as f64 + (n as f32 / 3.0) as f64 }
pub fn f14(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f64::from(n as u32) * f64::EPSILON + i as f64 }
pub fn f15(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f64::from_bits(f.to_bits() & !1) }
pub fn f16(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { let mut a = f; let mut c = 0; while a.abs() > 1.0 && c < 60 { a /= 2.0; c += 1; } a + c as f64 }
pub fn f17(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.clamp(-2.0, 2.0).copysign(i as f64 + 0.5) + f.recip().min(5.0).max(-5.0) }
pub fn f18(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { (1..=n % 9).fold(1.0, |a, k| a * k as f64) }
pub fn f19(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { s.iter().zip(1..).map(|(x, k)| *x as f64 / k as f64).sum() }
pub fn f20(s: Vec<u8>, n: usize, i: i64, f: f64) -> f64 { f.exp_m1().min(9.0) + f.abs().ln_1p() + f.sinh().min(100.0).max(-100.0) + (f / 1e7).asin() }
