#!/bin/bash
# Builds the web module of /repo natively against small stand-ins for wasm_bindgen and js_sys, in a scratch folder,
# and runs the program main.rs (beside this file) with it.
# exit 0: the property holds on the program's inputs; otherwise it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$repo" || exit 2
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/mac/src" "$work/wb/src" "$work/js/src" "$work/hook/src"
cp -r "$repo/lib/sia/rust/web/src/." "$work/src/"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/mac/Cargo.toml" <<'T'
[package]
name = "wb-mac"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
T
cat > "$work/mac/src/lib.rs" <<'T'
use proc_macro::*;
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let ext = v.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"));
    if !ext || v.len() > 4 { return item; }
    let mut out = TokenStream::new();
    if let Some(TokenTree::Group(g)) = v.last() {
        let mut it = g.stream().into_iter().peekable();
        while let Some(t) = it.next() {
            match &t {
                TokenTree::Punct(p) if p.as_char() == '#' => { it.next(); }
                TokenTree::Punct(p) if p.as_char() == ';' => out.extend("{}".parse::<TokenStream>().unwrap()),
                _ => out.extend([t]),
            }
        }
    }
    out
}
T
cat > "$work/wb/Cargo.toml" <<'T'
[package]
name = "wasm-bindgen"
version = "0.2.999"
edition = "2021"
[dependencies]
wb-mac = { path = "../mac" }
T
cat > "$work/wb/src/lib.rs" <<'T'
pub use wb_mac::wasm_bindgen;
#[derive(Debug, Clone, PartialEq)]
pub enum JsValue { Undefined, Null, Bool(bool), Num(f64), Str(String), Arr(Vec<JsValue>), Bytes(Vec<u8>) }
macro_rules! num { ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> Self { JsValue::Num(x as f64) } })* } }
num!(u8, u16, u32, i8, i16, i32, f32, f64, usize);
impl From<bool> for JsValue { fn from(x: bool) -> Self { JsValue::Bool(x) } }
impl From<&str> for JsValue { fn from(x: &str) -> Self { JsValue::Str(x.into()) } }
impl From<String> for JsValue { fn from(x: String) -> Self { JsValue::Str(x) } }
pub mod prelude { pub use crate::{wasm_bindgen, JsValue}; }
T
cat > "$work/js/Cargo.toml" <<'T'
[package]
name = "js-sys"
version = "0.3.999"
edition = "2021"
[dependencies]
wasm-bindgen = { path = "../wb" }
T
cat > "$work/js/src/lib.rs" <<'T'
use wasm_bindgen::JsValue;
use std::{cell::RefCell, rc::Rc};
fn byte(v: &JsValue) -> u8 { match v { JsValue::Num(n) => (*n as i64) as u8, _ => 0 } }
/// a handle on shared bytes, as in JavaScript
#[derive(Debug, Clone)]
pub struct Uint8Array(Rc<RefCell<Vec<u8>>>);
impl Uint8Array {
    pub fn new(v: &JsValue) -> Self { Self::from(match v { JsValue::Arr(a) => a.iter().map(byte).collect::<Vec<u8>>(), JsValue::Bytes(b) => b.clone(), _ => vec![] }.as_slice()) }
    pub fn new_with_length(n: u32) -> Self { Self::from(vec![0; n as usize].as_slice()) }
    pub fn to_vec(&self) -> Vec<u8> { self.0.borrow().clone() }
    pub fn length(&self) -> u32 { self.0.borrow().len() as u32 }
    pub fn get_index(&self, i: u32) -> u8 { self.0.borrow()[i as usize] }
    pub fn set_index(&self, i: u32, x: u8) { self.0.borrow_mut()[i as usize] = x }
    pub fn copy_from(&self, x: &[u8]) { self.0.borrow_mut().copy_from_slice(x) }
    pub fn copy_to(&self, x: &mut [u8]) { x.copy_from_slice(&self.0.borrow()) }
    pub fn fill(&self, x: u8, a: u32, b: u32) -> Self { self.0.borrow_mut()[a as usize..b as usize].fill(x); self.clone() }
    pub fn subarray(&self, a: u32, b: u32) -> Self { Self::from(&self.0.borrow()[a as usize..b as usize]) }
    pub fn slice(&self, a: u32, b: u32) -> Self { self.subarray(a, b) }
}
impl From<&[u8]> for Uint8Array { fn from(x: &[u8]) -> Self { Uint8Array(Rc::new(RefCell::new(x.to_vec()))) } }
#[derive(Debug, Clone)]
pub struct Array(Vec<JsValue>);
impl Array {
    pub fn new() -> Self { Array(vec![]) }
    pub fn push(&mut self, v: &JsValue) -> u32 { self.0.push(v.clone()); self.0.len() as u32 }
    pub fn length(&self) -> u32 { self.0.len() as u32 }
}
impl FromIterator<JsValue> for Array { fn from_iter<I: IntoIterator<Item = JsValue>>(i: I) -> Self { Array(i.into_iter().collect()) } }
impl From<Array> for JsValue { fn from(a: Array) -> Self { JsValue::Arr(a.0) } }
impl From<Uint8Array> for JsValue { fn from(a: Uint8Array) -> Self { JsValue::Bytes(a.to_vec()) } }
T
printf '[package]\nname = "console_error_panic_hook"\nversion = "0.1.99"\nedition = "2021"\n' > "$work/hook/Cargo.toml"
echo 'pub fn set_once() {}' > "$work/hook/src/lib.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "web"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[[bin]]
name = "demo"
path = "src/main.rs"
[dependencies]
wasm-bindgen = { path = "wb" }
js-sys = { path = "js" }
console_error_panic_hook = { path = "hook" }
watermarking = { path = "$repo/lib/sia/rust/watermarking" }
image = { version = "0.24.3", default-features = false, features = ["gif", "jpeg", "png", "tiff", "bmp"] }
T
printf '\n[profile.dev]\nopt-level = 2\ndebug = 0\n' >> "$work/Cargo.toml"
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q --bin demo 2> "$work/log" || { grep -v "^warning" "$work/log" | tail -30 >&2; exit 2; }
(cd "$work" && timeout 200 ./target/debug/demo > "$work/out" 2>&1); r=$?
tail -c 600 "$work/out"
exit $r
