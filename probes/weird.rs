#![allow(warnings)]
use std::collections::HashMap;
use std::fmt::{self, Debug};
const C1: usize = { let a = 3; a + 1 };
static S1: [i32; 2] = [1, 2];
static mut G: i32 = 0;
macro_rules! mk { ($n:ident, $e:expr) => { pub fn $n(x: i32) -> i32 { let y = x + $e; if y > 3 { y } else { 0 } } } }
mk!(mac1, 7);
mk!(mac2, { let z = 3; z * 2 });
macro_rules! addm { ($a:expr, $b:expr) => {{ let t = $a; t + $b }} }
pub fn use_mac(a: i32, b: i32) -> i32 { let q = addm!(a, b); println!("{} {}", q, a); assert!(q > 0, "bad {q}"); let v = vec![a, b, q]; v[0] }
pub async fn asy(x: &mut i32, y: i32) -> i32 { *x += y; asy2(y).await; let z = asy2(*x).await; z + y }
pub async fn asy2(x: i32) -> i32 { x + 1 }
pub fn diverge() -> ! { loop {} }
pub fn diverge2(x: i32) -> i32 { if x > 0 { panic!("no {}", x) } else { std::process::exit(x) } }
pub fn empty() {}
pub fn unit(_: ()) -> () { () }
pub const fn cf(x: u32) -> u32 { let mut i = 0; while i < x { i += 2; } i }
pub unsafe fn uns(p: *mut i32, n: usize) -> i32 { *p.add(n) = 3; G += 1; *p }
pub extern "C" fn ext(x: i32) -> i32 { x }
pub trait Tr { const K: i32; type A; fn dflt(&self, x: i32) -> i32 { let y = x + Self::K; y } fn req(&mut self) -> Self::A; }
pub struct P<T> { a: T, b: Vec<T> }
impl<T: Clone + Debug> Tr for P<T> { const K: i32 = { let r = 4; r }; type A = T; fn req(&mut self) -> T { let c = self.a.clone(); self.b.push(c.clone()); c } }
impl<T> Drop for P<T> { fn drop(&mut self) { let n = self.b.len(); } }
impl<T: Debug> fmt::Display for P<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.a)?; for x in &self.b { write!(f, "{x:?}")?; } Ok(()) } }
pub fn nested(x: i32) -> i32 {
  fn inner(y: i32) -> i32 { let w = y * 2; w }
  let c = |a: i32| { let b = a + x; b };
  let d = move |a: i32| -> i32 { (|| a + x)() };
  struct L(i32);
  impl L { fn m(&self) -> i32 { let q = self.0; q } }
  const KK: i32 = { let a = 1; a };
  let [p, .., q] = [1, 2, c(x)];
  inner(c(x)) + d(L(x).m()) + KK + p + q
}
pub fn genf<'a, T, const N: usize>(x: &'a mut [T; N], f: impl Fn(&T) -> bool) -> Option<&'a mut T> where T: PartialOrd { for e in x.iter_mut() { if f(e) { return Some(e); } } None }
pub fn maps(s: &str) -> HashMap<String, usize> {
  let mut m = HashMap::new();
  for (i, w) in s.split(' ').enumerate() { *m.entry(w.to_string()).or_insert(0) += i; }
  m.retain(|k, v| *v > 1 && !k.is_empty());
  m
}
pub fn q(x: Option<i32>) -> Option<i32> { let y = x?; let Some(z) = Some(y) else { return None; }; let r: Result<i32, String> = (|| { let a: i32 = "3".parse::<i32>().map_err(|e| e.to_string())?; Ok(a) })(); r.ok().map(|k| k + z) }
pub enum E { A(i32), B { x: i32, y: Box<E> }, C }
pub fn rec(e: &E) -> i32 { match e { E::A(n) if *n > 3 => *n, E::A(n) => n + 1, E::B { x, y } => { let s = rec(y); x + s } E::C => 0 } }
pub fn ünï(é: i32) -> i32 { /* ünïcödé */ let ß = é + 1; let s = "日本語"; ß + s.len() as i32 }
pub fn lab(n: i32) -> i32 { let mut t = 0; 'a: for i in 0..n { for j in 0..i { if j == 3 { continue 'a; } if i * j > 20 { break 'a; } t += j; } } t }
pub union U { a: u32, b: f32 }
pub fn un(x: u32) -> f32 { let mut u = U { a: x }; unsafe { u.a += 1; u.b } }
pub fn dynf(v: &mut Vec<Box<dyn FnMut(i32) -> i32>>, x: i32) -> i32 { let mut s = 0; for f in v.iter_mut() { s += f(x); } v.push(Box::new(move |y| y + x)); s }
pub fn ptrs(a: fn(i32) -> i32, b: &dyn Fn(i32) -> i32, x: i32) -> i32 { let f = if x > 0 { a } else { mac1 }; f(x) + b(x) }
pub fn infinite(x: i32) { let mut y = x; loop { y += 1; } }
pub fn unreach(x: i32) -> i32 { return x; let y = x + 1; y }
pub fn chars(s: &str) -> String { let mut o = String::new(); for c in s.chars().rev().filter(|c| c.is_alphabetic()) { o.push(c); o += "x"; } o }
mod m { pub mod n { pub fn deep(x: (i32, i32)) -> i32 { let (a, b) = x; a - b } } #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)] pub struct D { pub a: i32, b: String } }
#[cfg(test)] mod tests { #[test] fn t() { let x = 1; assert_eq!(x, 1); } }
