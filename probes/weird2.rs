#![allow(warnings, internal_features)]
#![feature(coroutines, coroutine_trait, stmt_expr_attributes, try_blocks, box_patterns, never_type, never_patterns, explicit_tail_calls, gen_blocks, yield_expr,
  thread_local, extern_types, unsized_fn_params, type_alias_impl_trait, core_intrinsics, negative_impls, auto_traits, decl_macro,
  const_trait_impl, exclusive_range_pattern, let_chains, async_iterator, adt_const_params, generic_const_exprs, if_let_guard, c_variadic, specialization, raw_ref_op, ptr_metadata, trait_upcasting, return_type_notation, arbitrary_self_types, min_generic_const_args, unsafe_binders, guard_patterns)]
use std::{cell::*, collections::*, future::Future, mem::*, ops::*, pin::Pin, rc::*, sync::*};
// --- assembly, thread locals, statics
pub fn asm1(x: u64, y: &mut u64) -> u64 { let mut r: u64; unsafe { std::arch::asm!("mov {0}, {1}", out(reg) r, in(reg) x); } *y = r; let mut z = x; unsafe { std::arch::asm!("add {0}, 1", inout(reg) z); } z + r }
#[thread_local] static mut TL: i32 = 3;
pub fn tl(x: i32) -> i32 { unsafe { TL += x; let p = &raw mut TL; *p += 1; TL } }
thread_local! { static TL2: RefCell<Vec<i32>> = RefCell::new(vec![]); }
pub fn tl2(x: i32) -> usize { TL2.with(|v| { v.borrow_mut().push(x); v.borrow().len() }) }
static ONCE: OnceLock<Mutex<BTreeMap<u8, String>>> = OnceLock::new();
pub fn once(k: u8) -> String { let m = ONCE.get_or_init(|| Mutex::new(BTreeMap::new())); let mut g = m.lock().unwrap(); g.entry(k).or_insert_with(|| k.to_string()).clone() }
// --- coroutines and generators
pub fn coro(n: i32) -> impl Coroutine<i32, Yield = i32, Return = i32> { #[coroutine] move |mut a: i32| { let mut i = n; while i > 0 { a += yield i; i -= a; } i + a } }
pub fn static_coro() -> impl Coroutine<Yield = usize> { #[coroutine] static || { let v = vec![1, 2, 3]; let s = &v[..]; for i in s { yield *i as usize; } } }
pub fn genb(n: u32) -> impl Iterator<Item = u32> { gen move { for i in 0..n { if i % 3 == 0 { yield i * 2; } } } }
pub async fn aw(v: &mut Vec<i32>, f: impl AsyncFn(i32) -> i32) -> i32 { let mut t = 0; for x in v.iter_mut() { *x = f(*x).await; t += *x; if t > 10 { return t; } } let g = async |y: i32| { y + t }; g(3).await }
pub fn boxfut<'a>(x: &'a mut i32) -> Pin<Box<dyn Future<Output = i32> + 'a>> { Box::pin(async move { *x += 1; if *x > 3 { 0 } else { boxfut(x).await } }) }
// --- control flow
pub fn tail(n: u64, acc: u64) -> u64 { if n == 0 { return acc; } become tail(n - 1, acc + n) }
pub fn tryb(a: Option<i32>, b: Option<i32>) -> Option<i32> { let r: Option<i32> = try { let x = a?; let y = b?; x + y }; r.map(|v| v + 1) }
pub fn labels(mut n: i32) -> i32 { let v = 'o: { if n > 3 { break 'o 7; } 'i: loop { n += 1; if n % 2 == 0 { continue 'i; } if n > 100 { break 'o n; } while let Some(k) = n.checked_sub(5) { if k < 0 { break 'i; } n = k; } } n * 2 }; v }
pub fn nested_loops() -> i32 { let mut a = 0; loop { loop { loop { loop { a += 1; if a > 4 { break; } } if a > 8 { break; } } if a > 12 { break; } } if a > 16 { return a; } } }
pub fn never1(x: i32) -> ! { match x { 0 => panic!(), 1 => loop {}, 2 => std::process::exit(1), _ => unreachable!("{x}") } }
pub fn never2(x: Result<i32, !>) -> i32 { let Ok(y) = x; y }
pub enum Void {}
pub fn void(v: Void, n: &Void) -> i32 { match v {} }
pub fn voidref(n: &Void) -> i32 { match *n {} }
pub fn voidres(r: Result<u8, Void>) -> u8 { match r { Ok(x) => x, Err(e) => match e {} } }
pub fn dead(x: bool) -> i32 { return 3; #[allow(unreachable_code)] { let mut y = 0; while x { y += 1; } y } }
pub fn constif() -> i32 { if false { 1 } else if true { 2 } else { 3 } }
pub fn guards(e: &mut E) -> i32 { match e { E::A(x) if { *x > 3 } => { *x = 1; 0 } E::B { a, b } if let Some(q) = a.get(0) && *q > 1 => { b.push('c'); 1 } E::B { b, .. } => b.len() as i32, E::C(box E::A(y)) | E::A(y) => *y, E::C(_) => -1 } }
pub enum E { A(i32), B { a: Vec<i32>, b: String }, C(Box<E>) }
pub fn slices(v: &mut [i32]) -> i32 { match v { [] => 0, [x] => { *x = 1; *x } [a, .., b] if *a > *b => { std::mem::swap(a, b); *a } [a, rest @ ..] => { rest[0] += *a; slices(rest) } } }
pub fn ranges(c: char, n: u8) -> u8 { match (c, n) { ('a'..='z', ..10) => 1, ('A'.., 10..20 | 30..) => 2, (_, k @ (20 | 21)) => k, _ => 0 } }
pub fn lets(a: Option<Option<i32>>) -> i32 { if let Some(b) = a && let Some(c) = b && c > 3 { c } else { let (Some(Some(x))) = a else { return 0 }; x } }
// --- places
#[repr(C, packed)] #[derive(Clone, Copy)] pub struct Pk { a: u8, b: u32, c: (u16, u64) }
pub fn packed(p: &mut Pk, x: u32) -> u64 { p.b = x; let q = { p.c.1 }; p.c = (p.a as u16, q + { p.b } as u64); let r = &raw const p.b; unsafe { r.read_unaligned() as u64 } }
pub union Un { a: u32, b: ManuallyDrop<String>, c: (u8, [u8; 3]), d: &'static str }
pub unsafe fn uni(u: &mut Un, x: u32) -> usize { u.a = x; u.c.1[1] = 3; let Un { a } = *u; let v = Un { d: "x" }; match v { Un { a: 3 } => 1, Un { d } => d.len() + a as usize } }
pub fn boxes(mut b: Box<(i32, Box<Vec<i32>>)>) -> Vec<i32> { b.0 += 1; b.1.push(b.0); let box (x, box v) = b; let mut w = v; w.push(x); w }
pub fn partial(p: (String, (String, Box<String>))) -> String { let (a, (b, _)) = p; let c = *p.1.1; a + &b + &c }
pub fn arrays(mut a: [[i32; 4]; 4], i: usize, j: usize) -> [i32; 4] { a[i][j] += a[j][i]; a[1] = a[i]; let [x, _, [p, q, ..], ref mut r] = a; r[j] = p + q; *r = x; a[3] }
pub fn rangeidx(s: &mut str, v: &mut Vec<Vec<u8>>, i: usize) -> u8 { v[i][1..3].iter_mut().for_each(|x| *x += 1); v[i][0] = s.as_bytes()[i]; *v.last_mut().unwrap().first_mut().unwrap() }
pub fn rawptr(x: &mut i32, n: usize) -> i32 { let p = x as *mut i32; let q = p as *const i32; unsafe { *p += 1; let s = std::slice::from_raw_parts_mut(p, n); s[0] = *q; (*p).pow(2) + *s.as_ptr().add(n - 1) } }
pub struct Node { v: i32, next: *mut Node, prev: Option<std::ptr::NonNull<Node>> }
pub unsafe fn link(n: *mut Node) -> i32 { let mut s = 0; let mut c = n; while !c.is_null() { s += (*c).v; (*(*c).next).v = s; (*c).prev = std::ptr::NonNull::new(c); c = (*c).next; } s }
// --- recursive, cyclic and infinite types
pub struct Cy<'a> { n: Option<&'a Cy<'a>>, m: Cell<Option<&'a Cy<'a>>>, v: i32 }
pub fn cyc<'a>(x: &'a Cy<'a>, y: &'a Cy<'a>) -> i32 { x.m.set(Some(y)); y.m.set(x.n); let mut c = Some(x); let mut t = 0; while let Some(k) = c { t += k.v; c = k.m.take(); } t }
pub struct Mc<'a> { n: &'a mut Option<Box<Mc<'a>>>, k: &'a mut &'a mut i32 }
pub fn mcyc<'a>(x: Mc<'a>) -> i32 { **x.k += 1; let mut cur = x; while let Some(b) = cur.n.take() { cur = *b; **cur.k = 3; } **cur.k }
pub struct List { h: i32, t: Option<Box<List>> }
pub fn list(l: &mut Option<Box<List>>) -> i32 { let mut c = l; let mut n = 0; while let Some(x) = c { x.h += n; n += x.h; c = &mut x.t; } *c = Some(Box::new(List { h: n, t: None })); n }
pub fn rev(mut l: Option<Box<List>>) -> Option<Box<List>> { let mut r = None; while let Some(mut x) = l { l = x.t.take(); x.t = r; r = Some(x); } r }
pub fn rcs(a: Rc<RefCell<Vec<std::rc::Weak<RefCell<i32>>>>>) -> i32 { let b = Rc::clone(&a); let c = Rc::new(RefCell::new(3)); b.borrow_mut().push(Rc::downgrade(&c)); *c.borrow_mut() += a.borrow().len() as i32; let z = *c.borrow(); z }
type T1 = (i32, i32); type T2 = (T1, T1); type T3 = (T2, T2); type T4 = (T3, T3); type T5 = (T4, T4); type T6 = (T5, T5);
pub fn bushy(mut a: T6, b: &mut T6) -> i32 { a.0.0.0 = b.1.1.1; b.0 = a.1; (a.0.0.0.0.0.0 + b.1.0.1.0.1.0) }
pub fn refs<'a>(a: &'a mut &'a mut &'a mut i32, b: &mut &&mut &i32) -> i32 { ***a = ****b; let c = &mut **a; **c += 1; ***a }
pub struct Many<'a> { a0: &'a mut i32, a1: &'a mut i32, a2: &'a mut i32, a3: &'a mut i32, a4: &'a mut i32, a5: &'a mut i32, a6: &'a mut i32, a7: &'a mut i32, a8: &'a mut i32, a9: &'a mut i32, b: [&'a mut i32; 4], c: (&'a str, &'a [&'a mut i32]), d: Vec<&'a mut i32> }
pub fn many<'a>(m: Many<'a>, i: usize) -> Many<'a> { let mut n = m; std::mem::swap(&mut n.a0, &mut n.a9); *n.b[i] += *n.a5; n.d.push(n.a1); n.a1 = n.b.into_iter().next().unwrap(); let z = Many { b: [n.a2, n.a3, n.a4, n.a6], a2: n.a7, a3: n.a8, a4: n.a0, a6: n.a9, a7: n.a1, a8: n.a5, a0: n.d.pop().unwrap(), a1: n.d.remove(0), a5: n.d.pop().unwrap(), a9: n.d.pop().unwrap(), c: n.c, d: vec![] }; z }
// --- generics, traits, closures
pub trait Gat { type I<'a>: Iterator<Item = &'a mut i32> where Self: 'a; fn it<'a>(&'a mut self) -> Self::I<'a>; }
pub fn gat<G: Gat>(g: &mut G) -> i32 where for<'x> G::I<'x>: Clone { let mut t = 0; for x in g.it() { *x += 1; t += *x; } t }
pub fn hr<F>(f: F) -> i32 where F: for<'a, 'b> Fn(&'a mut i32, &'b &'a i32) -> &'a i32 { let mut x = 3; let y = 4; let r = &y; *f(&mut x, unsafe { std::mem::transmute(&r) }) }
pub trait Sh { fn a(&self) -> f64 { 0.0 } fn m(&mut self, k: f64); fn s(self: Box<Self>) -> f64; fn arc(self: &Arc<Self>) -> usize where Self: Sized { Arc::strong_count(self) } }
pub trait Sub1: Sh + std::any::Any { fn z(&self) {} }
pub fn dyns(v: &mut [Box<dyn Sub1>], mut x: Box<dyn Sh>) -> f64 { let mut t = 0.; for b in v.iter_mut() { b.m(t); t += b.a(); let u: &dyn Sh = &**b; t += u.a(); } x.m(t); x.s() }
impl<T: Sh + ?Sized> Sh for &mut T { fn a(&self) -> f64 { (**self).a() } fn m(&mut self, k: f64) { (**self).m(k) } fn s(self: Box<Self>) -> f64 { 1.0 } }
pub fn cls(mut a: (i32, String), b: &mut Vec<i32>) -> impl FnMut(i32) -> i32 { let c = &a.1; let n = c.len(); let mut f = |x: i32| { a.0 += x; b.push(a.0); b.len() as i32 }; let q = f(1); let g = move |y: i32| { let h = || { let k = || a.1.len() as i32 + y; k() }; h() + q + n as i32 }; move |z| g(z) }
pub fn fnptrs(fs: &[fn(&mut i32) -> i32], x: &mut i32) -> i32 { let g: unsafe fn(&mut i32) -> i32 = fs[0]; let h = unsafe { g(x) }; h + fs.iter().map(|f| f(x)).sum::<i32>() }
pub fn cst<const N: usize, T: Default + Copy>(x: [T; N]) -> [T; N] where [(); N]: { let mut y = [T::default(); N]; let mut i = 0; while i < N { y[N - 1 - i] = x[i]; i += 1; } const { assert!(usize::MAX > 3) }; y }
pub fn tait() -> impl Fn() -> Box<dyn Iterator<Item = (usize, char)>> { || Box::new("abc".chars().enumerate().filter_map(|(i, c)| (i > 0).then_some((i, c)))) }
pub unsafe extern "C" fn va(n: i32, mut args: ...) -> i32 { let mut s = 0; for _ in 0..n { s += args.arg::<i32>(); } s }
pub fn unsized_param(f: dyn FnOnce(i32) -> i32, s: &mut dyn Write2) -> i32 { s.w(3); f(4) }
pub trait Write2 { fn w(&mut self, x: i32); }
pub struct Guard<'a>(&'a mut i32);
impl Drop for Guard<'_> { fn drop(&mut self) { *self.0 += 1; } }
pub fn drops(x: &mut i32, c: bool) -> i32 { let g; { let _t = Guard(&mut *x); } if c { g = Guard(x); std::mem::forget(g); 1 } else { let v = vec![Guard(x)]; let [a] = <[Guard; 1]>::try_from(v).ok().unwrap(); *a.0 } }
pub fn shadows(x: i32) -> i32 { let x = x + 1; let x = { let x = x * 2; x }; let f = |x: i32| x; let x = f(x); match x { x if x > 3 => x, x => { let x = -x; x } } }
pub fn opassign(mut a: Wrapping<u8>, v: &mut Vec<u64>, i: usize) -> u64 { a += 1; a <<= 2; v[i] ^= a.0 as u64; v[i] = v[i].wrapping_mul(v[(i + 1) % v.len()]); !v[i] & (-(v[0] as i64)) as u64 }
use std::num::Wrapping;
pub fn strs(a: &str) -> String { let mut s = format!("{a:>10}{:?}{b:.*}", a, 3, b = 1.5); write_to(&mut s, format_args!("{}", a)); s.extend(a.split_whitespace().rev()); s }
pub fn write_to(s: &mut String, a: std::fmt::Arguments<'_>) { use std::fmt::Write; s.write_fmt(a).unwrap(); }
pub macro mm($x:ident, $b:block) { { let $x = 3; let y = $b; y + $x } }
pub fn hyg(y: i32) -> i32 { let z = mm!(q, { let y2 = y; y2 * 2 }); let w = mm!(r, { z }); z + w }
pub fn offs() -> usize { std::mem::offset_of!(Pk, c.1) + std::mem::size_of::<Pk>() + std::mem::align_of_val(&3u16) }
pub fn simd(a: std::arch::x86_64::__m128i) -> i32 { unsafe { let b = std::arch::x86_64::_mm_add_epi32(a, a); std::mem::transmute::<_, [i32; 4]>(b)[2] } }
pub fn zst(a: (), b: [u8; 0], c: std::marker::PhantomData<*mut i32>, d: [(); 5]) -> () { let e = (a, b, c); let () = e.0; d[3] }
pub fn statics() -> &'static [&'static (i32, &'static str)] { static A: &[&(i32, &str)] = &[&(1, "a"), &(2, "b")]; A }
pub fn casts(x: i64, p: *const u8, f: fn(i32) -> i32) -> usize { (x as u8 as char as u32 as f32 as i16 as usize) + (p as usize) + (f as usize) + (x > 3) as usize + (Ordering2::B as isize as usize) }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)] pub enum Ordering2 { #[default] A = -3, B = 7 }
pub struct Wide { f: [u64; 40], a: u8, b: u8, c: u8, d: u8, e: u8, g: u8, h: u8, i: u8, j: u8, k: u8, l: u8, m: u8, n: u8, o: u8, p: u8, q: u8, r: u8, s: u8, t: u8, u: u8 }
pub fn wide(w: &mut Wide, x: Wide) -> Wide { w.a = x.b; w.f[3] = x.f[w.c as usize]; Wide { a: w.u, ..x } }
pub mod inner { pub(super) fn vis(x: &mut super::Wide) -> u8 { super::wide; x.a } pub trait X { fn x(); } impl X for fn(i32) -> i32 { fn x() { let a = 1; } } impl<T: ?Sized> X for *const T { fn x() {} } impl X for [i32; 3] { fn x() {} } impl X for (i32, ()) { fn x() {} } impl X for dyn Fn() { fn x() {} } }
fn main() { let mut x = 1; let y = labels(x); x = y; println!("{}", x); }
