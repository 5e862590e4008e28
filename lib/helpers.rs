// ---- types and callees the generated functions use ----
#[derive(Clone, Copy, PartialEq)] pub struct S1 { pub a: i64, pub b: i64 }
#[derive(Clone)] pub struct S2 { pub s: S1, pub c: i64 }
#[derive(Clone, Copy)] pub struct S3 { pub t: (i64, i64), pub u: S1 }
#[derive(Clone)] pub struct G<T> { pub v: T, pub n: i64 }
pub struct R1<'a> { pub r: &'a mut i64, pub n: i64 }
pub struct R2<'a> { pub p: &'a mut S1, pub q: &'a mut i64 }
#[derive(Clone, Copy)] pub struct Q1<'a> { pub r: &'a i64, pub n: i64 }
pub enum E1 { A(i64), B { x: i64, y: i64 }, C }
pub enum E2<'a> { L(&'a mut i64), N(i64) }
pub mod pm {
  #[derive(Clone, Copy)] pub struct P1 { pub y: i64, x: i64 }
  impl P1 {
    pub fn new(y: i64, x: i64) -> P1 { P1 { y, x } }
    pub fn x(&self) -> i64 { self.x }
    pub fn set(&mut self, v: i64) { self.x = v; }
    pub fn rot(&mut self) { let t = self.x; self.x = self.y; self.y = t; }
  }
  pub struct Acc { t: i64 }
  impl Acc {
    pub fn new(t: i64) -> Acc { Acc { t } }
    pub fn add(&mut self, v: i64) { self.t = self.t.wrapping_add(v); }
    pub fn get(&self) -> i64 { self.t }
  }
}
pub struct DropW<'a> { pub d: &'a mut i64, pub v: i64 }
impl<'a> Drop for DropW<'a> { fn drop(&mut self) { *self.d = (*self.d).wrapping_mul(3).wrapping_add(self.v); } }
pub fn h_add(x: i64, y: i64) -> i64 { x.wrapping_add(y) }
pub fn h_sel(c: i64, x: i64, y: i64) -> i64 { if c > 0 { x } else { y } }
pub fn h_neg(x: i64) -> i64 { x.wrapping_neg() }
pub fn h_store(p: &mut i64, v: i64) { *p = v; }
pub fn h_addto(p: &mut i64, q: &i64) { *p = (*p).wrapping_add(*q); }
pub fn h_swap(p: &mut i64, q: &mut i64) { let t = *p; *p = *q; *q = t; }
pub fn h_inc(p: &mut i64) -> i64 { *p = (*p).wrapping_add(1); *p }
pub fn h_read(p: &i64) -> i64 { *p }
pub fn h_mk(x: i64, y: i64) -> S1 { S1 { a: x, b: y } }
pub fn h_s1set(s: &mut S1, v: i64) { s.a = v; s.b = s.b.wrapping_add(v); }
pub fn h_s1cp(d: &mut S1, s: &S1) { d.b = s.a; }
pub fn h_tup(t: &mut (i64, i64), x: i64) { t.1 = x; }
pub fn h_tmove(t: (i64, i64)) -> (i64, i64) { (t.1, t.0) }
pub fn h_arr(a: &mut [i64; 4], i: i64, v: i64) { a[(i & 3) as usize] = v; }
pub fn h_sum(a: &[i64]) -> i64 { let mut t = 0i64; for x in a { t = t.wrapping_add(*x); } t }
pub fn h_fill(a: &mut [i64], v: i64) { for x in a.iter_mut() { *x = (*x).wrapping_add(v); } }
pub fn h_opt(c: i64, v: i64) -> Option<i64> { if c > 0 { Some(v) } else { None } }
pub fn h_e1(c: i64, v: i64) -> E1 { if c > 0 { E1::A(v) } else if c < 0 { E1::B { x: v, y: c } } else { E1::C } }
pub fn h_e1m(e: &mut E1, v: i64) { match e { E1::A(x) => *x = v, E1::B { x, .. } => *x = v, E1::C => {} } }
pub fn h_pick<'a>(c: i64, x: &'a mut i64, y: &'a mut i64) -> &'a mut i64 { if c > 0 { x } else { y } }
pub fn h_pickr<'a>(c: i64, x: &'a i64, y: &'a i64) -> &'a i64 { if c > 0 { x } else { y } }
pub fn h_first<'a, 'b>(x: &'a mut i64, y: &'b mut i64) -> &'a mut i64 { *y = (*y).wrapping_add(*x); x }
pub fn h_id<'a>(p: &'a mut i64) -> &'a mut i64 { p }
pub fn h_fa<'a>(s: &'a mut S1) -> &'a mut i64 { &mut s.a }
pub fn h_fab<'a>(s: &'a mut S1) -> (&'a mut i64, &'a mut i64) { (&mut s.a, &mut s.b) }
pub fn h_wrap<'a>(r: &'a mut i64, n: i64) -> R1<'a> { R1 { r, n } }
pub fn h_r1(w: &mut R1, v: i64) { *w.r = v; w.n = w.n.wrapping_add(1); }
pub fn h_r1v(w: R1) -> i64 { *w.r = w.n; w.n }
pub fn h_r2(w: &mut R2) { *w.q = w.p.a; }
pub fn h_q1(w: &Q1) -> i64 { (*w.r).wrapping_add(w.n) }
pub fn h_gset<T: Clone>(d: &mut T, s: &T) { *d = s.clone(); }
pub fn h_gid<T>(x: T) -> T { x }
pub fn h_apply<F: FnMut(i64) -> i64>(mut f: F, x: i64) -> i64 { f(x).wrapping_add(1) }
pub fn h_dynapp(f: &mut dyn FnMut(i64), x: i64) { f(x); }
pub fn h_once<F: FnOnce() -> i64>(f: F) -> i64 { f() }
pub fn h_dynread(f: &dyn Fn(i64) -> i64, x: i64) -> i64 { f(x) }
pub trait Tr { fn get(&self, x: i64) -> i64; fn put(&mut self, x: i64); fn mk(x: i64) -> Self where Self: Sized; fn dflt(&mut self, v: i64) { self.put(v); } }
impl Tr for S1 { fn get(&self, x: i64) -> i64 { self.a.wrapping_add(x) } fn put(&mut self, x: i64) { self.a = x; } fn mk(x: i64) -> S1 { S1 { a: x, b: 1 } } }
impl Tr for S2 { fn get(&self, x: i64) -> i64 { self.c ^ x } fn put(&mut self, x: i64) { self.s.b = x; self.c = x; } fn mk(x: i64) -> S2 { S2 { s: S1 { a: 1, b: x }, c: x } } }
pub fn h_tput<T: Tr>(t: &mut T, x: i64) { t.put(x); }
pub fn h_tget<T: Tr + ?Sized>(t: &T, x: i64) -> i64 { t.get(x) }
impl S1 {
  pub fn sum(&self) -> i64 { self.a.wrapping_add(self.b) }
  pub fn set(&mut self, v: i64) { self.b = v; }
  pub fn bump(&mut self) -> i64 { self.a = self.a.wrapping_add(self.b); self.b }
  pub fn am(&mut self) -> &mut i64 { &mut self.a }
  pub fn br(&self) -> &i64 { &self.b }
  pub fn with(self, v: i64) -> S1 { S1 { a: v, b: self.a } }
}
impl std::ops::Add for S1 { type Output = S1; fn add(self, o: S1) -> S1 { S1 { a: self.a.wrapping_add(o.a), b: self.b.wrapping_add(o.b) } } }
impl std::ops::AddAssign<i64> for S1 { fn add_assign(&mut self, o: i64) { self.b = self.b.wrapping_add(o); } }
#[inline(never)] pub fn dv() -> ! { std::panic::panic_any(900u32) }
#[inline(never)] pub fn ex(n: u32) { unsafe { (*std::ptr::addr_of_mut!(rtm::TRACE)).push((1_000_000 + n, 0)); } }

// readers of what holders of references point to
pub fn h_pr1(s: &R1) -> i64 { *s.r ^ s.n.wrapping_mul(3) }
pub fn h_mr1(s: R1) -> i64 { (*s.r).wrapping_add(s.n.rotate_left(7)) }
pub fn h_pr2(s: &R2) -> i64 { *s.q ^ s.p.a.wrapping_mul(5) ^ s.p.b }
pub fn h_mr2(s: R2) -> i64 { (*s.q).wrapping_sub(s.p.b) ^ s.p.a }
pub fn h_pt2(t: &(&mut i64, &mut i64)) -> i64 { *t.0 ^ (*t.1).wrapping_mul(9) }
pub fn h_mt2(t: (&mut i64, &mut i64)) -> i64 { (*t.0).wrapping_sub((*t.1).wrapping_mul(9)) }
pub fn h_prr(r: &&mut i64) -> i64 { (**r).wrapping_mul(7) }
pub fn h_prs(r: &&mut S1) -> i64 { r.a.wrapping_mul(7) ^ r.b }
pub fn h_pq1(q: &Q1) -> i64 { *q.r ^ q.n }
pub trait Rdx { fn rdx(&self) -> i64; fn pass(self) -> Self where Self: Sized { self } }
impl Rdx for &mut i64 { fn rdx(&self) -> i64 { (**self).wrapping_mul(11) } }
impl Rdx for &mut S1 { fn rdx(&self) -> i64 { self.a.wrapping_mul(11) ^ self.b } }
impl Rdx for R1<'_> { fn rdx(&self) -> i64 { *self.r ^ self.n } }
impl Rdx for R2<'_> { fn rdx(&self) -> i64 { *self.q ^ self.p.a ^ self.p.b.wrapping_mul(2) } }
impl Rdx for (&mut i64, &mut i64) { fn rdx(&self) -> i64 { *self.0 ^ (*self.1).wrapping_mul(13) } }
pub fn h_gmv<T: Rdx>(t: T) -> i64 { t.rdx() }
pub fn h_gpr<T: Rdx>(t: &T) -> i64 { t.rdx() }
pub fn h_gst<T: Rdx>(t: T, o: &mut i64) { *o = t.rdx(); }
pub fn h_mkadd<'a>(p: &'a mut i64, s: i64) -> impl FnMut(i64) + 'a { move |y| *p = y.wrapping_mul(s) }
