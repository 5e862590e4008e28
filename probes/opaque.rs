pub trait PrGet { fn g(&self) -> i64; }
pub struct PrPair { pub a: i64, pub b: i64 }
impl PrGet for PrPair { fn g(&self) -> i64 { self.a.wrapping_sub(self.b) } }
//# f_op_some | if let Some(g) = f_op_some(v[0]) { o(900000, g(3)); } | 1
pub fn f_op_some(x: i64) -> Option<impl Fn(i64) -> i64> { let y = k(0); Some(move |z: i64| z.wrapping_add(x).wrapping_mul(y)) }
//# f_op_struct | o(900000, f_op_struct(v[0]).g()); | 1
pub fn f_op_struct(x: i64) -> impl PrGet { let y = k(0); PrPair { a: x, b: y } }
//# f_op_copy | o(900000, f_op_copy(v[0]).g()); | 1
pub fn f_op_copy(x: i64) -> impl PrGet { let y = k(0); let p = PrPair { a: x, b: y }; p }
//# f_op_tup | let (a, g) = f_op_tup(v[0]); o(900000, a.wrapping_mul(7) ^ g(3)); | 1
pub fn f_op_tup(x: i64) -> (i64, impl Fn(i64) -> i64) { let y = k(0); (k(1), move |z: i64| z.wrapping_add(x).wrapping_mul(y)) }
//# f_op_iter | if let Ok(g) = f_op_iter(v[0]) { for z in g { o(900000, z); } } | 1
pub fn f_op_iter(x: i64) -> Result<impl Iterator<Item = i64>, i64> { let v = vec![k(0), x]; Ok(v.into_iter().map(|z| z.wrapping_mul(3))) }
//# f_op_use | f_op_use(v[0]); | 1
pub fn f_op_use(x: i64) { if let Some(g) = pr_some(x, k(0)) { o(1, g(k(1))); } let (a, h) = pr_tup(k(2), k(3)); o(2, a); o(3, h(1)); let s = pr_st(k(4)); o(4, s.g()); }
pub fn pr_some(x: i64, y: i64) -> Option<impl Fn(i64) -> i64> { Some(move |z: i64| z.wrapping_add(x).wrapping_mul(y)) }
pub fn pr_tup(x: i64, y: i64) -> (i64, impl Fn(i64) -> i64) { (x, move |z: i64| z.wrapping_add(y)) }
pub fn pr_st(x: i64) -> impl PrGet { let b = x.wrapping_mul(3); PrPair { a: 1, b } }
