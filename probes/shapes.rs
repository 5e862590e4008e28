pub enum ShOne { P(i64, i64) }
pub enum ShNamed { N { a: i64, b: i64 } }
pub enum ShGen<T, U> { G(T, U) }
pub enum ShRef<'a> { M(&'a mut i64, i64) }
pub struct ShUnit;
pub struct ShIn { pub e: ShOne, pub u: ShUnit, pub z: i64 }
pub struct ShT<T>(pub T, pub (T, [T; 2]));
pub enum ShNest { O(ShOne, ShNamed) }
pub enum ShMany { A, B(i64, (i64, i64)), C { x: ShOne, y: i64 }, D(Option<(i64, i64)>) }
//# f_sh_one | f_sh_one(v[0], v[1]); | 1 2
pub fn f_sh_one(a: i64, b: i64) { let p = ShOne::P(k(0).wrapping_add(a), b); let ShOne::P(x, y) = p; o(1, x); o(2, y); }
//# f_sh_named | f_sh_named(v[0]); | 1
pub fn f_sh_named(a: i64) { let mut p = ShNamed::N { b: k(0), a }; if k(1) > 0 { p = ShNamed::N { a: k(2), b: 3 }; } match p { ShNamed::N { a, b } => { o(1, a); o(2, b); } } }
//# f_sh_gen | o(900000, f_sh_gen(v[0])); | 1
pub fn f_sh_gen(a: i64) -> i64 { let t = k(0); let ShGen::G(x, ShGen::G(y, z)) = ShGen::G(t, ShGen::G(a, k(1))); o(1, x); o(2, y); z }
//# f_sh_ref | let mut q = v[0]; f_sh_ref(&mut q, v[1]); | 1 2
pub fn f_sh_ref(r: &mut i64, a: i64) { let n = k(0); let ShRef::M(p, w) = ShRef::M(r, n); *p = w; o(1, *p); let mut l = a; { let ShRef::M(m, _) = ShRef::M(&mut l, 1); *m = k(2); } o(2, l); }
//# f_sh_assign | f_sh_assign(v[0]); | 1
pub fn f_sh_assign(a: i64) { let mut p = ShOne::P(a, k(0)); let ShOne::P(ref mut x, _) = p; *x = k(1); let ShOne::P(x, y) = p; o(1, x); o(2, y); }
//# f_sh_in | f_sh_in(v[0]); | 1
pub fn f_sh_in(a: i64) { let e = k(0); let s = ShIn { u: ShUnit, z: k(1), e: ShOne::P(e, a) }; let ShIn { e: ShOne::P(m, n), z, .. } = s; o(1, m); o(2, n); o(3, z); }
//# f_sh_nest | f_sh_nest(v[0]); | 1
pub fn f_sh_nest(a: i64) { let b = k(0); let ShNest::O(ShOne::P(p, q), ShNamed::N { a: r, b: s }) = ShNest::O(ShOne::P(a, b), ShNamed::N { a: k(1), b: k(2) }); o(1, p); o(2, q); o(3, r); o(4, s); }
//# f_sh_tup | f_sh_tup(v[0]); | 1
pub fn f_sh_tup(a: i64) { let t = ShT(k(0), (a, [k(1), k(2)])); let ShT(x, (y, [z, w])) = t; o(1, x); o(2, y); o(3, z); o(4, w); }
//# f_sh_many | f_sh_many(v[0]); | 1
pub fn f_sh_many(a: i64) { let m = if k(0) > 0 { ShMany::B(k(1), (a, k(2))) } else if k(3) > 0 { ShMany::C { y: k(4), x: ShOne::P(k(5), a) } } else if k(6) > 0 { ShMany::D(Some((k(7), a))) } else { ShMany::A };
  match m { ShMany::A => { o(1, 0); } ShMany::B(x, (y, z)) => { o(2, x); o(3, y); o(4, z); } ShMany::C { x: ShOne::P(p, q), y } => { o(5, p); o(6, q); o(7, y); } ShMany::D(Some((x, y))) => { o(8, x); o(9, y); } ShMany::D(None) => { o(10, 1); } } }
//# f_sh_upd | f_sh_upd(v[0]); | 1
pub fn f_sh_upd(a: i64) { let s = ShIn { u: ShUnit, z: k(0), e: ShOne::P(k(1), 5) }; let t = ShIn { z: a, ..s }; let ShOne::P(x, y) = t.e; o(1, x); o(2, y); o(3, t.z); }
//# f_sh_arr | f_sh_arr(v[0]); | 1
pub fn f_sh_arr(a: i64) { let r = [ShOne::P(k(0), a), ShOne::P(1, k(1))]; for ShOne::P(x, y) in r { o(1, x); o(2, y); } }
