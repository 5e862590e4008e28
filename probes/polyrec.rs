// a type whose expansion never repeats: rustc accepts it
pub struct InfR<'a, T>(&'a mut T, Option<&'a mut InfR<'a, &'a mut T>>);
pub fn infr<'a>(x: InfR<'a, i32>) -> i32 { *x.0 += 1; if let Some(b) = x.1 { **b.0 = 4; } 3 }
