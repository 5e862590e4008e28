// ---- shared prelude: compiled natively and analysed ----
#![allow(warnings)]
mod rtm {
  pub static mut K: [i64; 128] = [0; 128];
  pub static mut TRACE: Vec<(u32, i64)> = Vec::new();
}
#[inline(never)]
pub fn k(i: usize) -> i64 {
  unsafe { rtm::K[i] }
}
#[inline(never)]
pub fn o(id: u32, x: i64) -> i64 {
  unsafe {
    let t = &mut *std::ptr::addr_of_mut!(rtm::TRACE);
    t.push((id, x));
    if t.len() > 4000 { panic!("trace limit"); }
  }
  x
}
