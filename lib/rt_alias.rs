// ---- log of what pointers point to ----
pub mod __al {
  use std::collections::BTreeMap;
  pub struct Frame { f: &'static str, regs: Vec<(&'static str, usize, usize)> }
  pub static mut FRAMES: Vec<Frame> = Vec::new();
  pub static mut LOG: BTreeMap<(&'static str, &'static str, Vec<(&'static str, usize)>, usize), u64> = BTreeMap::new();
  pub static mut SEEN: [u64; 2] = [0, 0];
  fn frames() -> &'static mut Vec<Frame> { unsafe { &mut *std::ptr::addr_of_mut!(FRAMES) } }
  pub struct Guard;
  impl Drop for Guard { fn drop(&mut self) { frames().pop(); } }
  #[inline(never)] pub fn enter(f: &'static str) -> Guard { frames().push(Frame { f, regs: Vec::new() }); Guard }
  #[inline(never)] pub fn reg<T: ?Sized>(id: &'static str, p: *const T) {
    let n = unsafe { std::mem::size_of_val(&*p) };
    let a = p as *const u8 as usize;
    if n == 0 { return; }
    let r = &mut frames().last_mut().unwrap().regs;
    r.retain(|x| x.0 != id);
    r.push((id, a, n));
  }
  #[inline(never)] pub fn ptr<T: ?Sized>(id: &'static str, p: *const T) {
    let n = unsafe { std::mem::size_of_val(&*p) };
    let a = p as *const u8 as usize;
    unsafe { SEEN[0] += 1; }
    if n == 0 { return; }
    let f = frames().last().unwrap();
    let hit: Vec<_> = f.regs.iter().filter(|(_, b, m)| *b <= a && a < b + m).map(|(r, b, _)| (*r, a - b)).collect();
    if hit.is_empty() { return; }
    unsafe { SEEN[1] += 1; }
    *unsafe { &mut *std::ptr::addr_of_mut!(LOG) }.entry((f.f, id, hit, n)).or_default() += 1;
  }
  pub fn dump() {
    let log = unsafe { &*std::ptr::addr_of!(LOG) };
    for ((f, id, h, n), c) in log { println!("A\t{f}\t{id}\t{n}\t{c}\t{}", h.iter().map(|(r, o)| format!("{r}@{o}")).collect::<Vec<_>>().join("\t")); }
    unsafe { println!("T\t{}\t{}", SEEN[0], SEEN[1]); }
  }
}
