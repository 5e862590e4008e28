
// ---- native driver ----
struct __F {
  name: &'static str,
  nk: usize,
  na: usize,
  run: fn(&[i64]),
}
fn __collect(f: &__F, kv: &[i64], av: &[i64]) -> Option<std::collections::BTreeMap<u32, Vec<i64>>> {
  unsafe {
    for (i, v) in kv.iter().enumerate() { rtm::K[i] = *v; }
    (*std::ptr::addr_of_mut!(rtm::TRACE)).clear();
  }
  let r = std::panic::catch_unwind(|| (f.run)(av));
  let mut m = std::collections::BTreeMap::new();
  // dv() is an end like any other; other panics are not looked at
  if let Err(e) = r { if e.downcast_ref::<u32>() != Some(&900) { return None; } m.insert(1_000_900, vec![0]); }
  unsafe {
    for (id, v) in (*std::ptr::addr_of!(rtm::TRACE)).iter() {
      m.entry(*id).or_insert_with(Vec::new).push(*v);
    }
  }
  Some(m)
}
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let a: Vec<String> = std::env::args().collect();
  let seed: u64 = a[1].parse().unwrap();
  let nbase: usize = a[2].parse().unwrap();
  let nalt: usize = a[3].parse().unwrap();
  let mut out = String::new();
  for f in __TABLE {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    for b in f.name.bytes() { s = (s ^ b as u64).wrapping_mul(0x100000001B3); }
    let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    let mut val = || -> i64 {
      let r = rnd();
      match r % 8 { 0 => 0, 1 => 1, 2..=5 => ((r >> 8) % 9) as i64 - 3, 6 => ((r >> 8) % 64) as i64, _ => ((r >> 8) % 4001) as i64 - 2000 }
    };
    let n = f.nk + f.na;
    let mut seen: std::collections::BTreeSet<(u32, usize)> = Default::default();
    let mut exec: std::collections::BTreeMap<u32, u64> = Default::default();
    let mut traces: std::collections::BTreeSet<Vec<(u32, Vec<i64>)>> = Default::default();
    let (mut runs, mut pan, mut exs) = (0u64, 0u64, 0u64);
    for bi in 0..nbase {
      let base: Vec<i64> = (0..n).map(|_| val()).collect();
      runs += 1;
      let Some(b) = __collect(f, &base[..f.nk], &base[f.nk..]) else { pan += 1; continue };
      for (id, v) in &b { *exec.entry(*id).or_default() += v.len() as u64; }
      traces.insert(b.iter().map(|(i, v)| (*i, v.clone())).collect());
      for j in 0..n {
        for ai in 0..nalt {
          let mut p = base.clone();
          let mut nv = match ai { 0 => p[j] ^ 1, 1 => p[j].wrapping_neg().wrapping_sub(1), 2 => p[j].wrapping_add(2), _ => val() };
          if nv == p[j] { nv = nv.wrapping_add(3); }
          p[j] = nv;
          runs += 1;
          let Some(q) = __collect(f, &p[..f.nk], &p[f.nk..]) else { pan += 1; continue };
          if q == b { continue; }
          // runs that leave through different exits are not compared
          // (except at the points from which a function never returns)
          let same = b.range(1_000_000..).eq(q.range(1_000_000..));
          if !same { exs += 1; }
          for id in b.keys().chain(q.keys()) {
            if *id < 1_000_000 && (same || (500_000..600_000).contains(id)) && b.get(id) != q.get(id) && seen.insert((*id, j)) {
              out.push_str(&format!("I {} {} {} {:?} {} {} {:?} {:?}\n", f.name, id, j, base, j, nv,
                 b.get(id).map(|v| v.iter().take(6).collect::<Vec<_>>()), q.get(id).map(|v| v.iter().take(6).collect::<Vec<_>>())).replace(", ", ","));
            }
          }
        }
      }
    }
    out.push_str(&format!("S {} runs={} panics={} traces={} exitdiff={}\n", f.name, runs, pan, traces.len(), exs));
    for (id, n) in exec { if id >= 1_000_000 { continue; } out.push_str(&format!("E {} {} {}\n", f.name, id, n)); }
  }
  print!("{}", out);
}
