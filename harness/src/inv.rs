//! `fvh inv FILE`: invariants of the analysis on every body of a file.
//!
//! Each monitor is an independent restatement of what the code promises, evaluated on what the
//! code actually computed: fixpoint equations (fix), forward/both/batch slices (slice), place
//! algebra (place), mutation reports (mut), repeatability (rep), mode order (mode).

use std::hash::{Hash, Hasher};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

use rustc_data_structures::fx::FxHashMap;

use either::Either;
use flowistry::{
  extensions::EVAL_MODE,
  infoflow::{
    self, Direction, FlowAnalysis, FlowDomain, FlowResults,
    mutation::{ModularMutationVisitor, Mutation, MutationStatus},
  },
  mir::placeinfo::PlaceInfo,
};
use fluid_let::fluid_set;
use indexical::ToIndex;
use rustc_borrowck::consumers::BodyWithBorrowckFacts;
use rustc_hir::{BodyId, def_id::LocalDefId};
use rustc_middle::{
  mir::{
    visit::{PlaceContext, Visitor},
    *,
  },
  ty::{TyCtxt, TyKind},
};
use rustc_mir_dataflow::{Analysis, JoinSemiLattice};
use rustc_utils::{
  BodyExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::{LocationOrArg, index::LocationOrArgIndex},
  },
};
use serde_json::{Value, json};

use crate::common::*;

pub fn main(args: &[String]) -> i32 {
  let o = parse_opts(args);
  let mut out = Value::Null;
  let ok = with_file(&o.file, &o.extra, |tcx| {
    quiet_panics();
    out = run(tcx, &o);
  });
  if !ok {
    return 3;
  }
  write_json(&o.out, &out);
  0
}

pub type Flat<'tcx> = FxHashMap<Place<'tcx>, Vec<u32>>;

/// Rows with their dependencies as sorted indices of the location domain.
pub fn flat<'tcx>(state: &FlowDomain<'tcx>) -> Flat<'tcx> {
  let mut m = Flat::default();
  for (p, s) in state.rows() {
    let mut ds: Vec<u32> = s.indices().map(|l| l.index() as u32).collect();
    ds.sort();
    if !ds.is_empty() {
      m.insert(*p, ds);
    }
  }
  m
}

/// A stable text: places and locations by name.
pub fn text(state: &FlowDomain<'_>) -> String {
  let mut v: Vec<String> = flat(state).into_iter().map(|(p, d)| format!("{p:?}{d:?}")).collect();
  v.sort();
  v.join(";")
}

pub struct Rep {
  pub evals: BTreeMap<&'static str, u64>,
  pub nontrivial: BTreeMap<&'static str, u64>,
  pub viol: Vec<Value>,
  pub name: String,
}
impl Rep {
  pub fn ev(&mut self, k: &'static str, nontrivial: bool) {
    *self.evals.entry(k).or_default() += 1;
    if nontrivial {
      *self.nontrivial.entry(k).or_default() += 1;
    }
  }
  pub fn bad(&mut self, k: &'static str, what: String) {
    if self.viol.len() < 200 {
      self.viol.push(json!({"check": k, "fn": self.name, "what": what}));
    }
  }
}

fn run(tcx: TyCtxt<'_>, o: &Opts) -> Value {
  let want = |s: &str| o.flags.is_empty() || o.flags.iter().any(|f| f == s);
  let mut rep = Rep { evals: BTreeMap::new(), nontrivial: BTreeMap::new(), viol: vec![], name: String::new() };
  let mut nb = 0u64;
  let mut sizes = vec![];
  let (mut locs, mut skipped) = (0u64, 0u64);
  let max_locs: usize = std::env::var("FVH_MAX_LOCS").ok().and_then(|s| s.parse().ok()).unwrap_or(1200);
  let mut all = bodies(tcx);
  rotate(&mut all);
  let t0 = std::time::Instant::now();
  let budget: f64 = std::env::var("FVH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
  let mut fps: BTreeMap<String, Value> = BTreeMap::new();
  for (def_id, body_id, name) in &all {
    if let Some(only) = &o.only {
      if !name.rsplit("::").next().unwrap().starts_with(only.as_str()) {
        continue;
      }
    }
    if t0.elapsed().as_secs_f64() > budget {
      skipped += 1;
      continue;
    }
    let r = guarded(|| get_body_with_borrowck_facts(tcx, *def_id));
    let Ok(bwf) = r else {
      skipped += 1;
      continue;
    };
    let n = bwf.body.all_locations().count();
    if n > max_locs {
      skipped += 1;
      continue;
    }
    nb += 1;
    locs += n as u64;
    sizes.push(n);
    rep.name = name.clone();
    if std::env::var("FVH_TRACE").is_ok() {
      eprintln!("{name} {n}");
    }
    let t1 = std::time::Instant::now();
    let r = guarded(|| one(tcx, *def_id, *body_id, bwf, &want, &mut rep, &mut fps));
    if let Err(e) = r {
      rep.bad("crash", e);
    }
    let dt = t1.elapsed().as_secs_f64();
    if dt > 20.0 {
      rep.bad("slow", format!("{dt:.1} s for {n} locations"));
    }
  }
  json!({"bodies": nb, "locations": locs, "skipped": skipped, "evals": rep.evals, "nontrivial": rep.nontrivial,
         "viol": rep.viol, "fp": if want("fp") { json!(fps) } else { Value::Null }})
}

fn one<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: LocalDefId,
  body_id: BodyId,
  bwf: &'tcx BodyWithBorrowckFacts<'tcx>,
  want: &dyn Fn(&str) -> bool,
  rep: &mut Rep,
  fps: &mut BTreeMap<String, Value>,
) {
  let body = &bwf.body;
  let results = infoflow::compute_flow(tcx, body_id, bwf);
  let _ = rep.ev("run", body.basic_blocks.len() > 1);
  if want("fp") {
    let mut m = BTreeMap::new();
    for loc in body.all_locations() {
      m.insert(loc_str(loc), text(results.state_at(loc)));
    }
    let mir = body.all_locations().map(|l| match body.stmt_at(l) { Either::Left(Statement { kind: StatementKind::FakeRead(b), .. }) => format!("FakeRead({:?})", b.1), Either::Left(s) => format!("{:?}", s.kind), Either::Right(t) => format!("{:?}", t.kind) }).collect::<Vec<_>>().join("\n");
    let mir = no_names(&no_positions(&mir));
    let mut row = json!({"mir": hash(&mir), "state": hash(&no_positions(&format!("{m:?}"))), "n": m.len(),
                         "rows": m.values().map(|t| t.matches(';').count()).sum::<usize>()});
    if std::env::var("FVH_FPTEXT").is_ok() {
      row["text"] = json!(m);
      row["mirtext"] = json!(mir);
    }
    let mut v = fps.remove(&rep.name).and_then(|v| v.as_array().cloned()).unwrap_or_default();
    v.push(row);
    v.sort_by_key(|v| v.to_string());
    fps.insert(rep.name.clone(), json!(v));
  }
  if want("fix") {
    fixpoint(tcx, def_id, body, bwf, &results, rep);
  }
  if want("slice") {
    slices(tcx, body, &results, rep);
  }
  if want("place") {
    places(tcx, def_id, body, &results, rep);
  }
  if want("mut") {
    mutations(tcx, body, &results, rep);
  }
  if want("rep") {
    repeat(tcx, body_id, bwf, &results, rep);
  }
  if want("modeord") {
    modes(tcx, body_id, bwf, &results, rep);
  }
}

/// Closure and coroutine types are printed with the place where they are written.
pub fn no_positions(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.split('@');
  out.push_str(it.next().unwrap_or(""));
  for part in it {
    let cut = part.find('}').unwrap_or(0);
    out.push('@');
    out.push_str(&part[cut..]);
  }
  out
}

/// Captured variables are printed with their names.
pub fn no_names(s: &str) -> String {
  let mut out = String::new();
  for (i, part) in s.split(": ").enumerate() {
    if i > 0 {
      out.push_str(": ");
    }
    out.push_str(part.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_' || c == '#'));
  }
  out
}

pub fn hash(s: &str) -> String {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  format!("{h:016x}")
}

// ---------------------------------------------------------------- fixpoint (C11)

/// Round-robin solver with separate entry and exit states.
fn fixpoint<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: LocalDefId,
  body: &'tcx Body<'tcx>,
  bwf: &'tcx BodyWithBorrowckFacts<'tcx>,
  results: &FlowResults<'_, 'tcx>,
  rep: &mut Rep,
) {
  let pi = PlaceInfo::build(tcx, def_id.to_def_id(), bwf);
  let dom = pi.location_domain().clone();
  let mut an = FlowAnalysis::new(tcx, def_id.to_def_id(), body, pi);
  let n = body.basic_blocks.len();
  let mut entry: Vec<FlowDomain<'tcx>> = (0..n).map(|_| FlowDomain::new(&dom)).collect();
  let mut reached = vec![false; n];
  an.initialize_start_block(body, &mut entry[0]);
  reached[0] = true;
  let mut post: BTreeMap<(usize, usize), FlowDomain<'tcx>> = BTreeMap::new();
  let mut rounds = 0;
  loop {
    let mut changed = false;
    rounds += 1;
    for b in 0..n {
      if !reached[b] {
        continue;
      }
      let bb = BasicBlock::from_usize(b);
      let data = &body.basic_blocks[bb];
      let mut s = entry[b].clone();
      for i in 0..=data.statements.len() {
        let loc = Location { block: bb, statement_index: i };
        match body.stmt_at(loc) {
          Either::Left(st) => an.apply_primary_statement_effect(&mut s, st, loc),
          Either::Right(t) => {
            an.apply_primary_terminator_effect(&mut s, t, loc);
          }
        }
        post.insert((b, i), s.clone());
      }
      for succ in data.terminator().successors() {
        let c = succ.as_usize();
        if !reached[c] {
          reached[c] = true;
          changed = true;
        }
        changed |= entry[c].join(&s);
      }
    }
    if !changed {
      break;
    }
    if rounds > 10_000 {
      rep.bad("fix", "reference solver does not converge".into());
      return;
    }
  }
  for loc in body.all_locations() {
    let key = (loc.block.as_usize(), loc.statement_index);
    let got = flat(results.state_at(loc));
    if !reached[key.0] {
      continue;
    }
    let want = flat(&post[&key]);
    rep.ev("fix", rounds > 2 && !want.is_empty());
    if got != want {
      let mut d = vec![];
      let names = |v: Option<&Vec<u32>>, w: Option<&Vec<u32>>| -> Vec<String> {
        v.into_iter().flatten().filter(|x| !w.map(|w| w.contains(x)).unwrap_or(false)).map(|x| dep_str(*dom.value(LocationOrArgIndex::new(*x as usize)))).collect()
      };
      for k in want.keys().chain(got.keys()).collect::<HashSet<_>>() {
        let (w, g) = (want.get(k), got.get(k));
        if w != g {
          d.push(format!("{k:?}: missing {:?} surplus {:?}", names(w, g), names(g, w)));
        }
      }
      d.sort();
      rep.bad("fix", format!("state at {} is not the least solution: {}", loc_str(loc), d.join("; ").chars().take(600).collect::<String>()));
    }
  }
}

// ---------------------------------------------------------------- slices (C07)

pub fn targets_of<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>) -> Vec<(Place<'tcx>, LocationOrArg)> {
  let mut v = vec![];
  for a in body.args_iter() {
    v.push((Place::from_local(a, tcx), LocationOrArg::Arg(a)));
  }
  for loc in body.all_locations() {
    match body.stmt_at(loc) {
      Either::Left(Statement { kind: StatementKind::Assign(b), .. }) => v.push((b.0, LocationOrArg::Location(loc))),
      Either::Right(Terminator { kind: TerminatorKind::Call { destination, args, .. }, .. }) => {
        v.push((*destination, LocationOrArg::Location(loc)));
        for a in args.iter() {
          if let Some(p) = a.node.place() {
            v.push((p, LocationOrArg::Location(loc)));
          }
        }
      }
      Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => {
        if let Some(p) = discr.place() {
          v.push((p, LocationOrArg::Location(loc)));
        }
      }
      Either::Right(Terminator { kind: TerminatorKind::Return, .. }) => {
        v.push((Place::from_local(RETURN_PLACE, tcx), LocationOrArg::Location(loc)));
      }
      _ => {}
    }
  }
  v
}

fn set_of(s: &rustc_utils::mir::location_or_arg::index::LocationOrArgSet) -> BTreeSet<Dep> {
  s.iter().map(|l| Dep(*l)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Dep(pub LocationOrArg);
impl Dep {
  fn key(&self) -> (usize, usize) {
    match self.0 {
      LocationOrArg::Arg(a) => (a.as_usize(), usize::MAX),
      LocationOrArg::Location(l) => (l.block.as_usize(), l.statement_index),
    }
  }
}
impl PartialOrd for Dep {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for Dep {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    self.key().cmp(&o.key())
  }
}
impl std::fmt::Debug for Dep {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(&dep_str(self.0))
  }
}

fn slices<'tcx>(tcx: TyCtxt<'tcx>, body: &'tcx Body<'tcx>, results: &FlowResults<'_, 'tcx>, rep: &mut Rep) {
  let pi = &results.analysis.place_info;
  let mut targets = targets_of(tcx, body);
  let max = 120;
  if targets.len() > max {
    let step = targets.len() / max + 1;
    targets = targets.into_iter().step_by(step).collect();
  }
  let reach = rustc_middle::mir::traversal::reachable_as_bitset(body);
  // what each location writes or branches on, with its dependencies there
  let mut writes: Vec<(Location, BTreeSet<Dep>)> = vec![];
  for loc in body.all_locations() {
    let st = results.state_at(loc);
    match body.stmt_at(loc) {
      Either::Right(Terminator { kind: TerminatorKind::SwitchInt { discr, .. }, .. }) => {
        if let Some(p) = discr.place() {
          writes.push((loc, set_of(st.row_set(&pi.normalize(p)))));
        }
      }
      _ => {
        let mut ms = vec![];
        ModularMutationVisitor::new(pi, |_, m| ms.extend(m.into_iter().map(|m| m.mutated))).visit_location(body, loc);
        for m in ms {
          writes.push((loc, set_of(st.row_set(&pi.normalize(m)))));
        }
      }
    }
  }
  let all: BTreeSet<Dep> = body.all_locations().map(|l| Dep(LocationOrArg::Location(l))).chain(body.args_iter().map(|a| Dep(LocationOrArg::Arg(a)))).collect();
  let mut expect_f = vec![];
  let mut expect_b = vec![];
  for (p, at) in &targets {
    let l = match at {
      LocationOrArg::Arg(_) => Location::START,
      LocationOrArg::Location(l) => *l,
    };
    let st = results.state_at(l);
    let mut out = BTreeSet::new();
    for r in pi.reachable_values(*p, Mutability::Not).iter().chain([p]) {
      let mut need = all.clone();
      for c in pi.children(pi.normalize(*r)) {
        let row = set_of(st.row_set(&c));
        need = need.intersection(&row).cloned().collect();
      }
      need.insert(Dep(*at));
      if need.len() == 1 && let LocationOrArg::Arg(_) = at {
        out.insert(Dep(*at));
      }
      for a in body.args_iter() {
        let s = Dep(LocationOrArg::Arg(a));
        if need.len() == 1 && need.contains(&s) {
          out.insert(s);
        }
      }
      for (m, deps) in &writes {
        if need.is_subset(deps) {
          out.insert(Dep(LocationOrArg::Location(*m)));
        }
      }
    }
    expect_f.push(out);
    expect_b.push(match at {
      LocationOrArg::Arg(_) => BTreeSet::from([Dep(*at)]),
      LocationOrArg::Location(_) => set_of(&results.analysis.deps_for(st, *p)),
    });
  }
  let batch = |d| infoflow::compute_dependencies(results, targets.iter().map(|t| vec![*t]).collect(), d);
  let (f, b, both) = (batch(Direction::Forward), batch(Direction::Backward), batch(Direction::Both));
  for i in 0..targets.len() {
    let t = format!("{:?} at {}", targets[i].0, dep_str(targets[i].1));
    let (gf, gb, gboth) = (set_of(&f[i]), set_of(&b[i]), set_of(&both[i]));
    rep.ev("slice", gf.len() > 1);
    if gf != expect_f[i] {
      rep.bad("slice", format!("forward slice of {t} is {gf:?}, expected {:?}", expect_f[i]));
    }
    if gb != expect_b[i] {
      rep.bad("slice", format!("backward slice of {t} is {gb:?}, expected {:?}", expect_b[i]));
    }
    let u: BTreeSet<_> = gf.union(&gb).cloned().collect();
    if gboth != u {
      rep.bad("slice", format!("both-directions slice of {t} is not the union: {:?}", gboth.symmetric_difference(&u)));
    }
    // a written place is always influenced by its own write
    if let LocationOrArg::Location(l) = targets[i].1 {
      let written = matches!(body.stmt_at(l), Either::Left(_)) || matches!(body.stmt_at(l), Either::Right(Terminator { kind: TerminatorKind::Call { destination, .. }, .. }) if *destination == targets[i].0);
      if written && reach.contains(l.block) && !raw(tcx, body, targets[i].0) && !gb.contains(&Dep(LocationOrArg::Location(l))) {
        rep.bad("slice", format!("{t} does not depend on the location that writes it: {gb:?}"));
      }
    }
  }
  // grouping targets gives the union of the single answers
  let k = targets.len();
  for (lo, hi) in [(0, k), (k / 3, 2 * k / 3), (0, k.min(2)), (k.saturating_sub(3), k)] {
    if hi <= lo {
      continue;
    }
    for (d, single) in [(Direction::Forward, &f), (Direction::Backward, &b), (Direction::Both, &both)] {
      let g = infoflow::compute_dependencies(results, vec![targets[lo..hi].to_vec(), vec![targets[lo]]], d);
      let mut u = BTreeSet::new();
      for s in &single[lo..hi] {
        u.extend(set_of(s));
      }
      rep.ev("group", hi - lo > 1);
      let gg = set_of(&g[0]);
      if gg != u {
        rep.bad("slice", format!("{d:?} slice of targets {lo}..{hi} together differs from the union of the single ones: {:?}", gg.symmetric_difference(&u)));
      }
      if set_of(&g[1]) != set_of(&single[lo]) {
        rep.bad("slice", format!("{d:?} slice of a target depends on the other groups asked for"));
      }
    }
  }
}

// ---------------------------------------------------------------- place algebra (C13)

struct AllPlaces<'tcx>(HashSet<Place<'tcx>>, Vec<Place<'tcx>>);
impl<'tcx> Visitor<'tcx> for AllPlaces<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, c: PlaceContext, l: Location) {
    if matches!(c, PlaceContext::NonUse(_)) { return; }
    if self.0.insert(*p) {
      self.1.push(*p);
    }
    self.super_place(p, c, l);
  }
}

fn is_prefix<'tcx>(a: Place<'tcx>, b: Place<'tcx>) -> bool {
  a.local == b.local && a.projection.len() <= b.projection.len() && a.projection.iter().zip(b.projection.iter()).all(|(x, y)| same_elem(x, y))
}
fn same_elem<'tcx>(x: PlaceElem<'tcx>, y: PlaceElem<'tcx>) -> bool {
  use ProjectionElem::*;
  match (x, y) {
    (Field(i, _), Field(j, _)) => i == j,
    (Downcast(_, i), Downcast(_, j)) => i == j,
    (Deref, Deref) => true,
    (Index(_) | ConstantIndex { .. }, Index(_) | ConstantIndex { .. }) => true,
    (a, b) => std::mem::discriminant(&a) == std::mem::discriminant(&b),
  }
}

/// Is there a raw pointer, or a type nested in itself, on the way from `p` to `r`?
fn cyclic<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, p: Place<'tcx>, r: Place<'tcx>) -> bool {
  let mut seen = HashSet::new();
  let _ = p;
  for i in 0..=r.projection.len() {
    let t = Place::make(r.local, &r.projection[..i], tcx).ty(body.local_decls(), tcx);
    if t.variant_index.is_some() { continue; }
    if t.ty.is_raw_ptr() { return true; }
    if let TyKind::Adt(a, _) = t.ty.kind() && !a.is_box() && (!seen.insert(a.did()) || recursive_adt(tcx, a.did())) { return true; }
    if t.ty.is_box() && t.ty.walk().filter_map(|a| a.as_type()).any(|t| matches!(t.kind(), TyKind::Adt(a, _) if !a.is_box() && recursive_adt(tcx, a.did()))) { return true; }
  }
  p.projection.iter().enumerate().any(|(i, e)| matches!(e, ProjectionElem::Deref) && Place::make(p.local, &p.projection[..i], tcx).ty(body.local_decls(), tcx).ty.is_raw_ptr())
}

/// Whether a value of the type can contain another one of it (through a box)
fn recursive_adt(tcx: TyCtxt<'_>, root: rustc_span::def_id::DefId) -> bool {
  let mut seen = HashSet::new();
  let mut todo = vec![root];
  while let Some(d) = todo.pop() {
    for f in tcx.adt_def(d).all_fields() {
      for t in tcx.type_of(f.did).instantiate_identity().walk().filter_map(|a| a.as_type()) {
        if let TyKind::Adt(a, _) = t.kind() {
          if a.did() == root { return true; }
          if seen.len() < 200 && seen.insert(a.did()) { todo.push(a.did()); }
        }
      }
    }
  }
  false
}

fn raw<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, p: Place<'tcx>) -> bool {
  p.projection.iter().enumerate().any(|(i, e)| matches!(e, ProjectionElem::Deref) && Place::make(p.local, &p.projection[..i], tcx).ty(body.local_decls(), tcx).ty.is_raw_ptr())
}

fn places<'tcx>(tcx: TyCtxt<'tcx>, def_id: LocalDefId, body: &'tcx Body<'tcx>, results: &FlowResults<'_, 'tcx>, rep: &mut Rep) {
  let pi = &results.analysis.place_info;
  let mut c = AllPlaces(HashSet::new(), vec![]);
  c.visit_body(body);
  for l in body.local_decls.indices() {
    let p = Place::from_local(l, tcx);
    if c.0.insert(p) { c.1.push(p); }
  }
  let base = c.1.clone();
  for p in &base {
    for q in pi.children(*p).into_iter().take(24) {
      if c.0.insert(q) { c.1.push(q); }
    }
  }
  let ps: Vec<_> = c.1.into_iter().take(400).collect();
  let deref_free = |p: &Place<'tcx>| !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref));
  for p in &ps {
    let p = *p;
    let nontriv = !p.projection.is_empty();
    rep.ev("place", nontriv);
    // children
    let ch = pi.children(p);
    if !ch.contains(&p) {
      rep.bad("place", format!("{p:?} is not among its own children {ch:?}"));
    }
    for q in &ch {
      if !is_prefix(p, *q) {
        rep.bad("place", format!("child {q:?} of {p:?} is not inside it"));
      }
      if (p.projection.len()..q.projection.len()).any(|i| matches!(q.projection[i], ProjectionElem::Deref) && Place::make(q.local, &q.projection[..i], tcx).ty(body.local_decls(), tcx).ty.is_ref()) {
        rep.bad("place", format!("child {q:?} of {p:?} goes through a reference"));
      }
      for r in pi.children(*q) {
        // recursive types are cut at their first repetition, raw pointers are opaque
        if cyclic(tcx, body, p, r) { continue; }
        if !ch.iter().any(|x| pi.normalize(*x) == pi.normalize(r)) {
          rep.bad("place", format!("{r:?} is a child of {q:?}, a child of {p:?}, but not a child of {p:?}"));
        }
      }
    }
    // completeness of the children against the type
    let ty = p.ty(body.local_decls(), tcx);
    if ty.variant_index.is_none() {
      let nf = match ty.ty.kind() {
        TyKind::Tuple(t) => Some(t.len()),
        TyKind::Adt(a, _) if a.is_struct() && a.all_fields().all(|f| f.vis.is_accessible_from(def_id.to_def_id(), tcx)) => Some(a.all_fields().count()),
        _ => None,
      };
      if let Some(nf) = nf {
        let direct: BTreeSet<usize> = ch
          .iter()
          .filter(|q| q.projection.len() == p.projection.len() + 1)
          .filter_map(|q| match q.projection[p.projection.len()] {
            ProjectionElem::Field(f, _) => Some(f.as_usize()),
            _ => None,
          })
          .collect();
        if direct.len() != nf {
          rep.bad("place", format!("{p:?} has {nf} fields but the children {ch:?}"));
        }
      }
    }
    // conflicts
    let cf = pi.conflicts(p);
    for q in &ch {
      if !cf.contains(q) {
        rep.bad("place", format!("child {q:?} of {p:?} does not conflict with it"));
      }
    }
    for q in cf.iter() {
      if !(is_prefix(p, *q) || is_prefix(*q, p)) {
        rep.bad("place", format!("{q:?} conflicts with {p:?} but does not overlap it"));
      }
    }
    // every parent up to the last reference conflicts
    for i in (0..p.projection.len()).rev() {
      let par = Place::make(p.local, &p.projection[..i], tcx);
      if matches!(p.projection[i], ProjectionElem::Deref) && !par.ty(body.local_decls(), tcx).ty.is_box() {
        break;
      }
      if !cf.iter().any(|q| q.projection.len() == i && is_prefix(*q, p)) {
        rep.bad("place", format!("parent {par:?} of {p:?} does not conflict with it: {cf:?}"));
      }
    }
    if deref_free(&p) {
      for q in cf.iter().filter(|q| deref_free(q) && !matches!(q.projection.last(), Some(ProjectionElem::Downcast(..)))) {
        if !pi.conflicts(*q).iter().any(|r| pi.normalize(*r) == pi.normalize(p)) {
          rep.bad("place", format!("{q:?} conflicts with {p:?} but not the other way round"));
        }
      }
    }
    // normalize
    let n = pi.normalize(p);
    if pi.normalize(n) != n {
      rep.bad("place", format!("normalising {p:?} twice gives {:?} after {n:?}", pi.normalize(n)));
    }
    // (a sub-slice counts as the whole slice)
    let shape: Vec<_> = p.projection.iter().filter(|e| !matches!(e, ProjectionElem::Subslice { .. })).collect();
    let nshape: Vec<_> = n.projection.iter().filter(|e| !matches!(e, ProjectionElem::Subslice { .. })).collect();
    if n.local != p.local || nshape.len() != shape.len() || !nshape.iter().zip(&shape).all(|(x, y)| same_elem(*x, *y)) {
      rep.bad("place", format!("normalised {p:?} is {n:?}"));
    }
    // aliases
    let al = pi.aliases(p);
    if !al.iter().any(|q| pi.normalize(*q) == n) {
      rep.bad("place", format!("{p:?} is not among its aliases {al:?}"));
    }
    if deref_free(&p) && al.len() != 1 {
      rep.bad("place", format!("{p:?} involves no pointer but has the aliases {al:?}"));
    }
    // reachable
    let m = pi.reachable_values(p, Mutability::Mut);
    let i = pi.reachable_values(p, Mutability::Not);
    for q in m.iter() {
      if !i.contains(q) {
        rep.bad("place", format!("{q:?} is mutably but not immutably reachable from {p:?}"));
      }
    }
    if deref_free(&p) && !(m.contains(&p) && i.contains(&p)) {
      rep.bad("place", format!("{p:?} is not reachable from itself"));
    }
    for q in i.iter() {
      let tyk = p.ty(body.local_decls(), tcx).ty;
      let has_ptr = tyk.walk().any(|a| a.as_type().map(|t| t.is_any_ptr() || t.is_box() || matches!(t.kind(), TyKind::Adt(..) | TyKind::Closure(..) | TyKind::Dynamic(..) | TyKind::FnPtr(..) | TyKind::FnDef(..) | TyKind::Alias(..) | TyKind::Param(..) | TyKind::Coroutine(..) | TyKind::CoroutineClosure(..)  | TyKind::CoroutineWitness(..))).unwrap_or(false));
      if *q != p && !has_ptr {
        rep.bad("place", format!("{q:?} is reachable from {p:?}, whose type {tyk:?} holds no pointer"));
      }
    }
  }
  // arguments
  let init = {
    let dom = pi.location_domain().clone();
    let mut s: FlowDomain<'tcx> = FlowDomain::new(&dom);
    results.analysis.initialize_start_block(body, &mut s);
    flat(&s)
  };
  let dom: BTreeSet<String> = pi.location_domain().as_vec().iter().map(|l| dep_str(*l)).collect();
  for l in body.args_iter() {
    let s = dep_str(LocationOrArg::Arg(l));
    if !dom.contains(&s) {
      rep.bad("place", format!("argument {l:?} is not in the location domain"));
    }
    let want = |p: Place<'tcx>, rep: &mut Rep| {
      for q in pi.children(p) {
        rep.ev("arg", true);
        let k = pi.normalize(q);
        if !init.get(&k).map(|d| d.contains(&(l.to_index(pi.location_domain()).index() as u32))).unwrap_or(false) {
          rep.bad("place", format!("{q:?} is reachable from argument {l:?} but does not start with its dependency"));
        }
      }
    };
    let p = Place::from_local(l, tcx);
    want(p, rep);
    if body.local_decls[l].ty.is_ref() {
      want(tcx.mk_place_deref(p), rep);
    }
  }
  for (k, d) in &init {
    if d.len() != 1 {
      rep.bad("place", format!("{k:?} starts with the dependencies {d:?}"));
    }
  }
  for loc in body.all_locations() {
    if !dom.contains(&loc_str(loc)) {
      rep.bad("place", format!("{} is not in the location domain", loc_str(loc)));
    }
  }
}

// ---------------------------------------------------------------- mutations (C14)

fn visible_all<'tcx>(tcx: TyCtxt<'tcx>, pi_def: rustc_hir::def_id::DefId, adt: rustc_middle::ty::AdtDef<'tcx>) -> bool {
  adt.all_fields().all(|f| f.vis.is_accessible_from(pi_def, tcx))
}

fn rvalue_inputs<'tcx>(rv: &Rvalue<'tcx>) -> Vec<Place<'tcx>> {
  let op = |o: &Operand<'tcx>| o.place();
  match rv {
    Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::ShallowInitBox(o, _) | Rvalue::WrapUnsafeBinder(o, _) => op(o).into_iter().collect(),
    Rvalue::BinaryOp(_, b) => [op(&b.0), op(&b.1)].into_iter().flatten().collect(),
    Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Len(p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) => vec![*p],
    Rvalue::Aggregate(_, ops) => ops.iter().filter_map(op).collect(),
    _ => vec![],
  }
}

fn indexes<'tcx>(p: Place<'tcx>, tcx: TyCtxt<'tcx>) -> Vec<Place<'tcx>> {
  p.projection
    .iter()
    .filter_map(|e| match e {
      ProjectionElem::Index(l) => Some(Place::from_local(l, tcx)),
      _ => None,
    })
    .collect()
}

fn mutations<'tcx>(tcx: TyCtxt<'tcx>, body: &'tcx Body<'tcx>, results: &FlowResults<'_, 'tcx>, rep: &mut Rep) {
  let pi = &results.analysis.place_info;
  let did = results.analysis.def_id;
  for loc in body.all_locations() {
    let mut ms: Vec<Mutation<'tcx>> = vec![];
    let mut at = vec![];
    ModularMutationVisitor::new(pi, |l, m| {
      at.push(l);
      ms.extend(m)
    })
    .visit_location(body, loc);
    let show = |ms: &Vec<Mutation<'tcx>>| ms.iter().map(|m| format!("{:?} {:?}<-{:?}", m.status, m.mutated, m.inputs)).collect::<Vec<_>>().join(", ");
    if at.iter().any(|l| *l != loc) {
      rep.bad("mut", format!("mutations of {loc:?} reported at {at:?}"));
    }
    if at.len() > 1 {
      rep.bad("mut", format!("{loc:?} is reported {} times", at.len()));
    }
    let norm = |p: Place<'tcx>| pi.normalize(p);
    let has_input = |m: &Mutation<'tcx>, p: Place<'tcx>| m.inputs.iter().any(|i| is_prefix(norm(*i), norm(p)) && i.projection.len() <= p.projection.len());
    match body.stmt_at(loc) {
      Either::Left(Statement { kind: StatementKind::Assign(b), .. }) => {
        let (p, rv) = (&b.0, &b.1);
        let indexed = p.projection.iter().any(|e| matches!(e, ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } | ProjectionElem::Subslice { .. }));
        rep.ev("mut", !rvalue_inputs(rv).is_empty());
        if ms.is_empty() {
          rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} reports no mutation"));
          continue;
        }
        for m in &ms {
          if !is_prefix(*p, m.mutated) {
            rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} reports a mutation of {:?}", m.mutated));
          }
          match (&m.status, indexed) {
            (MutationStatus::Definitely, true) => rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} is a definite mutation of {:?}, but the other elements keep their values", m.mutated)),
            (MutationStatus::Possibly, false) => rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} is only a possible mutation of {:?}", m.mutated)),
            _ => {}
          }
          for ix in indexes(*p, tcx) {
            if !has_input(m, ix) {
              rep.bad("mut", format!("{loc:?}: the index {ix:?} is not an input of {p:?} = {rv:?}: {}", show(&ms)));
            }
          }
          // no invented inputs: each one is read by the statement
          let reads: Vec<_> = rvalue_inputs(rv);
          let idx: Vec<_> = reads.iter().chain([p]).flat_map(|q| indexes(*q, tcx)).collect();
          for i in &m.inputs {
            if !reads.iter().chain(&idx).any(|r| is_prefix(norm(*r), norm(*i)) || is_prefix(norm(*i), norm(*r))) {
              rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} does not read the reported input {i:?}"));
            }
          }
        }
        // the whole of p is covered
        let whole = ms.iter().any(|m| m.mutated == *p);
        if !whole {
          let ty = p.ty(body.local_decls(), tcx);
          let depth = p.projection.len();
          let fields = |d: usize| -> BTreeSet<usize> {
            ms.iter().filter_map(|m| match m.mutated.projection.get(d) { Some(ProjectionElem::Field(f, _)) => Some(f.as_usize()), _ => None }).collect()
          };
          let ok = match (ty.ty.kind(), rv) {
            (TyKind::Tuple(t), _) => fields(depth).len() == t.len(),
            (TyKind::Adt(a, _), Rvalue::Aggregate(k, ops)) if a.is_enum() => {
              let AggregateKind::Adt(_, v, ..) = &**k else { unreachable!() };
              ms.iter().all(|m| matches!(m.mutated.projection.get(depth), Some(ProjectionElem::Downcast(_, w)) if w == v)) && fields(depth + 1).len() == ops.len()
            }
            (TyKind::Adt(a, _), Rvalue::Aggregate(_, ops)) if a.is_union() => fields(depth).len() >= ops.len().min(1),
            // the destination may have an opaque type
            (TyKind::Alias(..), Rvalue::Aggregate(_, ops)) => fields(depth).len() == ops.len() || fields(depth + 1).len() == ops.len(),
            (TyKind::Adt(a, _), _) if a.is_struct() => fields(depth).len() == a.all_fields().count(),
            _ => false,
          };
          if !ok {
            rep.bad("mut", format!("{loc:?}: {p:?} = {rv:?} is not wholly reported: {}", show(&ms)));
          }
        }
        // inputs
        match rv {
          Rvalue::Aggregate(k, ops) if !whole => {
            let d = p.projection.len() + usize::from(matches!(&**k, AggregateKind::Adt(a, ..) if tcx.adt_def(*a).is_enum()));
            for (i, o) in ops.iter().enumerate() {
              let Some(q) = o.place() else { continue };
              let isunion = matches!(&**k, AggregateKind::Adt(_, _, _, _, Some(_)));
              for m in &ms {
                let f = matches!(m.mutated.projection.get(d), Some(ProjectionElem::Field(f, _)) if f.as_usize() == i);
                if f && !isunion && !has_input(m, q) {
                  rep.bad("mut", format!("{loc:?}: {q:?} is not an input of field {i} in {p:?} = {rv:?}: {}", show(&ms)));
                }
                if !f && !isunion && m.inputs.iter().any(|x| *x == q) && !ops.iter().enumerate().any(|(j, o)| j != i && o.place() == Some(q)) && !indexes(*p, tcx).contains(&q) {
                  rep.bad("mut", format!("{loc:?}: {q:?} only goes to field {i} but is an input of {:?}", m.mutated));
                }
              }
            }
          }
          Rvalue::Use(o) if !whole => {
            let q = o.place().unwrap();
            let n = p.projection.len();
            for m in &ms {
              let f = match m.mutated.projection.get(n) { Some(ProjectionElem::Field(f, _)) => f, _ => continue };
              if !m.inputs.iter().any(|i| norm(*i) == norm(q) || (is_prefix(norm(q), norm(*i)) && matches!(i.projection.get(q.projection.len()), Some(ProjectionElem::Field(g, _)) if *g == *f))) {
                rep.bad("mut", format!("{loc:?}: field {f:?} of {q:?} is not an input of {:?}: {}", m.mutated, show(&ms)));
              }
              let ty = q.ty(body.local_decls(), tcx).ty;
              if let TyKind::Adt(a, _) = ty.kind() && !visible_all(tcx, did, *a) {
                rep.bad("mut", format!("{loc:?}: copy of {ty:?}, which has private fields, is split: {}", show(&ms)));
              }
            }
            for ix in indexes(q, tcx) {
              for m in &ms {
                if !has_input(m, ix) { rep.bad("mut", format!("{loc:?}: index {ix:?} is not an input: {}", show(&ms))); }
              }
            }
          }
          _ => {
            for q in rvalue_inputs(rv) {
              if !ms.iter().all(|m| has_input(m, q)) {
                rep.bad("mut", format!("{loc:?}: {q:?} is not an input of {p:?} = {rv:?}: {}", show(&ms)));
              }
              for ix in indexes(q, tcx) {
                if !ms.iter().all(|m| has_input(m, ix)) {
                  rep.bad("mut", format!("{loc:?}: index {ix:?} is not an input of {p:?} = {rv:?}: {}", show(&ms)));
                }
              }
            }
          }
        }
      }
      Either::Left(_) => {
        rep.ev("mut", false);
        if !ms.is_empty() {
          rep.bad("mut", format!("{loc:?} writes nothing but reports {}", show(&ms)));
        }
      }
      Either::Right(Terminator { kind: TerminatorKind::Call { func, args, destination, .. }, .. }) => {
        rep.ev("mut", true);
        let isasync = tcx.asyncness(did).is_async() || body.coroutine.is_some() || tcx.def_span(did).desugaring_kind().is_some();
        let places: Vec<_> = args.iter().filter_map(|a| a.node.place()).collect();
        let unit = destination.ty(body.local_decls(), tcx).ty.is_unit();
        let dest: Vec<_> = ms.iter().filter(|m| m.mutated == *destination).collect();
        if !dest.iter().any(|m| matches!(m.status, MutationStatus::Definitely)) {
          let indexed = destination.projection.iter().any(|e| matches!(e, ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. }));
          if !indexed {
            rep.bad("mut", format!("{loc:?}: the destination {destination:?} of a call is not a definite mutation: {}", show(&ms)));
          }
        }
        if isasync {
          continue;
        }
        if !unit {
          for a in places.iter().copied().chain(func.place()) {
            if !dest.iter().any(|m| has_input(m, a)) {
              rep.bad("mut", format!("{loc:?}: {a:?} is not an input of the call's result: {}", show(&ms)));
            }
          }
        }
        for a in &places {
          let a_ty = a.ty(body.local_decls(), tcx).ty;
          let reach = pi.reachable_values(*a, Mutability::Mut);
          for r in reach.iter() {
            let mm: Vec<_> = ms.iter().filter(|m| norm(m.mutated) == norm(*r) && matches!(m.status, MutationStatus::Possibly)).collect();
            if mm.is_empty() {
              rep.bad("mut", format!("{loc:?}: {r:?} is mutably reachable from argument {a:?} but not a possible mutation: {}", show(&ms)));
            }
            for i in places.iter().copied().chain(func.place()) {
              if !mm.is_empty() && !mm.iter().any(|m| has_input(m, i)) {
                rep.bad("mut", format!("{loc:?}: {i:?} is not an input of the mutation of {r:?}: {}", show(&ms)));
              }
            }
          }
          // a &mut argument that borrows a known variable must reach something
          if let TyKind::Ref(_, t, Mutability::Mut) = a_ty.kind() && !t.is_unit() {
            let _ = t;
          }
        }
        for m in &ms {
          if m.mutated != *destination && !places.iter().any(|a| pi.reachable_values(*a, Mutability::Mut).iter().any(|r| norm(*r) == norm(m.mutated))) {
            rep.bad("mut", format!("{loc:?}: {:?} is not mutably reachable from any argument", m.mutated));
          }
        }
      }
      Either::Right(t) => {
        rep.ev("mut", matches!(t.kind, TerminatorKind::Drop { .. }));
        let quiet = matches!(
          t.kind,
          TerminatorKind::Goto { .. } | TerminatorKind::SwitchInt { .. } | TerminatorKind::Return | TerminatorKind::Unreachable | TerminatorKind::Assert { .. } | TerminatorKind::FalseEdge { .. } | TerminatorKind::FalseUnwind { .. } | TerminatorKind::UnwindResume
        );
        if quiet && !ms.is_empty() {
          rep.bad("mut", format!("{loc:?}: {:?} writes nothing but reports {}", t.kind, show(&ms)));
        }
        if let TerminatorKind::Drop { place, .. } = t.kind {
          for r in pi.reachable_values(place, Mutability::Mut).iter().filter(|r| **r != place) {
            if !ms.iter().any(|m| m.mutated == *r && has_input(m, place)) {
              rep.bad("mut", format!("{loc:?}: dropping {place:?} may write {r:?}, which is not reported: {}", show(&ms)));
            }
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- repeatability (C10)

pub fn fingerprint<'tcx>(body: &Body<'tcx>, results: &FlowResults<'_, 'tcx>, tcx: TyCtxt<'tcx>) -> String {
  let mut s = String::new();
  for loc in body.all_locations() {
    let mut x: u64 = 0;
    for (p, d) in flat(results.state_at(loc)) {
      let mut h = std::hash::DefaultHasher::new();
      (p.local.as_usize(), p.projection.len(), &d).hash(&mut h);
      for e in p.projection.iter() {
        match e {
          ProjectionElem::Field(f, _) => (1, f.as_usize()).hash(&mut h),
          ProjectionElem::Downcast(_, v) => (2, v.as_usize()).hash(&mut h),
          ProjectionElem::Deref => 3.hash(&mut h),
          _ => 4.hash(&mut h),
        }
      }
      x = x.wrapping_add(h.finish());
    }
    s.push_str(&format!("{} {x};", loc_str(loc)));
  }
  let t = targets_of(tcx, body);
  let step = t.len() / 25 + 1;
  let t: Vec<_> = t.into_iter().step_by(step).collect();
  for d in [Direction::Forward, Direction::Backward, Direction::Both] {
    for x in infoflow::compute_dependencies(results, t.iter().map(|x| vec![*x]).collect(), d) {
      s.push_str(&format!("{:?}\n", set_of(&x)));
    }
  }
  hash(&s)
}

fn repeat<'tcx>(tcx: TyCtxt<'tcx>, body_id: BodyId, bwf: &'tcx BodyWithBorrowckFacts<'tcx>, results: &FlowResults<'_, 'tcx>, rep: &mut Rep) {
  let body = &bwf.body;
  let a = fingerprint(body, results, tcx);
  // again with the same results (warm caches), in reverse order of queries
  let a2 = fingerprint(body, results, tcx);
  if a != a2 {
    rep.bad("rep", "asking the same results again gives other answers".into());
  }
  // a fresh analysis, after other modes were used
  for m in ["IRC", "DRP", "DSC", "ISP"] {
    let mode = parse_mode(m);
    let mut one = vec![];
    for _ in 0..2 {
      fluid_set!(EVAL_MODE, &mode);
      let r = infoflow::compute_flow(tcx, body_id, bwf);
      one.push(fingerprint(body, &r, tcx));
    }
    rep.ev("rep", one[0] != a);
    if one[0] != one[1] {
      rep.bad("rep", format!("two analyses in mode {m} differ"));
    }
  }
  let r = infoflow::compute_flow(tcx, body_id, bwf);
  // the caches are filled in another order: queries on results first
  let pi = &r.analysis.place_info;
  for l in body.local_decls.indices().collect::<Vec<_>>().into_iter().rev() {
    let p = Place::from_local(l, tcx);
    pi.reachable_values(p, Mutability::Mut);
    pi.conflicts(p);
  }
  let b = fingerprint(body, &r, tcx);
  rep.ev("rep", true);
  if a != b {
    rep.bad("rep", "a second default-mode analysis gives another result".into());
  }
}

// ---------------------------------------------------------------- modes (C06)

fn modes<'tcx>(tcx: TyCtxt<'tcx>, body_id: BodyId, bwf: &'tcx BodyWithBorrowckFacts<'tcx>, results: &FlowResults<'_, 'tcx>, rep: &mut Rep) {
  let body = &bwf.body;
  let has_raw = body.local_decls.iter().any(|d| d.ty.walk().any(|a| a.as_type().is_some_and(|t| t.is_raw_ptr())));
  let t = targets_of(tcx, body);
  let step = t.len() / 60 + 1;
  let t: Vec<_> = t.into_iter().step_by(step).collect();
  let q = |r: &FlowResults<'_, 'tcx>| -> Vec<BTreeSet<Dep>> {
    t.iter()
      .map(|(p, l)| match l {
        LocationOrArg::Location(l) => set_of(&r.analysis.deps_for(r.state_at(*l), *p)),
        _ => BTreeSet::new(),
      })
      .collect()
  };
  let base = q(results);
  let mut get = |m: &str| {
    let mode = parse_mode(m);
    fluid_set!(EVAL_MODE, &mode);
    let r = infoflow::compute_flow(tcx, body_id, bwf);
    q(&r)
  };
  for (m, up) in [("ISP", true), ("DSC", true), ("ISC", true), ("DRP", false)] {
    let other = get(m);
    for i in 0..t.len() {
      let ty = t[i].0.ty(body.local_decls(), tcx).ty;
      if !up && (ty.is_unit() || has_raw) { continue; } // a unit carries no information; raw pointers are out of scope
      rep.ev("modes", base[i] != other[i]);
      let bad: Vec<_> = if up { base[i].difference(&other[i]).collect() } else { other[i].difference(&base[i]).collect() };
      if !bad.is_empty() {
        rep.bad(if up { "modes" } else { "modes-rec" }, format!("{:?} at {}: mode {m} {} {bad:?}", t[i].0, dep_str(t[i].1), if up { "loses" } else { "adds" }));
      }
    }
  }
}

#[allow(dead_code)]
pub fn unused() {
  let _: VecDeque<u8> = VecDeque::new();
}
