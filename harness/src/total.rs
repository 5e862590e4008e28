//! `fvh total FILE`: runs every query of the analysis on every body and reports panics and times.

use flowistry::{
  extensions::EVAL_MODE,
  infoflow::{self, Direction},
};
use fluid_let::fluid_set;
use rustc_middle::ty::TyCtxt;
use rustc_utils::{mir::borrowck_facts::get_body_with_borrowck_facts, source_map::spanner::Spanner, BodyExt};
use serde_json::{Value, json};

use crate::{common::*, inv::targets_of};

pub fn main(args: &[String]) -> i32 {
  let o = parse_opts(args);
  let mut out = Value::Null;
  let ok = with_file(&o.file, &o.extra, |tcx| {
    quiet_panics();
    out = run(tcx, &o);
  });
  if out.is_null() && !ok {
    return 3;
  }
  write_json(&o.out, &out);
  0
}

fn run(tcx: TyCtxt<'_>, o: &Opts) -> Value {
  let max_locs: usize = std::env::var("FVH_MAX_LOCS").ok().and_then(|s| s.parse().ok()).unwrap_or(3000);
  let budget: f64 = std::env::var("FVH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
  let full: usize = std::env::var("FVH_TARGETS").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
  let progress = std::env::var("FVH_PROGRESS").ok();
  let note = |s: &str| {
    if let Some(p) = &progress {
      let _ = std::fs::write(p, s);
    }
  };
  let t0 = std::time::Instant::now();
  let (mut nb, mut nl, mut skipped, mut nofacts, mut runs, mut queries) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
  let mut viol = vec![];
  let mut slowest: (f64, String, usize) = (0.0, String::new(), 0);
  let mut kinds = std::collections::BTreeMap::<String, u64>::new();
  let mut owners: Vec<_> = tcx.hir_body_owners().collect();
  rotate(&mut owners);
  for def_id in owners {
    let Some(body_id) = tcx.hir_node_by_def_id(def_id).body_id() else { continue };
    let name = tcx.def_path_str(def_id.to_def_id());
    if t0.elapsed().as_secs_f64() > budget {
      skipped += 1;
      continue;
    }
    note(&format!("borrowck of {name}"));
    let Ok(bwf) = guarded(|| get_body_with_borrowck_facts(tcx, def_id)) else {
      nofacts += 1;
      continue;
    };
    let body = &bwf.body;
    let n = body.all_locations().count();
    if n > max_locs {
      skipped += 1;
      continue;
    }
    nb += 1;
    nl += n as u64;
    for bb in body.basic_blocks.iter() {
      for s in &bb.statements {
        *kinds.entry(format!("stmt:{}", stmt_kind(&s.kind))).or_default() += 1;
      }
      *kinds.entry(format!("term:{}", bb.terminator().kind.name())).or_default() += 1;
    }
    let t1 = std::time::Instant::now();
    for m in &o.modes {
      note(&format!("{name} ({n} locations) mode {m}"));
      let mode = parse_mode(m);
      fluid_set!(EVAL_MODE, mode);
      let mut step = "flow";
      let r = guarded(|| {
        let results = infoflow::compute_flow(tcx, body_id, bwf);
        runs += 1;
        step = "dependencies";
        let mut ts = targets_of(tcx, body);
        if ts.len() > full {
          let k = ts.len() / full + 1;
          ts = ts.into_iter().step_by(k).collect();
        }
        for d in [Direction::Backward, Direction::Forward, Direction::Both] {
          let deps = infoflow::compute_dependencies(&results, vec![ts.clone()], d);
          queries += ts.len() as u64;
          drop(deps);
        }
        step = "spans";
        // (rustc_utils' Spanner takes functions and closures only, the bodies the tool offers)
        if tcx.hir_body_owner_kind(def_id).is_fn_or_closure() {
        let spanner = Spanner::new(tcx, body_id, body);
        let groups: Vec<_> = spanner.mir_span_tree.iter().map(|s| s.locations.iter().map(|l| (s.place, *l)).collect::<Vec<_>>()).collect();
        let groups: Vec<_> = if groups.len() > full { let k = groups.len() / full + 1; groups.into_iter().step_by(k).collect() } else { groups };
        queries += groups.len() as u64;
        let _ = infoflow::compute_dependency_spans(&results, groups, Direction::Both, &spanner);
        }
        step = "places";
        let pi = &results.analysis.place_info;
        for p in body.all_places(tcx, def_id.to_def_id()) {
          let _ = pi.aliases(p).iter().count();
          let _ = pi.children(p).len();
          let _ = pi.conflicts(p).len();
          let _ = pi.normalize(p);
          for mu in [rustc_middle::mir::Mutability::Not, rustc_middle::mir::Mutability::Mut] {
            let _ = pi.reachable_values(p, mu).len();
          }
          queries += 6;
        }
      });
      if let Err(e) = r {
        viol.push(json!({"fn": name, "mode": m, "step": step, "what": e, "locations": n}));
      }
    }
    let dt = t1.elapsed().as_secs_f64();
    if dt > slowest.0 {
      slowest = (dt, name.clone(), n);
    }
  }
  note("done");
  json!({"bodies": nb, "locations": nl, "skipped": skipped, "no_facts": nofacts, "runs": runs, "queries": queries, "viol": viol, "kinds": kinds,
         "slowest": {"s": slowest.0, "fn": slowest.1, "locations": slowest.2}})
}

fn stmt_kind(k: &rustc_middle::mir::StatementKind<'_>) -> String {
  use rustc_middle::mir::{Rvalue::*, StatementKind};
  match k {
    StatementKind::Assign(b) => match &b.1 {
      Use(..) => "Use", Repeat(..) => "Repeat", Ref(..) => "Ref", ThreadLocalRef(..) => "ThreadLocalRef", RawPtr(..) => "RawPtr",
      Len(..) => "Len", Cast(..) => "Cast", BinaryOp(..) => "BinaryOp", NullaryOp(..) => "NullaryOp", UnaryOp(..) => "UnaryOp",
      Discriminant(..) => "Discriminant", Aggregate(..) => "Aggregate", ShallowInitBox(..) => "ShallowInitBox", CopyForDeref(..) => "CopyForDeref",
      _ => "other rvalue",
    }.to_string(),
    k => k.name().to_string(),
  }
}
