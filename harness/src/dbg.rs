//! `fvh dbg FILE --only PREFIX`: human-readable view of aliases, mutations and states.
use flowistry::{infoflow, infoflow::mutation::ModularMutationVisitor};
use rustc_middle::{mir::{visit::Visitor, Mutability}, ty::TyCtxt};
use rustc_utils::{BodyExt, mir::borrowck_facts::get_body_with_borrowck_facts};
use crate::common::*;

pub fn main(args: &[String]) -> i32 {
  let o = parse_opts(args);
  with_file(&o.file, &o.extra, |tcx| run(tcx, &o));
  0
}
fn run(tcx: TyCtxt<'_>, o: &Opts) {
  for (def_id, body_id, name) in bodies(tcx) {
    if let Some(p) = &o.only { if !name.contains(p.as_str()) { continue; } }
    let bwf = get_body_with_borrowck_facts(tcx, def_id);
    let body = &bwf.body;
    println!("{}", body.to_string(tcx).unwrap());
    let r = infoflow::compute_flow(tcx, body_id, bwf);
    let pi = &r.analysis.place_info;
    for loc in body.all_locations() {
      println!("-- {loc:?}");
      ModularMutationVisitor::new(pi, |_, ms| {
        for m in ms {
          println!("   {:?} {:?} <- {:?}  aliases {:?} reach {:?}", m.status, m.mutated, m.inputs, pi.aliases(m.mutated), pi.reachable_values(m.mutated, Mutability::Not));
        }
      }).visit_location(body, loc);
      println!("   state {:?}", r.state_at(loc));
    }
  }
}
