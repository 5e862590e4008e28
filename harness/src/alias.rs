//! `fvh alias FILE --only PREFIX`: for every pointer reachable from a user variable, what the analysis
//! says its target may overlap: as (variable, where in it), with layouts of this compiler.
use std::collections::BTreeMap;
use flowistry::mir::placeinfo::PlaceInfo;
use rustc_middle::{
  mir::{Body, Mutability, Place, PlaceElem, VarDebugInfoContents},
  ty::{TyCtxt, TypingEnv, PseudoCanonicalInput, TyKind, layout::{LayoutCx, TyAndLayout}},
};
use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
use serde_json::{json, Value};
use crate::common::*;

pub fn main(args: &[String]) -> i32 {
  quiet_panics();
  let o = parse_opts(args);
  let mut out = vec![];
  let ok = with_file(&o.file, &o.extra, |tcx| out = run(tcx, &o));
  if !ok { return 3; }
  write_json(&o.out, &json!({ "fns": out }));
  0
}

fn run(tcx: TyCtxt<'_>, o: &Opts) -> Vec<Value> {
  let mut out = vec![];
  for (def_id, _body_id, name) in bodies(tcx) {
    if name.contains("{closure") { continue; }
    let short = name.split("::").last().unwrap_or("").to_string();
    if let Some(p) = &o.only { if !p.split(',').any(|p| short.starts_with(p)) { continue; } }
    let bwf = get_body_with_borrowck_facts(tcx, def_id);
    let r = guarded(|| one(tcx, def_id, bwf));
    out.push(match r { Ok(v) => json!({ "name": short, "v": v }), Err(e) => json!({ "name": short, "panic": e }) });
  }
  out
}

/// Source text of the place, if it has one.
fn expr<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, var: &str, p: Place<'tcx>) -> Option<String> {
  let mut s = var.to_string();
  for (base, elem) in p.iter_projections() {
    let ty = base.ty(&body.local_decls, tcx).ty;
    match elem {
      PlaceElem::Deref => s = format!("(*{s})"),
      PlaceElem::Field(f, _) => match ty.kind() {
        TyKind::Tuple(_) => s = format!("{s}.{}", f.as_usize()),
        TyKind::Adt(d, _) if d.is_struct() && !ty.is_box() => {
          s = format!("{s}.{}", d.non_enum_variant().fields[f].name)
        }
        _ => return None,
      },
      PlaceElem::Index(_) | PlaceElem::ConstantIndex { .. } => s = format!("{s}[0]"),
      _ => return None,
    }
  }
  Some(s)
}

fn one<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: rustc_hir::def_id::LocalDefId,
  bwf: &'tcx rustc_borrowck::consumers::BodyWithBorrowckFacts<'tcx>,
) -> Value {
  let body = &bwf.body;
  let pi = PlaceInfo::build(tcx, def_id.to_def_id(), bwf);
  let mut names: BTreeMap<usize, String> = BTreeMap::new();
  for v in &body.var_debug_info {
    if let VarDebugInfoContents::Place(p) = v.value {
      if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
    }
  }
  // (what it is in: a variable or what one of its pointers points to, offset, size)
  let dec = |p: Place<'tcx>| -> Value {
    let n = names.get(&p.local.as_usize()).cloned();
    let Some(n) = n else { return Value::Null };
    let cut = p.iter_projections().enumerate().filter(|(_, (_, e))| matches!(e, PlaceElem::Deref)).map(|(i, _)| i + 1).last().unwrap_or(0);
    let base = Place::make(p.local, &p.projection[.. cut], tcx);
    let (Some(b), Some((off, size))) = (expr(tcx, body, &n, base), where_in(tcx, body, def_id, p, cut)) else { return Value::Null };
    json!([b, off, size])
  };
  let boxes = names.iter().filter(|(l, _)| body.local_decls[rustc_middle::mir::Local::from_usize(**l)].ty.is_box()).map(|(_, n)| n.clone()).collect::<Vec<_>>();
  let args = names.iter().filter(|(l, _)| **l >= 1 && **l <= body.arg_count).map(|(_, n)| n.clone()).collect::<Vec<_>>();
  let mut vars: BTreeMap<String, BTreeMap<String, Value>> = BTreeMap::new();
  for (local, name) in &names {
    let place = Place::from_local(rustc_middle::mir::Local::from_usize(*local), tcx);
    let ptrs = place.interior_pointers(tcx, body, def_id.to_def_id());
    let e = vars.entry(name.clone()).or_default();
    for (ptr, _) in ptrs.into_values().flatten() {
      let Some(x) = expr(tcx, body, name, ptr) else { continue };
      let target = tcx.mk_place_deref(ptr);
      let mut al = pi.aliases(target).iter().map(|p| dec(*p)).collect::<Vec<_>>();
      let mut re = pi.reachable_values(ptr, Mutability::Not).iter().map(|p| dec(*p)).collect::<Vec<_>>();
      let tx = format!("(*{x})");
      let txt = pi.aliases(target).iter().map(|p| format!("{p:?}")).collect::<Vec<_>>();
      // two variables of one name: whatever either may point to
      if let Some(old) = e.get(&tx) {
        al.extend(old["aliases"].as_array().unwrap().iter().cloned());
        re.extend(old["reach"].as_array().unwrap().iter().cloned());
      }
      e.insert(tx, json!({ "aliases": al, "reach": re, "txt": txt }));
    }
  }
  json!({ "ptrs": vars, "boxes": boxes, "args": args })
}

fn where_in<'tcx>(
  tcx: TyCtxt<'tcx>, body: &Body<'tcx>, def_id: rustc_hir::def_id::LocalDefId, p: Place<'tcx>, cut: usize,
) -> Option<(u64, u64)> {
  let env = TypingEnv::post_analysis(tcx, def_id);
  let lay = |ty| {
    let ty = tcx.erase_regions(ty);
    tcx.layout_of(PseudoCanonicalInput { typing_env: env, value: ty }).ok()
  };
  let cx = LayoutCx::new(tcx, env);
  let base = Place::make(p.local, &p.projection[.. cut], tcx);
  let mut l: TyAndLayout<'tcx> = lay(base.ty(&body.local_decls, tcx).ty)?;
  let mut off = 0u64;
  for elem in p.projection.iter().skip(cut) {
    match elem {
      PlaceElem::Deref => return None,
      PlaceElem::Field(f, _) => {
        off += l.fields.offset(f.as_usize()).bytes();
        l = l.field(&cx, f.as_usize());
      }
      PlaceElem::Downcast(_, v) => l = l.for_variant(&cx, v),
      PlaceElem::Index(_) | PlaceElem::ConstantIndex { .. } | PlaceElem::Subslice { .. } => break,
      PlaceElem::OpaqueCast(t) | PlaceElem::Subtype(t) | PlaceElem::UnwrapUnsafeBinder(t) => l = lay(t)?,
    }
  }
  Some((off, if l.is_sized() { l.size.bytes() } else { u64::MAX / 4 }))
}
