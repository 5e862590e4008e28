//! `fvh dump FILE`: backward dependencies of every observer call `o(id, x)`.

use flowistry::{
  extensions::EVAL_MODE,
  infoflow::{self, Direction},
};
use fluid_let::fluid_set;
use rustc_middle::{
  mir::{Place, RETURN_PLACE},
  ty::TyCtxt,
};
use rustc_utils::{
  BodyExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg,
  },
};
use serde_json::{Value, json};

use crate::common::*;

fn last_seg(s: &str) -> &str {
  s.rsplit("::").next().unwrap_or(s)
}

pub fn main(args: &[String]) -> i32 {
  let o = parse_opts(args);
  let mut out = Value::Null;
  let ok = with_file(&o.file, &o.extra, |tcx| {
    quiet_panics();
    out = run(tcx, &o);
  });
  if !ok {
    return 3;
  }
  write_json(&o.out, &out);
  0
}

fn run(tcx: TyCtxt<'_>, o: &Opts) -> Value {
  let mut fns = vec![];
  for (def_id, body_id, name) in bodies(tcx) {
    if let Some(only) = &o.only {
      // The body of an async function is a coroutine inside of it.
      let seg = match name.strip_suffix("::{closure#0}") {
        Some(parent) if tcx.is_coroutine(def_id.to_def_id()) => last_seg(parent),
        _ => last_seg(&name),
      };
      if !seg.starts_with(only.as_str()) {
        continue;
      }
    }
    let bwf = get_body_with_borrowck_facts(tcx, def_id);
    let body = &bwf.body;
    let call_sites = calls(tcx, body);
    let calls_json = call_sites
      .iter()
      .map(|c| json!({"loc": loc_str(c.loc), "callee": c.callee, "consts": c.consts.iter().map(|c| c.map(|c| c as i64)).collect::<Vec<_>>()}))
      .collect::<Vec<_>>();
    let mut modes = serde_json::Map::new();
    for m in &o.modes {
      let mode = parse_mode(m);
      fluid_set!(EVAL_MODE, &mode);
      let r = guarded(|| {
        let results = infoflow::compute_flow(tcx, body_id, bwf);
        let mut obs = vec![];
        for c in &call_sites {
          if last_seg(&c.callee) != "o" {
            continue;
          }
          let id = c.consts[0].unwrap_or(-1) as i64;
          // what `o` returns: its argument's value, executed under the call's control context
          let d = results.analysis.deps_for(results.state_at(c.loc), c.dest);
          let mut ds = d.iter().map(|l| dep_str(*l)).collect::<Vec<_>>();
          ds.sort();
          let d2 = infoflow::compute_dependencies(
            &results,
            vec![vec![(c.dest, LocationOrArg::Location(c.loc))]],
            Direction::Backward,
          )
          .remove(0);
          let mut ds2 = d2.iter().map(|l| dep_str(*l)).collect::<Vec<_>>();
          ds2.sort();
          let mut e = json!({"id": id, "loc": loc_str(c.loc), "deps": ds});
          if ds2 != ds {
            e["api_deps"] = json!(ds2);
          }
          obs.push(e);
        }
        // what the caller can see when the function returns: the result and the arguments
        let rets = body.all_returns().collect::<Vec<_>>();
        for (i, local) in std::iter::once(RETURN_PLACE).chain(body.args_iter()).enumerate() {
          let place = Place::from_local(local, tcx);
          let mut ds = rets
            .iter()
            .flat_map(|l| {
              results
                .analysis
                .deps_for(results.state_at(*l), place)
                .iter()
                .map(|l| dep_str(*l))
                .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>();
          ds.sort();
          ds.dedup();
          obs.push(json!({"id": 900000 + i, "loc": "ret", "deps": ds}));
        }
        // forward: which observers are in the slice of each input
        let mut fwd = serde_json::Map::new();
        if o.flags.iter().any(|f| f == "fwd") {
          let mut srcs = vec![];
          for c in &call_sites {
            if last_seg(&c.callee) == "k" {
              srcs.push((loc_str(c.loc), (c.dest, LocationOrArg::Location(c.loc))));
            }
          }
          for l in body.args_iter() {
            srcs.push((dep_str(LocationOrArg::Arg(l)), (Place::from_local(l, tcx), LocationOrArg::Arg(l))));
          }
          let deps = infoflow::compute_dependencies(
            &results,
            srcs.iter().map(|s| vec![s.1]).collect(),
            Direction::Forward,
          );
          for (s, d) in srcs.iter().zip(&deps) {
            let mut ids = call_sites
              .iter()
              .filter(|c| last_seg(&c.callee) == "o" && d.contains(LocationOrArg::Location(c.loc)))
              .map(|c| c.consts[0].unwrap_or(-1) as i64)
              .collect::<Vec<_>>();
            ids.sort();
            ids.dedup();
            fwd.insert(s.0.clone(), json!(ids));
          }
        }
        (obs, fwd)
      });
      modes.insert(m.clone(), match r {
        Ok((obs, fwd)) => json!({"obs": obs, "fwd": fwd}),
        Err(e) => json!({"panic": e}),
      });
    }
    let mut f = json!({
      "name": name,
      "nargs": body.arg_count,
      "nblocks": body.basic_blocks.len(),
      "nlocs": body.basic_blocks.iter().map(|b| b.statements.len() + 1).sum::<usize>(),
      "calls": calls_json,
      "modes": modes,
    });
    if o.full {
      f["mir"] = json!(body.to_string(tcx).unwrap_or_default());
    }
    fns.push(f);
  }
  json!({"fns": fns})
}
