//! Running rustc on one file and handing every body to a callback.

use std::{cell::RefCell, panic::{self, AssertUnwindSafe}};

use flowistry::extensions::{ContextMode, EvalMode, MutabilityMode, PointerMode};
use rustc_hir::{BodyId, def_id::LocalDefId};
use rustc_middle::{
  mir::{Body, Location, Operand, Place, TerminatorKind},
  ty::{TyCtxt, TyKind},
};
use rustc_utils::{
  mir::{borrowck_facts, location_or_arg::LocationOrArg},
  source_map::find_bodies::find_bodies,
};

pub fn sysroot() -> String {
  if let Ok(s) = std::env::var("FVH_SYSROOT") {
    return s;
  }
  let out = std::process::Command::new("rustc")
    .args(["--print", "sysroot"])
    .output()
    .expect("rustc --print sysroot")
    .stdout;
  String::from_utf8(out).unwrap().trim().to_owned()
}

struct Cb<F> {
  f: Option<F>,
  simplify: bool,
}

impl<F: FnOnce(TyCtxt<'_>) + Send> rustc_driver::Callbacks for Cb<F> {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    if self.simplify {
      borrowck_facts::enable_mir_simplification();
    }
    config.override_queries = Some(borrowck_facts::override_queries);
  }

  fn after_analysis(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'_>,
  ) -> rustc_driver::Compilation {
    (self.f.take().unwrap())(tcx);
    rustc_driver::Compilation::Stop
  }
}

/// Compiles `file` (errors go to stderr) and runs `f`. Returns false on a build error.
pub fn with_file(
  file: &str,
  extra: &[String],
  f: impl FnOnce(TyCtxt<'_>) + Send,
) -> bool {
  let mut args: Vec<String> = vec!["rustc".into(), file.into()];
  if !extra.iter().any(|a| a == "--crate-type") {
    args.extend(["--crate-type".into(), "lib".into()]);
  }
  if !extra.iter().any(|a| a.starts_with("--edition")) {
    args.push("--edition=2024".into());
  }
  for a in [
    "-Zidentify-regions",
    "-Zmir-opt-level=0",
    "-Zmaximal-hir-to-mir-coverage",
    "--allow",
    "warnings",
    "--sysroot",
  ] {
    args.push(a.into());
  }
  args.push(sysroot());
  args.extend(extra.iter().cloned());
  let mut cb = Cb { f: Some(f), simplify: true };
  let ok = rustc_driver::catch_fatal_errors(|| {
    rustc_driver::run_compiler(&args, &mut cb);
  })
  .is_ok();
  ok && cb.f.is_none()
}

/// All bodies of the crate (functions, methods, closures) in source order.
pub fn bodies(tcx: TyCtxt<'_>) -> Vec<(LocalDefId, BodyId, String)> {
  let mut v = find_bodies(tcx)
    .into_iter()
    .map(|(span, b)| {
      let d = tcx.hir_body_owner_def_id(b);
      (span.lo(), d, b, tcx.def_path_str(d.to_def_id()))
    })
    .collect::<Vec<_>>();
  v.sort_by_key(|t| (t.0, t.3.clone()));
  v.into_iter().map(|(_, d, b, n)| (d, b, n)).collect()
}

pub fn parse_mode(s: &str) -> EvalMode {
  EvalMode {
    mutability_mode: if s.contains('I') {
      MutabilityMode::IgnoreMut
    } else {
      MutabilityMode::DistinguishMut
    },
    context_mode: if s.contains('R') {
      ContextMode::Recurse
    } else {
      ContextMode::SigOnly
    },
    pointer_mode: if s.contains('C') {
      PointerMode::Conservative
    } else {
      PointerMode::Precise
    },
  }
}

pub fn loc_str(l: Location) -> String {
  format!("bb{}[{}]", l.block.as_usize(), l.statement_index)
}

pub fn dep_str(l: LocationOrArg) -> String {
  match l {
    LocationOrArg::Location(l) => loc_str(l),
    LocationOrArg::Arg(a) => format!("a{}", a.as_usize()),
  }
}

pub struct CallSite<'tcx> {
  pub loc: Location,
  pub callee: String,
  pub consts: Vec<Option<i128>>,
  pub args: Vec<Option<Place<'tcx>>>,
  pub dest: Place<'tcx>,
}

pub fn const_int<'tcx>(tcx: TyCtxt<'tcx>, op: &Operand<'tcx>) -> Option<i128> {
  let Operand::Constant(c) = op else { return None };
  let ty = c.const_.ty();
  let si = c.const_.try_to_scalar_int()?;
  match ty.kind() {
    TyKind::Int(_) => Some(si.to_int(si.size())),
    TyKind::Uint(_) => Some(si.to_uint(si.size()) as i128),
    TyKind::Bool => Some(si.to_uint(si.size()) as i128),
    _ => {
      let _ = tcx;
      None
    }
  }
}

pub fn calls<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>) -> Vec<CallSite<'tcx>> {
  let mut out = vec![];
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    if let TerminatorKind::Call { func, args, destination, .. } = &data.terminator().kind {
      let callee = match func.constant().map(|c| *c.const_.ty().kind()) {
        Some(TyKind::FnDef(d, _)) => tcx.def_path_str(d),
        _ => "?".to_string(),
      };
      out.push(CallSite {
        loc: body.terminator_loc(bb),
        callee,
        consts: args.iter().map(|a| const_int(tcx, &a.node)).collect(),
        args: args.iter().map(|a| a.node.place()).collect(),
        dest: *destination,
      });
    }
  }
  out
}

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
  panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".into()
    };
    let at = info.location().map(|l| l.to_string()).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {at}")));
  }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  LAST_PANIC.with(|p| *p.borrow_mut() = None);
  panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
    LAST_PANIC
      .with(|p| p.borrow_mut().take())
      .unwrap_or_else(|| "panic".into())
  })
}

pub struct Opts {
  pub file: String,
  pub out: String,
  pub modes: Vec<String>,
  pub only: Option<String>,
  pub full: bool,
  pub flags: Vec<String>,
  pub extra: Vec<String>,
}

pub fn parse_opts(args: &[String]) -> Opts {
  let mut o = Opts {
    file: String::new(),
    out: String::new(),
    modes: vec!["DSP".into()],
    only: None,
    full: false,
    flags: vec![],
    extra: vec![],
  };
  let mut i = 0;
  while i < args.len() {
    match args[i].as_str() {
      "--out" => {
        i += 1;
        o.out = args[i].clone();
      }
      "--modes" => {
        i += 1;
        o.modes = args[i].split(',').map(|s| s.to_string()).collect();
      }
      "--only" => {
        i += 1;
        o.only = Some(args[i].clone());
      }
      "--full" => o.full = true,
      "--" => {
        o.extra = args[i + 1 ..].to_vec();
        break;
      }
      a if a.starts_with("--") => o.flags.push(a[2 ..].to_string()),
      a => o.file = a.to_string(),
    }
    i += 1;
  }
  o
}

pub fn write_json(path: &str, v: &serde_json::Value) {
  if path.is_empty() {
    println!("{}", serde_json::to_string_pretty(v).unwrap());
  } else {
    std::fs::write(path, serde_json::to_vec(v).unwrap()).unwrap();
  }
}

/// Under a budget, different seeds get to see different bodies of a large file.
pub fn rotate<T>(v: &mut [T]) {
  let rot: u64 = std::env::var("FVH_ROT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
  if v.len() > 1 {
    let k = (rot.wrapping_mul(0x9e3779b97f4a7c15) >> 33) as usize % v.len();
    v.rotate_left(k);
  }
}
