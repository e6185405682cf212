//! Exporter: compiles Rust sources with rustc and dumps, for every function body, the MIR and the
//! answers of flowistry's *public* API as JSON, so that the TLA+ specification can be evaluated
//! against them. It contains no oracle of its own.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate either;
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_type_ir;

mod export;
mod intern;
mod sessions;

use std::{
  panic::{AssertUnwindSafe, catch_unwind},
  path::{Path, PathBuf},
};

use rustc_middle::ty::TyCtxt;
use rustc_utils::{mir::borrowck_facts, source_map::find_bodies::find_bodies};
use serde_json::{Value, json};

#[derive(Clone, Debug)]
pub struct Options {
  pub modes: Vec<String>,
  pub max_places: usize,
  pub max_locs: usize,
  pub parts: Vec<String>,
  /// Sessions to run instead of exporting: file stem -> sequence of sequences of operations.
  pub schedule: Option<Value>,
}

struct Callbacks {
  opts: Options,
  stem: String,
  out: Option<Value>,
}

impl rustc_driver::Callbacks for Callbacks {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    borrowck_facts::enable_mir_simplification();
    config.override_queries = Some(borrowck_facts::override_queries);
  }

  fn after_analysis<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> rustc_driver::Compilation {
    let mut fns = Vec::new();
    let mut bodies = find_bodies(tcx);
    if self.opts.parts.iter().any(|p| p == "ifc") {
      // the information-flow checker also looks into functions that macros generate
      for owner in tcx.hir_body_owners() {
        let body_id = tcx.hir_body_owned_by(owner).id();
        if !bodies.iter().any(|(_, b)| *b == body_id) {
          bodies.push((tcx.hir_span_with_body(tcx.hir_body_owner(body_id)), body_id));
        }
      }
    }
    bodies.sort_by_key(|(sp, _)| (sp.lo(), std::cmp::Reverse(sp.hi())));
    if let Some(s) = &self.opts.schedule {
      let sessions = s[&self.stem].as_array().cloned().unwrap_or_default();
      self.out = Some(sessions::run(tcx, &bodies, &sessions, &self.opts));
      return rustc_driver::Compilation::Stop;
    }
    for (span, body_id) in bodies {
      let def_id = tcx.hir_body_owner_def_id(body_id);
      let name = tcx.def_path_str(def_id.to_def_id());
      let r = catch_unwind(AssertUnwindSafe(|| {
        export::export_fn(tcx, body_id, span, &self.opts)
      }));
      match r {
        Ok(v) => fns.push(v),
        Err(e) => {
          let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
          fns.push(json!({"name": name, "panic": msg}))
        }
      }
    }
    let mut doc = json!({"fns": fns, "impls": export::ifc_impls(tcx)});
    if self.opts.parts.iter().any(|p| p == "spans") {
      doc["bodies"] = export::bodies(tcx);
      doc["text"] = export::text(tcx);
      doc["files"] = export::files(tcx);
    }
    self.out = Some(doc);
    rustc_driver::Compilation::Stop
  }
}

fn run_file(path: &Path, opts: &Options, sysroot: &str) -> Value {
  let mut cb = Callbacks {
    opts: opts.clone(),
    stem: path.file_stem().unwrap().to_string_lossy().to_string(),
    out: None,
  };
  let mut args: Vec<String> = vec![
    "rustc".into(),
    path.display().to_string(),
    "--crate-type".into(),
    "lib".into(),
    "--crate-name".into(),
    std::env::var("VP_CRATE_NAME").unwrap_or_else(|_| "prog".into()),
    "--edition=2024".into(),
    "-Zidentify-regions".into(),
    "-Zmir-opt-level=0".into(),
    "-Zmaximal-hir-to-mir-coverage".into(),
    "--allow".into(),
    "warnings".into(),
    "--sysroot".into(),
    sysroot.into(),
  ];
  if let Ok(extra) = std::env::var("VP_RUSTC_ARGS") {
    args.extend(extra.split_whitespace().map(|s| s.to_string()));
  }
  let res = catch_unwind(AssertUnwindSafe(|| {
    rustc_driver::catch_fatal_errors(|| rustc_driver::run_compiler(&args, &mut cb))
  }));
  match (res, cb.out) {
    (Ok(Ok(())), Some(v)) => v,
    (Err(_), _) => json!({"compile_error": "panic"}),
    _ => json!({"compile_error": "compile"}),
  }
}

fn main() {
  env_logger::init();
  let mut opts = Options {
    modes: vec!["default".into()],
    max_places: 64,
    max_locs: 120,
    parts: vec![],
    schedule: None,
  };
  let mut out_dir = PathBuf::from(".");
  let mut files = Vec::new();
  let mut it = std::env::args().skip(1);
  while let Some(a) = it.next() {
    match a.as_str() {
      "--out" => out_dir = it.next().unwrap().into(),
      "--modes" => opts.modes = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.into()).collect(),
      "--schedule" => {
        let s = std::fs::read_to_string(it.next().unwrap()).unwrap();
        opts.schedule = Some(serde_json::from_str(&s).unwrap());
      }
      "--parts" => opts.parts = it.next().unwrap().split(',').map(|s| s.into()).collect(),
      "--max-places" => opts.max_places = it.next().unwrap().parse().unwrap(),
      "--max-locs" => opts.max_locs = it.next().unwrap().parse().unwrap(),
      _ => files.push(PathBuf::from(a)),
    }
  }
  let sysroot = std::env::var("VP_SYSROOT").unwrap_or_else(|_| {
    let o = std::process::Command::new("rustc")
      .args(["--print", "sysroot"])
      .output()
      .unwrap();
    String::from_utf8(o.stdout).unwrap().trim().to_string()
  });
  std::fs::create_dir_all(&out_dir).unwrap();
  for f in files {
    let mut v = run_file(&f, &opts, &sysroot);
    v["file"] = json!(f.display().to_string());
    let stem = f.file_stem().unwrap().to_string_lossy().to_string();
    let dst = out_dir.join(format!("{stem}.json"));
    let tmp = out_dir.join(format!("{stem}.json.tmp"));
    std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).unwrap();
    std::fs::rename(&tmp, &dst).unwrap();
  }
}
