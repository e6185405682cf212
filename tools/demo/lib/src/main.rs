//! Compiles a program and runs `check::check` on the analysis of its function `target`.
#![feature(rustc_private)]
#![allow(warnings)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
mod check;
use rustc_middle::{mir::*, ty::TyCtxt};
use rustc_utils::{mir::borrowck_facts, source_map::find_bodies::find_bodies};

struct Cb;
impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::Config) {
    borrowck_facts::enable_mir_simplification();
    config.override_queries = Some(borrowck_facts::override_queries);
  }
  fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
    for (_, body_id) in find_bodies(tcx) {
      let def_id = tcx.hir_body_owner_def_id(body_id);
      if tcx.def_path_str(def_id.to_def_id()) == "target" {
        let facts = borrowck_facts::get_body_with_borrowck_facts(tcx, def_id);
        check::check(tcx, body_id, facts);
        println!("checked");
      }
    }
    rustc_driver::Compilation::Stop
  }
}

/// The local variable of that name.
pub fn local(body: &Body<'_>, name: &str) -> Local {
  body.var_debug_info.iter().find_map(|i| match (i.name.as_str() == name, &i.value) {
    (true, VarDebugInfoContents::Place(p)) if p.projection.is_empty() => Some(p.local),
    _ => None,
  }).expect(name)
}

/// The last location whose source text contains `text`.
pub fn at(tcx: TyCtxt<'_>, body: &Body<'_>, text: &str) -> Location {
  use rustc_utils::BodyExt;
  body.all_locations().filter(|l| {
    let s = tcx.sess.source_map().span_to_snippet(body.source_info(*l).span).unwrap_or_default();
    s.contains(text) && s.len() < text.len() + 12
  }).last().expect(text)
}

fn main() {
  let dir = std::env::args().nth(1).unwrap();
  let src = format!("{dir}/prog.rs");
  std::fs::write(&src, check::SRC).unwrap();
  let args: Vec<String> = ["rustc", &src, "--crate-type", "lib", "--edition=2024", "-Zidentify-regions", "-Zmir-opt-level=0",
    "-Zmaximal-hir-to-mir-coverage", "-Awarnings", "--sysroot", &std::env::var("SYSROOT").unwrap()].iter().map(|s| s.to_string()).collect();
  rustc_driver::run_compiler(&args, &mut Cb);
}
