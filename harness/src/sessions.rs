//! Runs sessions of questions (made by spec/History.tla) in one process and logs every answer.
use std::{
  collections::BTreeMap,
  panic::{AssertUnwindSafe, catch_unwind},
};

use fluid_let::fluid_set;
use flowistry::{
  extensions::EVAL_MODE,
  infoflow::{
    self, Direction, FlowResults,
    mutation::{ModularMutationVisitor, MutationStatus},
  },
};
use rustc_hir::BodyId;
use rustc_middle::{
  mir::{visit::Visitor, *},
  ty::TyCtxt,
};
use rustc_span::Span;
use rustc_utils::mir::{
  borrowck_facts::get_body_with_borrowck_facts,
  location_or_arg::{LocationOrArg, index::LocationOrArgSet},
};
use serde_json::{Value, json};

use crate::{Options, export};

struct Handle<'tcx> {
  f: usize,
  mode: String,
  results: FlowResults<'tcx, 'tcx>,
  queries: Vec<Place<'tcx>>,
  targets: Vec<(Place<'tcx>, LocationOrArg)>,
  locs: Vec<Location>,
}

fn hash(s: &str) -> String {
  let mut h: u64 = 0xcbf29ce484222325;
  for b in s.bytes() {
    h ^= b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  format!("{h:016x}")
}

impl<'tcx> Handle<'tcx> {
  fn open(
    tcx: TyCtxt<'tcx>,
    bodies: &[(Span, BodyId)],
    f: usize,
    mode: &str,
    opts: &Options,
  ) -> Self {
    let body_id = bodies[f].1;
    let local = tcx.hir_body_owner_def_id(body_id);
    let bwf = get_body_with_borrowck_facts(tcx, local);
    let body = &bwf.body;
    fluid_set!(EVAL_MODE, export::parse_mode(mode));
    Handle {
      f,
      mode: mode.to_string(),
      results: infoflow::compute_flow(tcx, body_id, bwf),
      queries: export::query_places(tcx, body, local.to_def_id(), opts.max_places),
      targets: export::targets_of(body, tcx, 90),
      locs: rustc_utils::BodyExt::all_locations(body).collect(),
    }
  }

  fn places<'a>(&self, ps: impl IntoIterator<Item = Place<'tcx>>) -> String
  where
    'tcx: 'a,
  {
    let pi = &self.results.analysis.place_info;
    let mut v: Vec<String> = ps.into_iter().map(|p| format!("{:?}", pi.normalize(p))).collect();
    v.sort();
    v.dedup();
    v.join(" ")
  }

  fn set(&self, s: &LocationOrArgSet) -> String {
    let mut v: Vec<String> = s.iter().map(|l| format!("{l:?}")).collect();
    v.sort();
    v.join(" ")
  }

  fn ask(&self, op: &[Value]) -> String {
    fluid_set!(EVAL_MODE, export::parse_mode(&self.mode));
    let pi = &self.results.analysis.place_info;
    let n = |i: usize| op[i].as_u64().unwrap() as usize;
    let q = |i: usize| self.queries[n(i) % self.queries.len()];
    match op[0].as_str().unwrap() {
      "alias" => self.places(pi.aliases(q(2)).iter().copied()),
      "reachn" => self.places(pi.reachable_values(q(2), Mutability::Not).iter().copied()),
      "reachm" => self.places(pi.reachable_values(q(2), Mutability::Mut).iter().copied()),
      "children" => self.places(pi.children(q(2))),
      "conflicts" => self.places(pi.conflicts(q(2)).iter().copied()),
      "norm" => self.places([q(2)]),
      "deps" => {
        let state = self.results.state_at(self.locs[n(2) % self.locs.len()]);
        self.set(&self.results.analysis.deps_for(state, q(3)))
      }
      "slice" => {
        let dir = match op[2].as_str().unwrap() {
          "bwd" => Direction::Backward,
          "fwd" => Direction::Forward,
          _ => Direction::Both,
        };
        let ts: Vec<_> = op[3]
          .as_array()
          .unwrap()
          .iter()
          .filter(|_| !self.targets.is_empty())
          .map(|t| self.targets[t.as_u64().unwrap() as usize % self.targets.len()])
          .collect();
        infoflow::compute_dependencies(&self.results, vec![ts], dir)
          .iter()
          .map(|s| self.set(s))
          .collect::<Vec<_>>()
          .join("|")
      }
      "args" => {
        let mut v: Vec<String> = pi
          .all_args()
          .map(|(p, l)| format!("{} {:?}", self.places([p]), pi.location_domain().value(l)))
          .collect();
        v.sort();
        v.join(" ")
      }
      "muts" => {
        let mut v: Vec<String> = vec![];
        ModularMutationVisitor::new(pi, |loc, ms| {
          for m in ms {
            v.push(format!(
              "{loc:?} {} <- {} {}",
              self.places([m.mutated]),
              self.places(m.inputs.iter().copied()),
              matches!(m.status, MutationStatus::Definitely)
            ));
          }
        })
        .visit_body(self.results.analysis.body);
        v.sort();
        v.dedup();
        v.join("\n")
      }
      k => panic!("operation {k}"),
    }
  }
}

pub fn run<'tcx>(
  tcx: TyCtxt<'tcx>,
  bodies: &[(Span, BodyId)],
  sessions: &[Value],
  opts: &Options,
) -> Value {
  let mut text: BTreeMap<String, String> = BTreeMap::new();
  let mut out = vec![];
  for s in sessions {
    let mut handles: Vec<Option<Handle<'tcx>>> = vec![];
    let mut events = vec![];
    for op in s["ops"].as_array().unwrap() {
      let op = op.as_array().unwrap();
      let guard = |f: &mut dyn FnMut() -> String| -> String {
        catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".into())
      };
      if op[0] == "file" {
        continue;
      }
      if op[0] == "open" {
        let mut h = None;
        let f = op[1].as_u64().unwrap() as usize;
        let ans = guard(&mut || {
          h = Some(Handle::open(tcx, bodies, f, op[2].as_str().unwrap(), opts));
          "opened".into()
        });
        handles.push(h);
        events.push(json!([format!("{f}:{}:open", op[2].as_str().unwrap()), ans]));
        continue;
      }
      let Some(h) = &handles[op[1].as_u64().unwrap() as usize] else { continue };
      let ans = guard(&mut || h.ask(op));
      let key = hash(&ans);
      text.entry(key.clone()).or_insert_with(|| ans.chars().take(300).collect());
      let rest: Vec<String> = op[2 ..].iter().map(|v| v.to_string()).collect();
      events.push(json!([
        format!("{}:{}:{}:{}", h.f, h.mode, op[0].as_str().unwrap(), rest.join(":")),
        key
      ]));
    }
    out.push(json!({"id": s["id"], "events": events}));
  }
  json!({"fns": [], "sessions": out, "answers": text})
}
