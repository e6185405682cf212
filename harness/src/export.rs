//! MIR and public-API dump of one function.
use std::{
  collections::{BTreeMap, BTreeSet, HashMap, HashSet},
  panic::{AssertUnwindSafe, catch_unwind},
};

use fluid_let::fluid_set;
use flowistry::{
  extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode},
  infoflow::{
    self, Direction, FlowResults,
    mutation::{ModularMutationVisitor, MutationStatus},
  },
};
use rustc_hir::{BodyId, def_id::DefId};
use rustc_middle::{
  mir::{
    visit::{PlaceContext, Visitor},
    *,
  },
  ty::{self, Ty, TyCtxt, TyKind},
};
use rustc_span::Span;
use rustc_utils::{
  BodyExt, OperandExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts,
    location_or_arg::{LocationOrArg, index::LocationOrArgSet},
  },
};
use serde_json::{Value, json};

use crate::{
  Options,
  intern::{Interner, region_id, small},
};

pub struct Locs {
  pub map: HashMap<Location, usize>,
  pub list: Vec<Location>,
  pub argc: usize,
}

impl Locs {
  fn new(body: &Body<'_>) -> Self {
    let list: Vec<Location> = body.all_locations().collect();
    let map = list.iter().enumerate().map(|(i, l)| (*l, i)).collect();
    Locs {
      map,
      list,
      argc: body.arg_count,
    }
  }
  fn id(&self, l: LocationOrArg) -> usize {
    match l {
      LocationOrArg::Location(l) => self.map[&l],
      LocationOrArg::Arg(a) => self.list.len() + a.as_usize() - 1,
    }
  }
  fn set(&self, s: &LocationOrArgSet) -> Vec<usize> {
    let mut v: Vec<usize> = s.iter().map(|l| self.id(*l)).collect();
    v.sort();
    v
  }
}

fn const_val<'tcx>(
  tcx: TyCtxt<'tcx>,
  def_id: DefId,
  c: &ConstOperand<'tcx>,
) -> Value {
  let ty = c.const_.ty();
  let env = ty::TypingEnv::post_analysis(tcx, def_id);
  match ty.kind() {
    TyKind::FnDef(fid, args) => {
      let eargs = tcx.erase_regions(*args);
      let r = catch_unwind(AssertUnwindSafe(|| {
        ty::Instance::try_resolve(tcx, env, *fid, eargs)
      }));
      let (target, resolved) = match r {
        Ok(Ok(Some(inst))) => (inst.def_id(), 1),
        _ => (*fid, 0),
      };
      let is_shim = match catch_unwind(AssertUnwindSafe(|| {
        ty::Instance::try_resolve(tcx, env, *fid, eargs)
      })) {
        Ok(Ok(Some(inst))) => !matches!(inst.def, ty::InstanceKind::Item(_)),
        _ => false,
      };
      return json!(["fn", tcx.def_path_str(target), target.is_local() as u8, resolved,
        tcx.def_path_str(*fid), is_shim as u8]);
    }
    TyKind::Bool | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => {
      if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
        let n = match ty.kind() {
          TyKind::Int(_) => {
            let sz = s.size();
            let b = s.to_bits(sz);
            sz.sign_extend(b) as i128 as u128
          }
          _ => s.to_bits(s.size()),
        };
        return json!([if ty.is_bool() { "b" } else { "i" }, small(n)]);
      }
    }
    TyKind::Tuple(fs) if fs.is_empty() => return json!(["u"]),
    _ => {}
  }
  json!(["?"])
}

pub struct MirDump<'a, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def_id: DefId,
  pub body: &'a Body<'tcx>,
  pub int: Interner<'tcx>,
}

impl<'a, 'tcx> MirDump<'a, 'tcx> {
  fn operand(&mut self, o: &Operand<'tcx>) -> Value {
    match o {
      Operand::Copy(p) => json!({"k": "copy", "p": self.int.place(*p)}),
      Operand::Move(p) => json!({"k": "move", "p": self.int.place(*p)}),
      Operand::Constant(c) => {
        let ty = self.int.ty(c.const_.ty());
        json!({"k": "const", "ty": ty, "v": const_val(self.tcx, self.def_id, c)})
      }
    }
  }

  fn rvalue(&mut self, rv: &Rvalue<'tcx>) -> Value {
    let rty = rv.ty(self.body.local_decls(), self.tcx);
    let ty = self.int.ty(rty);
    let mut v = match rv {
      Rvalue::Use(o) => json!({"k": "use", "ops": [self.operand(o)], "pl": []}),
      Rvalue::Repeat(o, n) => json!({"k": "repeat", "ops": [self.operand(o)], "pl": [],
        "n": n.try_to_target_usize(self.tcx).map(|n| n.min(1000) as i64).unwrap_or(-1)}),
      Rvalue::Ref(r, bk, p) => json!({"k": "ref", "ops": [], "pl": [self.int.place(*p)],
        "r": region_id(*r), "mut": bk.to_mutbl_lossy().is_mut() as u8,
        "fake": matches!(bk, BorrowKind::Fake(_)) as u8}),
      Rvalue::ThreadLocalRef(_) => json!({"k": "tls", "ops": [], "pl": []}),
      Rvalue::RawPtr(m, p) => json!({"k": "rawptr", "ops": [], "pl": [self.int.place(*p)],
        "mut": matches!(m, RawPtrKind::Mut) as u8}),
      Rvalue::Len(p) => json!({"k": "len", "ops": [], "pl": [self.int.place(*p)]}),
      Rvalue::Cast(ck, o, t) => json!({"k": "cast", "ck": format!("{ck:?}"),
        "ops": [self.operand(o)], "pl": [], "to": self.int.ty(*t)}),
      Rvalue::BinaryOp(op, ops) => json!({"k": "bin", "op": format!("{op:?}"),
        "ops": [self.operand(&ops.0), self.operand(&ops.1)], "pl": []}),
      Rvalue::NullaryOp(op, _) => {
        json!({"k": "nullary", "op": format!("{op:?}"), "ops": [], "pl": []})
      }
      Rvalue::UnaryOp(op, o) => json!({"k": "un", "op": format!("{op:?}"),
        "ops": [self.operand(o)], "pl": []}),
      Rvalue::Discriminant(p) => json!({"k": "discr", "ops": [], "pl": [self.int.place(*p)]}),
      Rvalue::Aggregate(ak, ops) => {
        let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
        let mut v = json!({"k": "agg", "ops": ops, "pl": []});
        match &**ak {
          AggregateKind::Adt(did, vi, substs, _, active) => {
            let def = self.tcx.adt_def(*did);
            v["ak"] = json!(match def.adt_kind() {
              ty::AdtKind::Struct => "struct",
              ty::AdtKind::Enum => "enum",
              ty::AdtKind::Union => "union",
            });
            v["variant"] = json!(vi.as_usize());
            let tys: Vec<usize> = def
              .variant(*vi)
              .fields
              .iter()
              .map(|f| self.int.ty(f.ty(self.tcx, substs)))
              .collect();
            v["ftys"] = json!(tys);
            v["active"] = json!(active.map(|a| a.as_usize() as i64).unwrap_or(-1));
          }
          AggregateKind::Tuple => {
            v["ak"] = json!("tuple");
            let tys: Vec<usize> =
              rty.tuple_fields().iter().map(|t| self.int.ty(t)).collect();
            v["ftys"] = json!(tys);
          }
          AggregateKind::Array(_) => v["ak"] = json!("array"),
          AggregateKind::Closure(did, _) => {
            v["ak"] = json!("closure");
            v["def"] = json!(self.tcx.def_path_str(*did));
          }
          _ => v["ak"] = json!("other"),
        }
        v
      }
      Rvalue::ShallowInitBox(o, _) => {
        json!({"k": "shallowbox", "ops": [self.operand(o)], "pl": []})
      }
      Rvalue::CopyForDeref(p) => {
        json!({"k": "copyderef", "ops": [], "pl": [self.int.place(*p)]})
      }
      Rvalue::WrapUnsafeBinder(o, _) => {
        json!({"k": "wrapub", "ops": [self.operand(o)], "pl": []})
      }
    };
    v["ty"] = json!(ty);
    v
  }

  /// The function that a call runs, if the compiler can tell: whether its body is in this crate,
  /// and whether it can return.
  fn callee(&self, func: &Operand<'tcx>) -> Value {
    let tcx = self.tcx;
    let none = json!({"key": -1, "body": 0, "never": 0});
    let Operand::Constant(c) = func else { return none };
    let TyKind::FnDef(fid, args) = c.const_.ty().kind() else { return none };
    let env = ty::TypingEnv::post_analysis(tcx, self.def_id);
    let eargs = tcx.erase_regions(*args);
    let r = catch_unwind(AssertUnwindSafe(|| ty::Instance::try_resolve(tcx, env, *fid, eargs)));
    let Ok(Ok(Some(inst))) = r else { return none };
    let ty::InstanceKind::Item(target) = inst.def else { return none };
    let never = tcx.fn_sig(*fid).skip_binder().output().skip_binder().is_never();
    let body = matches!(tcx.def_kind(target), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
      && tcx.hir_get_if_local(target).and_then(|n| n.body_id()).is_some();
    json!({"key": target.as_local().map(|d| d.local_def_index.as_usize() as i64).unwrap_or(-1),
      "body": body as u8, "never": never as u8})
  }

  fn term(&mut self, t: &Terminator<'tcx>) -> Value {
    let succ: Vec<usize> = t.successors().map(|b| b.as_usize()).collect();
    let mut v = match &t.kind {
      TerminatorKind::Goto { .. } => json!({"k": "goto"}),
      TerminatorKind::SwitchInt { discr, targets } => {
        let ts: Vec<Value> = targets
          .iter()
          .map(|(v, b)| json!([small(v), b.as_usize()]))
          .collect();
        json!({"k": "switch", "op": self.operand(discr), "targets": ts,
          "otherwise": targets.otherwise().as_usize()})
      }
      TerminatorKind::Return => json!({"k": "return"}),
      TerminatorKind::Unreachable => json!({"k": "unreachable"}),
      TerminatorKind::UnwindResume => json!({"k": "resume"}),
      TerminatorKind::UnwindTerminate(_) => json!({"k": "terminate"}),
      TerminatorKind::Drop { place, target, .. } => {
        let ty = place.ty(self.body.local_decls(), self.tcx).ty;
        let needs = ty.needs_drop(
          self.tcx,
          ty::TypingEnv::post_analysis(self.tcx, self.def_id),
        );
        json!({"k": "drop", "p": self.int.place(*place), "target": target.as_usize(),
          "needs": needs as u8})
      }
      TerminatorKind::Call {
        func,
        args,
        destination,
        target,
        ..
      } => {
        let args: Vec<Value> = args.iter().map(|a| self.operand(&a.node)).collect();
        json!({"k": "call", "func": self.operand(func), "args": args,
          "callee": self.callee(func),
          "dest": self.int.place(*destination),
          "target": target.map(|b| b.as_usize() as i64).unwrap_or(-1)})
      }
      TerminatorKind::TailCall { .. } => json!({"k": "tailcall"}),
      TerminatorKind::Assert {
        cond,
        expected,
        target,
        ..
      } => json!({"k": "assert", "op": self.operand(cond), "expected": *expected as u8,
        "target": target.as_usize()}),
      TerminatorKind::Yield { .. } => json!({"k": "yield"}),
      TerminatorKind::CoroutineDrop => json!({"k": "cordrop"}),
      TerminatorKind::FalseEdge { real_target, .. } => {
        json!({"k": "falseedge", "target": real_target.as_usize()})
      }
      TerminatorKind::FalseUnwind { real_target, .. } => {
        json!({"k": "falseunwind", "target": real_target.as_usize()})
      }
      TerminatorKind::InlineAsm { .. } => json!({"k": "asm"}),
    };
    v["succ"] = json!(succ);
    v
  }

  fn blocks(&mut self) -> Vec<Value> {
    let mut out = vec![];
    let mut start = 0usize;
    for (_, data) in self.body.basic_blocks.iter_enumerated() {
      let stmts: Vec<Value> = data
        .statements
        .iter()
        .map(|s| match &s.kind {
          StatementKind::Assign(b) => {
            json!({"k": "assign", "p": self.int.place(b.0), "rv": self.rvalue(&b.1)})
          }
          StatementKind::SetDiscriminant {
            place,
            variant_index,
          } => json!({"k": "setdiscr", "p": self.int.place(**place),
            "variant": variant_index.as_usize()}),
          k => {
            let n = format!("{k:?}");
            let n: String = n.chars().take(40).collect();
            json!({"k": "nop", "s": n})
          }
        })
        .collect();
      let term = self.term(data.terminator());
      let n = stmts.len();
      out.push(json!({"start": start, "stmts": stmts, "term": term,
        "cleanup": data.is_cleanup as u8}));
      start += n + 1;
    }
    out
  }
}

struct AllPlaces<'tcx> {
  out: Vec<Place<'tcx>>,
}
impl<'tcx> Visitor<'tcx> for AllPlaces<'tcx> {
  fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, _: Location) {
    self.out.push(*p);
  }
}

pub fn parse_mode(s: &str) -> EvalMode {
  let mut m = EvalMode::default();
  for part in s.split('+') {
    match part {
      "default" => {}
      "ignoremut" => m.mutability_mode = MutabilityMode::IgnoreMut,
      "conservative" => m.pointer_mode = PointerMode::Conservative,
      "recurse" => m.context_mode = ContextMode::Recurse,
      _ => panic!("mode {s}"),
    }
  }
  m
}

pub fn query_places<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  def_id: DefId,
  max: usize,
) -> Vec<Place<'tcx>> {
  let mut seen = HashSet::new();
  let mut out = vec![];
  let mut push = |p: Place<'tcx>| {
    if seen.insert(p) {
      out.push(p);
    }
  };
  let mut v = AllPlaces { out: vec![] };
  v.visit_body(body);
  for p in v.out {
    for i in 0 ..= p.projection.len() {
      let q = Place::make(p.local, &p.projection[.. i], tcx);
      push(q);
    }
  }
  // user-visible sub-paths of locals (bounded)
  let mut locals: Vec<Local> = body.local_decls.indices().collect();
  locals.sort_by_key(|l| !body.local_decls[*l].is_user_variable());
  let mut extra = vec![];
  for l in locals {
    let mut ps: Vec<Place<'tcx>> = Place::from_local(l, tcx)
      .interior_paths(tcx, body, def_id)
      .into_iter()
      .collect();
    ps.sort_by_key(|p| (p.projection.len(), format!("{p:?}")));
    extra.extend(ps.into_iter().take(8));
  }
  for p in extra {
    push(p);
  }
  out.truncate(max);
  out
}

pub fn targets_of<'tcx>(
  body: &Body<'tcx>,
  _tcx: TyCtxt<'tcx>,
  max: usize,
) -> Vec<(Place<'tcx>, LocationOrArg)> {
  let mut seen = HashSet::new();
  let mut out = vec![];
  for a in body.args_iter() {
    out.push((Place::from(a), LocationOrArg::Arg(a)));
  }
  for loc in body.all_returns() {
    out.push((Place::return_place(), LocationOrArg::Location(loc)));
  }
  struct V<'tcx> {
    out: Vec<(Place<'tcx>, Location)>,
  }
  impl<'tcx> Visitor<'tcx> for V<'tcx> {
    fn visit_place(&mut self, p: &Place<'tcx>, _: PlaceContext, l: Location) {
      self.out.push((*p, l));
    }
  }
  let mut v = V { out: vec![] };
  for (bb, data) in body.basic_blocks.iter_enumerated() {
    if data.is_cleanup {
      continue;
    }
    v.visit_basic_block_data(bb, data);
  }
  for (p, l) in v.out {
    if seen.insert((p, l)) {
      out.push((p, LocationOrArg::Location(l)));
    }
  }
  out.truncate(max);
  out
}

pub fn export_fn<'tcx>(
  tcx: TyCtxt<'tcx>,
  body_id: BodyId,
  span: Span,
  opts: &Options,
) -> Value {
  let local_def_id = tcx.hir_body_owner_def_id(body_id);
  let def_id = local_def_id.to_def_id();
  let name = tcx.def_path_str(def_id);
  let key = local_def_id.local_def_index.as_usize();
  let bwf = get_body_with_borrowck_facts(tcx, local_def_id);
  let body = &bwf.body;
  let locs = Locs::new(body);
  let nloc = locs.list.len();
  if nloc > opts.max_locs {
    return json!({"name": name, "key": key, "skipped": "too many locations", "nloc": nloc});
  }

  let mut d = MirDump {
    tcx,
    def_id,
    body,
    int: Interner::new(tcx, def_id),
  };
  let names = body.debug_info_name_map();
  let rev: BTreeMap<usize, String> =
    names.iter().map(|(k, v)| (v.as_usize(), k.clone())).collect();
  let locals: Vec<Value> = body
    .local_decls
    .iter_enumerated()
    .map(|(l, decl)| {
      json!({"ty": d.int.ty(decl.ty), "user": decl.is_user_variable() as u8,
        "name": rev.get(&l.as_usize()).cloned().unwrap_or_default()})
    })
    .collect();
  let blocks = d.blocks();
  let facts = bwf.input_facts.as_ref().unwrap();
  let subset: BTreeSet<(usize, usize)> = facts
    .subset_base
    .iter()
    .map(|(a, b, _)| (ty::RegionVid::from(*a).as_usize(), ty::RegionVid::from(*b).as_usize()))
    .collect();
  let ctx_ty = body.async_context(tcx, def_id);
  let ctx_regions: Vec<i64> = ctx_ty
    .map(|t| {
      t.walk()
        .filter_map(|p| match p.kind() {
          ty::GenericArgKind::Lifetime(r) => Some(region_id(r)),
          _ => None,
        })
        .collect()
    })
    .unwrap_or_default();
  let ctx_tyid: i64 = ctx_ty.map(|t| d.int.ty(tcx.erase_regions(t)) as i64).unwrap_or(-1);

  let queries = query_places(tcx, body, def_id, opts.max_places);
  let qjson: Vec<Value> = queries.iter().map(|p| d.int.place(*p)).collect();
  let targets = targets_of(body, tcx, 90);
  let tjson: Vec<Value> = targets
    .iter()
    .map(|(p, l)| json!([d.int.place(*p), locs.id(*l)]))
    .collect();

  let mut modes = serde_json::Map::new();
  for m in &opts.modes {
    // "unset": no mode is ever chosen
    let mode = (m != "unset").then(|| parse_mode(m));
    let r = catch_unwind(AssertUnwindSafe(|| {
      if let Some(mode) = mode {
        fluid_set!(EVAL_MODE, mode);
        let results = infoflow::compute_flow(tcx, body_id, bwf);
        return real_outputs(&mut d, &locs, &results, &queries, &targets, opts, m);
      }
      let results = infoflow::compute_flow(tcx, body_id, bwf);
      real_outputs(&mut d, &locs, &results, &queries, &targets, opts, m)
    }));
    let v = match r {
      Ok(v) => v,
      Err(e) => {
        let msg = e
          .downcast_ref::<String>()
          .cloned()
          .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
          .unwrap_or_else(|| "panic".into());
        json!({"panic": msg})
      }
    };
    modes.insert(m.clone(), v);
  }

  let part = |n: &str| opts.parts.iter().any(|p| p == n);
  let spans = if part("spans") { export_spans(tcx, body_id, span, &mut d, &locs) } else { json!({}) };
  let ifc = if part("ifc") { export_ifc(tcx, body_id, body) } else { json!({}) };
  let types = d.int.table();
  let sm = tcx.sess.source_map();
  let lo = sm.lookup_char_pos(span.lo());
  json!({
    "name": name,
    "key": key,
    "line": lo.line,
    "argc": body.arg_count,
    "nloc": nloc,
    "locals": locals,
    "blocks": blocks,
    "types": types,
    "subset": subset.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
    "ctx_regions": ctx_regions,
    "ctx_ty": ctx_tyid,
    "queries": qjson,
    "targets": tjson,
    "modes": modes,
    "spans": spans,
    "ifc": ifc,
  })
}

/// Byte offsets within the file; -1 if the span lies elsewhere.
fn offsets(tcx: TyCtxt<'_>, span: Span) -> (i64, i64) {
  let f = tcx.sess.source_map().lookup_source_file(span.lo());
  let base = f.start_pos.0 as i64;
  if !f.name.is_real() || span.hi().0 as i64 > f.end_position().0 as i64 {
    return (-1, -1);
  }
  (span.lo().0 as i64 - base, span.hi().0 as i64 - base)
}

/// Where rustc says the parts of a function are in the source.
fn export_spans<'tcx>(
  tcx: TyCtxt<'tcx>,
  body_id: BodyId,
  item: Span,
  d: &mut MirDump<'_, 'tcx>,
  locs: &Locs,
) -> Value {
  use rustc_utils::source_map::spanner::{EnclosingHirSpans, Spanner};
  let body = d.body;
  let spanner = Spanner::new(tcx, body_id, body);
  let o = |s: Span| {
    let (a, b) = offsets(tcx, s);
    json!([a, b])
  };
  let mut ctxts: Vec<rustc_span::SyntaxContext> = vec![];
  let mut mir = vec![];
  for m in spanner.mir_span_tree.iter() {
    let c = ctxts.iter().position(|c| *c == m.span.ctxt).unwrap_or_else(|| {
      ctxts.push(m.span.ctxt);
      ctxts.len() - 1
    });
    let (a, b) = offsets(tcx, m.span.span());
    let ls: Vec<usize> = m.locations.iter().map(|l| locs.id(*l)).collect();
    mir.push(json!({"lo": a, "hi": b, "ctxt": c, "p": d.int.place(m.place), "locs": ls}));
  }
  let n = locs.list.len() + locs.argc;
  let mut outer = vec![];
  let mut none = vec![];
  for i in 0 .. n {
    let l = if i < locs.list.len() {
      LocationOrArg::Location(locs.list[i])
    } else {
      LocationOrArg::Arg(Local::from_usize(i - locs.list.len() + 1))
    };
    for (k, dst) in [(EnclosingHirSpans::OuterOnly, &mut outer), (EnclosingHirSpans::None, &mut none)] {
      let v: Vec<Value> =
        spanner.location_to_spans(l, body, k).into_iter().map(|s| o(s)).collect();
      dst.push(v);
    }
  }
  let params: Vec<Value> =
    tcx.hir_body(body_id).params.iter().map(|p| o(p.span)).collect();
  json!({"item": o(item), "body": o(spanner.body_span), "ret": o(spanner.ret_span),
    "params": params, "mir": mir, "outer": outer, "none": none})
}

/// What the information-flow checker's reports are made of: the source position of each local.
fn export_ifc<'tcx>(tcx: TyCtxt<'tcx>, body_id: BodyId, body: &Body<'tcx>) -> Value {
  use rustc_utils::SpanExt;
  let outer = tcx.hir_span_with_body(tcx.hir_body_owner(body_id));
  let spans: Vec<Value> = body
    .local_decls
    .iter()
    .map(|l| match l.source_info.span.as_local(outer) {
      None => json!(["<in macro expansion>", "<in macro expansion>"]),
      Some(s) => {
        let sm = tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let hi = sm.lookup_char_pos(s.hi());
        let text: Vec<String> =
          sm.span_to_snippet(s).unwrap_or_default().lines().map(|l| l.trim().to_string()).collect();
        json!([format!("{}:{}-{}:{}", lo.line, lo.col.0, hi.line, hi.col.0), text.join(" ")])
      }
    })
    .collect();
  json!({"spans": spans})
}

/// Distinct sets are stored once and referred to by number.
#[derive(Default)]
struct SetTable {
  ids: HashMap<Vec<usize>, usize>,
  sets: Vec<Vec<usize>>,
}
impl SetTable {
  fn add(&mut self, s: Vec<usize>) -> usize {
    if let Some(i) = self.ids.get(&s) {
      return *i;
    }
    let i = self.sets.len();
    self.sets.push(s.clone());
    self.ids.insert(s, i);
    i
  }
}

fn real_outputs<'a, 'tcx>(
  d: &mut MirDump<'_, 'tcx>,
  locs: &Locs,
  results: &FlowResults<'a, 'tcx>,
  queries: &[Place<'tcx>],
  targets: &[(Place<'tcx>, LocationOrArg)],
  _opts: &Options,
  _mode: &str,
) -> Value {
  let body = results.analysis.body;
  let pi = &results.analysis.place_info;
  let mut st = SetTable::default();

  let mut deps = vec![];
  for l in &locs.list {
    let state = results.state_at(*l);
    let row: Vec<usize> = queries
      .iter()
      .map(|q| st.add(locs.set(&results.analysis.deps_for(state, *q))))
      .collect();
    deps.push(row);
  }

  let run = |dir: Direction| -> Vec<Vec<usize>> {
    let all: Vec<Vec<(Place<'tcx>, LocationOrArg)>> =
      targets.iter().map(|t| vec![*t]).collect();
    infoflow::compute_dependencies(results, all, dir)
      .iter()
      .map(|s| locs.set(s))
      .collect()
  };
  let bwd: Vec<usize> = run(Direction::Backward).into_iter().map(|s| st.add(s)).collect();
  let fwd: Vec<usize> = run(Direction::Forward).into_iter().map(|s| st.add(s)).collect();
  let both: Vec<usize> = run(Direction::Both).into_iter().map(|s| st.add(s)).collect();
  // Batched: groups of targets in one call must equal the union of the single answers.
  let groups: Vec<Vec<usize>> = {
    let n = targets.len();
    let mut gs: Vec<Vec<usize>> = vec![vec![]];
    let mut i = 0;
    while i < n {
      gs.push((i .. (i + 3).min(n)).collect());
      i += 3;
    }
    gs.push((0 .. n).step_by(4).collect());
    gs
  };
  let grun = |dir: Direction| -> Vec<Vec<usize>> {
    let all: Vec<Vec<(Place<'tcx>, LocationOrArg)>> = groups
      .iter()
      .map(|g| g.iter().map(|i| targets[*i]).collect())
      .collect();
    infoflow::compute_dependencies(results, all, dir)
      .iter()
      .map(|s| locs.set(s))
      .collect()
  };
  let gb: Vec<usize> = grun(Direction::Backward).into_iter().map(|s| st.add(s)).collect();
  let gf: Vec<usize> = grun(Direction::Forward).into_iter().map(|s| st.add(s)).collect();
  let gx: Vec<usize> = grun(Direction::Both).into_iter().map(|s| st.add(s)).collect();

  let mut places = |ps: Vec<Place<'tcx>>| -> Vec<Value> {
    let mut v: Vec<Value> = ps.into_iter().map(|p| d.int.place(p)).collect();
    v.sort_by_key(|x| x.to_string());
    v
  };
  let mut aliases = vec![];
  let mut children = vec![];
  let mut conflicts = vec![];
  let mut reachn = vec![];
  let mut reachm = vec![];
  let mut norm = vec![];
  for q in queries {
    aliases.push(places(pi.aliases(*q).iter().copied().collect()));
    children.push(places(pi.children(*q).into_iter().collect()));
    conflicts.push(places(pi.conflicts(*q).iter().copied().collect()));
    reachn.push(places(
      pi.reachable_values(*q, Mutability::Not).iter().copied().collect(),
    ));
    reachm.push(places(
      pi.reachable_values(*q, Mutability::Mut).iter().copied().collect(),
    ));
    norm.push(places(vec![pi.normalize(*q)]).remove(0));
  }

  let mut muts: Vec<Vec<Value>> = vec![vec![]; locs.list.len()];
  {
    let mut raw: Vec<(Location, Place<'tcx>, Vec<Place<'tcx>>, bool)> = vec![];
    ModularMutationVisitor::new(pi, |loc, ms| {
      for m in ms {
        raw.push((
          loc,
          m.mutated,
          m.inputs.clone(),
          matches!(m.status, MutationStatus::Definitely),
        ));
      }
    })
    .visit_body(body);
    for (loc, m, ins, def) in raw {
      let mv = places(vec![m]).remove(0);
      let iv = places(ins);
      muts[locs.map[&loc]].push(json!({"p": mv, "ins": iv, "def": def as u8}));
    }
  }
  let all_args: Vec<Value> = pi
    .all_args()
    .map(|(p, l)| {
      let lo = *pi.location_domain().value(l);
      json!([places(vec![p]).remove(0), locs.id(lo)])
    })
    .collect();
  json!({
    "sets": st.sets,
    "deps": deps,
    "bwd": bwd, "fwd": fwd, "both": both,
    "groups": groups, "gbwd": gb, "gfwd": gf, "gboth": gx,
    "aliases": aliases, "children": children, "conflicts": conflicts,
    "reachn": reachn, "reachm": reachm, "norm": norm,
    "muts": muts, "args": all_args,
  })
}

/// Types of this crate that implement a trait called Secure / Insecure (for the IFC checker).
pub fn ifc_impls(tcx: TyCtxt<'_>) -> Value {
  let mut out = vec![];
  for id in tcx.hir_free_items() {
    let item = tcx.hir_item(id);
    if let rustc_hir::ItemKind::Impl(_) = item.kind
      && let Some(tr) = tcx.impl_trait_ref(item.owner_id)
    {
      let tr = tr.skip_binder();
      out.push(json!([tcx.def_path_str(tr.def_id), match tr.self_ty().kind() {
        TyKind::Adt(def, _) => tcx.def_path_str(def.did()),
        _ => format!("{}", tr.self_ty()),
      }]));
    }
  }
  json!(out)
}
#[allow(unused)]
fn _unused<'tcx>(_: Ty<'tcx>, o: &Operand<'tcx>) -> Option<Place<'tcx>> {
  o.as_place()
}

/// Every function body of the crate: file, byte range and name.
pub fn bodies(tcx: TyCtxt<'_>) -> Value {
  let mut out = vec![];
  for (span, id) in rustc_utils::source_map::find_bodies::find_bodies(tcx) {
    let (a, b) = offsets(tcx, span);
    let f = tcx.sess.source_map().lookup_source_file(span.lo());
    let name = tcx.def_path_str(tcx.hir_body_owner_def_id(id).to_def_id());
    let file = path_of(&f);
    out.push(json!({"file": file, "lo": a, "hi": b, "name": name}));
  }
  json!(out)
}

fn classes(src: &str) -> Vec<i64> {
  let mut out = vec![-1i64; src.len()];
  for (i, c) in src.char_indices() {
    out[i] = if c == '\n' {
      10
    } else if c.is_whitespace() {
      32
    } else {
      120
    };
  }
  out
}

fn path_of(f: &rustc_span::SourceFile) -> String {
  match &f.name {
    rustc_span::FileName::Real(r) => r
      .local_path()
      .map(|p| p.canonicalize().unwrap_or(p.to_path_buf()).display().to_string())
      .unwrap_or_default(),
    _ => String::new(),
  }
}

/// The main source file, one entry per byte: the kind of character that starts there, or -1.
pub fn text(tcx: TyCtxt<'_>) -> Value {
  let files = tcx.sess.source_map().files();
  match files.iter().find(|f| f.name.is_real() && f.src.is_some()) {
    Some(f) => json!(classes(f.src.as_ref().unwrap())),
    None => json!([]),
  }
}

/// All source files of the crate.
pub fn files(tcx: TyCtxt<'_>) -> Value {
  let files = tcx.sess.source_map().files();
  let v: Vec<Value> = files
    .iter()
    .filter(|f| f.name.is_real() && f.src.is_some())
    .map(|f| json!({"path": path_of(f), "text": classes(f.src.as_ref().unwrap())}))
    .collect();
  json!(v)
}
