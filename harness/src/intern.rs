//! Interning of types and MIR places into plain JSON data.
use std::collections::HashMap;

use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::{
  mir::*,
  traits::ObligationCause,
  ty::{self, Region, RegionKind, Ty, TyCtxt, TyKind, TypeSuperVisitable, TypeVisitor},
};
use rustc_trait_selection::traits::NormalizeExt;
use rustc_type_ir::TypingMode;
use rustc_middle::ty::TypeVisitableExt;
use rustc_utils::mir::place::UNKNOWN_REGION;
use serde_json::{Value, json};

pub struct Interner<'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub def_id: DefId,
  ids: HashMap<Ty<'tcx>, usize>,
  pub tys: Vec<Ty<'tcx>>,
  depth: Vec<usize>,
}

/// Numeric form of a region: >= 0 region variable (0 = 'static), -1 = the analysis's "unknown"
/// region, -2 = erased / bound / late-param, -3 = anything else.
pub fn region_id(r: Region<'_>) -> i64 {
  match r.kind() {
    RegionKind::ReVar(v) => {
      if v == UNKNOWN_REGION {
        -1
      } else {
        v.as_usize() as i64
      }
    }
    RegionKind::ReStatic => 0,
    RegionKind::ReErased => -2,
    RegionKind::ReBound(..) => -4,
    RegionKind::ReLateParam(..) => -5,
    _ => -3,
  }
}

struct Shallow<'a, 'tcx> {
  out: Vec<Value>,
  int: &'a mut Interner<'tcx>,
  depth: usize,
}

impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for Shallow<'_, 'tcx> {
  type Result = ();
  fn visit_ty(&mut self, t: Ty<'tcx>) {
    let id = self.int.ty_at(t, self.depth);
    self.out.push(json!(["t", id]));
  }
  fn visit_region(&mut self, r: Region<'tcx>) {
    self.out.push(json!(["r", region_id(r)]));
  }
}

/// References that live for the whole program within the definition of a type:
/// 0 none, 1 only behind shared references (or shared themselves), 2 otherwise.
fn statics_in(tcx: TyCtxt<'_>, did: DefId, imm: bool, seen: &mut HashMap<(DefId, bool), ()>) -> u8 {
  if seen.insert((did, imm), ()).is_some() {
    return 0;
  }
  let mut best = 0;
  for field in tcx.adt_def(did).all_fields() {
    // every part of the field's type, with whether a shared reference is on the way
    let mut parts = vec![(tcx.type_of(field.did).instantiate_identity(), imm)];
    while let Some((t, imm)) = parts.pop() {
      let imm = imm || matches!(t.kind(), TyKind::Ref(_, _, m) if m.is_not());
      if let TyKind::Adt(def, _) = t.kind() {
        best = best.max(statics_in(tcx, def.did(), imm, seen));
      }
      let mut parts_of = PartsOf { tys: vec![], stat: false };
      t.super_visit_with(&mut parts_of);
      if parts_of.stat {
        best = best.max(if imm { 1 } else { 2 });
      }
      parts.extend(parts_of.tys.into_iter().map(|t| (t, imm)));
    }
  }
  best
}

struct PartsOf<'tcx> {
  tys: Vec<Ty<'tcx>>,
  stat: bool,
}

impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for PartsOf<'tcx> {
  type Result = ();
  fn visit_ty(&mut self, t: Ty<'tcx>) {
    self.tys.push(t);
  }
  fn visit_region(&mut self, r: Region<'tcx>) {
    self.stat |= r.is_static();
  }
}

pub const MAX_DEPTH: usize = 14;

impl<'tcx> Interner<'tcx> {
  pub fn new(tcx: TyCtxt<'tcx>, def_id: DefId) -> Self {
    Interner {
      tcx,
      def_id,
      ids: HashMap::new(),
      tys: vec![],
      depth: vec![],
    }
  }

  pub fn ty(&mut self, t: Ty<'tcx>) -> usize {
    self.ty_at(t, 0)
  }

  fn ty_at(&mut self, t: Ty<'tcx>, d: usize) -> usize {
    if let Some(i) = self.ids.get(&t) {
      if self.depth[*i] > d {
        self.depth[*i] = d;
      }
      return *i;
    }
    let i = self.tys.len();
    self.tys.push(t);
    self.depth.push(d);
    self.ids.insert(t, i);
    i
  }

  pub fn normalize_ty(&self, t: Ty<'tcx>) -> Ty<'tcx> {
    let tcx = self.tcx;
    let param_env = tcx.param_env(self.def_id);
    let t = tcx.erase_regions(t);
    if t.has_escaping_bound_vars() {
      return t;
    }
    let infcx = tcx.infer_ctxt().build(TypingMode::post_borrowck_analysis(
      tcx,
      self.def_id.expect_local(),
    ));
    infcx
      .at(&ObligationCause::dummy(), param_env)
      .normalize(t)
      .value
  }

  pub fn elem(&mut self, e: PlaceElem<'tcx>) -> Value {
    match e {
      ProjectionElem::Deref => json!(["D"]),
      ProjectionElem::Field(f, t) => json!(["F", f.as_usize(), self.ty(t)]),
      ProjectionElem::Index(l) => json!(["I", l.as_usize()]),
      ProjectionElem::ConstantIndex {
        offset,
        min_length,
        from_end,
      } => json!(["C", offset, min_length, from_end as u8]),
      ProjectionElem::Subslice { from, to, from_end } => {
        json!(["S", from, to, from_end as u8])
      }
      ProjectionElem::Downcast(_, v) => json!(["V", v.as_usize()]),
      ProjectionElem::OpaqueCast(t) => json!(["O", self.ty(t)]),
      ProjectionElem::UnwrapUnsafeBinder(t) => json!(["U", self.ty(t)]),
      ProjectionElem::Subtype(t) => json!(["T", self.ty(t)]),
    }
  }

  pub fn place(&mut self, p: Place<'tcx>) -> Value {
    let elems: Vec<Value> = p.projection.iter().map(|e| self.elem(e)).collect();
    json!([p.local.as_usize(), elems])
  }

  /// The table of all types reachable by projection from the interned ones.
  pub fn table(&mut self) -> Vec<Value> {
    let tcx = self.tcx;
    let mut out: Vec<Value> = vec![];
    let mut i = 0;
    while i < self.tys.len() {
      let t = self.tys[i];
      let d = self.depth[i];
      let cut = d >= MAX_DEPTH || i > 3000;
      let nt = self.normalize_ty(t);
      let norm = self.ty_at(nt, d);
      let mut v = json!({"k": "prim", "norm": norm, "s": format!("{t}")});
      if owns_own_kind(tcx, t) {
        v["rec"] = json!(1);
      }
      if let TyKind::Adt(def, _) = t.kind() {
        v["st"] = json!(statics_in(tcx, def.did(), false, &mut HashMap::new()));
      }
      if !cut {
        let d1 = d + 1;
        match *t.kind() {
          _ if t.is_box() => {
            let b = self.ty_at(t.boxed_ty().unwrap(), d1);
            v["k"] = json!("box");
            v["ty"] = json!(b);
          }
          TyKind::Tuple(fs) => {
            let fs: Vec<usize> = fs.iter().map(|f| self.ty_at(f, d1)).collect();
            v["k"] = json!("tuple");
            v["unit"] = json!(fs.is_empty());
            v["fields"] = json!(fs);
          }
          TyKind::Adt(def, substs) => match def.adt_kind() {
            ty::AdtKind::Struct => {
              let fs: Vec<Value> = def
                .all_fields()
                .map(|f| {
                  json!([
                    self.ty_at(f.ty(tcx, substs), d1),
                    f.vis.is_accessible_from(self.def_id, tcx) as u8
                  ])
                })
                .collect();
              v["k"] = json!("struct");
              v["fields"] = json!(fs);
              v["local"] = json!(def.did().is_local());
              v["path"] = json!(tcx.def_path_str(def.did()));
            }
            ty::AdtKind::Enum => {
              let vs: Vec<Value> = def
                .variants()
                .iter()
                .map(|va| {
                  let fs: Vec<usize> = va
                    .fields
                    .iter()
                    .map(|f| self.ty_at(f.ty(tcx, substs), d1))
                    .collect();
                  json!(fs)
                })
                .collect();
              let ds: Vec<Value> = def
                .discriminants(tcx)
                .map(|(_, d)| json!(small(d.val)))
                .collect();
              v["k"] = json!("enum");
              v["variants"] = json!(vs);
              v["discrs"] = json!(ds);
              v["path"] = json!(tcx.def_path_str(def.did()));
            }
            ty::AdtKind::Union => {
              let fs: Vec<Value> = def
                .all_fields()
                .map(|f| json!([self.ty_at(f.ty(tcx, substs), d1), 1]))
                .collect();
              v["k"] = json!("union");
              v["path"] = json!(tcx.def_path_str(def.did()));
              v["fields"] = json!(fs);
            }
          },
          TyKind::Array(e, n) => {
            v["k"] = json!("array");
            v["ty"] = json!(self.ty_at(e, d1));
            v["len"] = json!(
              n.try_to_target_usize(tcx)
                .map(|n| n.min(1000) as i64)
                .unwrap_or(-1)
            );
          }
          TyKind::Slice(e) => {
            v["k"] = json!("slice");
            v["ty"] = json!(self.ty_at(e, d1));
          }
          TyKind::Ref(r, e, m) => {
            v["k"] = json!("ref");
            v["r"] = json!(region_id(r));
            v["ty"] = json!(self.ty_at(e, d1));
            v["mut"] = json!(m.is_mut() as u8);
          }
          TyKind::RawPtr(e, m) => {
            v["k"] = json!("ptr");
            v["ty"] = json!(self.ty_at(e, d1));
            v["mut"] = json!(m.is_mut() as u8);
          }
          TyKind::Closure(cid, substs) => {
            v["k"] = json!("closure");
            let ck = format!("{:?}", substs.as_closure().kind());
            v["ckind"] = json!(ck);
            v["def"] = json!(tcx.def_path_str(cid));
            v["ty"] = json!(self.ty_at(substs.as_closure().tupled_upvars_ty(), d1));
          }
          TyKind::Coroutine(_, substs) => {
            v["k"] = json!("closure");
            v["ckind"] = json!("Coroutine");
            v["ty"] = json!(self.ty_at(substs.as_closure().tupled_upvars_ty(), d1));
          }
          TyKind::FnDef(..) => v["k"] = json!("fndef"),
          TyKind::FnPtr(..) => v["k"] = json!("fnptr"),
          TyKind::Dynamic(..) => v["k"] = json!("dyn"),
          TyKind::Param(..) => v["k"] = json!("param"),
          TyKind::Never => v["k"] = json!("never"),
          TyKind::Bool => v["k"] = json!("bool"),
          TyKind::Int(it) => {
            v["k"] = json!("int");
            v["bits"] = json!(it.bit_width().unwrap_or(64));
            v["signed"] = json!(1);
          }
          TyKind::Uint(it) => {
            v["k"] = json!("int");
            v["bits"] = json!(it.bit_width().unwrap_or(64));
            v["signed"] = json!(0);
          }
          _ if t.is_primitive_ty() => {}
          _ => v["k"] = json!("other"),
        }
        let mut sh = Shallow {
          out: vec![],
          int: self,
          depth: d1,
        };
        t.super_visit_with(&mut sh);
        v["sup"] = json!(sh.out);
      } else {
        v["k"] = json!("cut");
        v["sup"] = json!([]);
      }
      out.push(v);
      i += 1;
    }
    out
  }
}

pub fn small(v: u128) -> i64 {
  // TLC integers are 32 bit; anything bigger is folded (only used for opaque comparison).
  let s = v as i128;
  if s >= -1_000_000_000 && s <= 1_000_000_000 {
    s as i64
  } else {
    (v % 999_999_937) as i64
  }
}


/// The user-defined types mentioned in `t` outside of references.
fn mentioned<'tcx>(t: Ty<'tcx>, out: &mut Vec<DefId>) {
  let mut w = t.walk();
  while let Some(a) = w.next() {
    match a.as_type().map(|t| *t.kind()) {
      Some(TyKind::Ref(..)) => w.skip_current_subtree(),
      Some(TyKind::Adt(d, _)) => out.push(d.did()),
      _ => {}
    }
  }
}

/// Can a value of type `t` own another value of its type (a list node, a tree)?
fn owns_own_kind<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
  let mut starts = vec![];
  match *t.kind() {
    TyKind::Adt(d, _) => starts.push(d.did()),
    _ => mentioned(t, &mut starts),
  }
  starts.iter().any(|start| {
    let mut known: Vec<DefId> = vec![];
    let fields = |d: DefId, out: &mut Vec<DefId>| {
      for f in tcx.adt_def(d).all_fields() {
        mentioned(tcx.type_of(f.did).instantiate_identity(), out)
      }
    };
    fields(*start, &mut known);
    let mut i = 0;
    while i < known.len() {
      if known[i] == *start {
        return true;
      }
      if !known[.. i].contains(&known[i]) {
        fields(known[i], &mut known);
      }
      i += 1;
    }
    false
  })
}
