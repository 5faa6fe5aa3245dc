// MIR dumper: a rustc driver that writes, for every body of the analysed crate, the
// control-flow graph the compiler builds from the source (`mir_built`: unoptimised, before
// borrow checking), with resolved callees, evaluated constants and source positions, as JSON.
// It executes nothing of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

struct Dumper<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: Vec<String>,
  ty_ids: HashMap<Ty<'tcx>, usize>,
  adts: BTreeMap<String, String>,
  adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Dumper<'tcx> {
  fn path(&self, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
  }

  fn span(&self, s: Span) -> String {
    let s = s.source_callsite();
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let name = format!("{}", lo.file.name.prefer_local_unconditionally());
    format!("{}:{}", name, lo.line)
  }

  fn adt(&mut self, def: ty::AdtDef<'tcx>) {
    if self.adt_seen.insert(def.did(), ()).is_some() { return }
    let tcx = self.tcx;
    let p = self.path(def.did());
    let mut o = String::new();
    let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
    let _ = write!(o, "{{\"kind\":\"{}\",\"local\":{},\"vis\":{},\"variants\":[", kind, def.did().is_local(), tcx.visibility(def.did()).is_public());
    let discrs: Vec<(rustc_abi::VariantIdx, u128)> =
      if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect() } else { vec![] };
    for (i, v) in def.variants().iter_enumerated() {
      if i.as_usize() > 0 { o.push(',') }
      let d = discrs.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0);
      let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[", esc(v.name.as_str()), d);
      for (j, f) in v.fields.iter().enumerate() {
        if j > 0 { o.push(',') }
        let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        let t = self.ty(fty);
        let _ = write!(o, "{{\"name\":{},\"ty\":{},\"vis\":{}}}", esc(f.name.as_str()), t, tcx.visibility(f.did).is_public());
      }
      o.push_str("]}");
    }
    let gens = tcx.generics_of(def.did());
    o.push_str("],\"params\":[");
    for (k, g) in gens.own_params.iter().enumerate() {
      if k > 0 { o.push(',') }
      o.push_str(&esc(g.name.as_str()));
    }
    o.push_str("]}");
    self.adts.insert(p, o);
  }

  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.ty_ids.get(&t) { return *i }
    let idx = self.tys.len();
    self.ty_ids.insert(t, idx);
    self.tys.push(String::new());
    let s = match t.kind() {
      ty::Bool => "{\"k\":\"bool\"}".to_string(),
      ty::Char => "{\"k\":\"char\"}".to_string(),
      ty::Str => "{\"k\":\"str\"}".to_string(),
      ty::Never => "{\"k\":\"never\"}".to_string(),
      ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{{\"k\":\"num\",\"n\":\"{}\"}}", t),
      ty::Adt(d, args) => {
        self.adt(*d);
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        format!("{{\"k\":\"adt\",\"p\":{},\"a\":[{}]}}", esc(&self.path(d.did())), a.join(","))
      }
      ty::Ref(_, x, m) => { let i = self.ty(*x); format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), i) }
      ty::RawPtr(x, m) => { let i = self.ty(*x); format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), i) }
      ty::Slice(x) => { let i = self.ty(*x); format!("{{\"k\":\"slice\",\"t\":{}}}", i) }
      ty::Array(x, n) => {
        let i = self.ty(*x);
        let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
        format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, n)
      }
      ty::Tuple(xs) => {
        let a: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
        format!("{{\"k\":\"tuple\",\"a\":[{}]}}", a.join(","))
      }
      ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
      ty::FnDef(d, args) => {
        let args = args.skip_binder();
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        format!("{{\"k\":\"fndef\",\"p\":{},\"a\":[{}]}}", esc(&self.path(*d)), a.join(","))
      }
      ty::Closure(d, args) => {
        let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
        format!("{{\"k\":\"closure\",\"p\":{},\"u\":[{}]}}", esc(&self.path(*d)), ups.join(","))
      }
      ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&format!("{}", t))),
      ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{}", t))),
      ty::Alias(..) => format!("{{\"k\":\"alias\",\"s\":{}}}", esc(&format!("{}", t))),
      _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{}", t))),
    };
    self.tys[idx] = s;
    idx
  }

  fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
    let mut o = format!("[{}", p.local.as_usize());
    let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection.iter() {
      o.push(',');
      match e {
        ProjectionElem::Deref => o.push_str("\"*\""),
        ProjectionElem::Field(f, t) => {
          let ti = self.ty(t);
          let mut name = format!("{}", f.as_usize());
          if let ty::Adt(d, _) = pty.ty.kind() {
            self.adt(*d);
            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
            if d.is_enum() || d.is_struct() || d.is_union() {
              name = d.variant(v).fields[f].name.to_string();
            }
          }
          let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), esc(&name), ti);
        }
        ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
        }
        ProjectionElem::Downcast(n, v) => {
          let name = match pty.ty.kind() {
            ty::Adt(d, _) => d.variant(v).name.to_string(),
            _ => n.map(|s| s.to_string()).unwrap_or_default(),
          };
          let _ = write!(o, "[\"d\",{},{}]", v.as_usize(), esc(&name));
        }
        _ => o.push_str("[\"o\"]"),
      }
      pty = pty.projection_ty(self.tcx, e);
    }
    o.push(']');
    o
  }

  fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let tcx = self.tcx;
    let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
    let mut o = format!("\"p\":{},\"a\":[{}]", esc(&self.path(d)), a.join(","));
    if let Some(tr) = tcx.trait_of_assoc(d) {
      let _ = write!(o, ",\"trait\":{},\"m\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
    }
    let dk = tcx.def_kind(d);
    if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) && !args.has_non_region_infer() {
      let eargs = tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
        let rd = inst.def_id();
        if rd != d {
          let ra: Vec<String> = inst.args.types().map(|x| self.ty(x).to_string()).collect();
          let _ = write!(o, ",\"rp\":{},\"ra\":[{}]", esc(&self.path(rd)), ra.join(","));
        }
        let _ = write!(o, ",\"rl\":{}", rd.is_local());
      }
    }
    let _ = write!(o, ",\"l\":{},\"kr\":{}", d.is_local(), esc(tcx.crate_name(d.krate).as_str()));
    if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) && !args.has_non_region_infer() {
      let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip());
      let mut tys: Vec<Ty<'tcx>> = sig.inputs().to_vec();
      tys.push(sig.output());
      let ids: Vec<String> = tys.into_iter().map(|t| {
        let t = tcx.erase_and_anonymize_regions(t);
        let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        self.ty(t).to_string()
      }).collect();
      let _ = write!(o, ",\"sig\":[{}]", ids.join(","));
    }
    if let DefKind::Ctor(of, _) = dk {
      let _ = write!(o, ",\"ctor\":{}", esc(&format!("{:?}", of)));
      let parent = tcx.parent(d);
      let (adt, vname) = match of {
        rustc_hir::def::CtorOf::Struct => (parent, tcx.item_name(parent).to_string()),
        rustc_hir::def::CtorOf::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
      };
      let _ = write!(o, ",\"cadt\":{},\"cvar\":{}", esc(&self.path(adt)), esc(&vname));
      self.adt(tcx.adt_def(adt));
    }
    if tcx.fn_sig(d).skip_binder().safety() .is_unsafe() { o.push_str(",\"unsafe\":true"); }
    o
  }

  fn bytes_of_alloc(&self, id: mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
    match self.tcx.try_get_global_alloc(id)? {
      mir::interpret::GlobalAlloc::Memory(m) => {
        let n = m.inner().len();
        let end = len.map(|l| off + l).unwrap_or(n);
        if end > n { return None }
        Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
      }
      _ => None,
    }
  }

  fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let tcx = self.tcx;
    let t = c.const_.ty();
    let ti = self.ty(t);
    let mut o = format!("{{\"k\":\"const\",\"t\":{}", ti);
    if let ty::FnDef(d, args) = t.kind() {
      let f = self.fnref(*d, args.skip_binder(), env);
      let _ = write!(o, ",\"fn\":{{{}}}", f);
      o.push('}');
      return o;
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      let _ = write!(o, ",\"uneval\":{},\"ul\":{}", esc(&self.path(u.def)), u.def.is_local());
      if u.promoted.is_some() { o.push_str(",\"promoted\":true"); }
    }
    if let Some(d) = c.check_static_ptr(tcx) {
      let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
      o.push('}');
      return o;
    }
    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
      match v {
        ConstValue::ZeroSized => { o.push_str(",\"zst\":true"); }
        ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
          let _ = write!(o, ",\"int\":\"{}\"", if t.is_signed() { i.to_int(i.size()).to_string() } else { i.to_bits(i.size()).to_string() });
        }
        ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
          let (prov, off) = p.prov_and_relative_offset();
          let mut done = false;
          if let ty::Ref(_, inner, _) = t.kind() {
            if let ty::Array(et, n) = inner.kind() {
              if *et == tcx.types.u8 {
                if let Some(n) = n.try_to_target_usize(tcx) {
                  if let Some(b) = self.bytes_of_alloc(prov.alloc_id(), off.bytes() as usize, Some(n as usize)) {
                    let _ = write!(o, ",\"bytes\":[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    done = true;
                  }
                }
              }
            }
          }
          if !done { o.push_str(",\"ptr\":true"); }
        }
        ConstValue::Slice { .. } => {
          if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
            match std::str::from_utf8(b) {
              Ok(s) if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) => { let _ = write!(o, ",\"str\":{}", esc(s)); }
              _ => { let _ = write!(o, ",\"bytes\":[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
            }
          }
        }
        ConstValue::Indirect { alloc_id, offset } => {
          if let Some(b) = self.bytes_of_alloc(alloc_id, offset.bytes() as usize, None) {
            let _ = write!(o, ",\"raw\":[{}]", b.iter().take(64).map(|x| x.to_string()).collect::<Vec<_>>().join(","));
          }
        }
      }
    } else {
      o.push_str(",\"unk\":true");
    }
    let _ = write!(o, ",\"s\":{}", esc(&format!("{}", c.const_)));
    o.push('}');
    o
  }

  fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    match op {
      Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p, body)),
      Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p, body)),
      Operand::Constant(c) => self.constant(c, env),
      _ => "{\"k\":\"rtcheck\"}".to_string(),
    }
  }

  fn ops<'a>(&mut self, it: impl Iterator<Item = &'a Operand<'tcx>>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String
  where 'tcx: 'a {
    let v: Vec<String> = it.map(|x| self.operand(x, body, env)).collect();
    format!("[{}]", v.join(","))
  }

  fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    match r {
      Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, body, env)),
      Rvalue::Repeat(o, n) => {
        let n = n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1);
        format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o, body, env), n)
      }
      Rvalue::Ref(_, k, p) => format!("{{\"k\":\"ref\",\"m\":{},\"fake\":{},\"p\":{}}}",
        matches!(k, BorrowKind::Mut { .. }), matches!(k, BorrowKind::Fake(_)), self.place(p, body)),
      Rvalue::RawPtr(k, p) => format!("{{\"k\":\"rawptr\",\"kind\":{},\"p\":{}}}", esc(&format!("{:?}", k)), self.place(p, body)),
      Rvalue::Reborrow(_, m, p) => format!("{{\"k\":\"ref\",\"m\":{},\"fake\":false,\"p\":{}}}", m.is_mut(), self.place(p, body)),
      Rvalue::Cast(k, o, t) => {
        let ft = o.ty(&body.local_decls, self.tcx);
        let fi = self.ty(ft);
        let ti = self.ty(*t);
        format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"from\":{},\"t\":{}}}", esc(&format!("{:?}", k)), self.operand(o, body, env), fi, ti)
      }
      Rvalue::BinaryOp(b, ab) => {
        let t = ab.0.ty(&body.local_decls, self.tcx);
        let ti = self.ty(t);
        format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"t\":{}}}", b, self.operand(&ab.0, body, env), self.operand(&ab.1, body, env), ti)
      }
      Rvalue::UnaryOp(u, a) => {
        let t = a.ty(&body.local_decls, self.tcx);
        let ti = self.ty(t);
        format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{},\"t\":{}}}", u, self.operand(a, body, env), ti)
      }
      Rvalue::Discriminant(p) => {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let ti = self.ty(t);
        format!("{{\"k\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p, body), ti)
      }
      Rvalue::Aggregate(k, fs) => {
        let os = self.ops(fs.iter(), body, env);
        match &**k {
          AggregateKind::Array(t) => { let ti = self.ty(*t); format!("{{\"k\":\"agg\",\"a\":\"array\",\"t\":{},\"f\":{}}}", ti, os) }
          AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"f\":{}}}", os),
          AggregateKind::Adt(d, v, args, _, active) => {
            let def = self.tcx.adt_def(*d);
            self.adt(def);
            let ta: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
            let _ = active;
            format!("{{\"k\":\"agg\",\"a\":\"adt\",\"p\":{},\"v\":{},\"vi\":{},\"ta\":[{}],\"f\":{}}}",
              esc(&self.path(*d)), esc(def.variant(*v).name.as_str()), v.as_usize(), ta.join(","), os)
          }
          AggregateKind::Closure(d, _) => format!("{{\"k\":\"agg\",\"a\":\"closure\",\"p\":{},\"f\":{}}}", esc(&self.path(*d)), os),
          AggregateKind::RawPtr(..) => format!("{{\"k\":\"agg\",\"a\":\"rawptr\",\"f\":{}}}", os),
          _ => format!("{{\"k\":\"agg\",\"a\":\"other\",\"f\":{}}}", os),
        }
      }
      Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p, body)),
      Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"p\":{}}}", esc(&self.path(*d))),
      _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", r))),
    }
  }

  fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
    let mut o = String::new();
    let _ = write!(o, "\"argc\":{},\"locals\":[", body.arg_count);
    let mut names: HashMap<usize, String> = HashMap::new();
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); }
      }
    }
    for (l, d) in body.local_decls.iter_enumerated() {
      if l.as_usize() > 0 { o.push(',') }
      let ti = self.ty(d.ty);
      let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".into());
      let _ = write!(o, "[{},{},{}]", ti, n, d.is_user_variable());
    }
    o.push_str("],\"blocks\":[");
    for (b, bb) in body.basic_blocks.iter_enumerated() {
      if b.as_usize() > 0 { o.push(',') }
      let _ = write!(o, "{{\"cl\":{},\"s\":[", bb.is_cleanup);
      let mut first = true;
      for s in &bb.statements {
        let t = match &s.kind {
          StatementKind::Assign(ab) => {
            let (p, r) = &**ab;
            let ps = self.place(p, body);
            let rs = self.rvalue(r, body, env);
            format!("{{\"k\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}", ps, rs, esc(&self.span(s.source_info.span)))
          }
          StatementKind::SetDiscriminant { place, variant_index } =>
            format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(place, body), variant_index.as_usize()),
          StatementKind::StorageDead(l) => format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize()),
          StatementKind::StorageLive(l) => format!("{{\"k\":\"live\",\"l\":{}}}", l.as_usize()),
          StatementKind::Intrinsic(i) => format!("{{\"k\":\"intrinsic\",\"s\":{}}}", esc(&format!("{:?}", i))),
          _ => continue,
        };
        if !first { o.push(',') }
        first = false;
        o.push_str(&t);
      }
      o.push_str("],\"t\":");
      let term = bb.terminator();
      let sp = esc(&self.span(term.source_info.span));
      let exp = term.source_info.span.from_expansion();
      let t = match &term.kind {
        TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
        TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
        TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let dt = discr.ty(&body.local_decls, self.tcx);
          let ti = self.ty(dt);
          let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
          format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"v\":[{}],\"o\":{},\"sp\":{}}}", self.operand(discr, body, env), ti, v.join(","), targets.otherwise().as_usize(), sp)
        }
        TerminatorKind::Return => "{\"k\":\"return\"}".into(),
        TerminatorKind::Unreachable => format!("{{\"k\":\"unreachable\",\"sp\":{}}}", sp),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
        TerminatorKind::Drop { place, target, .. } => {
          let pt = place.ty(&body.local_decls, self.tcx).ty;
          let ti = self.ty(pt);
          format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}", self.place(place, body), ti, target.as_usize())
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = self.operand(func, body, env);
          let av: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
          let d = self.place(destination, body);
          let dt = destination.ty(&body.local_decls, self.tcx).ty;
          let ti = self.ty(dt);
          let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); self.ty(t).to_string() }).collect();
          format!("{{\"k\":\"call\",\"f\":{},\"args\":[{}],\"at\":[{}],\"d\":{},\"dt\":{},\"t\":{},\"sp\":{},\"exp\":{}}}",
            f, av.join(","), at.join(","), d, ti, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp, exp)
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let (kind, ops) = match &**msg {
            AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
            AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
            AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![a]),
            AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![a]),
            AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![a]),
            _ => ("other".to_string(), vec![]),
          };
          let os = self.ops(ops.into_iter(), body, env);
          format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":{},\"t\":{},\"sp\":{}}}",
            self.operand(cond, body, env), expected, esc(&kind), os, target.as_usize(), sp)
        }
        k => format!("{{\"k\":\"other\",\"s\":{},\"sp\":{}}}", esc(&format!("{:?}", k)), sp),
      };
      o.push_str(&t);
      o.push('}');
    }
    o.push(']');
    o
  }

  fn run(&mut self) -> String {
    let tcx = self.tcx;
    let mut fns = Vec::new();
    let mut owners: Vec<_> = tcx.hir_body_owners().collect();
    owners.sort_by_key(|d| d.local_def_index.as_u32());
    // Clone every body first: resolving callees and evaluating constants below makes later
    // compiler passes consume (steal) the originals.
    let bodies: HashMap<rustc_span::def_id::LocalDefId, Body<'tcx>> = owners
      .iter()
      .filter(|d| !matches!(tcx.def_kind(d.to_def_id()), DefKind::AnonConst))
      .map(|d| (*d, tcx.mir_built(*d).borrow().clone()))
      .collect();
    for ld in owners {
      let did = ld.to_def_id();
      let dk = tcx.def_kind(did);
      if matches!(dk, DefKind::AnonConst) { continue }
      let env = ty::TypingEnv::post_analysis(tcx, did);
      let mut o = format!("{{\"path\":{},\"kind\":{}", esc(&self.path(did)), esc(&format!("{:?}", dk)));
      let _ = write!(o, ",\"span\":{}", esc(&self.span(tcx.def_span(did))));
      let ev = tcx.effective_visibilities(());
      let _ = write!(o, ",\"pub\":{}", ev.is_exported(ld) || ev.is_reachable(ld));
      if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        let root = tcx.typeck_root_def_id(did);
        let _ = write!(o, ",\"root\":{}", esc(&self.path(root)));
      }
      if let DefKind::Closure = dk {
        let _ = write!(o, ",\"parent\":{}", esc(&self.path(tcx.parent(did))));
      }
      if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
        if let Some(im) = tcx.impl_of_assoc(did) {
          let st = self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
          let _ = write!(o, ",\"self_ty\":{},\"name\":{}", st, esc(tcx.item_name(did).as_str()));
          if let Some(tr) = tcx.impl_opt_trait_ref(im) {
            let tr = tr.instantiate_identity().skip_norm_wip();
            let a: Vec<String> = tr.args.types().map(|x| self.ty(x).to_string()).collect();
            let _ = write!(o, ",\"trait\":{},\"targs\":[{}],\"derived\":{}", esc(&self.path(tr.def_id)), a.join(","), tcx.is_builtin_derived(im));
          }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
          let _ = write!(o, ",\"of_trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(did).as_str()));
        } else {
          let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(did).as_str()));
        }
        let sig = tcx.fn_sig(did).skip_binder();
        let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
        let gens = tcx.generics_of(did);
        let mut gp = Vec::new();
        let mut cur = Some(gens);
        while let Some(g) = cur {
          let mut own: Vec<String> = g.own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. })).map(|p| esc(p.name.as_str())).collect();
          own.extend(gp);
          gp = own;
          cur = g.parent.map(|p| tcx.generics_of(p));
        }
        let _ = write!(o, ",\"gen\":[{}]", gp.join(","));
      }
      let s = self.body(&bodies[&ld], env);
      let _ = write!(o, ",{}}}", s);
      fns.push(o);
    }
    // statics and trait impls
    let mut statics = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
      let d = id.to_def_id();
      if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let freeze = t.is_freeze(tcx, env);
        statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"ty\":{}}}", esc(&self.path(d)), mutability.is_mut(), freeze, tcx.is_thread_local_static(d), esc(&t.to_string())));
      }
    }
    let mut o = String::from("{\"fns\":[\n");
    o.push_str(&fns.join(",\n"));
    let _ = write!(o, "\n],\"statics\":[{}],\"types\":[\n", statics.join(","));
    o.push_str(&self.tys.join(",\n"));
    o.push_str("\n],\"adts\":{\n");
    let a: Vec<String> = self.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    o.push_str(&a.join(",\n"));
    o.push_str("\n}}\n");
    o
  }
}

struct Cb { out: String }

impl Callbacks for Cb {
  fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let mut d = Dumper { tcx, tys: vec![], ty_ids: HashMap::new(), adts: BTreeMap::new(), adt_seen: HashMap::new() };
    let s = d.run();
    if tcx.dcx().has_errors().is_none() {
      std::fs::write(&self.out, s).expect("write dump");
    }
    Compilation::Continue
  }
}

fn main() {
  // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
  let mut args: Vec<String> = std::env::args().collect();
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
  let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "cmacro");
  let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
  struct Nop;
  impl Callbacks for Nop {}
  let code = rustc_driver::catch_with_exit_code(|| {
    if is_target && !out.is_empty() {
      rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
      rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
  });
  std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
