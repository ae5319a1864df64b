//! rustc_private driver: dumps the type-checked, drop-elaborated MIR of the crate being compiled
//! (plus item signatures, impls and type definitions) as JSON. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(internal_features)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::{Span, Symbol};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeSet, HashMap};

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts_seen: BTreeSet<String>,
    adts: Vec<J>,
}

fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { J::O(vec![$(($k.to_string(), $v)),*]) };
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("crate::{}", p)
        } else {
            p
        }
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, lo.line))
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = x.as_const() {
                v.push(s(format!("const {}", c)));
            }
        }
        J::A(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) {
            return n(*i);
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let str_ = format!("{}", t);
        let mut o = match t.kind() {
            ty::TyKind::Adt(def, a) => {
                self.adt(def.did());
                let args = self.args(a);
                let aa: Vec<J> = vec![];
                let _ = aa;
                obj! {"k" => s("adt"), "path" => s(self.path(def.did())), "args" => args, "local" => J::B(def.did().is_local())}
            }
            ty::TyKind::Ref(_, t2, m) => {
                let e = self.ty(*t2);
                obj! {"k" => s("ref"), "mut" => J::B(m.is_mut()), "t" => e}
            }
            ty::TyKind::RawPtr(t2, m) => {
                let e = self.ty(*t2);
                obj! {"k" => s("ptr"), "mut" => J::B(m.is_mut()), "t" => e}
            }
            ty::TyKind::Slice(e) => {
                let e = self.ty(*e);
                obj! {"k" => s("slice"), "t" => e}
            }
            ty::TyKind::Array(e, c) => {
                let e = self.ty(*e);
                obj! {"k" => s("array"), "t" => e, "n" => s(format!("{}", c))}
            }
            ty::TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                obj! {"k" => s("tuple"), "ts" => J::A(v)}
            }
            ty::TyKind::FnDef(d, a) => {
                let args = self.args(a.skip_binder());
                obj! {"k" => s("fndef"), "path" => s(self.path(*d)), "args" => args}
            }
            ty::TyKind::Closure(d, a) => {
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                obj! {"k" => s("closure"), "path" => s(self.path(*d)), "upvars" => J::A(up)}
            }
            ty::TyKind::Param(p) => obj! {"k" => s("param"), "name" => s(p.name.to_string())},
            ty::TyKind::Dynamic(..) => obj! {"k" => s("dyn")},
            ty::TyKind::Alias(..) => obj! {"k" => s("alias")},
            ty::TyKind::FnPtr(..) => obj! {"k" => s("fnptr")},
            ty::TyKind::Never => obj! {"k" => s("never")},
            ty::TyKind::Bool
            | ty::TyKind::Char
            | ty::TyKind::Int(_)
            | ty::TyKind::Uint(_)
            | ty::TyKind::Float(_)
            | ty::TyKind::Str => obj! {"k" => s("prim")},
            _ => obj! {"k" => s("other")},
        };
        if let J::O(v) = &mut o {
            v.push(("s".to_string(), s(str_)));
        }
        self.ty_out[i] = o;
        n(i)
    }

    fn adt(&mut self, d: DefId) {
        let p = self.path(d);
        if !self.adts_seen.insert(p.clone()) {
            return;
        }
        let def = self.tcx.adt_def(d);
        let idx = self.adts.len();
        self.adts.push(J::Null);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { J::N(def.discriminant_for_variant(self.tcx, vi).val as i128) } else { J::Null };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = self.ty(fty);
                let vis = match f.vis {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(m) => format!("in {}", self.path(m.to_def_id())),
                };
                fs.push(obj! {"name" => s(f.name.to_string()), "ty" => t, "vis" => s(vis)});
            }
            vs.push(obj! {"name" => s(v.name.to_string()), "discr" => discr, "fields" => J::A(fs)});
        }
        let has_drop = self.tcx.adt_destructor(d).is_some();
        let repr = format!("{:?}", def.repr().flags);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let params: Vec<J> = self.tcx.generics_of(d).own_params.iter().map(|p| s(p.name.to_string())).collect();
        let tyself = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let (mut send, mut sync) = (J::Null, J::Null);
        let mut vis = J::Null;
        if d.is_local() {
            let _ = tyself;
            send = self.auto_traits(d, "Send");
            sync = self.auto_traits(d, "Sync");
            vis = J::B(self.tcx.effective_visibilities(()).is_reachable(d.expect_local()));
        }
        let regions = J::A(self.tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name.to_string())).collect());
        let sp = self.span(self.tcx.def_span(d));
        self.adts[idx] = obj! {"path" => s(p), "kind" => s(kind), "variants" => J::A(vs), "drop" => J::B(has_drop), "repr" => s(repr), "params" => J::A(params), "local" => J::B(d.is_local()), "span" => sp, "send" => send, "sync" => sync, "reachable" => vis, "regions" => regions};
    }

    /// does the type implement the auto trait when its type parameters are u8 / Rc<()> / Cell<()>?
    fn auto_traits(&self, d: DefId, tr: &str) -> J {
        let tcx = self.tcx;
        let unit = tcx.types.unit;
        let item = |nm: &str| tcx.get_diagnostic_item(Symbol::intern(nm));
        let (rc, cell) = match (item("Rc"), item("Cell")) {
            (Some(a), Some(b)) => (a, b),
            _ => return J::Null,
        };
        let trait_id = match if tr == "Send" { item("Send") } else { item("Sync").or_else(|| tcx.lang_items().sync_trait()) } {
            Some(t) => t,
            None => return J::Null,
        };
        let global = tcx.lang_items().global_alloc_ty();
        let mk = |id: DefId| {
            let a = ty::GenericArgs::for_item(tcx, id, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => if p.index == 0 { unit.into() } else { Ty::new_adt(tcx, tcx.adt_def(global.unwrap()), ty::List::empty()).into() },
            });
            Ty::new_adt(tcx, tcx.adt_def(id), a)
        };
        let rc_t = mk(rc);
        let cell_t = mk(cell);
        let mut out = vec![];
        for (nm, x) in [("u8", tcx.types.u8), ("Rc", rc_t), ("Cell", cell_t)] {
            let a = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => x.into(),
            });
            let t = Ty::new_adt(tcx, tcx.adt_def(d), a);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            let r = infcx.type_implements_trait(trait_id, [t], ty::ParamEnv::empty()).must_apply_modulo_regions();
            out.push((nm.to_string(), J::B(r)));
        }
        J::O(out)
    }

    /// regions occurring in a type: (region, how: refmut/ref/arg, below a shared reference)
    fn regions(&self, t: Ty<'tcx>, shared: bool, out: &mut Vec<J>) {
        match t.kind() {
            ty::TyKind::Ref(r, t2, m) => {
                out.push(obj! {"r" => s(format!("{:?}", r)), "how" => s(if m.is_mut() { "refmut" } else { "ref" }), "shared" => J::B(shared)});
                self.regions(*t2, shared || !m.is_mut(), out);
            }
            ty::TyKind::Adt(def, a) => {
                for x in a.iter() {
                    if let Some(r) = x.as_region() {
                        out.push(obj! {"r" => s(format!("{:?}", r)), "how" => s("arg"), "adt" => s(self.path(def.did())), "shared" => J::B(shared)});
                    } else if let Some(t) = x.as_type() {
                        self.regions(t, shared, out);
                    }
                }
            }
            ty::TyKind::Tuple(ts) => ts.iter().for_each(|x| self.regions(x, shared, out)),
            ty::TyKind::Slice(e) | ty::TyKind::Array(e, _) => self.regions(*e, shared, out),
            ty::TyKind::RawPtr(t2, _) => self.regions(*t2, shared, out),
            ty::TyKind::Dynamic(_, r) => out.push(obj! {"r" => s(format!("{:?}", r)), "how" => s("dyn"), "shared" => J::B(shared)}),
            _ => {}
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut proj = vec![];
        let tcx = self.tcx;
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => obj! {"k" => s("deref")},
                ProjectionElem::Field(f, t) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::TyKind::Adt(def, _) = pty.ty.kind() {
                        let v = match pty.variant_index {
                            Some(v) => def.variant(v),
                            None => def.non_enum_variant(),
                        };
                        name = v.fields[f].name.to_string();
                    }
                    let tj = self.ty(t);
                    obj! {"k" => s("field"), "i" => n(f.as_usize()), "name" => s(name), "ty" => tj}
                }
                ProjectionElem::Index(l) => obj! {"k" => s("index"), "l" => n(l.as_usize())},
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    obj! {"k" => s("cindex"), "i" => n(offset as usize), "end" => J::B(from_end), "min" => n(min_length as usize)}
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    obj! {"k" => s("subslice"), "from" => n(from as usize), "to" => n(to as usize), "end" => J::B(from_end)}
                }
                ProjectionElem::Downcast(nm, v) => {
                    obj! {"k" => s("downcast"), "v" => n(v.as_usize()), "name" => s(nm.map(|x| x.to_string()).unwrap_or_default())}
                }
                _ => obj! {"k" => s("other")},
            };
            proj.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        obj! {"l" => n(p.local.as_usize()), "p" => J::A(proj)}
    }

    fn operand(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("copy"), "p" => pj}
            }
            Operand::Move(p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("move"), "p" => pj}
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.ty(t);
                let mut v = J::Null;
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                        v = J::N(b as i128);
                        if t.is_signed() {
                            let sz = match t.kind() {
                                ty::TyKind::Int(it) => it.bit_width().unwrap_or(64),
                                _ => 64,
                            };
                            let sh = 128 - sz as u32;
                            v = J::N(((b as i128) << sh) >> sh);
                        }
                    }
                }
                let mut o = vec![
                    ("k".to_string(), s("const")),
                    ("ty".to_string(), tj),
                    ("v".to_string(), v),
                    ("s".to_string(), s(format!("{}", c.const_))),
                ];
                if let Const::Unevaluated(u, _) = c.const_ {
                    o.push(("def".to_string(), s(self.path(u.def))));
                    if let Some(p) = u.promoted {
                        o.push(("promoted".to_string(), n(p.as_usize())));
                    }
                }
                J::O(o)
            }
            Operand::RuntimeChecks(r) => obj! {"k" => s("rtcheck"), "s" => s(format!("{:?}", r))},
        }
    }

    fn callee(&mut self, env: ty::TypingEnv<'tcx>, t: Ty<'tcx>) -> J {
        if let ty::TyKind::FnDef(d, a) = t.kind() {
            let d: DefId = *d;
            let a = a.skip_binder();
            let aj = self.args(a);
            let mut o = vec![
                ("path".to_string(), s(self.path(d))),
                ("args".to_string(), aj),
                ("local".to_string(), J::B(d.is_local())),
                ("full".to_string(), s(self.tcx.def_path_str_with_args(d, a))),
            ];
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                o.push(("trait".to_string(), s(self.path(tr))));
                o.push(("name".to_string(), s(self.tcx.item_name(d).to_string())));
                if a.len() > 0 {
                    if let Some(st) = a[0].as_type() {
                        let j = self.ty(st);
                        o.push(("self".to_string(), j));
                    }
                }
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, a) {
                    let rd = inst.def_id();
                    if rd != d {
                        o.push(("rpath".to_string(), s(self.path(rd))));
                        let ra = self.args(inst.args);
                        o.push(("rargs".to_string(), ra));
                        o.push(("rlocal".to_string(), J::B(rd.is_local())));
                    }
                }
            } else {
                if let Some(im) = self.tcx.impl_of_assoc(d) {
                    let st = self.tcx.type_of(im).instantiate(self.tcx, a).skip_norm_wip();
                    let j = self.ty(st);
                    o.push(("self".to_string(), j));
                    o.push(("name".to_string(), s(self.tcx.item_name(d).to_string())));
                }
            }
            J::O(o)
        } else {
            J::Null
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let j = self.operand(body, env, o);
                obj! {"k" => s("use"), "o" => j}
            }
            Rvalue::Repeat(o, c) => {
                let j = self.operand(body, env, o);
                obj! {"k" => s("repeat"), "o" => j, "n" => s(format!("{}", c))}
            }
            Rvalue::Ref(_, bk, p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("ref"), "mut" => J::B(matches!(bk, BorrowKind::Mut{..})), "p" => pj}
            }
            Rvalue::RawPtr(k, p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("addr"), "mut" => J::B(matches!(k, RawPtrKind::Mut)), "p" => pj}
            }
            Rvalue::Cast(ck, o, t) => {
                let j = self.operand(body, env, o);
                let tj = self.ty(*t);
                obj! {"k" => s("cast"), "ck" => s(format!("{:?}", ck)), "o" => j, "ty" => tj}
            }
            Rvalue::BinaryOp(b, x) => {
                let lt = x.0.ty(body, self.tcx);
                let lt = self.ty(lt);
                let l = self.operand(body, env, &x.0);
                let r = self.operand(body, env, &x.1);
                obj! {"k" => s("bin"), "op" => s(format!("{:?}", b)), "lt" => lt, "l" => l, "r" => r}
            }
            Rvalue::UnaryOp(u, x) => {
                let l = self.operand(body, env, x);
                obj! {"k" => s("un"), "op" => s(format!("{:?}", u)), "o" => l}
            }
            Rvalue::Discriminant(p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("discr"), "p" => pj}
            }
            Rvalue::Aggregate(a, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let mut o = match &**a {
                    AggregateKind::Array(t) => {
                        let tj = self.ty(*t);
                        obj! {"a" => s("array"), "ty" => tj}
                    }
                    AggregateKind::Tuple => obj! {"a" => s("tuple")},
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        obj! {"a" => s("adt"), "path" => s(self.path(*d)), "v" => n(v.as_usize()), "vname" => s(var.name.to_string()),
                        "fields" => J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect())}
                    }
                    AggregateKind::Closure(d, _) => obj! {"a" => s("closure"), "path" => s(self.path(*d))},
                    AggregateKind::RawPtr(..) => obj! {"a" => s("rawptr")},
                    _ => obj! {"a" => s("other")},
                };
                if let J::O(vv) = &mut o {
                    vv.push(("k".to_string(), s("agg")));
                    vv.push(("ops".to_string(), J::A(v)));
                }
                o
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                obj! {"k" => s("use"), "o" => obj!{"k" => s("copy"), "p" => pj}}
            }
            o => obj! {"k" => s("other"), "s" => s(format!("{:?}", o))},
        }
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>) -> Vec<(String, J)> {
        let env = ty::TypingEnv::post_analysis(self.tcx, d);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    upnames.push(obj! {"name" => s(v.name.to_string()), "p" => pj});
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let mut o = vec![("ty".to_string(), t)];
            if let Some(nm) = names.get(&i.as_usize()) {
                o.push(("name".to_string(), s(nm.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let pj = self.place(body, &b.0);
                        let rj = self.rvalue(body, env, &b.1);
                        let sp = self.span(x.source_info.span);
                        st.push(obj! {"k" => s("assign"), "p" => pj, "r" => rj, "sp" => sp});
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(obj! {"k" => s("setdiscr"), "p" => pj, "v" => n(variant_index.as_usize())});
                    }
                    StatementKind::StorageLive(l) => st.push(obj! {"k" => s("live"), "l" => n(l.as_usize())}),
                    StatementKind::StorageDead(l) => st.push(obj! {"k" => s("dead"), "l" => n(l.as_usize())}),
                    StatementKind::Intrinsic(i) => st.push(obj! {"k" => s("intrinsic"), "s" => s(format!("{:?}", i))}),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.as_usize()),
                _ => J::Null,
            };
            let mut t = match &term.kind {
                TerminatorKind::Goto { target, .. } => obj! {"k" => s("goto"), "t" => n(target.as_usize())},
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.operand(body, env, discr);
                    let dt = self.ty(discr.ty(body, self.tcx));
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())]))
                        .collect();
                    obj! {"k" => s("switch"), "d" => dj, "dty" => dt, "cases" => J::A(v), "else" => n(targets.otherwise().as_usize())}
                }
                TerminatorKind::UnwindResume => obj! {"k" => s("resume")},
                TerminatorKind::UnwindTerminate(_) => obj! {"k" => s("abort")},
                TerminatorKind::Return => obj! {"k" => s("return")},
                TerminatorKind::Unreachable => obj! {"k" => s("unreachable")},
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pj = self.place(body, place);
                    let pt = self.ty(place.ty(body, self.tcx).ty);
                    obj! {"k" => s("drop"), "p" => pj, "ty" => pt, "t" => n(target.as_usize()), "u" => unw(unwind)}
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(body, self.tcx);
                    let c = self.callee(env, ft);
                    let fj = self.operand(body, env, func);
                    let av: Vec<J> = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    let dj = self.place(body, destination);
                    let rt = self.ty(destination.ty(body, self.tcx).ty);
                    obj! {"k" => s("call"), "f" => c, "fo" => fj, "args" => J::A(av), "d" => dj, "rty" => rt,
                    "t" => target.map(|x| n(x.as_usize())).unwrap_or(J::Null), "u" => unw(unwind)}
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let cj = self.operand(body, env, cond);
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(body, env, len);
                            let i = self.operand(body, env, index);
                            obj! {"k" => s("bounds"), "len" => l, "i" => i}
                        }
                        AssertKind::Overflow(op, l, r) => {
                            let lj = self.operand(body, env, l);
                            let rj = self.operand(body, env, r);
                            obj! {"k" => s("overflow"), "op" => s(format!("{:?}", op)), "l" => lj, "r" => rj}
                        }
                        _ => obj! {"k" => s("other")},
                    };
                    obj! {"k" => s("assert"), "c" => cj, "exp" => J::B(*expected), "m" => s(m), "msg" => kind, "t" => n(target.as_usize()), "u" => unw(unwind)}
                }
                TerminatorKind::FalseEdge { real_target, .. } => obj! {"k" => s("goto"), "t" => n(real_target.as_usize())},
                TerminatorKind::FalseUnwind { real_target, .. } => obj! {"k" => s("goto"), "t" => n(real_target.as_usize())},
                o => obj! {"k" => s("other"), "s" => s(format!("{:?}", o))},
            };
            if let J::O(v) = &mut t {
                v.push(("sp".to_string(), sp));
            }
            blocks.push(obj! {"s" => J::A(st), "t" => t, "cleanup" => J::B(bb.is_cleanup)});
        }
        vec![
            ("argc".to_string(), n(body.arg_count)),
            ("locals".to_string(), J::A(locals)),
            ("blocks".to_string(), J::A(blocks)),
            ("upnames".to_string(), J::A(upnames)),
        ]
    }

    fn func(&mut self, ld: LocalDefId) -> J {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let mut o = vec![
            ("path".to_string(), s(self.path(d))),
            ("kind".to_string(), s(format!("{:?}", kind))),
            ("span".to_string(), self.span(tcx.def_span(d))),
        ];
        let parent = tcx.opt_parent(d);
        if let Some(p) = parent {
            o.push(("parent".to_string(), s(self.path(p))));
        }
        let ev = tcx.effective_visibilities(());
        o.push(("reachable".to_string(), J::B(ev.is_reachable(ld))));
        o.push(("exported".to_string(), J::B(ev.is_exported(ld))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("name".to_string(), s(tcx.item_name(d).to_string())));
            o.push(("vis".to_string(), s(format!("{:?}", tcx.visibility(d)))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("sig".to_string(), s(format!("{}", sig))));
            o.push(("unsafe".to_string(), J::B(!sig.skip_binder().safety().is_safe())));
            let ins: Vec<J> = sig.skip_binder().inputs().iter().map(|t| self.ty(*t)).collect();
            o.push(("inputs".to_string(), J::A(ins)));
            let mut rin = vec![];
            for t in sig.skip_binder().inputs() {
                let mut v = vec![];
                self.regions(*t, false, &mut v);
                rin.push(J::A(v));
            }
            let mut rout = vec![];
            self.regions(sig.skip_binder().output(), false, &mut rout);
            o.push(("rin".to_string(), J::A(rin)));
            o.push(("rout".to_string(), J::A(rout)));
            let out = self.ty(sig.skip_binder().output());
            o.push(("output".to_string(), out));
            if let Some(im) = tcx.impl_of_assoc(d).or(tcx.trait_impl_of_assoc(d)) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sj = self.ty(st);
                o.push(("self".to_string(), sj));
                o.push(("impl".to_string(), s(format!("{:?}", im))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait".to_string(), s(self.path(tr.def_id))));
                    o.push(("traitref".to_string(), s(format!("{}", tr))));
                }
            }
        }
        let body = tcx.optimized_mir(d);
        o.extend(self.body(d, body));
        let prom = tcx.promoted_mir(d);
        let mut pv = vec![];
        for p in prom.iter() {
            pv.push(J::O(self.body(d, p)));
        }
        o.push(("promoted".to_string(), J::A(pv)));
        J::O(o)
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.ub_checks = Some(false);
        config.opts.cg.overflow_checks = Some(true);
        config.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut dm = Dumper { tcx, tys: HashMap::new(), ty_out: vec![], adts_seen: BTreeSet::new(), adts: vec![] };
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let k = tcx.def_kind(ld.to_def_id());
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                fns.push(dm.func(ld));
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sj = dm.ty(st);
                let mut o = vec![
                    ("self".to_string(), sj),
                    ("span".to_string(), dm.span(tcx.def_span(d))),
                    ("preds".to_string(), J::A(tcx.clauses_of(d).clauses.iter().map(|(p, _)| s(format!("{}", p))).collect())),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait".to_string(), s(dm.path(tr.def_id))));
                    o.push(("polarity".to_string(), s(format!("{:?}", tcx.impl_polarity(d)))));
                }
                let mut sr = vec![];
                dm.regions(st, false, &mut sr);
                o.push(("sregions".to_string(), J::A(sr)));
                let mut assoc = vec![];
                for i in tcx.associated_items(d).in_definition_order() {
                    if matches!(tcx.def_kind(i.def_id), DefKind::AssocTy) && of_trait {
                        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                        let tj = dm.ty(t);
                        let mut rs = vec![];
                        dm.regions(t, false, &mut rs);
                        assoc.push((tcx.item_name(i.def_id).to_string(), obj! {"ty" => tj, "regions" => J::A(rs)}));
                    }
                }
                o.push(("assoc".to_string(), J::O(assoc)));
                let items: Vec<J> = tcx.associated_items(d).in_definition_order().map(|i| s(dm.path(i.def_id))).collect();
                o.push(("items".to_string(), J::A(items)));
                impls.push(J::O(o));
            } else if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                dm.adt(d);
            }
        }
        // constants
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                if tcx.generics_of(d).is_empty() {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tj = dm.ty(t);
                    let mut v = J::Null;
                    if t.is_integral() {
                        if let Ok(c) = tcx.const_eval_poly(d) {
                            if let Some(b) = c.try_to_bits(rustc_abi::Size::from_bits(match t.kind() { ty::TyKind::Uint(u) => u.bit_width().unwrap_or(64), ty::TyKind::Int(u) => u.bit_width().unwrap_or(64), _ => 64 })) {
                                v = J::N(b as i128);
                            }
                        }
                    }
                    consts.push(obj! {"path" => s(dm.path(d)), "ty" => tj, "v" => v});
                }
            }
        }
        let src: Vec<J> = tcx.sess.source_map().files().iter().filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE).map(|f| s(format!("{:?}", f.name))).collect();
        let out = obj! {"crate" => s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string()), "files" => J::A(src), "types" => J::A(dm.ty_out), "adts" => J::A(dm.adts), "fns" => J::A(fns), "impls" => J::A(impls), "consts" => J::A(consts)};
        let mut buf = String::new();
        out.write(&mut buf);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, buf).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let testing = args.iter().any(|a| a == "--test");
    let code = rustc_driver::catch_with_exit_code(|| {
        if is && !out.is_empty() && !testing {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.clone() });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
