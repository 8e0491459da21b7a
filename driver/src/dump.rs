use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};

struct Item<'tcx> {
	key: String,
	inst: Instance<'tcx>,
	promoted: Option<Promoted>,
	env: TypingEnv<'tcx>,
	root: bool,
	constant: bool,
}

struct Cx<'tcx> {
	tcx: TyCtxt<'tcx>,
	seen: HashMap<String, ()>,
	queue: VecDeque<Item<'tcx>>,
	follow: Vec<String>,
	adts: HashMap<String, J>,
	codec: HashMap<String, ()>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
	with_no_trimmed_paths!({
		let p = tcx.def_path_str(d);
		if d.is_local() {
			format!("{}::{}", tcx.crate_name(LOCAL_CRATE), p)
		} else {
			p
		}
	})
}

fn show<T: std::fmt::Display>(t: T) -> String {
	with_no_trimmed_paths!(format!("{t}"))
}

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
	let sp = sp.source_callsite();
	if sp.is_dummy() {
		return J::Null;
	}
	let sm = tcx.sess.source_map();
	let lo = sm.lookup_char_pos(sp.lo());
	let f = match &lo.file.name {
		rustc_span::FileName::Real(r) => format!("{}", r.local_path().map(|p| p.display().to_string()).unwrap_or_default()),
		o => format!("{o:?}"),
	};
	J::A(vec![s(f), n(lo.line)])
}

impl<'tcx> Cx<'tcx> {
	fn followable(&self, d: DefId) -> bool {
		if !self.tcx.is_mir_available(d) {
			return false;
		}
		if d.is_local() {
			return true;
		}
		let cname = self.tcx.crate_name(d.krate).to_string();
		if self.follow.iter().any(|f| *f == cname) {
			return true;
		}
		if cname == "core" || cname == "alloc" || cname == "std" {
			let p = self.tcx.def_path(d).to_string_no_crate_verbose();
			let p = p.as_str();
			for a in [
				"::option::", "::result::", "::ops::control_flow", "::ops::try_trait", "::mem::replace", "::mem::take", "::mem::swap",
				"::bool::", "::convert::",
			] {
				if p.starts_with(a) {
					return !p.contains("::ptr::");
				}
			}
			return false;
		}
		false
	}

	fn key(&self, inst: &Instance<'tcx>) -> String {
		let p = path(self.tcx, inst.def_id());
		// FNV-1a over the instantiation: keys stay short, the path stays readable
		let a = with_no_trimmed_paths!(format!("{:?}", inst.args));
		let mut h: u64 = 0xcbf29ce484222325;
		for b in a.bytes() {
			h = (h ^ b as u64).wrapping_mul(0x100000001b3);
		}
		format!("{p}#{h:x}")
	}

	fn enqueue(&mut self, inst: Instance<'tcx>, promoted: Option<Promoted>, env: TypingEnv<'tcx>) -> String {
		let mut key = self.key(&inst);
		if let Some(p) = promoted {
			key = format!("{key}::promoted[{}]", p.as_usize());
		}
		if self.seen.insert(key.clone(), ()).is_none() {
			self.queue.push_back(Item { key: key.clone(), inst, promoted, env, root: false, constant: false });
		}
		key
	}

	fn adt(&mut self, def: ty::AdtDef<'tcx>) {
		let p = path(self.tcx, def.did());
		if self.adts.contains_key(&p) {
			return;
		}
		let mut vs = vec![];
		for (i, v) in def.variants().iter_enumerated() {
			let disc = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val } else { 0 };
			let fs = v
				.fields
				.iter()
				.map(|f| {
					J::A(vec![s(f.name), s(show(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])
				})
				.collect();
			vs.push(J::O(vec![("name", s(v.name)), ("disc", J::U(disc)), ("fields", J::A(fs))]));
		}
		let j = J::O(vec![
			("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
			("variants", J::A(vs)),
			("span", span_j(self.tcx, self.tcx.def_span(def.did()))),
		]);
		self.adts.insert(p, j);
	}

	fn callee(&mut self, def_id: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
		let tcx = self.tcx;
		let mut o = vec![("path", s(path(tcx, def_id)))];
		let targs: Vec<J> = args.iter().filter(|a| a.as_region().is_none()).map(|a| s(show(a))).collect();
		o.push(("args", J::A(targs)));
		if let Some(tr) = tcx.trait_of_assoc(def_id) {
			o.push(("trait", s(path(tcx, tr))));
			o.push(("self", s(show(args.type_at(0)))));
		} else if let Some(imp) = tcx.impl_of_assoc(def_id) {
			let t = tcx.type_of(imp).instantiate(tcx, args);
			o.push(("self", s(show(t.skip_norm_wip()))));
		}
		if let DefKind::Ctor(..) = tcx.def_kind(def_id) {
			let parent = tcx.parent(def_id);
			let (adt_id, variant) = match tcx.def_kind(parent) {
				DefKind::Variant => (tcx.parent(parent), Some(tcx.item_name(parent).to_string())),
				_ => (parent, None),
			};
			self.adt(tcx.adt_def(adt_id));
			o.push(("ctor", J::A(vec![s(path(tcx, adt_id)), variant.map(s).unwrap_or(J::Null)])));
			return J::O(o);
		}
		match Instance::try_resolve(tcx, env, def_id, args) {
			Ok(Some(inst)) => match inst.def {
				InstanceKind::Item(d) => {
					if d != def_id {
						o.push(("rpath", s(path(tcx, d))));
						if let Some(imp) = tcx.impl_of_assoc(d) {
							let t = tcx.type_of(imp).instantiate(tcx, inst.args);
							o.push(("rself", s(show(t.skip_norm_wip()))));
						}
					}
					let fnlike = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
					if fnlike && self.followable(d) {
						let k = self.enqueue(inst, None, env);
						o.push(("inst", s(k)));
					}
				},
				InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
					o.push(("shim", s(path(tcx, closure))));
				},
				ref k => {
					o.push(("shim", s(format!("{k:?}").split('(').next().unwrap_or(""))));
				},
			},
			_ => {
				// unresolved trait method: a provided (default) body may still be followed if local
				if tcx.trait_of_assoc(def_id).is_some() {
					o.push(("unres", J::B(true)));
				}
			},
		}
		J::O(o)
	}

	fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
		let tcx = self.tcx;
		let mut out = vec![];
		let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
		for e in p.projection.iter() {
			let j = match e {
				ProjectionElem::Deref => s("*"),
				ProjectionElem::Field(f, _) => {
					let name = match pt.ty.kind() {
						ty::Adt(def, _) => {
							let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
							if def.is_enum() && pt.variant_index.is_none() {
								f.as_usize().to_string()
							} else {
								def.variant(v).fields[f].name.to_string()
							}
						},
						_ => f.as_usize().to_string(),
					};
					J::O(vec![("f", s(name))])
				},
				ProjectionElem::Index(l) => J::O(vec![("i", n(l.as_usize()))]),
				ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
					J::O(vec![("ci", J::N(offset as i128)), ("min", J::N(min_length as i128)), ("end", J::B(from_end))]),
				ProjectionElem::Subslice { from, to, from_end } =>
					J::O(vec![("ss", J::A(vec![J::N(from as i128), J::N(to as i128), J::B(from_end)]))]),
				ProjectionElem::Downcast(sym, v) => {
					let name = sym.map(|x| x.to_string()).unwrap_or_else(|| match pt.ty.kind() {
						ty::Adt(def, _) => def.variant(v).name.to_string(),
						_ => v.as_usize().to_string(),
					});
					J::O(vec![("v", s(name))])
				},
				_ => J::O(vec![("x", s(format!("{e:?}")))]),
			};
			out.push(j);
			pt = pt.projection_ty(tcx, e);
		}
		J::A(vec![n(p.local.as_usize()), J::A(out)])
	}

	fn scalar(&mut self, v: ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
		let tcx = self.tcx;
		let mut o = vec![];
		match v {
			ConstValue::ZeroSized => o.push(("zst", J::B(true))),
			_ => {},
		}
		if let ConstValue::Scalar(_) = v {
			if ty.is_integral() || ty.is_bool() || ty.is_char() {
				if let Some(b) = v.try_to_bits_for_ty(tcx, env, ty) {
					if ty.is_signed() {
						if let Some(si) = v.try_to_scalar_int() {
							let size = si.size();
							o.push(("int", J::N(si.to_int(size))));
						}
					} else {
						o.push(("int", J::U(b)));
					}
				}
			} else if let ty::Adt(def, _) = ty.kind() {
				self.adt(*def);
			}
		}
		if let ty::Ref(_, inner, _) = ty.kind() {
			if inner.is_str() {
				if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
					o.push(("str", s(String::from_utf8_lossy(b))));
				}
			}
		}
		o
	}

	fn constant(&mut self, c: &ConstOperand<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
		let tcx = self.tcx;
		let _ = inst;
		let ty = c.const_.ty();
		let mut o = vec![("ty", s(show(ty)))];
		match ty.kind() {
			ty::FnDef(d, args) => {
				let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
				o.push(("fn", self.callee(*d, args, env)));
				return J::O(vec![("c", J::O(o))]);
			},
			ty::Closure(d, args) => {
				let k = self.enqueue(Instance { def: InstanceKind::Item(*d), args }, None, env);
				o.push(("closure", s(k)));
				return J::O(vec![("c", J::O(o))]);
			},
			ty::Adt(def, _) => self.adt(*def),
			_ => {},
		}
		match c.const_ {
			Const::Val(v, t) => o.extend(self.scalar(v, t, env)),
			Const::Unevaluated(u, t) =>
				if let Some(p) = u.promoted {
					let i = Instance { def: InstanceKind::Item(u.def), args: u.args };
					let k = self.enqueue(i, Some(p), env);
					o.push(("promoted", s(k)));
					return J::O(vec![("c", J::O(o))]);
				} else {
					o.push(("path", s(path(tcx, u.def))));
					let targs: Vec<J> = u.args.iter().filter(|a| a.as_region().is_none()).map(|a| s(show(a))).collect();
					o.push(("args", J::A(targs)));
					use rustc_middle::ty::TypeVisitableExt;
					let generic = u.args.has_param() || u.args.has_aliases();
					// a named constant of this crate that is a structure, or a number of a generic type: its initialiser is read like a function
					let named = matches!(tcx.def_kind(u.def), DefKind::Const { .. } | DefKind::AssocConst { .. });
					let of_trait = tcx.trait_of_assoc(u.def).is_some();
					if named && !of_trait && u.def.is_local() && (matches!(ty.kind(), ty::Adt(..)) || generic && (ty.is_integral() || ty.is_bool())) {
						let i = Instance { def: InstanceKind::Item(u.def), args: u.args };
						let key = format!("{}::const", self.key(&i));
						if self.seen.insert(key.clone(), ()).is_none() {
							self.queue.push_back(Item { key: key.clone(), inst: i, promoted: None, env, root: false, constant: true });
						}
						o.push(("body", s(key)));
					}
					if !generic {
						if let Ok(v) = c.const_.eval(tcx, env, DUMMY_SP) {
							o.extend(self.scalar(v, t, env));
						}
					}
				},
			Const::Ty(_, ct) => {
				if let Some(si) = ct.try_to_leaf() {
					o.push(("int", J::U(si.to_bits(si.size()))));
				}
			},
		}
		o.push(("pp", s(show(c.const_))));
		J::O(vec![("c", J::O(o))])
	}

	fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
		match op {
			Operand::Copy(p) => J::O(vec![("cp", self.place(body, p))]),
			Operand::Move(p) => J::O(vec![("mv", self.place(body, p))]),
			Operand::Constant(c) => self.constant(c, inst, env),
			Operand::RuntimeChecks(_) => J::O(vec![("c", J::O(vec![("ty", s("bool")), ("int", J::N(0)), ("pp", s("rtcheck"))]))]),
		}
	}

	fn variants_of(&mut self, t: Ty<'tcx>) -> J {
		if let ty::Adt(def, _) = t.kind() {
			self.adt(*def);
			if def.is_enum() {
				let mut v = vec![];
				for (i, d) in def.discriminants(self.tcx) {
					v.push(J::A(vec![J::U(d.val), s(def.variant(i).name)]));
				}
				return J::A(v);
			}
		}
		J::Null
	}

	fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, inst: &Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
		let tcx = self.tcx;
		match r {
			Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o, inst, env)]),
			Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(body, o, inst, env), s(show(c))]),
			Rvalue::Ref(_, bk, p) => J::A(vec![
				s("ref"),
				self.place(body, p),
				J::B(matches!(bk, BorrowKind::Mut { .. })),
			]),
			Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), {
				let mut q = self.place(body, p);
				if let J::A(ref mut v) = q {
					if let J::A(ref mut w) = v[1] {
						w.push(s("*"));
					}
				}
				q
			}, J::B(m.is_mut())]),
			Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(body, p), J::B(true)]),
			Rvalue::Cast(k, o, t) => J::A(vec![
				s("cast"),
				s(format!("{k:?}").split('(').next().unwrap_or("").to_string()),
				self.operand(body, o, inst, env),
				s(show(t)),
				s(show(o.ty(body, tcx))),
			]),
			Rvalue::BinaryOp(op, b) => J::A(vec![
				s("bin"),
				s(format!("{op:?}")),
				self.operand(body, &b.0, inst, env),
				self.operand(body, &b.1, inst, env),
				s(show(b.0.ty(body, tcx))),
			]),
			Rvalue::UnaryOp(op, o) => {
				J::A(vec![s("un"), s(format!("{op:?}")), self.operand(body, o, inst, env), s(show(o.ty(body, tcx)))])
			},
			Rvalue::Discriminant(p) => {
				let t = p.ty(body, tcx).ty;
				J::A(vec![s("discr"), self.place(body, p), self.variants_of(t), s(show(t))])
			},
			Rvalue::Aggregate(k, ops) => {
				let os: Vec<J> = ops.iter().map(|o| self.operand(body, o, inst, env)).collect();
				match &**k {
					AggregateKind::Adt(d, v, _args, _, uf) => {
						let def = tcx.adt_def(*d);
						self.adt(def);
						let var = def.variant(*v);
						let names: Vec<J> = if let Some(f) = uf {
							vec![s(var.fields[*f].name)]
						} else {
							var.fields.iter().map(|f| s(f.name)).collect()
						};
						J::A(vec![
							s("adt"),
							s(path(tcx, *d)),
							if def.is_enum() { s(var.name) } else { J::Null },
							J::A(names),
							J::A(os),
						])
					},
					AggregateKind::Tuple => J::A(vec![s("tuple"), J::A(os)]),
					AggregateKind::Array(_) => J::A(vec![s("array"), J::A(os)]),
					AggregateKind::Closure(d, args) => {
						let key = self.enqueue(Instance { def: InstanceKind::Item(*d), args }, None, env);
						J::A(vec![s("closure"), s(key), J::A(os)])
					},
					o => J::A(vec![s("agg?"), s(format!("{o:?}")), J::A(os)]),
				}
			},
			Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(body, p))])]),
			o => J::A(vec![s("rv?"), s(format!("{o:?}"))]),
		}
	}

	fn body(&mut self, it: &Item<'tcx>) -> Option<J> {
		let tcx = self.tcx;
		let d = it.inst.def_id();
		let raw = match it.promoted {
			Some(p) => tcx.promoted_mir(d)[p].clone(),
			None if it.constant => tcx.mir_for_ctfe(d).clone(),
			None => tcx.instance_mir(it.inst.def).clone(),
		};
		let body: Body<'tcx> =
			it.inst.instantiate_mir_and_normalize_erasing_regions(tcx, it.env, ty::EarlyBinder::bind(tcx, raw));
		let mut names: HashMap<usize, String> = HashMap::new();
		for v in &body.var_debug_info {
			if let VarDebugInfoContents::Place(p) = v.value {
				if p.projection.is_empty() {
					names.insert(p.local.as_usize(), v.name.to_string());
				}
			}
		}
		let mut upvars = vec![];
		if let Some(l) = d.as_local() {
			if tcx.is_closure_like(d) {
				for c in tcx.closure_captures(l) {
					upvars.push(s(c.to_string(tcx)));
				}
			}
		}
		let locals: Vec<J> = body
			.local_decls
			.iter_enumerated()
			.map(|(i, ld)| {
				J::A(vec![s(show(ld.ty)), names.get(&i.as_usize()).map(|x| s(x)).unwrap_or(J::Null)])
			})
			.collect();
		let mut blocks = vec![];
		for (_bb, bd) in body.basic_blocks.iter_enumerated() {
			if bd.is_cleanup {
				blocks.push(J::Null);
				continue;
			}
			let mut st = vec![];
			for x in &bd.statements {
				match &x.kind {
					StatementKind::Assign(b) => {
						let (p, r) = &**b;
						st.push(J::A(vec![
							self.place(&body, p),
							self.rvalue(&body, r, &it.inst, it.env),
							span_j(tcx, x.source_info.span),
						]));
					},
					StatementKind::SetDiscriminant { place, variant_index } => {
						let t = place.ty(&body, tcx).ty;
						let nm = match t.kind() {
							ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
							_ => variant_index.as_usize().to_string(),
						};
						st.push(J::A(vec![self.place(&body, place), J::A(vec![s("setdiscr"), s(nm)]), J::Null]));
					},
					_ => {},
				}
			}
			let t = bd.terminator();
			let sp = span_j(tcx, t.source_info.span);
			let tj = match &t.kind {
				TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
				TerminatorKind::SwitchInt { discr, targets } => {
					let ts = targets.iter().map(|(v, b)| J::A(vec![J::U(v), n(b.as_usize())])).collect();
					J::O(vec![
						("k", s("switch")),
						("d", self.operand(&body, discr, &it.inst, it.env)),
						("dty", s(show(discr.ty(&body, tcx)))),
						("ts", J::A(ts)),
						("o", n(targets.otherwise().as_usize())),
						("sp", sp),
					])
				},
				TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
				TerminatorKind::Drop { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
				TerminatorKind::Call { func, args, destination, target, .. } => {
					let f = match func {
						Operand::Constant(c) => match c.const_.ty().kind() {
							ty::FnDef(d, a) => {
								let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
								self.callee(*d, a, it.env)
							},
							_ => J::O(vec![("dyn", self.operand(&body, func, &it.inst, it.env))]),
						},
						_ => J::O(vec![("dyn", self.operand(&body, func, &it.inst, it.env))]),
					};
					let aj = args.iter().map(|a| self.operand(&body, &a.node, &it.inst, it.env)).collect();
					let at = args.iter().map(|a| s(show(a.node.ty(&body, tcx)))).collect();
					J::O(vec![
						("k", s("call")),
						("f", f),
						("a", J::A(aj)),
						("aty", J::A(at)),
						("d", self.place(&body, destination)),
						("dty", s(show(destination.ty(&body, tcx).ty))),
						("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)),
						("sp", sp),
					])
				},
				TerminatorKind::Assert { cond, expected, msg, target, .. } => J::O(vec![
					("k", s("assert")),
					("c", self.operand(&body, cond, &it.inst, it.env)),
					("e", J::B(*expected)),
					("m", s(format!("{msg:?}").split('(').next().unwrap_or("").split(' ').next().unwrap_or(""))),
					("t", n(target.as_usize())),
					("sp", sp),
				]),
				TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } =>
					J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
				_ => J::O(vec![("k", s("unreach"))]),
			};
			blocks.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
		}
		let spread = body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null);
		Some(J::O(vec![
			("key", s(&it.key)),
			("path", s(path(tcx, d))),
			("crate", s(tcx.crate_name(d.krate))),
			("root", J::B(it.root)),
			("codec", J::B(self.codec.contains_key(&it.key))),
			("closure", J::B(tcx.is_closure_like(d))),
			("expn", J::B(tcx.def_span(d).from_expansion())),
			("span", span_j(tcx, tcx.def_span(d))),
			("nargs", n(body.arg_count)),
			("spread", spread),
			("upvars", J::A(upvars)),
			("locals", J::A(locals)),
			("blocks", J::A(blocks)),
		]))
	}
}

pub fn dump(tcx: TyCtxt<'_>, dir: &str) {
	let follow = std::env::var("MIRFACTS_FOLLOW").unwrap_or_default();
	let mut cx = Cx {
		tcx,
		seen: HashMap::new(),
		queue: VecDeque::new(),
		follow: follow.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
		adts: HashMap::new(),
		codec: HashMap::new(),
	};
	let mut impls = vec![];
	for id in tcx.hir_crate_items(()).definitions() {
		let d = id.to_def_id();
		match tcx.def_kind(d) {
			DefKind::Struct | DefKind::Enum => cx.adt(tcx.adt_def(d)),
			DefKind::Impl { of_trait: true } => {
				let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
				impls.push(J::O(vec![
					("trait", s(path(tcx, tr.def_id))),
					("ref", s(show(tr.print_only_trait_path()))),
					("self", s(show(tr.self_ty()))),
					("derived", J::B(tcx.is_automatically_derived(d))),
					("span", span_j(tcx, tcx.def_span(d))),
					("items", J::A(tcx.associated_item_def_ids(d).iter().map(|x| s(tcx.item_name(*x))).collect())),
				]));
			},
			_ => {},
		}
	}
	let mut skipped = vec![];
	for id in tcx.mir_keys(()) {
		let d = id.to_def_id();
		if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
			continue;
		}
		if tcx.is_closure_like(d) || !tcx.is_mir_available(d) {
			continue;
		}
		let p = path(tcx, d);
		let mut codec = false;
		if let Some(imp) = tcx.impl_of_assoc(d) {
			if tcx.is_automatically_derived(imp) {
				// the derived encoding and decoding of the crate's types, except of its calls, events and errors
				let Some(tr) = tcx.impl_opt_trait_ref(imp) else { continue };
				let tr = tr.instantiate_identity().skip_norm_wip();
				let t = path(tcx, tr.def_id);
				let me = show(tr.self_ty());
				let me = me.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
				let m = tcx.item_name(d);
				codec = (t.ends_with("codec::Encode") && m.as_str() == "encode_to" || t.ends_with("codec::Decode") && m.as_str() == "decode") &&
					!["Call", "Event", "Error"].contains(&me.as_str());
				if !codec {
					continue;
				}
			}
			if codec {
			} else if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
				let t = path(tcx, tr.instantiate_identity().skip_norm_wip().def_id);
				if ["codec::", "parity_scale_codec::", "scale_info::", "core::fmt::", "std::fmt::", "_serde::", "serde_core::", "serde::"].iter().any(|x| t.starts_with(x)) &&
					tcx.def_span(d).from_expansion()
				{
					continue;
				}
			}
		}
		let args = ty::GenericArgs::identity_for_item(tcx, d);
		let inst = Instance { def: InstanceKind::Item(d), args };
		let env = TypingEnv::post_analysis(tcx, d);
		let key = cx.key(&inst);
		if codec {
			cx.codec.insert(key.clone(), ());
		}
		if cx.seen.insert(key.clone(), ()).is_none() {
			cx.queue.push_back(Item { key, inst, promoted: None, env, root: !codec, constant: false });
		}
		let _ = &mut skipped;
		let _: &Vec<String> = &skipped;
		let _ = p;
	}
	let cname = tcx.crate_name(LOCAL_CRATE).to_string();
	let mut out = String::new();
	out.push_str("{\"crate\":\"");
	out.push_str(&cname);
	out.push_str("\",\"fns\":[\n");
	let mut first = true;
	let mut count = 0usize;
	while let Some(it) = cx.queue.pop_front() {
		if it.promoted.is_none() && !it.constant && !tcx.is_mir_available(it.inst.def_id()) {
			continue;
		}
		if let Some(j) = cx.body(&it) {
			if !first {
				out.push_str(",\n");
			}
			first = false;
			j.write(&mut out);
			count += 1;
		}
	}
	out.push_str("\n],\"adts\":{");
	let mut ks: Vec<_> = cx.adts.keys().cloned().collect();
	ks.sort();
	for (i, k) in ks.iter().enumerate() {
		if i > 0 {
			out.push_str(",\n");
		}
		s(k).write(&mut out);
		out.push(':');
		cx.adts[k].write(&mut out);
	}
	out.push_str("},\"impls\":");
	J::A(impls).write(&mut out);
	out.push_str(&format!(",\"nfns\":{count}}}\n"));
	let f = format!("{dir}/{cname}.json");
	let tmp = format!("{f}.{}.tmp", std::process::id());
	std::fs::write(&tmp, out).expect("write facts");
	std::fs::rename(&tmp, &f).expect("rename facts");
}
