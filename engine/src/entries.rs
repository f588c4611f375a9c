//! The public entry points of the library, analysed on all their inputs at once.

use std::rc::Rc;

use rustc_abi::VariantIdx;
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::{DefKind, Res as DefRes};
use rustc_hir::def_id::{CRATE_DEF_ID, DefId};
use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};

use crate::dd::*;
use crate::effects;
use crate::interface;
use crate::interp::*;
use crate::json::J;
use crate::obj;
use crate::ops::*;

/// Variables for arbitrary values; `copies` values share one interleaved order.
struct Pool {
    vars: Vec<Vec<B>>,
    copies: usize,
    /// Only register numbers: significant bits of the machine integers in a field of this name.
    numbers: Option<fn(&str) -> usize>,
    word: usize,
    /// Significant bits of signed integers.
    signed: usize,
    names: [&'static str; 2],
}

impl Pool {
    fn new(copies: usize) -> Pool {
        Pool { vars: vec![], copies, numbers: None, word: usize::MAX, signed: usize::MAX, names: ["a", "b"] }
    }
    fn get(&mut self, dd: &mut Dd, i: usize, copy: usize) -> B {
        while self.vars.len() <= i {
            let k = self.vars.len();
            let v = (0..self.copies).map(|c| dd.fresh(&format!("{}{k}", self.names[c]))).collect();
            self.vars.push(v);
        }
        self.vars[i][copy]
    }
}

fn set(bits: &mut Bits, off: u64, v: &[B]) {
    let off = off as usize;
    bits[off..off + v.len()].copy_from_slice(v);
}

impl<'tcx> Engine<'tcx> {
    /// An arbitrary value of type `t`; returns its bits and the validity constraint.
    fn arbitrary(&mut self, pool: &mut Pool, copy: usize, at: &mut usize, t: Ty<'tcx>) -> Res<(Bits, B)> {
        let l = self.layout(t)?;
        let n = self.nbits(&l);
        let mut bits = vec![U; n];
        let mut ok = T;
        match t.kind() {
            ty::Bool => {
                let v = pool.get(&mut self.dd, *at, copy);
                *at += 1;
                Ok((self.bool_bits(v), T))
            }
            ty::Int(_) | ty::Uint(_) => {
                // most significant bit first in the variable order
                let word = if t.is_ptr_sized_integral() { pool.word } else { n };
                for i in (0..n).rev() {
                    if i >= word {
                        bits[i] = F;
                        continue;
                    }
                    bits[i] = pool.get(&mut self.dd, *at, copy);
                    *at += 1;
                    if matches!(t.kind(), ty::Int(_)) && i >= pool.signed {
                        *at -= 1;
                    }
                }
                Ok((bits, T))
            }
            ty::Tuple(ts) => {
                for (i, ft) in ts.iter().enumerate() {
                    let (b, o) = self.arbitrary(pool, copy, at, ft)?;
                    ok = self.dd.and(ok, o);
                    set(&mut bits, l.fields.offset(i).bits(), &b);
                }
                Ok((bits, ok))
            }
            ty::Adt(a, ga) if a.is_struct() => {
                for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
                    let ft = self.field_ty(f, ga);
                    if let Some(n) = pool.numbers {
                        pool.word = n(f.name.as_str());
                    }
                    let (b, o) = self.arbitrary(pool, copy, at, ft)?;
                    ok = self.dd.and(ok, o);
                    set(&mut bits, l.fields.offset(i).bits(), &b);
                }
                Ok((bits, ok))
            }
            ty::Adt(a, ga) if a.is_enum() => {
                let nv = a.variants().len();
                if nv == 0 {
                    return unsup(format!("arbitrary value of {t}"));
                }
                let k = (usize::BITS - (nv - 1).leading_zeros()) as usize;
                let mut sel = vec![F; k];
                for i in (0..k).rev() {
                    sel[i] = pool.get(&mut self.dd, *at, copy);
                    *at += 1;
                }
                let start = *at;
                let mut end = start;
                ok = F;
                let mut acc: Option<Bits> = None;
                for (vi, v) in a.variants().iter_enumerated() {
                    let mut b = vec![U; n];
                    let mut pos = start;
                    let mut valid = T;
                    let cx = self.lcx();
                    let vl = l.for_variant(&cx, vi);
                    for (i, f) in v.fields.iter().enumerate() {
                        let ft = self.field_ty(f, ga);
                        let (fb, o) = self.arbitrary(pool, copy, &mut pos, ft)?;
                        valid = self.dd.and(valid, o);
                        set(&mut b, vl.fields.offset(i).bits(), &fb);
                    }
                    self.set_tag(&mut b, &l, vi)?;
                    end = end.max(pos);
                    let is = self.dd.eq_const(&sel, vi.as_u32() as u128);
                    let valid = self.dd.and(is, valid);
                    ok = self.dd.or(ok, valid);
                    acc = Some(match acc {
                        None => b,
                        Some(o) => self.dd.mux(is, &b, &o),
                    });
                }
                *at = end;
                Ok((acc.unwrap(), ok))
            }
            _ => unsup(format!("arbitrary value of {t}")),
        }
    }

    fn field_ty(&self, f: &ty::FieldDef, ga: ty::GenericArgsRef<'tcx>) -> Ty<'tcx> {
        let t = f.ty(self.tcx, ga);
        self.tcx.normalize_erasing_regions(self.te, t)
    }

    /// JSON view of a value for the inputs in `g`.
    fn export(&mut self, bits: &[B], l: TyAndLayout<'tcx>, g: B) -> Res<J> {
        let t = l.ty;
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if bits.contains(&U) {
                    return unsup(format!("uninitialised {t} in a result"));
                }
                Ok(obj! {"ty" => J::s(t.to_string()), "bits" => J::bits(bits)})
            }
            ty::Tuple(_) => {
                let mut fs = vec![];
                let cx = self.lcx();
                for i in 0..l.fields.count() {
                    let fl = l.field(&cx, i);
                    let o = l.fields.offset(i).bits() as usize;
                    let n = self.nbits(&fl);
                    fs.push((i.to_string(), self.export(&bits[o..o + n], fl, g)?));
                }
                Ok(obj! {"ty" => J::s("tuple"), "fields" => J::Obj(fs)})
            }
            ty::Adt(a, _) if a.is_struct() => {
                let mut fs = vec![];
                let cx = self.lcx();
                for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
                    let fl = l.field(&cx, i);
                    let o = l.fields.offset(i).bits() as usize;
                    let n = self.nbits(&fl);
                    fs.push((f.name.to_string(), self.export(&bits[o..o + n], fl, g)?));
                }
                Ok(obj! {"ty" => J::s(self.tcx.item_name(a.did()).to_string()), "fields" => J::Obj(fs)})
            }
            ty::Adt(a, _) if a.is_enum() => {
                let d = match self.discriminant(bits, &l, g) {
                    Ok(d) => d,
                    Err(_) => return unsup(format!("uninitialised {t} in a result")),
                };
                let mut vs = vec![];
                let mut covered = F;
                for (vi, v) in a.variants().iter_enumerated() {
                    let val = t.discriminant_for_variant(self.tcx, vi).unwrap().val;
                    let is = self.dd.eq_const(&d, val);
                    let vg = self.dd.and(is, g);
                    if vg == F {
                        continue;
                    }
                    covered = self.dd.or(covered, vg);
                    let cx = self.lcx();
                    let vl = l.for_variant(&cx, vi);
                    let mut fs = vec![];
                    for (i, f) in v.fields.iter().enumerate() {
                        let fl = vl.field(&cx, i);
                        let o = vl.fields.offset(i).bits() as usize;
                        let n = self.nbits(&fl);
                        fs.push((f.name.to_string(), self.export(&bits[o..o + n], fl, vg)?));
                    }
                    vs.push(obj! {"name" => J::s(v.name.to_string()), "guard" => J::Dd(vg), "fields" => J::Obj(fs)});
                }
                if covered != g {
                    return unsup(format!("a result of type {t} is not one of its variants"));
                }
                Ok(obj! {"ty" => J::s(self.tcx.item_name(a.did()).to_string()), "variants" => J::Arr(vs)})
            }
            _ => unsup(format!("result of type {t}")),
        }
    }
}

struct Api<'tcx> {
    decode: DefId,
    isa: Ty<'tcx>,
    types: FxHashMap<String, Ty<'tcx>>,
}

fn api<'tcx>(tcx: TyCtxt<'tcx>) -> Result<Api<'tcx>, String> {
    let mut types = FxHashMap::default();
    let mut decode = None;
    for c in tcx.module_children_local(CRATE_DEF_ID) {
        if !c.vis.is_public() {
            continue;
        }
        let n = c.ident.name.to_string();
        if let DefRes::Def(k, d) = c.res {
            match k {
                DefKind::Trait if n == "Decode" => decode = Some(d),
                DefKind::Struct | DefKind::Enum => {
                    if tcx.generics_of(d).count() == 0 {
                        types.insert(n, tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    }
                }
                _ => {}
            }
        }
    }
    let isa = *types.get("Isa").ok_or("no public type Isa")?;
    for n in ["Instruction", "OpcodeKind", "InstFormat", "DecodingError"] {
        if !types.contains_key(n) {
            return Err(format!("no public type {n}"));
        }
    }
    Ok(Api { decode: decode.ok_or("no public trait Decode")?, isa, types })
}

fn method<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, name: &str) -> Option<DefId> {
    tcx.associated_items(tr).in_definition_order().find(|i| i.is_fn() && i.name().as_str() == name).map(|i| i.def_id)
}

fn core_item<'tcx>(tcx: TyCtxt<'tcx>, path: &[&str]) -> Option<DefId> {
    let krate = *tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "core")?;
    let mut cur = krate.as_def_id();
    for p in path {
        cur = tcx
            .module_children(cur)
            .iter()
            .find_map(|c| match c.res {
                DefRes::Def(DefKind::Mod | DefKind::Trait | DefKind::Struct, d) if c.ident.name.as_str() == *p => Some(d),
                _ => None,
            })?;
    }
    Some(cur)
}

fn inherent<'tcx>(tcx: TyCtxt<'tcx>, ty_def: DefId, name: &str) -> Option<DefId> {
    tcx.inherent_impls(ty_def).iter().find_map(|im| method(tcx, *im, name))
}

/// Result of the analysis of one entry point.
struct Run<'tcx> {
    name: String,
    inputs: Vec<(String, J)>,
    result: Option<(State, Bits, TyAndLayout<'tcx>)>,
    universe: B,
    error: Option<String>,
}

pub struct Ctx<'tcx> {
    e: Engine<'tcx>,
    api: Api<'tcx>,
    runs: Vec<J>,
    /// Whether the last run ended early.
    failed: bool,
}

/// Setters of the formatting options.
const OPTIONS: &[&str] = &["alternate", "sign", "sign_aware_zero_pad", "debug_as_hex", "fill", "align", "width", "precision"];

/// Formatting options that a value is printed with.
#[derive(Clone, Copy)]
enum How<'a> {
    Plain,
    Alternate,
    Any(&'a FxHashMap<&'static str, Bits>),
}

type Ent<'tcx> = (State, Bits, TyAndLayout<'tcx>);

/// Variable order for a word: opcode fields first.
fn word_order(n: usize) -> Vec<usize> {
    match n {
        32 => (0..7).chain(12..15).chain((25..32).rev()).chain((20..25).rev()).chain((15..20).rev()).chain((7..12).rev()).collect(),
        16 => [1, 0, 15, 14, 13].into_iter().chain((2..13).rev()).collect(),
        n => {
            // machine integer: the bits that decide the length check last
            word_order(32).into_iter().filter(|&i| i < n).chain(32..n.max(32)).collect()
        }
    }
}

impl<'tcx> Ctx<'tcx> {
    fn word(&mut self, n: usize) -> Bits {
        let mut b = vec![F; n];
        for i in word_order(n) {
            b[i] = self.e.dd.fresh(&format!("w{i}"));
        }
        b
    }

    fn push(&mut self, st: &mut State, b: Bits) -> Bits {
        let a = STACK_BASE + st.stack.len() as u64 * STRIDE;
        st.stack.push(Rc::new(Alloc { bits: b }));
        cst(a as u128, self.e.pw)
    }

    fn isa_bits(&mut self, name: &str) -> Res<Bits> {
        let l = self.e.layout(self.api.isa)?;
        let ty::Adt(a, _) = self.api.isa.kind() else { return unsup("Isa is not an enum") };
        let Some(v) = a.variants().iter().position(|v| v.name.as_str() == name) else {
            return unsup(format!("Isa has no variant {name}"));
        };
        let mut b = vec![U; self.e.nbits(&l)];
        self.e.set_tag(&mut b, &l, VariantIdx::from_usize(v))?;
        Ok(b)
    }

    fn resolve(&self, tr: DefId, m: &str, args: &[ty::GenericArg<'tcx>]) -> Res<Instance<'tcx>> {
        let tcx = self.e.tcx;
        let Some(d) = method(tcx, tr, m) else { return unsup(format!("no method {m}")) };
        let ga = tcx.mk_args(args);
        match Instance::try_resolve(tcx, self.e.te, d, ga) {
            Ok(Some(i)) => Ok(i),
            _ => unsup(format!("cannot resolve {m} for {}", args[0])),
        }
    }

    fn invoke(&mut self, st: State, i: Instance<'tcx>, args: Vec<Bits>) -> Res<Option<Ent<'tcx>>> {
        let tcx = self.e.tcx;
        let sig = i.ty(tcx, self.e.te).fn_sig(tcx);
        let sig = tcx.normalize_erasing_late_bound_regions(self.e.te, sig);
        if sig.inputs().len() != args.len() {
            return unsup(format!("{} takes {} arguments", self.e.name(i.def_id()), sig.inputs().len()));
        }
        let ret = self.e.layout(sig.output())?;
        let a = args.into_iter().zip(sig.inputs().iter().copied()).collect();
        Ok(self.e.call(st, i, a, false, ret)?.map(|(s, b)| (s, b, ret)))
    }

    fn decode(&mut self, st: State, w: &Bits, ty: Ty<'tcx>, isa: &str) -> Res<Option<Ent<'tcx>>> {
        let mut st = st;
        let i = self.resolve(self.api.decode, "decode", &[ty.into()])?;
        let p = self.push(&mut st, w.clone());
        let isa = self.isa_bits(isa)?;
        self.invoke(st, i, vec![p, isa])
    }

    /// Formats `ty` value `b` into the sink.
    fn display(&mut self, st: State, b: Bits, ty: Ty<'tcx>, how: How) -> Res<Option<Ent<'tcx>>> {
        self.format("Display", st, b, ty, how)
    }

    fn format(&mut self, tr: &str, st: State, b: Bits, ty: Ty<'tcx>, how: How) -> Res<Option<Ent<'tcx>>> {
        let tcx = self.e.tcx;
        let mut st = st;
        let need = |o: Option<DefId>, n: &str| o.ok_or(Stop::Unsup(format!("core has no {n}")));
        let disp = need(core_item(tcx, &["fmt", tr]), tr)?;
        let fopt = need(core_item(tcx, &["fmt", "FormattingOptions"]), "fmt::FormattingOptions")?;
        let fmtr = need(core_item(tcx, &["fmt", "Formatter"]), "fmt::Formatter")?;
        let onew = need(inherent(tcx, fopt, "new"), "FormattingOptions::new")?;
        let fnew = need(inherent(tcx, fmtr, "new"), "Formatter::new")?;
        let erased = |d: DefId| {
            ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => ty.into(),
            })
        };
        let Some((s, ob, _)) = self.invoke(st, Instance::new_raw(onew, erased(onew)), vec![])? else {
            return unsup("FormattingOptions::new does not return");
        };
        st = s;
        let op = self.push(&mut st, ob);
        for f in OPTIONS {
            let arg = match (how, f) {
                (How::Alternate, &"alternate") => self.e.bool_bits(T),
                (How::Any(o), _) if o.contains_key(f) => o[*f].clone(),
                _ => continue,
            };
            let m = need(inherent(tcx, fopt, f), f)?;
            let Some((s, _, _)) = self.invoke(st, Instance::new_raw(m, erased(m)), vec![op.clone(), arg])? else {
                return unsup(format!("FormattingOptions::{f} does not return"));
            };
            st = s;
        }
        let oa = as_const(&op).unwrap() as u64;
        let on = self.e.layout(tcx.type_of(fopt).instantiate_identity().skip_norm_wip())?.size.bits() as usize;
        let ob = self.e.read_at(&st, &[(T, oa)], on)?;
        let mut sink = self.push(&mut st, vec![]);
        sink.extend(cst(SINK_VT as u128, self.e.pw));
        let Some((s, fb, _)) = self.invoke(st, Instance::new_raw(fnew, erased(fnew)), vec![sink, ob])? else {
            return unsup("Formatter::new does not return");
        };
        st = s;
        let fp = self.push(&mut st, fb);
        let vp = self.push(&mut st, b);
        let i = self.resolve(disp, "fmt", &[ty.into()])?;
        self.invoke(st, i, vec![vp, fp])
    }

    /// Arguments for every setter of the formatting options: any flags, alignment and sign, two fill
    /// characters, and widths and precisions of up to `wide` bits. Also returns what must hold for them.
    fn any_options(&mut self, wide: usize) -> Res<(FxHashMap<&'static str, Bits>, B)> {
        let tcx = self.e.tcx;
        let Some(fopt) = core_item(tcx, &["fmt", "FormattingOptions"]) else { return unsup("core has no fmt::FormattingOptions") };
        let mut pool = Pool::new(1);
        let mut at = 0;
        let mut ok = T;
        let mut out = FxHashMap::default();
        for f in OPTIONS {
            let Some(m) = inherent(tcx, fopt, f) else { return unsup(format!("core has no FormattingOptions::{f}")) };
            let sig = tcx.fn_sig(m).instantiate_identity().skip_norm_wip();
            let t = tcx.instantiate_bound_regions_with_erased(sig).inputs()[1];
            let b = if t.is_char() {
                let v = pool.get(&mut self.e.dd, at, 0);
                at += 1;
                let (x, y) = (cst('*' as u128, 32), cst(' ' as u128, 32));
                self.e.dd.mux(v, &x, &y)
            } else {
                let start = at;
                let (b, o) = self.e.arbitrary(&mut pool, 0, &mut at, t)?;
                ok = self.e.dd.and(ok, o);
                // Option<u16>: the tag, then the number from its highest bit
                for i in 1..(at - start).saturating_sub(wide) {
                    let v = pool.get(&mut self.e.dd, start + i, 0);
                    let n = self.e.dd.not(v);
                    ok = self.e.dd.and(ok, n);
                }
                b
            };
            out.insert(*f, b);
        }
        Ok((out, ok))
    }

    /// The printed text as a graph in topological order; node 0 is the start.
    fn text(&mut self, st: &State) -> J {
        fn visit(t: &Toks, ids: &mut FxHashMap<*const TokNode, usize>, nodes: &mut Vec<J>) -> usize {
            let Some(n) = t else { return 0 };
            if let Some(&i) = ids.get(&Rc::as_ptr(n)) {
                return i;
            }
            let prev = n.prev.iter().map(|(g, p)| J::Arr(vec![J::Dd(*g), J::Num(visit(p, ids, nodes) as i128)])).collect();
            let tok = match &n.tok {
                Tok::Str(cs) => obj! {"str" => J::Arr(cs.iter().map(|(g, s)| {
                    J::Arr(vec![J::Dd(*g), J::s(String::from_utf8_lossy(s).into_owned())])
                }).collect())},
                Tok::Char(b) => obj! {"char" => J::bits(b)},
                Tok::Bytes(cs) => obj! {"bytes" => J::Arr(cs.iter().map(|(g, b)| J::Arr(vec![J::Dd(*g), J::bits(b)])).collect())},
                Tok::Int { bits, signed, radix, flags, width, prec } => obj! {
                    "int" => J::bits(bits), "signed" => J::Bool(*signed), "radix" => J::s(*radix),
                    "flags" => J::Num(*flags as i128), "width" => J::Num(*width as i128), "prec" => J::Num(*prec as i128)
                },
            };
            nodes.push(obj! {"tok" => tok, "prev" => J::Arr(prev)});
            ids.insert(Rc::as_ptr(n), nodes.len());
            nodes.len()
        }
        let mut ids = FxHashMap::default();
        let mut nodes = vec![];
        let mut ends = vec![];
        for (g, t) in &st.out {
            let i = visit(t, &mut ids, &mut nodes);
            let g = self.e.dd.and(*g, st.pc);
            ends.push(J::Arr(vec![J::Dd(g), J::Num(i as i128)]));
        }
        obj! {"nodes" => J::Arr(nodes), "ends" => J::Arr(ends)}
    }

    fn finish(&mut self, r: Run<'tcx>, fmt: bool) {
        let mut error = r.error;
        let mut fields: Vec<(String, J)> = vec![("name".into(), J::s(r.name.clone()))];
        let mut returns = F;
        let mut result = J::Null;
        let mut text = J::Null;
        let mut refused = F;
        if error.is_none() {
            if let Some((st, b, l)) = &r.result {
                returns = st.pc;
                match self.e.export(b, *l, st.pc) {
                    Ok(j) => result = j,
                    Err(Stop::Unsup(m)) | Err(Stop::Ub(_, m)) => error = Some(m),
                }
                if fmt {
                    let st = st.clone();
                    text = self.text(&st);
                    refused = self.e.dd.and(st.refused, st.pc);
                }
            }
        }
        if self.e.dd.overflow {
            error = Some("diagram size limit reached".into());
        }
        let mut fns: Vec<String> = self.e.seen.iter().map(|i| self.e.name(i.def_id())).collect();
        fns.sort();
        fns.dedup();
        let local = self.e.seen.iter().filter(|i| i.def_id().is_local()).count();
        let stack = |s: &Vec<(String, String)>| {
            J::Arr(s.iter().map(|(f, a)| J::Arr(vec![J::s(f.clone()), J::s(a.clone())])).collect())
        };
        let leaves = J::Arr(self.e.leaves.iter().map(|l| obj! {
            "kind" => J::s(l.kind.clone()), "msg" => J::s(l.msg.clone()), "guard" => J::Dd(l.guard), "stack" => stack(&l.stack)
        }).collect());
        let effects = J::Arr(self.e.effects.iter().map(|(w, s)| obj! {"what" => J::s(w.clone()), "stack" => stack(s)}).collect());
        let mut vis: Vec<_> = self.e.visits.iter().map(|((d, b), (g, s))| (self.e.name(*d), b.as_u32(), *g, self.e.loc(*s))).collect();
        vis.sort();
        let visits = J::Arr(vis.into_iter().map(|(f, b, g, at)| obj! {
            "fn" => J::s(f), "block" => J::Num(b as i128), "guard" => J::Dd(g), "at" => J::s(at)
        }).collect());
        let s = self.e.stats.clone();
        fields.extend([
            ("inputs".to_string(), J::Obj(r.inputs)),
            ("universe".to_string(), J::Dd(r.universe)),
            ("returns".to_string(), J::Dd(returns)),
            ("result".to_string(), result),
            ("text".to_string(), text),
            ("refused".to_string(), J::Dd(refused)),
            ("leaves".to_string(), leaves),
            ("effects".to_string(), effects),
            ("visits".to_string(), visits),
            ("error".to_string(), error.map_or(J::Null, J::s)),
            ("functions".to_string(), J::Num(fns.len() as i128)),
            ("local_functions".to_string(), J::Num(local as i128)),
            ("stats".to_string(), obj! {
                "blocks" => J::Num(s.blocks as i128), "statements" => J::Num(s.stmts as i128), "calls" => J::Num(s.calls as i128),
                "joins" => J::Num(s.joins as i128), "obligations" => J::Num(s.obligations as i128),
                "diagram_nodes" => J::Num(self.e.dd.nodes.len() as i128)
            }),
        ]);
        // keep only the diagram nodes that are referred to
        let mut j = J::Obj(fields);
        let mut roots = vec![];
        j.visit(&mut |b| roots.push(*b));
        let mut map: FxHashMap<B, B> = FxHashMap::default();
        map.insert(F, F);
        map.insert(T, T);
        let mut nodes = vec![];
        for r in roots {
            copy_nodes(&self.e.dd, r, &mut map, &mut nodes);
        }
        j.visit(&mut |b| *b = map[b]);
        if let J::Obj(f) = &mut j {
            f.push(("vars".into(), J::Arr(self.e.dd.var_names.iter().map(|n| J::s(n.clone())).collect())));
            f.push(("nodes".into(), J::Arr(nodes)));
        }
        self.runs.push(j);
        if std::env::var("BITFLOW_VERBOSE").is_ok() {
            eprintln!("bitflow: {} {:?} nodes {}", r.name, s.blocks, self.e.dd.nodes.len());
        }
    }

    fn run(&mut self, name: String, fmt: bool, f: impl FnOnce(&mut Self, &mut Vec<(String, J)>, &mut B) -> Res<Option<Ent<'tcx>>>) {
        self.e.reset();
        let mut inputs = vec![];
        let mut universe = T;
        let r = f(self, &mut inputs, &mut universe);
        let (result, error) = match r {
            Ok(x) => (x, None),
            Err(Stop::Unsup(m)) | Err(Stop::Ub(_, m)) => {
                let s: Vec<String> = self.e.local_stack().into_iter().map(|(f, a)| format!("{f} ({a})")).collect();
                let c = self.e.frames.last().map(|f| self.e.name(f.0.def_id())).unwrap_or_default();
                (None, Some(format!("{m} [in {c}; from {}]", s.join(" > "))))
            }
        };
        self.failed = error.is_some();
        self.finish(Run { name, inputs, result, universe, error }, fmt)
    }
}

fn copy_nodes(dd: &Dd, b: B, map: &mut FxHashMap<B, B>, out: &mut Vec<J>) -> B {
    if let Some(&x) = map.get(&b) {
        return x;
    }
    let n = dd.nodes[b as usize];
    let lo = copy_nodes(dd, n.1, map, out);
    let hi = copy_nodes(dd, n.2, map, out);
    let id = out.len() as u32 + 2;
    out.push(J::Arr(vec![J::Num(n.0 as i128), J::Num(lo as i128), J::Num(hi as i128)]));
    map.insert(b, id);
    id
}

pub fn analyse<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let e = Engine::new(tcx);
    let lints = effects::lint(&e);
    let exports = interface::exports(&e);
    let api = match api(tcx) {
        Ok(a) => a,
        Err(m) => {
            let mut s = String::new();
            obj! {"error" => J::s(m), "lints" => lints, "runs" => J::Arr(vec![])}.write(&mut s);
            return s;
        }
    };
    let want = std::env::var("BITFLOW_RUNS").unwrap_or_default();
    let want: Vec<String> = want.split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let sel = |n: &str| want.is_empty() || want.iter().any(|w| n.starts_with(w.as_str()));
    let mut c = Ctx { e, api, runs: vec![], failed: false };
    let (u16t, u32t) = (tcx.types.u16, tcx.types.u32);
    let instr = c.api.types["Instruction"];
    let kind = c.api.types["OpcodeKind"];

    for (ty, n) in [(u32t, 32usize), (u16t, 16)] {
        for isa in ["Rv32", "Rv64"] {
            let nm = format!("decode/{n}/{isa}");
            if sel(&nm) {
                c.run(nm, false, |c, _, _| {
                    let w = c.word(n);
                    let st = c.e.start(T);
                    c.decode(st, &w, ty, isa)
                });
            }
            for way in ["display", "alternate", "refuse", "options", "narrow-options", "flags", "inspect-pretty", "inspect-options"] {
                let nm = format!("{way}/{n}/{isa}");
                if sel(&nm) {
                    c.run(nm, !way.ends_with("options"), |c, _, u| {
                        let w = c.word(n);
                        let st = c.e.start(T);
                        let Some((mut st, b, l)) = c.decode(st, &w, ty, isa)? else { return unsup("decode never returns") };
                        c.e.leaves.clear();
                        let d = c.e.discriminant(&b, &l, st.pc)?;
                        let ok = c.e.dd.eq_const(&d, 0);
                        st.pc = c.e.dd.and(st.pc, ok);
                        *u = st.pc;
                        if st.pc == F {
                            return unsup("no word decodes");
                        }
                        if way == "refuse" {
                            let k = (0..64).map(|i| c.e.dd.fresh(&format!("n{i}"))).collect();
                            c.e.refuse_at = Some(k);
                        }
                        let cx = c.e.lcx();
                        let vl = l.for_variant(&cx, VariantIdx::from_u32(0));
                        let fl = vl.field(&cx, 0);
                        if fl.ty != instr {
                            return unsup("decode does not return an Instruction");
                        }
                        let o = vl.fields.offset(0).bits() as usize;
                        let ib = b[o..o + c.e.nbits(&fl)].to_vec();
                        match way {
                            "inspect-pretty" => c.format("Debug", st, ib, fl.ty, How::Alternate),
                            "inspect-options" => {
                                let (mut o, ok) = c.any_options(2)?;
                                if n == 32 {
                                    // digits that pass through the indenting writer are costly
                                    o.insert("alternate", c.e.bool_bits(F));
                                }
                                st.pc = c.e.dd.and(st.pc, ok);
                                *u = st.pc;
                                c.format("Debug", st, ib, fl.ty, How::Any(&o))
                            }
                            "alternate" => c.display(st, ib, fl.ty, How::Alternate),
                            "options" | "narrow-options" => {
                                let (o, ok) = c.any_options(if way == "options" { 16 } else { 3 })?;
                                st.pc = c.e.dd.and(st.pc, ok);
                                *u = st.pc;
                                if way == "options" {
                                    c.e.bounded = Some(2_000_000);
                                    c.e.fuel = 60_000;
                                }
                                c.display(st, ib, fl.ty, How::Any(&o))
                            }
                            "flags" => {
                                let (mut o, ok) = c.any_options(2)?;
                                o.remove("width");
                                o.remove("precision");
                                st.pc = c.e.dd.and(st.pc, ok);
                                *u = st.pc;
                                c.display(st, ib, fl.ty, How::Any(&o))
                            }
                            _ => c.display(st, ib, fl.ty, How::Plain),
                        }
                    });
                }
            }
            let nm = format!("parse_opcode/{n}/{isa}");
            if sel(&nm) {
                c.run(nm, false, |c, _, _| {
                    let w = c.word(n);
                    let st = c.e.start(T);
                    let i = c.resolve(c.api.decode, "parse_opcode", &[ty.into()])?;
                    let isa = c.isa_bits(isa)?;
                    c.invoke(st, i, vec![w, isa])
                });
            }
            for f in ["parse_rd", "parse_rs1", "parse_rs2", "parse_imm"] {
                let imm = f == "parse_imm";
                if !imm && isa == "Rv64" {
                    continue;
                }
                let nm = if imm { format!("{f}/{n}/{isa}") } else { format!("{f}/{n}") };
                if !sel(&nm) {
                    continue;
                }
                c.run(nm, false, |c, inp, u| {
                    let mut pool = Pool::new(1);
                    let mut at = 0;
                    let (kb, ok) = c.e.arbitrary(&mut pool, 0, &mut at, kind)?;
                    let w = c.word(n);
                    *u = ok;
                    let kl = c.e.layout(kind)?;
                    let ke = c.e.export(&kb, kl, ok)?;
                    inp.push(("kind".into(), ke));
                    let mut st = c.e.start(ok);
                    let kp = c.push(&mut st, kb);
                    let i = c.resolve(c.api.decode, f, &[ty.into()])?;
                    let mut a = vec![w, kp];
                    if imm {
                        a.push(c.isa_bits(isa)?);
                    }
                    c.invoke(st, i, a)
                });
            }
        }
    }

    if sel("try_from") {
        c.run("try_from".into(), false, |c, _, _| {
            let w = c.word(c.e.pw);
            let st = c.e.start(T);
            let Some(tr) = core_item(tcx, &["convert", "TryFrom"]) else { return unsup("core has no TryFrom") };
            let i = c.resolve(tr, "try_from", &[instr.into(), tcx.types.usize.into()])?;
            c.invoke(st, i, vec![w])
        });
    }

    if sel("get_format") {
        c.run("get_format".into(), false, |c, inp, u| {
            let mut pool = Pool::new(1);
            let (kb, ok) = c.e.arbitrary(&mut pool, 0, &mut 0, kind)?;
            *u = ok;
            let kl = c.e.layout(kind)?;
            let ke = c.e.export(&kb, kl, ok)?;
            inp.push(("kind".into(), ke));
            let mut st = c.e.start(ok);
            let kp = c.push(&mut st, kb);
            let ty::Adt(a, _) = kind.kind() else { return unsup("OpcodeKind is not an enum") };
            let Some(m) = inherent(tcx, a.did(), "get_format") else { return unsup("OpcodeKind has no get_format") };
            let i = Instance::new_raw(m, tcx.mk_args(&[]));
            c.invoke(st, i, vec![kp])
        });
    }

    let mut names: Vec<String> = c.api.types.keys().cloned().collect();
    names.sort();
    let disp = core_item(tcx, &["fmt", "Display"]);
    let debug = core_item(tcx, &["fmt", "Debug"]);
    let peq = core_item(tcx, &["cmp", "PartialEq"]);
    for n in names {
        let t = c.api.types[&n];
        let implements = |tr: Option<DefId>, args: &[ty::GenericArg<'tcx>]| {
            tr.is_some_and(|tr| {
                let m = tcx.associated_items(tr).in_definition_order().find(|i| i.is_fn()).unwrap().def_id;
                matches!(Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), m, tcx.mk_args(args)), Ok(Some(_)))
            })
        };
        if n != "Instruction" && implements(disp, &[t.into()]) && sel(&format!("show/{n}")) {
            c.run(format!("show/{n}"), true, |c, inp, u| {
                let mut pool = Pool::new(1);
                let (kb, ok) = c.e.arbitrary(&mut pool, 0, &mut 0, t)?;
                *u = ok;
                let kl = c.e.layout(t)?;
                let ke = c.e.export(&kb, kl, ok)?;
                inp.push(("value".into(), ke));
                let st = c.e.start(ok);
                c.display(st, kb, t, How::Plain)
            });
        }
        for way in ["show-refuse", "show-options", "narrow-show-options", "show-flags"] {
            let nm = format!("{way}/{n}");
            if !sel(&nm) || n == "Instruction" || !implements(disp, &[t.into()]) {
                continue;
            }
            // instead of one with all widths
            if way == "narrow-show-options" && !c.failed {
                continue;
            }
            c.run(nm, true, |c, inp, u| {
                let mut pool = Pool::new(1);
                pool.names = ["k", "l"];
                let (kb, ok) = c.e.arbitrary(&mut pool, 0, &mut 0, t)?;
                *u = ok;
                let kl = c.e.layout(t)?;
                let ke = c.e.export(&kb, kl, ok)?;
                inp.push(("value".into(), ke));
                if way == "show-refuse" {
                    let k = (0..64).map(|i| c.e.dd.fresh(&format!("n{i}"))).collect();
                    c.e.refuse_at = Some(k);
                    let st = c.e.start(ok);
                    return c.display(st, kb, t, How::Plain);
                }
                let (mut o, may) = c.any_options(match way {
                    "show-options" => 16,
                    "show-flags" => 2,
                    _ => 3,
                })?;
                if way == "show-flags" {
                    o.remove("width");
                    o.remove("precision");
                }
                let ok = c.e.dd.and(ok, may);
                *u = ok;
                if way == "show-options" {
                    c.e.bounded = Some(2_000_000);
                    c.e.fuel = 60_000;
                }
                let st = c.e.start(ok);
                c.display(st, kb, t, How::Any(&o))
            });
        }
        let clone = tcx.lang_items().clone_trait();
        if implements(clone, &[t.into()]) && sel(&format!("clone/{n}")) {
            c.run(format!("clone/{n}"), false, |c, inp, u| {
                let mut pool = Pool::new(1);
                let (x, ok) = c.e.arbitrary(&mut pool, 0, &mut 0, t)?;
                *u = ok;
                let l = c.e.layout(t)?;
                let j = c.e.export(&x, l, ok)?;
                inp.push(("value".into(), j));
                let mut st = c.e.start(ok);
                let xp = c.push(&mut st, x);
                let i = c.resolve(clone.unwrap(), "clone", &[t.into()])?;
                c.invoke(st, i, vec![xp])
            });
        }
        for way in ["debug", "debug-refuse", "compose", "narrow-compose", "compose-alternate", "narrow-compose-alternate"] {
            let nm = format!("{way}/{n}");
            let shown = way.contains("compose");
            let narrow = way.starts_with("narrow");
            // instead of one with all immediates
            if narrow && !c.failed {
                continue;
            }
            if !sel(&nm) || !implements(if shown { disp } else { debug }, &[t.into()]) || shown && n != "Instruction" {
                continue;
            }
            c.run(nm, true, |c, inp, u| {
                let mut pool = Pool::new(1);
                if shown {
                    // the second source may hold a CSR number
                    pool.numbers = Some(|n| if n == "rs2" { 12 } else { 5 });
                    if narrow {
                        pool.signed = 12;
                    } else {
                        c.e.bounded = Some(6_000_000);
                        c.e.digits = false;
                    }
                }
                let (kb, ok) = c.e.arbitrary(&mut pool, 0, &mut 0, t)?;
                *u = ok;
                let kl = c.e.layout(t)?;
                let ke = c.e.export(&kb, kl, ok)?;
                inp.push(("value".into(), ke));
                if way == "debug-refuse" {
                    let k = (0..64).map(|i| c.e.dd.fresh(&format!("n{i}"))).collect();
                    c.e.refuse_at = Some(k);
                }
                let st = c.e.start(ok);
                match way {
                    "compose" | "narrow-compose" => c.display(st, kb, t, How::Plain),
                    "compose-alternate" | "narrow-compose-alternate" => c.display(st, kb, t, How::Alternate),
                    _ => c.format("Debug", st, kb, t, How::Plain),
                }
            });
        }
        if implements(peq, &[t.into(), t.into()]) {
            for m in ["eq", "ne"] {
                let nm = format!("{m}/{n}");
                if !sel(&nm) {
                    continue;
                }
                c.run(nm, false, |c, inp, u| {
                    let mut pool = Pool::new(2);
                    let (x, ox) = c.e.arbitrary(&mut pool, 0, &mut 0, t)?;
                    let (y, oy) = c.e.arbitrary(&mut pool, 1, &mut 0, t)?;
                    let ok = c.e.dd.and(ox, oy);
                    *u = ok;
                    let l = c.e.layout(t)?;
                    let (jx, jy) = (c.e.export(&x, l, ok)?, c.e.export(&y, l, ok)?);
                    inp.push(("left".into(), jx));
                    inp.push(("right".into(), jy));
                    let mut st = c.e.start(ok);
                    let xp = c.push(&mut st, x);
                    let yp = c.push(&mut st, y);
                    let i = c.resolve(peq.unwrap(), m, &[t.into(), t.into()])?;
                    c.invoke(st, i, vec![xp, yp])
                });
            }
        }
    }

    let runs = std::mem::take(&mut c.runs);
    let mut s = String::new();
    obj! {
        "error" => J::Null,
        "crate" => J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string()),
        "target" => J::s(tcx.sess.opts.target_triple.tuple().to_string()),
        "pointer_width" => J::Num(c.e.pw as i128),
        "overflow_checks" => J::Bool(tcx.sess.overflow_checks()),
        "debug_assertions" => J::Bool(tcx.sess.opts.debug_assertions),
        "lints" => lints,
        "interface" => exports,
        "runs" => J::Arr(runs)
    }
    .write(&mut s);
    s
}
