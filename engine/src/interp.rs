//! Forward dataflow analysis of monomorphised MIR over decision-diagram bits.

use std::collections::BTreeMap;
use std::rc::Rc;

use rustc_abi::{FIRST_VARIANT, FieldsShape, Size, TagEncoding, VariantIdx, Variants, ExternAbi};
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BasicBlock, BinOp, CastKind, ConstValue, Local, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, EarlyBinder};
use rustc_span::Span;

use crate::dd::*;
use crate::ops::*;

pub const STACK_BASE: u64 = 0x1000_0000;
pub const STRIDE: u64 = 0x1_0000;
pub const GLOBAL_BASE: u64 = 0x8000_0000;
pub const FN_BASE: u64 = 0x0100_0000;
pub const VT_BASE: u64 = 0x0800_0000;
/// Stands for a formatting option that depends on the input.
pub const UNKNOWN_OPTION: u128 = u64::MAX as u128;
pub const SINK_VT: u64 = 0x0f00_0000;

/// Why the analysis of a statement stopped.
pub enum Stop {
    /// Undefined for the inputs in the diagram: becomes a failed obligation.
    Ub(B, String),
    /// A construct the analysis does not model.
    Unsup(String),
}
pub type Res<T> = Result<T, Stop>;

pub fn unsup<T>(m: impl Into<String>) -> Res<T> {
    Err(Stop::Unsup(m.into()))
}

#[derive(Clone)]
pub struct Alloc {
    pub bits: Bits,
}

pub struct Global {
    pub bits: Bits,
    pub mutable: bool,
    pub what: String,
}

#[derive(Clone)]
pub enum Tok {
    /// Text, by case.
    Str(Rc<Vec<(B, Vec<u8>)>>),
    /// An integer printed by `core`'s own formatting.
    Int { bits: Rc<Bits>, signed: bool, radix: &'static str, flags: u128, width: u128, prec: u128 },
    /// A character.
    Char(Rc<Bits>),
    /// Text that has too many values to tell them apart, by case: its bytes.
    Bytes(Rc<Vec<(B, Bits)>>),
}

/// What was printed, as a graph: a piece of text and, by case, what came before it.
pub struct TokNode {
    pub tok: Tok,
    pub prev: Vec<(B, Toks)>,
    pub len: u32,
}
pub type Toks = Option<Rc<TokNode>>;

/// Abstract state: which inputs are here, what memory holds for them, what was printed.
#[derive(Clone)]
pub struct State {
    pub pc: B,
    pub stack: Vec<Rc<Alloc>>,
    pub out: Vec<(B, Toks)>,
    /// Inputs for which a write to the sink was refused.
    pub refused: B,
}

pub struct Pl<'tcx> {
    pub cases: Vec<(B, u64)>,
    pub meta: Option<Bits>,
    pub layout: TyAndLayout<'tcx>,
}

pub struct BodyInfo<'tcx> {
    pub body: &'tcx mir::Body<'tcx>,
    pub layouts: Vec<TyAndLayout<'tcx>>,
    pub templ: Vec<Rc<Alloc>>,
    pub pos: Vec<u32>,
    pub local: bool,
}

pub struct Frame<'tcx> {
    pub inst: Instance<'tcx>,
    pub base: usize,
    pub info: Rc<BodyInfo<'tcx>>,
}

pub struct Leaf {
    pub kind: String,
    pub msg: String,
    pub guard: B,
    pub stack: Vec<(String, String)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub blocks: u64,
    pub stmts: u64,
    pub calls: u64,
    pub joins: u64,
    pub obligations: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Hook {
    None,
    Panic,
    IntFmt(&'static str),
}

pub struct Engine<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub te: TypingEnv<'tcx>,
    pub dd: Dd,
    pub pw: usize,
    globals: BTreeMap<u64, Rc<Global>>,
    alloc_addr: FxHashMap<AllocId, u64>,
    static_addr: FxHashMap<DefId, u64>,
    next_global: u64,
    fns: Vec<Instance<'tcx>>,
    fn_idx: FxHashMap<Instance<'tcx>, usize>,
    vts: Vec<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>)>,
    bodies: FxHashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>,
    hooks: FxHashMap<DefId, Hook>,
    pub frames: Vec<(Instance<'tcx>, Span)>,
    pub leaves: Vec<Leaf>,
    pub visits: FxHashMap<(DefId, BasicBlock), (B, Span)>,
    pub effects: Vec<(String, Vec<(String, String)>)>,
    pub seen: FxHashSet<Instance<'tcx>>,
    pub stats: Stats,
    pub fuel: u64,
    /// Running out of steps only means that another entry point has to be used instead: gives up above this number of diagram nodes, or when the fuel is used up.
    pub bounded: Option<usize>,
    /// Whether the digits of integers of more than 16 unknown bits, and texts of very many values, are computed.
    pub digits: bool,
    /// For each write to the sink, the diagram bit that tells whether it is refused, if modelled.
    pub refuse_at: Option<Bits>,
    unknown: u32,
}

impl<'tcx> Engine<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Engine {
            tcx,
            te: TypingEnv::fully_monomorphized(),
            dd: Dd::new(),
            pw: tcx.data_layout.pointer_size().bits() as usize,
            globals: BTreeMap::new(),
            alloc_addr: FxHashMap::default(),
            static_addr: FxHashMap::default(),
            next_global: GLOBAL_BASE,
            fns: vec![],
            fn_idx: FxHashMap::default(),
            vts: vec![],
            bodies: FxHashMap::default(),
            hooks: FxHashMap::default(),
            frames: vec![],
            leaves: vec![],
            visits: FxHashMap::default(),
            effects: vec![],
            seen: FxHashSet::default(),
            stats: Stats::default(),
            fuel: 3_000_000,
            bounded: None,
            digits: true,
            refuse_at: None,
            unknown: 0,
        }
    }

    /// Forget everything that depends on the inputs of the previous entry point.
    pub fn reset(&mut self) {
        self.dd = Dd::new();
        self.frames.clear();
        self.leaves.clear();
        self.visits.clear();
        self.effects.clear();
        self.seen.clear();
        self.stats = Stats::default();
        self.fuel = 3_000_000;
        self.bounded = None;
        self.digits = true;
        self.refuse_at = None;
        self.unknown = 0;
    }

    pub fn start(&self, pc: B) -> State {
        State { pc, stack: vec![], out: vec![(T, None)], refused: F }
    }

    // ----- diagnostics -------------------------------------------------------------

    pub fn loc(&self, span: Span) -> String {
        let span = span.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(span.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    pub fn name(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    pub fn local_stack(&self) -> Vec<(String, String)> {
        self.frames
            .iter()
            .filter(|(i, _)| i.def_id().is_local())
            .map(|(i, s)| (self.name(i.def_id()), self.loc(*s)))
            .collect()
    }

    pub fn leaf_pub(&mut self, kind: &str, msg: String, guard: B) {
        self.leaf(kind, msg, guard)
    }

    fn leaf(&mut self, kind: &str, msg: String, guard: B) {
        if guard == F {
            return;
        }
        let stack = self.local_stack();
        self.leaves.push(Leaf { kind: kind.into(), msg, guard, stack });
    }

    fn effect(&mut self, what: String) {
        let stack = self.local_stack();
        if !self.effects.iter().any(|(w, s)| *w == what && *s == stack) {
            self.effects.push((what, stack));
        }
    }

    fn set_span(&mut self, s: Span) {
        if let Some(f) = self.frames.last_mut() {
            f.1 = s;
        }
    }

    // ----- types and layouts -------------------------------------------------------

    pub fn layout(&self, ty: Ty<'tcx>) -> Res<TyAndLayout<'tcx>> {
        match self.tcx.layout_of(self.te.as_query_input(ty)) {
            Ok(l) => Ok(l),
            Err(e) => unsup(format!("layout of {ty}: {e:?}")),
        }
    }

    pub fn lcx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.te)
    }

    fn mono<X: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, inst: Instance<'tcx>, v: X) -> X {
        inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.te, EarlyBinder::bind(self.tcx, v))
    }

    pub fn nbits(&self, l: &TyAndLayout<'tcx>) -> usize {
        l.size.bits() as usize
    }

    pub fn is_signed(ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Int(_) => true,
            ty::Pat(b, _) => Self::is_signed(*b),
            _ => false,
        }
    }

    // ----- memory ------------------------------------------------------------------

    fn read_mem(&mut self, st: &State, addr: u64, n: usize) -> Result<Bits, String> {
        if n == 0 {
            return Ok(vec![]);
        }
        if addr >= STACK_BASE && addr < GLOBAL_BASE {
            let id = ((addr - STACK_BASE) / STRIDE) as usize;
            let off = ((addr - STACK_BASE) % STRIDE) as usize * 8;
            match st.stack.get(id) {
                Some(a) if off + n <= a.bits.len() => Ok(a.bits[off..off + n].to_vec()),
                _ => Err(format!("access outside of a stack object ({} bits)", n)),
            }
        } else {
            let Some((base, g)) = self.globals.range(..=addr).next_back() else {
                return Err(format!("access through an invalid pointer {addr:#x}"));
            };
            let off = (addr - base) as usize * 8;
            let g = g.clone();
            if off + n > g.bits.len() {
                return Err(format!("access outside of {}", g.what));
            }
            if g.mutable {
                self.effect(format!("reads mutable global {}", g.what));
                return Ok((0..n)
                    .map(|_| {
                        self.unknown += 1;
                        let nm = format!("unknown{}", self.unknown);
                        self.dd.fresh(&nm)
                    })
                    .collect());
            }
            Ok(g.bits[off..off + n].to_vec())
        }
    }

    fn write_mem(&mut self, st: &mut State, addr: u64, v: &[B], guard: Option<B>) -> Result<(), String> {
        if v.is_empty() {
            return Ok(());
        }
        if addr >= STACK_BASE && addr < GLOBAL_BASE {
            let id = ((addr - STACK_BASE) / STRIDE) as usize;
            let off = ((addr - STACK_BASE) % STRIDE) as usize * 8;
            match st.stack.get_mut(id) {
                Some(a) if off + v.len() <= a.bits.len() => {
                    let a = Rc::make_mut(a);
                    match guard {
                        None => a.bits[off..off + v.len()].copy_from_slice(v),
                        Some(g) => {
                            for (i, &x) in v.iter().enumerate() {
                                a.bits[off + i] = self.dd.mux1(g, x, a.bits[off + i]);
                            }
                        }
                    }
                    Ok(())
                }
                _ => Err("write outside of a stack object".into()),
            }
        } else {
            let what = match self.globals.range(..=addr).next_back() {
                Some((_, g)) => g.what.clone(),
                None => return Err(format!("write through an invalid pointer {addr:#x}")),
            };
            self.effect(format!("writes global {what}"));
            Ok(())
        }
    }

    pub fn read_at(&mut self, st: &State, cases: &[(B, u64)], n: usize) -> Res<Bits> {
        let mut acc: Option<Bits> = None;
        for &(g, a) in cases {
            match self.read_mem(st, a, n) {
                Ok(b) => {
                    acc = Some(match acc {
                        None => b,
                        Some(x) => self.dd.mux(g, &b, &x),
                    })
                }
                Err(m) => {
                    let g = self.dd.and(g, st.pc);
                    if g != F {
                        return Err(Stop::Ub(g, m));
                    }
                }
            }
        }
        match acc {
            Some(x) => Ok(x),
            None => Err(Stop::Ub(st.pc, "access through a pointer without target".into())),
        }
    }

    pub fn read_pl(&mut self, st: &State, p: &Pl<'tcx>) -> Res<Bits> {
        if !p.layout.is_sized() {
            return unsup(format!("by-value use of unsized {}", p.layout.ty));
        }
        let n = self.nbits(&p.layout);
        self.read_at(st, &p.cases, n)
    }

    pub fn write_pl(&mut self, st: &mut State, p: &Pl<'tcx>, v: &[B]) -> Res<()> {
        self.write_at(st, &p.cases, v)
    }

    pub fn write_at(&mut self, st: &mut State, cases: &[(B, u64)], v: &[B]) -> Res<()> {
        let single = cases.len() == 1;
        for &(g, a) in cases {
            let r = self.write_mem(st, a, v, if single { None } else { Some(g) });
            if let Err(m) = r {
                let g = self.dd.and(g, st.pc);
                if g != F {
                    return Err(Stop::Ub(g, m));
                }
            }
        }
        Ok(())
    }

    /// The values a bit vector takes on the inputs in `pc`, with their diagrams.
    pub fn cases(&mut self, bits: &[B], pc: B) -> Res<Vec<(B, u128)>> {
        if bits.contains(&U) {
            return Err(Stop::Ub(pc, "use of an uninitialised value".into()));
        }
        if let Some(v) = as_const(bits) {
            return Ok(vec![(pc, v)]);
        }
        let mut cur: Vec<(B, u128)> = vec![(pc, 0)];
        for i in (0..bits.len()).rev() {
            let b = bits[i];
            if b == F {
                continue;
            }
            let mut next = Vec::with_capacity(cur.len());
            for (g, v) in cur {
                let g1 = self.dd.and(g, b);
                if g1 != F {
                    next.push((g1, v | 1 << i));
                }
                if g1 != g {
                    let nb = self.dd.not(b);
                    let g0 = self.dd.and(g, nb);
                    if g0 != F {
                        next.push((g0, v));
                    }
                }
            }
            cur = next;
            if cur.len() > 8192 {
                return unsup("a value used as an address, index or length takes too many values");
            }
        }
        Ok(cur)
    }

    pub fn addr_cases(&mut self, bits: &[B], pc: B) -> Res<Vec<(B, u64)>> {
        Ok(self.cases(bits, pc)?.into_iter().map(|(g, v)| (g, v as u64)).collect())
    }

    pub fn fold_cases(&mut self, cases: &[(B, u64)], n: usize) -> Bits {
        let mut acc = cst(cases[0].1 as u128, n);
        for &(g, a) in &cases[1..] {
            let c = cst(a as u128, n);
            acc = self.dd.mux(g, &c, &acc);
        }
        acc
    }

    // ----- globals -----------------------------------------------------------------

    pub fn fn_addr(&mut self, i: Instance<'tcx>) -> u64 {
        let n = self.fns.len();
        let idx = *self.fn_idx.entry(i).or_insert(n);
        if idx == n {
            self.fns.push(i);
        }
        FN_BASE + 16 * idx as u64
    }

    fn fn_at(&self, a: u64) -> Option<Instance<'tcx>> {
        if a < FN_BASE || a >= VT_BASE || (a - FN_BASE) % 16 != 0 {
            return None;
        }
        self.fns.get(((a - FN_BASE) / 16) as usize).copied()
    }

    fn vt_addr(&mut self, t: Ty<'tcx>, p: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>) -> u64 {
        let i = match self.vts.iter().position(|x| *x == (t, p)) {
            Some(i) => i,
            None => {
                self.vts.push((t, p));
                self.vts.len() - 1
            }
        };
        VT_BASE + 64 * i as u64
    }

    pub fn vt_at(&self, a: u64) -> Option<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>)> {
        if a < VT_BASE || a >= SINK_VT || (a - VT_BASE) % 64 != 0 {
            return None;
        }
        self.vts.get(((a - VT_BASE) / 64) as usize).copied()
    }

    fn reserve(&mut self, size: u64) -> u64 {
        let a = self.next_global;
        self.next_global += (size + 64) / 64 * 64 + 64;
        a
    }

    pub fn alloc_at(&mut self, id: AllocId) -> Res<u64> {
        if let Some(&a) = self.alloc_addr.get(&id) {
            return Ok(a);
        }
        let a = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => self.fn_addr(instance),
            GlobalAlloc::VTable(t, p) => self.vt_addr(t, p),
            GlobalAlloc::Static(d) => self.static_at(d)?,
            GlobalAlloc::Memory(c) => {
                let a = self.reserve(c.inner().len() as u64);
                self.alloc_addr.insert(id, a);
                self.fill(a, c.inner(), "a constant".into())?;
                a
            }
            GlobalAlloc::TypeId { .. } => return unsup("type id as data"),
        };
        self.alloc_addr.insert(id, a);
        Ok(a)
    }

    fn static_at(&mut self, d: DefId) -> Res<u64> {
        if let Some(&a) = self.static_addr.get(&d) {
            return Ok(a);
        }
        if self.tcx.is_foreign_item(d) {
            return unsup(format!("foreign static {}", self.name(d)));
        }
        if self.tcx.is_thread_local_static(d) {
            let n = self.name(d);
            self.effect(format!("uses thread-local {n}"));
            return unsup(format!("thread-local static {n}"));
        }
        let Ok(c) = self.tcx.eval_static_initializer(d) else {
            return unsup(format!("initialiser of static {}", self.name(d)));
        };
        let a = self.reserve(c.inner().len() as u64);
        self.static_addr.insert(d, a);
        let n = format!("static {}", self.name(d));
        self.fill(a, c.inner(), n)?;
        Ok(a)
    }

    fn fill(&mut self, base: u64, al: &mir::interpret::Allocation, what: String) -> Res<()> {
        let n = al.len();
        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut bits = Vec::with_capacity(n * 8);
        for (i, b) in bytes.iter().enumerate() {
            if al.init_mask().get(Size::from_bytes(i)) {
                bits.extend((0..8).map(|k| if b >> k & 1 == 1 { T } else { F }));
            } else {
                bits.extend([U; 8]);
            }
        }
        let ptrs: Vec<_> = al.provenance().ptrs().iter().map(|(o, p)| (o.bytes() as usize, p.alloc_id())).collect();
        // make the object known before following its pointers (statics may be cyclic)
        let mutable = al.mutability.is_mut();
        self.globals.insert(base, Rc::new(Global { bits: bits.clone(), mutable, what: what.clone() }));
        for (o, id) in ptrs {
            let pb = self.pw / 8;
            let mut off = 0u64;
            for k in (0..pb).rev() {
                off = off << 8 | bytes[o + k] as u64;
            }
            let t = self.alloc_at(id)?.wrapping_add(off);
            let c = cst(t as u128, self.pw);
            bits[o * 8..o * 8 + self.pw].copy_from_slice(&c);
        }
        self.globals.insert(base, Rc::new(Global { bits, mutable, what }));
        Ok(())
    }

    fn scalar(&mut self, s: Scalar) -> Res<Bits> {
        match s {
            Scalar::Int(i) => {
                let sz = i.size();
                Ok(cst(i.to_bits(sz), sz.bits() as usize))
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.alloc_at(prov.alloc_id())?.wrapping_add(off.bytes());
                Ok(cst(a as u128, self.pw))
            }
        }
    }

    pub fn const_bits(&mut self, st: &State, v: ConstValue, ty: Ty<'tcx>) -> Res<Bits> {
        match v {
            ConstValue::Scalar(s) => self.scalar(s),
            ConstValue::ZeroSized => Ok(vec![]),
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.alloc_at(alloc_id)?;
                let mut b = cst(a as u128, self.pw);
                b.extend(cst(meta as u128, self.pw));
                Ok(b)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.alloc_at(alloc_id)? + offset.bytes();
                let l = self.layout(ty)?;
                let n = self.nbits(&l);
                self.read_at(st, &[(T, a)], n)
            }
        }
    }

    // ----- operands and places -----------------------------------------------------

    pub fn operand(&mut self, st: &State, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> Res<(Bits, TyAndLayout<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, fr, *p)?;
                let b = self.read_pl(st, &pl)?;
                Ok((b, pl.layout))
            }
            Operand::Constant(c) => {
                let k = self.mono(fr.inst, c.const_);
                let ty = k.ty();
                let l = self.layout(ty)?;
                if l.is_zst() {
                    return Ok((vec![], l));
                }
                let v = match k.eval(self.tcx, self.te, c.span) {
                    Ok(v) => v,
                    Err(_) => return unsup(format!("constant of type {ty} cannot be evaluated")),
                };
                let b = self.const_bits(st, v, ty)?;
                if b.len() != self.nbits(&l) {
                    return unsup(format!("constant of type {ty} has unexpected size"));
                }
                Ok((b, l))
            }
            Operand::RuntimeChecks(c) => {
                let v = match c {
                    mir::RuntimeChecks::OverflowChecks => self.tcx.sess.overflow_checks(),
                    _ => false,
                };
                Ok((cst(v as u128, 8), self.layout(self.tcx.types.bool)?))
            }
        }
    }

    pub fn deref(&mut self, st: &State, bits: &[B], ty: Ty<'tcx>) -> Res<Pl<'tcx>> {
        let Some(pointee) = ty.builtin_deref(true) else {
            return unsup(format!("dereference of {ty}"));
        };
        let layout = self.layout(pointee)?;
        let cases = self.addr_cases(&bits[..self.pw], st.pc)?;
        let meta = if bits.len() > self.pw { Some(bits[self.pw..].to_vec()) } else { None };
        Ok(Pl { cases, meta, layout })
    }

    pub fn place(&mut self, st: &State, fr: &Frame<'tcx>, p: Place<'tcx>) -> Res<Pl<'tcx>> {
        let l = p.local.as_usize();
        let mut pl = Pl {
            cases: vec![(st.pc, STACK_BASE + (fr.base + l) as u64 * STRIDE)],
            meta: None,
            layout: fr.info.layouts[l],
        };
        for e in p.projection.iter() {
            pl = self.project(st, fr, pl, e)?;
        }
        Ok(pl)
    }

    pub fn field(&mut self, pl: &Pl<'tcx>, i: usize) -> Res<Pl<'tcx>> {
        let cx = self.lcx();
        let off = pl.layout.fields.offset(i).bytes();
        let fl = pl.layout.field(&cx, i);
        let meta = if fl.is_sized() {
            None
        } else {
            if matches!(self.tcx.struct_tail_for_codegen(fl.ty, self.te).kind(), ty::Dynamic(..)) && off != 0 {
                return unsup("field behind a dyn-sized tail");
            }
            pl.meta.clone()
        };
        Ok(Pl { cases: pl.cases.iter().map(|&(g, a)| (g, a + off)).collect(), meta, layout: fl })
    }

    fn elem_layout(&mut self, l: &TyAndLayout<'tcx>) -> Res<TyAndLayout<'tcx>> {
        match l.ty.kind() {
            ty::Array(t, _) | ty::Slice(t) => self.layout(*t),
            ty::Str => self.layout(self.tcx.types.u8),
            _ => unsup(format!("indexing into {}", l.ty)),
        }
    }

    fn len_cases(&mut self, st: &State, pl: &Pl<'tcx>) -> Res<Vec<(B, u128)>> {
        match pl.layout.fields {
            FieldsShape::Array { count, .. } if matches!(pl.layout.ty.kind(), ty::Array(..)) => Ok(vec![(st.pc, count as u128)]),
            _ => match &pl.meta {
                Some(m) => {
                    let m = m.clone();
                    self.cases(&m, st.pc)
                }
                None => unsup("length of a place without metadata"),
            },
        }
    }

    fn combine(&mut self, pc: B, a: &[(B, u64)], b: &[(B, u128)], f: impl Fn(u64, u128) -> u64) -> Vec<(B, u64)> {
        let mut r: Vec<(B, u64)> = vec![];
        if a.len() == 1 && b.len() == 1 {
            return vec![(a[0].0, f(a[0].1, b[0].1))];
        }
        for &(g, x) in a {
            for &(h, y) in b {
                let k = self.dd.and(g, h);
                let k = self.dd.and(k, pc);
                if k != F {
                    let v = f(x, y);
                    if let Some(e) = r.iter_mut().find(|e| e.1 == v) {
                        e.0 = self.dd.or(e.0, k);
                    } else {
                        r.push((k, v));
                    }
                }
            }
        }
        if r.is_empty() {
            r.push((F, f(a[0].1, b[0].1)));
        }
        r
    }

    fn project(&mut self, st: &State, fr: &Frame<'tcx>, pl: Pl<'tcx>, e: mir::PlaceElem<'tcx>) -> Res<Pl<'tcx>> {
        Ok(match e {
            ProjectionElem::Deref => {
                let b = self.read_pl(st, &pl)?;
                self.deref(st, &b, pl.layout.ty)?
            }
            ProjectionElem::Field(f, _) => self.field(&pl, f.as_usize())?,
            ProjectionElem::Downcast(_, v) => {
                let cx = self.lcx();
                Pl { layout: pl.layout.for_variant(&cx, v), ..pl }
            }
            ProjectionElem::Index(l) => {
                let el = self.elem_layout(&pl.layout)?;
                let ip = self.place(st, fr, Place::from(l))?;
                let ib = self.read_pl(st, &ip)?;
                let ic = self.cases(&ib, st.pc)?;
                let sz = el.size.bytes();
                let cases = self.combine(st.pc, &pl.cases, &ic, |a, i| a.wrapping_add((i as u64).wrapping_mul(sz)));
                Pl { cases, meta: None, layout: el }
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let el = self.elem_layout(&pl.layout)?;
                let sz = el.size.bytes();
                let cases = if from_end {
                    let lc = self.len_cases(st, &pl)?;
                    self.combine(st.pc, &pl.cases, &lc, |a, n| a.wrapping_add((n as u64).wrapping_sub(offset).wrapping_mul(sz)))
                } else {
                    pl.cases.iter().map(|&(g, a)| (g, a + offset * sz)).collect()
                };
                Pl { cases, meta: None, layout: el }
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let el = self.elem_layout(&pl.layout)?;
                let sz = el.size.bytes();
                let cases: Vec<_> = pl.cases.iter().map(|&(g, a)| (g, a + from * sz)).collect();
                match pl.layout.ty.kind() {
                    ty::Array(t, _) => {
                        let n = match pl.layout.fields {
                            FieldsShape::Array { count, .. } => count,
                            _ => return unsup("subslice of odd array"),
                        };
                        let cnt = if from_end { n - from - to } else { to - from };
                        let l = self.layout(Ty::new_array(self.tcx, *t, cnt))?;
                        Pl { cases, meta: None, layout: l }
                    }
                    _ => {
                        let m = pl.meta.clone().ok_or(Stop::Unsup("subslice without length".into()))?;
                        let meta = if from_end {
                            let k = cst((from + to) as u128, self.pw);
                            self.dd.sub(&m, &k).0
                        } else {
                            cst((to - from) as u128, self.pw)
                        };
                        Pl { cases, meta: Some(meta), layout: pl.layout }
                    }
                }
            }
            ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => {
                let t = self.mono(fr.inst, t);
                Pl { layout: self.layout(t)?, ..pl }
            }
            other => return unsup(format!("projection {other:?}")),
        })
    }

    // ----- enums -------------------------------------------------------------------

    /// Discriminant of the enum stored in `bits`.
    pub fn discriminant(&mut self, bits: &[B], l: &TyAndLayout<'tcx>, pc: B) -> Res<Bits> {
        let dty = l.ty.discriminant_ty(self.tcx);
        let dn = { let x = self.layout(dty)?; self.nbits(&x) };
        match &l.variants {
            Variants::Empty => Err(Stop::Ub(pc, format!("value of uninhabited type {}", l.ty))),
            Variants::Single { index } => {
                let v = match l.ty.discriminant_for_variant(self.tcx, *index) {
                    Some(d) => d.val,
                    None => index.as_u32() as u128,
                };
                Ok(cst(v, dn))
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let cx = self.lcx();
                let off = l.fields.offset(tag_field.as_usize()).bits() as usize;
                let n = tag.size(&cx).bits() as usize;
                let t = bits[off..off + n].to_vec();
                if t.contains(&U) {
                    return Err(Stop::Ub(pc, format!("reads the variant of an uninitialised {}", l.ty)));
                }
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), rustc_abi::Primitive::Int(_, true));
                        Ok(self.dd.extend(&t, dn, signed))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let s = cst(*niche_start, n);
                        let (rel, _, _) = self.dd.sub(&t, &s);
                        let first = niche_variants.start.as_u32() as u128;
                        let last = niche_variants.last.as_u32() as u128;
                        let lim = cst(last - first, n);
                        let over = self.dd.ult(&lim, &rel);
                        let relx = self.dd.extend(&rel, dn, false);
                        let fb = cst(first, dn);
                        let var = self.dd.add(&relx, &fb, F).0;
                        let un = cst(untagged_variant.as_u32() as u128, dn);
                        Ok(self.dd.mux(over, &un, &var))
                    }
                }
            }
        }
    }

    /// Writes the tag for `v` into `bits`.
    pub fn set_tag(&mut self, bits: &mut Bits, l: &TyAndLayout<'tcx>, v: VariantIdx) -> Res<()> {
        if let Variants::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
            let cx = self.lcx();
            let off = l.fields.offset(tag_field.as_usize()).bits() as usize;
            let n = tag.size(&cx).bits() as usize;
            let val = match tag_encoding {
                TagEncoding::Direct => match l.ty.discriminant_for_variant(self.tcx, v) {
                    Some(d) => d.val,
                    None => v.as_u32() as u128,
                },
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if *untagged_variant == v {
                        return Ok(());
                    }
                    niche_start.wrapping_add((v.as_u32() - niche_variants.start.as_u32()) as u128)
                }
            };
            bits[off..off + n].copy_from_slice(&cst(val, n));
        }
        Ok(())
    }

    // ----- rvalues -----------------------------------------------------------------

    fn defined(&self, b: &[B], pc: B) -> Res<()> {
        if b.contains(&U) {
            Err(Stop::Ub(pc, "use of an uninitialised value".into()))
        } else {
            Ok(())
        }
    }

    fn ptr_bits(&mut self, pl: &Pl<'tcx>) -> Bits {
        let c = pl.cases.clone();
        let mut b = self.fold_cases(&c, self.pw);
        if let Some(m) = &pl.meta {
            b.extend_from_slice(m);
        }
        b
    }

    fn rvalue(&mut self, st: &mut State, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, dest: &TyAndLayout<'tcx>) -> Res<Bits> {
        match rv {
            Rvalue::Use(o, ..) => Ok(self.operand(st, fr, o)?.0),
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(st, fr, *p)?;
                self.read_pl(st, &pl)
            }
            Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, fr, *p)?;
                self.read_pl(st, &pl)
            }
            Rvalue::Repeat(o, _) => {
                let (b, _) = self.operand(st, fr, o)?;
                let n = self.nbits(dest);
                let mut r = Vec::with_capacity(n);
                while r.len() < n {
                    r.extend_from_slice(&b);
                }
                Ok(r)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(st, fr, *p)?;
                Ok(self.ptr_bits(&pl))
            }
            Rvalue::ThreadLocalRef(d) => {
                let n = self.name(*d);
                self.effect(format!("uses thread-local {n}"));
                unsup(format!("thread-local {n}"))
            }
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(fr.inst, *t);
                let (b, l) = self.operand(st, fr, o)?;
                self.cast(st, *k, b, l, t)
            }
            Rvalue::BinaryOp(op, ops) => {
                let (a, la) = self.operand(st, fr, &ops.0)?;
                let (b, lb) = self.operand(st, fr, &ops.1)?;
                self.defined(&a, st.pc)?;
                self.defined(&b, st.pc)?;
                let r = self.binop(st, *op, a, la, b, lb)?;
                if !matches!(op, BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow) {
                    return Ok(r);
                }
                Ok(self.pair(dest, &r[..r.len() - 8], &r[r.len() - 8..]))
            }
            Rvalue::UnaryOp(op, o) => {
                let (a, l) = self.operand(st, fr, o)?;
                match op {
                    UnOp::Not => {
                        self.defined(&a, st.pc)?;
                        if l.ty.is_bool() {
                            let x = self.dd.not(a[0]);
                            let mut r = cst(0, a.len());
                            r[0] = x;
                            Ok(r)
                        } else {
                            Ok(self.dd.inv(&a))
                        }
                    }
                    UnOp::Neg => {
                        if l.ty.is_floating_point() {
                            return unsup("floating point arithmetic");
                        }
                        self.defined(&a, st.pc)?;
                        Ok(self.dd.neg(&a))
                    }
                    UnOp::PtrMetadata => Ok(a[self.pw.min(a.len())..].to_vec()),
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, fr, *p)?;
                let b = self.read_pl(st, &pl)?;
                self.discriminant(&b, &pl.layout, st.pc)
            }
            Rvalue::Aggregate(k, fs) => {
                let mut r = vec![U; self.nbits(dest)];
                match &**k {
                    mir::AggregateKind::RawPtr(..) => {
                        let mut b = vec![];
                        for o in fs.iter() {
                            b.extend(self.operand(st, fr, o)?.0);
                        }
                        Ok(b)
                    }
                    mir::AggregateKind::Adt(_, v, _, _, active) => {
                        let cx = self.lcx();
                        let vl = dest.for_variant(&cx, *v);
                        for (i, o) in fs.iter_enumerated() {
                            let i = active.unwrap_or(i);
                            let (b, _) = self.operand(st, fr, o)?;
                            let off = vl.fields.offset(i.as_usize()).bits() as usize;
                            r[off..off + b.len()].copy_from_slice(&b);
                        }
                        self.set_tag(&mut r, dest, *v)?;
                        Ok(r)
                    }
                    mir::AggregateKind::Coroutine(..) | mir::AggregateKind::CoroutineClosure(..) => unsup("coroutines"),
                    _ => {
                        for (i, o) in fs.iter_enumerated() {
                            let (b, _) = self.operand(st, fr, o)?;
                            let off = dest.fields.offset(i.as_usize()).bits() as usize;
                            r[off..off + b.len()].copy_from_slice(&b);
                        }
                        Ok(r)
                    }
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => Ok(self.operand(st, fr, o)?.0),
        }
    }

    fn cast(&mut self, st: &State, k: CastKind, b: Bits, l: TyAndLayout<'tcx>, t: Ty<'tcx>) -> Res<Bits> {
        let tl = self.layout(t)?;
        let n = self.nbits(&tl);
        match k {
            CastKind::IntToInt => {
                if t.is_floating_point() || l.ty.is_floating_point() {
                    return unsup("floating point");
                }
                self.defined(&b, st.pc)?;
                Ok(self.dd.extend(&b, n, Self::is_signed(l.ty)))
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeProvenance
            | CastKind::PointerWithExposedProvenance => {
                if k == CastKind::PointerExposeProvenance {
                    self.effect("turns the address of an object into a number".into());
                }
                let mut b = b;
                b.truncate(n);
                if b.len() < n {
                    b.resize(n, F);
                }
                Ok(b)
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                if b.len() != n {
                    return unsup(format!("transmute between {} and {t} of different size", l.ty));
                }
                Ok(b)
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize, _) => self.unsize(st, b, l, tl),
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_), _) => match *l.ty.kind() {
                ty::FnDef(d, args) => {
                    let args = args.no_bound_vars().unwrap();
                    match Instance::resolve_for_fn_ptr(self.tcx, self.te, d, args) {
                        Some(i) => {
                            let a = self.fn_addr(i);
                            Ok(cst(a as u128, self.pw))
                        }
                        None => unsup(format!("function pointer to {}", self.name(d))),
                    }
                }
                _ => unsup("reify of a non-function"),
            },
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_), _) => match *l.ty.kind() {
                ty::Closure(d, args) => {
                    let i = Instance::resolve_closure(self.tcx, d, args, ty::ClosureKind::FnOnce);
                    let a = self.fn_addr(i);
                    Ok(cst(a as u128, self.pw))
                }
                _ => unsup("closure pointer of a non-closure"),
            },
            CastKind::PointerCoercion(..) => Ok(b),
            CastKind::IntToFloat | CastKind::FloatToInt | CastKind::FloatToFloat => unsup("floating point"),
        }
    }

    fn unsize(&mut self, st: &State, b: Bits, s: TyAndLayout<'tcx>, d: TyAndLayout<'tcx>) -> Res<Bits> {
        let (sp, dp) = match (s.ty.builtin_deref(true), d.ty.builtin_deref(true)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                // struct wrapping a pointer
                if let (ty::Adt(a, _), ty::Adt(c, _)) = (s.ty.kind(), d.ty.kind()) {
                    if a == c && a.is_struct() {
                        let cx = self.lcx();
                        let mut r = vec![U; self.nbits(&d)];
                        for i in 0..s.fields.count() {
                            let (sf, df) = (s.field(&cx, i), d.field(&cx, i));
                            let so = s.fields.offset(i).bits() as usize;
                            let n = self.nbits(&sf);
                            let part = b[so..so + n].to_vec();
                            let part = if sf.ty == df.ty || n == 0 { part } else { self.unsize(st, part, sf, df)? };
                            let o = d.fields.offset(i).bits() as usize;
                            r[o..o + part.len()].copy_from_slice(&part);
                        }
                        return Ok(r);
                    }
                }
                return unsup(format!("unsizing {} to {}", s.ty, d.ty));
            }
        };
        let (st_, dt_) = self.tcx.struct_lockstep_tails_for_codegen(sp, dp, self.te);
        match (st_.kind(), dt_.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let Some(n) = n.try_to_target_usize(self.tcx) else { return unsup("array length") };
                let mut r = b;
                r.extend(cst(n as u128, self.pw));
                Ok(r)
            }
            (ty::Dynamic(a, _), ty::Dynamic(c, _)) => {
                if a == c {
                    return Ok(b);
                }
                let vc = self.cases(&b[self.pw..], st.pc)?;
                let mut out: Vec<(B, u64)> = vec![];
                for (g, v) in vc {
                    let nv = if v as u64 == SINK_VT {
                        SINK_VT
                    } else {
                        match self.vt_at(v as u64) {
                            Some((t, _)) => self.vt_addr(t, c),
                            None => return Err(Stop::Ub(g, "invalid vtable".into())),
                        }
                    };
                    out.push((g, nv));
                }
                let mut r = b[..self.pw].to_vec();
                r.extend(self.fold_cases(&out, self.pw));
                Ok(r)
            }
            (_, ty::Dynamic(c, _)) => {
                let a = self.vt_addr(st_, c);
                let mut r = b;
                r.extend(cst(a as u128, self.pw));
                Ok(r)
            }
            _ => unsup(format!("unsizing {} to {}", s.ty, d.ty)),
        }
    }

    fn ptr_as_num(&self, b: &[B]) -> Bits {
        // compare wide pointers by address first
        if b.len() > self.pw {
            let mut r = b[self.pw..].to_vec();
            r.extend_from_slice(&b[..self.pw]);
            r
        } else {
            b.to_vec()
        }
    }

    /// A two-field tuple laid out as the compiler lays it out.
    pub fn pair(&mut self, l: &TyAndLayout<'tcx>, x: &[B], y: &[B]) -> Bits {
        let mut r = vec![U; self.nbits(l)];
        for (i, v) in [x, y].into_iter().enumerate() {
            let o = l.fields.offset(i).bits() as usize;
            r[o..o + v.len()].copy_from_slice(v);
        }
        r
    }

    pub fn bool_bits(&self, x: B) -> Bits {
        let mut r = vec![F; 8];
        r[0] = x;
        r
    }

    fn ub_if(&mut self, c: B, pc: B, m: &str) -> Res<()> {
        let g = self.dd.and(c, pc);
        if g != F { Err(Stop::Ub(g, m.into())) } else { Ok(()) }
    }

    fn binop(&mut self, st: &State, op: BinOp, a: Bits, la: TyAndLayout<'tcx>, b: Bits, lb: TyAndLayout<'tcx>) -> Res<Bits> {
        use BinOp::*;
        if la.ty.is_floating_point() {
            return unsup("floating point arithmetic");
        }
        let signed = Self::is_signed(la.ty);
        let n = a.len();
        let pc = st.pc;
        let r = match op {
            Add | AddUnchecked | AddWithOverflow => {
                let (r, c, t) = self.dd.add(&a, &b, F);
                let o = if signed { self.dd.xor(c, t) } else { c };
                match op {
                    AddWithOverflow => self.with_flag(r, o),
                    AddUnchecked => {
                        self.ub_if(o, pc, "unchecked addition overflows")?;
                        r
                    }
                    _ => r,
                }
            }
            Sub | SubUnchecked | SubWithOverflow => {
                let (r, bo, so) = self.dd.sub(&a, &b);
                let o = if signed { so } else { bo };
                match op {
                    SubWithOverflow => self.with_flag(r, o),
                    SubUnchecked => {
                        self.ub_if(o, pc, "unchecked subtraction overflows")?;
                        r
                    }
                    _ => r,
                }
            }
            Mul => match (as_const(&a), as_const(&b)) {
                (Some(x), Some(y)) => cst(x.wrapping_mul(y), n),
                _ => self.dd.mul_wrap(&a, &b),
            },
            MulUnchecked | MulWithOverflow => {
                let f = self.dd.mul_full(&a, &b, signed);
                let r = f[..n].to_vec();
                let o = if signed {
                    let x = self.dd.extend(&r, 2 * n, true);
                    let e = self.dd.eq(&x, &f);
                    self.dd.not(e)
                } else {
                    self.dd.any(&f[n..])
                };
                if op == MulWithOverflow {
                    self.with_flag(r, o)
                } else {
                    self.ub_if(o, pc, "unchecked multiplication overflows")?;
                    r
                }
            }
            Div | Rem => {
                let z = self.dd.any(&b);
                let z = self.dd.not(z);
                self.ub_if(z, pc, "division by zero")?;
                let (q, r) = self.dd.divrem(&a, &b, signed);
                if op == Div { q } else { r }
            }
            BitXor => (0..n).map(|i| self.dd.xor(a[i], b[i])).collect(),
            BitAnd => (0..n).map(|i| self.dd.and(a[i], b[i])).collect(),
            BitOr => (0..n).map(|i| self.dd.or(a[i], b[i])).collect(),
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                if matches!(op, ShlUnchecked | ShrUnchecked) {
                    let bx = self.dd.extend(&b, b.len().max(9) + 1, Self::is_signed(lb.ty));
                    let lim = cst(n as u128, bx.len());
                    let lt = self.dd.ult(&bx, &lim);
                    let ge = self.dd.not(lt);
                    self.ub_if(ge, pc, "unchecked shift by too much")?;
                }
                if matches!(op, Shl | ShlUnchecked) { self.dd.shl(&a, &b) } else { self.dd.shr(&a, &b, signed) }
            }
            Eq | Ne => {
                let e = self.dd.eq(&a, &b);
                let e = if op == Ne { self.dd.not(e) } else { e };
                self.bool_bits(e)
            }
            Lt | Le | Gt | Ge => {
                let (x, y) = (self.ptr_as_num(&a), self.ptr_as_num(&b));
                let (x, y, neg) = match op {
                    Lt => (x, y, false),
                    Gt => (y, x, false),
                    Ge => (x, y, true),
                    _ => (y, x, true),
                };
                let l = if signed { self.dd.slt(&x, &y) } else { self.dd.ult(&x, &y) };
                let l = if neg { self.dd.not(l) } else { l };
                self.bool_bits(l)
            }
            Cmp => {
                let (x, y) = (self.ptr_as_num(&a), self.ptr_as_num(&b));
                let lt = if signed { self.dd.slt(&x, &y) } else { self.dd.ult(&x, &y) };
                let eq = self.dd.eq(&x, &y);
                let (m, z, p) = (cst(0xff, 8), cst(0, 8), cst(1, 8));
                let r = self.dd.mux(eq, &z, &p);
                self.dd.mux(lt, &m, &r)
            }
            Offset => {
                let Some(p) = la.ty.builtin_deref(true) else { return unsup("offset of non-pointer") };
                let sz = self.layout(p)?.size.bytes();
                let ix = self.dd.extend(&b, self.pw, Self::is_signed(lb.ty));
                self.offset_bits(&a, &ix, sz)
            }
        };
        if self.dd.overflow {
            return unsup("diagram size limit reached");
        }
        Ok(r)
    }

    pub fn offset_bits(&mut self, a: &[B], ix: &[B], sz: u64) -> Bits {
        let s = cst(sz as u128, self.pw);
        let d = match as_const(ix) {
            Some(x) => cst((x as u64).wrapping_mul(sz) as u128, self.pw),
            None => self.dd.mul_wrap(ix, &s),
        };
        self.dd.add(&a[..self.pw], &d, F).0
    }

    fn with_flag(&self, mut r: Bits, o: B) -> Bits {
        r.extend(self.bool_bits(o));
        r
    }

    // ----- joins -------------------------------------------------------------------

    pub fn join(&mut self, a: State, b: State) -> State {
        if a.pc == F {
            return b;
        }
        if b.pc == F {
            return a;
        }
        self.stats.joins += 1;
        debug_assert_eq!(a.stack.len(), b.stack.len());
        let pc = self.dd.or(a.pc, b.pc);
        let mut stack = Vec::with_capacity(a.stack.len());
        for (x, y) in a.stack.iter().zip(b.stack.iter()) {
            if Rc::ptr_eq(x, y) || x.bits == y.bits {
                stack.push(x.clone());
            } else {
                let g = a.pc;
                let bits = (0..x.bits.len()).map(|i| self.dd.mux1(g, x.bits[i], y.bits[i])).collect();
                stack.push(Rc::new(Alloc { bits }));
            }
        }
        let mut out: Vec<(B, Toks)> = vec![];
        for (s, alts) in [(a.pc, &a.out), (b.pc, &b.out)] {
            for (g, t) in alts {
                let g = self.dd.and(*g, s);
                if g == F {
                    continue;
                }
                let same = out.iter_mut().find(|(_, u)| match (u, t) {
                    (None, None) => true,
                    (Some(x), Some(y)) => Rc::ptr_eq(x, y),
                    _ => false,
                });
                match same {
                    Some(e) => e.0 = self.dd.or(e.0, g),
                    None => out.push((g, t.clone())),
                }
            }
        }
        let refused = self.dd.mux1(a.pc, a.refused, b.refused);
        State { pc, stack, out, refused }
    }

    // ----- bodies ------------------------------------------------------------------

    fn body_info(&mut self, inst: Instance<'tcx>) -> Res<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        if let InstanceKind::Item(d) = inst.def {
            if !self.tcx.is_mir_available(d) {
                return unsup(format!("no MIR for {}", self.name(d)));
            }
        }
        let body = self.tcx.instance_mir(inst.def);
        let mut layouts = vec![];
        let mut templ = vec![];
        for d in body.local_decls.iter() {
            let t = self.mono(inst, d.ty);
            let l = self.layout(t)?;
            if l.size.bytes() > STRIDE {
                return unsup(format!("stack object of {} bytes", l.size.bytes()));
            }
            templ.push(Rc::new(Alloc { bits: vec![U; l.size.bits() as usize] }));
            layouts.push(l);
        }
        let pos = wto(body);
        let info = Rc::new(BodyInfo { body, layouts, templ, pos, local: inst.def_id().is_local() });
        self.bodies.insert(inst, info.clone());
        Ok(info)
    }

    fn hook(&mut self, inst: Instance<'tcx>) -> Hook {
        let InstanceKind::Item(d) = inst.def else { return Hook::None };
        if d.is_local() {
            return Hook::None;
        }
        if let Some(h) = self.hooks.get(&d) {
            return *h;
        }
        let p = self.name(d);
        let mut h = Hook::None;
        if p.starts_with("core::panicking::") || p.starts_with("std::panicking::") || p == "std::rt::begin_panic" {
            h = Hook::Panic;
        }
        if let Some(im) = self.tcx.trait_impl_of_assoc(d) {
            let tr = self.tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            if tr.self_ty().is_integral() {
                let tn = self.name(tr.def_id);
                h = match tn.as_str() {
                    "core::fmt::Display" => Hook::IntFmt("d"),
                    "core::fmt::LowerHex" => Hook::IntFmt("x"),
                    "core::fmt::UpperHex" => Hook::IntFmt("X"),
                    "core::fmt::Octal" => Hook::IntFmt("o"),
                    "core::fmt::Binary" => Hook::IntFmt("b"),
                    _ => h,
                };
            }
        }
        self.hooks.insert(d, h);
        h
    }

    /// The value a constructor used as a function returns.
    fn construct(&mut self, ctor: DefId, args: &[(Bits, Ty<'tcx>)], ret: &TyAndLayout<'tcx>) -> Res<Bits> {
        let Some(adt) = ret.ty.ty_adt_def() else { return unsup("constructor of no structure") };
        let v = match self.tcx.def_kind(ctor) {
            DefKind::Ctor(CtorOf::Variant, _) => adt.variant_index_with_ctor_id(ctor),
            _ => FIRST_VARIANT,
        };
        let cx = self.lcx();
        let vl = ret.for_variant(&cx, v);
        if vl.fields.count() != args.len() {
            return unsup(format!("argument count of {}", self.name(ctor)));
        }
        let mut r = vec![U; self.nbits(ret)];
        for (i, (b, _)) in args.iter().enumerate() {
            let off = vl.fields.offset(i).bits() as usize;
            r[off..off + b.len()].copy_from_slice(b);
        }
        self.set_tag(&mut r, ret, v)?;
        Ok(r)
    }

    /// Analyses a call and returns the joined returning state with the result.
    pub fn call(
        &mut self,
        st: State,
        inst: Instance<'tcx>,
        mut args: Vec<(Bits, Ty<'tcx>)>,
        rust_call: bool,
        ret: TyAndLayout<'tcx>,
    ) -> Res<Option<(State, Bits)>> {
        if st.pc == F {
            return Ok(None);
        }
        self.stats.calls += 1;
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                return match self.intrinsic(st, inst, &args, ret)? {
                    crate::intrinsics::Out::Done(r) => Ok(r),
                    crate::intrinsics::Out::Fallback(st) => {
                        let i = self.tcx.intrinsic(d);
                        if i.is_none_or(|i| i.must_be_overridden) {
                            return unsup(format!("intrinsic {}", self.name(d)));
                        }
                        let fb = Instance { def: InstanceKind::Item(d), args: inst.args };
                        self.call(st, fb, args, false, ret)
                    }
                };
            }
            InstanceKind::LlvmIntrinsic(d) => return unsup(format!("llvm intrinsic {}", self.name(d))),
            InstanceKind::Virtual(d, idx) => return self.call_virtual(st, d, idx, args, rust_call, ret),
            _ => {}
        }
        match self.hook(inst) {
            Hook::Panic => {
                self.stats.obligations += 1;
                let m = format!("panic ({})", self.name(inst.def_id()));
                self.leaf("panic", m, st.pc);
                return Ok(None);
            }
            // into any other writer the digits are computed
            Hook::IntFmt(r) if self.into_sink(&st, &args)? => return self.int_fmt(st, r, &args, ret),
            Hook::IntFmt(_) if !self.digits && self.wide(&st, &args)? => return unsup("digits of an integer of full size"),
            Hook::IntFmt(_) | Hook::None => {}
        }
        if self.tcx.is_foreign_item(inst.def_id()) {
            let n = self.name(inst.def_id());
            self.effect(format!("calls foreign function {n}"));
            return unsup(format!("foreign function {n}"));
        }
        if self.frames.len() > 200 {
            self.leaf("divergence", "unbounded recursion".into(), st.pc);
            return Ok(None);
        }
        let ctor = match inst.def {
            InstanceKind::Item(d) if self.tcx.is_constructor(d) => Some(d),
            _ => None,
        };

        // rust-call: untuple the last argument, then retuple for a spread argument
        if rust_call && !args.is_empty() {
            let (tb, tt) = args.pop().unwrap();
            let l = self.layout(tt)?;
            if !matches!(tt.kind(), ty::Tuple(_)) {
                return unsup("rust-call without a tuple");
            }
            let cx = self.lcx();
            for i in 0..l.fields.count() {
                let f = l.field(&cx, i);
                let o = l.fields.offset(i).bits() as usize;
                args.push((tb[o..o + self.nbits(&f)].to_vec(), f.ty));
            }
        }
        if let Some(d) = ctor {
            return Ok(Some((st, self.construct(d, &args, &ret)?)));
        }
        let info = self.body_info(inst)?;
        self.seen.insert(inst);
        let mut st = st;
        let base = st.stack.len();
        st.stack.extend(info.templ.iter().cloned());
        let nargs = info.body.arg_count;
        let mut k = 0usize;
        for l in 1..=nargs {
            let lay = info.layouts[l];
            if info.body.spread_arg == Some(Local::from_usize(l)) {
                let mut b = vec![U; self.nbits(&lay)];
                let cx = self.lcx();
                for i in 0..lay.fields.count() {
                    let f = lay.field(&cx, i);
                    let o = lay.fields.offset(i).bits() as usize;
                    let Some((ab, _)) = args.get(k) else { return unsup("argument count") };
                    k += 1;
                    if ab.len() != self.nbits(&f) {
                        return unsup("argument size");
                    }
                    b[o..o + ab.len()].copy_from_slice(ab);
                }
                st.stack[base + l] = Rc::new(Alloc { bits: b });
            } else {
                let Some((ab, _)) = args.get(k) else {
                    return unsup(format!("argument count of {}", self.name(inst.def_id())));
                };
                k += 1;
                if ab.len() != self.nbits(&lay) {
                    return unsup(format!("argument size of {}", self.name(inst.def_id())));
                }
                st.stack[base + l] = Rc::new(Alloc { bits: ab.clone() });
            }
        }
        let fr = Frame { inst, base, info: info.clone() };
        self.frames.push((inst, info.body.span));
        let r = self.run_body(st, &fr);
        let r = match r {
            Ok(x) => x,
            Err(e) => return Err(e), // frames kept for the diagnostic
        };
        self.frames.pop();
        match r {
            None => Ok(None),
            Some(mut s) => {
                let b = s.stack[base].bits.clone();
                s.stack.truncate(base);
                if b.len() != self.nbits(&ret) {
                    return unsup("result size");
                }
                Ok(Some((s, b)))
            }
        }
    }

    fn call_virtual(
        &mut self,
        st: State,
        d: DefId,
        idx: usize,
        args: Vec<(Bits, Ty<'tcx>)>,
        rust_call: bool,
        ret: TyAndLayout<'tcx>,
    ) -> Res<Option<(State, Bits)>> {
        let (rb, mut rt) = args[0].clone();
        // newtypes around the receiver have the layout of the pointer
        while rt.builtin_deref(true).is_none() {
            let l = self.layout(rt)?;
            let cx = self.lcx();
            match l.non_1zst_field(&cx) {
                Some((_, f)) => rt = f.ty,
                None => return unsup("virtual call receiver"),
            }
        }
        let tail = self.tcx.struct_tail_for_codegen(rt.builtin_deref(true).unwrap(), self.te);
        let ty::Dynamic(preds, _) = tail.kind() else { return unsup("virtual call on a sized type") };
        let vc = self.cases(&rb[self.pw..], st.pc)?;
        let mut acc: Option<(State, Bits)> = None;
        for (g, v) in vc {
            let mut s = st.clone();
            s.pc = self.dd.and(s.pc, g);
            if s.pc == F {
                continue;
            }
            let mut a = args.clone();
            let r = if v as u64 == SINK_VT {
                self.sink_call(s, d, &a, ret)?
            } else {
                let Some((t, _)) = self.vt_at(v as u64) else {
                    return Err(Stop::Ub(g, "virtual call through an invalid vtable".into()));
                };
                let entries = match preds.principal() {
                    Some(p) => {
                        let p = p.with_self_ty(self.tcx, t);
                        let p = self.tcx.instantiate_bound_regions_with_erased(p);
                        let p = self.tcx.erase_and_anonymize_regions(p);
                        self.tcx.vtable_entries(p)
                    }
                    None => return unsup("virtual call without a principal trait"),
                };
                let Some(ty::VtblEntry::Method(m)) = entries.get(idx).copied() else {
                    return unsup("virtual call entry");
                };
                a[0] = (rb[..self.pw].to_vec(), Ty::new_mut_ptr(self.tcx, t));
                self.call(s, m, a, rust_call, ret)?
            };
            acc = self.join_ret(acc, r);
        }
        Ok(acc)
    }

    pub fn join_ret(&mut self, a: Option<(State, Bits)>, b: Option<(State, Bits)>) -> Option<(State, Bits)> {
        match (a, b) {
            (None, x) | (x, None) => x,
            (Some((s, x)), Some((t, y))) => {
                let r = self.dd.mux(s.pc, &x, &y);
                Some((self.join(s, t), r))
            }
        }
    }

    // ----- formatting sink -----------------------------------------------------------

    fn append(&mut self, st: &mut State, tok: Tok) -> Res<B> {
        // inputs for which this write is refused
        let mut fail = F;
        let mut before: BTreeMap<u32, Vec<(B, Toks)>> = BTreeMap::new();
        let pc = st.pc;
        for (g, t) in std::mem::take(&mut st.out) {
            let g = self.dd.and(g, pc);
            if g == F {
                continue;
            }
            let len = t.as_ref().map_or(0, |n| n.len);
            // a refused write counts, so that the sink decides about each attempt on its own
            if let Some(n) = &self.refuse_at {
                let Some(&bit) = n.get(len as usize) else { return unsup("more writes to the sink than modelled") };
                let r = self.dd.and(bit, g);
                fail = self.dd.or(fail, r);
            }
            before.entry(if self.refuse_at.is_some() { len } else { 0 }).or_default().push((g, t));
        }
        let mut out = vec![];
        for (len, prev) in before {
            let mut g = F;
            for (h, _) in &prev {
                g = self.dd.or(g, *h);
            }
            out.push((g, Some(Rc::new(TokNode { tok: tok.clone(), prev, len: len + 1 }))));
        }
        st.out = out;
        if fail != F {
            let f = self.dd.and(fail, pc);
            st.refused = self.dd.or(st.refused, f);
        }
        Ok(fail)
    }

    fn fmt_result(&mut self, fail: B, ret: TyAndLayout<'tcx>) -> Res<Bits> {
        let mut ok = vec![U; self.nbits(&ret)];
        self.set_tag(&mut ok, &ret, VariantIdx::from_u32(0))?;
        if fail == F {
            return Ok(ok);
        }
        let mut er = vec![U; self.nbits(&ret)];
        self.set_tag(&mut er, &ret, VariantIdx::from_u32(1))?;
        Ok(self.dd.mux(fail, &er, &ok))
    }

    fn sink_call(&mut self, mut st: State, d: DefId, args: &[(Bits, Ty<'tcx>)], ret: TyAndLayout<'tcx>) -> Res<Option<(State, Bits)>> {
        let m = self.tcx.item_name(d);
        match m.as_str() {
            "write_str" => {
                let b = &args[1].0;
                let ac = self.addr_cases(&b[..self.pw], st.pc)?;
                let lc = self.cases(&b[self.pw..], st.pc)?;
                let mut texts: Vec<(B, Vec<u8>)> = vec![];
                let mut bytes = vec![];
                let mut many = false;
                for &(g, a) in &ac {
                    for &(h, n) in &lc {
                        let k = self.dd.and(g, h);
                        if k == F {
                            continue;
                        }
                        let bits = match self.read_mem(&st, a, n as usize * 8) {
                            Ok(x) => x,
                            Err(m) => return Err(Stop::Ub(k, m)),
                        };
                        // bytes that depend on the input split the text by their values
                        let mut alts: Vec<(B, Vec<u8>)> = vec![(k, vec![])];
                        for c in bits.chunks(8) {
                            if many {
                                break;
                            }
                            let mut next = vec![];
                            for (g, s) in alts {
                                for (h, x) in self.cases(c, g)? {
                                    let mut s = s.clone();
                                    s.push(x as u8);
                                    next.push((h, s));
                                }
                            }
                            many = next.len() > 4096;
                            alts = next;
                        }
                        if bits.contains(&U) {
                            return unsup("prints uninitialised bytes");
                        }
                        bytes.push((k, bits));
                        for (k, s) in alts {
                            match texts.iter_mut().find(|e| e.1 == s) {
                                Some(e) => e.0 = self.dd.or(e.0, k),
                                None => texts.push((k, s)),
                            }
                        }
                    }
                }
                if many && !self.digits {
                    return unsup("digits of an integer of full size");
                }
                let tok = if many { Tok::Bytes(Rc::new(bytes)) } else { Tok::Str(Rc::new(texts)) };
                let f = self.append(&mut st, tok)?;
                let r = self.fmt_result(f, ret)?;
                Ok(Some((st, r)))
            }
            "write_char" => {
                let f = self.append(&mut st, Tok::Char(Rc::new(args[1].0.clone())))?;
                let r = self.fmt_result(f, ret)?;
                Ok(Some((st, r)))
            }
            o => unsup(format!("sink method {o}")),
        }
    }

    fn struct_field(&mut self, l: &TyAndLayout<'tcx>, name: &str) -> Res<(usize, TyAndLayout<'tcx>)> {
        let ty::Adt(a, _) = l.ty.kind() else { return unsup("field of a non-struct") };
        for (i, f) in a.non_enum_variant().fields.iter().enumerate() {
            if f.name.as_str() == name {
                let cx = self.lcx();
                return Ok((l.fields.offset(i).bits() as usize, l.field(&cx, i)));
            }
        }
        unsup(format!("no field {name} in {}", l.ty))
    }

    fn into_sink(&mut self, st: &State, args: &[(Bits, Ty<'tcx>)]) -> Res<bool> {
        let f = self.deref(st, &args[1].0, args[1].1)?;
        let fb = self.read_pl(st, &f)?;
        let (bo, bl) = self.struct_field(&f.layout, "buf")?;
        let n = self.nbits(&bl);
        Ok(as_const(&fb[bo + self.pw..bo + n]) == Some(SINK_VT as u128))
    }

    fn wide(&mut self, st: &State, args: &[(Bits, Ty<'tcx>)]) -> Res<bool> {
        let v = self.deref(st, &args[0].0, args[0].1)?;
        let mut b = self.read_pl(st, &v)?;
        b.retain(|x| *x > T);
        b.sort();
        b.dedup();
        Ok(b.len() > 16)
    }

    fn int_fmt(&mut self, mut st: State, radix: &'static str, args: &[(Bits, Ty<'tcx>)], ret: TyAndLayout<'tcx>) -> Res<Option<(State, Bits)>> {
        let v = self.deref(&st, &args[0].0, args[0].1);
        let v = match v {
            Ok(v) => v,
            Err(e) => return Err(e),
        };
        // The call may come through a type-erased function pointer; the callee knows the type.
        let b = self.read_pl(&st, &v)?;
        let f = self.deref(&st, &args[1].0, args[1].1)?;
        let fb = self.read_pl(&st, &f)?;
        let fl = f.layout;
        let (oo, ol) = self.struct_field(&fl, "options")?;
        let get = |e: &mut Self, name: &str| -> Res<u128> {
            let (o, l) = e.struct_field(&ol, name)?;
            match as_const(&fb[oo + o..oo + o + e.nbits(&l)]) {
                Some(x) => Ok(x),
                None => Ok(UNKNOWN_OPTION),
            }
        };
        let flags = get(self, "flags")?;
        let width = get(self, "width")?;
        let prec = get(self, "precision")?;
        let signed = Self::is_signed(v.layout.ty);
        if flags == UNKNOWN_OPTION {
            // without width and precision only the flags for the sign and the prefix matter
            let (o, l) = self.struct_field(&ol, "flags")?;
            let fb = fb[oo + o..oo + o + self.nbits(&l)].to_vec();
            let (plus, minus, alt) = (21, 22, 23);
            if fb[27] == F && fb[28] == F && fb.iter().all(|b| *b != U) {
                let b = Rc::new(b);
                let mut all: Option<State> = None;
                let mut failed = F;
                for k in 0..8 {
                    let mut s = st.clone();
                    let mut flags = 0;
                    for (i, bit) in [plus, minus, alt].into_iter().enumerate() {
                        let on = k >> i & 1 == 1;
                        let g = if on { fb[bit] } else { self.dd.not(fb[bit]) };
                        s.pc = self.dd.and(s.pc, g);
                        flags |= u128::from(on) << bit;
                    }
                    if s.pc == F {
                        continue;
                    }
                    let f = self.append(&mut s, Tok::Int { bits: b.clone(), signed, radix, flags, width, prec })?;
                    failed = self.dd.or(failed, f);
                    all = Some(match all {
                        None => s,
                        Some(a) => self.join(a, s),
                    });
                }
                let r = self.fmt_result(failed, ret)?;
                return Ok(all.map(|s| (s, r)));
            }
        }
        let f = self.append(&mut st, Tok::Int { bits: Rc::new(b), signed, radix, flags, width, prec })?;
        let r = self.fmt_result(f, ret)?;
        Ok(Some((st, r)))
    }

    // ----- blocks ------------------------------------------------------------------

    fn run_body(&mut self, st: State, fr: &Frame<'tcx>) -> Res<Option<State>> {
        let mut work: BTreeMap<u32, (BasicBlock, State)> = BTreeMap::new();
        work.insert(fr.info.pos[0], (BasicBlock::from_u32(0), st));
        let mut done: Option<State> = None;
        while let Some((_, (bb, st))) = work.pop_first() {
            if st.pc == F {
                continue;
            }
            if self.bounded.is_some_and(|n| self.fuel == 0 || self.dd.nodes.len() > n) {
                return unsup("too long for inputs of full size");
            }
            if self.fuel == 0 {
                self.leaf("divergence", "analysis does not reach the end of a loop".into(), st.pc);
                return Ok(done);
            }
            self.fuel -= 1;
            self.stats.blocks += 1;
            if fr.info.local {
                let sp = fr.info.body.basic_blocks[bb].terminator().source_info.span;
                let e = self.visits.entry((fr.inst.def_id(), bb)).or_insert((F, sp));
                let old = e.0;
                let n = self.dd.or(old, st.pc);
                self.visits.get_mut(&(fr.inst.def_id(), bb)).unwrap().0 = n;
            }
            let mut next: Vec<(BasicBlock, State)> = vec![];
            if let Some(r) = self.run_block(st, fr, bb, &mut next)? {
                done = Some(match done {
                    None => r,
                    Some(d) => self.join(d, r),
                });
            }
            for (t, s) in next {
                if s.pc == F {
                    continue;
                }
                let p = fr.info.pos[t.as_usize()];
                match work.remove(&p) {
                    None => {
                        work.insert(p, (t, s));
                    }
                    Some((_, o)) => {
                        let j = self.join(o, s);
                        work.insert(p, (t, j));
                    }
                }
            }
        }
        Ok(done)
    }

    /// Handles an undefined outcome: records it and removes its inputs from the state.
    fn cut(&mut self, st: &mut State, e: Stop) -> Res<bool> {
        match e {
            Stop::Ub(g, m) => {
                let g = self.dd.and(g, st.pc);
                self.leaf("undefined", m, g);
                let ng = self.dd.not(g);
                let before = st.pc;
                st.pc = self.dd.and(st.pc, ng);
                if st.pc == before {
                    return unsup("undefined behaviour without a cause");
                }
                Ok(st.pc != F)
            }
            Stop::Unsup(m) => Err(Stop::Unsup(m)),
        }
    }

    fn run_block(&mut self, mut st: State, fr: &Frame<'tcx>, bb: BasicBlock, next: &mut Vec<(BasicBlock, State)>) -> Res<Option<State>> {
        let data = &fr.info.body.basic_blocks[bb];
        for s in &data.statements {
            self.set_span(s.source_info.span);
            self.stats.stmts += 1;
            loop {
                match self.statement(&mut st, fr, &s.kind) {
                    Ok(()) => break,
                    Err(e) => {
                        if !self.cut(&mut st, e)? {
                            return Ok(None);
                        }
                    }
                }
            }
        }
        let t = data.terminator();
        self.set_span(t.source_info.span);
        loop {
            match self.terminator(&mut st, fr, &t.kind, next) {
                Ok(r) => return Ok(if r { Some(st) } else { None }),
                Err(e) => {
                    if !self.cut(&mut st, e)? {
                        return Ok(None);
                    }
                    next.clear();
                }
            }
        }
    }

    fn statement(&mut self, st: &mut State, fr: &Frame<'tcx>, s: &StatementKind<'tcx>) -> Res<()> {
        match s {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                let dest = self.place(st, fr, *p)?;
                let v = self.rvalue(st, fr, rv, &dest.layout)?;
                if self.dd.overflow {
                    return unsup("diagram size limit reached");
                }
                if v.len() != self.nbits(&dest.layout) {
                    return unsup(format!("size of {rv:?}: {} for {}", v.len(), dest.layout.ty));
                }
                self.write_pl(st, &dest, &v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let dest = self.place(st, fr, **place)?;
                let mut b = self.read_pl(st, &dest)?;
                self.set_tag(&mut b, &dest.layout, *variant_index)?;
                self.write_pl(st, &dest, &b)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                st.stack[fr.base + l.as_usize()] = fr.info.templ[l.as_usize()].clone();
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => {
                    let (b, _) = self.operand(st, fr, o)?;
                    self.defined(&b, st.pc)?;
                    let n = self.dd.not(b[0]);
                    self.ub_if(n, st.pc, "assumption does not hold")
                }
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (s, sl) = self.operand(st, fr, &c.src)?;
                    let (d, _) = self.operand(st, fr, &c.dst)?;
                    let (n, _) = self.operand(st, fr, &c.count)?;
                    let Some(t) = sl.ty.builtin_deref(true) else { return unsup("copy") };
                    self.copy_mem(st, &s, &d, &n, t)
                }
            },
            StatementKind::FakeRead(..)
            | StatementKind::PlaceMention(..)
            | StatementKind::AscribeUserType(..)
            | StatementKind::Coverage(..)
            | StatementKind::ConstEvalCounter
            | StatementKind::BackwardIncompatibleDropHint { .. }
            | StatementKind::Nop => Ok(()),
        }
    }

    pub fn copy_mem(&mut self, st: &mut State, s: &[B], d: &[B], n: &[B], t: Ty<'tcx>) -> Res<()> {
        let sz = self.layout(t)?.size.bits() as usize;
        let lens = self.cases(n, st.pc)?;
        let one = lens.len() == 1;
        // every length reads the source as it was before the copy
        let mut writes = vec![];
        for (g, n) in lens {
            let total = sz * n as usize;
            if total == 0 {
                continue;
            }
            let sc = self.addr_cases(&s[..self.pw], g)?;
            let dc = self.addr_cases(&d[..self.pw], g)?;
            let here = State { pc: g, ..st.clone() };
            let b = self.read_at(&here, &sc, total)?;
            writes.push((dc, b));
        }
        for (dc, b) in writes {
            if one {
                self.write_at(st, &dc, &b)?;
                continue;
            }
            for (h, a) in dc {
                if let Err(m) = self.write_mem(st, a, &b, Some(h)) {
                    return Err(Stop::Ub(h, m));
                }
            }
        }
        Ok(())
    }

    fn terminator(&mut self, st: &mut State, fr: &Frame<'tcx>, t: &TerminatorKind<'tcx>, next: &mut Vec<(BasicBlock, State)>) -> Res<bool> {
        match t {
            TerminatorKind::Goto { target, .. } => {
                next.push((*target, st.clone()));
                Ok(false)
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                next.push((*real_target, st.clone()));
                Ok(false)
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let (b, _) = self.operand(st, fr, discr)?;
                self.defined(&b, st.pc)?;
                let mut rest = st.pc;
                for (v, t) in targets.iter() {
                    let e = self.dd.eq_const(&b, v);
                    let g = self.dd.and(rest, e);
                    if g != F {
                        let mut s = st.clone();
                        s.pc = g;
                        next.push((t, s));
                        let ne = self.dd.not(e);
                        rest = self.dd.and(rest, ne);
                    }
                }
                if rest != F {
                    let mut s = st.clone();
                    s.pc = rest;
                    next.push((targets.otherwise(), s));
                }
                Ok(false)
            }
            TerminatorKind::Return => Ok(true),
            TerminatorKind::Unreachable => {
                self.stats.obligations += 1;
                self.leaf("undefined", "reaches code marked unreachable".into(), st.pc);
                Ok(false)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                self.stats.obligations += 1;
                let (b, _) = self.operand(st, fr, cond)?;
                self.defined(&b, st.pc)?;
                let ok = if *expected { b[0] } else { self.dd.not(b[0]) };
                let nok = self.dd.not(ok);
                let bad = self.dd.and(st.pc, nok);
                if bad != F {
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "index out of bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
                        mir::AssertKind::OverflowNeg(_) => "arithmetic overflow in negation".to_string(),
                        mir::AssertKind::DivisionByZero(_) => "division by zero".to_string(),
                        mir::AssertKind::RemainderByZero(_) => "remainder by zero".to_string(),
                        _ => "failed assertion".to_string(),
                    };
                    self.leaf("panic", m, bad);
                }
                let mut s = st.clone();
                s.pc = self.dd.and(st.pc, ok);
                next.push((*target, s));
                Ok(false)
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(st, fr, *place)?;
                let ty = pl.layout.ty;
                if !ty.needs_drop(self.tcx, self.te) {
                    next.push((*target, st.clone()));
                    return Ok(false);
                }
                if matches!(ty.kind(), ty::Dynamic(..)) {
                    return unsup("drop of a trait object");
                }
                let i = Instance::resolve_drop_glue(self.tcx, ty);
                let b = self.ptr_bits(&pl);
                let pt = Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, ty);
                let unit = self.layout(self.tcx.types.unit)?;
                if let Some((s, _)) = self.call(st.clone(), i, vec![(b, pt)], false, unit)? {
                    next.push((*target, s));
                }
                Ok(false)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args.iter() {
                    let (b, l) = self.operand(st, fr, &a.node)?;
                    av.push((b, l.ty));
                }
                let dest = self.place(st, fr, *destination)?;
                let (fb, fl) = self.operand(st, fr, func)?;
                let sig = fl.ty.fn_sig(self.tcx);
                let rust_call = sig.abi() == ExternAbi::RustCall;
                let callees: Vec<(B, Instance<'tcx>)> = match *fl.ty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.no_bound_vars().unwrap();
                        match Instance::try_resolve(self.tcx, self.te, d, ga) {
                            Ok(Some(i)) => vec![(st.pc, i)],
                            _ => return unsup(format!("cannot resolve the call to {}", self.name(d))),
                        }
                    }
                    ty::FnPtr(..) => {
                        let mut v = vec![];
                        for (g, a) in self.addr_cases(&fb, st.pc)? {
                            match self.fn_at(a) {
                                Some(i) => v.push((g, i)),
                                None => return Err(Stop::Ub(g, "call through an invalid function pointer".into())),
                            }
                        }
                        v
                    }
                    _ => return unsup("call of a non-function"),
                };
                // A pointer call may have erased pointee types: use the callee's own signature.
                let mut acc = None;
                for (g, i) in callees {
                    let mut s = st.clone();
                    s.pc = self.dd.and(s.pc, g);
                    let mut a = av.clone();
                    if matches!(fl.ty.kind(), ty::FnPtr(..)) {
                        self.retype(i, &mut a);
                        // a non-capturing closure used as a function pointer has no self argument
                        let own = match i.def {
                            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => Some(i.args.type_at(0)),
                            InstanceKind::Item(d) if self.tcx.is_closure_like(d) => Some(i.ty(self.tcx, self.te)),
                            _ => None,
                        };
                        if let Some(t) = own {
                            a.insert(0, (vec![], t));
                        }
                    }
                    let r = self.call(s, i, a, rust_call, dest.layout)?;
                    acc = self.join_ret(acc, r);
                }
                if let (Some((mut s, b)), Some(t)) = (acc, target) {
                    self.write_pl(&mut s, &dest, &b)?;
                    next.push((*t, s));
                }
                Ok(false)
            }
            TerminatorKind::UnwindResume
            | TerminatorKind::UnwindTerminate(_)
            | TerminatorKind::TailCall { .. }
            | TerminatorKind::Yield { .. }
            | TerminatorKind::CoroutineDrop
            | TerminatorKind::InlineAsm { .. } => {
                if matches!(t, TerminatorKind::InlineAsm { .. }) {
                    self.effect("inline assembly".into());
                }
                unsup(format!("terminator {t:?}"))
            }
        }
    }

    fn retype(&mut self, i: Instance<'tcx>, a: &mut [(Bits, Ty<'tcx>)]) {
        if !matches!(i.def, InstanceKind::Item(_)) || self.tcx.is_closure_like(i.def_id()) {
            return;
        }
        let t = i.ty(self.tcx, self.te);
        if !matches!(t.kind(), ty::FnDef(..)) {
            return;
        }
        let sig = t.fn_sig(self.tcx);
        let sig = self.tcx.normalize_erasing_late_bound_regions(self.te, sig);
        for (x, t) in a.iter_mut().zip(sig.inputs()) {
            x.1 = *t;
        }
    }
}

/// Position of every block in a weak topological order: loop bodies are contiguous and
/// come before everything that follows the loop.
fn wto(body: &mir::Body<'_>) -> Vec<u32> {
    let n = body.basic_blocks.len();
    let succ: Vec<Vec<usize>> = body
        .basic_blocks
        .iter()
        .map(|b| {
            b.terminator()
                .successors()
                .filter(|t| !body.basic_blocks[*t].is_cleanup)
                .map(|t| t.as_usize())
                .collect()
        })
        .collect();
    let mut pos = vec![u32::MAX; n];
    let mut ctr = 0;
    let all: Vec<usize> = (0..n).filter(|&i| !body.basic_blocks[BasicBlock::from_usize(i)].is_cleanup).collect();
    let mut inside = vec![false; n];
    for &i in &all {
        inside[i] = true;
    }
    order(&succ, &inside, &[0], &mut pos, &mut ctr);
    // blocks not reached from the entry
    for &i in &all {
        if pos[i] == u32::MAX {
            pos[i] = ctr;
            ctr += 1;
        }
    }
    pos
}

fn order(succ: &[Vec<usize>], inside: &[bool], roots: &[usize], pos: &mut [u32], ctr: &mut u32) {
    let n = succ.len();
    // Tarjan, iterative
    let mut idx = vec![usize::MAX; n];
    let mut low = vec![0; n];
    let mut on = vec![false; n];
    let mut stack = vec![];
    let mut comps: Vec<Vec<usize>> = vec![];
    let mut k = 0;
    for &r in roots {
        if !inside[r] || idx[r] != usize::MAX {
            continue;
        }
        let mut call: Vec<(usize, usize)> = vec![(r, 0)];
        while let Some(&(v, i)) = call.last() {
            if i == 0 {
                idx[v] = k;
                low[v] = k;
                k += 1;
                stack.push(v);
                on[v] = true;
            }
            if let Some(&w) = succ[v].get(i) {
                call.last_mut().unwrap().1 += 1;
                if !inside[w] {
                    continue;
                }
                if idx[w] == usize::MAX {
                    call.push((w, 0));
                } else if on[w] {
                    low[v] = low[v].min(idx[w]);
                }
            } else {
                // `i == 0` must not be seen again for leaf nodes
                call.pop();
                if let Some(&(p, _)) = call.last() {
                    low[p] = low[p].min(low[v]);
                }
                if low[v] == idx[v] {
                    let mut c = vec![];
                    loop {
                        let w = stack.pop().unwrap();
                        on[w] = false;
                        c.push(w);
                        if w == v {
                            break;
                        }
                    }
                    comps.push(c);
                }
            }
        }
    }
    for c in comps.iter().rev() {
        // the component's first visited node is its header
        let h = *c.iter().min_by_key(|&&v| idx[v]).unwrap();
        pos[h] = *ctr;
        *ctr += 1;
        if c.len() > 1 {
            let mut ins = vec![false; n];
            for &v in c {
                if v != h {
                    ins[v] = true;
                }
            }
            order(succ, &ins, &succ[h].clone(), pos, ctr);
            let rest: Vec<usize> = c.iter().copied().filter(|&v| pos[v] == u32::MAX).collect();
            for v in rest {
                pos[v] = *ctr;
                *ctr += 1;
            }
        }
    }
}
