//! Meaning of the compiler intrinsics that remain as calls in MIR.

use rustc_middle::ty::layout::TyAndLayout;
use rustc_middle::ty::{self, Instance, Ty};

use crate::dd::*;
use crate::interp::*;
use crate::ops::*;

pub enum Out {
    Done(Option<(State, Bits)>),
    /// Use the intrinsic's body in `core`.
    Fallback(State),
}

impl<'tcx> Engine<'tcx> {
    pub fn intrinsic(
        &mut self,
        mut st: State,
        inst: Instance<'tcx>,
        args: &[(Bits, Ty<'tcx>)],
        ret: TyAndLayout<'tcx>,
    ) -> Res<Out> {
        let d = inst.def_id();
        let name = self.tcx.item_name(d);
        let name = name.as_str();
        let pw = self.pw;
        let rn = self.nbits(&ret);
        let ta = |i: usize| inst.args.types().nth(i);
        let signed = |t: Ty<'tcx>| Engine::is_signed(t);
        macro_rules! done {
            ($e:expr) => {{
                let v: Bits = $e;
                return Ok(Out::Done(Some((st, v))));
            }};
        }
        match name {
            "size_of" => {
                let l = self.layout(ta(0).unwrap())?;
                done!(cst(l.size.bytes() as u128, pw))
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let l = self.layout(ta(0).unwrap())?;
                done!(cst(l.align.abi.bytes() as u128, pw))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = ta(0).unwrap();
                let l = self.layout(t)?;
                let size = name == "size_of_val";
                if l.is_sized() {
                    let v = if size { l.size.bytes() } else { l.align.abi.bytes() };
                    done!(cst(v as u128, pw))
                }
                match t.kind() {
                    ty::Slice(_) | ty::Str => {
                        let (esz, al) = match t.kind() {
                            ty::Slice(e) => {
                                let e = self.layout(*e)?;
                                (e.size.bytes(), e.align.abi.bytes())
                            }
                            _ => (1, 1),
                        };
                        if !size {
                            done!(cst(al as u128, pw))
                        }
                        let n = args[0].0[pw..].to_vec();
                        let k = cst(esz as u128, pw);
                        done!(self.dd.mul_wrap(&n, &k))
                    }
                    _ => unsup(format!("{name} of {t}")),
                }
            }
            "needs_drop" => {
                let v = ta(0).unwrap().needs_drop(self.tcx, self.te);
                done!(self.bool_bits(if v { T } else { F }))
            }
            "variant_count" => {
                let v = match ta(0).unwrap().kind() {
                    ty::Adt(a, _) => a.variants().len(),
                    _ => 0,
                };
                done!(cst(v as u128, rn))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let sz = self.layout(ta(0).unwrap())?.size.bytes();
                let diff = self.dd.sub(&args[0].0[..pw].to_vec(), &args[1].0[..pw].to_vec()).0;
                if sz == 1 {
                    done!(diff)
                }
                let k = cst(sz as u128, pw);
                let q = self.dd.divrem(&diff, &k, true).0;
                done!(q)
            }
            "arith_offset" => {
                let sz = self.layout(ta(0).unwrap())?.size.bytes();
                let ix = args[1].0.clone();
                done!(self.offset_bits(&args[0].0.clone(), &ix, sz))
            }
            "copy" | "volatile_copy_memory" => {
                let t = ta(0).unwrap();
                let (s, dd, n) = (args[0].0.clone(), args[1].0.clone(), args[2].0.clone());
                if name == "copy" {
                    self.copy_mem(&mut st, &s, &dd, &n, t)?;
                } else {
                    self.copy_mem(&mut st, &dd, &s, &n, t)?;
                }
                done!(vec![])
            }
            "write_bytes" | "volatile_set_memory" => {
                let sz = self.layout(ta(0).unwrap())?.size.bytes();
                let Some(n) = as_const(&args[2].0) else { return unsup("write_bytes of input-dependent length") };
                let mut v = vec![];
                for _ in 0..(n as u64 * sz) {
                    v.extend_from_slice(&args[1].0);
                }
                let c = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                self.write_at(&mut st, &c, &v)?;
                done!(vec![])
            }
            "compare_bytes" | "raw_eq" => {
                let n = if name == "raw_eq" {
                    vec![(st.pc, self.layout(ta(0).unwrap())?.size.bytes() as u128)]
                } else {
                    self.cases(&args[2].0.clone(), st.pc)?
                };
                let ac = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                let bc = self.addr_cases(&args[1].0[..pw].to_vec(), st.pc)?;
                let mut acc: Option<Bits> = None;
                for (g, n) in n {
                    let s = State { pc: self.dd.and(st.pc, g), ..st.clone() };
                    let a = self.read_at(&s, &ac, n as usize * 8)?;
                    let b = self.read_at(&s, &bc, n as usize * 8)?;
                    let r = if name == "raw_eq" {
                        let e = self.dd.eq(&a, &b);
                        self.bool_bits(e)
                    } else {
                        let mut r = cst(0, rn);
                        let (m, p) = (cst(u128::MAX, rn), cst(1, rn));
                        for i in (0..n as usize).rev() {
                            let (x, y) = (a[i * 8..i * 8 + 8].to_vec(), b[i * 8..i * 8 + 8].to_vec());
                            let e = self.dd.eq(&x, &y);
                            let l = self.dd.ult(&x, &y);
                            let ne = self.dd.mux(l, &m, &p);
                            r = self.dd.mux(e, &r, &ne);
                        }
                        r
                    };
                    acc = Some(match acc {
                        None => r,
                        Some(o) => self.dd.mux(g, &r, &o),
                    });
                }
                done!(acc.unwrap())
            }
            "black_box" => done!(args[0].0.clone()),
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => {
                let c = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                done!(self.read_at(&st, &c, rn)?)
            }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => {
                let c = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                let v = args[1].0.clone();
                self.write_at(&mut st, &c, &v)?;
                done!(vec![])
            }
            "ctpop" | "cttz" | "ctlz" | "cttz_nonzero" | "ctlz_nonzero" => {
                let a = args[0].0.clone();
                if name.ends_with("nonzero") {
                    let z = self.dd.any(&a);
                    let z = self.dd.not(z);
                    let z = self.dd.and(z, st.pc);
                    if z != F {
                        return Err(Stop::Ub(z, format!("{name} of zero")));
                    }
                }
                let r = match name {
                    "ctpop" => self.dd.popcount(&a, rn),
                    "cttz" | "cttz_nonzero" => self.dd.ctz(&a, rn),
                    _ => {
                        let r: Bits = a.iter().rev().copied().collect();
                        self.dd.ctz(&r, rn)
                    }
                };
                done!(r)
            }
            "bswap" => {
                let a = &args[0].0;
                let r: Bits = a.chunks(8).rev().flatten().copied().collect();
                done!(r)
            }
            "bitreverse" => done!(args[0].0.iter().rev().copied().collect()),
            "saturating_add" | "saturating_sub" => {
                let s = signed(args[0].1);
                let (a, b) = (args[0].0.clone(), args[1].0.clone());
                let n = a.len();
                let (r, o) = if name == "saturating_add" {
                    let (r, c, t) = self.dd.add(&a, &b, F);
                    (r, if s { self.dd.xor(c, t) } else { c })
                } else {
                    let (r, bo, so) = self.dd.sub(&a, &b);
                    (r, if s { so } else { bo })
                };
                let sat = if s {
                    let (mn, mx) = (cst(1 << (n - 1), n), cst((1 << (n - 1)) - 1, n));
                    self.dd.mux(a[n - 1], &mn, &mx)
                } else if name == "saturating_add" {
                    cst(u128::MAX, n)
                } else {
                    cst(0, n)
                };
                done!(self.dd.mux(o, &sat, &r))
            }
            "rotate_left" | "rotate_right" => {
                let a = args[0].0.clone();
                let n = a.len();
                let k = n.trailing_zeros() as usize;
                let mut sh = args[1].0[..k.min(args[1].0.len())].to_vec();
                if name == "rotate_right" {
                    sh = self.dd.neg(&sh);
                }
                done!(self.dd.rotl(&a, &sh))
            }
            "exact_div" => {
                let s = signed(args[0].1);
                let q = self.dd.divrem(&args[0].0.clone(), &args[1].0.clone(), s).0;
                done!(q)
            }
            "typed_swap_nonoverlapping" => {
                let n = self.layout(ta(0).unwrap())?.size.bits() as usize;
                let a = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                let b = self.addr_cases(&args[1].0[..pw].to_vec(), st.pc)?;
                let x = self.read_at(&st, &a, n)?;
                let y = self.read_at(&st, &b, n)?;
                self.write_at(&mut st, &a, &y)?;
                self.write_at(&mut st, &b, &x)?;
                done!(vec![])
            }
            "const_eval_select" => {
                let ty::FnDef(d, ga) = *args[2].1.kind() else { return unsup("const_eval_select") };
                let ga = ga.no_bound_vars().unwrap();
                let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.te, d, ga) else {
                    return unsup("const_eval_select");
                };
                let l = self.layout(args[0].1)?;
                let cx = self.lcx();
                let mut a = vec![];
                for k in 0..l.fields.count() {
                    let f = l.field(&cx, k);
                    let o = l.fields.offset(k).bits() as usize;
                    a.push((args[0].0[o..o + self.nbits(&f)].to_vec(), f.ty));
                }
                Ok(Out::Done(self.call(st, i, a, false, ret)?))
            }
            "is_val_statically_known" => done!(self.bool_bits(F)),
            "likely" | "unlikely" => done!(args[0].0.clone()),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => done!(vec![]),
            "caller_location" => done!(cst(0x40, rn)),
            "vtable_size" | "vtable_align" => {
                let Some(v) = as_const(&args[0].0[..pw]) else { return unsup("input-dependent vtable") };
                let Some((t, _)) = self.vt_at(v as u64) else { return unsup("unknown vtable") };
                let l = self.layout(t)?;
                let v = if name == "vtable_size" { l.size.bytes() } else { l.align.abi.bytes() };
                done!(cst(v as u128, pw))
            }
            "ptr_mask" => {
                let (a, m) = (args[0].0.clone(), args[1].0.clone());
                let r: Bits = (0..pw).map(|i| self.dd.and(a[i], m[i])).collect();
                done!(r)
            }
            "type_id" | "type_id_eq" | "type_name" => unsup(format!("intrinsic {name}")),
            "abort" | "breakpoint" => {
                self.leaf_pub("panic", format!("{name} intrinsic"), st.pc);
                Ok(Out::Done(None))
            }
            "atomic_fence" | "atomic_singlethreadfence" => done!(vec![]),
            // the analysis is of one thread; shared memory is reported as an effect
            n if n.starts_with("atomic_") => {
                let c = self.addr_cases(&args[0].0[..pw].to_vec(), st.pc)?;
                if n == "atomic_store" {
                    let v = args[1].0.clone();
                    self.write_at(&mut st, &c, &v)?;
                    done!(vec![])
                }
                let t = ta(0).unwrap();
                let k = self.layout(t)?.size.bits() as usize;
                let old = self.read_at(&st, &c, k)?;
                if n == "atomic_load" {
                    done!(old)
                }
                let v = args[1].0.clone();
                let sg = signed(t);
                let new: Bits = match n {
                    "atomic_xchg" => v,
                    "atomic_xadd" => self.dd.add(&old, &v, F).0,
                    "atomic_xsub" => self.dd.sub(&old, &v).0,
                    "atomic_and" => (0..k).map(|i| self.dd.and(old[i], v[i])).collect(),
                    "atomic_nand" => {
                        let a: Bits = (0..k).map(|i| self.dd.and(old[i], v[i])).collect();
                        self.dd.inv(&a)
                    }
                    "atomic_or" => (0..k).map(|i| self.dd.or(old[i], v[i])).collect(),
                    "atomic_xor" => (0..k).map(|i| self.dd.xor(old[i], v[i])).collect(),
                    "atomic_max" | "atomic_min" | "atomic_umax" | "atomic_umin" => {
                        let (mut a, mut b) = (old.clone(), v.clone());
                        if sg {
                            a[k - 1] = self.dd.not(a[k - 1]);
                            b[k - 1] = self.dd.not(b[k - 1]);
                        }
                        let lt = self.dd.ult(&a, &b);
                        if n.ends_with("max") { self.dd.mux(lt, &v, &old) } else { self.dd.mux(lt, &old, &v) }
                    }
                    "atomic_cxchg" | "atomic_cxchgweak" => {
                        let e = self.dd.eq(&old, &v);
                        let w = args[2].0.clone();
                        let new = self.dd.mux(e, &w, &old);
                        self.write_at(&mut st, &c, &new)?;
                        let mut r = vec![U; rn];
                        let eb = self.bool_bits(e);
                        let (o0, o1) = (ret.fields.offset(0).bits() as usize, ret.fields.offset(1).bits() as usize);
                        r[o0..o0 + k].copy_from_slice(&old);
                        r[o1..o1 + eb.len()].copy_from_slice(&eb);
                        done!(r)
                    }
                    n => return unsup(format!("intrinsic {n}")),
                };
                self.write_at(&mut st, &c, &new)?;
                done!(old)
            }
            _ => Ok(Out::Fallback(st)),
        }
    }
}
