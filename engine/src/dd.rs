//! Canonical decision diagrams over the bits of an entry point's input.
//!
//! A diagram is identified by its node number, so equality of abstract bits is
//! equality of numbers. `F` and `T` are the constant bits, `U` is a bit that was
//! never initialised (only ever found in memory, never inside a diagram).

use rustc_data_structures::fx::FxHashMap;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;
pub const U: B = u32::MAX;

pub struct Dd {
    pub nodes: Vec<(u32, B, B)>,
    unique: FxHashMap<(u32, B, B), B>,
    cache: FxHashMap<(B, B, B), B>,
    pub limit: usize,
    pub overflow: bool,
    pub nvars: u32,
    pub var_names: Vec<String>,
}

impl Dd {
    pub fn new() -> Self {
        Dd {
            nodes: vec![(u32::MAX, F, F), (u32::MAX, T, T)],
            unique: FxHashMap::default(),
            cache: FxHashMap::default(),
            limit: 24_000_000,
            overflow: false,
            nvars: 0,
            var_names: vec![],
        }
    }

    /// Next variable in the order.
    pub fn fresh(&mut self, name: &str) -> B {
        let v = self.nvars;
        self.nvars += 1;
        self.var_names.push(name.to_string());
        self.mk(v, F, T)
    }

    fn mk(&mut self, v: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&n) = self.unique.get(&(v, lo, hi)) {
            return n;
        }
        if self.nodes.len() >= self.limit {
            self.overflow = true;
            return F;
        }
        let n = self.nodes.len() as B;
        self.nodes.push((v, lo, hi));
        self.unique.insert((v, lo, hi), n);
        n
    }

    #[inline]
    fn top(&self, f: B) -> u32 {
        self.nodes[f as usize].0
    }

    #[inline]
    fn cof(&self, f: B, v: u32) -> (B, B) {
        let (fv, lo, hi) = self.nodes[f as usize];
        if fv == v { (lo, hi) } else { (f, f) }
    }

    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        debug_assert!(f != U && g != U && h != U);
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let g = if g == f { T } else { g };
        let h = if h == f { F } else { h };
        if g == T && h == F {
            return f;
        }
        if g == h {
            return g;
        }
        // commutative normalisation
        let (f, g, h) = if h == F && g > 1 && g < f {
            (g, f, F)
        } else if g == T && h > 1 && h < f {
            (h, T, f)
        } else {
            (f, g, h)
        };
        // past the limit nothing is decided any more: unwind quickly
        if self.overflow {
            return F;
        }
        if let Some(&r) = self.cache.get(&(f, g, h)) {
            return r;
        }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        if self.cache.len() >= 2 * self.limit {
            self.cache.clear();
        }
        self.cache.insert((f, g, h), r);
        r
    }

    pub fn not(&mut self, f: B) -> B {
        self.ite(f, F, T)
    }
    pub fn and(&mut self, f: B, g: B) -> B {
        self.ite(f, g, F)
    }
    pub fn or(&mut self, f: B, g: B) -> B {
        self.ite(f, T, g)
    }
    pub fn xor(&mut self, f: B, g: B) -> B {
        if f == F {
            return g;
        }
        if g == F {
            return f;
        }
        let ng = self.not(g);
        self.ite(f, ng, g)
    }
    pub fn xnor(&mut self, f: B, g: B) -> B {
        let x = self.xor(f, g);
        self.not(x)
    }
}
