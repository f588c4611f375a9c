//! Transfer functions of the arithmetic and bit operations on abstract bit vectors
//! (least significant bit first).

use crate::dd::*;

pub type Bits = Vec<B>;

pub fn cst(v: u128, n: usize) -> Bits {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
}

pub fn as_const(b: &[B]) -> Option<u128> {
    let mut r = 0u128;
    for (i, &x) in b.iter().enumerate() {
        match x {
            F => {}
            T if i < 128 => r |= 1 << i,
            _ => return None,
        }
    }
    Some(r)
}

impl Dd {
    /// a + b + carry, and the carries out of the top and into the top bit.
    pub fn add(&mut self, a: &[B], b: &[B], carry: B) -> (Bits, B, B) {
        let mut c = carry;
        let mut into_top = carry;
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            into_top = c;
            let x = self.xor(a[i], b[i]);
            let s = self.xor(x, c);
            // majority
            c = self.ite(x, c, a[i]);
            r.push(s);
        }
        (r, c, into_top)
    }
    pub fn inv(&mut self, a: &[B]) -> Bits {
        a.iter().map(|&x| self.not(x)).collect()
    }
    /// a - b with (borrow, signed overflow)
    pub fn sub(&mut self, a: &[B], b: &[B]) -> (Bits, B, B) {
        let nb = self.inv(b);
        let (r, c, t) = self.add(a, &nb, T);
        let so = self.xor(c, t);
        let bo = self.not(c);
        (r, bo, so)
    }
    pub fn neg(&mut self, a: &[B]) -> Bits {
        let z = vec![F; a.len()];
        self.sub(&z, a).0
    }
    pub fn mux(&mut self, c: B, a: &[B], b: &[B]) -> Bits {
        if c == T {
            return a.to_vec();
        }
        if c == F {
            return b.to_vec();
        }
        (0..a.len()).map(|i| self.mux1(c, a[i], b[i])).collect()
    }
    /// Join of two bits; an uninitialised bit yields to the other side.
    pub fn mux1(&mut self, c: B, a: B, b: B) -> B {
        if a == b {
            a
        } else if a == U {
            b
        } else if b == U {
            a
        } else {
            self.ite(c, a, b)
        }
    }
    pub fn extend(&mut self, a: &[B], n: usize, signed: bool) -> Bits {
        let mut r = a.to_vec();
        let fill = if signed { *a.last().unwrap_or(&F) } else { F };
        r.resize(n.max(a.len()), fill);
        r.truncate(n);
        r
    }
    /// Full product of two equally wide vectors, twice as wide.
    pub fn mul_full(&mut self, a: &[B], b: &[B], signed: bool) -> Bits {
        let n = a.len();
        let a2 = self.extend(a, 2 * n, signed);
        let b2 = self.extend(b, 2 * n, signed);
        self.mul_wrap(&a2, &b2)
    }
    pub fn mul_wrap(&mut self, a: &[B], b: &[B]) -> Bits {
        let n = a.len();
        // iterate over the operand with more constant bits
        let ka = a.iter().filter(|&&x| x > 1).count();
        let kb = b.iter().filter(|&&x| x > 1).count();
        let (a, b) = if ka < kb { (b, a) } else { (a, b) };
        let mut acc = vec![F; n];
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let mut row = vec![F; n];
            for j in 0..n - i {
                row[i + j] = self.and(a[j], b[i]);
            }
            acc = self.add(&acc, &row, F).0;
            if self.overflow {
                break;
            }
        }
        acc
    }
    pub fn ult(&mut self, a: &[B], b: &[B]) -> B {
        self.sub(a, b).1
    }
    pub fn slt(&mut self, a: &[B], b: &[B]) -> B {
        let n = a.len();
        if n == 0 {
            return F;
        }
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        a[n - 1] = self.not(a[n - 1]);
        b[n - 1] = self.not(b[n - 1]);
        self.ult(&a, &b)
    }
    pub fn eq(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        for i in (0..a.len()).rev() {
            let x = self.xnor(a[i], b[i]);
            r = self.and(r, x);
            if r == F {
                break;
            }
        }
        r
    }
    pub fn eq_const(&mut self, a: &[B], v: u128) -> B {
        let c = cst(v, a.len());
        self.eq(a, &c)
    }
    pub fn any(&mut self, a: &[B]) -> B {
        let mut r = F;
        for &x in a {
            r = self.or(r, x);
        }
        r
    }
    /// Shift with the amount reduced modulo the width (MIR semantics).
    pub fn shl(&mut self, a: &[B], amt: &[B]) -> Bits {
        self.barrel(a, amt, true, F)
    }
    pub fn shr(&mut self, a: &[B], amt: &[B], signed: bool) -> Bits {
        let fill = if signed { *a.last().unwrap() } else { F };
        self.barrel(a, amt, false, fill)
    }
    fn barrel(&mut self, a: &[B], amt: &[B], left: bool, fill: B) -> Bits {
        let n = a.len();
        let mut r = a.to_vec();
        let mut k = 0;
        while (1usize << k) < n {
            let s = 1usize << k;
            let c = amt.get(k).copied().unwrap_or(F);
            if c != F {
                let sh: Bits = (0..n)
                    .map(|i| {
                        if left {
                            if i >= s { r[i - s] } else { F }
                        } else if i + s < n {
                            r[i + s]
                        } else {
                            fill
                        }
                    })
                    .collect();
                r = self.mux(c, &sh, &r);
            }
            k += 1;
        }
        r
    }
    pub fn rotl(&mut self, a: &[B], amt: &[B]) -> Bits {
        let n = a.len();
        let mut r = a.to_vec();
        let mut k = 0;
        while (1usize << k) < n {
            let s = 1usize << k;
            let c = amt.get(k).copied().unwrap_or(F);
            if c != F {
                let sh: Bits = (0..n).map(|i| r[(i + n - s) % n]).collect();
                r = self.mux(c, &sh, &r);
            }
            k += 1;
        }
        r
    }
    /// Unsigned quotient and remainder (divisor known to be non-zero where it matters).
    pub fn udivrem(&mut self, a: &[B], b: &[B]) -> (Bits, Bits) {
        let n = a.len();
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if y != 0 {
                return (cst(x / y, n), cst(x % y, n));
            }
        }
        if let Some(y) = as_const(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as usize;
                let mut q: Bits = a[k..].to_vec();
                q.resize(n, F);
                let mut r: Bits = a[..k].to_vec();
                r.resize(n, F);
                return (q, r);
            }
        }
        let mut bx = b.to_vec();
        bx.push(F);
        let mut rem = vec![F; n + 1];
        let mut q = vec![F; n];
        for i in (0..n).rev() {
            rem.insert(0, a[i]);
            rem.truncate(n + 1);
            let (d, borrow, _) = self.sub(&rem, &bx);
            q[i] = self.not(borrow);
            rem = self.mux(borrow, &rem, &d);
            if self.overflow {
                break;
            }
        }
        rem.truncate(n);
        (q, rem)
    }
    pub fn divrem(&mut self, a: &[B], b: &[B], signed: bool) -> (Bits, Bits) {
        if !signed {
            return self.udivrem(a, b);
        }
        let (sa, sb) = (*a.last().unwrap(), *b.last().unwrap());
        let na = self.neg(a);
        let nb = self.neg(b);
        let ua = self.mux(sa, &na, a);
        let ub = self.mux(sb, &nb, b);
        let (q, r) = self.udivrem(&ua, &ub);
        let sq = self.xor(sa, sb);
        let nq = self.neg(&q);
        let nr = self.neg(&r);
        (self.mux(sq, &nq, &q), self.mux(sa, &nr, &r))
    }
    pub fn popcount(&mut self, a: &[B], n: usize) -> Bits {
        let mut acc = vec![F; n];
        for &x in a {
            let mut one = vec![F; n];
            one[0] = x;
            acc = self.add(&acc, &one, F).0;
        }
        acc
    }
    /// Number of zero bits below the lowest one (the width if there is none).
    pub fn ctz(&mut self, a: &[B], n: usize) -> Bits {
        let mut r = cst(a.len() as u128, n);
        for i in (0..a.len()).rev() {
            let c = cst(i as u128, n);
            r = self.mux(a[i], &c, &r);
        }
        r
    }
}
