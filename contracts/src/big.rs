//! A small unsigned bignum for the text oracles.

use crate::spec::U256;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(pub Vec<u64>);

impl Big {
    pub fn from(v: u128) -> Big {
        let mut b = Big(vec![v as u64, (v >> 64) as u64]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bitlen(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 64 - t.leading_zeros() as usize,
        }
    }
    pub fn mul_small(&mut self, m: u64, add: u64) {
        let mut c = add as u128;
        for x in &mut self.0 {
            let t = *x as u128 * m as u128 + c;
            *x = t as u64;
            c = t >> 64;
        }
        if c != 0 {
            self.0.push(c as u64);
        }
        self.trim();
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        let mut b = Big(r);
        b.trim();
        b
    }
    pub fn pow(base: u64, e: u32) -> Big {
        let mut r = Big::from(1);
        let mut b = Big::from(base as u128);
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn shl(&self, k: usize) -> Big {
        if self.is_zero() {
            return self.clone();
        }
        let (j, s) = (k / 64, k % 64);
        let mut r = vec![0u64; self.0.len() + j + 1];
        for (i, &x) in self.0.iter().enumerate() {
            r[i + j] |= x << s;
            if s > 0 {
                r[i + j + 1] |= x >> (64 - s);
            }
        }
        let mut b = Big(r);
        b.trim();
        b
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    /// self -= o, self >= o
    pub fn sub_assign(&mut self, o: &Big) {
        let mut b = 0u64;
        for i in 0..self.0.len() {
            let y = *o.0.get(i).unwrap_or(&0);
            let (t, c1) = self.0[i].overflowing_sub(y);
            let (t, c2) = t.overflowing_sub(b);
            self.0[i] = t;
            b = (c1 | c2) as u64;
        }
        assert_eq!(b, 0);
        self.trim();
    }
    pub fn from_digits(d: &[u8]) -> Big {
        let mut r = Big(vec![]);
        for c in d.chunks(18) {
            let mut v = 0u64;
            for x in c {
                v = v * 10 + (x - b'0') as u64;
            }
            r.mul_small(10u64.pow(c.len() as u32), v);
        }
        r
    }
    fn bit(&self, i: usize) -> bool {
        self.0.get(i / 64).map_or(false, |x| x >> (i % 64) & 1 == 1)
    }
    /// The top 250 bits (as m * 2^e) and whether anything nonzero lies below.
    pub fn top(&self) -> (U256, i32, bool) {
        let n = self.bitlen();
        let k = n.saturating_sub(250);
        let mut m = U256::from(0);
        for i in (k..n).rev() {
            m = m.shl(1);
            if self.bit(i) {
                m.lo |= 1;
            }
        }
        let sticky = (0..k).any(|i| self.bit(i));
        (m, k as i32, sticky)
    }
    /// n / d as m * 2^e with a 250- or 251-bit m, plus sticky.
    pub fn ratio(n: &Big, d: &Big) -> (U256, i32, bool) {
        // scale so that 2^249 < n/d < 2^251
        let k = 250 - (n.bitlen() as i64 - d.bitlen() as i64);
        let (n, d) = if k >= 0 { (n.shl(k as usize), d.clone()) } else { (n.clone(), d.shl(-k as usize)) };
        // restoring division, 252 quotient bits
        let mut m = U256::from(0);
        let mut r = n;
        for i in (0..252).rev() {
            let t = d.shl(i);
            m = m.shl(1);
            if r.cmp(&t) != std::cmp::Ordering::Less {
                r.sub_assign(&t);
                m.lo |= 1;
            }
        }
        (m, -k as i32, !r.is_zero())
    }
}
