//! A small exact reference for big integers (runs outside the simulation).
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ref {
    pub neg: bool,
    pub mag: Vec<u64>,
}
impl Ref {
    pub fn norm(mut self) -> Ref {
        while self.mag.last() == Some(&0) {
            self.mag.pop();
        }
        if self.mag.is_empty() {
            self.neg = false;
        }
        self
    }
    pub fn from_i(neg: bool, v: u128) -> Ref {
        Ref { neg, mag: vec![v as u64, (v >> 64) as u64] }.norm()
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn limbs(&self) -> usize {
        self.mag.len()
    }
    pub fn hex(&self) -> String {
        let mut s = String::from(if self.neg { "-" } else { "" });
        if self.mag.is_empty() {
            s.push('0');
        }
        for (i, d) in self.mag.iter().rev().enumerate() {
            s += &if i == 0 { format!("{d:x}") } else { format!("_{d:016x}") };
        }
        s
    }
    fn cmp_mag(&self, o: &Ref) -> core::cmp::Ordering {
        self.mag.len().cmp(&o.mag.len()).then_with(|| self.mag.iter().rev().cmp(o.mag.iter().rev()))
    }
    fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut out = vec![];
        let mut c = 0u128;
        for i in 0..a.len().max(b.len()) {
            c += *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128;
            out.push(c as u64);
            c >>= 64;
        }
        out.push(c as u64);
        out
    }
    fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut out = vec![];
        let mut bor = 0i128;
        for i in 0..a.len() {
            let mut d = a[i] as i128 - *b.get(i).unwrap_or(&0) as i128 - bor;
            bor = (d < 0) as i128;
            if d < 0 {
                d += 1 << 64;
            }
            out.push(d as u64);
        }
        out
    }
    /// None where the sum is not judged: the library's subtraction of a larger magnitude from a
    /// smaller one is a pure function outside what the simulation decides
    pub fn add(&self, o: &Ref) -> Option<Ref> {
        if self.is_zero() || o.is_zero() {
            return None;
        }
        if self.neg == o.neg {
            Some(Ref { neg: self.neg, mag: Self::add_mag(&self.mag, &o.mag) }.norm())
        } else if self.cmp_mag(o) != core::cmp::Ordering::Less {
            Some(Ref { neg: self.neg, mag: Self::sub_mag(&self.mag, &o.mag) }.norm())
        } else {
            None
        }
    }
    pub fn neg(&self) -> Ref {
        Ref { neg: !self.neg, mag: self.mag.clone() }.norm()
    }
    pub fn abs(&self) -> Ref {
        Ref { neg: false, mag: self.mag.clone() }
    }
    pub fn sub(&self, o: &Ref) -> Option<Ref> {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Ref) -> Ref {
        let mut out = vec![0u64; self.mag.len() + o.mag.len() + 1];
        for (i, a) in self.mag.iter().enumerate() {
            let mut c = 0u128;
            for (j, b) in o.mag.iter().enumerate() {
                c += out[i + j] as u128 + *a as u128 * *b as u128;
                out[i + j] = c as u64;
                c >>= 64;
            }
            out[i + o.mag.len()] = c as u64;
        }
        Ref { neg: self.neg != o.neg, mag: out }.norm()
    }
    pub fn shl(&self, n: usize) -> Ref {
        let mut out = vec![0u64; n / 64];
        let k = n % 64;
        let mut c = 0u64;
        for &d in &self.mag {
            out.push(if k == 0 { d } else { d << k | c });
            c = if k == 0 { 0 } else { d >> (64 - k) };
        }
        out.push(c);
        Ref { neg: self.neg, mag: out }.norm()
    }
    pub fn shr(&self, n: usize) -> Ref {
        let k = n % 64;
        let v: Vec<u64> = self.mag.iter().skip(n / 64).copied().collect();
        let out = (0..v.len())
            .map(|i| if k == 0 { v[i] } else { v[i] >> k | v.get(i + 1).map_or(0, |x| x << (64 - k)) })
            .collect();
        Ref { neg: self.neg, mag: out }.norm()
    }
    pub fn bit(&self, o: &Ref, f: impl Fn(u64, u64) -> u64) -> Ref {
        let n = self.mag.len().max(o.mag.len());
        let mag = (0..n).map(|i| f(*self.mag.get(i).unwrap_or(&0), *o.mag.get(i).unwrap_or(&0))).collect();
        Ref { neg: self.neg, mag }.norm()
    }
}
