//! Arbitrary precision signed integers: just what the reference model needs.

use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    mag: Vec<u64>, // little endian, no leading zeros; zero is empty and not negative
}

fn trim(v: &mut Vec<u64>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}

fn cmp_mag(a: &[u64], b: &[u64]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn add_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut carry = 0u128;
    for i in 0..a.len() {
        let s = a[i] as u128 + *b.get(i).unwrap_or(&0) as u128 + carry;
        r.push(s as u64);
        carry = s >> 64;
    }
    if carry > 0 {
        r.push(carry as u64);
    }
    r
}

// a >= b
fn sub_mag(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = Vec::with_capacity(a.len());
    let mut borrow = false;
    for i in 0..a.len() {
        let (s, o1) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0));
        let (s, o2) = s.overflowing_sub(borrow as u64);
        borrow = o1 || o2;
        r.push(s);
    }
    trim(&mut r);
    r
}

impl Big {
    fn make(neg: bool, mut mag: Vec<u64>) -> Big {
        trim(&mut mag);
        Big { neg: neg && !mag.is_empty(), mag }
    }
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn one() -> Big {
        Big::from(1)
    }
    pub fn from(v: i128) -> Big {
        let u = v.unsigned_abs();
        Big::make(v < 0, vec![u as u64, (u >> 64) as u64])
    }
    pub fn signum(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_even(&self) -> bool {
        self.mag.is_empty() || self.mag[0] & 1 == 0
    }
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.mag.is_empty(), mag: self.mag.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::make(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::make(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::make(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        if self.mag.is_empty() || o.mag.is_empty() {
            return Big::zero();
        }
        let mut r = vec![0u64; self.mag.len() + o.mag.len()];
        for (i, &a) in self.mag.iter().enumerate() {
            let mut carry = 0u128;
            for (j, &b) in o.mag.iter().enumerate() {
                let t = a as u128 * b as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
            r[i + o.mag.len()] = carry as u64;
        }
        Big::make(self.neg != o.neg, r)
    }
    pub fn dbl(&self) -> Big {
        self.add(self)
    }
    pub fn half(&self) -> Big {
        let mut r = self.mag.clone();
        for i in 0..r.len() {
            let hi = *r.get(i + 1).unwrap_or(&0);
            r[i] = (r[i] >> 1) | (hi << 63);
        }
        Big::make(self.neg, r)
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 64 - t.leading_zeros() as usize,
        }
    }
    pub fn trailing_zeros(&self) -> usize {
        for (i, w) in self.mag.iter().enumerate() {
            if *w != 0 {
                return i * 64 + w.trailing_zeros() as usize;
            }
        }
        usize::MAX
    }
    pub fn shr(&self, n: usize) -> Big {
        let (w, b) = (n / 64, n % 64);
        if w >= self.mag.len() {
            return Big::zero();
        }
        let mut r: Vec<u64> = self.mag[w..].to_vec();
        if b > 0 {
            for i in 0..r.len() {
                let hi = *r.get(i + 1).unwrap_or(&0);
                r[i] = (r[i] >> b) | (hi << (64 - b));
            }
        }
        Big::make(self.neg, r)
    }
    pub fn to_i128(&self) -> Option<i128> {
        if self.bits() > 126 {
            return None;
        }
        let lo = *self.mag.first().unwrap_or(&0) as i128;
        let hi = *self.mag.get(1).unwrap_or(&0) as i128;
        let v = lo + (hi << 64);
        Some(if self.neg { -v } else { v })
    }
}

impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if let Some(v) = self.to_i128() {
            return write!(f, "{}", v);
        }
        if self.neg {
            write!(f, "-")?;
        }
        write!(f, "0x")?;
        for (i, w) in self.mag.iter().rev().enumerate() {
            if i == 0 {
                write!(f, "{:x}", w)?;
            } else {
                write!(f, "{:016x}", w)?;
            }
        }
        Ok(())
    }
}
