//! Reference integers: sign and magnitude in 32-bit limbs, written independently of the code under
//! test (which works in 64-bit limbs). Division is not implemented: quotients are checked through
//! q*d + r = n and |r| < |d|, which determines them.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Int {
    pub neg: bool,
    pub mag: Vec<u32>,
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
fn msub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        br = 0;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        }
        r.push(s as u32);
    }
    assert!(br == 0);
    trim(r)
}
fn mmul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}

impl Int {
    pub fn new(neg: bool, mag: Vec<u32>) -> Int {
        let mag = trim(mag);
        Int { neg: neg && !mag.is_empty(), mag }
    }
    pub fn zero() -> Int {
        Int { neg: false, mag: vec![] }
    }
    pub fn from_i128(v: i128) -> Int {
        let mut m = v.unsigned_abs();
        let mut mag = vec![];
        while m > 0 {
            mag.push(m as u32);
            m >>= 32;
        }
        Int { neg: v < 0, mag }
    }
    pub fn from_limbs(neg: bool, l: &[u64]) -> Int {
        Int::new(neg, l.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect())
    }
    pub fn limbs(&self) -> Vec<u64> {
        self.mag.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Int {
        Int::new(false, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, madd(&self.mag, &o.mag));
        }
        match mcmp(&self.mag, &o.mag) {
            Ordering::Less => Int::new(o.neg, msub(&o.mag, &self.mag)),
            _ => Int::new(self.neg, msub(&self.mag, &o.mag)),
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, mmul(&self.mag, &o.mag))
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => mcmp(&self.mag, &o.mag),
            (true, true) => mcmp(&o.mag, &self.mag),
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
        }
    }
    pub fn cmp_abs(&self, o: &Int) -> Ordering {
        mcmp(&self.mag, &o.mag)
    }
    pub fn pow(&self, n: u32) -> Int {
        let mut r = Int::from_i128(1);
        for i in (0..32 - n.leading_zeros()).rev() {
            r = r.mul(&r);
            if n >> i & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    /// 2^n
    pub fn pow2(n: u64) -> Int {
        let mut m = vec![0u32; (n / 32) as usize + 1];
        m[(n / 32) as usize] = 1 << (n % 32);
        Int::new(false, m)
    }
    pub fn bits(&self) -> u64 {
        match self.mag.last() {
            None => 0,
            Some(h) => (self.mag.len() as u64 - 1) * 32 + 32 - h.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.mag.get((i / 32) as usize).is_some_and(|w| w >> (i % 32) & 1 == 1)
    }
    pub fn shl(&self, n: u64) -> Int {
        let x = self.mul(&Int::pow2(n % 32));
        let mut m = vec![0; if x.is_zero() { 0 } else { (n / 32) as usize }];
        m.extend(x.mag);
        Int::new(self.neg, m)
    }
    /// floor(self / 2^n)
    pub fn shr_floor(&self, n: u64) -> Int {
        if self.neg {
            // floor(-a / b) = -ceil(a / b) = -((a + b - 1) div b)
            if n > self.bits() {
                return Int::from_i128(-1);
            }
            let t = self.abs().add(&Int::pow2(n)).sub(&Int::from_i128(1));
            return t.shr_trunc(n).neg();
        }
        self.shr_trunc(n)
    }
    fn shr_trunc(&self, n: u64) -> Int {
        let b = self.bits();
        let mut m = vec![0u32; self.mag.len()];
        let mut i = n;
        while i < b {
            if self.bit(i) {
                let j = i - n;
                m[(j / 32) as usize] |= 1 << (j % 32);
            }
            i += 1;
        }
        Int::new(self.neg, m)
    }
    /// The low `w` 32-bit words of the two's complement.
    fn twos(&self, w: usize) -> Vec<u32> {
        let mut v: Vec<u32> = (0..w).map(|i| *self.mag.get(i).unwrap_or(&0)).collect();
        if self.neg {
            let mut c = 1u64;
            for x in &mut v {
                let t = !*x as u64 + c;
                *x = t as u32;
                c = t >> 32;
            }
        }
        v
    }
    fn of_twos(v: Vec<u32>) -> Int {
        if v.last().is_some_and(|h| h >> 31 == 1) {
            // v - 2^(32 w)
            let w = v.len();
            return Int::new(false, v).sub(&Int::pow2(32 * w as u64));
        }
        Int::new(false, v)
    }
    pub fn bitop(&self, o: &Int, f: impl Fn(u32, u32) -> u32) -> Int {
        let w = self.mag.len().max(o.mag.len()) + 1;
        Int::of_twos(self.twos(w).into_iter().zip(o.twos(w)).map(|(a, b)| f(a, b)).collect())
    }
    pub fn from_decimal(s: &str) -> Int {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let mut m: Vec<u32> = vec![];
        for c in d.bytes() {
            let mut carry = (c - b'0') as u64;
            for x in &mut m {
                let t = *x as u64 * 10 + carry;
                *x = t as u32;
                carry = t >> 32;
            }
            if carry > 0 {
                m.push(carry as u32);
            }
        }
        Int::new(neg, m)
    }
    pub fn to_decimal(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut m = self.mag.clone();
        let mut d = vec![];
        while !m.is_empty() {
            let mut r = 0u64;
            for x in m.iter_mut().rev() {
                let t = r << 32 | *x as u64;
                *x = (t / 1_000_000_000) as u32;
                r = t % 1_000_000_000;
            }
            m = trim(m);
            for _ in 0..9 {
                d.push(b'0' + (r % 10) as u8);
                r /= 10;
            }
        }
        while d.last() == Some(&b'0') {
            d.pop();
        }
        if self.neg {
            d.push(b'-');
        }
        d.reverse();
        String::from_utf8(d).unwrap()
    }
}
impl std::fmt::Display for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let l = self.limbs();
        write!(f, "{}{:x?}", if self.neg { "-" } else { "" }, l)
    }
}

/// Pairs of equal length that differ in one bit of each of two limbs: sums, mixtures and samples of limbs may agree.
pub fn near_pairs(lens: impl Iterator<Item = usize>, signed: bool) -> Vec<(Int, Int)> {
    let mut v = vec![];
    for n in lens {
        for mixed in [false, true] {
            let mut base: Vec<u64> = (0..n as u64).map(|i| if mixed { (i + 3).wrapping_mul(0x9e37_79b9_7f4a_7c15) } else { 0 }).collect();
            base[n - 1] |= 1 << 62;
            for j in 1..n {
                for i in 0..j {
                    for a in [0, 1, 8, 32, 63] {
                        for b in [0, 1, 8, 32, 63] {
                            let (mut x, mut y) = (base.clone(), base.clone());
                            x[i] ^= 1 << a;
                            y[j] ^= 1 << b;
                            let neg = signed && (i + j + a + b) % 2 == 1;
                            v.push((Int::from_limbs(neg, &x), Int::from_limbs(neg, &y)));
                        }
                    }
                }
            }
        }
    }
    v
}
/// Values and counts for shifts by so many bits that a counter of limbs or bits of 16 (32) bits would wrap around.
pub fn far_shifts(top: u32, signed: bool) -> (Vec<Int>, Vec<Int>) {
    let mut x: Vec<Int> = [1, 5].map(Int::from_i128).to_vec();
    x.push(Int::from_limbs(false, &[u64::MAX, u64::MAX]));
    for k in [16u64, 22] {
        let y = Int::pow2((1 << k) + 70);
        x.push(y.add(&Int::from_i128(-1)));
        x.push(y.add(&Int::pow2(1 << 15)));
    }
    let mut c = vec![];
    for k in 14..=top as u64 {
        for d in [-64i128, -1, 0, 1, 64] {
            c.push(Int::pow2(k).add(&Int::from_i128(d)));
        }
    }
    if signed {
        x.extend(x.clone().iter().map(Int::neg));
        c.extend(c.clone().iter().map(Int::neg));
    }
    (x, c)
}

/// Every integer whose limbs come from `alpha` and has at most `n` of them, both signs.
pub fn ints(alpha: &[u64], n: usize, signed: bool) -> Vec<Int> {
    let mut v = vec![Int::zero()];
    for len in 1..=n {
        let c = (alpha.len() as u64).pow(len as u32);
        for i in 0..c {
            let l = crate::engine::word(alpha, len, i);
            if *l.last().unwrap() == 0 {
                continue;
            }
            v.push(Int::from_limbs(false, &l));
            if signed {
                v.push(Int::from_limbs(true, &l));
            }
        }
    }
    v
}

/// Integers of every length from the range of limbs, in eight patterns each; `signed` alternates the sign.
pub fn long_ints(lens: impl Iterator<Item = usize>, signed: bool) -> Vec<Int> {
    let mut v = vec![];
    for n in lens {
        for p in 0..8u64 {
            let l: Vec<u64> = (0..n)
                .map(|i| {
                    let last = i + 1 == n;
                    match p {
                        0 => u64::MAX,
                        1 if last => 1,
                        1 => 0,
                        2 if last => 1 << 63,
                        2 => (i == 0) as u64,
                        3 if (n - i) % 2 == 0 => 0,
                        3 => u64::MAX,
                        4 => (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1,
                        5 => (i as u64 * 7 + n as u64).wrapping_mul(0xd1b5_4a32_d192_ed03) | 1,
                        6 if last => u64::MAX - 1,
                        6 => u64::MAX - (i % 3 == 0) as u64,
                        _ if i * 2 < n => 0,
                        _ => 1 << (i % 64),
                    }
                })
                .collect();
            v.push(Int::from_limbs(signed && (p + n as u64) % 3 == 0, &l));
        }
    }
    v
}

/// Bases and exponents around every power of two up to 2^`top`, as the exponent and as the number of bits
/// of the result.
pub fn long_powers(top: u32, signed: bool) -> Vec<(Int, Int)> {
    let mut bases: Vec<Int> = [3i128, 7, 10, 10i128.pow(19), u64::MAX as i128, (1 << 64) + 1].into_iter().map(Int::from_i128).collect();
    bases.extend([1, 2, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128].map(Int::pow2));
    let mut v = vec![];
    for (i, b) in bases.into_iter().enumerate() {
        let bits = b.bits() - 1;
        let mut exps = std::collections::BTreeSet::new();
        for k in 7..=top {
            // the bases that are no powers of two cost more.
            if i < 6 && k + 2 > top && k > 15 {
                continue;
            }
            for d in 0..4 {
                exps.insert(((1u64 << k) / bits + d).saturating_sub(1));
                if (bits << k) <= 1 << top {
                    exps.insert((1 << k) + d - 1);
                }
            }
        }
        for e in exps {
            v.push((if signed && e % 3 != 0 { b.neg() } else { b.clone() }, Int::from_i128(e as i128)));
        }
    }
    v
}
/// A pattern around the border of 53 bits on top, zeros, and at most one bit among them: significands of
/// every length up to `limbs`, the bit at every limb.
pub fn lone_bits(limbs: u64) -> Vec<Int> {
    let mut v = vec![];
    for n in 1..=limbs {
        for top in [(1u64 << 53) | 1, (1 << 53) | 3, 1 << 53, (1 << 54) - 1] {
            let t = Int::from_i128(top as i128).shl(n * 64 - (n * 29) % 64);
            v.push(t.clone());
            for l in 0..n {
                for b in [0, 1 + (l * 7 + n) % 62, 63] {
                    if l * 64 + b + 2 < t.bits() - 54 {
                        v.push(t.add(&Int::pow2(l * 64 + b)));
                    }
                }
            }
        }
    }
    v
}
