//! Reference models: deliberately naive, written from the mathematics, sharing no code with the
//! crate under test (only the num-bigint integers).

use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub fn bi(n: i64) -> BigInt {
    BigInt::from(n)
}

pub fn big(s: &str) -> BigInt {
    s.parse().unwrap()
}

pub fn two_pow(k: u32) -> BigInt {
    let mut r = BigInt::one();
    for _ in 0..k {
        r = &r + &r;
    }
    r
}

/// non-negative residue, for m > 0
pub fn md(a: &BigInt, m: &BigInt) -> BigInt {
    let r = a % m;
    if r.is_negative() { r + m } else { r }
}

/// b^n by repeated multiplication (small n)
pub fn ipow(b: &BigInt, n: u32) -> BigInt {
    let mut r = BigInt::one();
    if b.is_one() || (b.is_zero() && n > 0) {
        return b.clone();
    }
    if *b == -BigInt::one() {
        return if n % 2 == 0 { r } else { b.clone() };
    }
    for _ in 0..n {
        r = &r * b;
    }
    r
}

/// b^n mod m, most significant bit first, n >= 0, m >= 1
pub fn mpow(b: &BigInt, n: &BigInt, m: &BigInt) -> BigInt {
    let digits = n.to_str_radix(2);
    let mut r = md(&BigInt::one(), m);
    for c in digits.chars() {
        r = md(&(&r * &r), m);
        if c == '1' {
            r = md(&(&r * b), m);
        }
    }
    r
}

pub fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let t = &a % &b;
        a = b;
        b = t;
    }
    a
}

/// inverse modulo a prime by the extended Euclidean algorithm (iterative)
pub fn minv(a: &BigInt, p: &BigInt) -> Option<BigInt> {
    let (mut r0, mut r1) = (p.clone(), md(a, p));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        let t2 = &t0 - &q * &t1;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if r0.is_one() { Some(md(&t0, p)) } else { None }
}

pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}

pub fn primes(lo: i64, hi: i64) -> Vec<i64> {
    (lo.max(2)..=hi).filter(|n| is_prime(*n as u64)).collect()
}

// ---------------------------------------------------------------------------------------------
// elliptic curves over small fields, by brute force

pub type Pt = Option<(i64, i64)>;

#[derive(Clone)]
pub struct SmallCurve {
    pub p: i64,
    pub a: i64,
    pub b: i64,
    pub pts: Vec<Pt>,
}

pub fn inv_small(a: i64, p: i64) -> i64 {
    let a = a.rem_euclid(p);
    (1..p).find(|x| a * x % p == 1).expect("inverse")
}

impl SmallCurve {
    pub fn new(a: i64, b: i64, p: i64) -> SmallCurve {
        let mut pts = Vec::new();
        for x in 0..p {
            for y in 0..p {
                if (y * y - x * x * x - a * x - b).rem_euclid(p) == 0 {
                    pts.push(Some((x, y)));
                }
            }
        }
        pts.push(None);
        SmallCurve { p, a: a.rem_euclid(p), b: b.rem_euclid(p), pts }
    }

    pub fn nonsingular(a: i64, b: i64, p: i64) -> bool {
        p > 2 && (4 * a * a % p * a + 27 * b * b).rem_euclid(p) != 0
    }

    pub fn neg(&self, q: Pt) -> Pt {
        q.map(|(x, y)| (x, (-y).rem_euclid(self.p)))
    }

    /// the third intersection of the line through P and Q, found by trying all points, mirrored
    pub fn add(&self, s: Pt, t: Pt) -> Pt {
        let p = self.p;
        let (x1, y1) = match s {
            None => return t,
            Some(v) => v,
        };
        let (x2, y2) = match t {
            None => return s,
            Some(v) => v,
        };
        if x1 == x2 && (y1 + y2) % p == 0 {
            return None;
        }
        let m = if x1 == x2 {
            (3 * x1 * x1 + self.a) % p * inv_small(2 * y1, p) % p
        } else {
            (y2 - y1).rem_euclid(p) * inv_small(x2 - x1, p) % p
        };
        let x3 = (m * m - x1 - x2).rem_euclid(p);
        let y3 = (m * (x1 - x3) - y1).rem_euclid(p);
        Some((x3, y3))
    }

    pub fn mul(&self, q: Pt, n: i64) -> Pt {
        let base = if n < 0 { self.neg(q) } else { q };
        let mut r = None;
        for _ in 0..n.abs() {
            r = self.add(r, base);
        }
        r
    }

    pub fn order(&self, q: Pt) -> i64 {
        let mut r = q;
        let mut n = 1;
        while r.is_some() {
            r = self.add(r, q);
            n += 1;
        }
        n
    }

    pub fn j(&self) -> i64 {
        j_small(self.a, self.b, self.p)
    }
}

pub fn j_small(a: i64, b: i64, p: i64) -> i64 {
    let (a, b) = (a.rem_euclid(p), b.rem_euclid(p));
    let n = 4 * a % p * a % p * a % p;
    let d = (n + 27 * b % p * b) % p;
    1728 % p * n % p * inv_small(d, p) % p
}

/// all nonsingular (a, b) over F_p
pub fn curves(p: i64) -> Vec<(i64, i64)> {
    let mut v = Vec::new();
    for a in 0..p {
        for b in 0..p {
            if SmallCurve::nonsingular(a, b, p) {
                v.push((a, b));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// elliptic curves over large fields, textbook affine formulas

pub type BPt = Option<(BigInt, BigInt)>;

#[derive(Clone)]
pub struct BigCurve {
    pub a: BigInt,
    pub b: BigInt,
    pub p: BigInt,
}

impl BigCurve {
    pub fn neg(&self, q: &BPt) -> BPt {
        q.as_ref().map(|(x, y)| (x.clone(), md(&-y, &self.p)))
    }

    pub fn add(&self, s: &BPt, t: &BPt) -> BPt {
        let (x1, y1) = match s {
            None => return t.clone(),
            Some(v) => v,
        };
        let (x2, y2) = match t {
            None => return s.clone(),
            Some(v) => v,
        };
        let p = &self.p;
        if md(&(x1 - x2), p).is_zero() && md(&(y1 + y2), p).is_zero() {
            return None;
        }
        let m = if md(&(x1 - x2), p).is_zero() {
            (bi(3) * x1 * x1 + &self.a) * minv(&(bi(2) * y1), p).unwrap()
        } else {
            (y2 - y1) * minv(&(x2 - x1), p).unwrap()
        };
        let x3 = md(&(&m * &m - x1 - x2), p);
        let y3 = md(&(&m * (x1 - &x3) - y1), p);
        Some((x3, y3))
    }

    /// most significant bit first
    pub fn mul(&self, q: &BPt, n: &BigInt) -> BPt {
        let base = if n.is_negative() { self.neg(q) } else { q.clone() };
        let mut r = None;
        for c in n.abs().to_str_radix(2).chars() {
            r = self.add(&r, &r);
            if c == '1' {
                r = self.add(&r, &base);
            }
        }
        r
    }
}

// ---------------------------------------------------------------------------------------------
// sparse Laurent polynomials in x, y, q and one coefficient variable per term

/// (x, y, q, variable)
pub type Key = (i32, i32, i32, Option<(i32, i32)>);

#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct RP(pub BTreeMap<Key, BigInt>);

impl std::fmt::Debug for RP {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        let mut first = true;
        for (k, c) in self.0.iter().rev() {
            if !first {
                write!(f, " + ")?;
            }
            first = false;
            write!(f, "({})", c)?;
            if k.0 != 0 {
                write!(f, "x^{}", k.0)?;
            }
            if k.1 != 0 {
                write!(f, "y^{}", k.1)?;
            }
            if k.2 != 0 {
                write!(f, "q^{}", k.2)?;
            }
            if let Some((i, j)) = k.3 {
                write!(f, "c_{}_{}", i, j)?;
            }
        }
        Ok(())
    }
}

impl RP {
    pub fn zero() -> RP {
        RP::default()
    }
    pub fn c(c: BigInt) -> RP {
        RP::mono((0, 0, 0, None), c)
    }
    pub fn one() -> RP {
        RP::c(BigInt::one())
    }
    pub fn mono(k: Key, c: BigInt) -> RP {
        let mut r = RP::zero();
        r.put(k, c);
        r
    }
    pub fn m(x: i32, y: i32, q: i32, c: i64) -> RP {
        RP::mono((x, y, q, None), bi(c))
    }
    /// add c at k, dropping it if it cancels
    pub fn put(&mut self, k: Key, c: BigInt) {
        let e = self.0.entry(k).or_insert_with(BigInt::zero);
        *e += c;
        if e.is_zero() {
            self.0.remove(&k);
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add(&self, o: &RP) -> RP {
        let mut r = self.clone();
        for (k, c) in &o.0 {
            r.put(*k, c.clone());
        }
        r
    }
    pub fn neg(&self) -> RP {
        RP(self.0.iter().map(|(k, c)| (*k, -c)).collect())
    }
    pub fn sub(&self, o: &RP) -> RP {
        self.add(&o.neg())
    }
    pub fn scale(&self, s: &BigInt) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            r.put(*k, c * s);
        }
        r
    }
    /// does some product of terms involve two variables?
    pub fn clash(&self, o: &RP) -> bool {
        self.0.keys().any(|k| k.3.is_some()) && o.0.keys().any(|k| k.3.is_some())
    }
    pub fn mul(&self, o: &RP) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            for (l, d) in &o.0 {
                let v = match (k.3, l.3) {
                    (None, v) => v,
                    (v, None) => v,
                    _ => panic!("two variables"),
                };
                r.put((k.0 + l.0, k.1 + l.1, k.2 + l.2, v), c * d);
            }
        }
        r
    }
    pub fn pow(&self, n: u32) -> RP {
        let mut r = RP::one();
        if n > 0 && self.0.is_empty() {
            return self.clone();
        }
        if n > 100 && self.0.len() == 1 {
            let (k, c) = self.0.iter().next().unwrap();
            if k.3.is_none() {
                let e = |x: i32| i32::try_from(x as i64 * n as i64).expect("exponent of a power");
                return RP::mono((e(k.0), e(k.1), e(k.2), None), ipow(c, n));
            }
        }
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn modp(&self, p: &BigInt) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            r.put(*k, md(c, p));
        }
        r
    }
    pub fn filter<F: Fn(&Key) -> bool>(&self, f: F) -> RP {
        RP(self.0.iter().filter(|(k, _)| f(k)).map(|(k, c)| (*k, c.clone())).collect())
    }
    /// map every key, adding up collisions
    pub fn map_keys<F: Fn(&Key) -> Key>(&self, f: F) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            r.put(f(k), c.clone());
        }
        r
    }
    /// substitute polynomials for x and y (None: leave)
    pub fn subst(&self, x: Option<&RP>, y: Option<&RP>) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            let mut kk = *k;
            let mut f = RP::one();
            if let Some(x) = x {
                kk.0 = 0;
                f = f.mul(&x.pow(k.0 as u32));
            }
            if let Some(y) = y {
                kk.1 = 0;
                f = f.mul(&y.pow(k.1 as u32));
            }
            r = r.add(&f.mul(&RP::mono(kk, c.clone())));
        }
        r
    }
    /// normal form modulo y^2 = x^3 + a x + b, one step at a time
    pub fn reduce_curve(&self, a: &BigInt, b: &BigInt) -> RP {
        let f = RP::m(3, 0, 0, 1).add(&RP::mono((1, 0, 0, None), a.clone())).add(&RP::c(b.clone()));
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            let mut t = RP::mono((k.0, if k.1 >= 2 { k.1 % 2 } else { k.1 }, k.2, k.3), c.clone());
            let mut y = k.1;
            while y >= 2 {
                t = t.mul(&f);
                y -= 2;
            }
            r = r.add(&t);
        }
        r
    }
    pub fn deriv(&self, wrt_y: bool) -> RP {
        let mut r = RP::zero();
        for (k, c) in &self.0 {
            let e = if wrt_y { k.1 } else { k.0 };
            if e == 0 {
                continue;
            }
            let kk = if wrt_y { (k.0, k.1 - 1, k.2, k.3) } else { (k.0 - 1, k.1, k.2, k.3) };
            r.put(kk, c * bi(e as i64));
        }
        r
    }
}

// ---------------------------------------------------------------------------------------------
// dense univariate polynomials over F_p, coefficients low to high, trimmed

pub fn trim(mut v: Vec<BigInt>) -> Vec<BigInt> {
    while v.last().map(|c| c.is_zero()).unwrap_or(false) {
        v.pop();
    }
    v
}

pub fn dense_mod(v: &[BigInt], p: &BigInt) -> Vec<BigInt> {
    trim(v.iter().map(|c| md(c, p)).collect())
}

pub fn dense_rem(f: &[BigInt], g: &[BigInt], p: &BigInt) -> Vec<BigInt> {
    let mut r = dense_mod(f, p);
    let g = dense_mod(g, p);
    let inv = minv(g.last().unwrap(), p).unwrap();
    while r.len() >= g.len() {
        let c = md(&(r.last().unwrap() * &inv), p);
        let off = r.len() - g.len();
        for i in 0..g.len() {
            r[off + i] = md(&(&r[off + i] - &c * &g[i]), p);
        }
        r = trim(r);
    }
    r
}

pub fn dense_monic(f: &[BigInt], p: &BigInt) -> Vec<BigInt> {
    let f = dense_mod(f, p);
    match f.last() {
        None => f,
        Some(l) => {
            let inv = minv(l, p).unwrap();
            f.iter().map(|c| md(&(c * &inv), p)).collect()
        }
    }
}

pub fn dense_gcd(f: &[BigInt], g: &[BigInt], p: &BigInt) -> Vec<BigInt> {
    let (mut a, mut b) = (dense_mod(f, p), dense_mod(g, p));
    while !b.is_empty() {
        let r = dense_rem(&a, &b, p);
        a = b;
        b = r;
    }
    dense_monic(&a, p)
}

pub fn dense_to_rp(v: &[BigInt]) -> RP {
    let mut r = RP::zero();
    for (i, c) in v.iter().enumerate() {
        r.put((i as i32, 0, 0, None), c.clone());
    }
    r
}

// ---------------------------------------------------------------------------------------------
// power series in q, dense, truncated to n+1 coefficients

pub fn ser_mul(a: &[BigInt], b: &[BigInt], n: usize) -> Vec<BigInt> {
    let mut r = vec![BigInt::zero(); n + 1];
    for i in 0..a.len().min(n + 1) {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..b.len().min(n + 1 - i) {
            r[i + j] += &a[i] * &b[j];
        }
    }
    r
}

/// 1/a, a[0] = 1
pub fn ser_inv(a: &[BigInt], n: usize) -> Vec<BigInt> {
    let mut r = vec![BigInt::zero(); n + 1];
    r[0] = BigInt::one();
    for k in 1..=n {
        let mut s = BigInt::zero();
        for i in 1..=k {
            if i < a.len() {
                s += &a[i] * &r[k - i];
            }
        }
        r[k] = -s;
    }
    r
}

/// prod (1 - q^n)^24 by Jacobi's identity prod (1-q^n)^3 = sum (-1)^k (2k+1) q^(k(k+1)/2)
pub fn ser_delta(n: usize) -> Vec<BigInt> {
    let mut e = vec![BigInt::zero(); n + 1];
    let mut k = 0usize;
    while k * (k + 1) / 2 <= n {
        e[k * (k + 1) / 2] += bi((if k % 2 == 0 { 1 } else { -1 }) * (2 * k as i64 + 1));
        k += 1;
    }
    let e2 = ser_mul(&e, &e, n);
    let e4 = ser_mul(&e2, &e2, n);
    ser_mul(&e4, &e4, n)
}

/// sigma_k(n), n >= 1, k >= 0, multiplicatively
pub fn sigma(n: u64, k: u32) -> BigInt {
    let mut r = BigInt::one();
    let mut m = n;
    let mut d = 2;
    while m > 1 {
        if d * d > m {
            d = m;
        }
        if m % d == 0 {
            let dk = ipow(&bi(d as i64), k);
            let mut s = BigInt::one();
            let mut t = BigInt::one();
            while m % d == 0 {
                m /= d;
                t = &t * &dk;
                s += &t;
            }
            r *= s;
        }
        d += 1;
    }
    r
}

pub fn ser_e4(n: usize) -> Vec<BigInt> {
    let mut r = vec![BigInt::zero(); n + 1];
    r[0] = BigInt::one();
    for k in 1..=n {
        r[k] = bi(240) * sigma(k as u64, 3);
    }
    r
}

/// q * j(q)
pub fn ser_j1(n: usize) -> Vec<BigInt> {
    let e = ser_e4(n);
    let e2 = ser_mul(&e, &e, n);
    let e3 = ser_mul(&e2, &e, n);
    ser_mul(&e3, &ser_inv(&ser_delta(n), n), n)
}

/// number of points of y^2 = x^3 + ax + b, with the one at infinity
pub fn count_points(a: i64, b: i64, p: i64) -> i64 {
    let mut squares = vec![0i64; p as usize];
    for y in 0..p {
        squares[(y * y % p) as usize] += 1;
    }
    1 + (0..p).map(|x| squares[((x * x % p * x + a * x + b) % p) as usize]).sum::<i64>()
}
