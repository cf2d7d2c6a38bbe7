//! C01-C06, C22: elliptic curves

use crate::engine::*;
use crate::refm::*;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::secp256k1::Secp256k1;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::{BTreeSet, HashMap};

pub fn ecp(x: &BigInt, y: &BigInt) -> ECPoint {
    ECPoint::new(x, y, &BigInt::one())
}

/// representatives of a small point
fn rep(q: Pt, p: i64, k: i64, l: i64) -> ECPoint {
    match q {
        None => {
            if k == 0 && l == 0 {
                ECPoint::infinity()
            } else {
                ECPoint::new(&bi(k), &bi(l), &bi(0))
            }
        }
        Some((x, y)) => ecp(&(bi(x) + bi(k) * bi(p)), &(bi(y) + bi(l) * bi(p))),
    }
}

pub const REPS: [(i64, i64); 7] = [(0, 0), (1, 0), (0, -1), (-1, 1), (3, -2), (1 << 62, -(1 << 31)), (-(1 << 62) - 12345, 1 << 61)];
/// multiples of p added to the coefficients
const COEF: [(i64, i64); 5] = [(0, 0), (-1, 1), (2, -1), (1 << 50, -(1 << 30)), (-(1 << 31), 1 << 49)];

fn show(q: &ECPoint) -> String {
    format!("[{},{},{}]", q.x, q.y, q.z)
}

/// the model point a returned point denotes
pub fn abs_small(q: &ECPoint, p: i64) -> Pt {
    if q.is_infinity() {
        None
    } else {
        let pp = bi(p);
        let f = |v: &BigInt| -> i64 { md(v, &pp).to_string().parse().unwrap() };
        Some((f(&q.x), f(&q.y)))
    }
}

pub fn abs_big(q: &ECPoint, p: &BigInt) -> BPt {
    if q.is_infinity() {
        None
    } else {
        Some((md(&q.x, p), md(&q.y, p)))
    }
}

pub fn big_point(q: &BPt) -> ECPoint {
    match q {
        None => ECPoint::infinity(),
        Some((x, y)) => ecp(x, y),
    }
}

struct Table {
    c: SmallCurve,
    idx: HashMap<Pt, usize>,
    add: Vec<Vec<usize>>,
}

fn table(a: i64, b: i64, p: i64) -> Table {
    let c = SmallCurve::new(a, b, p);
    let idx: HashMap<Pt, usize> = c.pts.iter().cloned().enumerate().map(|(i, q)| (q, i)).collect();
    let add = c.pts.iter().map(|s| c.pts.iter().map(|t| idx[&c.add(*s, *t)]).collect()).collect();
    Table { c, idx, add }
}

impl Table {
    fn inf(&self) -> usize {
        self.idx[&None]
    }
    /// multiples 0P, 1P, ... up to the order
    fn multiples(&self, i: usize) -> Vec<usize> {
        let mut v = vec![self.inf()];
        let mut r = i;
        while r != self.inf() {
            v.push(r);
            r = self.add[r][i];
        }
        v
    }
}

fn build(a: i64, b: i64, p: i64, raw: bool) -> EllipticCurve {
    if raw {
        EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p))
    } else {
        EllipticCurve::new(&bi(a), &bi(b), &bi(p))
    }
}

/// widths next to which products, squares and cubes of machine words overflow
const WIDTHS: [u32; 12] = [15, 16, 21, 31, 32, 42, 53, 63, 64, 127, 128, 256];

/// how many representatives `wide_reps` gives
const NWIDE: usize = 48;

/// the i-th representative of x next to plus and minus one of those powers of two, on either side
fn wide_rep(x: i64, p: i64, i: usize) -> BigInt {
    let k = WIDTHS[i / 4];
    let t = if i / 2 % 2 == 0 { two_pow(k) } else { -two_pow(k) };
    let low = &t - md(&(&t - bi(x)), &bi(p));
    if i % 2 == 0 { low + bi(p) } else { low }
}

pub fn wide_reps(x: i64, p: i64) -> Vec<BigInt> {
    (0..NWIDE).map(|i| wide_rep(x, p, i)).collect()
}

/// representations of (a, b) with one or both at a word boundary
pub fn wide_pairs(a: i64, b: i64, p: i64, dense: bool) -> Vec<(BigInt, BigInt)> {
    let (wa, wb) = (wide_reps(a, p), wide_reps(b, p));
    let n = wa.len();
    let mut v = Vec::new();
    for i in 0..n {
        v.push((bi(a), wb[i].clone()));
        v.push((wa[i].clone(), bi(b)));
        v.push((wa[i].clone(), wb[i].clone()));
        if dense {
            for d in [1, 2, 3, n / 2, n - 4] {
                v.push((wa[i].clone(), wb[(i + d) % n].clone()));
            }
        }
    }
    v
}

/// one unit per field and a: f for every nonsingular curve in every wide representation
pub fn wide_units<F>(v: &mut Vec<Unit>, ps: Vec<i64>, dense: bool, f: F)
where
    F: Fn(&mut Ctx, i64, i64, i64, &BigInt, &BigInt) + Send + Sync + Clone + 'static,
{
    for p in ps {
        for a in 0..p {
            let f = f.clone();
            v.push(unit(format!("F_{} a={}, coefficients at word boundaries", p, a), move |c| {
                for b in 0..p {
                    if SmallCurve::nonsingular(a, b, p) {
                        for (ra, rb) in wide_pairs(a, b, p, dense) {
                            f(c, a, b, p, &ra, &rb);
                        }
                    }
                }
            }));
        }
    }
}

/// a point with coordinates at the i-th word boundary
pub fn wide_point(q: Pt, p: i64, i: usize) -> ECPoint {
    match q {
        None => ECPoint::infinity(),
        Some((x, y)) => {
            let n = NWIDE;
            match i / n {
                0 => ecp(&wide_rep(x, p, i % n), &wide_rep(y, p, i % n)),
                1 => ecp(&wide_rep(x, p, i % n), &bi(y)),
                2 => ecp(&bi(x), &wide_rep(y, p, i % n)),
                _ => ecp(&wide_rep(x, p, i % n), &wide_rep(y, p, (i + i / n) % n)),
            }
        }
    }
}

// ------------------------------------------------------------------------------------- C01

pub static C01: Prop = Prop {
    id: "C01",
    space: "every nonsingular curve over every odd prime field up to the bound (three representations of the coefficients), every ordered pair of points in up to 25 combinations of coordinate representatives, every triple on the smaller fields for associativity over the real results, negation of every point; curves over some forty larger primes (next to the word sizes, their square and cube roots, up to 521 bits) with all pairs of small multiples. A state is a point of a curve, a transition one real addition or negation, a trace one addition chain compared with the brute-force group.",
    assumptions: &[],
    hang: (30, 60),
    units: c01_units,
};

fn c01_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(3, tier.pick(37, 61)) {
        for (a, b) in curves(p) {
            v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c01_small(c, p, a, b)));
        }
    }
    for bc in big_curves(tier) {
        v.push(unit(bc.0.clone(), move |c| c01_big(c, &bc)));
    }
    for p in crate::conv::big_primes() {
        if p > bi(1 << 10) && (p < two_pow(300) || tier == Tier::Thorough) {
            v.push(unit(format!("points that agree in some words over F_{}", p), move |c| c01_chosen(c, &p)));
        }
    }
    wide_units(&mut v, tier.pick(vec![3, 5, 7], vec![3, 5, 7, 11]), tier == Tier::Thorough, |c, a, b, p, ra, rb| {
        let t = table(a, b, p);
        let e = EllipticCurve::new_raw(ra, rb, &bi(p));
        for (i, s) in t.c.pts.iter().enumerate() {
            for (j, u) in t.c.pts.iter().enumerate() {
                let (p1, p2) = (rep(*s, p, 0, 0), rep(*u, p, 0, 0));
                let lab = || format!("{} + {} on a={} b={} p={}", show(&p1), show(&p2), ra, rb, p);
                let r = c.call(lab, || e.plus(&p1, &p2));
                c.eq(lab, &abs_small(&r, p), &t.c.pts[t.add[i][j]]);
                c.trace();
            }
        }
        c.state(&(ra, rb));
    });
    for p in tier.pick(vec![5i64, 7], vec![3, 5, 7, 11]) {
        for (a, b) in curves(p) {
            v.push(unit(format!("F_{} a={} b={}, points at word boundaries", p, a, b), move |c| c01_wide_points(c, p, a, b)));
        }
    }
    v
}

/// pairs of points that agree in some machine words, on the curve through both
fn c01_chosen(c: &mut Ctx, p: &BigInt) {
    let bits = p.bits() as u32;
    let mut ds: Vec<BigInt> = Vec::new();
    for k in [1u32, 7, 8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 62, 63, 64, 65, 95, 96, 127, 128, 160, 191, 192, 224, 255, 256, 320, 384, 448, 512] {
        if k < bits {
            ds.push(two_pow(k));
            ds.push(two_pow(k) * bi(3));
            ds.push(-two_pow(k));
        }
    }
    for (i, d) in ds.iter().enumerate() {
        let (x1, y1) = (bi(5 + i as i64), bi(7));
        for dy in [bi(0), bi(4), d.clone(), bi(-14), d - bi(14)] {
            let (x2, y2) = (md(&(&x1 + d), p), md(&(&y1 + &dy), p));
            let u = |x: &BigInt, y: &BigInt| y * y - x * x * x;
            let inv = match minv(&(&x1 - &x2), p) {
                Some(v) => v,
                None => continue,
            };
            let a = md(&((u(&x1, &y1) - u(&x2, &y2)) * inv), p);
            let b = md(&(u(&x1, &y1) - &a * &x1), p);
            if md(&(bi(4) * &a * &a * &a + bi(27) * &b * &b), p).is_zero() {
                continue;
            }
            let rc = BigCurve { a, b, p: p.clone() };
            let e = EllipticCurve::new_raw(&rc.a, &rc.b, p);
            let (g, h) = (Some((x1.clone(), y1.clone())), Some((x2, y2)));
            let pts = [g.clone(), h.clone(), rc.neg(&g), rc.neg(&h)];
            c.state(&(&rc.a, &rc.b));
            for s in &pts {
                for u in &pts {
                    let lab = || format!("{} + {} on a={} b={} p={}", show(&big_point(s)), show(&big_point(u)), rc.a, rc.b, p);
                    let r = c.call(lab, || e.plus(&big_point(s), &big_point(u)));
                    c.eq(lab, &abs_big(&r, p), &rc.add(s, u));
                    c.trace();
                }
            }
        }
    }
    // ordinates that end in zeros
    for d in &ds {
        let y = md(d, p);
        let x = bi(2);
        for a in [bi(0), bi(-3), md(&(d + bi(1)), p)] {
            let b = md(&(&y * &y - &x * &x * &x - &a * &x), p);
            if md(&(bi(4) * &a * &a * &a + bi(27) * &b * &b), p).is_zero() {
                continue;
            }
            let rc = BigCurve { a, b, p: p.clone() };
            let e = EllipticCurve::new_raw(&rc.a, &rc.b, p);
            let g: BPt = Some((x.clone(), y.clone()));
            for (s, u) in [(g.clone(), g.clone()), (g.clone(), rc.neg(&g)), (rc.neg(&g), rc.neg(&g)), (rc.add(&g, &g), g.clone())] {
                let lab = || format!("{} + {} on a={} b={} p={}", show(&big_point(&s)), show(&big_point(&u)), rc.a, rc.b, p);
                let r = c.call(lab, || e.plus(&big_point(&s), &big_point(&u)));
                c.eq(lab, &abs_big(&r, p), &rc.add(&s, &u));
                c.trace();
            }
        }
    }
    c.sample(|| format!("pairs of points over F_{} that differ by powers of two", p));
}

fn c01_wide_points(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let t = table(a, b, p);
    let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
    let n = NWIDE;
    for (i, s) in t.c.pts.iter().enumerate() {
        for w in 0..c.tier.pick(4, 7) * n {
            let p1 = wide_point(*s, p, w);
            let on = c.call(|| format!("is {} on a={} b={} p={}", show(&p1), a, b, p), || e.is_on_curve(&p1));
            c.check(on, || format!("{} on a={} b={} p={} is reported off the curve", show(&p1), a, b, p));
            let neg = c.call(|| format!("-{} on a={} b={} p={}", show(&p1), a, b, p), || e.negate(&p1));
            c.eq(|| format!("-{} on a={} b={} p={}", show(&p1), a, b, p), &abs_small(&neg, p), &t.c.neg(*s));
            c.state(&(i, w));
            for (j, u) in t.c.pts.iter().enumerate() {
                for p2 in [rep(*u, p, 0, 0), wide_point(*u, p, w), wide_point(*u, p, (w * 5 + j) % (4 * n))] {
                    let want = t.c.pts[t.add[i][j]];
                    let lab = || format!("{} + {} on a={} b={} p={}", show(&p1), show(&p2), a, b, p);
                    let r = c.call(lab, || e.plus(&p1, &p2));
                    c.eq(lab, &abs_small(&r, p), &want);
                    let r = c.call(lab, || e.plus(&p2, &p1));
                    c.eq(lab, &abs_small(&r, p), &want);
                    c.traces(2);
                }
            }
        }
    }
}

fn c01_small(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let t = table(a, b, p);
    let coefreps: &[(i64, i64)] = if p <= 11 { &COEF } else if p <= 19 { &COEF[..2] } else { &COEF[..1] };
    for (ci, (ka, kb)) in coefreps.iter().enumerate() {
        let (ra, rb) = (a + ka * p, b + kb * p);
        let e = c.call(|| format!("curve a={} b={} p={}", ra, rb, p), || build(ra, rb, p, ci != 0));
        let reps: &[(i64, i64)] = if p <= 7 { &REPS } else if p <= 13 && ci == 0 { &REPS[..3] } else { &REPS[..1] };
        for (i, s) in t.c.pts.iter().enumerate() {
            c.state(&(ci, i));
            let ns = c.call(|| format!("-{:?}", s), || e.negate(&rep(*s, p, 0, 0)));
            c.eq(|| format!("negation of {:?} on a={} b={} p={}", s, ra, rb, p), &abs_small(&ns, p), &t.c.neg(*s));
            for (j, u) in t.c.pts.iter().enumerate() {
                let want = t.c.pts[t.add[i][j]];
                for r1 in reps {
                    for r2 in reps {
                        let p1 = rep(*s, p, r1.0, r1.1);
                        let p2 = rep(*u, p, r2.0, r2.1);
                        let lab = || format!("{} + {} on a={} b={} p={}", show(&p1), show(&p2), ra, rb, p);
                        let r = c.call(lab, || e.plus(&p1, &p2));
                        c.outcome(&(p, a, b, abs_small(&r, p)));
                        c.eq(lab, &abs_small(&r, p), &want);
                        let on = c.call(lab, || e.is_on_curve(&r));
                        c.check(on, || format!("{} is reported off the curve", lab()));
                        c.trace();
                    }
                }
            }
            for r1 in reps {
                let q = rep(*s, p, r1.0, r1.1);
                let lab = || format!("{} and its negative on a={} b={} p={}", show(&q), ra, rb, p);
                let n = c.call(lab, || e.negate(&q));
                c.eq(lab, &abs_small(&n, p), &t.c.neg(*s));
                let z = c.call(lab, || e.plus(&q, &n));
                c.check(z.is_infinity(), || format!("{}: P + (-P) = {}", lab(), show(&z)));
                let z = c.call(lab, || e.plus(&n, &q));
                c.check(z.is_infinity(), || format!("{}: -P + P = {}", lab(), show(&z)));
                let nn = c.call(lab, || e.negate(&n));
                c.eq(lab, &abs_small(&nn, p), s);
                let cq = c.call(lab, || e.canonicalize(&q));
                c.eq(lab, &abs_small(&cq, p), s);
                c.trace();
            }
        }
        if p <= 11 && ci == 0 {
            // chains over real results: (P+Q)+R and P+(Q+R)
            let real: Vec<ECPoint> = t.c.pts.iter().map(|q| rep(*q, p, 0, 0)).collect();
            for i in 0..real.len() {
                for j in 0..real.len() {
                    for k in 0..real.len() {
                        let lab = || format!("{:?},{:?},{:?} on a={} b={} p={}", t.c.pts[i], t.c.pts[j], t.c.pts[k], a, b, p);
                        let l = c.call(lab, || e.plus(&e.plus(&real[i], &real[j]), &real[k]));
                        let r = c.call(lab, || e.plus(&real[i], &e.plus(&real[j], &real[k])));
                        let want = t.c.pts[t.add[t.add[i][j]][k]];
                        c.eq(|| format!("(P+Q)+R {}", lab()), &abs_small(&l, p), &want);
                        c.eq(|| format!("P+(Q+R) {}", lab()), &abs_small(&r, p), &want);
                        c.traces(2);
                    }
                }
            }
        }
    }
    c.sample(|| format!("all pairs of the {} points of y^2=x^3+{}x+{} over F_{}", t.c.pts.len(), a, b, p));
}

pub type BigCase = (String, BigCurve, (BigInt, BigInt), bool);

/// curves over large primes through a chosen point (b is computed from it)
pub fn big_curves(tier: Tier) -> Vec<BigCase> {
    let one = BigInt::one();
    // primes next to powers of two, and to the square and cube roots of the word sizes
    let mut ps: Vec<(String, BigInt)> = Vec::new();
    for (k, below, above) in [
        (7u32, 0i64, 3i64),
        (8, 5, 1),
        (15, 19, 3),
        (16, 15, 1),
        (21, 9, 17),
        (24, 3, 43),
        (31, 1, 11),
        (32, 5, 15),
        (42, 11, 15),
        (43, 57, 29),
        (53, 111, 5),
        (61, 1, 0),
        (63, 25, 29),
        (64, 59, 13),
        (89, 1, 0),
        (127, 1, 29),
        (128, 159, 51),
        (255, 19, 95),
        (256, 189, 297),
        (521, 1, 0),
    ] {
        if below != 0 && (k < 300 || tier == Tier::Thorough) {
            ps.push((format!("2^{}-{}", k, below), two_pow(k) - bi(below)));
        }
        if above != 0 {
            ps.push((format!("2^{}+{}", k, above), two_pow(k) + bi(above)));
        }
    }
    for p in [1289i64, 1291, 1621, 1627, 46337, 46349, 2642239, 2642257, 3037000493, 3037000507] {
        ps.push((p.to_string(), bi(p)));
    }
    ps.push(("p256".to_string(), two_pow(256) - two_pow(224) + two_pow(192) + two_pow(96) - &one));
    let mut v = Vec::new();
    for (name, p) in ps {
        let h: BigInt = &p / bi(2);
        let cases: Vec<(&str, BigInt, BigInt, BigInt)> = vec![
            ("a=0", bi(0), bi(2), bi(1)),
            ("a=-3", bi(-3), bi(5), bi(7)),
            ("a=1,x=0", bi(1), bi(0), bi(1)),
            ("a=p/2", h.clone(), &p - bi(2), &p - bi(3)),
            ("a=2,y=0", bi(2), bi(1), bi(0)),
            ("b=0", bi(-1), bi(1), bi(0)),
        ];
        for (cn, a, x, y) in cases {
            let b = &y * &y - &x * &x * &x - &a * &x;
            let disc = md(&(bi(4) * &a * &a * &a + bi(27) * &b * &b), &p);
            if disc.is_zero() {
                continue;
            }
            let two = y.is_zero();
            v.push((format!("F_({}) {} x={} y={}", name, cn, x, y), BigCurve { a, b, p: p.clone() }, (x, y), two));
        }
    }
    v
}

/// curves whose equation misses the chosen point by a power of two (or little else)
pub fn near_misses(bc: &BigCase) -> Vec<(BigInt, BigInt)> {
    let (_, rc, (x, _), _) = bc;
    let mut v = Vec::new();
    let bits = rc.p.bits() as u32;
    let mut ds: Vec<BigInt> = vec![bi(1), bi(-1), &rc.p / bi(2), &rc.p / bi(3), md(&two_pow(bits + 60), &rc.p)];
    for k in (2..bits).filter(|k| k % 8 == 0 || k % 32 == 31 || k % 32 == 1) {
        ds.push(two_pow(k));
        ds.push(-two_pow(k));
        ds.push(two_pow(k) * bi(5));
    }
    for d in ds {
        if !md(&d, &rc.p).is_zero() {
            v.push((rc.a.clone(), &rc.b + &d));
            if !md(&(&d * x), &rc.p).is_zero() {
                v.push((&rc.a + &d, rc.b.clone()));
            }
        }
    }
    v
}

fn c01_big(c: &mut Ctx, bc: &BigCase) {
    let (name, rc, base, _) = bc;
    let e = c.call(|| name.clone(), || EllipticCurve::new_raw(&rc.a, &rc.b, &rc.p));
    let k = if rc.p < two_pow(70) { 10 } else { 5 };
    let g: BPt = Some(base.clone());
    let pts: Vec<BPt> = (-k..=k).map(|i| rc.mul(&g, &bi(i))).collect();
    let shift = [bi(0), rc.p.clone(), -(&rc.p * bi(2)), &rc.p * two_pow(64), -(&rc.p * two_pow(130))];
    for (i, s) in pts.iter().enumerate() {
        c.state(s);
        for (j, u) in pts.iter().enumerate() {
            let want = rc.add(s, u);
            let sh = &shift[(i + 2 * j) % 5];
            let mut p1 = big_point(s);
            let mut p2 = big_point(u);
            if !p1.is_infinity() {
                p1.x += sh;
            }
            if !p2.is_infinity() {
                p2.y -= sh;
            }
            let lab = || format!("{} + {} on {} (b={})", show(&p1), show(&p2), name, rc.b);
            let r = c.call(lab, || e.plus(&p1, &p2));
            c.eq(lab, &abs_big(&r, &rc.p), &want);
            let on = c.call(lab, || e.is_on_curve(&r));
            c.check(on, || format!("{} is reported off the curve", lab()));
            c.outcome(&abs_big(&r, &rc.p));
            c.trace();
        }
        let n = c.call(|| format!("-{} on {}", show(&big_point(s)), name), || e.negate(&big_point(s)));
        c.eq(|| format!("-{:?} on {}", s, name), &abs_big(&n, &rc.p), &rc.neg(s));
        c.trace();
    }
    c.sample(|| format!("all pairs of the multiples {}..{} of the point on {}", -k, k, name));
}

// ------------------------------------------------------------------------------------- C02

pub static C02: Prop = Prop {
    id: "C02",
    space: "every nonsingular curve over every odd prime field up to the bound, every point (and representatives), every scalar from below -2N-2 to above 2N+2 (N the group order), scalars +-(2^k+d) up to 2^256 on the smaller fields, chained multiplications m(nP), and structured scalars on curves over large primes. A state is a (point, scalar) pair, a trace one scalar multiplication compared with repeated addition in the brute-force group.",
    assumptions: &[],
    hang: (30, 60),
    units: c02_units,
};

fn c02_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(3, tier.pick(19, 37)) {
        for (a, b) in curves(p) {
            v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c02_small(c, p, a, b)));
        }
    }
    for bc in big_curves(tier) {
        if bc.1.p > two_pow(300) {
            continue;
        }
        v.push(unit(bc.0.clone(), move |c| c02_big(c, &bc)));
    }
    wide_units(&mut v, tier.pick(vec![5, 7], vec![3, 5, 7, 11]), false, |c, a, b, p, ra, rb| {
        let t = table(a, b, p);
        let e = EllipticCurve::new_raw(ra, rb, &bi(p));
        for (i, q) in t.c.pts.iter().enumerate() {
            let mult = t.multiples(i);
            let w = md(&(ra + rb * bi(3)), &bi(192)).to_string().parse::<usize>().unwrap();
            for point in [rep(*q, p, 0, 0), wide_point(*q, p, w + i)] {
                for s in [-7i64, -2, -1, 0, 1, 2, 3, 4, 5, 6, 11, 27, 1000003] {
                    let lab = || format!("{} * {} on a={} b={} p={}", s, show(&point), ra, rb, p);
                    let got = c.call(lab, || e.multiply_scalar(&point, &bi(s)));
                    c.eq(lab, &abs_small(&got, p), &t.c.pts[mult[s.rem_euclid(mult.len() as i64) as usize]]);
                    c.trace();
                }
            }
        }
        c.state(&(ra, rb));
    });
    v
}

pub fn structured_scalars(maxbits: u32) -> Vec<BigInt> {
    let mut v = Vec::new();
    for k in [8u32, 16, 31, 32, 33, 53, 62, 63, 64, 65, 127, 128, 129, 192, 255, 256] {
        if k <= maxbits {
            for d in -2..=2 {
                v.push(two_pow(k) + bi(d));
                v.push(-(two_pow(k) + bi(d)));
            }
        }
    }
    // alternating bits
    let mut x = BigInt::one();
    while x < two_pow(maxbits) {
        x = x * bi(4) + bi(1);
    }
    v.push(x.clone());
    v.push(-(x * bi(2)));
    v
}

/// Scalars beyond every fixed width an implementation might size a buffer for.
pub fn long_scalars(tier: Tier) -> Vec<BigInt> {
    let mut v = Vec::new();
    let ks: &[u32] = tier.pick(&[320, 383, 384, 385, 511, 512, 513, 521, 640, 768, 1024, 1025, 2048], &[260, 300, 319, 320, 321, 383, 384, 385, 448, 511, 512, 513, 521, 576, 600, 639, 640, 641, 767, 768, 769, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 4096, 8192, 16385]);
    for k in ks {
        for d in [-1, 0, 1] {
            v.push(two_pow(*k) + bi(d));
            v.push(-(two_pow(*k) + bi(d)));
        }
        // 1010.. and 1101101.. of that length
        v.push(two_pow(*k) / bi(3));
        v.push(-(two_pow(*k) * bi(6) / bi(7)));
    }
    v
}

fn c02_small(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let t = table(a, b, p);
    let n = t.c.pts.len() as i64;
    let (ka, kb) = COEF[((a + 2 * b + p) % 5) as usize];
    let e = c.call(|| format!("curve a={} b={} p={}", a + ka * p, b + kb * p, p), || build(a + ka * p, b + kb * p, p, (a + b) % 2 == 1));
    let big = if p <= 5 || (p == 7 && (a < 3)) || c.tier == Tier::Thorough && p <= 11 { structured_scalars(256) } else if p <= 11 { structured_scalars(65) } else { vec![] };
    let mut big = big;
    if p == 3 || (p == 5 && a < 2) || (p <= 13 && a == 0 && b < 2) || c.tier == Tier::Thorough && p <= 5 {
        big.extend(long_scalars(c.tier));
    }
    let wide = if p <= 7 { 300 } else { 0 };
    for (i, q) in t.c.pts.iter().enumerate() {
        let mult = t.multiples(i);
        let ord = mult.len() as i64;
        let reps: &[(i64, i64)] = if p <= 7 { &REPS[..3] } else { &REPS[..1] };
        for (ri, r) in reps.iter().enumerate() {
            let point = rep(*q, p, r.0, r.1);
            let lo = -(2 * n + 2).max(if ri == 0 { wide } else { 0 });
            let mut k = 0;
            // simplest first: 0, 1, -1, 2, -2 ...
            while k >= lo {
                for s in [-k, k] {
                    let lab = || format!("{} * {} on a={} b={} p={}", s, show(&point), a, b, p);
                    let got = c.call(lab, || e.multiply_scalar(&point, &bi(s)));
                    let want = t.c.pts[mult[s.rem_euclid(ord) as usize]];
                    c.eq(lab, &abs_small(&got, p), &want);
                    c.outcome(&(a, b, p, want));
                    c.state(&(i, s));
                    c.trace();
                    if k == 0 {
                        break;
                    }
                }
                k -= 1;
            }
        }
        let point = rep(*q, p, 0, 0);
        for s in &big {
            let lab = || format!("{} * {} on a={} b={} p={}", s, show(&point), a, b, p);
            let got = c.call(lab, || e.multiply_scalar(&point, s));
            let k: i64 = md(s, &bi(ord)).to_string().parse().unwrap();
            c.eq(lab, &abs_small(&got, p), &t.c.pts[mult[k as usize]]);
            c.state(&(i, s.to_string()));
            c.trace();
        }
        if p <= 7 {
            // the results feed back: m(nP) = (mn)P, mP + nP = (m+n)P
            for m in -n - 1..=n + 1 {
                for s in -n - 1..=n + 1 {
                    let lab = || format!("m={} n={} P={} on a={} b={} p={}", m, s, show(&point), a, b, p);
                    let mn = c.call(lab, || e.multiply_scalar(&e.multiply_scalar(&point, &bi(s)), &bi(m)));
                    c.eq(|| format!("m(nP): {}", lab()), &abs_small(&mn, p), &t.c.pts[mult[(m * s).rem_euclid(ord) as usize]]);
                    let sum = c.call(lab, || e.plus(&e.multiply_scalar(&point, &bi(m)), &e.multiply_scalar(&point, &bi(s))));
                    c.eq(|| format!("mP+nP: {}", lab()), &abs_small(&sum, p), &t.c.pts[mult[(m + s).rem_euclid(ord) as usize]]);
                    c.traces(2);
                }
            }
        }
    }
    c.sample(|| format!("every point of y^2=x^3+{}x+{} over F_{} times every n in {}..{}", a, b, p, -2 * n - 2, 2 * n + 2));
}

fn c02_big(c: &mut Ctx, bc: &BigCase) {
    let (name, rc, base, _) = bc;
    let e = c.call(|| name.clone(), || EllipticCurve::new_raw(&rc.a, &rc.b, &rc.p));
    let g: BPt = Some(base.clone());
    let mut ns: Vec<BigInt> = Vec::new();
    let small = if rc.p < two_pow(70) { 40 } else { 12 };
    for i in 0..=small {
        ns.push(bi(i));
        ns.push(bi(-i));
    }
    let mut st = structured_scalars(if rc.p < two_pow(70) { 129 } else { 65 });
    if rc.p > two_pow(70) {
        st = st.into_iter().enumerate().filter(|(i, _)| i % 5 == 0).map(|(_, x)| x).collect();
    }
    ns.extend(st);
    ns.push(rc.p.clone());
    ns.push(&rc.p + bi(1));
    if c.tier == Tier::Thorough || rc.p < two_pow(70) {
        ns.extend(long_scalars(Tier::Quick).into_iter().filter(|s| c.tier == Tier::Thorough || s < &two_pow(700) && s > &-two_pow(700)));
    }
    for s in &ns {
        let lab = || format!("{} * {:?} on {}", s, base, name);
        let got = c.call(lab, || e.multiply_scalar(&big_point(&g), s));
        c.eq(lab, &abs_big(&got, &rc.p), &rc.mul(&g, s));
        c.state(&s.to_string());
        c.trace();
    }
    c.sample(|| format!("{} scalars on {}", ns.len(), name));
}

// ------------------------------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03",
    space: "every prime up to the bound (2 included), all coefficient pairs modulo p and shifted representatives, singular equations included: enumeration against brute force, membership of every coordinate pair; every history up to length 3 over {enumerate, read points, read cardinality, clone} from both constructors on the small fields. A state is a curve (with its history position), a trace one history whose observations all agree with the solution set.",
    assumptions: &[],
    hang: (30, 60),
    units: c03_units,
};

fn c03_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(2, tier.pick(47, 83)) {
        for a in 0..p {
            v.push(unit(format!("F_{} a={}", p, a), move |c| {
                for b in 0..p {
                    c03_curve(c, p, a, b);
                }
            }));
        }
    }
    // a few larger fields
    for (p, a, b) in [(97i64, 2i64, 3i64), (101, 0, 7), (127, -3, 5), (251, 1, 0), (257, 5, -6), (509, 11, 13), (521, -1, 100), (1031, 4, -9)] {
        v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c03_curve(c, p, a, b)));
    }
    // the list alone: every kind of curve (the number of points of order two, j = 0 and 1728, singular)
    // over fields of every residue class
    for p in primes(53, tier.pick(700, 1300)).into_iter().chain([1031, 2053]) {
        v.push(unit(format!("F_{}, the lists", p), move |c| {
            for (a, b) in [(1i64, 0i64), (-1, 0), (0, 1), (0, 2), (-3, 2), (1, 1), (2, 3), (-7, 6), (5, 1), (0, 0)] {
                if p > 1000 && b == 1 {
                    continue;
                }
                let lab = || format!("points of a={} b={} p={}", a, b, p);
                let want: BTreeSet<(i64, i64)> = SmallCurve::new(a.rem_euclid(p), b.rem_euclid(p), p).pts.iter().filter_map(|q| *q).collect();
                let e = c.call(lab, || EllipticCurve::new(&bi(a), &bi(b), &bi(p)));
                check_points(c, &lab(), &e.points, &want);
                c.eq(|| format!("{}: cardinality", lab()), &e.cardinality(), &(want.len() + 1));
                c.state(&(p, a, b));
                c.outcome(&want);
                c.trace();
            }
        }));
    }
    for bc in big_curves(tier) {
        v.push(unit(format!("membership on {}", bc.0), move |c| {
            let (name, rc, (x, y), _) = &bc;
            let shifts = [bi(0), rc.p.clone(), -&rc.p, &rc.p * two_pow(64), -(&rc.p * two_pow(131))];
            let mut all = near_misses(&bc).into_iter().map(|k| (k, false)).collect::<Vec<_>>();
            all.push(((rc.a.clone(), rc.b.clone()), true));
            all.push(((&rc.a - &rc.p, &rc.b + &rc.p * two_pow(65)), true));
            for (i, ((a, b), want)) in all.into_iter().enumerate() {
                let e = EllipticCurve::new_raw(&a, &b, &rc.p);
                c.state(&(&a, &b));
                for (k, l) in [(0, 0), (1 + i % 4, 1 + i / 4 % 4)] {
                    for y in [y.clone(), -y] {
                        let q = ecp(&(x + &shifts[k]), &(y + &shifts[l]));
                        let on = c.call(|| format!("is {} on a={} b={} p={}", show(&q), a, b, rc.p), || e.is_on_curve(&q));
                        c.check(on == want, || format!("{} on a={} b={} p={}: reported {}, is {}", show(&q), a, b, rc.p, on, want));
                        c.trace();
                    }
                }
            }
            c.sample(|| format!("a point next to {}", name));
        }));
    }
    for p in tier.pick(vec![2i64, 3, 5, 7, 11], vec![2, 3, 5, 7, 11, 13, 17]) {
        for a in 0..p {
            v.push(unit(format!("F_{} a={}, word boundaries", p, a), move |c| {
                for b in 0..p {
                    c03_wide(c, p, a, b);
                }
            }));
        }
    }
    v
}

/// coefficients and coordinates at word boundaries
fn c03_wide(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let sc = SmallCurve::new(a, b, p);
    let want: BTreeSet<(i64, i64)> = sc.pts.iter().filter_map(|q| *q).collect();
    for (i, (ra, rb)) in wide_pairs(a, b, p, true).into_iter().enumerate() {
        let name = format!("a={} b={} p={}", ra, rb, p);
        let e = c.call(|| name.clone(), || EllipticCurve::new(&ra, &rb, &bi(p)));
        c.state(&(&ra, &rb));
        check_points(c, &name, &e.points, &want);
        c.outcome(&(p, e.points.len()));
        for x in 0..p {
            for y in 0..p {
                if p > 5 && (i as i64 + x + y) % 3 != 0 {
                    continue;
                }
                for w in [None, Some(i)] {
                    let q = match w {
                        None => ecp(&bi(x), &bi(y)),
                        Some(i) => wide_point(Some((x, y)), p, (i * 3 + (x + y) as usize) % 192),
                    };
                    let on = c.call(|| format!("is {} on {}", show(&q), name), || e.is_on_curve(&q));
                    let w = want.contains(&(x, y));
                    c.check(on == w, || format!("{} on {}: reported {}, is {}", show(&q), name, on, w));
                }
            }
        }
        c.trace();
    }
    // every boundary of the coordinates on one representation
    let name = format!("a={} b={} p={}", a, b, p);
    let e = c.call(|| name.clone(), || EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p)));
    for x in 0..p {
        for y in 0..p {
            for i in 0..192 {
                let q = wide_point(Some((x, y)), p, i);
                let on = c.call(|| format!("is {} on {}", show(&q), name), || e.is_on_curve(&q));
                let w = want.contains(&(x, y));
                c.check(on == w, || format!("{} on {}: reported {}, is {}", show(&q), name, on, w));
            }
        }
    }
    c.trace();
}

fn check_points(c: &mut Ctx, what: &str, pts: &[ECPoint], want: &BTreeSet<(i64, i64)>) {
    let mut seen = BTreeSet::new();
    let mut inf = 0;
    for q in pts {
        if q.is_infinity() {
            inf += 1;
        } else {
            let x: Result<i64, _> = q.x.to_string().parse();
            let y: Result<i64, _> = q.y.to_string().parse();
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    c.check(want.contains(&(x, y)), || format!("{}: ({}, {}) is listed but is no rational point", what, x, y));
                    c.check(seen.insert((x, y)), || format!("{}: ({}, {}) is listed twice", what, x, y));
                }
                _ => c.fail(format!("{}: point {} listed", what, show(q))),
            }
        }
    }
    c.check(inf == 1, || format!("{}: infinity is listed {} times", what, inf));
    c.check(seen.len() == want.len(), || format!("{}: missing {:?}", what, want.difference(&seen).next()));
}

fn c03_curve(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let sc = SmallCurve::new(a, b, p);
    let want: BTreeSet<(i64, i64)> = sc.pts.iter().filter_map(|q| *q).collect();
    let reps: &[(i64, i64)] = if p <= 13 { &COEF } else if p <= 23 { &COEF[..2] } else { &COEF[..1] };
    for (ka, kb) in reps {
        let (ra, rb) = (a + ka * p, b + kb * p);
        let name = format!("a={} b={} p={}", ra, rb, p);
        let e = c.call(|| name.clone(), || build(ra, rb, p, false));
        c.state(&(ra, rb));
        check_points(c, &name, &e.points, &want);
        let pv = c.call(|| name.clone(), || e.points());
        c.check(pv == e.points, || format!("{}: points() differs from points", name));
        let n = c.call(|| name.clone(), || e.cardinality());
        c.eq(|| format!("cardinality of {}", name), &n, &(want.len() + 1));
        c.outcome(&(p, n));
        c.trace();
        // membership
        let (lo, hi) = if p <= 11 { (-p, 2 * p) } else if p <= 60 { (0, p) } else { (0, 0) };
        for x in lo..hi {
            for y in lo..hi {
                let on = c.call(|| format!("is ({},{}) on {}", x, y, name), || e.is_on_curve(&ecp(&bi(x), &bi(y))));
                let w = want.contains(&(x.rem_euclid(p), y.rem_euclid(p)));
                c.check(on == w, || format!("({}, {}) on {}: reported {}, is {}", x, y, name, on, w));
            }
        }
        c.trace();
        let on = c.call(|| format!("is O on {}", name), || e.is_on_curve(&ECPoint::infinity()));
        c.check(on, || format!("infinity is reported off {}", name));
    }
    if p <= 7 || (p <= 17 && a == 1) {
        // histories
        for start_raw in [false, true] {
            for len in 0..=3usize {
                for code in 0..4usize.pow(len as u32) {
                    let mut e = c.call(|| format!("a={} b={} p={}", a, b, p), || build(a, b, p, start_raw));
                    let mut enumerated = !start_raw;
                    let mut hist = String::from(if start_raw { "raw" } else { "new" });
                    let mut first: Option<Vec<ECPoint>> = if start_raw { None } else { Some(e.points.clone()) };
                    let mut k = code;
                    for _ in 0..len {
                        let op = k % 4;
                        k /= 4;
                        hist.push_str([";enumerate", ";points", ";cardinality", ";clone"][op]);
                        let lab = || format!("{} on a={} b={} p={}", hist, a, b, p);
                        match op {
                            0 => {
                                c.call(lab, || e.create_points());
                                enumerated = true;
                            }
                            1 => {
                                let v = c.call(lab, || e.points());
                                c.check(v == e.points, || format!("{}: points() differs from points", lab()));
                            }
                            2 => {
                                let n = c.call(lab, || e.cardinality());
                                if enumerated {
                                    c.eq(lab, &n, &(want.len() + 1));
                                }
                            }
                            _ => {
                                e = c.call(lab, || e.clone());
                            }
                        }
                        if enumerated {
                            check_points(c, &format!("{} on a={} b={} p={}", hist, a, b, p), &e.points, &want);
                            match &first {
                                None => first = Some(e.points.clone()),
                                Some(f) => c.check(f == &e.points, || format!("{} on a={} b={} p={}: the list changed", hist, a, b, p)),
                            }
                            let n = c.call(|| hist.clone(), || e.cardinality());
                            c.eq(|| format!("cardinality after {} on a={} b={} p={}", hist, a, b, p), &n, &(want.len() + 1));
                        }
                        c.state(&(b, &hist));
                    }
                    c.trace();
                }
            }
        }
    }
    if b == 1 {
        c.sample(|| format!("y^2=x^3+{}x+{} over F_{}: {} points", a, b, p, want.len() + 1));
    }
}

// ------------------------------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04",
    space: "every nonsingular curve over every odd prime field up to the bound, the order of every point (and representatives), the n-division set for every n from -5 to N+3, multiples of N and word-boundary values; larger fields with point orders beyond 256 (thorough 1000). A state is a (point) or (n) query, a trace one query compared with the brute-force group.",
    assumptions: &[],
    hang: (30, 60),
    units: c04_units,
};

/// a curve for every number of points that occurs
pub fn per_order(p: i64) -> Vec<(i64, i64)> {
    let mut seen = std::collections::BTreeMap::new();
    for a in 0..p.min(12) {
        for b in 0..p {
            if SmallCurve::nonsingular(a, b, p) {
                seen.entry(count_points(a, b, p)).or_insert((a, b));
            }
        }
    }
    seen.values().cloned().collect()
}

fn c04_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(3, tier.pick(29, 43)) {
        for (a, b) in curves(p) {
            v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c04_curve(c, p, a, b)));
        }
    }
    for (p, a, b) in [(41i64, 1i64, 1i64), (43, 0, 2), (61, -1, 0), (67, 3, 5), (101, 2, 1), (257, 1, 3), (263, 0, 5), (521, -1, 7), (1031, 2, 2), (1031, -3, 0)] {
        if p > 300 && tier == Tier::Quick {
            continue;
        }
        v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c04_curve(c, p, a, b)));
    }
    // one curve for every number of points
    for p in primes(tier.pick(31, 47), tier.pick(127, 401)) {
        v.push(unit(format!("F_{}, a curve of every order", p), move |c| {
            for (a, b) in per_order(p) {
                c04_curve(c, p, a, b);
            }
        }));
    }
    wide_units(&mut v, tier.pick(vec![5, 7], vec![3, 5, 7, 11]), false, |c, a, b, p, ra, rb| {
        let t = table(a, b, p);
        let name = format!("a={} b={} p={}", ra, rb, p);
        let e = c.call(|| name.clone(), || EllipticCurve::new(ra, rb, &bi(p)));
        let mut orders = Vec::new();
        for (i, q) in t.c.pts.iter().enumerate() {
            let want = t.multiples(i).len() as i64;
            orders.push(want);
            let w = md(&(ra + rb * bi(3)), &bi(192)).to_string().parse::<usize>().unwrap();
            for point in [rep(*q, p, 0, 0), wide_point(*q, p, w + i)] {
                let lab = || format!("order of {} on {}", show(&point), name);
                let o = c.call(lab, || e.point_order(&point));
                c.eq(lab, &o, &bi(want));
                c.trace();
            }
        }
        for k in [0i64, 1, 2, 3, 4, -6] {
            let lab = || format!("{}-division points of {}", k, name);
            let dv = c.call(lab, || e.division_points(&bi(k)));
            let mut got: Vec<Pt> = dv.iter().map(|q| abs_small(q, p)).collect();
            got.sort();
            let mut want: Vec<Pt> = t.c.pts.iter().enumerate().filter(|(i, _)| k % orders[*i] == 0).map(|(_, q)| *q).collect();
            want.sort();
            c.eq(lab, &got, &want);
            c.trace();
        }
        c.state(&(ra, rb));
    });
    v
}

fn c04_curve(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let t = table(a, b, p);
    let n = t.c.pts.len() as i64;
    let (ka, kb) = COEF[((a + 2 * b + p) % 5) as usize];
    let (ra, rb) = (a + ka * p, b + kb * p);
    let name = format!("a={} b={} p={}", ra, rb, p);
    let e = c.call(|| name.clone(), || build(ra, rb, p, false));
    let mut orders = Vec::new();
    for (i, q) in t.c.pts.iter().enumerate() {
        let want = t.multiples(i).len() as i64;
        orders.push(want);
        for (k, l) in if p <= 7 { &REPS[..] } else { &REPS[..1] } {
            let point = rep(*q, p, *k, *l);
            let lab = || format!("order of {} on {}", show(&point), name);
            let o = c.call(lab, || e.point_order(&point));
            c.eq(lab, &o, &bi(want));
            c.state(&(0, i, k, l));
            c.outcome(&want);
            c.trace();
        }
    }
    let mut ns: Vec<i64> = (-5..=n + 3).collect();
    ns.push(2 * n);
    ns.push(-n);
    ns.push(12 * n);
    if p > 30 {
        ns = vec![-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, n, n + 1, 2 * n];
    }
    let mut ns: Vec<BigInt> = ns.into_iter().map(bi).collect();
    if p <= 13 {
        for i in [16u32, 31, 32, 63, 64, 128] {
            ns.push(two_pow(i) * bi(n));
            ns.push(two_pow(i));
            ns.push(-two_pow(i) * bi(6));
        }
    } else {
        ns.push(two_pow(31) * bi(n));
        ns.push(two_pow(32));
        ns.push(-two_pow(63) * bi(6));
    }
    for k in ns {
        let lab = || format!("{}-division points of {}", k, name);
        let dv = c.call(lab, || e.division_points(&k));
        let as_vec: Vec<ECPoint> = (&dv).into();
        c.check(as_vec.len() == dv.len() && as_vec.iter().zip(dv.iter()).all(|(x, y)| x == y), || format!("{}: conversion differs", lab()));
        let mut got: Vec<Pt> = dv.iter().map(|q| abs_small(q, p)).collect();
        let len = got.len();
        got.sort();
        got.dedup();
        c.check(got.len() == len, || format!("{}: a point is listed twice", lab()));
        let mut want: Vec<Pt> = t.c.pts.iter().enumerate().filter(|(i, _)| (&k % bi(orders[*i])).is_zero()).map(|(_, q)| *q).collect();
        want.sort();
        c.eq(lab, &got, &want);
        let owned: Vec<ECPoint> = dv.into();
        c.check(owned == as_vec, || format!("{}: conversion differs", lab()));
        c.state(&k.to_string());
        c.outcome(&want);
        c.trace();
    }
    c.sample(|| format!("orders of the points of {}: {:?}", name, orders));
}

// ------------------------------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05",
    space: "every nonsingular curve over every odd prime field up to the bound and every n in 1..=12, the exponent of the group and multiples beyond 2^32, coefficients also unreduced, and chains of three quotients on the smaller fields: the result must be isomorphic over F_p to the quotient computed from Velu's definition, on which the image of every point is checked to lie, and have the same number of points. A state is a (curve, n) pair, a trace one quotient or chain.",
    assumptions: &[],
    hang: (30, 60),
    units: c05_units,
};

fn c05_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(3, tier.pick(37, 61)) {
        for (a, b) in curves(p) {
            v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c05_curve(c, p, a, b)));
        }
    }
    for (p, a, b) in [(101i64, 1i64, 1i64), (101, 0, 3), (103, -1, 0), (131, 5, 0), (151, 0, 1), (257, 3, 8)] {
        v.push(unit(format!("F_{} a={} b={}", p, a, b), move |c| c05_curve(c, p, a, b)));
    }
    for p in primes(tier.pick(41, 67), tier.pick(109, 211)) {
        v.push(unit(format!("F_{}, a curve of every order", p), move |c| {
            for (a, b) in per_order(p) {
                c05_curve(c, p, a, b);
            }
        }));
    }
    wide_units(&mut v, tier.pick(vec![5, 7], vec![3, 5, 7, 11]), false, |c, a, b, p, ra, rb| {
        let t = table(a, b, p);
        let name = format!("a={} b={} p={}", ra, rb, p);
        let e = c.call(|| name.clone(), || EllipticCurve::new(ra, rb, &bi(p)));
        for n in [1i64, 2, 3, 4, 6, t.c.pts.len() as i64] {
            let (qa, qb) = quotient(&t, n);
            let lab = || format!("quotient of {} by its {}-division points", name, n);
            let f = c.call(lab, || e.isogeny(&bi(n)));
            c.eq(lab, &f.p, &bi(p));
            let (x, y) = (abs_res(&f.a, p), abs_res(&f.b, p));
            c.check(SmallCurve::nonsingular(x, y, p) && isomorphic(qa, qb, x, y, p), || format!("{}: got a={} b={}, the quotient is isomorphic to a={} b={}", lab(), x, y, qa, qb));
            c.eq(|| format!("{}: cardinality", lab()), &f.cardinality(), &t.c.pts.len());
            c.trace();
        }
        c.state(&(ra, rb));
    });
    v
}

fn abs_res(v: &BigInt, p: i64) -> i64 {
    md(v, &bi(p)).to_string().parse().unwrap()
}

/// Velu's quotient by the rational n-division points, from the sum over one of each pair {Q, -Q},
/// checked through the map P -> (x(P) + sum x(P+Q)-x(Q), y(P) + sum y(P+Q)-y(Q))
fn quotient(t: &Table, n: i64) -> (i64, i64) {
    let p = t.c.p;
    let ker: Vec<usize> = (0..t.c.pts.len()).filter(|i| n.rem_euclid(t.multiples(*i).len() as i64) == 0).collect();
    let (mut v, mut w) = (0i64, 0i64);
    for i in &ker {
        if let Some((x, y)) = t.c.pts[*i] {
            let ny = (-y).rem_euclid(p);
            if y > ny {
                continue; // its negative stands for both
            }
            let gx = (3 * x * x + t.c.a).rem_euclid(p);
            let (vq, uq) = if y == 0 { (gx, 0) } else { (2 * gx % p, 4 * y * y % p) };
            v = (v + vq) % p;
            w = (w + uq + x * vq) % p;
        }
    }
    let (a2, b2) = ((t.c.a - 5 * v).rem_euclid(p), (t.c.b - 7 * w).rem_euclid(p));
    for (i, q) in t.c.pts.iter().enumerate() {
        if ker.contains(&i) {
            continue;
        }
        let (mut x, mut y) = q.unwrap();
        for k in &ker {
            if let Some((kx, ky)) = t.c.pts[*k] {
                let (sx, sy) = t.c.pts[t.add[i][*k]].unwrap();
                x += sx - kx;
                y += sy - ky;
            }
        }
        let (x, y) = (x.rem_euclid(p), y.rem_euclid(p));
        assert!((y * y - x * x * x - a2 * x - b2).rem_euclid(p) == 0, "reference model: Velu");
    }
    assert!(SmallCurve::nonsingular(a2, b2, p) && SmallCurve::new(a2, b2, p).pts.len() == t.c.pts.len(), "reference model: Velu");
    (a2, b2)
}

fn isomorphic(a: i64, b: i64, a2: i64, b2: i64, p: i64) -> bool {
    (1..p).any(|u| {
        let u2 = u * u % p;
        let u4 = u2 * u2 % p;
        (u4 * a - a2).rem_euclid(p) == 0 && (u4 * u2 % p * b - b2).rem_euclid(p) == 0
    })
}

fn c05_curve(c: &mut Ctx, p: i64, a: i64, b: i64) {
    let depth = if p <= 13 { 3 } else { 1 };
    let t = table(a, b, p);
    let exponent = (0..t.c.pts.len()).map(|i| t.multiples(i).len() as i64).max().unwrap();
    let mut ns: Vec<i64> = (1..=12).collect();
    ns.extend((13..=exponent).filter(|n| exponent % n == 0));
    ns.push(6 << 31);
    ns.push(15 << 32);
    ns.push(exponent << 40);
    if p > 70 {
        // every subgroup of this form, once
        ns = (2..=exponent).filter(|n| exponent % n == 0).collect();
        ns.extend([4, 7, exponent << 32]);
    }
    for n in ns {
        let name = format!("quotient of a={} b={} p={} by its {}-division points", a, b, p, n);
        let (ka, kb) = COEF[((a + 2 * b + p + n % 5) % 5) as usize];
        let mut e = c.call(|| name.clone(), || build(a + ka * p, b + kb * p, p, false));
        let (mut ma, mut mb) = (a, b);
        for d in 0..depth {
            let tt = table(ma, mb, p);
            let (qa, qb) = quotient(&tt, n);
            let lab = || format!("{} (step {} from a={} b={})", name, d + 1, ma, mb);
            let f = c.call(lab, || e.isogeny(&bi(n)));
            c.eq(lab, &f.p, &bi(p));
            let ra: i64 = md(&f.a, &bi(p)).to_string().parse().unwrap();
            let rb: i64 = md(&f.b, &bi(p)).to_string().parse().unwrap();
            c.check(SmallCurve::nonsingular(ra, rb, p), || format!("{}: a={} b={} is singular", lab(), ra, rb));
            c.check(isomorphic(qa, qb, ra, rb, p), || format!("{}: got a={} b={}, the quotient is isomorphic to a={} b={}", lab(), ra, rb, qa, qb));
            c.eq(|| format!("{}: cardinality", lab()), &f.cardinality(), &tt.c.pts.len());
            let want: BTreeSet<(i64, i64)> = SmallCurve::new(ra, rb, p).pts.iter().filter_map(|q| *q).collect();
            check_points(c, &lab(), &f.points, &want);
            let j = c.call(lab, || f.j_invariant());
            c.eq(|| format!("{}: j", lab()), &j, &bi(j_small(qa, qb, p)));
            c.state(&(n, d, ra, rb));
            c.outcome(&(p, ra, rb));
            e = f;
            ma = ra;
            mb = rb;
        }
        c.trace();
    }
    c.sample(|| format!("quotients of y^2=x^3+{}x+{} over F_{} for n=1..12", a, b, p));
}

// ------------------------------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    space: "every nonsingular (a,b) over every odd prime field up to the bound with representatives shifted by multiples of p, every scaling (u^4 a, u^6 b), all pairs of curves on the smaller fields (equal j iff isomorphic over the closure), and curves over large primes. A state is a coefficient pair, a trace one j-invariant compared.",
    assumptions: &[],
    hang: (30, 60),
    units: c06_units,
};

fn c06_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(3, tier.pick(101, 251)) {
        v.push(unit(format!("F_{}", p), move |c| c06_field(c, p)));
    }
    for p in primes(5, tier.pick(23, 41)) {
        v.push(unit(format!("F_{} pairs", p), move |c| c06_pairs(c, p)));
    }
    for bc in big_curves(tier) {
        v.push(unit(bc.0.clone(), move |c| c06_big(c, &bc)));
    }
    wide_units(&mut v, tier.pick(vec![3, 5, 7, 11, 13], vec![3, 5, 7, 11, 13, 17, 19, 23]), true, |c, a, b, p, ra, rb| {
        let lab = || format!("j of a={} b={} p={}", ra, rb, p);
        let j = c.call(lab, || EllipticCurve::new_raw(ra, rb, &bi(p)).j_invariant());
        c.eq(lab, &j, &bi(j_small(a, b, p)));
        c.state(&(ra, rb));
        c.outcome(&(p, j));
        c.trace();
    });
    v
}

fn c06_field(c: &mut Ctx, p: i64) {
    for (a, b) in curves(p) {
        let want = bi(j_small(a, b, p));
        for (k, l) in REPS[..5].iter().chain(&COEF[3..]) {
            let (ra, rb) = (a + k * p, b + l * p);
            for raw in [true, false] {
                if !raw && (p > 13 || *k != 0) {
                    continue;
                }
                let e = c.call(|| format!("a={} b={} p={}", ra, rb, p), || build(ra, rb, p, raw));
                let j = c.call(|| format!("j of a={} b={} p={}", ra, rb, p), || e.j_invariant());
                c.eq(|| format!("j of a={} b={} p={}", ra, rb, p), &j, &want);
                c.state(&(ra, rb));
                c.outcome(&(p, j.to_string()));
                c.trace();
            }
        }
        let us: Vec<i64> = if p <= 31 { (1..p).collect() } else { vec![2, 3, p - 1, p / 2] };
        for u in us {
            let u2 = u * u;
            let (ua, ub) = (bi(u2 * u2) * bi(a), bi(u2 * u2) * bi(u2) * bi(b));
            let j = c.call(|| format!("j of a={} b={} p={}", ua, ub, p), || EllipticCurve::new_raw(&ua, &ub, &bi(p)).j_invariant());
            c.eq(|| format!("j of a={} b={} p={} (u={})", ua, ub, p, u), &j, &want);
            c.trace();
        }
    }
    c.sample(|| format!("{} curves over F_{}", curves(p).len(), p));
}

/// isomorphic over the algebraic closure: some u in the closure with u^4 a = a', u^6 b = b'.
/// For p > 3 this holds iff (a, b) and (a', b') are weighted-proportional: a^3 b'^2 = a'^3 b^2 with the
/// same vanishing pattern.
fn c06_pairs(c: &mut Ctx, p: i64) {
    let cs = curves(p);
    let js: Vec<BigInt> = cs
        .iter()
        .map(|(a, b)| c.call(|| format!("j of a={} b={} p={}", a, b, p), || build(*a, *b, p, true).j_invariant()))
        .collect();
    for (i, (a, b)) in cs.iter().enumerate() {
        for (k, (a2, b2)) in cs.iter().enumerate() {
            let cube = |x: i64| x * x % p * x % p;
            let iso = (*a == 0) == (*a2 == 0)
                && (*b == 0) == (*b2 == 0)
                && (cube(*a) * (b2 * b2 % p) - cube(*a2) * (b * b % p)).rem_euclid(p) == 0;
            c.check(iso == (js[i] == js[k]), || {
                format!("a={} b={} (j={}) and a={} b={} (j={}) over F_{}: isomorphic over the closure is {}", a, b, js[i], a2, b2, js[k], p, iso)
            });
            c.state(&(i, k));
        }
    }
    c.traces((cs.len() * cs.len()) as u64);
    c.sample(|| format!("{}^2 pairs of curves over F_{}", cs.len(), p));
}

fn c06_big(c: &mut Ctx, bc: &BigCase) {
    let (name, rc, _, _) = bc;
    let p = &rc.p;
    let n = md(&(bi(4) * &rc.a * &rc.a * &rc.a), p);
    let d = md(&(&n + bi(27) * &rc.b * &rc.b), p);
    let want = md(&(bi(1728) * n * minv(&d, p).unwrap()), p);
    for (k, l) in REPS {
        for u in [1i64, 2, 3, 5, -7] {
            let u4 = bi(u * u * u * u);
            let (a, b) = (&rc.a * &u4 + bi(k) * p, &rc.b * &u4 * bi(u * u) + bi(l) * p);
            let j = c.call(|| format!("j of a={} b={} p={}", a, b, p), || EllipticCurve::new_raw(&a, &b, p).j_invariant());
            c.eq(|| format!("j of a={} b={} p={}", a, b, p), &j, &want);
            c.state(&(k, l, u));
            c.trace();
        }
    }
    c.sample(|| format!("{}: j={}", name, want));
}

// ------------------------------------------------------------------------------------- C22

pub static C22: Prop = Prop {
    id: "C22",
    space: "published parameters of secp256k1; every scalar 0..=K and its negative, n-k, n+k, 2n+-k, every 2^i, 2^i-1, 2^i+1 for i <= 257 (thorough; every 4th at quick plus all 2^i), repeated byte patterns; every pair of multiples in -M..M added and subtracted. A state is a scalar, a trace one multiple compared with textbook affine arithmetic.",
    assumptions: &["the published constants of SEC 2 are typed in from the standard"],
    hang: (60, 120),
    units: c22_units,
};

fn hex(s: &str) -> BigInt {
    BigInt::parse_bytes(s.replace(' ', "").as_bytes(), 16).unwrap()
}

fn secp() -> (BigCurve, BPt, BigInt) {
    let p = hex("FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFE FFFFFC2F");
    let n = hex("FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFE BAAEDCE6 AF48A03B BFD25E8C D0364141");
    let gx = hex("79BE667E F9DCBBAC 55A06295 CE870B07 029BFCDB 2DCE28D9 59F2815B 16F81798");
    let gy = hex("483ADA77 26A3C465 5DA4FBFC 0E1108A8 FD17B448 A6855419 9C47D08F FB10D4B8");
    (BigCurve { a: bi(0), b: bi(7), p }, Some((gx, gy)), n)
}

fn c22_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    v.push(unit(s_("parameters"), c22_params));
    let (_, _, n) = secp();
    let mut ks: Vec<BigInt> = Vec::new();
    for k in 0..=tier.pick(130, 600) {
        ks.push(bi(k));
        ks.push(bi(-k));
    }
    for k in 0..=tier.pick(17, 200) {
        ks.push(&n - bi(k));
        ks.push(&n + bi(k));
    }
    for k in -2..=2 {
        ks.push(&n * bi(2) + bi(k));
        ks.push(-(&n) + bi(k));
        ks.push(&n / bi(2) + bi(k));
    }
    for i in 3..=257u32 {
        if tier == Tier::Thorough || i % 4 == 0 || i % 32 == 31 {
            ks.push(two_pow(i) - bi(1));
            ks.push(two_pow(i) + bi(1));
        }
        {
            ks.push(two_pow(i));
        }
    }
    for pat in ["AA", "55", "F0", "0F", "80", "01", "7F", "FE", "CC"] {
        ks.push(hex(&pat.repeat(32)));
    }
    for pat in ["FFFF0000", "0000FFFF", "FFFFFFFF00000000", "00000000FFFFFFFF", "FFFFFFFFFFFFFFFF0000000000000000"] {
        ks.push(hex(&pat.repeat(64 / pat.len())));
    }
    // the eigenvalues of the curve's efficient endomorphism, and values around them
    let lambda = hex("5363AD4C C05C30E0 A5261C02 8812645A 122E22EA 20816678 DF02967C 1B23BD72");
    for i in 1..=tier.pick(3, 12) {
        for d in -1..=1 {
            ks.push(&lambda * bi(i) + bi(d));
            ks.push(md(&(&lambda * &lambda * bi(i) + bi(d)), &n));
            ks.push(-(&lambda * bi(i) + bi(d)));
        }
    }
    // values whose upper or lower half is trivial
    for k in [64u32, 96, 127, 128, 129, 160, 192] {
        for m in [3i64, 5, 7, 11] {
            ks.push(two_pow(k) * bi(m));
            ks.push(&n - two_pow(k) * bi(m));
            if tier == Tier::Thorough {
                ks.push(two_pow(k) * bi(m) + bi(1));
                ks.push(-(two_pow(k) * bi(m) - bi(1)));
            }
        }
    }
    // sums and differences of two powers of two, and of one and the order
    for i in 1..=256u32 {
        if tier == Tier::Thorough || i % 4 == 0 || i > 250 {
            ks.push(&n - two_pow(i));
            ks.push(&n + two_pow(i));
        }
        for j in 1..i {
            let (hi, lo) = (i % 32 == 0 || i == 255, j % 32 == 0 || j % 52 == 0);
            if hi && lo || tier == Tier::Thorough && i % 8 == 0 && j % 8 == 0 {
                ks.push(two_pow(i) - two_pow(j));
                ks.push(two_pow(i) + two_pow(j));
            }
        }
    }
    ks.extend(long_scalars(tier).into_iter().filter(|s| tier == Tier::Thorough || s < &two_pow(800) && s > &-two_pow(800)));
    // past every fixed width
    for k in [900u32, 1024, 1279, 1280, 1536, 2047, 2048, 2500, 4096] {
        ks.push(two_pow(k));
        ks.push(two_pow(k) - &n);
        ks.push(-(two_pow(k) / bi(3)));
    }
    for (i, ch) in ks.chunks(8).enumerate() {
        let ch = ch.to_vec();
        v.push(unit(format!("scalars {}", i), move |c| c22_scalars(c, &ch)));
    }
    let m = tier.pick(12, 40);
    for i in -m..=m {
        v.push(unit(format!("sums with {}G", i), move |c| c22_sums(c, i, m)));
    }
    v
}

fn s_(s: &str) -> String {
    s.to_string()
}

fn c22_params(c: &mut Ctx) {
    let (rc, g, n) = secp();
    let s = c.call(|| s_("Secp256k1::new"), Secp256k1::new);
    c.eq(|| s_("p"), &s.ec.p, &rc.p);
    c.eq(|| s_("a mod p"), &md(&s.ec.a, &rc.p), &rc.a);
    c.eq(|| s_("b mod p"), &md(&s.ec.b, &rc.p), &rc.b);
    c.eq(|| s_("G"), &abs_big(&s.g, &rc.p), &g);
    let on = c.call(|| s_("is G on the curve"), || s.ec.is_on_curve(&s.g));
    c.check(on, || s_("G is reported off the curve"));
    let o = c.call(|| s_("nG"), || s.ec.multiply_scalar(&s.g, &n));
    c.check(o.is_infinity(), || format!("nG = {}", show(&o)));
    c.eq(|| s_("j"), &s.ec.j_invariant(), &bi(0));
    // doubling chain
    let mut q = s.g.clone();
    let mut w = g;
    for i in 1..=260 {
        q = c.call(|| format!("2^{} G by doubling", i), || s.ec.plus(&q, &q));
        w = rc.add(&w, &w);
        c.eq(|| format!("2^{} G", i), &abs_big(&q, &rc.p), &w);
        c.state(&i);
        c.trace();
    }
    c.sample(|| s_("parameters and the chain G, 2G, 4G, ... 2^260 G"));
}

fn c22_scalars(c: &mut Ctx, ks: &[BigInt]) {
    let (rc, g, n) = secp();
    let s = c.call(|| s_("Secp256k1::new"), Secp256k1::new);
    for k in ks {
        let got = c.call(|| format!("{} G", k), || s.ec.multiply_scalar(&s.g, k));
        let want = if k.bits() > 520 { rc.mul(&g, &md(k, &n)) } else { rc.mul(&g, k) };
        c.eq(|| format!("{} G", k), &abs_big(&got, &rc.p), &want);
        let on = c.call(|| format!("is {} G on the curve", k), || s.ec.is_on_curve(&got));
        c.check(on, || format!("{} G is reported off the curve", k));
        c.state(&k.to_string());
        c.outcome(&got.x.to_string());
        c.trace();
    }
    c.sample(|| format!("k={} .. {}", ks[0], ks[ks.len() - 1]));
}

fn c22_sums(c: &mut Ctx, i: i64, m: i64) {
    let (rc, g, n) = secp();
    let s = c.call(|| s_("Secp256k1::new"), Secp256k1::new);
    let left = c.call(|| format!("{} G", i), || s.ec.multiply_scalar(&s.g, &bi(i)));
    c.eq(|| format!("{} G", i), &abs_big(&left, &rc.p), &rc.mul(&g, &bi(i)));
    for k in -m..=m {
        let kk = if k % 2 == 0 { bi(k) } else { bi(k) + &n };
        let right = big_point(&rc.mul(&g, &kk));
        let lab = || format!("{} G + {} G", i, kk);
        let got = c.call(lab, || s.ec.plus(&left, &right));
        c.eq(lab, &abs_big(&got, &rc.p), &rc.mul(&g, &bi(i + k)));
        let neg = c.call(lab, || s.ec.plus(&left, &s.ec.negate(&right)));
        c.eq(|| format!("{} G - {} G", i, kk), &abs_big(&neg, &rc.p), &rc.mul(&g, &bi(i - k)));
        c.state(&k);
        c.traces(2);
    }
}
