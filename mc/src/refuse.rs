//! C26: inputs outside an operation's domain are refused, their neighbours inside are not

use crate::alg::rank;
use crate::conv::*;
use crate::engine::*;
use crate::poly::{dense, vectors, K1, KQ, KQM, KV, KX, KX2, KXY, KY};
use crate::refm::*;
use ellipticcurve::bigint::{Inverse, Power};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::modular_polynomial as mp;
use ellipticcurve::{division_polynomial, simultaneous_equation};
use num_bigint::BigInt;
use num_traits::{One, ToPrimitive, Zero};

fn s_(s: &str) -> String {
    s.to_string()
}

pub static C26: Prop = Prop {
    id: "C26",
    space: "for each listed operation, every argument of a bounded box, split by an independent predicate into legal and illegal ones: every modulus from -20 to the bound, Carmichael numbers, strong pseudoprimes, squares and products of primes; every pair of plane points over small fields (and shifted representatives) with one or both off the curve; every small dividend by every zero or several-term divisor in every operator form; every negative exponent to -40 and the extreme ones; every pair of terms carrying variables, alone and inside products and powers; every modulus below 2 for inversion; every non-prime index; every negative index; every rank-deficient small system; every small dividend by 0 and by polynomials that vanish mod p; every small non-constant polynomial read as a scalar. Illegal ones must be refused, legal ones answered. A state is an argument tuple.",
    assumptions: &["refused means that the call panics"],
    hang: (60, 120),
    units: c26_units,
};

fn c26_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let m = tier.pick(300, 600);
    for (a, b) in [(1i64, 1i64), (0, 0), (-3, 5), (2, 3)] {
        v.push(unit(format!("curve moduli a={} b={}", a, b), move |c| moduli(c, a, b, m)));
    }
    v.push(unit(s_("large composite moduli"), composite_moduli));
    for p in primes(2, tier.pick(11, 17)) {
        for a in 0..p {
            v.push(unit(format!("points over F_{} a={}", p, a), move |c| {
                for b in 0..p {
                    points(c, a, b, p);
                }
            }));
        }
    }
    v.push(unit(s_("composites beyond one word"), wrapped_moduli));
    crate::ec::wide_units(&mut v, tier.pick(vec![3, 5, 7], vec![3, 5, 7, 11]), tier == Tier::Thorough, wide_points);
    v.push(unit(s_("points over large fields"), big_points));
    v.push(unit(s_("polynomial quotients"), move |c| quotients(c, tier)));
    v.push(unit(s_("negative powers"), move |c| powers(c, tier)));
    v.push(unit(s_("products of variables"), move |c| variables(c, tier)));
    v.push(unit(s_("inverse"), inverses));
    v.push(unit(s_("modular polynomial index"), move |c| indices(c, tier)));
    v.push(unit(s_("division polynomial index"), division_index));
    for (r, k, b) in tier.pick(
        vec![(1usize, 1usize, 3i64), (2, 2, 3), (3, 2, 1), (1, 2, 3), (2, 3, 1), (3, 3, 1)],
        vec![(1, 1, 9), (2, 2, 5), (3, 2, 2), (1, 2, 6), (2, 3, 2), (3, 3, 2), (4, 2, 1), (4, 3, 1)],
    ) {
        let firsts: Vec<Vec<i64>> = boxed(k, b);
        for (i, f) in firsts.iter().enumerate() {
            let f = f.clone();
            if r == 1 && i > 0 {
                continue;
            }
            v.push(unit(format!("systems {}x{} in [-{},{}], part {}", r, k, b, b, i), move |c| systems(c, r, k, b, &f)));
        }
    }
    v.push(unit(s_("structured deficient systems"), deficient));
    for p in [2i64, 3, 5, 7] {
        v.push(unit(format!("remainders mod {}", p), move |c| remainders(c, p, tier)));
    }
    v.push(unit(s_("scalars"), move |c| scalars(c, tier)));
    v
}

/// all vectors in [-b, b]^k
fn boxed(k: usize, b: i64) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..k {
        v = v
            .into_iter()
            .flat_map(|w| {
                (-b..=b).map(move |x| {
                    let mut w = w.clone();
                    w.push(x);
                    w
                })
            })
            .collect();
    }
    v
}

fn moduli(c: &mut Ctx, a: i64, b: i64, max: i64) {
    for m in -20..=max {
        let l = || format!("EllipticCurve::new({}, {}, {})", a, b, m);
        let f = || EllipticCurve::new(&bi(a), &bi(b), &bi(m));
        c.state(&m);
        if m >= 2 && is_prime(m as u64) {
            let e = c.call(l, f);
            c.outcome(&e.cardinality());
        } else {
            c.refuses(l, || f().points().len());
        }
    }
    c.sample(|| format!("a={} b={} moduli -20..{}", a, b, max));
}

fn composite_moduli(c: &mut Ctx) {
    let mut ms: Vec<i64> = vec![
        // Carmichael numbers
        561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
        // strong pseudoprimes to base 2, and to several bases
        2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751,
        1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
        9080191, 4759123141, 1122004669633, 3825123056546413051,
        // base 3
        121, 703, 1891, 3281, 8401, 8911,
        // products just above and below powers of two
        65535, 65536, 4294967295, 4294967296, 4294967297, 4294836225,
    ];
    for p in primes(2, 330) {
        ms.push(p * p);
        ms.push(p * p * p);
    }
    let ps = primes(2, 120);
    for w in ps.windows(2) {
        ms.push(w[0] * w[1]);
    }
    for m in ms {
        let l = || format!("EllipticCurve::new(1, 1, {})", m);
        c.refuses(l, || EllipticCurve::new(&bi(1), &bi(1), &bi(m)).points().len());
        c.state(&m);
    }
    for s in ["18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211456", "-7", "-18446744073709551557", "-18446744073709551609"] {
        let m = big(s);
        c.refuses(|| format!("EllipticCurve::new(1, 1, {})", s), || EllipticCurve::new(&bi(1), &bi(1), &m).points().len());
        c.state(s);
    }
    // a composite that equals a small prime once cut to 64 bits
    for p in [2i64, 3, 5, 7, 11, 13] {
        let m = two_pow(64) + bi(p);
        if (0..200i64).any(|d| d > 1 && md(&m, &bi(d)).is_zero()) {
            c.refuses(|| format!("EllipticCurve::new(1, 1, {})", m), || EllipticCurve::new(&bi(1), &bi(1), &m).points().len());
        }
        let m = -two_pow(64) + bi(p);
        c.refuses(|| format!("EllipticCurve::new(1, 1, {})", m), || EllipticCurve::new(&bi(1), &bi(1), &m).points().len());
    }
}

/// composites that are a small prime once cut to a machine word
fn wrapped_moduli(c: &mut Ctx) {
    for k in [8u32, 16, 24, 31, 32, 33, 48, 62, 63, 64, 65, 96, 127, 128, 256] {
        for p in primes(2, 60) {
            for m in [two_pow(k) + bi(p), -two_pow(k) + bi(p), two_pow(k) * bi(3) + bi(p), bi(p) * two_pow(k) + bi(p)] {
                if m < bi(2) || (2..400i64).any(|d| m > bi(d) && md(&m, &bi(d)).is_zero()) {
                    c.refuses(|| format!("EllipticCurve::new(2, 3, {})", m), || EllipticCurve::new(&bi(2), &bi(3), &m).points().len());
                    c.state(&m.to_string());
                }
            }
        }
    }
    c.sample(|| s_("composites congruent to a small prime modulo a power of two"));
}

/// points on and off the curve, coordinates and coefficients at word boundaries
fn wide_points(c: &mut Ctx, a: i64, b: i64, p: i64, ra: &BigInt, rb: &BigInt) {
    let e = EllipticCurve::new_raw(ra, rb, &bi(p));
    let h = (md(&(ra + rb * bi(7)), &bi(997))).to_string().parse::<usize>().unwrap();
    let good = (0..p * p).map(|i| (i / p, i % p)).find(|(x, y)| on(a, b, p, *x, *y));
    for x in 0..p {
        for y in 0..p {
            let q = crate::ec::wide_point(Some((x, y)), p, (h + (x * 31 + y * 17) as usize) % 192);
            let other = match good {
                Some((x, y)) => crate::ec::wide_point(Some((x, y)), p, (h * 5 + x as usize) % 192),
                None => ECPoint::infinity(),
            };
            for (s, t) in [(&q, &other), (&other, &q), (&q, &q)] {
                let l = || format!("{} + {} on y^2 = x^3 + {}x + {} over F_{}", s, t, ra, rb, p);
                c.state(&(x, y, h));
                if on(a, b, p, x, y) {
                    let r = c.call(l, || e.plus(s, t));
                    c.outcome(&(r.x.to_string(), r.y.to_string()));
                } else {
                    c.refuses(l, || e.plus(s, t));
                }
            }
        }
    }
}

fn on(a: i64, b: i64, p: i64, x: i64, y: i64) -> bool {
    (y * y - x * x * x - a * x - b).rem_euclid(p) == 0
}

fn points(c: &mut Ctx, a: i64, b: i64, p: i64) {
    let legal = p > 2 && SmallCurve::nonsingular(a, b, p);
    let raw = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
    let listed = EllipticCurve::new(&bi(a), &bi(b), &bi(p));
    let mut all: Vec<(Pt, ECPoint)> = vec![(None, ECPoint::infinity())];
    for x in 0..p {
        for y in 0..p {
            all.push((Some((x, y)), crate::ec::ecp(&bi(x), &bi(y))));
            let (k, l) = crate::ec::REPS[((x + 2 * y) % 5) as usize];
            if (k, l) != (0, 0) {
                all.push((Some((x, y)), crate::ec::ecp(&bi(x + k * p), &bi(y + l * p))));
            }
        }
    }
    let ok = |q: &Pt| match q {
        None => true,
        Some((x, y)) => on(a, b, p, *x, *y),
    };
    for (i, (q, ep)) in all.iter().enumerate() {
        for (k, (r, er)) in all.iter().enumerate() {
            let e = if (i + k) % 2 == 0 { &raw } else { &listed };
            let l = || format!("{} + {} on y^2 = x^3 + {}x + {} over F_{}", ep, er, a, b, p);
            c.state(&(i, k));
            if !ok(q) || !ok(r) {
                c.refuses(l, || e.plus(ep, er));
            } else if legal {
                let s = c.call(l, || e.plus(ep, er));
                c.outcome(&(s.x.to_string(), s.y.to_string()));
            }
        }
    }
    c.sample(|| format!("a={} b={} over F_{}: {} pairs", a, b, p, all.len() * all.len()));
}

fn big_points(c: &mut Ctx) {
    for bc in crate::ec::big_curves(Tier::Quick) {
        let (name, rc, base, _) = &bc;
        let e = EllipticCurve::new_raw(&rc.a, &rc.b, &rc.p);
        {
            let (x, y) = base.clone();
            let g = crate::ec::ecp(&x, &y);
            let mut offs: Vec<(BigInt, BigInt)> = Vec::new();
            for d in [1i64, -1, 2, 256, 1 << 32] {
                offs.push((x.clone(), &y + bi(d)));
                offs.push((&x + bi(d), y.clone()));
                offs.push((&x + bi(d), &y + bi(d)));
            }
            for k in [31u32, 32, 63, 64, 127, 128] {
                offs.push((x.clone(), &y + two_pow(k)));
                offs.push((&x + two_pow(k), y.clone()));
            }
            offs.push((y.clone(), x.clone()));
            offs.push((bi(0), bi(0)));
            offs.push((&rc.p - bi(1), bi(1)));
            for (a, b) in crate::ec::near_misses(&bc) {
                let e = EllipticCurve::new_raw(&a, &b, &rc.p);
                c.state(&(&a, &b));
                for (s, t) in [(&g, &ECPoint::infinity()), (&ECPoint::infinity(), &g), (&g, &g)] {
                    c.refuses(|| format!("{} + {} on a={} b={} p={}", s, t, a, b, rc.p), || e.plus(s, t));
                }
            }
            for (ox, oy) in offs {
                let bad = !md(&(&oy * &oy - &ox * &ox * &ox - &rc.a * &ox - &rc.b), &rc.p).is_zero();
                let o = crate::ec::ecp(&ox, &oy);
                c.state(&(name.as_str(), ox.to_string(), oy.to_string()));
                for (s, t) in [(&o, &g), (&g, &o), (&o, &o), (&o, &ECPoint::infinity()), (&ECPoint::infinity(), &o)] {
                    let l = || format!("{} + {} on {}", s, t, name);
                    if bad {
                        c.refuses(l, || e.plus(s, t));
                    } else {
                        c.call(l, || e.plus(s, t));
                    }
                }
            }
        }
    }
    c.sample(|| s_("secp256k1 and other large fields: neighbours of a point"));
}

fn quotients(c: &mut Ctx, tier: Tier) {
    let mut divs: Vec<RP> = all_polys(&[K1, KX, KY], 1);
    divs.extend(all_polys(&[KX, KQ, KQM], 1));
    divs.extend(polys_over(&[K1, KX2, KXY], &[bi(0), bi(2), two_pow(64)]));
    divs.push(RP::m(3, 0, 0, 7));
    let mut nums: Vec<RP> = all_polys(&[K1, KX, KXY], 1);
    nums.extend(all_polys(&[KQ, KQM], tier.pick(2, 3)));
    nums.push(RP::m(5, 1, 2, 12));
    for d in &divs {
        let dp = poly(d);
        for n in &nums {
            let np = poly(n);
            let l = || format!("({:?}) / ({:?})", n, d);
            c.state(&(n, d));
            if d.0.len() == 1 {
                // exact quotients are C09's business: it only has to be answered
                let (k, co) = d.0.iter().next().unwrap();
                let exact = n.0.values().all(|v| md(v, &co.clone()).is_zero());
                if exact && co > &bi(0) {
                    c.call(l, || &np / &dp);
                }
                let _ = k;
                continue;
            }
            c.refuses(l, || &np / &dp);
            c.refuses(|| format!("owned {}", l()), || np.clone() / dp.clone());
            c.refuses(|| format!("mixed {}", l()), || &np / dp.clone());
            c.refuses(|| format!("mixed {}", l()), || np.clone() / &dp);
            c.refuses(|| format!("in place {}", l()), || {
                let mut x = np.clone();
                x /= &dp;
                x
            });
            c.refuses(|| format!("in place, owned {}", l()), || {
                let mut x = np.clone();
                x /= dp.clone();
                x
            });
            if n.0.len() == 1 {
                let (k, co) = n.0.iter().next().unwrap();
                let t = term(k, co);
                c.refuses(|| format!("term {}", l()), || &t / &dp);
                c.refuses(|| format!("term, owned {}", l()), || t.clone() / dp.clone());
            }
        }
    }
    // division by the zero term, whatever exponents it carries
    for k in [K1, KX, KQ, KQM, KXY] {
        let z = term(&k, &bi(0));
        for n in &nums {
            let np = poly(n);
            let l = || format!("({:?}) / zero term {:?}", n, k);
            c.refuses(l, || &np / &z);
            c.refuses(l, || np.clone() / z.clone());
            c.refuses(|| format!("in place {}", l()), || {
                let mut x = np.clone();
                x /= &z;
                x
            });
            c.refuses(|| format!("in place, owned {}", l()), || {
                let mut x = np.clone();
                x /= z.clone();
                x
            });
            for (nk, co) in &n.0 {
                let t = term(nk, co);
                c.refuses(|| format!("term {:?} / zero term {:?}", nk, k), || &t / &z);
            }
        }
    }
    c.sample(|| format!("{} divisors, {} dividends", divs.len(), nums.len()));
}

fn powers(c: &mut Ctx, tier: Tier) {
    let mut ps: Vec<RP> = all_polys(&[K1, KX, KQ], 1);
    ps.push(RP::m(0, 0, 0, 2));
    ps.push(RP::m(0, 3, 0, -5));
    ps.extend(all_polys(&[KY, KQM], tier.pick(2, 4)));
    let mut ns: Vec<i32> = (1..=40).map(|n| -n).collect();
    ns.extend([-64, -127, -128, -255, -256, -65536, i32::MIN, i32::MIN + 1, i32::MIN / 2]);
    for r in &ps {
        let p = poly(r);
        for n in &ns {
            let l = || format!("({:?})^({})", r, n);
            c.state(&(r, n));
            c.refuses(l, || p.power(*n));
            let b = BigInt::from(*n);
            c.refuses(l, || p.power(&b));
            c.refuses(l, || p.power(b.clone()));
        }
        for b in [-two_pow(32), -two_pow(64), -two_pow(128) - bi(1), -two_pow(64) + bi(3), -two_pow(32) + bi(2)] {
            c.refuses(|| format!("({:?})^({})", r, b), || p.power(&b));
            c.refuses(|| format!("({:?})^({})", r, b), || p.power(b.clone()));
        }
        for n in 0..4i32 {
            let l = || format!("({:?})^{}", r, n);
            let g = c.call(l, || p.power(n));
            same(c, l, &g, &r.pow(n as u32));
        }
    }
    c.sample(|| format!("{} polynomials, {} exponents", ps.len(), ns.len()));
}

fn variables(c: &mut Ctx, tier: Tier) {
    let mut vs: Vec<Option<(i32, i32)>> = vec![None];
    let m = tier.pick(5, 7);
    for i in 0..=m {
        for j in 0..=m {
            vs.push(Some((i, j)));
        }
    }
    let exps = [(0, 0, 0), (1, 0, 0), (0, 1, -1), (2, 1, 3)];
    for a in &vs {
        for b in &vs {
            for e in &exps {
                for f in &exps {
                    for (ca, cb) in [(1i64, 1i64), (-3, 2), (0, 1), (1, 0)] {
                        let (ka, kb) = ((e.0, e.1, e.2, *a), (f.0, f.1, f.2, *b));
                        let (ta, tb) = (term(&ka, &bi(ca)), term(&kb, &bi(cb)));
                        let l = || format!("{}{:?} * {}{:?}", ca, ka, cb, kb);
                        c.state(&(ka, kb, ca, cb));
                        if a.is_some() && b.is_some() {
                            c.refuses(l, || &ta * &tb);
                            c.refuses(l, || ta.clone() * tb.clone());
                        } else {
                            c.call(l, || &ta * &tb);
                        }
                    }
                }
            }
        }
    }
    // inside polynomial products and powers
    let ks = [K1, KX, KV, (1, 0, 0, Some((0, 1))), (0, 0, 0, Some((1, 1)))];
    let ps = all_polys(&ks, 1);
    let has = |r: &RP| r.0.keys().any(|k| k.3.is_some());
    for (i, r) in ps.iter().enumerate() {
        let p = poly(r);
        for (j, s) in ps.iter().enumerate() {
            if tier == Tier::Quick && (i + j) % 3 != 0 {
                continue;
            }
            let q = poly(s);
            let l = || format!("({:?}) * ({:?})", r, s);
            c.state(&(r, s));
            if has(r) && has(s) {
                c.refuses(l, || &p * &q);
                c.refuses(|| format!("in place {}", l()), || {
                    let mut x = p.clone();
                    x *= &q;
                    x
                });
            }
        }
        if has(r) {
            let l = || format!("({:?})^2", r);
            c.refuses(l, || p.power(2));
            c.refuses(l, || p.power(&bi(2)));
            c.refuses(l, || p.square());
            c.refuses(|| format!("({:?})^3", r), || p.cube());
            for (k, co) in &r.0 {
                if k.3.is_some() {
                    let t = term(k, co);
                    c.refuses(|| format!("term {:?} squared", k), || t.power(2));
                    c.refuses(|| format!("({:?}) * term {:?}", r, k), || &p * &t);
                    c.refuses(|| format!("term {:?} * ({:?})", k, r), || &t * &p);
                }
            }
        }
    }
    c.sample(|| format!("{} variables, {} polynomials", vs.len(), ps.len()));
}

fn inverses(c: &mut Ctx) {
    let mut ms: Vec<BigInt> = (-40..=1).map(bi).collect();
    for k in [8u32, 16, 31, 32, 33, 63, 64, 65, 128, 256] {
        for d in -3..=7 {
            ms.push(-two_pow(k) + bi(d));
        }
    }
    let mut vals: Vec<BigInt> = (-12..=12).map(bi).collect();
    vals.extend(some_ints());
    for m in &ms {
        for a in &vals {
            c.refuses(|| format!("inverse of {} modulo {}", a, m), || a.inverse(m));
            c.state(&(a.to_string(), m.to_string()));
        }
    }
    for p in primes(2, 60) {
        for a in 1..p {
            let g = c.call(|| format!("inverse of {} modulo {}", a, p), || bi(a).inverse(&bi(p)));
            c.outcome(&g.to_string());
        }
    }
    c.sample(|| format!("{} moduli below 2, {} values", ms.len(), vals.len()));
}

fn indices(c: &mut Ctx, tier: Tier) {
    let mut bad: Vec<i32> = (-20..=tier.pick(300, 600)).filter(|n| *n < 2 || !is_prime(*n as u64)).collect();
    bad.extend([561, 1105, 1729, 2047, 2821, 3277, 10585, 65536, 1373653, 25326001, i32::MIN, i32::MIN + 1, -1000000007, 2147483646, 46340 * 46340, 46337 * 46337]);
    for n in &bad {
        let n = *n;
        c.refuses(|| format!("subscripted_variable_modular_polynomial({})", n), || mp::subscripted_variable_modular_polynomial(n).terms.len());
        c.refuses(|| format!("subscripted_variable_modular_polynomial_q({})", n), || mp::subscripted_variable_modular_polynomial_q(n).terms.len());
        c.refuses(|| format!("subscripted_variable_modular_polynomial_list({})", n), || mp::subscripted_variable_modular_polynomial_list(n).len());
        c.refuses(|| format!("modular_polynomial({})", n), || mp::modular_polynomial(n).terms.len());
        c.state(&n);
    }
    // ... and through the step that uses it
    let e = EllipticCurve::new_raw(&bi(1), &bi(7), &bi(23));
    for n in bad.iter().take(60) {
        let n = *n;
        c.refuses(|| format!("sea of a=1 b=7 over F_23, level {}", n), || ellipticcurve::schoof_elkies_atkins::sea(&e, n).degree_of_gcd);
    }
    for p in primes(2, 23) {
        let g = c.call(|| format!("subscripted_variable_modular_polynomial({})", p), || mp::subscripted_variable_modular_polynomial(p as i32));
        c.outcome(&g.terms.len());
    }
    for p in [2, 3] {
        c.call(|| format!("modular_polynomial({})", p), || mp::modular_polynomial(p));
        c.call(|| format!("subscripted_variable_modular_polynomial_list({})", p), || mp::subscripted_variable_modular_polynomial_list(p));
    }
    c.sample(|| format!("{} non-prime indices", bad.len()));
}

fn division_index(c: &mut Ctx) {
    let mut ns: Vec<i32> = (1..=60).map(|n| -n).collect();
    ns.extend([-127, -128, -129, -255, -256, -257, -65535, -65536, i32::MIN, i32::MIN + 1, i32::MIN + 2]);
    for (a, b) in [(0i64, 0i64), (1, 1), (-3, 5), (0, 2), (7, 0)] {
        for n in &ns {
            let n = *n;
            c.refuses(|| format!("psi({}, {}, {})", a, b, n), || division_polynomial::psi(&bi(a), &bi(b), n));
            c.refuses(|| format!("phi({}, {}, {})", a, b, n), || division_polynomial::phi(&bi(a), &bi(b), n));
            c.refuses(|| format!("omega({}, {}, {})", a, b, n), || division_polynomial::omega(&bi(a), &bi(b), n));
            c.state(&(a, b, n));
        }
        for n in 1..8 {
            c.call(|| format!("psi({}, {}, {})", a, b, n), || division_polynomial::psi(&bi(a), &bi(b), n));
            let g = c.call(|| format!("phi({}, {}, {})", a, b, n), || division_polynomial::phi(&bi(a), &bi(b), n));
            c.call(|| format!("omega({}, {}, {})", a, b, n), || division_polynomial::omega(&bi(a), &bi(b), n));
            c.outcome(&g.to_string());
        }
    }
    c.sample(|| format!("{} negative indices", ns.len()));
}

/// every r x k coefficient matrix in [-b,b] of deficient rank with this first row, every right-hand side pattern
fn systems(c: &mut Ctx, r: usize, k: usize, b: i64, first: &[i64]) {
    let rest = boxed(k * (r - 1), b);
    let rhs: Vec<Vec<i64>> = vec![vec![0; r], vec![1; r], (0..r as i64).collect(), (0..r as i64).map(|i| 5 - 3 * i).collect()];
    let firsts: Vec<Vec<i64>> = if r == 1 { boxed(k, b) } else { vec![first.to_vec()] };
    let mut refused = 0;
    for f in &firsts {
        for t in &rest {
            let mut rows: Vec<Vec<BigInt>> = vec![f.iter().map(|x| bi(*x)).collect()];
            for i in 0..r - 1 {
                rows.push(t[i * k..(i + 1) * k].iter().map(|x| bi(*x)).collect());
            }
            if rank(&rows) == k {
                continue;
            }
            // consistent right-hand sides, and arbitrary ones
            let mut hs = rhs.clone();
            for x in [vec![1i64; k], (1..=k as i64).collect::<Vec<i64>>()] {
                hs.push(rows.iter().map(|w| w.iter().zip(&x).map(|(u, v)| u.to_i64().unwrap() * v).sum()).collect());
            }
            for h in &hs {
                let m: Vec<Vec<BigInt>> = rows
                    .iter()
                    .zip(h)
                    .map(|(w, h)| {
                        let mut w = w.clone();
                        w.push(bi(*h));
                        w
                    })
                    .collect();
                let l = || format!("solve {:?}", m.iter().map(|w| w.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>());
                c.refuses(l, || simultaneous_equation::solve(&m));
                refused += 1;
            }
            c.state(&(f, t));
        }
    }
    c.outcome(&(r, k, refused));
    if refused > 0 {
        c.sample(|| format!("{}x{} systems with first row {:?}: {} refused", r, k, first, refused));
    }
}

/// larger systems: a full-rank matrix with one column or row combined from others
fn deficient(c: &mut Ctx) {
    for n in 2..=7usize {
        for extra in 0..=2usize {
            let base: Vec<Vec<BigInt>> = (0..n + extra).map(|i| (0..n).map(|j| bi(mix(i as u64 * 31 + n as u64, j as u64) % 7)).collect()).collect();
            for dead in 0..n {
                for how in 0..4 {
                    let mut m = base.clone();
                    for row in m.iter_mut() {
                        let o = row[(dead + 1) % n].clone();
                        let o2 = row[(dead + n - 1) % n].clone();
                        row[dead] = match how {
                            0 => bi(0),
                            1 => o,
                            2 => -o * bi(3),
                            _ => o + o2,
                        };
                    }
                    let full: Vec<Vec<BigInt>> = m
                        .iter()
                        .map(|w| {
                            let mut s = BigInt::zero();
                            for (j, x) in w.iter().enumerate() {
                                s += x * bi(j as i64 - 2);
                            }
                            let mut w = w.clone();
                            w.push(s);
                            w
                        })
                        .collect();
                    let l = || format!("solve {:?}", full.iter().map(|w| w.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>());
                    c.state(&(n, extra, dead, how));
                    c.refuses(l, || simultaneous_equation::solve(&full));
                }
            }
            // too few equations
            for rows in 1..n {
                let m: Vec<Vec<BigInt>> = (0..rows)
                    .map(|i| {
                        let mut w = base[i].clone();
                        w.push(bi(i as i64));
                        w
                    })
                    .collect();
                let l = || format!("solve {} equations in {} unknowns", rows, n);
                c.refuses(l, || simultaneous_equation::solve(&m));
                c.state(&(n, extra, rows));
            }
        }
    }
    c.sample(|| s_("systems up to 7 unknowns with a dependent column, or too few rows"));
}

fn remainders(c: &mut Ctx, p: i64, tier: Tier) {
    let bp = bi(p);
    // divisors that vanish modulo p
    let mut zs: Vec<RP> = vec![RP::zero()];
    for v in vectors(3, 3) {
        let r = dense_to_rp(&dense(&v)).scale(&bp);
        zs.push(r);
        zs.push(dense_to_rp(&dense(&v)).scale(&-(&bp * two_pow(40))));
    }
    let nums: Vec<RP> = vectors(tier.pick(3, 4), p.min(5)).iter().map(|v| dense_to_rp(&dense(v))).chain([RP::m(9, 0, 0, 1), RP::m(2, 1, 0, 1), RP::m(0, 1, 0, 1), RP::zero()]).collect();
    for z in &zs {
        let zp = poly(z);
        for n in &nums {
            let np = poly(n);
            c.refuses(|| format!("({:?}) mod ({:?}) over F_{}", n, z, p), || np.polynomial_modular(&zp, &bp));
            c.state(&(n, z));
        }
    }
    for n in &nums {
        let np = poly(n);
        for d in [RP::one(), RP::m(1, 0, 0, 1), RP::m(2, 0, 0, 1).add(&RP::one())] {
            let g = c.call(|| format!("({:?}) mod ({:?}) over F_{}", n, d, p), || np.polynomial_modular(&poly(&d), &bp));
            c.outcome(&g.to_string());
        }
    }
    c.sample(|| format!("F_{}: {} divisors that vanish, {} dividends", p, zs.len(), nums.len()));
}

fn scalars(c: &mut Ctx, tier: Tier) {
    let mut ps = all_polys(&[K1, KX, KY, KQ, KV], tier.pick(2, 3));
    ps.extend(all_polys(&[K1, KQM, (0, 0, 0, Some((2, 3)))], 3));
    for k in [(1, 0, 0, None), (0, 1, 0, None), (0, 0, 1, None), (0, 0, -1, None), (3, 2, 1, None), (0, 0, 0, Some((0, 0))), (0, 0, 0, Some((1, 4))), (-1, 0, 0, None), (0, -2, 0, None), (1, 0, 0, Some((0, 1)))] {
        for x in some_ints() {
            ps.push(RP::mono(k, x));
        }
    }
    for x in edge_ints() {
        ps.push(RP::c(x));
    }
    for r in &ps {
        let p = poly(r);
        let l = || format!("({:?}) as a scalar", r);
        c.state(r);
        if r.0.keys().all(|k| *k == K1) {
            let g = c.call(l, || p.to_scalar());
            let want = r.0.get(&K1).cloned().unwrap_or_else(BigInt::zero);
            c.eq(l, &g, &want);
            c.outcome(&g.to_string());
        } else {
            c.refuses(l, || p.to_scalar());
        }
    }
    let _ = BigInt::one();
    c.sample(|| format!("{} polynomials", ps.len()));
}
