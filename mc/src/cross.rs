//! C29: isogenies, modular polynomials and point counts agree with each other

use crate::engine::*;
use crate::mf::per_j;
use crate::refm::*;
use ellipticcurve::elliptic_curve::EllipticCurve;
use ellipticcurve::modular_polynomial as mp;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::schoof_elkies_atkins::sea;
use num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};

pub static C29: Prop = Prop {
    id: "C29",
    space: "levels 2 and 3 (every nonsingular curve over every F_p with 5 <= p <= the bound, one per j-invariant and number of points over larger fields, a few with p to 1009) and level 5 (one curve per j-invariant and number of points; level 7 thorough only): for each curve the quotients by its rational l-division points, their j-invariants in the computed modular polynomial in both orders, the SEA step on the curve and on the quotient, and the Elkies flag against the number of listed points. A state is a (curve, level), a trace one comparison between two parts of the library.",
    assumptions: &["for the flag: ordinary curves with j not 0 or 1728, l different from p"],
    hang: (120, 600),
    units: c29_units,
};

fn c29_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    if tier == Tier::Thorough {
        v.push(unit(String::from("level 7"), |c| {
            let m = modular(c, 7);
            for p in primes(5, 97) {
                for (a, b) in per_j_and_count(p) {
                    related(c, a, b, p, 7, &m, false);
                }
            }
        }));
    }
    // quotients of degree 5
    for p in primes(5, tier.pick(61, 151)).into_iter().rev() {
        v.push(unit(format!("level 5, F_{}", p), move |c| {
            let m = modular(c, 5);
            let mut steps = tier.pick(2, 12);
            for (a, b) in per_j_and_count(p) {
                let deg5 = SmallCurve::new(a, b, p).pts.len() % 5 == 0;
                let step = deg5 && steps > 0;
                if step {
                    steps -= 1;
                }
                related(c, a, b, p, 5, &m, step);
            }
        }));
    }
    for p in primes(5, tier.pick(17, 37)) {
        v.push(unit(format!("levels 2 and 3, F_{}", p), move |c| {
            for l in [2, 3] {
                let m = modular(c, l);
                for (a, b) in curves(p) {
                    related(c, a, b, p, l, &m, true);
                }
            }
        }));
    }
    for p in tier.pick(vec![19i64, 23, 29, 31, 37, 41, 61, 101], primes(38, 200)) {
        v.push(unit(format!("levels 2 and 3, F_{}, one curve per j and number of points", p), move |c| {
            for l in [2, 3] {
                let m = modular(c, l);
                for (a, b) in per_j_and_count(p) {
                    related(c, a, b, p, l, &m, true);
                }
            }
        }));
    }
    for p in tier.pick(vec![257i64, 509], vec![257, 509, 521, 1009]) {
        for a in 1..=tier.pick(2, 6) {
            v.push(unit(format!("levels 2, 3, 5, F_{} a={}", p, a), move |c| {
                for l in [2, 3, 5] {
                    let m = modular(c, l);
                    for b in 1..=6 {
                        if SmallCurve::nonsingular(a, b, p) {
                            related(c, a, b, p, l, &m, l < 5);
                        }
                    }
                }
            }));
        }
    }
    v
}

/// the first curve of every (j-invariant, number of points)
fn per_j_and_count(p: i64) -> Vec<(i64, i64)> {
    let mut out = per_j(p);
    // the quadratic twists
    let d = (2..p).find(|d| (1..p).all(|x| (x * x - d) % p != 0)).unwrap();
    for (a, b) in out.clone() {
        out.push((a * d % p * d % p, b * d % p * d % p * d % p));
    }
    out
}

fn modular(c: &mut Ctx, l: i32) -> Polynomial {
    let m = c.call(|| format!("modular_polynomial({})", l), || mp::modular_polynomial(l));
    c.check(!m.is_zero(), || format!("modular_polynomial({}) is zero", l));
    m
}

fn related(c: &mut Ctx, a: i64, b: i64, p: i64, l: i32, m: &Polynomial, step: bool) {
    let pp = bi(p);
    let name = format!("a={} b={} p={}", a, b, p);
    let e = c.call(|| name.clone(), || EllipticCurve::new(&bi(a), &bi(b), &pp));
    let j = c.call(|| format!("j of {}", name), || e.j_invariant());
    let n = e.cardinality() as i64;
    let kernel = c.call(|| format!("{}-division points of {}", l, name), || e.division_points(&bi(l as i64)).len());
    if p < 60 {
        let t = SmallCurve::new(a, b, p);
        let k = t.pts.iter().filter(|q| t.mul(**q, l as i64).is_none()).count();
        c.check(kernel == k && n as usize == t.pts.len(), || format!("{}: {} points, {} of them killed by {}; by count {} and {}", name, n, kernel, l, t.pts.len(), k));
    }
    let q = c.call(|| format!("quotient of {} by its {}-division points", name, l), || e.isogeny(&bi(l as i64)));
    let k = c.call(|| format!("j of the quotient of {} by its {}-division points", name, l), || q.j_invariant());
    c.check(q.cardinality() as i64 == n, || format!("{} has {} points, its quotient by its {}-division points {}", name, n, l, q.cardinality()));
    let what = || format!("{} has j={}, its quotient by the {} rational {}-division points has j={}", name, j, kernel, l, k);
    if kernel as i32 == l {
        for (x, y) in [(&j, &k), (&k, &j)] {
            let z = c.call(|| format!("Phi_{}({}, {})", l, x, y), || m.eval_xy(x, y));
            c.check(md(&z, &pp).is_zero(), || format!("{}; Phi_{}({}, {}) = {} is not 0 mod {}", what(), l, x, y, md(&z, &pp), p));
            c.trace();
        }
    } else {
        // nothing, or multiplication by l
        c.check(j == k, || format!("{}, the j-invariants differ", what()));
        c.trace();
    }
    c.state(&(p, a, b, l));
    c.outcome(&(p, l, &j, &k, n));
    if !step {
        return;
    }
    for (curve, cn, x, y) in [(&e, &name, &j, &k), (&q, &what(), &k, &j)] {
        let r = c.call(|| format!("sea of {}, level {}", cn, l), || sea(curve, l));
        let shown = || format!("sea of {} at level {}: gcd {}, degree {}, Elkies {}, j-invariants {:?}", cn, l, r.gcd, r.degree_of_gcd, r.is_elkies_prime, r.isogeny_j_invariants);
        if kernel >= l as usize {
            c.check(r.is_elkies_prime, || format!("{}; but {} rational points are killed by {}", shown(), kernel, l));
        }
        if kernel as i32 == l {
            let z = c.call(|| format!("gcd of {} at {}", cn, y), || r.gcd.eval_x(y).to_scalar());
            c.check(md(&z, &pp).is_zero(), || format!("{}; the isogenous j-invariant {} is no root", shown(), y));
            if r.degree_of_gcd <= 2 {
                c.check(r.isogeny_j_invariants.contains(y), || format!("{}; the isogenous j-invariant {} is not listed", shown(), y));
            }
        }
        // ordinary, j not 0 or 1728: an isogeny of degree l exactly when x^2 - t x + p has a root mod l
        let t = p + 1 - n;
        if t != 0 && !x.is_zero() && *x != md(&bi(1728), &pp) && l as i64 != p {
            let l = l as i64;
            let root = (0..l).any(|x| (x * x - t * x + p).rem_euclid(l) == 0);
            c.check(r.is_elkies_prime == root, || format!("{}; the trace is {}", shown(), t));
            c.trace();
        }
        // every listed j-invariant is an isogenous one
        for i in &r.isogeny_j_invariants {
            let z: BigInt = c.call(|| format!("Phi_{}({}, {})", l, i, x), || m.eval_xy(i, x));
            c.check(md(&z, &pp).is_zero(), || format!("{}; Phi({}, {}) is not 0", shown(), i, x));
        }
        c.check(r.isogeny_j_invariants.len() == r.degree_of_gcd.min(2) as usize, shown);
        c.outcome(&(r.degree_of_gcd, r.isogeny_j_invariants.iter().map(|i| i.to_i64()).collect::<Vec<_>>()));
        c.trace();
    }
    c.sample(what);
}
