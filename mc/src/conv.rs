//! Bridge between the reference polynomials and the crate's, and the structured value sets.

use crate::engine::*;
use crate::refm::*;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use ellipticcurve::term::Term;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use num_traits::Zero;

pub fn sv(v: Option<(i32, i32)>) -> SubscriptedVariable {
    match v {
        None => SubscriptedVariable::new(),
        Some((i, j)) => SubscriptedVariable { i, j, empty: false },
    }
}

pub fn key_var(v: &SubscriptedVariable) -> Option<(i32, i32)> {
    if v.empty { None } else { Some((v.i, v.j)) }
}

pub fn term(k: &Key, c: &BigInt) -> Term {
    TermBuilder::new().coef(c).xpow(k.0).ypow(k.1).qpow(k.2).variable(sv(k.3)).build()
}

pub fn term_key(t: &Term) -> Key {
    (t.monomial.xpow, t.monomial.ypow, t.monomial.qpow, key_var(&t.monomial.variable))
}

/// builds the crate's polynomial term by term, without using its arithmetic
pub fn poly(r: &RP) -> Polynomial {
    let mut p = Polynomial::new();
    for (k, c) in &r.0 {
        let t = term(k, c);
        p.terms.insert(t.monomial, t.coef);
    }
    p
}

/// the value of the crate's polynomial; an error if it is not in canonical form
pub fn rp(p: &Polynomial) -> Result<RP, String> {
    let mut r = RP::zero();
    for (m, c) in &p.terms {
        if c.is_zero() {
            return Err(format!("{:?} holds a zero term", p));
        }
        let k = (m.xpow, m.ypow, m.qpow, key_var(&m.variable));
        if r.0.insert(k, c.clone()).is_some() {
            return Err(format!("{:?} holds a monomial twice", p));
        }
    }
    Ok(r)
}

/// the polynomial must be canonical and equal the model
pub fn same<L: FnOnce() -> String>(c: &mut Ctx, label: L, got: &Polynomial, want: &RP) {
    match rp(got) {
        Err(e) => {
            let s = format!("{}: {}", label(), e);
            c.fail(s)
        }
        Ok(g) => {
            if &g != want {
                let s = format!("{}: got {:?}, expected {:?}", label(), g, want);
                c.fail(s)
            }
        }
    }
}

/// the borrowed operand must be what it was
pub fn intact(c: &mut Ctx, what: &str, now: &Polynomial, before: &RP) {
    match rp(now) {
        Ok(g) if &g == before => {}
        _ => c.fail(format!("{}: a borrowed operand changed from {:?} to {:?}", what, before, now)),
    }
}

pub fn same_term<L: FnOnce() -> String>(c: &mut Ctx, label: L, got: &Term, k: &Key, coef: &BigInt) {
    if &term_key(got) != k || &got.coef != coef {
        let s = format!("{}: got ({}) at {:?}, expected ({}) at {:?}", label(), got.coef, term_key(got), coef, k);
        c.fail(s)
    }
}

// ---------------------------------------------------------------------------------------------
// structured values

/// 0, +-1, ... and the values around the word boundaries, both signs
pub fn edge_ints() -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![bi(0), bi(1), bi(2), bi(3), bi(7), bi(10), bi(24), bi(99), bi(1000)];
    for k in [7u32, 8, 15, 16, 30, 31, 32, 33, 53, 62, 63, 64, 65, 96, 127, 128, 129, 255, 256] {
        for d in -1..=1 {
            v.push(two_pow(k) + bi(d));
        }
    }
    let neg: Vec<BigInt> = v.iter().skip(1).map(|x| -x).collect();
    v.extend(neg);
    v
}

/// fewer of them
pub fn some_ints() -> Vec<BigInt> {
    let mut v: Vec<BigInt> = vec![bi(0), bi(1), bi(2), bi(5), bi(12)];
    for k in [8u32, 16, 31, 32, 63, 64, 128, 256] {
        v.push(two_pow(k) - bi(1));
        v.push(two_pow(k));
        v.push(two_pow(k) + bi(1));
    }
    let neg: Vec<BigInt> = v.iter().skip(1).map(|x| -x).collect();
    v.extend(neg);
    v
}

pub fn big_primes() -> Vec<BigInt> {
    vec![
        bi(65537),
        bi(2147483647),
        bi(2147483659),
        bi(4294967291),
        bi(4294967311),
        two_pow(61) - bi(1),
        big("18446744073709551557"),
        big("18446744073709551629"),
        two_pow(89) - bi(1),
        two_pow(127) - bi(1),
        two_pow(255) - bi(19),
        two_pow(256) - two_pow(32) - bi(977),
        two_pow(521) - bi(1),
        // next to the widths and square roots of widths at which word arithmetic would overflow
        bi(251),
        bi(46337),
        bi(46349),
        bi(65521),
        bi(2097143),
        bi(3037000493),
        bi(3037000507),
        two_pow(63) - bi(25),
        two_pow(63) + bi(29),
        two_pow(128) - bi(159),
        two_pow(128) + bi(51),
    ]
}

/// all polynomials over the given monomials with coefficients in [-c, c]
pub fn all_polys(keys: &[Key], c: i64) -> Vec<RP> {
    let mut v = vec![RP::zero()];
    for k in keys {
        let mut w = Vec::new();
        for p in &v {
            for a in -c..=c {
                let mut q = p.clone();
                q.put(*k, bi(a));
                w.push(q);
            }
        }
        v = w;
    }
    v
}

/// all polynomials over the monomials with coefficients from a list
pub fn polys_over(keys: &[Key], cs: &[BigInt]) -> Vec<RP> {
    let mut v = vec![RP::zero()];
    for k in keys {
        let mut w = Vec::new();
        for p in &v {
            for a in cs {
                let mut q = p.clone();
                q.put(*k, a.clone());
                w.push(q);
            }
        }
        v = w;
    }
    v
}

/// deterministic "irregular" value, for long structured inputs (a fixed part of the space)
pub fn mix(i: u64, j: u64) -> i64 {
    let mut z = (i.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(j.wrapping_mul(0xBF58476D1CE4E5B9)).wrapping_add(0x1234567);
    z ^= z >> 30;
    z = z.wrapping_mul(0xBF58476D1CE4E5B9);
    z ^= z >> 27;
    z = z.wrapping_mul(0x94D049BB133111EB);
    z ^= z >> 31;
    (z % 2001) as i64 - 1000
}

/// every key of a product grid
pub fn key_grid(xs: &[i32], ys: &[i32], qs: &[i32], vars: &[Option<(i32, i32)>]) -> Vec<Key> {
    let mut v = Vec::new();
    for x in xs {
        for y in ys {
            for q in qs {
                for w in vars {
                    v.push((*x, *y, *q, *w));
                }
            }
        }
    }
    v
}

/// every polynomial with exactly n terms on the given monomials, for each n in 1..=max, once with each
/// of the coefficient patterns (the i-th term of a polynomial takes the i-th entry)
pub fn subsets(keys: &[Key], first: usize, max: usize, pats: &[Vec<BigInt>], f: &mut dyn FnMut(&RP)) {
    fn go(keys: &[Key], at: usize, max: usize, pats: &[Vec<BigInt>], cur: &mut Vec<Key>, f: &mut dyn FnMut(&RP)) {
        for p in pats {
            let mut r = RP::zero();
            for (i, k) in cur.iter().enumerate() {
                r.put(*k, p[i % p.len()].clone());
            }
            f(&r);
        }
        if cur.len() == max {
            return;
        }
        for i in at..keys.len() {
            cur.push(keys[i]);
            go(keys, i + 1, max, pats, cur, f);
            cur.pop();
        }
    }
    let mut cur = vec![keys[first]];
    go(keys, first + 1, max, pats, &mut cur, f);
}

/// the usual coefficient patterns: equal, cancelling, irregular
pub fn patterns() -> Vec<Vec<BigInt>> {
    vec![vec![bi(1)], vec![bi(1), bi(-1), bi(2)], vec![bi(-6), two_pow(64), bi(5), bi(-1)]]
}

/// units that run `f` on every sparse polynomial over the grid
pub fn sparse_units<F>(v: &mut Vec<Unit>, name: &str, keys: Vec<Key>, max: usize, pats: Vec<Vec<BigInt>>, f: F)
where
    F: Fn(&mut Ctx, &RP) + Send + Sync + Clone + 'static,
{
    // the first keys have the most subsets: deal them out one per unit, simplest first
    for i in (0..keys.len()).rev() {
        let (keys, pats, f) = (keys.clone(), pats.clone(), f.clone());
        v.push(unit(format!("{}: up to {} terms, the first at {:?}", name, max, keys[i]), move |c| {
            let mut n = 0u64;
            subsets(&keys, i, max, &pats, &mut |r| {
                n += 1;
                f(c, r)
            });
            c.sample(|| format!("{} polynomials of up to {} terms from {:?}", n, max, keys[i]));
        }));
    }
}

/// exponents next to these values, at which packed or narrow exponent representations overflow
pub const WIDE_EXP: [i32; 9] = [60, 124, 252, 1020, 32760, 65530, 1 << 20, (1 << 24) - 4, (1 << 29) - 4];

/// polynomials of 1 to 40 terms with exponents around `base` on one variable or on all three; every
/// second one has half of its terms near zero
pub fn wide_exponents(base: i32) -> Vec<(char, RP)> {
    let mut v = Vec::new();
    for axis in ['x', 'y', 'q', 'a'] {
        for n in [1, 3, 9, 40] {
            for split in [false, true] {
                let mut r = RP::zero();
                for i in 0..n {
                    let e = if split && i % 2 == 0 { i } else { base + i };
                    let k = match axis {
                        'x' => (e, i % 3, i % 2, None),
                        'y' => (i % 3, e, i % 2, None),
                        'q' => (i % 2, i % 3, e, None),
                        _ => (e, base + n - i, if i % 3 == 0 { 1 } else { base + i / 2 }, None),
                    };
                    r.put(k, bi(mix(i as u64, base as u64) | 1));
                }
                v.push((axis, r));
            }
        }
    }
    v
}

/// one unit per exponent up to the bound: f on each of its polynomials
pub fn wide_exp_units<F>(v: &mut Vec<Unit>, max: i32, f: F)
where
    F: Fn(&mut Ctx, i32, char, &RP) + Send + Sync + Clone + 'static,
{
    for base in WIDE_EXP {
        if base <= max {
            let f = f.clone();
            v.push(unit(format!("exponents around {}", base), move |c| {
                for (axis, r) in wide_exponents(base) {
                    f(c, base, axis, &r);
                    c.state(&r);
                }
            }));
        }
    }
}
