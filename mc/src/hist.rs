//! C25: histories of calls.  Every history runs in a process of its own, forked from one that has
//! never called the crate; the oracle for a call is its result as the only call of such a process.

use crate::engine::*;
use crate::refm::*;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, ECPointVec, EllipticCurve};
use ellipticcurve::modular_polynomial as mp;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::secp256k1::Secp256k1;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{delta, division_polynomial as dp, divisor, eisenstein, j_invariant, schoof, schoof_elkies_atkins, simultaneous_equation};
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};

pub static C25: Prop = Prop {
    id: "C25",
    space: "an alphabet of calls covering every public computation, each in several variants whose arguments differ in one position (neighbours, signs, swaps, digits moved between arguments, differences of 2^32 and 2^64): every call alone (twice), every ordered pair within a family and with the first calls of every other family (thorough: every ordered pair, and every triple of first calls), every triple within windows of a family, each in a fresh process; every pair of the alphabet in one long history and every triple of a family in one long history; sweeps over many distinct arguments repeated forwards and backwards; every sequence of methods up to the bound on one shared object. A state is a history, a transition one call, a trace one history whose every result equals that of a fresh process.",
    assumptions: &["a process forked before the first call into the crate stands for a fresh process"],
    hang: (600, 3000),
    units: c25_units,
};

// ------------------------------------------------------------------------------- the alphabet

pub struct Call {
    family: &'static str,
    name: String,
    /// too expensive for the large products
    slow: bool,
    run: Box<dyn Fn() -> String + Send + Sync>,
}

fn show<T: Debug>(t: &T) -> String {
    format!("{:?}", t)
}

/// runs f on borrowed arguments and reports if one of them changed
fn keep<A: Debug, T: Debug, F: Fn(&A) -> T>(a: A, f: F) -> String {
    let before = show(&a);
    let r = show(&f(&a));
    let after = show(&a);
    if before != after {
        return format!("!!borrowed argument changed from {} to {}", before, after);
    }
    r
}

struct Al {
    v: Vec<Call>,
}

impl Al {
    fn add<F: Fn() -> String + Send + Sync + 'static>(&mut self, family: &'static str, name: String, f: F) {
        self.v.push(Call { family, name, slow: false, run: Box::new(f) });
    }
    fn slow<F: Fn() -> String + Send + Sync + 'static>(&mut self, family: &'static str, name: String, f: F) {
        self.v.push(Call { family, name, slow: true, run: Box::new(f) });
    }
}

/// built from its fields: nothing of the crate runs before the first call of a history
fn t(c: i64, x: i32, y: i32, q: i32) -> Term {
    let variable = SubscriptedVariable { i: 0, j: 0, empty: true };
    Term { coef: bi(c), monomial: Monomial { xpow: x, ypow: y, qpow: q, variable } }
}

fn pol(ts: &[(i64, i32, i32, i32)]) -> Polynomial {
    let mut p = Polynomial { terms: BTreeMap::new() };
    for (c, x, y, q) in ts {
        let u = t(*c, *x, *y, *q);
        p.terms.insert(u.monomial, u.coef);
    }
    p
}

fn sea_text(a: i64, b: i64, p: i64, l: i32) -> String {
    let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
    keep(e, |e| {
        let r = schoof_elkies_atkins::sea(e, l);
        (r.gcd, r.degree_of_gcd, r.is_elkies_prime, r.isogeny_j_invariants)
    })
}

fn pts(v: ECPointVec) -> Vec<ECPoint> {
    v.into()
}

pub fn alphabet() -> Vec<Call> {
    let mut al = Al { v: Vec::new() };
    let w32 = 1i64 << 32;
    let w64 = two_pow(64);
    // division polynomials
    let ab: Vec<(BigInt, BigInt)> = vec![
        (bi(2), bi(3)),
        (bi(3), bi(2)),
        (bi(-2), bi(3)),
        (bi(2), bi(-3)),
        (bi(2) + bi(w32), bi(3)),
        (bi(2), bi(3) + &w64),
        (bi(23), bi(5)),
        (bi(2), bi(35)),
    ];
    for (i, (a, b)) in ab.iter().enumerate() {
        for n in [3i32, 5, 6, 7] {
            if i > 1 && n != 5 && !(n == 6 && i < 6) {
                continue;
            }
            let (a, b) = (a.clone(), b.clone());
            al.add("psi", format!("psi({},{},{})", a, b, n), move || keep((a.clone(), b.clone()), |x| dp::psi(&x.0, &x.1, n)));
        }
    }
    for (i, (a, b)) in ab.iter().enumerate() {
        for n in [2i32, 3, 4] {
            if i > 0 && n != 3 {
                continue;
            }
            let (a1, b1) = (a.clone(), b.clone());
            al.add("phi omega", format!("phi({},{},{})", a, b, n), move || keep((a1.clone(), b1.clone()), |x| dp::phi(&x.0, &x.1, n)));
            if i % 2 == 0 || i == 1 {
                let (a1, b1) = (a.clone(), b.clone());
                al.add("phi omega", format!("omega({},{},{})", a, b, n), move || keep((a1.clone(), b1.clone()), |x| dp::omega(&x.0, &x.1, n)));
            }
        }
    }
    // point counting
    for (a, b, q) in [(1i64, 1i64, 5i32), (1, 1, 7), (2, 1, 7), (1, 2, 7), (8, 1, 7), (2, 1, 5), (1, 1, 3), (-1, 1, 7)] {
        al.slow("schoof", format!("schoof({},{},{})", a, b, q), move || keep((bi(a), bi(b)), |x| schoof::schoof(&x.0, &x.1, q)));
    }
    for (a, b, p, l) in [(1i64, 7i64, 23i64, 3i32), (1, 7, 23, 2), (7, 1, 23, 3), (1, 7, 19, 3), (1, 8, 23, 3), (2, 7, 23, 2), (1, 7, 7, 2), (24, 7, 23, 3)] {
        al.slow("sea", format!("sea(a={} b={} p={}, {})", a, b, p, l), move || sea_text(a, b, p, l));
    }
    // modular polynomials
    for p in [2i32, 3] {
        al.slow("modular polynomial", format!("modular_polynomial({})", p), move || show(&mp::modular_polynomial(p)));
        al.slow("modular polynomial", format!("modular q({})", p), move || show(&mp::subscripted_variable_modular_polynomial_q(p)));
        al.slow("modular polynomial", format!("modular list({})", p), move || show(&mp::subscripted_variable_modular_polynomial_list(p)));
    }
    for p in [2i32, 3, 5, 7] {
        al.add("modular generic", format!("generic({})", p), move || show(&mp::subscripted_variable_modular_polynomial(p)));
    }
    // q-expansions
    for n in [0i32, 1, 2, 3, 5, 8] {
        al.add("e4", format!("eisenstein4({})", n), move || show(&eisenstein::eisenstein4(n)));
        al.add("delta", format!("delta1({})", n), move || show(&delta::delta1(n)));
        al.add("delta", format!("delta1_inverse({})", n), move || show(&delta::delta1_inverse(n)));
        al.add("j", format!("j_invariant1({})", n), move || show(&j_invariant::j_invariant1(n)));
        al.add("j", format!("j_invariant({})", n), move || show(&j_invariant::j_invariant(n)));
    }
    for (n, k) in [(6i32, 3i32), (12, 3), (6, 1), (6, 0), (5, 3), (3, 6), (36, 1), (1, 63), (63, 1), (6, 31), (163, 1)] {
        al.add("sigma", format!("sigma({},{})", n, k), move || show(&divisor::sigma_divisor(n, k)));
    }
    // integers
    for (b, n) in [(bi(3), 5i32), (bi(5), 3), (bi(-3), 5), (bi(3), 6), (bi(3), 0), (bi(35), 1), (bi(3) + &w64, 5), (bi(3) + bi(w32), 5), (bi(0), 5), (bi(0), 0)] {
        let c = b.clone();
        al.add("int power", format!("{}^{}", b, n), move || keep(c.clone(), |x| x.power(n)));
        let c = b.clone();
        al.add("int power big", format!("{}^{} (big)", b, n), move || keep((c.clone(), bi(n as i64)), |x| x.0.power(&x.1)));
    }
    for (b, n, m) in [
        (bi(3), bi(5), bi(7)),
        (bi(5), bi(3), bi(7)),
        (bi(3), bi(5), bi(11)),
        (bi(3), bi(4), bi(7)),
        (bi(4), bi(5), bi(7)),
        (bi(3), bi(5), bi(7) + &w64),
        (bi(3), bi(5) + bi(w32), bi(7)),
        (bi(3) + &w64, bi(5), bi(7)),
        (bi(-3), bi(5), bi(7)),
        (bi(3), bi(0), bi(7)),
        (bi(3), bi(0), bi(1)),
        (bi(35), bi(1), bi(71)),
    ] {
        al.add("int power mod", format!("{}^{} mod {}", b, n, m), move || keep((b.clone(), n.clone(), m.clone()), |x| x.0.power_modulo(&x.1, &x.2)));
    }
    for (a, p) in [(bi(3), bi(7)), (bi(3), bi(11)), (bi(4), bi(7)), (bi(-3), bi(7)), (bi(10), bi(7)), (bi(3), bi(17)), (bi(3) + &w64, bi(11)), (bi(7), bi(3)), (bi(3), bi(2147483659)), (bi(33), bi(7)), (bi(3), bi(37))] {
        al.add("inverse", format!("1/{} mod {}", a, p), move || keep((a.clone(), p.clone()), |x| x.0.inverse(&x.1)));
    }
    for (a, b) in [(12i64, 18i64), (18, 12), (-12, 18), (12, -18), (0, 5), (5, 0), (121, 8), (12, 18 + w32), (7, 3), (1, 218)] {
        al.add("gcd", format!("extended_gcd({},{})", a, b), move || show(&extended_gcd(bi(a), bi(b))));
    }
    for v in [
        vec![(3i64, 2i64), (5, 3), (7, 2)],
        vec![(5, 3), (3, 2), (7, 2)],
        vec![(3, 2), (5, 3), (7, 1)],
        vec![(3, 2), (5, 3)],
        vec![(3, 2), (5, 3), (11, 2)],
        vec![(3, 1), (5, 3), (7, 2)],
        vec![(3, 2)],
        vec![],
    ] {
        al.add("crt", format!("chinese_remainder({:?})", v), move || {
            let m: Vec<ModResult> = v.iter().map(|(l, r)| ModResult { l: bi(*l), r: bi(*r) }).collect();
            keep(m, chinese_remainder)
        });
    }
    // polynomials
    let ps: Vec<(&str, Polynomial)> = vec![
        ("f", pol(&[(1, 2, 0, 0), (3, 1, 0, 0), (-2, 0, 0, 0)])),
        ("f'", pol(&[(1, 2, 0, 0), (3, 1, 0, 0), (-1, 0, 0, 0)])),
        ("g", pol(&[(1, 1, 0, 0), (1, 0, 0, 0)])),
        ("h", pol(&[(1, 1, 1, 0), (2, 0, 2, 0), (-1, 0, 0, 0)])),
        ("s", pol(&[(1, 0, 0, -1), (744, 0, 0, 0), (5, 0, 0, 2)])),
        ("0", Polynomial::new()),
    ];
    for (i, (na, a)) in ps.iter().enumerate() {
        for (k, (nb, b)) in ps.iter().enumerate() {
            let (x, y) = (a.clone(), b.clone());
            if (i + k) % 2 == 0 || i == k {
                al.add("poly ring", format!("{}+{}", na, nb), move || keep((x.clone(), y.clone()), |z| &z.0 + &z.1));
            } else if i < k {
                al.add("poly ring", format!("{}*{}", na, nb), move || keep((x.clone(), y.clone()), |z| &z.0 * &z.1));
            } else {
                al.add("poly ring", format!("{}-{}", na, nb), move || keep((x.clone(), y.clone()), |z| &z.0 - &z.1));
            }
        }
        for n in [0i32, 2, 3] {
            let x = a.clone();
            al.add("poly power", format!("({})^{}", na, n), move || keep(x.clone(), |z| z.power(n)));
        }
        let x = a.clone();
        al.add("poly text", format!("text of {}", na), move || keep(x.clone(), |z| z.to_string()));
        let x = a.clone();
        al.add("poly derivative", format!("d/dx {}", na), move || keep(x.clone(), |z| z.derivative_x()));
        let x = a.clone();
        al.add("poly derivative", format!("d/dy {}", na), move || keep(x.clone(), |z| z.derivative_y()));
        let x = a.clone();
        al.add("poly frob", format!("{} to_frob 3", na), move || keep(x.clone(), |z| z.to_frob(3)));
        let x = a.clone();
        al.add("poly frob", format!("{} to_q_power 2", na), move || keep(x.clone(), |z| z.to_q_power(2)));
        let x = a.clone();
        al.add("poly mod", format!("{} % 2", na), move || keep(x.clone(), |z| z % 2));
        let x = a.clone();
        al.add("poly mod", format!("{} % 5", na), move || keep((x.clone(), bi(5)), |z| &z.0 % &z.1));
    }
    for (na, a) in ps.iter().take(4) {
        for (x, y) in [(2i64, 3i64), (3, 2), (-2, 3), (2 + w32, 3), (2, 4)] {
            let z = a.clone();
            al.add("poly eval", format!("{} at ({},{})", na, x, y), move || keep((z.clone(), bi(x), bi(y)), |z| z.0.eval_xy(&z.1, &z.2)));
        }
        for x in [2i64, 3] {
            let z = a.clone();
            al.add("poly eval x", format!("{} at x={}", na, x), move || keep((z.clone(), bi(x)), |z| z.0.eval_x(&z.1)));
            let z = a.clone();
            al.add("poly eval x", format!("{} at y={}", na, x), move || keep((z.clone(), bi(x)), |z| z.0.eval_y(&z.1)));
        }
        for (ng, g) in [("g", &ps[2].1), ("s", &ps[4].1)] {
            let z = (a.clone(), g.clone());
            al.add("poly subst", format!("{} at x={}", na, ng), move || keep(z.clone(), |z| z.0.eval_x_polynomial(&z.1)));
            let z = (a.clone(), g.clone());
            al.add("poly subst", format!("{} at y={}", na, ng), move || keep(z.clone(), |z| z.0.eval_y_polynomial(&z.1)));
        }
        for (u, v) in [(1i64, 2i64), (2, 1), (1, 3)] {
            let mut z = Polynomial { terms: BTreeMap::new() };
            for (m, co) in &a.terms {
                z.terms.insert(Monomial { ypow: m.ypow + 2, ..*m }, co.clone());
            }
            let z2 = z.clone();
            al.add("poly reduction", format!("y^2({}) reduced a={} b={}", na, u, v), move || keep((z.clone(), bi(u), bi(v)), |z| z.0.reduction(&z.1, &z.2)));
            al.add("poly reduction", format!("y^2({}) reduced a={} b={} mod 5", na, u, v), move || keep((z2.clone(), bi(u), bi(v)), |z| z.0.reduction_modular(&z.1, &z.2, 5)));
        }
    }
    let us: Vec<(&str, Polynomial)> = vec![
        ("u", pol(&[(1, 3, 0, 0), (2, 1, 0, 0), (1, 0, 0, 0)])),
        ("u'", pol(&[(1, 3, 0, 0), (2, 1, 0, 0), (2, 0, 0, 0)])),
        ("v", pol(&[(1, 2, 0, 0), (-1, 0, 0, 0)])),
        ("v'", pol(&[(2, 2, 0, 0), (-2, 0, 0, 0)])),
        ("w", pol(&[(1, 1, 0, 0), (1, 0, 0, 0)])),
    ];
    for (na, a) in &us {
        for (nb, b) in &us {
            for p in [5i64, 7] {
                if p == 7 && na == nb {
                    continue;
                }
                let z = (a.clone(), b.clone(), bi(p));
                al.add("poly rem", format!("{} rem {} mod {}", na, nb, p), move || keep(z.clone(), |z| z.0.polynomial_modular(&z.1, &z.2)));
                let z = (a.clone(), b.clone(), bi(p));
                al.add("poly gcd", format!("gcd({},{}) mod {}", na, nb, p), move || keep(z.clone(), |z| z.0.gcd(&z.1, &z.2)));
                if p == 5 {
                    let z = (a.clone(), b.clone(), bi(p));
                    al.add("poly gcd one", format!("gcd({},{}) mod {} is 1", na, nb, p), move || keep(z.clone(), |z| z.0.is_gcd_one(&z.1, &z.2)));
                }
            }
        }
        for (n, p) in [(3i64, 5i64), (3, 7), (4, 5), (5, 3), (0, 5)] {
            let z = (a.clone(), bi(n), bi(p));
            al.add("poly power mod", format!("({})^{} mod {}", na, n, p), move || keep(z.clone(), |z| z.0.power_modulo(&z.1, &z.2)));
        }
        for p in [5i64, 7] {
            let z = (a.clone(), bi(p));
            al.add("poly monic", format!("monic {} mod {}", na, p), move || keep(z.clone(), |z| z.0.to_monic(&z.1)));
        }
    }
    let series = [("s", ps[4].1.clone()), ("e", pol(&[(1, 0, 0, 0), (240, 0, 0, 1), (7, 0, 0, 2)])), ("e'", pol(&[(1, 0, 0, 0), (241, 0, 0, 1), (7, 0, 0, 2)]))];
    for (na, a) in &series {
        for k in [-1i32, 0, 1, 2] {
            let z = a.clone();
            al.add("series coefficient", format!("[q^{}]{}", k, na), move || keep(z.clone(), |z| z.to_q_power_coef(k)));
            let z = a.clone();
            al.add("series cut", format!("{} through q^{}", na, k), move || {
                let mut x = z.clone();
                x.omit_high_order_q(k);
                show(&x)
            });
        }
    }
    for (na, a) in &series[1..] {
        for (n, o) in [(3i32, 2i32), (2, 3), (3, 3), (0, 2), (1, 0), (24, 4)] {
            let z = a.clone();
            al.add("series power", format!("({})^{} through q^{}", na, n, o), move || keep(z.clone(), |z| z.power_omit_high_order_q(n, o)));
        }
    }
    // terms
    let ts = [t(2, 1, 0, 0), t(-3, 0, 1, 0), t(3, 1, 0, 0), t(2, 1, 0, -1), t(0, 0, 0, 0)];
    for (i, a) in ts.iter().enumerate() {
        for (k, b) in ts.iter().enumerate() {
            let z = (a.clone(), b.clone());
            al.add("terms", format!("t{}+t{}", i, k), move || keep(z.clone(), |z| &z.0 + &z.1));
            let z = (a.clone(), b.clone());
            al.add("terms", format!("t{}*t{}", i, k), move || keep(z.clone(), |z| &z.0 * &z.1));
        }
        let z = a.clone();
        al.add("terms", format!("text of t{}", i), move || keep(z.clone(), |z| z.to_string()));
        let z = a.clone();
        al.add("terms", format!("t{}^3", i), move || keep(z.clone(), |z| z.power(3)));
    }
    for (i, j) in [(-1i32, -1i32), (0, 0), (0, 1), (1, 0), (1, 2)] {
        al.add("builder", format!("build c_{}_{}", i, j), move || {
            let mut b = TermBuilder::new();
            b.coef(7).xpow(2);
            if i >= 0 {
                b.variable_ij(i, j);
            }
            show(&(b.build(), b.build(), TermBuilder::new().build()))
        });
    }
    // curves
    let cs = [(1i64, 1i64, 5i64), (1, 1, 7), (2, 1, 7), (1, 2, 7), (8, 1, 7), (-6, 1, 7), (1, 1, 11), (11, 1, 7)];
    for (a, b, p) in cs {
        al.add("curve", format!("curve {} {} {}", a, b, p), move || keep((bi(a), bi(b), bi(p)), |x| EllipticCurve::new(&x.0, &x.1, &x.2)));
        al.add("curve", format!("curve {} {} {} printed", a, b, p), move || keep(EllipticCurve::new(&bi(a), &bi(b), &bi(p)), |e| e.to_string()));
        al.add("curve j", format!("j {} {} {}", a, b, p), move || keep(EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p)), |e| e.j_invariant()));
        if (a, b, p) != (8, 1, 7) && (a, b, p) != (-6, 1, 7) {
            for n in [2i64, 3] {
                al.add("curve isogeny", format!("isogeny {} {} {} by {}", a, b, p, n), move || keep((EllipticCurve::new(&bi(a), &bi(b), &bi(p)), bi(n)), |x| x.0.isogeny(&x.1)));
                al.add("curve division", format!("division {} {} {} by {}", a, b, p, n), move || keep((EllipticCurve::new(&bi(a), &bi(b), &bi(p)), bi(n)), |x| pts(x.0.division_points(&x.1))));
            }
        }
    }
    for (a, b, p) in [(1i64, 1i64, 7i64), (8, 1, 7), (2, 1, 7), (1, 1, 5)] {
        let e = SmallCurve::new(a.rem_euclid(p), b, p);
        let qs: Vec<(i64, i64)> = e.pts.iter().flatten().cloned().collect();
        for (i, k) in [(0usize, 0usize), (0, 1), (1, 0), (0, 2)] {
            let (s, u) = (qs[i % qs.len()], qs[k % qs.len()]);
            al.add("curve plus", format!("{:?}+{:?} on {} {} {}", s, u, a, b, p), move || {
                let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
                keep((e, crate::ec::ecp(&bi(s.0), &bi(s.1)), crate::ec::ecp(&bi(u.0), &bi(u.1))), |x| x.0.plus(&x.1, &x.2))
            });
        }
        for n in [2i64, 3, -2, 2 + w32] {
            let s = qs[0];
            al.add("curve multiple", format!("{}*{:?} on {} {} {}", n, s, a, b, p), move || {
                let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
                keep((e, crate::ec::ecp(&bi(s.0), &bi(s.1)), bi(n)), |x| x.0.multiply_scalar(&x.1, &x.2))
            });
        }
        for i in 0..2 {
            let s = qs[i % qs.len()];
            al.add("curve order", format!("order of {:?} on {} {} {}", s, a, b, p), move || {
                let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
                keep((e, crate::ec::ecp(&bi(s.0), &bi(s.1))), |x| x.0.point_order(&x.1))
            });
        }
        for (x, y) in [(0i64, 1i64), (1, 0), (2, 2), (0, -1)] {
            al.add("curve test", format!("({},{}) on {} {} {}", x, y, a, b, p), move || {
                let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
                keep((e, crate::ec::ecp(&bi(x), &bi(y))), |x| (x.0.is_on_curve(&x.1), x.0.negate(&x.1), x.0.canonicalize(&x.1)))
            });
        }
    }
    for n in [1i64, 2, 3, -2] {
        al.slow("secp256k1", format!("{} G", n), move || {
            let s = Secp256k1::new();
            keep((s, bi(n)), |x| x.0.ec.multiply_scalar(&x.0.g, &x.1))
        });
    }
    // systems
    for m in [
        vec![vec![2i64, 1, 5], vec![1, -1, 1]],
        vec![vec![2, 1, 8], vec![1, -1, 1]],
        vec![vec![1, -1, 1], vec![2, 1, 5]],
        vec![vec![0, 1, 5], vec![1, -1, 1]],
        vec![vec![2, 1, 5], vec![1, -1, 1], vec![3, 0, 6]],
        vec![vec![1, 0, 0, 1], vec![0, 1, 0, 2], vec![0, 0, 1, 3]],
    ] {
        al.add("solve", format!("solve {:?}", m), move || {
            let a: Vec<Vec<BigInt>> = m.iter().map(|r| r.iter().map(|x| bi(*x)).collect()).collect();
            keep(a, simultaneous_equation::solve)
        });
    }
    // numbering
    for p in [2i32, 3, 5] {
        al.add("numbering", format!("count {}", p), move || show(&SubscriptedVariableConverter::new(p).count()));
        for k in [0u64, 1, 4] {
            al.add("numbering", format!("variable {} of {}", k, p), move || keep(SubscriptedVariableConverter::new(p), |c| c.variable_from_index(k)));
        }
        for (i, j) in [(0i32, 0i32), (0, 1), (1, 2)] {
            al.add("numbering", format!("index of c_{}_{} for {}", i, j, p), move || keep(SubscriptedVariableConverter::new(p), |c| c.index_from_variable(SubscriptedVariable { i, j, empty: false })));
        }
    }
    al.v
}

// ------------------------------------------------------------------------------- objects

/// one method of a shared object: its name and the value it answers
type Method<T> = (String, Box<dyn Fn(&mut T) -> String + Send + Sync>);

fn method<T, F: Fn(&mut T) -> String + Send + Sync + 'static>(n: &str, f: F) -> Method<T> {
    (n.to_string(), Box::new(f))
}

/// methods that only read the curve: the answer must not depend on what was asked before
fn curve_methods(p: i64) -> Vec<Method<EllipticCurve>> {
    let _ = p;
    let first = |e: &EllipticCurve, i: usize| -> ECPoint {
        // a point of the curve found without the crate
        let (a, b, p) = (&e.a, &e.b, &e.p);
        let mut v = Vec::new();
        let mut x = bi(0);
        while &x < p {
            let mut y = bi(0);
            while &y < p {
                if md(&(&y * &y - &x * &x * &x - a * &x - b), p).is_zero() {
                    v.push(crate::ec::ecp(&x, &y));
                }
                y += bi(1);
            }
            x += bi(1);
        }
        v[i % v.len()].clone()
    };
    vec![
        method("P+Q", move |e: &mut EllipticCurve| show(&e.plus(&first(e, 0), &first(e, 1)))),
        method("Q+P'", move |e: &mut EllipticCurve| show(&e.plus(&first(e, 1), &first(e, 3)))),
        method("P+P", move |e: &mut EllipticCurve| show(&e.plus(&first(e, 0), &first(e, 0)))),
        method("3P", move |e: &mut EllipticCurve| show(&e.multiply_scalar(&first(e, 0), &bi(3)))),
        method("3Q", move |e: &mut EllipticCurve| show(&e.multiply_scalar(&first(e, 1), &bi(3)))),
        method("-4P", move |e: &mut EllipticCurve| show(&e.multiply_scalar(&first(e, 0), &bi(-4)))),
        method("order P", move |e: &mut EllipticCurve| show(&e.point_order(&first(e, 0)))),
        method("order Q", move |e: &mut EllipticCurve| show(&e.point_order(&first(e, 2)))),
        method("j", |e: &mut EllipticCurve| show(&e.j_invariant())),
        method("text", |e: &mut EllipticCurve| e.to_string()),
        method("points", |e: &mut EllipticCurve| show(&e.points())),
        method("cardinality", |e: &mut EllipticCurve| show(&e.cardinality())),
        method("2-division", |e: &mut EllipticCurve| show(&pts(e.division_points(&bi(2))))),
        method("3-division", |e: &mut EllipticCurve| show(&pts(e.division_points(&bi(3))))),
        method("isogeny 2", |e: &mut EllipticCurve| show(&e.isogeny(&bi(2)))),
        method("isogeny 3", |e: &mut EllipticCurve| show(&e.isogeny(&bi(3)))),
        method("create_points", |e: &mut EllipticCurve| {
            let before = show(e);
            e.create_points();
            let after = show(e);
            if before == after { String::from("same") } else { format!("{} -> {}", before, after) }
        }),
        method("clone", |e: &mut EllipticCurve| show(&e.clone())),
        method("on curve", |e: &mut EllipticCurve| show(&(0..4).map(|x| e.is_on_curve(&crate::ec::ecp(&bi(x), &bi(1)))).collect::<Vec<bool>>())),
    ]
}

/// readers of a polynomial
fn read_poly(p: &Polynomial) -> String {
    let readers: [&dyn Fn() -> String; 14] = [
        &|| show(p),
        &|| p.to_string(),
        &|| p.is_zero().to_string(),
        &|| show(&(p.has_x(), p.has_y(), p.has_q())),
        &|| show(&p.derivative_x()),
        &|| show(&p.derivative_y()),
        &|| show(&p.highest_term_x()),
        &|| show(&p.degree_x()),
        &|| show(&p.to_scalar()),
        &|| show(&p.eval_x(&bi(2))),
        &|| show(&p.eval_y(&bi(3))),
        &|| show(&(p % 3)),
        &|| show(&(p + p)),
        &|| show(&p.to_q_power_coef(0)),
    ];
    let v: Vec<String> = readers.iter().map(|f| one(f)).collect();
    v.join(" | ")
}

fn poly_mutators() -> Vec<Method<Polynomial>> {
    vec![
        method("+= x", |p: &mut Polynomial| {
            *p += t(1, 1, 0, 0);
            String::new()
        }),
        method("-= x", |p: &mut Polynomial| {
            *p -= pol(&[(1, 1, 0, 0)]);
            String::new()
        }),
        method("+= 2q+1", |p: &mut Polynomial| {
            *p += pol(&[(2, 0, 0, 1), (1, 0, 0, 0)]);
            String::new()
        }),
        method("*= (x+y)", |p: &mut Polynomial| {
            *p *= pol(&[(1, 1, 0, 0), (1, 0, 1, 0)]);
            String::new()
        }),
        method("mod 3", |p: &mut Polynomial| {
            p.modular_assign(&bi(3));
            String::new()
        }),
        method("cut q^0", |p: &mut Polynomial| {
            p.omit_high_order_q(0);
            String::new()
        }),
        method("-= itself", |p: &mut Polynomial| {
            let c = p.clone();
            *p -= c;
            String::new()
        }),
        method("/= 1", |p: &mut Polynomial| {
            *p /= t(1, 0, 0, 0);
            String::new()
        }),
        method("insert y^2", |p: &mut Polynomial| {
            let u = t(4, 0, 2, 0);
            p.terms.insert(u.monomial, u.coef);
            String::new()
        }),
        method("remove x", |p: &mut Polynomial| {
            p.terms.remove(&t(1, 1, 0, 0).monomial);
            String::new()
        }),
    ]
}

// ------------------------------------------------------------------------------- running histories

/// `mc hist-run IN OUT`: IN has one history per line (call numbers, or "sweep NAME"), OUT gets the
/// results; the calls themselves happen in forked children
pub fn run(input: &str, output: &str) -> i32 {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
        fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let al = alphabet();
    let text = fs::read_to_string(input).unwrap();
    let part = format!("{}.part", output);
    let mut out = String::new();
    for (n, line) in text.lines().enumerate() {
        let pid = unsafe { fork() };
        if pid < 0 {
            return 2;
        }
        if pid == 0 {
            let lim = [120u64, 120];
            unsafe { setrlimit(0, &lim) };
            let r = history(&al, line);
            let ok = fs::write(&part, r).is_ok();
            unsafe { _exit(if ok { 0 } else { 3 }) };
        }
        let mut st = 0i32;
        unsafe { waitpid(pid, &mut st, 0) };
        if st == 0 {
            out.push_str(&format!("{}\t{}\n", n, fs::read_to_string(&part).unwrap()));
        } else {
            out.push_str(&format!("{}\t!!the process ended with status {} (calls take too long, or kill it)\n", n, st));
        }
    }
    let _ = fs::remove_file(&part);
    fs::write(output, out).map(|_| 0).unwrap_or(2)
}

fn one(f: &dyn Fn() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(_) => String::from("refused"),
    }
}

/// the results of a history, hashed unless "full" is asked for
fn history(al: &[Call], line: &str) -> String {
    let f: Vec<&str> = line.split(' ').collect();
    let mut out = Vec::new();
    if f[0] == "sweep" {
        let n: usize = f[2].parse().unwrap();
        let order: Vec<usize> = match f[3] {
            "first" => (0..n).collect(),
            "forth" => (0..n).chain(0..n).collect(),
            "back" => (0..n).chain((0..n).rev()).collect(),
            x => vec![x.parse().unwrap()],
        };
        for i in order {
            out.push(format!("{:x}", h64(&one(&|| sweep(f[1], i)))));
        }
        return out.join(" ");
    }
    if f[0] == "full" {
        for i in &f[1..] {
            out.push(one(&al[i.parse::<usize>().unwrap()].run).replace('\n', " ").replace('\t', " "));
        }
        return out.join("\u{1}");
    }
    for i in &f {
        let s = one(&al[i.parse::<usize>().unwrap()].run);
        if s.starts_with("!!") {
            return s;
        }
        out.push(format!("{:x}", h64(&s)));
    }
    out.join(" ")
}

const SWEEPS: [&str; 36] = [
    "sigma2", "psi2", "psi3", "psi4", "omega", "power2", "power3", "powermod2", "powermod3", "inverse2", "curve2", "curve3", "jinv2", "series", "reduction",
    "eval", "maps", "numbering", "solve", "torsion",
    "psi", "phi", "inverse", "power", "powermod", "sigma", "e4", "delta", "j", "jinv", "curve", "plus", "gcd", "rem", "crt", "generic"];

/// the i-th argument of a long sweep over distinct arguments
fn sweep(name: &str, i: usize) -> String {
    let k = i as i64;
    match name {
        "psi" => show(&dp::psi(&bi(k % 17 - 8), &bi(k / 17), 3 + (k % 4) as i32)),
        "phi" => show(&dp::phi(&bi(k % 17 - 8), &bi(k / 17), 1 + (k % 3) as i32)),
        "inverse" => {
            let ps = primes(2, 60);
            show(&bi(k + 1).inverse(&bi(ps[i % ps.len()])))
        }
        // the second argument runs far beyond any packing of two arguments into one
        "sigma2" => show(&divisor::sigma_divisor(i as i32 % 6 + 3, i as i32 / 6)),
        "psi2" => show(&dp::psi(&bi(k % 3), &bi(k / 3), 5)),
        "psi3" => show(&dp::psi(&bi(k / 3 - 50), &bi(k % 3), 5)),
        "psi4" => show(&dp::psi(&bi(k % 5 - 2), &bi(k / 5 % 4 - 1), 1 + (k / 20 % 11) as i32)),
        "omega" => show(&(dp::omega(&bi(k % 5 - 2), &bi(k / 5 % 13 - 6), 2 + (k / 65 % 4) as i32), dp::phi(&bi(k % 5), &bi(k / 5), 3))),
        "power2" => show(&bi(k % 5 + 2).power((k / 5) as i32)),
        "power3" => show(&(bi(k / 5 - 60).power((k % 5) as i32 + 2), bi(k / 5 - 60).power(bi(k % 5 + 2)))),
        "powermod2" => show(&bi(k % 4 + 2).power_modulo(&bi(k / 4 % 50), &bi(k / 200 * 7 + 11))),
        "powermod3" => show(&bi(k % 3 + 2).power_modulo(&bi(k % 2 + 5), &bi(k / 6 + 1))),
        "inverse2" => {
            let ps = primes(7, 800);
            show(&bi(k % 5 + 1).inverse(&bi(ps[i / 5 % ps.len()])))
        }
        "curve2" => show(&EllipticCurve::new(&bi(k % 4), &bi(k / 4 - 20), &bi(5))),
        "curve3" => show(&EllipticCurve::new(&bi(k / 4 - 20), &bi(k % 4), &bi(7))),
        "jinv2" => show(&EllipticCurve::new_raw(&bi(k / 6 - 20), &bi(k % 6), &bi(101 - k % 2 * 4)).j_invariant()),
        "series" => {
            let f = pol(&[(1, 0, 0, 0), (k % 3 - 1, 0, 0, 1), (2, 0, 0, 2)]);
            let mut g = f.power_omit_high_order_q(i as i32 / 3 % 14, i as i32 / 42);
            let text = show(&g);
            g.omit_high_order_q(i as i32 % 5);
            show(&(text, g.to_q_power_coef(i as i32 % 7), g))
        }
        "reduction" => {
            let f = pol(&[(3, 1, (k % 5) as i32 + 2, 0), (7, 0, 3, 0)]);
            let (a, b) = (bi(k / 5 % 30 - 10), bi(k / 150 * 13));
            show(&(f.reduction(&a, &b), f.reduction_modular(&a, &b, [5, 7, 105, 110][i % 4])))
        }
        "eval" => {
            let f = pol(&[(3, 2, 1, 0), (k % 2 + 1, 1, 0, 0), (5, 0, 2, 0)]);
            let (x, y) = (bi(k / 2 % 25 - 5), bi(k / 50 * 11));
            show(&(f.eval_xy(&x, &y), f.eval_x(&x), f.eval_y(&y), f.eval_x_polynomial(&pol(&[(k % 7, 0, 0, 1), (1, 0, 0, 0)]))))
        }
        "maps" => {
            let f = pol(&[(3, 2, 1, 1), (k % 3 + 1, 1, 0, 2), (5, 0, 2, 0)]);
            let n = i as i32 / 3;
            show(&(f.to_frob(n), f.to_y_power(n), f.to_q_power(n), &f % (n + 1), f.derivative_x(), f.to_string()))
        }
        "numbering" => {
            let ps = primes(2, 40);
            let p = ps[i % ps.len()];
            let c = SubscriptedVariableConverter::new(p as i32);
            let n = (p + 1) * (p + 2) / 2;
            let var = c.variable_from_index((k / ps.len() as i64 * 7 % n) as u64);
            show(&(c.count(), var, c.index_from_variable(var)))
        }
        "solve" => {
            // unimodular: 1 x + u y = ., v x + (uv + 1) y = .
            let (u, w) = (k % 5 + 1, k / 5 % 60);
            show(&simultaneous_equation::solve(&vec![vec![bi(1), bi(u), bi(k)], vec![bi(w), bi(u * w + 1), bi(k % 3)]]))
        }
        "torsion" => {
            let e = EllipticCurve::new(&bi(k % 5), &bi(k / 5 % 7), &bi([5i64, 7, 11][i % 3]));
            let n = k / 35;
            let v: Vec<ECPoint> = e.division_points(&bi(n)).into();
            show(&(v, e.points.iter().map(|q| e.multiply_scalar(q, &bi(n + 2))).collect::<Vec<_>>(), e.cardinality()))
        }
        "power" => show(&bi(k % 29 - 14).power((k / 29) as i32)),
        "powermod" => show(&bi(k % 11).power_modulo(&bi(k / 11), &bi(k % 13 + 1))),
        "sigma" => show(&divisor::sigma_divisor(i as i32 / 4 + 1, i as i32 % 4)),
        "e4" => show(&eisenstein::eisenstein4(i as i32 % 90)),
        "delta" => show(&delta::delta1(i as i32 % 24)),
        "j" => show(&j_invariant::j_invariant(i as i32 % 11)),
        "jinv" => {
            let ps = [5i64, 7, 11, 13];
            show(&EllipticCurve::new_raw(&bi(k % 19), &bi(k / 19), &bi(ps[i % 4])).j_invariant())
        }
        "curve" => {
            let ps = [3i64, 5, 7, 11];
            show(&EllipticCurve::new(&bi(k % 11), &bi(k / 11), &bi(ps[i % 4])))
        }
        "plus" => {
            // (x, y) on y^2 = x^3 + ax + b with b chosen to fit
            let p = 10007;
            let (x, y, a) = (k % 101, k / 101 + 1, k % 7);
            let b = (y * y - x * x * x - a * x).rem_euclid(p);
            let e = EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p));
            let g = crate::ec::ecp(&bi(x), &bi(y));
            show(&(e.plus(&g, &g), e.multiply_scalar(&g, &bi(k + 2))))
        }
        "gcd" => show(&extended_gcd(bi(k * 6 + 10), bi(k % 23 * 4 + 2))),
        "rem" => {
            let f = pol(&[(1, 5, 0, 0), (k % 7 + 1, 2, 0, 0), (k / 7 + 1, 0, 0, 0)]);
            let g = pol(&[(1, 2, 0, 0), (k % 5 + 1, 1, 0, 0), (1, 0, 0, 0)]);
            let p = bi([5i64, 7, 11][i % 3]);
            show(&(f.polynomial_modular(&g, &p), f.gcd(&g, &p), f.power_modulo(&bi(2), &p)))
        }
        "crt" => show(&chinese_remainder(&vec![ModResult { l: bi(2), r: bi(k % 2) }, ModResult { l: bi(9), r: bi(k % 9) }, ModResult { l: bi(25 + k / 18 * 30), r: bi(k % 25) }])),
        _ => {
            let ps = primes(2, 20);
            let p = ps[i % ps.len()] as i32;
            let c = SubscriptedVariableConverter::new(p);
            let n = ((p + 1) * (p + 2) / 2) as u64;
            show(&(c.count(), c.variable_from_index(i as u64 % n)))
        }
    }
}

/// run histories in fresh processes; returns one line of results per history
fn fresh(c: &mut Ctx, lines: &[String]) -> Vec<String> {
    let dir = std::env::temp_dir().join(format!("mc-hist-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    let _ = fs::create_dir_all(&dir);
    let (i, o) = (dir.join("in"), dir.join("out"));
    let _ = fs::remove_file(&o);
    fs::write(&i, lines.join("\n") + "\n").unwrap();
    let st = Command::new(std::env::current_exe().unwrap()).arg("hist-run").arg(&i).arg(&o).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
    let text = fs::read_to_string(&o).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    c.beat();
    let v: Vec<String> = text.lines().map(|l| l.split_once('\t').map(|x| x.1).unwrap_or("").to_string()).collect();
    assert!(matches!(st, Ok(s) if s.success()) && v.len() == lines.len(), "the history runner failed");
    for (l, r) in lines.iter().zip(&v) {
        if let Some(m) = r.strip_prefix("!!") {
            c.fail(format!("history {}: {}", names(l), m));
        }
    }
    v
}

fn names(line: &str) -> String {
    let al = alphabet();
    let f: Vec<&str> = line.split(' ').collect();
    if f[0] == "sweep" {
        return line.to_string();
    }
    let v: Vec<String> = f.iter().filter_map(|i| i.parse::<usize>().ok()).map(|i| al[i].name.clone()).collect();
    if v.len() > 8 { format!("of {} calls ending in {}", v.len(), v[v.len() - 3..].join("; ")) } else { v.join("; ") }
}

/// runs histories over the alphabet and compares every result with the fresh one
fn compare(c: &mut Ctx, hs: &[Vec<usize>]) {
    let n = alphabet().len();
    let mut used: Vec<usize> = hs.iter().flatten().cloned().collect();
    used.sort();
    used.dedup();
    assert!(used.iter().all(|u| *u < n));
    let base = fresh(c, &used.iter().map(|u| u.to_string()).collect::<Vec<_>>());
    let fr: BTreeMap<usize, &String> = used.iter().cloned().zip(&base).collect();
    for chunk in hs.chunks(4000) {
        let lines: Vec<String> = chunk.iter().map(|h| h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).collect();
        let rs = fresh(c, &lines);
        for (h, r) in chunk.iter().zip(&rs) {
            let f: Vec<&str> = r.split(' ').collect();
            assert!(f.len() == h.len());
            for (k, i) in h.iter().enumerate() {
                if f[k] != fr[i].as_str() {
                    differs(c, &h[..=k]);
                }
                c.outcome(f[k]);
            }
            c.state(h);
            c.trace();
            c.add_transitions(h.len() as u64);
        }
    }
}

fn differs(c: &mut Ctx, h: &[usize]) -> ! {
    let last = h[h.len() - 1];
    let line = |h: &[usize]| format!("full {}", h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    // a shorter history that still shows it
    let mut best: Vec<usize> = h.to_vec();
    let want = fresh(c, &[line(&[last])])[0].clone();
    let get = |c: &mut Ctx, h: &[usize]| -> String { fresh(c, &[line(h)])[0].split('\u{1}').last().unwrap_or("").to_string() };
    // the search for a shorter one is a service, within limits
    let t0 = std::time::Instant::now();
    let late = || t0.elapsed().as_secs() > 15;
    if h.len() > 2 {
        let mut cut = 1;
        while cut < best.len() && !late() {
            let t: Vec<usize> = best[cut..].to_vec();
            if get(c, &t) != want {
                best = t;
                cut = 1;
            } else {
                cut *= 2;
            }
        }
        if h.len() > 40 {
            let al = alphabet();
            let mut fs: Vec<usize> = (0..al.len()).filter(|f| *f != last && !al[*f].slow).collect();
            fs.sort_by_key(|f| (al[*f].family != al[last].family, *f));
            for f in fs {
                if late() {
                    break;
                }
                if get(c, &[f, last]) != want {
                    best = vec![f, last];
                    break;
                }
            }
        }
    }
    let got = get(c, &best);
    let l: Vec<String> = best.iter().map(|x| x.to_string()).collect();
    let cut = |s: &str| s.chars().take(300).collect::<String>();
    c.fail(format!("after history {}: the last call answers {} instead of {}", names(&l.join(" ")), cut(&got), cut(&want)))
}

/// a cyclic sequence over 0..k in which every pair of symbols occurs exactly once, opened up
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let mut out = Vec::new();
    db(1, 1, n, k, &mut vec![0; k * n + 1], &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

fn c25_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let al = alphabet();
    let n = al.len();
    let slow: Vec<bool> = al.iter().map(|c| c.slow).collect();
    let mut fams: Vec<(&'static str, Vec<usize>)> = Vec::new();
    for (i, c) in al.iter().enumerate() {
        match fams.iter_mut().find(|f| f.0 == c.family) {
            Some(f) => f.1.push(i),
            None => fams.push((c.family, vec![i])),
        }
    }
    let cheap: Vec<usize> = (0..n).filter(|i| !slow[*i]).collect();
    v.push(unit(s_("one history with every pair of the cheap calls"), move |c| {
        let d: Vec<usize> = de_bruijn(cheap.len(), 2).into_iter().map(|k| cheap[k]).collect();
        compare(c, &[d.clone()]);
        c.sample(|| format!("one history of {} calls", d.len()));
    }));
    v.push(unit(s_("every call alone, and again in another process"), move |c| {
        let all: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
        compare(c, &all);
        let lines: Vec<String> = (0..n).map(|i| format!("full {}", i)).collect();
        let r = fresh(c, &lines);
        let refused = r.iter().filter(|x| *x == "refused").count();
        c.sample(|| format!("{} calls, {} of them refused", n, refused));
    }));
    // every call meets the first calls of every family and its whole own family (thorough: everything)
    let heads: Vec<usize> = fams.iter().flat_map(|f| f.1.iter().cloned().take(2)).collect();
    for i in 0..n {
        let (slow, heads) = (slow.clone(), heads.clone());
        let fam: Vec<&'static str> = al.iter().map(|c| c.family).collect();
        v.push(unit(format!("pairs starting with {}", al[i].name), move |c| {
            let full = tier == Tier::Thorough;
            let hs: Vec<Vec<usize>> = (0..n)
                .filter(|j| fam[*j] == fam[i] || ((full || heads.contains(j) || heads.contains(&i) && !slow[i] && !slow[*j] && (i + *j) % 4 == 0) && !(slow[i] && slow[*j] && !full && (i + *j) % 3 != 0)))
                .map(|j| vec![i, j])
                .collect();
            compare(c, &hs);
            c.sample(|| format!("{} pairs starting with call {}", hs.len(), i));
        }));
    }
    for (name, f) in &fams {
        let f = f.clone();
        let sl = f.iter().any(|i| slow[*i]);
        let cap = if sl { tier.pick(3, 6) } else { tier.pick(7, 14) };
        // overlapping windows, so that every family is covered by windows of bounded size
        let mut w = 0;
        loop {
            let g: Vec<usize> = f[w..(w + cap).min(f.len())].to_vec();
            v.push(unit(format!("triples of {} from {}", name, w), move |c| {
                let mut hs = Vec::new();
                for a in &g {
                    for b in &g {
                        for d in &g {
                            hs.push(vec![*a, *b, *d]);
                        }
                    }
                }
                compare(c, &hs);
                c.sample(|| format!("{} triples", hs.len()));
            }));
            if w + cap >= f.len() {
                break;
            }
            w += cap / 2;
        }
        let g = f.clone();
        v.push(unit(format!("one history with every pair of {}, and back", name), move |c| {
            let d: Vec<usize> = de_bruijn(g.len(), 2).into_iter().map(|k| g[k]).collect();
            let r: Vec<usize> = d.iter().rev().cloned().collect();
            compare(c, &[d.clone(), r]);
            c.sample(|| format!("one history of {} calls", d.len()));
        }));
        if !sl {
            let g: Vec<usize> = f.iter().cloned().take(tier.pick(12, 30)).collect();
            v.push(unit(format!("one history with every triple of {}", name), move |c| {
                let d: Vec<usize> = de_bruijn(g.len(), 3).into_iter().map(|k| g[k]).collect();
                compare(c, &[d.clone()]);
                c.sample(|| format!("one history of {} calls", d.len()));
            }));
        }
    }
    if tier == Tier::Thorough {
        let firsts: Vec<usize> = fams.iter().map(|f| f.1[0]).filter(|i| !slow[*i]).collect();
        for i in firsts.clone() {
            let firsts = firsts.clone();
            v.push(unit(format!("triples of families starting with {}", al[i].name), move |c| {
                let mut hs = Vec::new();
                for j in &firsts {
                    for k in &firsts {
                        hs.push(vec![i, *j, *k]);
                    }
                }
                compare(c, &hs);
            }));
        }
    }
    for s in SWEEPS {
        v.push(unit(format!("sweep {}", s), move |c| {
            let m = tier.pick(600, 3000);
            let singles: Vec<String> = (0..m).map(|i| format!("sweep {} {} {}", s, m, i)).collect();
            let want = fresh(c, &singles);
            for how in ["forth", "back"] {
                let r = fresh(c, &[format!("sweep {} {} {}", s, m, how)]);
                let f: Vec<&str> = r[0].split(' ').collect();
                for (k, x) in f.iter().enumerate() {
                    let i = if k < m { k } else if how == "forth" { k - m } else { 2 * m - 1 - k };
                    c.check(*x == want[i], || format!("sweep {} {}: call {} (argument {}) answers differently from a fresh process", s, how, k, i));
                    c.state(&(how, k));
                    c.outcome(*x);
                }
                c.trace();
                c.add_transitions(f.len() as u64);
            }
            c.sample(|| format!("{}: {} arguments forth and back", s, m));
        }));
    }
    for (a, b, p) in [(1i64, 1i64, 7i64), (2, 3, 11), (0, 1, 7), (-4, 0, 11), (9, 15, 7)] {
        for raw in [false, true] {
            let ms = curve_methods(p).len();
            for i in 0..ms {
                v.push(unit(format!("methods on curve {} {} {} raw={} from {}", a, b, p, raw, i), move |c| curve_object(c, a, b, p, raw, i, tier)));
            }
        }
    }
    for i in 0..poly_mutators().len() {
        v.push(unit(format!("polynomial object from {}", i), move |c| poly_object(c, i, tier)));
    }
    v
}

fn s_(s: &str) -> String {
    s.to_string()
}

fn ask<T>(m: &Method<T>, e: &mut T) -> String {
    match catch_unwind(AssertUnwindSafe(|| (m.1)(e))) {
        Ok(s) => s,
        Err(_) => String::from("refused"),
    }
}

/// every sequence of methods of length <= depth on one curve object, starting with method i.  A curve
/// built without enumeration changes when create_points is called; from then on it must answer as the
/// listed one does.
fn curve_object(c: &mut Ctx, a: i64, b: i64, p: i64, raw: bool, i: usize, tier: Tier) {
    let make = |listed: bool| {
        if listed { EllipticCurve::new(&bi(a), &bi(b), &bi(p)) } else { EllipticCurve::new_raw(&bi(a), &bi(b), &bi(p)) }
    };
    let ms = curve_methods(p);
    let want: Vec<[String; 2]> = ms.iter().map(|m| [ask(m, &mut make(false)), ask(m, &mut make(true))]).collect();
    let cp = ms.iter().position(|m| m.0 == "create_points").unwrap();
    let depth = tier.pick(3, 4);
    let mut total = 0u64;
    let mut seq = vec![i];
    loop {
        // run the sequence
        let mut e = make(!raw);
        let mut listed = !raw;
        for (k, m) in seq.iter().enumerate() {
            let got = ask(&ms[*m], &mut e);
            let w = &want[*m][listed as usize];
            if &got != w {
                let h: Vec<&str> = seq[..=k].iter().map(|x| ms[*x].0.as_str()).collect();
                c.fail(format!("on one curve object (a={} b={} p={} raw={}): {:?}: the last answers {} instead of {}", a, b, p, raw, h, got, w));
            }
            if *m == cp {
                listed = true;
            }
        }
        c.beat();
        total += seq.len() as u64;
        c.state(&seq);
        c.trace();
        // next sequence
        if seq.len() < depth {
            seq.push(0);
        } else {
            loop {
                let l = seq.len() - 1;
                if l == 0 {
                    c.add_transitions(total);
                    c.outcome(&want);
                    c.sample(|| format!("sequences of {} methods up to length {}", ms.len(), depth));
                    return;
                }
                if seq[l] + 1 < ms.len() {
                    seq[l] += 1;
                    break;
                }
                seq.pop();
            }
        }
    }
}

/// every sequence of mutators on one polynomial object with all readers after every step, against a
/// new object with the same terms
fn poly_object(c: &mut Ctx, i: usize, tier: Tier) {
    let ms = poly_mutators();
    let depth = tier.pick(4, 6);
    let mut stack: Vec<(Polynomial, Vec<usize>)> = Vec::new();
    let step = |c: &mut Ctx, p: &Polynomial, h: &[usize], m: usize| -> (Polynomial, Vec<usize>) {
        let mut q = p.clone();
        // the readers run before the change, so that anything they remember would show
        let _ = read_poly(&q);
        ask(&ms[m], &mut q);
        c.add_transitions(1);
        c.beat();
        let got = read_poly(&q);
        let mut n = Polynomial::new();
        for (k, v) in &q.terms {
            n.terms.insert(k.clone(), v.clone());
        }
        let want = read_poly(&n);
        let mut h = h.to_vec();
        h.push(m);
        c.check(got == want, || {
            format!("after {:?} on one polynomial the answers are {} instead of {}", h.iter().map(|x| ms[*x].0.as_str()).collect::<Vec<_>>(), got, want)
        });
        c.state(&h);
        c.outcome(&got);
        c.trace();
        (q, h)
    };
    let first = step(c, &pol(&[(1, 1, 0, 0), (2, 0, 1, 0), (-1, 0, 0, -1)]), &[], i);
    stack.push(first);
    while let Some((p, h)) = stack.pop() {
        if h.len() == depth {
            continue;
        }
        for m in 0..ms.len() {
            let n = step(c, &p, &h, m);
            stack.push(n);
        }
    }
    let _ = BigInt::one();
    c.sample(|| format!("sequences of {} mutators up to length {}", ms.len(), depth));
}
