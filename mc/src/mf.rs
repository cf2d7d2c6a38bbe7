//! C14-C16, C20, C21: division polynomials, q-expansions, modular polynomials, point counting

use crate::alg::parse_rp;
use crate::conv::*;
use crate::engine::*;
use crate::poly::dmul;
use crate::refm::*;
use ellipticcurve::bigint::chinese_remainder;
use ellipticcurve::elliptic_curve::EllipticCurve;
use ellipticcurve::modular_polynomial as mp;
use ellipticcurve::{delta, division_polynomial, divisor, eisenstein, j_invariant, schoof, schoof_elkies_atkins};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::BTreeMap;

fn s_(s: &str) -> String {
    s.to_string()
}

// ------------------------------------------------------------------------------------- C14

pub static C14: Prop = Prop {
    id: "C14",
    space: "psi, phi and omega as exact integer polynomials: every (a,b) in a box around zero and pairs of word-boundary values, every n up to the bound, compared with the recurrences in x alone; and, for every nonsingular curve over every odd prime field up to the bound (coefficients also unreduced), every affine point and every n up to the bound: psi_n(P) = 0 iff nP is infinity, else nP has the coordinates phi/psi^2, omega/psi^3. A state is (a,b,n) or (curve, point, n), a trace one polynomial or one multiple compared.",
    assumptions: &["phi and omega are defined for n >= 1"],
    hang: (60, 240),
    units: c14_units,
};

fn dadd(a: &[BigInt], b: &[BigInt], sb: i64) -> Vec<BigInt> {
    let n = a.len().max(b.len());
    let z = BigInt::zero();
    trim((0..n).map(|i| a.get(i).unwrap_or(&z) + b.get(i).unwrap_or(&z) * bi(sb)).collect())
}

fn dscale(a: &[BigInt], k: i64) -> Vec<BigInt> {
    a.iter().map(|x| x * bi(k)).collect()
}

fn dm(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    trim(dmul(a, b))
}

/// f_n with psi_n = f_n (n odd) or 2 y f_n (n even), for n = 0..=nmax
fn ref_f(a: &BigInt, b: &BigInt, nmax: usize) -> Vec<Vec<BigInt>> {
    let i = |v: i64| bi(v);
    let f3 = vec![-(a * a), i(12) * b, i(6) * a, i(0), i(3)];
    let f4 = vec![
        i(2) * (i(-8) * b * b - a * a * a),
        i(-8) * a * b,
        i(-10) * a * a,
        i(40) * b,
        i(10) * a,
        i(0),
        i(2),
    ];
    let mut f: Vec<Vec<BigInt>> = vec![vec![], vec![i(1)], vec![i(1)], trim(f3), trim(f4)];
    let cu = vec![b.clone(), a.clone(), i(0), i(1)];
    let ff16 = dscale(&dm(&cu, &cu), 16);
    for n in 5..=nmax {
        let m = n / 2;
        let cube = |k: usize| dm(&f[k], &dm(&f[k], &f[k]));
        let sq = |k: usize| dm(&f[k], &f[k]);
        let v = if n % 2 == 1 {
            let l = dm(&f[m + 2], &cube(m));
            let r = dm(&f[m - 1], &cube(m + 1));
            if m % 2 == 0 { dadd(&dm(&ff16, &l), &r, -1) } else { dadd(&l, &dm(&ff16, &r), -1) }
        } else {
            let l = dm(&f[m + 2], &sq(m - 1));
            let r = dm(&f[m - 2], &sq(m + 1));
            dm(&f[m], &dadd(&l, &r, -1))
        };
        f.push(v);
    }
    f
}

fn y_rp(v: &[BigInt], y: i32) -> RP {
    let mut r = RP::zero();
    for (i, c) in v.iter().enumerate() {
        r.put((i as i32, y, 0, None), c.clone());
    }
    r
}

/// (psi_n, phi_n, omega_n) in reduced form
fn ref_division(a: &BigInt, b: &BigInt, f: &[Vec<BigInt>], n: usize) -> (RP, Option<RP>, Option<RP>) {
    let cu = vec![b.clone(), a.clone(), bi(0), bi(1)];
    let cu4 = dscale(&cu, 4);
    let sq = |k: usize| dm(&f[k], &f[k]);
    let even = n % 2 == 0;
    let psi = if even { y_rp(&dscale(&f[n], 2), 1) } else { y_rp(&f[n], 0) };
    if n == 0 {
        return (psi, None, None);
    }
    let mut x = vec![bi(0)];
    x.extend(sq(n));
    let cross = dm(&f[n + 1], &f[n - 1]);
    let phi = if even { dadd(&dm(&cu4, &x), &cross, -1) } else { dadd(&x, &dm(&cu4, &cross), -1) };
    let omega = if n == 1 {
        y_rp(&[bi(1)], 1)
    } else {
        let d = dadd(&dm(&f[n + 2], &sq(n - 1)), &dm(&f[n - 2], &sq(n + 1)), -1);
        if even {
            let h: Vec<BigInt> = d
                .iter()
                .map(|c| {
                    assert!(c.is_even());
                    c / bi(2)
                })
                .collect();
            y_rp(&h, 0)
        } else {
            y_rp(&d, 1)
        }
    };
    (psi, Some(y_rp(&phi, 0)), Some(omega))
}

fn c14_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let r = tier.pick(3, 6);
    let nmax = tier.pick(13, 18);
    for a in -r..=r {
        v.push(unit(format!("a={} |b|<={} n<={}", a, r, nmax), move |c| {
            for b in -r..=r {
                c14_exact(c, &bi(a), &bi(b), nmax);
            }
        }));
    }
    let long = tier.pick(34, 40);
    for (a, b) in [(0i64, 0i64), (0, 1), (1, 0), (-1, 0), (0, -2), (-3, 5), (2, -1), (10, 13), (-7, 0), (0, 9)] {
        v.push(unit(format!("a={} b={} n<={}", a, b, long), move |c| c14_exact(c, &bi(a), &bi(b), long)));
    }
    let mut e: Vec<BigInt> = Vec::new();
    for k in [8u32, 15, 16, 31, 32, 63, 64, 128, 255] {
        for d in -1..=1 {
            e.push(two_pow(k) + bi(d));
            e.push(-(two_pow(k) + bi(d)));
        }
    }
    let en = tier.pick(7, 10);
    for (i, a) in e.iter().enumerate() {
        let bs: Vec<BigInt> =
            if tier == Tier::Thorough { e.clone() } else { vec![bi(0), bi(1), e[(i * 7 + 3) % e.len()].clone(), e[(i * 11 + 8) % e.len()].clone()] };
        let a = a.clone();
        v.push(unit(format!("a={} n<={}", a, en), move |c| {
            for b in &bs {
                c14_exact(c, &a, b, en);
                c14_exact(c, b, &a, en);
            }
        }));
    }
    let nn = tier.pick(12, 20);
    for p in primes(3, tier.pick(13, 31)) {
        for a in 0..p {
            v.push(unit(format!("points over F_{}, a={}", p, a), move |c| {
                for b in 0..p {
                    if SmallCurve::nonsingular(a, b, p) {
                        c14_points(c, a, b, p, nn, (a + 2 * b) % 5);
                    }
                }
            }));
        }
    }
    v
}

fn c14_exact(c: &mut Ctx, a: &BigInt, b: &BigInt, nmax: usize) {
    let f = ref_f(a, b, nmax + 2);
    for n in 0..=nmax {
        let (psi, phi, omega) = ref_division(a, b, &f, n);
        let l = |w: &str| format!("{}({}, {}, {})", w, a, b, n);
        let g = c.call(|| l("psi"), || division_polynomial::psi(a, b, n as i32));
        same(c, || l("psi"), &g, &psi);
        c.outcome(&psi);
        c.trace();
        if let (Some(phi), Some(omega)) = (phi, omega) {
            let g = c.call(|| l("phi"), || division_polynomial::phi(a, b, n as i32));
            same(c, || l("phi"), &g, &phi);
            let g = c.call(|| l("omega"), || division_polynomial::omega(a, b, n as i32));
            same(c, || l("omega"), &g, &omega);
            c.outcome(&omega);
            c.traces(2);
        }
        c.state(&(a.to_string(), b.to_string(), n));
    }
    c.sample(|| format!("a={} b={} n=0..{}: psi_{} has degree {}", a, b, nmax, nmax, f[nmax].len() as i64 - 1));
}

fn eval_small(r: &RP, x: i64, y: i64, p: i64) -> i64 {
    let pw = |b: i64, n: i32| {
        let mut r = 1 % p;
        for _ in 0..n {
            r = r * b % p;
        }
        r
    };
    let bp = bi(p);
    let mut s = 0;
    for (k, c) in &r.0 {
        s = (s + md(c, &bp).to_i64().unwrap() * pw(x, k.0) % p * pw(y, k.1)) % p;
    }
    s
}

fn c14_points(c: &mut Ctx, a: i64, b: i64, p: i64, nmax: i64, shift: i64) {
    let e = SmallCurve::new(a, b, p);
    let (k, l) = crate::ec::REPS[shift as usize];
    let (ra, rb) = (bi(a) + bi(k) * bi(p), bi(b) + bi(l) * bi(p));
    let mut mult: Vec<Pt> = vec![None; e.pts.len()];
    for n in 1..=nmax {
        let lab = |w: &str| format!("{}({}, {}, {})", w, ra, rb, n);
        let get = |c: &mut Ctx, w: &'static str| -> RP {
            let g = c.call(
                || lab(w),
                || match w {
                    "psi" => division_polynomial::psi(&ra, &rb, n as i32),
                    "phi" => division_polynomial::phi(&ra, &rb, n as i32),
                    _ => division_polynomial::omega(&ra, &rb, n as i32),
                },
            );
            match rp(&g) {
                Ok(r) => r,
                Err(e) => c.fail(format!("{}: {}", lab(w), e)),
            }
        };
        let (psi, phi, om) = (get(c, "psi"), get(c, "phi"), get(c, "omega"));
        for (r, w) in [(&psi, "psi"), (&phi, "phi"), (&om, "omega")] {
            c.check(r.0.keys().all(|k| k.0 >= 0 && (0..=1).contains(&k.1) && k.2 == 0 && k.3.is_none()), || format!("{} is not in reduced form: {:?}", lab(w), r));
        }
        for (i, q) in e.pts.iter().enumerate() {
            mult[i] = e.add(mult[i], *q);
            let (x, y) = match q {
                None => continue,
                Some(v) => *v,
            };
            let z = eval_small(&psi, x, y, p);
            c.check((z == 0) == mult[i].is_none(), || format!("{} is {} at ({},{}) of a={} b={} over F_{}, but {}P = {:?}", lab("psi"), z, x, y, a, b, p, n, mult[i]));
            if let Some((mx, my)) = mult[i] {
                let iz = inv_small(z, p);
                let gx = eval_small(&phi, x, y, p) * iz % p * iz % p;
                let gy = eval_small(&om, x, y, p) * iz % p * iz % p * iz % p;
                c.check((gx, gy) == (mx, my), || format!("division polynomials (a={} b={}) give {}({},{}) = ({},{}) over F_{}, it is ({},{})", ra, rb, n, x, y, gx, gy, p, mx, my));
            }
            c.state(&(a, b, i, n));
            c.trace();
        }
    }
    c.sample(|| format!("a={} b={} over F_{}: {} points, n=1..{}", a, b, p, e.pts.len(), nmax));
}

// ------------------------------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    space: "E4, delta/q, its reciprocal, q j and j at every order 0..N, every coefficient compared with Jacobi's triple product, multiplicative divisor sums and power series inversion; divisor sums for every n up to a bound and every power up to a bound, and single large n. A state is an argument tuple, a trace a result compared.",
    assumptions: &[],
    hang: (120, 300),
    units: c15_units,
};

fn series(v: &[BigInt], shift: i32) -> RP {
    let mut r = RP::zero();
    for (i, c) in v.iter().enumerate() {
        r.put((0, 0, i as i32 + shift, None), c.clone());
    }
    r
}

fn c15_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for n in tier.pick([2147483646i32, 2147483647], [2147483646, 2147483647]) {
        v.push(unit(format!("divisor sums of {}", n), move |c| c15_sigma(c, &[n], &[3])));
    }
    // the expensive orders first
    for n in (0..=tier.pick(56, 100)).rev() {
        v.push(unit(format!("delta and j at order {}", n), move |c| {
            let d = ser_delta(n);
            one_series(c, s_("delta1"), n, delta::delta1, &series(&d, 0));
            one_series(c, s_("delta1_inverse"), n, delta::delta1_inverse, &series(&ser_inv(&d, n), 0));
            one_series(c, s_("j_invariant1"), n, j_invariant::j_invariant1, &series(&ser_j1(n), 0));
            one_series(c, s_("j_invariant"), n, j_invariant::j_invariant, &series(&ser_j1(n + 1), -1));
        }));
    }
    // past 2^127 for the reciprocal too
    for n in tier.pick(vec![92, 96], vec![104, 116, 128]) {
        v.push(unit(format!("reciprocal of delta at order {}", n), move |c| {
            one_series(c, s_("delta1_inverse"), n, delta::delta1_inverse, &series(&ser_inv(&ser_delta(n), n), 0));
        }));
    }
    v.push(unit(s_("delta1 at larger orders"), move |c| {
        for n in (41..=tier.pick(110, 260)).step_by(tier.pick(3, 1)) {
            one_series(c, s_("delta1"), n, delta::delta1, &series(&ser_delta(n), 0));
        }
    }));
    v.push(unit(s_("E4"), move |c| {
        for n in 0..=tier.pick(300, 900) {
            one_series(c, s_("eisenstein4"), n, eisenstein::eisenstein4, &series(&ser_e4(n), 0));
        }
    }));
    let nmax = tier.pick(1500, 6000);
    for lo in (1..=nmax).step_by(250) {
        v.push(unit(format!("divisor sums {}..", lo), move |c| {
            let ns: Vec<i32> = (lo..lo + 250).collect();
            c15_sigma(c, &ns, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15]);
        }));
    }
    v.push(unit(s_("divisor sums, all powers"), move |c| {
        let ns: Vec<i32> = (1..=tier.pick(72, 200)).collect();
        let ks: Vec<i32> = (0..=tier.pick(48, 100)).chain([127, 128, 255, 256, 1000]).collect();
        c15_sigma(c, &ns, &ks);
    }));
    v.push(unit(s_("divisor sums of structured numbers"), move |c| {
        let mut ns: Vec<i32> = vec![46340, 46341, 46337 * 2, 65535, 65536, 65537, 131071, 131072, 360360, 720720, 1000003, 999983, 531441, 823543, 510510];
        for k in 10..=20 {
            ns.push((1 << k) - 1);
            ns.push(1 << k);
            ns.push((1 << k) + 1);
        }
        for p in [101i32, 103, 251, 257, 509, 997, 1009] {
            ns.push(p * p);
            ns.push(p * 2);
            ns.push(p * (p + 2));
        }
        c15_sigma(c, &ns, &[0, 1, 2, 3, 5, 11]);
    }));
    v
}

fn one_series(c: &mut Ctx, name: String, n: usize, f: fn(i32) -> ellipticcurve::polynomial::Polynomial, want: &RP) {
    let l = || format!("{}({})", name, n);
    let g = c.call(l, || f(n as i32));
    same(c, l, &g, want);
    c.state(&(name.as_str(), n));
    c.outcome(want);
    c.trace();
    c.sample(|| format!("{}({}): {} coefficients", name, n, want.0.len()));
}

fn c15_sigma(c: &mut Ctx, ns: &[i32], ks: &[i32]) {
    for n in ns {
        for k in ks {
            let l = || format!("sigma_divisor({}, {})", n, k);
            let g = c.call(l, || divisor::sigma_divisor(*n, *k));
            let want = sigma(*n as u64, *k as u32);
            c.eq(l, &g, &want);
            c.state(&(n, k));
            c.outcome(&want.to_string());
            c.trace();
        }
    }
    c.sample(|| format!("sigma_k(n), n={}..{}, k={}..{}", ns[0], ns[ns.len() - 1], ks[0], ks[ks.len() - 1]));
}

// ------------------------------------------------------------------------------------- C16

/// published modular polynomials, x-exponent >= y-exponent, the rest by symmetry
const PHI2: &str = "x^3 - x^2 y^2 + 1488 x^2 y - 162000 x^2 + 1488 x y^2 + 40773375 x y + 8748000000 x + y^3 - 162000 y^2 + 8748000000 y - 157464000000000";
const PHI3: &str = "x^4 - x^3 y^3 + 2232 x^3 y^2 - 1069956 x^3 y + 36864000 x^3 + 2232 x^2 y^3 + 2587918086 x^2 y^2 + 8900222976000 x^2 y + 452984832000000 x^2 - 1069956 x y^3 + 8900222976000 x y^2 - 770845966336000000 x y + 1855425871872000000000 x + y^4 + 36864000 y^3 + 452984832000000 y^2 + 1855425871872000000000 y";
const PHI5: &str = "x^6 - x^5 y^5 + 3720 x^5 y^4 - 4550940 x^5 y^3 + 2028551200 x^5 y^2 - 246683410950 x^5 y + 1963211489280 x^5 + 3720 x^4 y^5 + 1665999364600 x^4 y^4 + 107878928185336800 x^4 y^3 + 383083609779811215375 x^4 y^2 + 128541798906828816384000 x^4 y + 1284733132841424456253440 x^4 - 4550940 x^3 y^5 + 107878928185336800 x^3 y^4 - 441206965512914835246100 x^3 y^3 + 26898488858380731577417728000 x^3 y^2 - 192457934618928299655108231168000 x^3 y + 280244777828439527804321565297868800 x^3 + 2028551200 x^2 y^5 + 383083609779811215375 x^2 y^4 + 26898488858380731577417728000 x^2 y^3 + 5110941777552418083110765199360000 x^2 y^2 + 36554736583949629295706472332656640000 x^2 y + 6692500042627997708487149415015068467200 x^2 - 246683410950 x y^5 + 128541798906828816384000 x y^4 - 192457934618928299655108231168000 x y^3 + 36554736583949629295706472332656640000 x y^2 - 264073457076620596259715790247978782949376 x y + 53274330803424425450420160273356509151232000 x + y^6 + 1963211489280 y^5 + 1284733132841424456253440 y^4 + 280244777828439527804321565297868800 y^3 + 6692500042627997708487149415015068467200 y^2 + 53274330803424425450420160273356509151232000 y + 141359947154721358697753474691071362751004672000";

pub fn published(l: i32) -> RP {
    let t = match l {
        2 => PHI2,
        3 => PHI3,
        _ => PHI5,
    };
    parse_rp(t)
}

pub static C16: Prop = Prop {
    id: "C16",
    space: "every prime p in 2, 3, 5, 7: the modular polynomial is symmetric, monic of degree p+1, satisfies the Kronecker congruence, vanishes at (j(q), j(q^p)) to an order far beyond the equations, and has the published coefficients for 2, 3, 5; every coefficient of every derived equation (level 7: thorough only) and of the q-form compared with power series arithmetic, and satisfied by the computed coefficients; the generic polynomial term by term for every prime up to a larger bound. A state is a (p, object), a trace one coefficient or identity compared.",
    assumptions: &["the published modular polynomials of level 2, 3, 5"],
    hang: (600, 2400),
    units: c16_units,
};

fn c16_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in [7, 5, 3, 2] {
        v.push(unit(format!("modular polynomial of level {}", p), move |c| c16_poly(c, p)));
        v.push(unit(format!("q-form of level {}", p), move |c| c16_q(c, p)));
        // runs the whole computation twice: three minutes at level 7
        if p <= tier.pick(5, 7) {
            v.push(unit(format!("equations of level {}", p), move |c| c16_list(c, p)));
        }
    }
    for p in primes(2, tier.pick(61, 127)) {
        v.push(unit(format!("generic polynomial of level {}", p), move |c| c16_generic(c, p as i32)));
    }
    v
}

fn generic(p: i32) -> RP {
    let mut r = RP::zero();
    r.put((p + 1, 0, 0, None), bi(1));
    r.put((0, p + 1, 0, None), bi(1));
    for i in 0..=p {
        for j in 0..=p {
            r.put((i, j, 0, Some((i.min(j), i.max(j)))), bi(1));
        }
    }
    r
}

fn c16_generic(c: &mut Ctx, p: i32) {
    let l = || format!("subscripted_variable_modular_polynomial({})", p);
    let g = c.call(l, || mp::subscripted_variable_modular_polynomial(p));
    same(c, l, &g, &generic(p));
    c.state(&p);
    c.outcome(&p);
    c.traces(generic(p).0.len() as u64);
    c.sample(|| format!("level {}: {} terms", p, generic(p).0.len()));
}

/// j1^k for k = 0..=kmax, coefficients through q^n (j1 = q j)
fn j_powers(kmax: usize, n: usize) -> Vec<Vec<BigInt>> {
    let j = ser_j1(n);
    let mut v = vec![vec![bi(1)]];
    for k in 0..kmax {
        let t = ser_mul(&v[k], &j, n);
        v.push(t);
    }
    v
}

/// coefficients of q^lo .. q^hi of j(q)^a j(q^p)^b
fn jj(pw: &[Vec<BigInt>], a: usize, b: usize, p: usize, lo: i32, hi: i32) -> Vec<BigInt> {
    let shift = -((a + p * b) as i32);
    let n = (hi - shift).max(0) as usize;
    let mut stretched = vec![BigInt::zero(); n + 1];
    for (i, x) in pw[b].iter().enumerate() {
        if i * p <= n {
            stretched[i * p] = x.clone();
        }
    }
    let m = ser_mul(&pw[a], &stretched, n);
    (lo..=hi)
        .map(|k| {
            let i = k - shift;
            if i < 0 || i as usize >= m.len() { BigInt::zero() } else { m[i as usize].clone() }
        })
        .collect()
}

/// the q-form by power series: for each q-exponent -(p^2+p)..=0, variable -> coefficient
fn ref_q(p: i32) -> Vec<BTreeMap<Option<(i32, i32)>, BigInt>> {
    let lo = -(p * p + p);
    let n = 2 * (p * p + p) as usize + 2;
    let pw = j_powers(p as usize + 1, n);
    let mut out = vec![BTreeMap::new(); (p * p + p + 1) as usize];
    for (k, _) in &generic(p).0 {
        let s = jj(&pw, k.0 as usize, k.1 as usize, p as usize, lo, 0);
        for (i, x) in s.iter().enumerate() {
            let e: &mut BigInt = out[i].entry(k.3).or_insert_with(BigInt::zero);
            *e += x;
        }
    }
    for m in &mut out {
        let z: Vec<Option<(i32, i32)>> = m.iter().filter(|(_, v)| v.is_zero()).map(|(k, _)| *k).collect();
        for k in z {
            m.remove(&k);
        }
    }
    out
}

fn c16_q(c: &mut Ctx, p: i32) {
    let l = || format!("subscripted_variable_modular_polynomial_q({})", p);
    let g = c.call(l, || mp::subscripted_variable_modular_polynomial_q(p));
    let mut want = RP::zero();
    for (i, m) in ref_q(p).iter().enumerate() {
        for (v, x) in m {
            want.put((0, 0, i as i32 - p * p - p, *v), x.clone());
        }
    }
    same(c, l, &g, &want);
    c.state(&p);
    c.outcome(&want);
    c.traces(want.0.len() as u64);
    c.sample(|| format!("q-form of level {}: {} terms", p, want.0.len()));
}

fn c16_list(c: &mut Ctx, p: i32) {
    let l = || format!("subscripted_variable_modular_polynomial_list({})", p);
    let list = c.call(l, || mp::subscripted_variable_modular_polynomial_list(p));
    let want = ref_q(p);
    c.eq(|| format!("length of {}", l()), &list.len(), &want.len());
    let m = if p <= 5 { published(p) } else { ref_modular(c, p) };
    for (i, g) in list.iter().enumerate() {
        let mut w = RP::zero();
        for (v, x) in &want[i] {
            w.put((0, 0, 0, *v), x.clone());
        }
        same(c, || format!("entry {} of {}", i, l()), g, &w);
        let mut s = BigInt::zero();
        for (k, x) in &w.0 {
            s += match k.3 {
                None => x.clone(),
                Some((i, j)) => x * m.0.get(&(i, j, 0, None)).cloned().unwrap_or_else(BigInt::zero),
            };
        }
        c.check(s.is_zero(), || format!("the modular polynomial of level {} does not satisfy equation {}", p, i));
        c.state(&i);
        c.outcome(&(p, i));
        c.traces(w.0.len() as u64);
    }
    c.sample(|| format!("level {}: {} equations", p, list.len()));
}

/// the crate's own polynomial, for levels without a typed-in one
fn ref_modular(c: &mut Ctx, p: i32) -> RP {
    let g = c.call(|| format!("modular_polynomial({})", p), || mp::modular_polynomial(p));
    match rp(&g) {
        Ok(r) => r,
        Err(e) => c.fail(format!("modular_polynomial({}): {}", p, e)),
    }
}

fn c16_poly(c: &mut Ctx, p: i32) {
    let m = ref_modular(c, p);
    let l = || format!("modular_polynomial({}) = {:?}", p, m);
    if p <= 5 {
        c.check(m == published(p), || format!("{}, published is {:?}", l(), published(p)));
    }
    for (k, v) in &m.0 {
        c.check(k.0 >= 0 && k.1 >= 0 && k.2 == 0 && k.3.is_none(), || format!("{}: term {:?}", l(), k));
        c.check(k.0 <= p + 1 && k.1 <= p + 1, || format!("{}: degree", l()));
        c.check(m.0.get(&(k.1, k.0, 0, None)) == Some(v), || format!("{} is not symmetric at {:?}", l(), k));
        if k.0 == p + 1 {
            c.check(k.1 == 0 && v.is_one(), || format!("{} is not monic", l()));
        }
        c.state(k);
        c.outcome(v);
    }
    c.check(m.0.contains_key(&(p + 1, 0, 0, None)), || format!("{} has not degree {}", l(), p + 1));
    // Kronecker
    let mut kr = m.clone();
    kr.put((p + 1, 0, 0, None), bi(-1));
    kr.put((0, p + 1, 0, None), bi(-1));
    kr.put((p, p, 0, None), bi(1));
    kr.put((1, 1, 0, None), bi(1));
    // (x^p - y)(x - y^p) = x^(p+1) - x^p y^p - x y + y^(p+1)
    let rest = kr.modp(&bi(p as i64));
    c.check(rest.is_zero(), || format!("{} is not congruent to (x^p - y)(x - y^p) mod {}: {:?} left", l(), p, rest));
    // the identity
    let lo = -(p * p + p);
    let hi = p * p + 10;
    let pw = j_powers(p as usize + 1, (hi - lo) as usize + 1);
    let mut sum = vec![BigInt::zero(); (hi - lo + 1) as usize];
    for (k, v) in &m.0 {
        for (i, x) in jj(&pw, k.0 as usize, k.1 as usize, p as usize, lo, hi).iter().enumerate() {
            sum[i] += v * x;
        }
    }
    for (i, x) in sum.iter().enumerate() {
        c.check(x.is_zero(), || format!("coefficient of q^{} in Phi_{}(j(q), j(q^{})) is {}", i as i32 + lo, p, p, x));
        c.trace();
    }
    c.traces(m.0.len() as u64);
    c.sample(|| format!("Phi_{}: {} terms, identity through q^{}", p, m.0.len(), hi));
}

// ------------------------------------------------------------------------------------- C20

pub static C20: Prop = Prop {
    id: "C20",
    space: "every nonsingular curve (every a, b) over every odd prime field up to the bound, plus coefficients shifted by multiples of q (to 2^62 q) over smaller fields, plus one curve per trace (thorough: per j-invariant and trace) over larger fields: the moduli reported, every residue against the exhaustive point count, and their combination by Chinese remaindering. A state is a (curve, representative), a trace one run compared.",
    assumptions: &[],
    hang: (240, 900),
    units: c20_units,
};

fn c20_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    if tier == Tier::Thorough {
        for (q, a, b) in [(67i64, 1i64, 1i64), (61, 1, 5), (61, 0, 3), (61, 4, 0), (59, 1, 1), (53, 0, 1), (47, 1, 0)] {
            v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
        }
        for q in [53, 47] {
            for (a, b) in per_trace(q) {
                v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
            }
        }
        for q in [43i64, 41, 37] {
            // one curve per number of points
            let mut seen = std::collections::BTreeMap::new();
            for (a, b) in curves(q) {
                seen.entry(SmallCurve::new(a, b, q).pts.len()).or_insert((a, b));
            }
            for (_, (a, b)) in seen {
                v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
            }
        }
        for q in [31i64, 29] {
            // one curve per (j, number of points)
            let mut seen = std::collections::BTreeMap::new();
            for (a, b) in curves(q) {
                seen.entry((j_small(a, b, q), SmallCurve::new(a, b, q).pts.len())).or_insert((a, b));
            }
            for (_, (a, b)) in seen {
                v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
            }
        }
    } else {
        for (q, a, b) in [(53i64, 2i64, 7i64), (47, 1, 3), (41, 0, 3), (37, 5, 0), (37, 0, 2)] {
            v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
        }
        for q in [41, 37] {
            for (a, b) in per_trace(q) {
                v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
            }
        }
        // one curve per (j, number of points)
        for q in [31i64, 29, 23, 19] {
            let mut seen = std::collections::BTreeMap::new();
            for (a, b) in curves(q) {
                let n = SmallCurve::new(a, b, q).pts.len();
                seen.entry(if q == 19 { (j_small(a, b, q), n) } else { (0, n) }).or_insert((a, b));
            }
            for (_, (a, b)) in seen {
                v.push(unit(format!("F_{} a={} b={}", q, a, b), move |c| c20_one(c, a, b, q, 0, 0)));
            }
        }
    }
    for q in primes(3, tier.pick(17, 23)).into_iter().rev() {
        for a in 0..q {
            v.push(unit(format!("F_{} a={}", q, a), move |c| {
                for b in 0..q {
                    if SmallCurve::nonsingular(a, b, q) {
                        c20_one(c, a, b, q, 0, 0);
                    }
                }
            }));
        }
    }
    for q in primes(3, tier.pick(11, 13)).into_iter().rev() {
        for a in 0..q {
            v.push(unit(format!("F_{} a={}, representatives", q, a), move |c| {
                for b in 0..q {
                    if SmallCurve::nonsingular(a, b, q) {
                        for (k, l) in crate::ec::REPS.iter().skip(1) {
                            if q <= 7 || (a + b + k + l) % 4 == 0 {
                                c20_one(c, a, b, q, *k, *l);
                            }
                        }
                    }
                }
            }));
        }
    }
    crate::ec::wide_units(&mut v, tier.pick(vec![3, 5], vec![3, 5, 7]), tier == Tier::Thorough, c20_rep);
    v
}

/// a curve for every trace of Frobenius modulo 15 that occurs
fn per_trace(q: i64) -> Vec<(i64, i64)> {
    let mut seen = std::collections::BTreeMap::new();
    for (a, b) in crate::ec::per_order(q) {
        seen.entry(count_points(a, b, q) % 15).or_insert((a, b));
    }
    seen.values().cloned().collect()
}

fn c20_one(c: &mut Ctx, a: i64, b: i64, q: i64, k: i64, l: i64) {
    c20_rep(c, a, b, q, &(bi(a) + bi(k) * bi(q)), &(bi(b) + bi(l) * bi(q)));
}

fn c20_rep(c: &mut Ctx, a: i64, b: i64, q: i64, ra: &BigInt, rb: &BigInt) {
    let trace = q + 1 - SmallCurve::new(a, b, q).pts.len() as i64;
    let lab = || format!("schoof({}, {}, {})", ra, rb, q);
    let r = c.call(lab, || schoof::schoof(ra, rb, q as i32));
    let mut want: Vec<i64> = vec![2];
    want.extend([3i64, 5].iter().filter(|l| **l < q));
    let got: Vec<(BigInt, BigInt)> = r.iter().map(|m| (m.l.clone(), m.r.clone())).collect();
    let mut sorted = got.clone();
    sorted.sort();
    let exp: Vec<(BigInt, BigInt)> = want.iter().map(|l| (bi(*l), bi(trace.rem_euclid(*l)))).collect();
    c.check(sorted == exp, || format!("{}: (modulus, residue) {:?}, the trace is {}", lab(), got, trace));
    let crt = c.call(|| format!("chinese_remainder of {:?}", got), || chinese_remainder(&r));
    let m: i64 = want.iter().product();
    c.check(crt.l == bi(m) && md(&(&crt.r - bi(trace)), &bi(m)).is_zero(), || format!("{}: combined to {} mod {}, the trace is {}", lab(), crt.r, crt.l, trace));
    c.state(&(q, ra.to_string(), rb.to_string()));
    c.outcome(&(q, trace));
    c.trace();
    c.sample(|| format!("{}: {:?}, trace {}", lab(), got, trace));
}

// ------------------------------------------------------------------------------------- C21

pub static C21: Prop = Prop {
    id: "C21",
    space: "levels 2 and 3: every nonsingular curve over every F_p, 5 <= p <= the bound, with listed points and raw, coefficients also unreduced; one curve per j-invariant over larger fields; a few curves over fields with p to 16411 (thorough 65537); level 5: one curve per j-invariant over small fields. The gcd, its degree, the Elkies flag and the reported j-invariants are compared with the roots found by trying every element of F_p in the published modular polynomial. A state is (curve, level), a trace one run compared.",
    assumptions: &["the published modular polynomials of level 2, 3, 5"],
    hang: (120, 600),
    units: c21_units,
};

fn c21_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(5, tier.pick(17, 31)).into_iter().rev() {
        for (a, b) in per_j(p) {
            v.push(unit(format!("level 5, F_{} a={} b={}", p, a, b), move |c| {
                c21_one(c, &bi(a), &bi(b), a, b, p, 5, true);
                c21_one(c, &bi(a), &bi(b), a, b, p, 5, false);
            }));
        }
    }
    for p in primes(5, tier.pick(13, 31)) {
        for a in 0..p {
            v.push(unit(format!("levels 2 and 3, F_{} a={}", p, a), move |c| {
                for b in 0..p {
                    if SmallCurve::nonsingular(a, b, p) {
                        for l in [2, 3] {
                            c21_one(c, &bi(a), &bi(b), a, b, p, l, false);
                            let (k, m) = crate::ec::REPS[((a + b) % 5) as usize];
                            c21_one(c, &bi(a + k * p), &bi(b + m * p), a, b, p, l, true);
                        }
                    }
                }
            }));
        }
    }
    let more: Vec<i64> = tier.pick(vec![17, 19, 23, 29, 31, 37, 41, 43, 61, 101], {
        let mut v = primes(32, 140);
        v.extend([257, 509, 1009]);
        v
    });
    for p in more {
        v.push(unit(format!("levels 2 and 3, F_{}, one curve per j", p), move |c| {
            for (a, b) in per_j(p) {
                for l in [2, 3] {
                    c21_one(c, &bi(a), &bi(b), a, b, p, l, true);
                    if p < 150 {
                        c21_one(c, &bi(a), &bi(b), a, b, p, l, false);
                    }
                }
            }
        }));
    }
    c21_large(&mut v, tier);
    crate::ec::wide_units(&mut v, tier.pick(vec![5, 7], vec![5, 7, 11]), tier == Tier::Thorough, |c, a, b, p, ra, rb| {
        for l in [2, 3] {
            c21_one(c, ra, rb, a, b, p, l, true);
        }
    });
    v
}

/// a few curves over fields in which the roots, the degrees and the number of steps are large
fn c21_large(v: &mut Vec<Unit>, tier: Tier) {
    // past 20 bits
    for (p, b, l) in [(1048583i64, 1i64, 2i32), (1048583, 2, 3), (1048573, 1, 2), (2097169, 3, 2)] {
        v.push(unit(format!("level {}, F_{} a=1 b={}", l, p, b), move |c| c21_one(c, &bi(1), &bi(b), 1, b, p, l, true)));
    }
    // past 16 and 32 bit products
    for p in [46349i64, 65537, 100003] {
        for b in 1..=tier.pick(3i64, 12) {
            v.push(unit(format!("levels 2 and 3, F_{} a=1 b={}", p, b), move |c| {
                for l in [2, 3] {
                    c21_one(c, &bi(1), &bi(b), 1, b, p, l, true);
                }
            }));
        }
    }
    for p in tier.pick(vec![263i64, 521, 1009, 4099, 16411], vec![263, 521, 1009, 2053, 4099, 8209, 16411, 32749, 32771, 46337, 46349, 65521, 65537]) {
        for b in 1..=tier.pick(12i64, 20) {
            v.push(unit(format!("levels 2 and 3, F_{} a=1 b={}", p, b), move |c| {
                for (a, b) in [(1, b), (b, 1), (0, b), (p - b, p - 2)] {
                    if (p < 2000 || a == 1) && SmallCurve::nonsingular(a, b, p) {
                        for l in [2, 3] {
                            c21_one(c, &bi(a), &bi(b), a, b, p, l, true);
                        }
                    }
                }
            }));
        }
    }
}

/// the first curve of every j-invariant
pub fn per_j(p: i64) -> Vec<(i64, i64)> {
    let mut seen = BTreeMap::new();
    for a in 0..p {
        for b in 0..p {
            if seen.len() == p as usize {
                break;
            }
            if SmallCurve::nonsingular(a, b, p) {
                seen.entry(j_small(a, b, p)).or_insert((a, b));
            }
        }
    }
    seen.values().cloned().collect()
}

#[allow(clippy::too_many_arguments)]
fn c21_one(c: &mut Ctx, ra: &BigInt, rb: &BigInt, a: i64, b: i64, p: i64, l: i32, raw: bool) {
    let j = j_small(a, b, p);
    let phi = published(l);
    let mut co = vec![0i64; l as usize + 2];
    for (k, v) in &phi.0 {
        let mut t = md(v, &bi(p)).to_i64().unwrap();
        for _ in 0..k.1 {
            t = t * j % p;
        }
        co[k.0 as usize] = (co[k.0 as usize] + t) % p;
    }
    let roots: Vec<i64> = (0..p).filter(|x| co.iter().rev().fold(0, |s, k| (s * x + k) % p) == 0).collect();
    let mut g = vec![bi(1)];
    for r in &roots {
        g = dense_mod(&dmul(&g, &[bi(-r), bi(1)]), &bi(p));
    }
    let lab = || format!("sea of a={} b={} over F_{}, level {}", ra, rb, p, l);
    let ec = c.call(lab, || if raw { EllipticCurve::new_raw(ra, rb, &bi(p)) } else { EllipticCurve::new(ra, rb, &bi(p)) });
    let r = c.call(lab, || schoof_elkies_atkins::sea(&ec, l));
    same(c, || format!("gcd in {}", lab()), &r.gcd, &dense_to_rp(&g));
    c.eq(|| format!("degree in {}", lab()), &(r.degree_of_gcd as usize), &roots.len());
    c.eq(|| format!("Elkies in {}", lab()), &r.is_elkies_prime, &!roots.is_empty());
    let want: Vec<BigInt> = roots.iter().take(2).map(|x| bi(*x)).collect();
    c.eq(|| format!("j-invariants in {} (roots {:?})", lab(), roots), &r.isogeny_j_invariants, &want);
    c.state(&(p, ra.to_string(), rb.to_string(), l, raw));
    c.outcome(&(p, l, &roots));
    c.trace();
    c.sample(|| format!("{}: roots {:?}", lab(), roots));
}
