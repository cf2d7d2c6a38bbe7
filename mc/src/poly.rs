//! C09, C10, C11, C12, C13: polynomials

use crate::conv::*;
use crate::engine::*;
use crate::refm::*;
use ellipticcurve::bigint::Power;
use ellipticcurve::polynomial::Polynomial;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

pub const K1: Key = (0, 0, 0, None);
pub const KX: Key = (1, 0, 0, None);
pub const KX2: Key = (2, 0, 0, None);
pub const KX3: Key = (3, 0, 0, None);
pub const KY: Key = (0, 1, 0, None);
pub const KXY: Key = (1, 1, 0, None);
pub const KQ: Key = (0, 0, 1, None);
pub const KQM: Key = (0, 0, -1, None);
pub const KV: Key = (0, 0, 0, Some((0, 0)));

// ------------------------------------------------------------------------------------- C09

pub static C09: Prop = Prop {
    id: "C09",
    space: "breadth-first exploration of operation histories (+, -, *, negation, in-place forms, term operands, powers, exact division by terms) from every generator over an alphabet of operands that collide and cancel, complete to length 3 (thorough 4) and one step further from the 1200 (12000) smallest values; all ordered pairs of polynomials over several small supports with every operator in every owned/borrowed/in-place form; long dense, sparse and big-coefficient operands with lengths to 300 and word-boundary coefficients to 2^256; sparse polynomials over every subset of an exponent grid; powers in three exponent types. A state is a polynomial value, a transition one real operation, a trace a history whose result equals the sparse reference polynomial.",
    assumptions: &["exponents are far enough from the i32 limits that their sums and products fit"],
    hang: (30, 120),
    units: c09_units,
};

type P = (Polynomial, RP);

fn mk(r: &RP) -> P {
    (poly(r), r.clone())
}

/// all forms of a binary operator on two polynomials, against the model
fn all_forms(c: &mut Ctx, a: &P, b: &P) {
    let (pa, ra) = a;
    let (pb, rb) = b;
    macro_rules! forms {
        ($op:tt, $asg:tt, $want:expr, $name:expr) => {{
            let want: RP = $want;
            let lab = |f: &str| format!("({:?}) {} ({:?}) [{}]", ra, $name, rb, f);
            let r = c.call(|| lab("&a,&b"), || pa $op pb);
            same(c, || lab("&a,&b"), &r, &want);
            c.check(r == poly(&want), || format!("{}: not equal to the same value built directly", lab("&a,&b")));
            c.check(r.is_zero() == want.is_zero(), || format!("{}: wrong is_zero", lab("&a,&b")));
            let r = c.call(|| lab("a,&b"), || pa.clone() $op pb);
            same(c, || lab("a,&b"), &r, &want);
            let r = c.call(|| lab("&a,b"), || pa $op pb.clone());
            same(c, || lab("&a,b"), &r, &want);
            let r = c.call(|| lab("a,b"), || pa.clone() $op pb.clone());
            same(c, || lab("a,b"), &r, &want);
            let mut x = pa.clone();
            c.call(|| lab("a op= &b"), || x $asg pb);
            same(c, || lab("a op= &b"), &x, &want);
            let mut x = pa.clone();
            c.call(|| lab("a op= b"), || x $asg pb.clone());
            same(c, || lab("a op= b"), &x, &want);
            intact(c, &lab("left"), pa, ra);
            intact(c, &lab("right"), pb, rb);
        }};
    }
    forms!(+, +=, ra.add(rb), "+");
    forms!(-, -=, ra.sub(rb), "-");
    if !ra.clash(rb) {
        forms!(*, *=, ra.mul(rb), "*");
    }
    let want_eq = ra == rb;
    c.check((pa == pb) == want_eq, || format!("({:?}) == ({:?}) answers {}", ra, rb, !want_eq));
    c.traces(1);
}

fn term_forms(c: &mut Ctx, a: &P, k: &Key, co: &BigInt) {
    let (pa, ra) = a;
    let t = term(k, co);
    let rt = RP::mono(*k, co.clone());
    let lab = |f: &str| format!("({:?}) {} term ({:?})", ra, f, rt);
    macro_rules! pt {
        ($op:tt, $want:expr) => {{
            let want: RP = $want;
            let r = c.call(|| lab(stringify!($op)), || pa $op &t);
            same(c, || lab(stringify!($op)), &r, &want);
            let r = c.call(|| lab(stringify!($op)), || pa.clone() $op t.clone());
            same(c, || lab(stringify!($op)), &r, &want);
            let r = c.call(|| lab(stringify!($op)), || pa $op t.clone());
            same(c, || lab(stringify!($op)), &r, &want);
            let r = c.call(|| lab(stringify!($op)), || pa.clone() $op &t);
            same(c, || lab(stringify!($op)), &r, &want);
        }};
    }
    macro_rules! tp {
        ($op:tt, $want:expr) => {{
            let want: RP = $want;
            let l = || format!("term ({:?}) {} ({:?})", rt, stringify!($op), ra);
            let r = c.call(l, || &t $op pa);
            same(c, l, &r, &want);
            let r = c.call(l, || t.clone() $op pa.clone());
            same(c, l, &r, &want);
            let r = c.call(l, || t.clone() $op pa);
            same(c, l, &r, &want);
            let r = c.call(l, || &t $op pa.clone());
            same(c, l, &r, &want);
        }};
    }
    pt!(+, ra.add(&rt));
    tp!(+, ra.add(&rt));
    pt!(-, ra.sub(&rt));
    tp!(-, rt.sub(ra));
    if !ra.clash(&rt) {
        pt!(*, ra.mul(&rt));
        tp!(*, ra.mul(&rt));
    }
    let mut x = pa.clone();
    c.call(|| lab("+="), || x += &t);
    same(c, || lab("+="), &x, &ra.add(&rt));
    let mut x = pa.clone();
    c.call(|| lab("+="), || x += t.clone());
    same(c, || lab("+="), &x, &ra.add(&rt));
    if !co.is_zero() && k.3.is_none() && ra.0.values().all(|v| (v % co).is_zero()) {
        let want = RP(ra.0.iter().map(|(l, v)| ((l.0 - k.0, l.1 - k.1, l.2 - k.2, l.3), v / co)).collect());
        pt!(/, want.clone());
        let tpol = poly(&rt);
        let r = c.call(|| lab("/ pol"), || pa / &tpol);
        same(c, || lab("/ pol"), &r, &want);
        let r = c.call(|| lab("/ pol"), || pa.clone() / tpol.clone());
        same(c, || lab("/ pol"), &r, &want);
        let mut x = pa.clone();
        c.call(|| lab("/= term"), || x /= &t);
        same(c, || lab("/= term"), &x, &want);
        let mut x = pa.clone();
        c.call(|| lab("/= term"), || x /= t.clone());
        same(c, || lab("/= term"), &x, &want);
        let mut x = pa.clone();
        c.call(|| lab("/= pol"), || x /= &tpol);
        same(c, || lab("/= pol"), &x, &want);
        let mut x = pa.clone();
        c.call(|| lab("/= pol"), || x /= tpol.clone());
        same(c, || lab("/= pol"), &x, &want);
    }
    // a term over a single-term polynomial
    if ra.0.len() == 1 {
        let (l, v) = ra.0.iter().next().unwrap();
        if l.3.is_none() && (co % v).is_zero() {
            let want = RP::mono((k.0 - l.0, k.1 - l.1, k.2 - l.2, k.3), co / v);
            tp!(/, want.clone());
        }
    }
    intact(c, &lab("left"), pa, ra);
    c.traces(1);
}

fn neg_forms(c: &mut Ctx, a: &P) {
    let (pa, ra) = a;
    let r = c.call(|| format!("-({:?})", ra), || -pa);
    same(c, || format!("-({:?})", ra), &r, &ra.neg());
    let r = c.call(|| format!("-({:?})", ra), || -(pa.clone()));
    same(c, || format!("-({:?})", ra), &r, &ra.neg());
    c.check(pa.is_zero() == ra.is_zero(), || format!("is_zero of {:?}", ra));
    // against itself, both operands the same object
    let r = c.call(|| format!("self sum {:?}", ra), || pa + pa);
    same(c, || format!("self sum {:?}", ra), &r, &ra.add(ra));
    let r = c.call(|| format!("self difference {:?}", ra), || pa - pa);
    same(c, || format!("self difference {:?}", ra), &r, &RP::zero());
    if !ra.clash(ra) {
        let r = c.call(|| format!("self product {:?}", ra), || pa * pa);
        same(c, || format!("self product {:?}", ra), &r, &ra.mul(ra));
    }
}

fn power_forms(c: &mut Ctx, a: &P, n: u32, want: &RP) {
    let (pa, ra) = a;
    let l = || format!("({:?})^{}", ra, n);
    let r = c.call(l, || pa.power(n as i32));
    same(c, l, &r, want);
    let r = c.call(l, || pa.power(BigInt::from(n)));
    same(c, l, &r, want);
    let r = c.call(l, || pa.power(&BigInt::from(n)));
    same(c, l, &r, want);
    if n == 2 {
        let r = c.call(l, || pa.square());
        same(c, || format!("square of {:?}", ra), &r, want);
    }
    if n == 3 {
        let r = c.call(l, || pa.cube());
        same(c, || format!("cube of {:?}", ra), &r, want);
    }
    intact(c, &l(), pa, ra);
    c.traces(1);
}

/// supports for the pair enumerations
fn supports() -> Vec<(&'static str, Vec<Key>)> {
    vec![
        ("1,x,x^2", vec![K1, KX, KX2]),
        ("1,x,y", vec![K1, KX, KY]),
        ("x y,x,y", vec![KXY, KX, KY]),
        ("q^-1,1,q", vec![KQM, K1, KQ]),
        ("x^-1,x,y^-2", vec![(-1, 0, 0, None), KX, (0, -2, 0, None)]),
        ("1,c_0_0,c_0_1", vec![K1, KV, (0, 0, 0, Some((0, 1)))]),
        ("x c_1_0,c_0_1,q", vec![(1, 0, 0, Some((1, 0))), (0, 0, 0, Some((0, 1))), KQ]),
    ]
}

/// long operands of length n
pub fn long_polys(n: i32) -> Vec<(String, RP)> {
    let mut v = Vec::new();
    let dense = |f: &dyn Fn(i32) -> BigInt| -> RP {
        let mut r = RP::zero();
        for i in 0..n {
            r.put((i, 0, 0, None), f(i));
        }
        r
    };
    v.push((format!("ones {}", n), dense(&|_| bi(1))));
    v.push((format!("alternating {}", n), dense(&|i| bi(if i % 2 == 0 { 1 } else { -1 }))));
    v.push((format!("mixed {}", n), dense(&|i| bi(mix(i as u64, n as u64)))));
    v.push((format!("sparse {}", n), RP((0..n).map(|i| ((i * 7, 0, 0, None), bi(mix(i as u64, 77) | 1))).collect())));
    let e = edge_ints();
    v.push((format!("edge {}", n), dense(&|i| e[(1 + i as usize * 5) % e.len()].clone())));
    let mut r = RP::zero();
    for i in 0..n {
        r.put((i % 4, i / 4 % 4, i / 16 - 2, None), bi(mix(i as u64, 5) | 1));
    }
    v.push((format!("mixed variables {}", n), r));
    let mut r = RP::zero();
    for i in 0..n {
        r.put((0, 0, i - n / 2, None), &two_pow((i % 130) as u32) * bi(if i % 3 == 0 { -1 } else { 1 }));
    }
    v.push((format!("q series {}", n), r));
    v
}

/// one exception to a rule: k + 1 terms of which all but one have exponents in a progression, or
/// coefficients of a kind; the exception is at the start, in the middle or at the end
pub fn one_exception(kmax: i32) -> Vec<Vec<(i32, i64)>> {
    let mut v = Vec::new();
    for k in [1i32, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 20, 31, 32, 33, 63, 64, 65] {
        if k > kmax {
            continue;
        }
        for d in 1..=4 {
            let base: Vec<(i32, i64)> = (0..k).map(|i| (i * d, 1 + i as i64 % 3)).collect();
            v.push(base.clone());
            // an exponent out of step
            for e in [1, k / 2 * d + 1, k * d - 1, k * d + 1] {
                if e > 0 && (d > 1 || e > (k - 1) * d) {
                    let mut t = base.clone();
                    t.push((e, 5));
                    v.push(t);
                }
            }
        }
        // a coefficient of another kind
        for (x, y) in [(1i64, 2i64), (1, -1), (2, 1), (6, 3), (-2, -3), (4, 5)] {
            for at in [0, k / 2, k - 1] {
                v.push((0..k).map(|i| (i, if i == at { y } else { x })).collect());
            }
        }
    }
    v
}

fn c09_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for axis in 0..3 {
        v.push(unit(format!("one exception to a rule, axis {}", axis), move |c| {
            let key = |e: i32| -> Key { [(e, 0, 0, None), (0, e, 0, None), (0, 0, e - 7, None)][axis] };
            for t in one_exception(c.tier.pick(33, 65)) {
                let mut r = RP::zero();
                for (e, x) in &t {
                    r.put(key(*e), bi(*x));
                }
                let p = mk(&r);
                let mut want = RP::one();
                for n in 0..=3 {
                    power_forms(c, &p, n, &want);
                    if r.0.len() > 20 && n == 2 {
                        break;
                    }
                    want = want.mul(&r);
                }
                let other = r.map_keys(|k| (k.0, k.1 + 1, k.2 - 1, k.3)).add(&RP::m(1, 0, 0, 3));
                all_forms(c, &p, &mk(&other));
                c.state(&(axis, &t));
            }
        }));
    }
    for base in WIDE_EXP {
        for axis in ['x', 'y', 'q', 'a'] {
            v.push(unit(format!("exponents around {} on {}", base, axis), move |c| {
                let ps: Vec<P> = wide_exponents(base).iter().filter(|w| w.0 == axis).map(|w| mk(&w.1)).collect();
                let other: Vec<P> = wide_exponents(base).iter().filter(|w| w.0 != axis && w.1.0.len() <= 9).map(|w| mk(&w.1)).collect();
                let near: P = mk(&RP((0..12).map(|i| ((i % 4, i % 3, i / 2, None), bi(mix(i as u64, 9) | 1))).collect()));
                for a in &ps {
                    c.state(&a.1);
                    neg_forms(c, a);
                    for b in ps.iter().chain(&other).chain([&near]) {
                        if a.1.0.len() * b.1.0.len() <= 400 {
                            all_forms(c, a, b);
                        }
                        c.state(&(&a.1, &b.1));
                        let want = a.1.mul(&b.1);
                        let l = || format!("({:?}) * ({:?})", a.1, b.1);
                        let g = c.call(l, || &a.0 * &b.0);
                        same(c, l, &g, &want);
                        c.trace();
                    }
                    if a.1.0.len() <= 9 && base < 1 << 28 {
                        power_forms(c, a, 2, &a.1.mul(&a.1));
                        power_forms(c, a, 3, &a.1.mul(&a.1).mul(&a.1));
                    }
                    for k in [(0, 0, 0, None), (1, 0, 0, None), (base - 3, 0, 1, None), (0, base, 0, None), (0, 1, base, None)] {
                        term_forms(c, a, &k, &bi(-1));
                    }
                }
            }));
        }
    }
    // (1) all pairs over small supports
    for (name, keys) in supports() {
        let all = all_polys(&keys, 2);
        for chunk in 0..25usize {
            let all = all.clone();
            v.push(unit(format!("pairs over {{{}}} part {}", name, chunk), move |c| {
                let ps: Vec<P> = all.iter().map(mk).collect();
                for i in (chunk * 5)..(chunk * 5 + 5) {
                    neg_forms(c, &ps[i]);
                    for j in 0..ps.len() {
                        c.state(&(i, j));
                        all_forms(c, &ps[i], &ps[j]);
                        c.outcome(&ps[i].1.add(&ps[j].1));
                    }
                }
                c.sample(|| format!("({:?}) op ({:?})", ps[chunk * 5].1, ps[3].1));
            }));
        }
    }
    // (2) polynomials with terms
    for (name, keys) in supports() {
        let all = all_polys(&keys, 2);
        v.push(unit(format!("terms over {{{}}}", name), move |c| {
            let mut ts: Vec<Key> = keys.clone();
            ts.extend([(2, 3, -4, None), (-1, 0, 0, None), (0, 0, 0, Some((2, 1)))]);
            for r in &all {
                let a = mk(r);
                for k in &ts {
                    for co in [0i64, 1, -1, 2, -2, 3] {
                        c.state(&(r, k, co));
                        term_forms(c, &a, k, &bi(co));
                    }
                }
            }
        }));
    }
    // (2b) sparse operands with exponents of mixed signs
    for (name, g) in [
        ("mixed signs", key_grid(&[-1, 0, 1], &[-1, 0, 1], &[0, 1], &[None])),
        ("q and variables", key_grid(&[0, 1], &[0], &[-1, 0, 2], &[None, Some((0, 0)), Some((0, 1))])),
    ] {
        let mut sparse: Vec<RP> = Vec::new();
        for i in 0..g.len() {
            subsets(&g, i, 2, &patterns()[..2], &mut |r| sparse.push(r.clone()));
        }
        let sparse = Arc::new(sparse);
        let parts = 24;
        for part in 0..parts {
            let sparse = sparse.clone();
            v.push(unit(format!("sparse pairs, {}, part {}", name, part), move |c| {
                let ps: Vec<P> = sparse.iter().map(mk).collect();
                for i in (part..ps.len()).step_by(parts) {
                    for j in 0..ps.len() {
                        c.state(&(i, j));
                        all_forms(c, &ps[i], &ps[j]);
                    }
                }
                c.sample(|| format!("{} sparse operands against {}", ps.len() / parts, ps.len()));
            }));
        }
        let three = g.clone();
        sparse_units(&mut v, name, g, tier.pick(3, 4), patterns()[1..2].to_vec(), move |c, r| {
            let a = mk(r);
            neg_forms(c, &a);
            c.state(r);
            for (i, k) in three.iter().enumerate() {
                if (i + r.0.len()) % 4 == 0 {
                    term_forms(c, &a, k, &bi(-1));
                }
            }
            // a sum that loses each of its terms in turn
            for (k, co) in &r.0 {
                all_forms(c, &a, &mk(&RP::mono(*k, -co)));
            }
        });
    }
    // (3) histories
    for (gi, _) in gens().iter().enumerate() {
        v.push(unit(format!("histories from generator {}", gi), move |c| histories(c, gi)));
    }
    // (4) long operands
    let lens: Vec<i32> = tier.pick(vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65], (1..=70).chain([100, 127, 128, 129, 255, 256, 257]).collect());
    for n in lens.clone() {
        let lens = lens.clone();
        v.push(unit(format!("long operands of length {}", n), move |c| {
            let ls: Vec<P> = long_polys(n).iter().map(|(_, r)| mk(r)).collect();
            for m in &lens {
                if *m > n {
                    continue;
                }
                let ms: Vec<P> = long_polys(*m).iter().map(|(_, r)| mk(r)).collect();
                for (i, a) in ls.iter().enumerate() {
                    for (j, b) in ms.iter().enumerate() {
                        if i == j || n <= 33 || (i + j) % 3 == 0 {
                            c.state(&(n, m, i, j));
                            all_forms(c, a, b);
                            all_forms(c, b, a);
                        }
                    }
                }
            }
            for a in &ls {
                neg_forms(c, a);
                for k in [KX, KY, (3, 0, -1, None), K1, (0, 0, 0, Some((1, 2)))] {
                    for co in [1i64, -1, 7] {
                        term_forms(c, a, &k, &bi(co));
                        // a product that can be divided exactly again
                        let m = a.1.mul(&RP::mono((2, 1, -1, None), bi(co)));
                        term_forms(c, &mk(&m), &(2, 1, -1, None), &bi(co));
                    }
                }
            }
        }));
    }
    for n in tier.pick(vec![1030, 520, 300, 257, 129, 100], vec![2060, 1030, 600, 520, 513, 300, 257, 200, 129, 100]) {
        for i in 0..long_polys(2).len() {
            v.push(unit(format!("very long operands of length {}, family {}", n, i), move |c| {
                let a = long_polys(n).swap_remove(i).1;
                let plus = |k: u32| RP(a.0.keys().map(|m| (*m, two_pow(k) - bi(1))).collect());
                let b = long_polys(n - 1).swap_remove(i).1.map_keys(|k| (k.0, k.1, k.2 + 1, k.3));
                let few = if n > 600 { 2 } else { 5 };
                let short = RP(a.0.iter().take(40).map(|(k, v)| (*k, v.clone())).collect());
                let pairs = vec![(a.clone(), b), (short, a.clone()), (a.clone(), a.clone()), (plus(8), plus(3)), (a.neg(), plus(64)), (plus(31), a.clone())];
                for (x, y) in pairs.into_iter().take(few + 1) {
                    c.state(&(n, &x, &y));
                    let (px, py) = (poly(&x), poly(&y));
                    let l = |f: &str| format!("{} of operands with {} and {} terms, {:?} .. and {:?} ..", f, x.0.len(), y.0.len(), x.0.iter().next(), y.0.iter().next());
                    let g = c.call(|| l("product"), || &px * &py);
                    same(c, || l("product"), &g, &x.mul(&y));
                    let g = c.call(|| l("sum"), || &px + &py);
                    same(c, || l("sum"), &g, &x.add(&y));
                    let g = c.call(|| l("difference"), || &px - &py);
                    same(c, || l("difference"), &g, &x.sub(&y));
                    let (mut s, mut d) = (px.clone(), px.clone());
                    c.call(|| l("+="), || s += &py);
                    same(c, || l("+="), &s, &x.add(&y));
                    c.call(|| l("-="), || d -= &py);
                    same(c, || l("-="), &d, &x.sub(&y));
                    let mut m = px.clone();
                    c.call(|| l("*="), || m *= &py);
                    same(c, || l("*="), &m, &x.mul(&y));
                    c.traces(3);
                }
                let pa = poly(&a);
                let g = c.call(|| format!("square of a polynomial with {} terms", n), || pa.square());
                same(c, || format!("square of a polynomial with {} terms", n), &g, &a.mul(&a));
                c.sample(|| format!("operands of {} terms", n));
            }));
        }
    }
    // (5) word-boundary coefficients and exponents
    v.push(unit(String::from("word-boundary coefficients"), |c| {
        let es = some_ints();
        for x in &es {
            for y in &es {
                let mut ra = RP::mono(KX, x.clone());
                ra.put(K1, y.clone());
                let mut rb = RP::mono(KX, y.clone());
                rb.put(KY, x.clone());
                c.state(&(x, y));
                all_forms(c, &mk(&ra), &mk(&rb));
                all_forms(c, &mk(&ra), &mk(&ra.neg()));
                if !x.is_zero() {
                    let prod = ra.mul(&RP::mono((1, 0, 0, None), x.clone()));
                    term_forms(c, &mk(&prod), &KX, x);
                }
            }
        }
    }));
    v.push(unit(String::from("large exponents"), |c| {
        let es = [100i32, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 1 << 20, 1 << 24, (1 << 24) + 1, 1 << 29, (1 << 30) - 1];
        for e in es {
            for f in es {
                for (s, t) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                    let (e, f) = (e * s, f * t);
                    for w in 0..3 {
                        let k = |e: i32| -> Key {
                            match w {
                                0 => (e, 0, 0, None),
                                1 => (0, e, 0, None),
                                _ => (0, 0, e, None),
                            }
                        };
                        let mut ra = RP::mono(k(e), bi(2));
                        ra.put(K1, bi(1));
                        ra.put(k(f), bi(-3));
                        let mut rb = RP::mono(k(f), bi(1));
                        rb.put(KX, bi(1));
                        c.state(&(e, f, w));
                        all_forms(c, &mk(&ra), &mk(&rb));
                        term_forms(c, &mk(&ra), &k(f), &bi(1));
                    }
                }
            }
        }
    }));
    // (6) powers
    let ps = vec![
        RP::zero(),
        RP::one(),
        RP::m(0, 0, 0, -1),
        RP::m(1, 0, 0, 1),
        RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, 1)),
        RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, -1)),
        RP::m(1, 0, 0, 2).add(&RP::m(0, 1, 0, -3)),
        RP::m(0, 0, -1, 1).add(&RP::m(0, 0, 1, -1)),
        RP::m(2, 0, 0, 1).add(&RP::m(1, 1, 0, 1)).add(&RP::m(0, 2, 0, 1)),
        RP::m(1, 0, 0, 1).add(&RP::m(-1, 0, 0, 1)).add(&RP::m(0, 0, 0, -2)),
        RP::mono(KX, two_pow(64)).add(&RP::mono(K1, two_pow(31) - bi(1))),
        RP::m(3, 0, 0, 1).add(&RP::m(1, 0, 0, 5)).add(&RP::m(0, 0, 0, -7)),
        RP::m(4, -3, 2, -5),
    ];
    for (i, r) in ps.into_iter().enumerate() {
        v.push(unit(format!("powers of polynomial {}", i), move |c| {
            let a = mk(&r);
            let max = if r.0.len() >= 3 { c.tier.pick(26, 40) } else { c.tier.pick(140, 262) };
            let mut want = RP::one();
            for n in 0..=max {
                c.state(&n);
                power_forms(c, &a, n, &want);
                want = want.mul(&r);
            }
        }));
    }
    v.push(unit(String::from("powers of all small polynomials"), |c| {
        for (_, keys) in supports() {
            if keys.iter().any(|k| k.3.is_some()) {
                continue;
            }
            for r in all_polys(&keys, 2) {
                let a = mk(&r);
                let mut want = RP::one();
                for n in 0..=5 {
                    c.state(&(&r, n));
                    power_forms(c, &a, n, &want);
                    want = want.mul(&r);
                }
            }
        }
        // huge powers of units
        for (r, odd) in [(RP::one(), RP::one()), (RP::zero(), RP::zero()), (RP::m(0, 0, 0, -1), RP::m(0, 0, 0, -1))] {
            let p = poly(&r);
            for e in edge_ints() {
                if e.is_positive() {
                    let want = if (&e % bi(2)).is_zero() { odd.mul(&odd) } else { odd.clone() };
                    let got = c.call(|| format!("({:?})^{}", r, e), || p.power(&e));
                    same(c, || format!("({:?})^{}", r, e), &got, &want);
                    if let Some(i) = e.to_i32() {
                        let got = c.call(|| format!("({:?})^{}", r, e), || p.power(i));
                        same(c, || format!("({:?})^{}", r, e), &got, &want);
                    }
                }
            }
        }
        for n in [1 << 10, (1 << 15) + 1, 100003] {
            let got = c.call(|| format!("(x)^{}", n), || poly(&RP::m(1, 0, 0, 1)).power(n));
            same(c, || format!("(x)^{}", n), &got, &RP::m(n, 0, 0, 1));
        }
    }));
    v
}

fn gens() -> Vec<RP> {
    vec![
        RP::m(1, 0, 0, 1),
        RP::m(0, 0, 0, 1),
        RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, 1)),
        RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, -1)),
        RP::m(0, 1, 0, 1).add(&RP::m(1, 0, 0, -1)),
        RP::m(0, 0, -1, 2),
        RP::m(0, 0, 1, 1).add(&RP::m(0, 0, -1, -1)),
        RP::mono(KV, bi(1)),
    ]
}

/// operation histories: apply every operation with every operand, to a depth, on the real values
fn histories(c: &mut Ctx, gi: usize) {
    let g = gens();
    let operands: Vec<P> = g.iter().map(mk).collect();
    let mut seen: HashSet<RP> = HashSet::new();
    let mut frontier: Vec<P> = vec![mk(&g[gi])];
    seen.insert(g[gi].clone());
    c.state(&g[gi]);
    let depth = c.tier.pick(4, 5);
    let cap = c.tier.pick(1200, 12000);
    for d in 0..depth {
        let mut next: Vec<P> = Vec::new();
        for (p, r) in &frontier {
            let mut succ: Vec<(String, Polynomial, RP)> = Vec::new();
            for (o, ro) in &operands {
                let w = r.add(ro);
                succ.push((format!("({:?}) + ({:?})", r, ro), c.call(|| format!("({:?}) + ({:?})", r, ro), || p + o), w.clone()));
                let mut x = p.clone();
                c.call(|| format!("({:?}) += ({:?})", r, ro), || x += o);
                succ.push((format!("({:?}) += ({:?})", r, ro), x, w));
                let w = r.sub(ro);
                succ.push((format!("({:?}) - ({:?})", r, ro), c.call(|| format!("({:?}) - ({:?})", r, ro), || p.clone() - o), w.clone()));
                let mut x = p.clone();
                c.call(|| format!("({:?}) -= ({:?})", r, ro), || x -= o.clone());
                succ.push((format!("({:?}) -= ({:?})", r, ro), x, w));
                if !r.clash(ro) {
                    let w = r.mul(ro);
                    succ.push((format!("({:?}) * ({:?})", r, ro), c.call(|| format!("({:?}) * ({:?})", r, ro), || p * o.clone()), w.clone()));
                    let mut x = p.clone();
                    c.call(|| format!("({:?}) *= ({:?})", r, ro), || x *= o);
                    succ.push((format!("({:?}) *= ({:?})", r, ro), x, w));
                }
                intact(c, "history operand", o, ro);
            }
            succ.push((format!("-({:?})", r), c.call(|| format!("-({:?})", r), || -p), r.neg()));
            if r.0.keys().all(|k| k.3.is_none()) && r.0.len() <= 6 {
                succ.push((format!("({:?})^2", r), c.call(|| format!("({:?})^2", r), || p.square()), r.mul(r)));
            }
            succ.push((format!("0*({:?})", r), c.call(|| format!("0*({:?})", r), || p * Polynomial::zero()), RP::zero()));
            if !r.is_zero() && r.0.values().all(|v| (v % bi(2)).is_zero()) {
                let half = RP(r.0.iter().map(|(k, v)| ((k.0 - 1, k.1, k.2, k.3), v / bi(2))).collect());
                let t = term(&KX, &bi(2));
                succ.push((format!("({:?}) / 2x", r), c.call(|| format!("({:?}) / 2x", r), || p / &t), half));
            }
            intact(c, "history state", p, r);
            for (l, x, w) in succ {
                same(c, || l, &x, &w);
                c.check(x == poly(&w), || format!("{:?} is not equal to itself built directly", w));
                c.check(x.is_zero() == w.is_zero(), || format!("is_zero of {:?}", w));
                c.trace();
                if w.0.len() <= 14 && seen.insert(w.clone()) {
                    c.state(&w);
                    next.push((x, w));
                }
            }
        }
        if d + 1 == depth {
            break;
        }
        // all histories of length depth - 1; after that the smallest values first, a deterministic cut
        assert!(d + 2 >= depth || next.len() <= cap, "the frontier outgrew the bound: {}", next.len());
        next.sort_by(|a, b| (a.1 .0.len(), &a.1).cmp(&(b.1 .0.len(), &b.1)));
        next.truncate(cap);
        frontier = next;
    }
    c.sample(|| format!("{} distinct values reached from {:?}", seen.len(), g[gi]));
}

// ------------------------------------------------------------------------------------- C10

pub static C10: Prop = Prop {
    id: "C10",
    space: "every polynomial over supports of four monomials in x, y, q and coefficient variables with coefficients -2..2 (and longer and word-boundary ones), evaluated at every pair from a set of points with word-boundary values, substituted with every polynomial of a set including constants, zero, negative q-exponents; power maps by every n in [-3,5] and larger; sparse polynomials over every subset of an exponent grid with gaps. Term and monomial level operations on every term of a grid. A state is an (operation, polynomial, argument) tuple, a trace a result compared with direct substitution in the reference polynomial.",
    assumptions: &["the replaced variables occur with non-negative exponents (no inverse of an arbitrary polynomial exists)"],
    hang: (30, 60),
    units: c10_units,
};

fn c10_polys(tier: Tier) -> Vec<RP> {
    let mut v = Vec::new();
    let sup: Vec<Vec<Key>> = vec![
        vec![K1, KX, KY, KXY],
        vec![K1, KX, KX2, KX3],
        vec![KY, (2, 1, 0, None), (0, 2, 0, None), (1, 2, 1, None)],
        vec![(1, 0, -1, None), (0, 1, 2, None), (2, 0, -1, None), KQ],
        vec![(1, 0, 0, Some((0, 1))), (0, 1, 0, Some((0, 1))), (1, 1, 1, Some((1, 1))), (2, 0, 0, Some((0, 1)))],
    ];
    for s in sup {
        v.extend(all_polys(&s, tier.pick(2, 3)));
    }
    for n in [5, 9, 17, 33, 70, 130] {
        for (_, p) in long_polys(n) {
            v.push(p);
        }
    }
    let mut r = RP::zero();
    for (i, e) in some_ints().into_iter().enumerate() {
        r.put((i as i32 % 7, i as i32 % 5, i as i32 % 3, None), e);
    }
    v.push(r);
    v
}

fn ev(r: &RP, x: &BigInt, y: &BigInt) -> BigInt {
    let mut s = BigInt::zero();
    for (k, c) in &r.0 {
        s += ipow(x, k.0 as u32) * ipow(y, k.1 as u32) * c;
    }
    s
}

fn c10_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let all = c10_polys(tier);
    for (ci, chunk) in all.chunks(24).enumerate() {
        let chunk = chunk.to_vec();
        v.push(unit(format!("polynomials, part {}", ci), move |c| {
            for r in &chunk {
                c10_poly(c, r);
            }
            c.sample(|| format!("evaluations and substitutions of {:?}", chunk[0]));
        }));
    }
    let g = key_grid(&[0, 1, 2], &[0, 1, 3], &[-1, 0, 1], &[None, Some((0, 1))]);
    sparse_units(&mut v, "grid", g, tier.pick(3, 4), patterns()[1..2].to_vec(), c10_light);
    let g = key_grid(&[-2, -1, 0, 1], &[-1, 0, 2], &[-1, 0, 1], &[None, Some((1, 0))]);
    sparse_units(&mut v, "power maps", g, 3, patterns()[1..2].to_vec(), |c, r| power_maps(c, r, &[-2, -1, 0, 1, 2, 3]));
    wide_exp_units(&mut v, 1 << 29, |c, base, axis, r| {
        let p = poly(r);
        let mut xs = vec![0i64, 1, -1];
        if base < 40000 && axis != 'q' && r.0.len() <= 9 {
            xs.push(2);
            xs.push(-3);
        }
        for x in xs {
            let x = bi(x);
            let lab = || format!("({:?}).eval_x({})", r, x);
            let got = c.call(lab, || p.eval_x(&x));
            same(c, lab, &got, &r.subst(Some(&RP::c(x.clone())), None));
            let lab = || format!("({:?}).eval_y({})", r, x);
            let got = c.call(lab, || p.eval_y(&x));
            same(c, lab, &got, &r.subst(None, Some(&RP::c(x.clone()))));
            let s = r.map_keys(|k| (k.0, k.1, 0, None));
            let got = c.call(|| format!("({:?}).eval_xy({}, -1)", s, x), || poly(&s).eval_xy(&x, &bi(-1)));
            c.eq(|| format!("({:?}).eval_xy({}, -1)", s, x), &got, &ev(&s, &x, &bi(-1)));
            c.traces(3);
        }
        let mut subs = vec![RP::m(0, 0, 0, 1), RP::m(0, 0, 0, -1), RP::m(1, 0, 0, 1), RP::m(0, 1, 0, -1), RP::m(0, 0, 1, 1), RP::zero()];
        if base <= 124 && r.0.len() <= 9 {
            subs.push(RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, 1)));
            subs.push(RP::m(0, 0, -1, 1).add(&RP::m(0, 1, 0, -2)));
        }
        for s in subs {
            let sp = poly(&s);
            let lab = || format!("({:?}) with x := {:?}", r, s);
            let got = c.call(lab, || p.eval_x_polynomial(&sp));
            same(c, lab, &got, &r.subst(Some(&s), None));
            let lab = || format!("({:?}) with y := {:?}", r, s);
            let got = c.call(lab, || p.eval_y_polynomial(&sp));
            same(c, lab, &got, &r.subst(None, Some(&s)));
            c.traces(2);
        }
        power_maps(c, r, &[-2, -1, 0, 1, 2, 3]);
    });
    v.push(unit(String::from("terms and monomials"), c10_terms));
    v.push(unit(String::from("gaps between exponents"), |c| {
        let gaps = [1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513];
        for (i, g) in gaps.iter().enumerate() {
            for (j, h) in gaps.iter().enumerate() {
                let mut r = RP::zero();
                let mut k = ((i + j) % 3) as i32;
                for (n, step) in [0, 1, *g, 1, *h, *g].iter().enumerate() {
                    k += step;
                    r.put((k, 0, 0, None), bi(mix(n as u64, i as u64)));
                }
                let p = poly(&r);
                let ry = r.map_keys(|k| (0, k.0, 0, None));
                let py = poly(&ry);
                c.state(&(g, h));
                for x in [2i64, -3, -1] {
                    let x = bi(x);
                    let want = ev(&r, &x, &bi(3));
                    let got = c.call(|| format!("({:?}).eval_xy({}, 3)", r, x), || p.eval_xy(&x, &bi(3)));
                    c.eq(|| format!("({:?}).eval_xy({}, 3)", r, x), &got, &want);
                    let got = c.call(|| format!("({:?}).eval_xy(3, {})", ry, x), || py.eval_xy(&bi(3), &x));
                    c.eq(|| format!("({:?}).eval_xy(3, {})", ry, x), &got, &want);
                    let got = c.call(|| format!("({:?}).eval_x({})", r, x), || p.eval_x(&x));
                    same(c, || format!("({:?}).eval_x({})", r, x), &got, &RP::c(want.clone()));
                    let got = c.call(|| format!("({:?}).eval_y({})", ry, x), || py.eval_y(&x));
                    same(c, || format!("({:?}).eval_y({})", ry, x), &got, &RP::c(want.clone()));
                    c.traces(4);
                }
                // ... and with a polynomial put in
                let s = RP::m(0, 0, 1, -2);
                let got = c.call(|| format!("({:?}) with x := -2 q", r), || p.eval_x_polynomial(&poly(&s)));
                same(c, || format!("({:?}) with x := -2 q", r), &got, &r.subst(Some(&s), None));
                let got = c.call(|| format!("({:?}) with y := -2 q", ry), || py.eval_y_polynomial(&poly(&s)));
                same(c, || format!("({:?}) with y := -2 q", ry), &got, &ry.subst(None, Some(&s)));
                c.traces(2);
            }
        }
        c.sample(|| String::from("every pair of gaps"));
    }));
    // values of every width against small exponents, so that powers of every width occur
    for w in 1..=tier.pick(72u32, 140) {
        v.push(unit(format!("values of {} bits", w), move |c| {
            let h = two_pow(w - 1);
            let mut xs = vec![h.clone(), &h + bi(1), &h * bi(2) - bi(1)];
            for k in 1..6i64 {
                xs.push(&h + (&h * bi(k)) / bi(6));
                xs.push(&h + (&h * bi(mix(k as u64, w as u64).abs())) / bi(1 << 20));
            }
            for x in xs.iter().chain(xs.iter().map(|x| -x).collect::<Vec<_>>().iter()) {
                for e in 0..=c.tier.pick(9, 17) {
                    for f in 0..=2 {
                        let y = if f == 2 { x.clone() } else { bi(3) - x };
                        let r = RP(vec![((e, f, 0, None), bi(1))].into_iter().collect());
                        let want = ev(&r, x, &y);
                        let l = || format!("x^{} y^{} at ({}, {})", e, f, x, y);
                        let got = c.call(l, || poly(&r).eval_xy(x, &y));
                        c.eq(l, &got, &want);
                        let r2 = r.map_keys(|k| (k.1, k.0, 0, None));
                        let l = || format!("x^{} y^{} at ({}, {})", f, e, y, x);
                        let got = c.call(l, || poly(&r2).eval_xy(&y, x));
                        c.eq(l, &got, &want);
                        c.traces(2);
                    }
                    let r = RP(vec![((e, 1, 0, None), bi(2)), ((0, 1, 0, None), bi(-1))].into_iter().collect());
                    let l = || format!("({:?}).eval_x({})", r, x);
                    let got = c.call(l, || poly(&r).eval_x(x));
                    same(c, l, &got, &r.subst(Some(&RP::c(x.clone())), None));
                    let r = r.map_keys(|k| (k.1, k.0, 0, None));
                    let l = || format!("({:?}).eval_y({})", r, x);
                    let got = c.call(l, || poly(&r).eval_y(x));
                    same(c, l, &got, &r.subst(None, Some(&RP::c(x.clone()))));
                    c.traces(2);
                }
                c.state(x);
            }
        }));
    }
    v.push(unit(String::from("one exception to a rule"), |c| {
        for t in one_exception(65) {
            let mut r = RP::zero();
            for (e, x) in &t {
                r.put((*e, 0, 0, None), bi(*x));
            }
            let ry = r.map_keys(|k| (0, k.0, 0, None));
            let (p, py) = (poly(&r), poly(&ry));
            for x in [0i64, 1, -1, 2, -3, 7] {
                let x = bi(x);
                let want = ev(&r, &x, &bi(3));
                let got = c.call(|| format!("({:?}).eval_xy({}, 3)", r, x), || p.eval_xy(&x, &bi(3)));
                c.eq(|| format!("({:?}).eval_xy({}, 3)", r, x), &got, &want);
                let got = c.call(|| format!("({:?}).eval_x({})", r, x), || p.eval_x(&x));
                same(c, || format!("({:?}).eval_x({})", r, x), &got, &RP::c(want.clone()));
                let got = c.call(|| format!("({:?}).eval_y({})", ry, x), || py.eval_y(&x));
                same(c, || format!("({:?}).eval_y({})", ry, x), &got, &RP::c(want.clone()));
                c.traces(3);
            }
            let s = if t.len() < 12 { RP::m(0, 0, 1, -2).add(&RP::m(1, 0, 0, 1)) } else { RP::m(0, 1, 1, -2) };
            let got = c.call(|| format!("({:?}) with x := {:?}", r, s), || p.eval_x_polynomial(&poly(&s)));
            same(c, || format!("({:?}) with x := {:?}", r, s), &got, &r.subst(Some(&s), None));
            let got = c.call(|| format!("({:?}) with y := {:?}", ry, s), || py.eval_y_polynomial(&poly(&s)));
            same(c, || format!("({:?}) with y := {:?}", ry, s), &got, &ry.subst(None, Some(&s)));
            c.traces(2);
            c.state(&t);
        }
    }));
    v.push(unit(String::from("long evaluation"), |c| {
        for n in [1, 2, 8, 16, 31, 32, 33, 64, 65, 100, 128, 200, 256, 257, 520, 1030, 2060] {
            let mut r = RP::zero();
            for i in 0..n {
                r.put((i, (n - i) % 40, 0, None), bi(mix(i as u64, 3)));
            }
            r.put((n, n, 0, None), bi(1));
            let p = poly(&r);
            for (x, y) in [(1i64, 1i64), (-1, 1), (2, -3), (0, 5), (7, 0), (-10, 10)] {
                c.state(&(n, x, y));
                let got = c.call(|| format!("eval_xy of degree {} at {},{}", n, x, y), || p.eval_xy(&bi(x), &bi(y)));
                c.eq(|| format!("eval_xy of degree {} at {},{}", n, x, y), &got, &ev(&r, &bi(x), &bi(y)));
                let got = c.call(|| format!("eval_x of degree {} at {}", n, x), || p.eval_x(&bi(x)));
                same(c, || format!("eval_x of degree {} at {}", n, x), &got, &r.subst(Some(&RP::c(bi(x))), None));
                let got = c.call(|| format!("eval_y of degree {} at {}", n, y), || p.eval_y(&bi(y)));
                same(c, || format!("eval_y of degree {} at {}", n, y), &got, &r.subst(None, Some(&RP::c(bi(y)))));
                c.traces(3);
            }
        }
    }));
    v
}

fn c10_poly(c: &mut Ctx, r: &RP) {
    let p = poly(r);
    let small = r.0.len() <= 6;
    let pts: Vec<BigInt> = if small { [0i64, 1, -1, 2, -3, 10].iter().map(|x| bi(*x)).chain([two_pow(32) - bi(1), two_pow(64) + bi(1), -two_pow(63)]).collect() } else { [0i64, 1, -1, 3].iter().map(|x| bi(*x)).chain([two_pow(64)]).collect() };
    let nonneg = |w: usize| r.0.keys().all(|k| if w == 0 { k.0 >= 0 } else { k.1 >= 0 });
    if nonneg(0) && nonneg(1) {
        let only_xy = r.0.keys().all(|k| k.2 == 0 && k.3.is_none());
        for x in &pts {
            for y in &pts {
                c.state(&(r, x, y));
                if only_xy {
                    let got = c.call(|| format!("({:?}).eval_xy({}, {})", r, x, y), || p.eval_xy(x, y));
                    c.eq(|| format!("({:?}).eval_xy({}, {})", r, x, y), &got, &ev(r, x, y));
                    c.outcome(&got);
                }
                let lab = || format!("({:?}).eval_x({}).eval_y({})", r, x, y);
                let got = c.call(lab, || p.eval_x(x).eval_y(y));
                same(c, lab, &got, &r.subst(Some(&RP::c(x.clone())), Some(&RP::c(y.clone()))));
                c.traces(1);
            }
            let lab = || format!("({:?}).eval_x({})", r, x);
            let got = c.call(lab, || p.eval_x(x));
            same(c, lab, &got, &r.subst(Some(&RP::c(x.clone())), None));
            let lab = || format!("({:?}).eval_y({})", r, x);
            let got = c.call(lab, || p.eval_y(x));
            same(c, lab, &got, &r.subst(None, Some(&RP::c(x.clone()))));
        }
        let subs: Vec<RP> = vec![
            RP::zero(),
            RP::one(),
            RP::m(0, 0, 0, -2),
            RP::m(1, 0, 0, 1),
            RP::m(0, 1, 0, 1),
            RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, 1)),
            RP::m(0, 1, 0, -1).add(&RP::m(1, 0, 0, 1)),
            RP::m(0, 0, -1, 1).add(&RP::m(0, 0, 0, 744)),
            RP::m(0, 0, -1, 1).add(&RP::m(0, 0, 1, -1)),
            RP::m(3, 0, 0, 1).add(&RP::m(1, 0, 0, -1)).add(&RP::m(0, 0, 0, 7)),
            RP::mono(KX2, two_pow(64)).add(&RP::m(0, 0, 2, -1)),
        ];
        let deg = r.0.keys().map(|k| k.0.max(k.1)).max().unwrap_or(0);
        for s in &subs {
            if deg > 12 && s.0.len() > 1 {
                continue;
            }
            let sp = poly(s);
            c.state(&(r, s));
            let lab = || format!("({:?}) with x := {:?}", r, s);
            let got = c.call(lab, || p.eval_x_polynomial(&sp));
            same(c, lab, &got, &r.subst(Some(s), None));
            let lab = || format!("({:?}) with y := {:?}", r, s);
            let got = c.call(lab, || p.eval_y_polynomial(&sp));
            same(c, lab, &got, &r.subst(None, Some(s)));
            intact(c, "substituted polynomial", &sp, s);
            c.traces(2);
        }
    }
    power_maps(c, r, &[-3i32, -2, -1, 0, 1, 2, 3, 4, 5, 7, 16, 31, 101, 1000, 65537]);
    intact(c, "polynomial", &p, r);
}

/// a few points and substitutions, for the many polynomials of the sparse grid
fn c10_light(c: &mut Ctx, r: &RP) {
    let p = poly(r);
    for x in [0i64, 1, -1, 3] {
        let x = bi(x);
        c.state(&(r, &x));
        let lab = || format!("({:?}).eval_x({})", r, x);
        let got = c.call(lab, || p.eval_x(&x));
        same(c, lab, &got, &r.subst(Some(&RP::c(x.clone())), None));
        let lab = || format!("({:?}).eval_y({})", r, x);
        let got = c.call(lab, || p.eval_y(&x));
        same(c, lab, &got, &r.subst(None, Some(&RP::c(x.clone()))));
        c.traces(2);
    }
    if r.0.keys().all(|k| k.2 == 0 && k.3.is_none()) {
        for (x, y) in [(0i64, 0i64), (0, 1), (1, 0), (-1, 2), (2, -3), (-5, -7)] {
            let got = c.call(|| format!("({:?}).eval_xy({}, {})", r, x, y), || p.eval_xy(&bi(x), &bi(y)));
            c.eq(|| format!("({:?}).eval_xy({}, {})", r, x, y), &got, &ev(r, &bi(x), &bi(y)));
            c.trace();
        }
    }
    for s in [RP::zero(), RP::m(0, 1, 0, 1).add(&RP::m(1, 0, 0, -1)), RP::m(0, 0, -1, 1).add(&RP::m(0, 0, 0, 744))] {
        let sp = poly(&s);
        let lab = || format!("({:?}) with x := {:?}", r, s);
        let got = c.call(lab, || p.eval_x_polynomial(&sp));
        same(c, lab, &got, &r.subst(Some(&s), None));
        let lab = || format!("({:?}) with y := {:?}", r, s);
        let got = c.call(lab, || p.eval_y_polynomial(&sp));
        same(c, lab, &got, &r.subst(None, Some(&s)));
        c.traces(2);
    }
    intact(c, "polynomial", &p, r);
}

fn power_maps(c: &mut Ctx, r: &RP, ns: &[i32]) {
    let p = poly(r);
    for n in ns {
        let n = *n;
        c.state(&(r, n));
        let lab = || format!("({:?}).to_frob({})", r, n);
        let got = c.call(lab, || p.to_frob(n));
        same(c, lab, &got, &r.map_keys(|k| (k.0 * n, k.1 * n, k.2, k.3)));
        let lab = || format!("({:?}).to_y_power({})", r, n);
        let got = c.call(lab, || p.to_y_power(n));
        same(c, lab, &got, &r.map_keys(|k| (k.0, k.1 * n, k.2, k.3)));
        let lab = || format!("({:?}).to_q_power({})", r, n);
        let got = c.call(lab, || p.to_q_power(n));
        same(c, lab, &got, &r.map_keys(|k| (k.0, k.1, k.2 * n, k.3)));
        c.traces(3);
    }
    intact(c, "polynomial", &p, r);
}

fn c10_terms(c: &mut Ctx) {
    let vs = [None, Some((0, 0)), Some((0, 1)), Some((3, 2))];
    for x in 0..=3 {
        for y in 0..=3 {
            for q in -2..=2 {
                for v in vs {
                    for co in [1i64, -1, 0, 5] {
                        let k = (x, y, q, v);
                        let t = term(&k, &bi(co));
                        let r = RP::mono(k, bi(co));
                        let rm = RP::mono(k, bi(1));
                        for s in [RP::zero(), RP::one(), RP::m(1, 0, 0, 2), RP::m(0, 1, 0, 1).add(&RP::m(0, 0, -1, -3)), RP::m(0, 0, 2, 1).add(&RP::m(1, 0, 0, 1)).add(&RP::c(two_pow(65)))] {
                            let sp = poly(&s);
                            c.state(&(k, co, &s));
                            let lab = || format!("term {:?} with x := {:?}", r, s);
                            let g = c.call(lab, || t.eval_x_polynomial(&sp));
                            same(c, lab, &g, &r.subst(Some(&s), None));
                            let g = c.call(lab, || t.monomial.eval_x_polynomial(&sp));
                            same(c, lab, &g, &rm.subst(Some(&s), None));
                            let lab = || format!("term {:?} with y := {:?}", r, s);
                            let g = c.call(lab, || t.eval_y_polynomial(&sp));
                            same(c, lab, &g, &r.subst(None, Some(&s)));
                            let g = c.call(lab, || t.monomial.eval_y_polynomial(&sp));
                            same(c, lab, &g, &rm.subst(None, Some(&s)));
                            c.traces(4);
                        }
                        for (a, b) in [(0i64, 0i64), (1, -1), (2, 3), (-5, 7)] {
                            let g = c.call(|| format!("monomial {:?} at {},{}", rm, a, b), || t.monomial.eval_xy(&bi(a), &bi(b)));
                            c.eq(|| format!("monomial {:?} at {},{}", rm, a, b), &g, &(ipow(&bi(a), x as u32) * ipow(&bi(b), y as u32)));
                        }
                        for n in [-2i32, -1, 0, 1, 2, 3, 5, 17] {
                            let g = c.call(|| format!("term {:?} to_frob {}", r, n), || t.to_frob(n));
                            same_term(c, || format!("term {:?} to_frob {}", r, n), &g, &(x * n, y * n, q, v), &bi(co));
                            let g = c.call(|| format!("term {:?} to_y_power {}", r, n), || t.to_y_power(n));
                            same_term(c, || format!("term {:?} to_y_power {}", r, n), &g, &(x, y * n, q, v), &bi(co));
                            let g = c.call(|| format!("term {:?} to_q_power {}", r, n), || t.to_q_power(n));
                            same_term(c, || format!("term {:?} to_q_power {}", r, n), &g, &(x, y, q * n, v), &bi(co));
                            c.traces(3);
                        }
                        if q >= 0 {
                            for a in -3i32..=3 {
                                let g = c.call(|| format!("q = {} in {:?}", a, rm), || t.monomial.eval_q(a));
                                c.eq(|| format!("q = {} in {:?}", a, rm), &g, &a.pow(q as u32));
                            }
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11",
    space: "reduction: every polynomial over small supports and the long and word-boundary ones modulo every m in 1..12, the edge moduli, through %, % on references and in place; modular powers: every small polynomial, every n in 0..12 and larger, several moduli; remainder: over F_2, F_3, F_5 every dividend of degree <= 4 (coefficients any residue) by every divisor of degree <= 3 nonzero mod p, with unreduced/negative representatives, leading coefficients divisible by p, constant divisors, dividends involving y, q and coefficient variables, long sparse dividends such as x^n - x with n to 20011, sparse polynomials over every subset of an exponent grid, and large primes. A state is an argument tuple, a trace a result compared with dense schoolbook division.",
    assumptions: &["dividends have non-negative x-exponents"],
    hang: (30, 120),
    units: c11_units,
};

fn mod_case(c: &mut Ctx, r: &RP, m: &BigInt) {
    let p = poly(r);
    let want = r.modp(m);
    c.state(&(r, m));
    let l = || format!("({:?}) % {}", r, m);
    let g = c.call(l, || &p % m);
    same(c, l, &g, &want);
    if let Some(i) = m.to_i32() {
        let g = c.call(l, || &p % i);
        same(c, l, &g, &want);
    }
    let mut x = p.clone();
    c.call(l, || x.modular_assign(m));
    same(c, l, &x, &want);
    intact(c, "reduced polynomial", &p, r);
    c.outcome(&want);
    c.traces(1);
}

/// dense remainder, each (y, q, variable) class on its own
pub fn rem_model(f: &RP, g: &[BigInt], p: &BigInt) -> RP {
    let mut classes: BTreeMap<(i32, i32, Option<(i32, i32)>), Vec<BigInt>> = BTreeMap::new();
    for (k, c) in &f.0 {
        let e = classes.entry((k.1, k.2, k.3)).or_default();
        while e.len() <= k.0 as usize {
            e.push(BigInt::zero());
        }
        e[k.0 as usize] = c.clone();
    }
    let mut r = RP::zero();
    for (k, d) in classes {
        for (i, c) in dense_rem(&d, g, p).into_iter().enumerate() {
            r.put((i as i32, k.0, k.1, k.2), c);
        }
    }
    r
}

fn rem_case(c: &mut Ctx, f: &RP, g: &[BigInt], p: &BigInt) {
    let rg = dense_to_rp(g);
    c.state(&(f, &rg, p));
    let (pf, pg) = (poly(f), poly(&rg));
    let l = || format!("({:?}).polynomial_modular({:?}, {})", f, rg, p);
    let got = c.call(l, || pf.polynomial_modular(&pg, p));
    let want = rem_model(f, g, p);
    same(c, l, &got, &want);
    intact(c, "dividend", &pf, f);
    intact(c, "divisor", &pg, &rg);
    c.outcome(&want);
    c.trace();
}

/// every vector of n entries in 0..p
pub fn vectors(n: usize, p: i64) -> Vec<Vec<i64>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        let mut w = Vec::new();
        for x in &v {
            for a in 0..p {
                let mut y: Vec<i64> = x.clone();
                y.push(a);
                w.push(y);
            }
        }
        v = w;
    }
    v
}

pub fn dense(v: &[i64]) -> Vec<BigInt> {
    v.iter().map(|x| bi(*x)).collect()
}

fn c11_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in [2i64, 3, 5, 7, 13, 101, 65537] {
        v.push(unit(format!("one exception to a rule, mod {}", p), move |c| {
            let pb = bi(p);
            let all = one_exception(c.tier.pick(17, 33));
            let k = all.len();
            for (i, t) in all.iter().enumerate() {
                let mut r = RP::zero();
                for (e, x) in t {
                    r.put((*e, 0, 0, None), bi(*x));
                }
                mod_case(c, &r, &pb);
                let mut want = RP::one().modp(&pb);
                for n in 0..=4 {
                    let l = || format!("({:?})^{} mod {}", r, n, p);
                    let got = c.call(l, || poly(&r).power_modulo(&bi(n), &pb));
                    same(c, l, &got, &want);
                    c.trace();
                    if t.len() > 12 && n == 2 {
                        break;
                    }
                    want = want.mul(&r).modp(&pb);
                }
                for g in [dense(&[1, 1]), dense(&[2, 0, 1]), dense(&[1, 0, 0, 1]), dense_of(&all[(i * 7 + 3) % k]), dense_of(&all[(i * 5 + 1) % k])] {
                    if g.iter().all(|x| md(x, &pb).is_zero()) {
                        continue;
                    }
                    rem_case(c, &r, &g, &pb);
                    rem_case(c, &r.map_keys(|k| (k.0 * 3, 1, 0, None)), &g, &pb);
                }
            }
        }));
    }
    let mods: Vec<BigInt> = (1..=12).map(bi).chain(edge_ints().into_iter().filter(|x| x > &bi(12))).collect();
    for m in mods {
        v.push(unit(format!("reduction mod {}", m), move |c| {
            for (_, keys) in supports() {
                let cs: Vec<BigInt> = vec![bi(0), bi(1), -bi(1), &m - bi(1), m.clone(), &m + bi(1), -m.clone(), bi(2) * &m + bi(3)];
                if m <= bi(12) {
                    for r in polys_over(&keys, &cs) {
                        mod_case(c, &r, &m);
                    }
                } else {
                    for r in polys_over(&keys[..2], &cs) {
                        mod_case(c, &r, &m);
                    }
                }
            }
            for n in [3, 17, 40, 65, 130, 520, 1030] {
                if n > 200 && m > bi(12) && m < two_pow(60) {
                    continue;
                }
                for (_, r) in long_polys(n) {
                    mod_case(c, &r, &m);
                    mod_case(c, &r.scale(&m), &m);
                }
            }
            let mut r = RP::zero();
            for (i, e) in edge_ints().into_iter().enumerate() {
                r.put((i as i32, 0, -(i as i32), None), e);
            }
            mod_case(c, &r, &m);
        }));
    }
    for m in [1i64, 2, 3, 4, 5, 6, 7, 9, 12, 101, 65536] {
        v.push(unit(format!("modular powers mod {}", m), move |c| {
            let mm = bi(m);
            let mut ps: Vec<RP> = Vec::new();
            for (_, keys) in supports() {
                if keys.iter().all(|k| k.3.is_none()) {
                    ps.extend(all_polys(&keys, 1));
                }
            }
            ps.push(RP::m(1, 0, 0, 3).add(&RP::m(0, 0, 0, m)));
            ps.push(RP::m(2, 0, 0, m + 1).add(&RP::m(0, 1, 0, -7)));
            for r in &ps {
                let p = poly(r);
                let mut want = RP::one();
                for n in 0..=c.tier.pick(9, 16) {
                    c.state(&(r, n));
                    let w = want.modp(&mm);
                    let l = || format!("({:?}).power_modulo({}, {})", r, n, m);
                    let g = c.call(l, || p.power_modulo(&bi(n), &mm));
                    same(c, l, &g, &w);
                    c.trace();
                    want = want.mul(r).modp(&mm);
                }
                intact(c, "base", &p, r);
            }
            // long exponents on a binomial: every exponent to 70, and bit patterns
            let r = RP::m(1, 0, 0, 1).add(&RP::m(0, 0, 0, 1));
            let p = poly(&r);
            let mut want = RP::one();
            for n in 0..=c.tier.pick(140, 300) {
                let w = want.modp(&mm);
                let l = || format!("({:?}).power_modulo({}, {})", r, n, m);
                let g = c.call(l, || p.power_modulo(&bi(n), &mm));
                same(c, l, &g, &w);
                c.trace();
                want = want.mul(&r).modp(&mm);
            }
            for e in edge_ints() {
                if e.is_negative() {
                    continue;
                }
                for b in [0i64, 1, -1, 2, 3, 10] {
                    let g = c.call(|| format!("({}).power_modulo({}, {}) as a polynomial", b, e, m), || poly(&RP::c(bi(b))).power_modulo(&e, &mm));
                    same(c, || format!("({}).power_modulo({}, {}) as a polynomial", b, e, m), &g, &RP::c(mpow(&bi(b), &e, &mm)));
                }
            }
        }));
    }
    let g = key_grid(&[-1, 0, 1], &[-1, 0, 2], &[-1, 0, 1], &[None, Some((0, 1))]);
    let pats = vec![vec![bi(6), bi(1), bi(-1)], vec![bi(-2), bi(3), bi(12)], vec![bi(5), bi(-6), bi(7)]];
    sparse_units(&mut v, "sparse reduction", g, tier.pick(3, 4), pats.clone(), |c, r| {
        for m in [2i64, 3, 6] {
            mod_case(c, r, &bi(m));
        }
    });
    let g = key_grid(&[0, 1, 2, 3, 5], &[0, 1, 2], &[-1, 0], &[None, Some((0, 1))]);
    sparse_units(&mut v, "sparse dividends", g, tier.pick(2, 3), pats.clone(), |c, r| {
        for (d, p) in [(vec![1i64, 1], 2i64), (vec![1, 0, 1], 3), (vec![0, 0, 1], 5), (vec![2, 3, 4], 7), (vec![1, 2, 5, 0], 5), (vec![3], 5)] {
            rem_case(c, r, &dense(&d), &bi(p));
        }
    });
    let g = key_grid(&[0, 1, 2, 3, 4, 5, 7, 9], &[0], &[0], &[None]);
    sparse_units(&mut v, "sparse dividends in x", g, 5, pats, |c, r| {
        for (d, p) in [(vec![1i64, 1], 2i64), (vec![1, 0, 1], 3), (vec![0, 0, 1], 5), (vec![0, 0, 0, 4], 7), (vec![2, 3, 4], 7), (vec![-1, 0, 0, 0, 2], 13), (vec![3, 10], 5)] {
            rem_case(c, r, &dense(&d), &bi(p));
        }
    });
    wide_exp_units(&mut v, 1 << 29, |c, base, axis, r| {
        for m in [bi(2), bi(5), bi(1000), two_pow(64) - bi(59)] {
            mod_case(c, r, &m);
        }
        if base <= 1020 && (axis == 'x' || axis == 'y' || axis == 'q') {
            for (d, p) in [(vec![1i64, 1], 2i64), (vec![2, 3, 4], 7), (vec![-1, 0, 0, 0, 2], 13)] {
                rem_case(c, r, &dense(&d), &bi(p));
            }
        } else if axis != 'x' && axis != 'a' {
            for (d, p) in [(vec![0i64, 1], 3i64), (vec![1, 1], 2), (vec![5], 7)] {
                rem_case(c, r, &dense(&d), &bi(p));
            }
        }
        if base < 1 << 28 && r.0.len() <= 9 {
            let p = poly(r);
            for m in [2i64, 9, 10007] {
                let mut want = RP::one();
                for n in 0..=4 {
                    let l = || format!("({:?}).power_modulo({}, {})", r, n, m);
                    let g = c.call(l, || p.power_modulo(&bi(n), &bi(m)));
                    same(c, l, &g, &want.modp(&bi(m)));
                    c.trace();
                    want = want.mul(r).modp(&bi(m));
                }
            }
        }
    });
    // every small dividend by every small divisor
    for (p, df, dg) in tier.pick(vec![(2i64, 6usize, 4usize), (3, 4, 3), (5, 3, 2), (7, 3, 1)], vec![(2, 7, 5), (3, 5, 4), (5, 4, 3), (7, 3, 2), (11, 3, 2)]) {
        let gs: Vec<Vec<i64>> = vectors(dg + 1, p).into_iter().filter(|g| g.iter().any(|x| *x != 0)).collect();
        for chunk in gs.chunks((gs.len() / 24).max(1)) {
            let chunk = chunk.to_vec();
            v.push(unit(format!("remainders mod {} by {:?} ..", p, chunk[0]), move |c| {
                let fs = vectors(df + 1, p);
                let pb = bi(p);
                for g in &chunk {
                    for f in &fs {
                        rem_case(c, &dense_to_rp(&dense(f)), &dense(g), &pb);
                    }
                }
                c.sample(|| format!("{} dividends by {:?} mod {}", fs.len(), chunk[0], p));
            }));
        }
    }
    for p in [2i64, 3, 5, 7, 11, 13] {
        v.push(unit(format!("unreduced remainders mod {}", p), move |c| {
            let pb = bi(p);
            // representatives and leading coefficients divisible by p
            for g in vectors(3, p.min(5)) {
                if g.iter().all(|x| *x == 0) {
                    continue;
                }
                for (s, lead) in [(1i64, 0i64), (-1, 0), (2, p), (-3, -p), (0, 2 * p)] {
                    let mut d: Vec<i64> = g.iter().map(|x| x + s * p).collect();
                    if lead != 0 {
                        d.push(lead);
                        d.push(0);
                        d.push(-lead);
                    }
                    for f in [vec![1, 0, 0, 0, 1, 0, 3], vec![-1, p, 2 * p + 1, -5, 7, p], vec![p], vec![0, p, 0, -p], vec![1], vec![], vec![0, 0, -1, 0, 0, 0, 0, 0, 1 + p]] {
                        rem_case(c, &dense_to_rp(&dense(&f)), &dense(&d), &pb);
                    }
                }
            }
            // y, q and coefficient variables in the dividend
            for g in vectors(3, p.min(4)) {
                if g.iter().all(|x| *x == 0) {
                    continue;
                }
                for keys in [
                    vec![(3, 1, 0, None), (2, 2, 0, None), (3, 0, 0, None), (0, 3, 0, None)],
                    vec![(4, 0, 1, None), (2, 0, -1, None), (2, 1, 1, None)],
                    vec![(3, 0, 0, Some((0, 1))), (2, 0, 0, Some((1, 1))), (2, 0, 0, None)],
                    vec![(0, 1, 0, None), (0, 0, 1, None), (0, 0, 0, Some((0, 0)))],
                ] {
                    for f in all_polys(&keys, 1) {
                        rem_case(c, &f, &dense(&g), &pb);
                    }
                }
            }
        }));
    }
    for p in [2i64, 3, 7, 23, 101, 257] {
        v.push(unit(format!("long dividends mod {}", p), move |c| {
            let pb = bi(p);
            let gs: Vec<Vec<i64>> = vec![vec![1, 1], vec![0, 1], vec![3, 0, 2], vec![5, -3, 1], vec![1, 0, 0, 1], vec![2, 3, 0, 1, -4], vec![1], vec![-1, 0, 0, 0, 0, 0, 0, 1]];
            for g in gs {
                if g.iter().all(|x| x % p == 0) {
                    continue;
                }
                let mut fs: Vec<RP> = Vec::new();
                for n in [2, 5, 16, 31, 32, 33, 64, 65, 100, 128, 200, 257, 300] {
                    fs.push(RP::m(n, 0, 0, 1).add(&RP::m(1, 0, 0, -1)));
                    fs.push(RP::m(n, 1, 0, 1).add(&RP::m(n - 1, 2, 0, 3)));
                }
                for n in [9, 24, 33, 65, 130, 520] {
                    if n > 200 && g.len() > 3 {
                        continue;
                    }
                    fs.extend(long_polys(n).into_iter().map(|(_, r)| r));
                }
                for f in fs {
                    if f.0.keys().all(|k| k.0 >= 0) {
                        rem_case(c, &f, &dense(&g), &pb);
                    }
                }
            }
            for n in [500, 1000, 2049, 4096, 4097, 5000, 9000, 20011] {
                for g in [vec![1i64, 1], vec![0, 1], vec![-1, 1, 1], vec![1, 0, 0, 1], vec![3]] {
                    if (n < 3000 || g.len() == 2 || p == 7) && g.iter().any(|x| x % p != 0) {
                        rem_case(c, &RP::m(n, 0, 0, 1).add(&RP::m(1, 0, 0, -1)), &dense(&g), &pb);
                    }
                }
            }
            // gaps: every leading coefficient, second term near, half way, far or absent, more terms below
            for n in [12, 40, 70, 130, 260, 300, 520, 600, 1030, 2050] {
                for (i, g) in [vec![1i64, 1], vec![-1, 1, 1], vec![2, 0, 3], vec![1, 0, 2, 1]].into_iter().enumerate() {
                    for (k, m) in [0, 1, n / 2, n - 8, -1].into_iter().enumerate() {
                        if n > 700 && (i + k) % 3 != 0 || g.iter().all(|x| x % p == 0) {
                            continue;
                        }
                        for (j, l) in [2i64, -1, p + 3, 1].into_iter().enumerate() {
                            let y = (j % 2 * (i % 2)) as i32;
                            let mut f = RP::m(n, y, 0, l);
                            if m >= 0 {
                                f = f.add(&RP::m(m, 0, 0, 5 - 2 * j as i64));
                                f = f.add(&RP::m(m / 3, y, 0, 4));
                            }
                            rem_case(c, &f, &dense(&g), &pb);
                        }
                    }
                }
            }
            // dense divisors of many degrees
            for dg in [8, 16, 31, 32, 33, 40, 64, 65, 130, 260] {
                let g: Vec<i64> = (0..dg).map(|i| mix(i, 9)).chain([1]).collect();
                for df in [dg - 1, dg, dg + 1, 2 * dg, dg + 300] {
                    let f: Vec<i64> = (0..df).map(|i| mix(i, 10)).chain([1]).collect();
                    rem_case(c, &dense_to_rp(&dense(&f)), &dense(&g), &pb);
                }
            }
        }));
    }
    for p in big_primes() {
        v.push(unit(format!("remainders mod {}", p), move |c| {
            let es = some_ints();
            for (i, l) in es.iter().enumerate() {
                if md(l, &p).is_zero() {
                    continue;
                }
                for (j, o) in es.iter().enumerate() {
                    // fewer combinations for the primes where one inverse is expensive
                    let skip = c.tier.pick(if p > two_pow(200) { 16 } else if p > two_pow(80) { 4 } else { 1 }, 1);
                    if (i + 3 * j) % skip != 0 {
                        continue;
                    }
                    let g = vec![o.clone(), es[(i + j) % es.len()].clone(), l.clone()];
                    let f = vec![o.clone(), bi(1), l.clone(), &p - bi(1), es[(i * 3 + j) % es.len()].clone(), -o.clone()];
                    rem_case(c, &dense_to_rp(&f), &g, &p);
                    rem_case(c, &dense_to_rp(&f), &[l.clone()], &p);
                    rem_case(c, &dense_to_rp(&f), &[o.clone(), l.clone()], &p);
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    space: "every ordered pair of polynomials of degree <= 4 over F_2, <= 3 over F_3, <= 2 over F_5, F_7 (more in thorough; zero and constants included), each also with unreduced and negative representatives and vanishing leading coefficients; products with planted common factors of high degree, x^n - x with small polynomials, deep Euclidean chains, binomials of degree past 2^16; large primes. gcd, coprimality test and monic scaling compared with the dense Euclidean algorithm.",
    assumptions: &[],
    hang: (30, 120),
    units: c12_units,
};

fn gcd_case(c: &mut Ctx, f: &[BigInt], g: &[BigInt], p: &BigInt) {
    let (rf, rg) = (dense_to_rp(f), dense_to_rp(g));
    c.state(&(&rf, &rg, p));
    let (pf, pg) = (poly(&rf), poly(&rg));
    let both_zero = rf.modp(p).is_zero() && rg.modp(p).is_zero();
    if both_zero {
        return;
    }
    let want = dense_gcd(f, g, p);
    let l = || format!("gcd({:?}, {:?}) mod {}", rf, rg, p);
    let got = c.call(l, || pf.gcd(&pg, p));
    same(c, l, &got, &dense_to_rp(&want));
    let one = c.call(l, || pf.is_gcd_one(&pg, p));
    c.check(one == (want.len() == 1), || format!("is_gcd_one({:?}, {:?}) mod {} answers {}, the gcd is {:?}", rf, rg, p, one, dense_to_rp(&want)));
    intact(c, "gcd left", &pf, &rf);
    intact(c, "gcd right", &pg, &rg);
    c.outcome(&dense_to_rp(&want));
    c.trace();
}

fn monic_case(c: &mut Ctx, f: &[BigInt], p: &BigInt) {
    let rf = dense_to_rp(f);
    let pf = poly(&rf);
    c.state(&(&rf, p));
    let l = || format!("({:?}).to_monic({})", rf, p);
    let got = c.call(l, || pf.to_monic(p));
    same(c, l, &got, &dense_to_rp(&dense_monic(f, p)));
    intact(c, "to_monic", &pf, &rf);
    c.trace();
}

pub fn dmul(f: &[BigInt], g: &[BigInt]) -> Vec<BigInt> {
    if f.is_empty() || g.is_empty() {
        return vec![];
    }
    let mut r = vec![BigInt::zero(); f.len() + g.len() - 1];
    for (i, a) in f.iter().enumerate() {
        for (j, b) in g.iter().enumerate() {
            r[i + j] += a * b;
        }
    }
    r
}

fn dense_of(t: &[(i32, i64)]) -> Vec<BigInt> {
    let mut f = vec![BigInt::zero(); t.iter().map(|x| x.0).max().unwrap() as usize + 1];
    for (e, x) in t {
        f[*e as usize] += bi(*x);
    }
    f
}

fn c12_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in [2i64, 3, 5, 7, 13, 101, 65537] {
        v.push(unit(format!("one exception to a rule, mod {}", p), move |c| {
            let pb = bi(p);
            let all = one_exception(c.tier.pick(17, 33));
            let k = all.len();
            for (i, t) in all.iter().enumerate() {
                let f = dense_of(t);
                for h in [dense(&[1, 1]), dense(&[-1, 0, 1]), dense(&[1, 0, 0, 1]), dense_of(&all[(i * 7 + 3) % k]), dense_of(&all[(i * 5 + 1) % k])] {
                    gcd_case(c, &f, &h, &pb);
                    gcd_case(c, &dmul(&f, &h), &dmul(&h, &dense(&[1, 1, 1])), &pb);
                }
                monic_case(c, &f, &pb);
            }
        }));
    }
    for (p, d) in tier.pick(vec![(2i64, 4usize), (3, 3), (5, 2), (7, 2)], vec![(2, 6), (3, 4), (5, 3), (7, 2), (11, 2)]) {
        let fs = vectors(d + 1, p);
        for chunk in fs.chunks((fs.len() / 16).max(1)) {
            let chunk = chunk.to_vec();
            v.push(unit(format!("gcd mod {} of {:?} .. and everything", p, chunk[0]), move |c| {
                let gs = vectors(d + 1, p);
                let pb = bi(p);
                for f in &chunk {
                    monic_case(c, &dense(f), &pb);
                    for g in &gs {
                        gcd_case(c, &dense(f), &dense(g), &pb);
                    }
                }
                c.sample(|| format!("{:?} against {} others mod {}", chunk[0], gs.len(), p));
            }));
        }
    }
    for p in [2i64, 3, 5, 7, 11, 13] {
        v.push(unit(format!("unreduced gcd mod {}", p), move |c| {
            let pb = bi(p);
            let lim = if p == 2 { 2 } else { 3 };
            let base = vectors(3, lim);
            for f in &base {
                for g in &base {
                    for (s, t, lf, lg) in [(1i64, 0i64, 0i64, 0i64), (-1, 2, 0, 0), (0, 0, p, 0), (0, 0, 0, p), (-2, 1, -p, 3 * p), (0, -1, 2 * p, -p)] {
                        let mk = |x: &Vec<i64>, s: i64, l: i64| -> Vec<BigInt> {
                            let mut v: Vec<i64> = x.iter().enumerate().map(|(i, a)| a + s * p * (i as i64 + 1)).collect();
                            if l != 0 {
                                v.push(0);
                                v.push(l);
                            }
                            dense(&v)
                        };
                        let (ff, gg) = (mk(f, s, lf), mk(g, t, lg));
                        gcd_case(c, &ff, &gg, &pb);
                        monic_case(c, &ff, &pb);
                    }
                }
            }
        }));
    }
    for p in [2i64, 3, 5, 7, 11, 13, 17, 23, 101, 257, 65537] {
        v.push(unit(format!("planted factors mod {}", p), move |c| {
            let pb = bi(p);
            let poly_of = |n: usize, s: u64| -> Vec<BigInt> { (0..n).map(|i| bi(mix(i as u64, s))).chain([bi(1)]).collect() };
            for d in [0usize, 1, 2, 3, 5, 8, 13] {
                for (a, b) in [(0usize, 0usize), (1, 1), (2, 3), (5, 1), (4, 7), (0, 6), (12, 11)] {
                    for s in 0..3u64 {
                        let h = poly_of(d, s + 50);
                        let f = dmul(&h, &poly_of(a, s + 1));
                        let g = dmul(&h, &poly_of(b, s + 11));
                        gcd_case(c, &f, &g, &pb);
                        gcd_case(c, &g, &f, &pb);
                        gcd_case(c, &dmul(&f, &g), &g, &pb);
                    }
                }
            }
            for n in [p, p * p, 31, 64, 100] {
                if !(2..=300).contains(&n) {
                    continue;
                }
                // x^n + e x^k, of which x^n - x is the polynomial of the field
                for (k, e) in [(1usize, -1i64), (1, 1), (1, 2), (1, -2), (1, p / 2), (0, -1), (0, 1), (2, -1), (2, 3), (n as usize - 1, 1), (n as usize / 2, -1)] {
                    let mut f = vec![BigInt::zero(); n as usize + 1];
                    f[n as usize] = bi(1);
                    f[k] = &f[k] + bi(e);
                    let lim = if (k, e) == (1, -1) { 4 } else { 3 };
                    for g in vectors(if e == 2 || k > 2 { 3 } else { 4 }, p.min(lim)) {
                        gcd_case(c, &f, &dense(&g), &pb);
                        gcd_case(c, &dense(&g), &f, &pb);
                    }
                }
            }
            // long dense operands with a common factor of low or of high degree
            for (d, a, b) in [(1usize, 40usize, 33usize), (40, 40, 1), (33, 64, 65), (3, 130, 129), (100, 40, 20), (0, 70, 64)] {
                let (h, f, g) = (poly_of(d, 61), poly_of(a, 7), poly_of(b, 29));
                gcd_case(c, &dmul(&h, &f), &dmul(&h, &g), &pb);
                gcd_case(c, &dmul(&h, &f), &h, &pb);
            }
            // a remainder sequence that loses one degree at every step
            let (mut f, mut g) = (dense(&[1]), dense(&[1, 1]));
            for i in 0..24i64 {
                let mut n = dmul(&g, &dense(&[i % p, 1]));
                for (k, x) in f.iter().enumerate() {
                    n[k] += x;
                }
                f = g;
                g = n;
                gcd_case(c, &f, &g, &pb);
                gcd_case(c, &dmul(&f, &dense(&[1, 2, 1])), &dmul(&g, &dense(&[1, 2, 1])), &pb);
            }
        }));
    }
    // degrees past 2^16: gcd(x^n - 1, x^m - 1) = x^gcd(n,m) - 1, also times a power of x
    for n in [60i32, 127, 128, 255, 256, 257, 1000, 1024, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 1 << 20] {
        v.push(unit(format!("gcds of binomials of degree {}", n), move |c| {
            for p in [2i64, 3, 7, 65537] {
                let pb = bi(p);
                for m in [1i32, 2, 3, 6, 16, 60, 255, n / 100 * 33, n / 3, n / 2, n / 7 * 4, n / 16 * 15, n - 1, n] {
                    // the number of division steps
                    let (mut a, mut b, mut steps) = (n, m.max(1), 0);
                    while b != 0 {
                        steps += a / b;
                        (a, b) = (b, a % b);
                    }
                    if m < 1 || m > n || steps > 1500 {
                        continue;
                    }
                    for (s, t) in [(0, 0), (2, 1), (0, 3)] {
                        let mk = |n: i32, s: i32| RP::m(n + s, 0, 0, 1).sub(&RP::m(s, 0, 0, 1));
                        let (rf, rg) = (mk(n, s), mk(m, t));
                        let want = mk(num_integer::Integer::gcd(&n, &m), s.min(t)).modp(&pb);
                        let (pf, pg) = (poly(&rf), poly(&rg));
                        for swap in [false, true] {
                            let (x, y) = if swap { (&pg, &pf) } else { (&pf, &pg) };
                            let l = || format!("gcd({}, {}) mod {}", x, y, p);
                            let got = c.call(l, || x.gcd(y, &pb));
                            same(c, l, &got, &want);
                            c.trace();
                        }
                        let l = || format!("is_gcd_one({}, {}) mod {}", pf, pg, p);
                        let one = c.call(l, || pf.is_gcd_one(&pg, &pb));
                        c.check(!one, || format!("{} answers true", l()));
                        c.state(&(n, m, s, t, p));
                    }
                }
            }
            c.outcome(&n);
        }));
    }
    for p in big_primes() {
        v.push(unit(format!("gcd mod {}", p), move |c| {
            let es = some_ints();
            for (i, x) in es.iter().enumerate() {
                for (j, y) in es.iter().enumerate() {
                    let skip = c.tier.pick(if p > two_pow(200) { 16 } else if p > two_pow(80) { 4 } else { 1 }, 1);
                    if (i + 3 * j) % skip != 0 {
                        continue;
                    }
                    let h = vec![x.clone(), y.clone(), es[(i + j) % es.len()].clone()];
                    let f = dmul(&h, &[y.clone(), bi(1)]);
                    let g = dmul(&h, &[x.clone(), &p - bi(1)]);
                    if j % 2 == i % 2 {
                        gcd_case(c, &f, &g, &p);
                        gcd_case(c, &f, &h, &p);
                        gcd_case(c, &h, &[x.clone()], &p);
                    }
                    monic_case(c, &f, &p);
                    monic_case(c, &[x.clone(), y.clone()], &p);
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------- C13

pub static C13: Prop = Prop {
    id: "C13",
    space: "every (a,b) in [-3,3]^2 and word-boundary pairs, every monomial x^i y^j q^k (j to 24), y^j to 140 and some to 626, sparse polynomials over every subset of an exponent grid, every polynomial over mixed supports, long ones; the exact reduction compared with step-by-step replacement, the modular one for p in {2,3,4,5,6,7,...} and the largest 32-bit moduli compared with the reduction of the exact one, values at all points of the curve for p <= 13.",
    assumptions: &["the y-exponents are non-negative"],
    hang: (30, 60),
    units: c13_units,
};

fn red_case(c: &mut Ctx, r: &RP, a: &BigInt, b: &BigInt, mods: &[i32]) {
    let p = poly(r);
    c.state(&(r, a, b));
    let want = r.reduce_curve(a, b);
    let l = || format!("({:?}).reduction({}, {})", r, a, b);
    let got = c.call(l, || p.reduction(a, b));
    same(c, l, &got, &want);
    for m in mods {
        let l = || format!("({:?}).reduction_modular({}, {}, {})", r, a, b, m);
        let got = c.call(l, || p.reduction_modular(a, b, *m));
        same(c, l, &got, &want.modp(&bi(*m as i64)));
        c.trace();
    }
    intact(c, "reduced", &p, r);
    c.outcome(&want);
    c.trace();
}

fn c13_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let mut ab: Vec<(BigInt, BigInt)> = Vec::new();
    let r = tier.pick(6, 9);
    for a in -r..=r {
        for b in -r..=r {
            ab.push((bi(a), bi(b)));
        }
    }
    let es = some_ints();
    for (i, e) in es.iter().enumerate() {
        ab.push((e.clone(), es[(i * 7 + 3) % es.len()].clone()));
        ab.push((bi(0), e.clone()));
        ab.push((e.clone(), bi(0)));
    }
    for (a, b) in ab {
        v.push(unit(format!("a={} b={}", a, b), move |c| {
            let mods = [2i32, 3, 4, 5, 6, 7, 12, 23, 101, 65537, 2147483647];
            let ymax = c.tier.pick(13, 26);
            for x in [0, 1, 4] {
                for y in 0..=ymax {
                    for (q, var) in [(0, None), (-2, Some((1, 2)))] {
                        red_case(c, &RP::mono((x, y, q, var), bi(3)), &a, &b, &mods);
                    }
                }
            }
            for keys in [
                vec![(0, 0, 0, None), (3, 0, 0, None), (0, 2, 0, None)],
                vec![(1, 3, 0, None), (4, 1, 0, None), (0, 5, 0, None)],
                vec![(0, 4, 0, None), (6, 0, 0, None), (3, 2, 0, None), (1, 1, 0, None)],
                vec![(0, 2, 1, None), (0, 3, -1, Some((0, 1))), (3, 0, 1, None)],
                vec![(-3, 2, 0, None), (0, 0, 0, None), (-2, 0, 0, None)],
            ] {
                for f in all_polys(&keys, 1) {
                    red_case(c, &f, &a, &b, &mods[..6]);
                }
            }
            for f in [
                RP::m(0, 2, 0, 1).sub(&RP::m(3, 0, 0, 1)).sub(&RP::mono(KX, a.clone())).sub(&RP::c(b.clone())),
                RP::m(0, 16, 0, 1).add(&RP::m(0, 17, 0, -1)),
                RP::m(0, 24, 0, 7),
                RP::mono((2, 3, 0, None), two_pow(64)),
            ] {
                red_case(c, &f, &a, &b, &mods);
            }
            for n in [9, 20, 33, 70, 130, 300, 520] {
                if n > 33 && !(md(&(&a + &b), &bi(4)).is_zero() && a < bi(50)) {
                    continue;
                }
                for (_, f) in long_polys(n) {
                    red_case(c, &f, &a, &b, &mods[..4]);
                }
            }
        }));
    }
    for (a, b) in [(0i64, 0i64), (0, 1), (1, 0), (-1, 2), (7, -3)] {
        v.push(unit(format!("one exception to a rule, a={} b={}", a, b), move |c| {
            for t in one_exception(c.tier.pick(13, 33)) {
                let mut r = RP::zero();
                for (e, x) in &t {
                    r.put((0, *e, 0, None), bi(*x));
                }
                red_case(c, &r, &bi(a), &bi(b), &[2, 5, 6, 101]);
                red_case(c, &r.map_keys(|k| (k.1 / 2, k.1 % 7, 1, None)), &bi(a), &bi(b), &[2, 5, 6, 101]);
                red_case(c, &r.map_keys(|k| (k.1, 2 + k.1 % 2, 0, None)), &bi(a), &bi(b), &[3, 4]);
            }
        }));
    }
    let g = key_grid(&[-1, 0, 1, 3], &[0, 1, 2, 3, 4, 7], &[0, 1], &[None]);
    sparse_units(&mut v, "sparse", g, tier.pick(3, 4), patterns()[1..2].to_vec(), |c, r| {
        for (a, b) in [(0i64, 0i64), (1, 0), (0, -1), (-2, 3)] {
            red_case(c, r, &bi(a), &bi(b), &[2, 3, 7]);
        }
    });
    wide_exp_units(&mut v, 1 << 29, |c, base, axis, r| {
        let r = match axis {
            'x' | 'q' => r.clone(),
            _ if base <= 60 => r.clone(),
            _ => return,
        };
        if r.0.len() <= 9 || axis != 'a' {
            red_case(c, &r, &bi(-2), &bi(3), &[2, 7]);
            red_case(c, &r, &bi(0), &bi(0), &[5]);
        }
    });
    for (i, (a, b)) in [(0i64, 1i64), (1, 0), (-1, 2), (3, -5), (0, 0), (10, 23)].into_iter().enumerate() {
        for part in 0..8 {
            v.push(unit(format!("high powers of y, a={} b={}, part {}", a, b, part), move |c| {
                for y in (part..=c.tier.pick(140, 300)).step_by(8).chain([[255, 256, 257, 289], [288, 290, 361, 529], [511, 512, 513, 530], [360, 362, 400, 401], [600, 601, 625, 626], [150, 160, 170, 180], [191, 192, 193, 194], [200, 201, 224, 225]][part as usize]) {
                    if y < 300 || i < 2 {
                        red_case(c, &RP::m(1, y, 0, 1).add(&RP::m(0, y - 1, 0, -2)), &bi(a), &bi(b), &[2, 5, 23]);
                    }
                }
            }));
        }
    }
    for p in primes(3, 13) {
        v.push(unit(format!("values on the curves over F_{}", p), move |c| {
            let f = RP::m(2, 7, 0, 3).add(&RP::m(1, 4, 0, -5)).add(&RP::m(0, 3, 0, 2)).add(&RP::m(5, 0, 0, 1));
            let pf = poly(&f);
            for a in 0..p {
                for b in 0..p {
                    let sc = SmallCurve::new(a, b, p);
                    let g = c.call(|| format!("reduction a={} b={}", a, b), || pf.reduction(&bi(a), &bi(b)));
                    let h = c.call(|| format!("reduction_modular a={} b={} p={}", a, b, p), || pf.reduction_modular(&bi(a), &bi(b), p as i32));
                    let (g, h) = (rp(&g).unwrap_or_default(), rp(&h).unwrap_or_default());
                    for q in &sc.pts {
                        if let Some((x, y)) = q {
                            c.state(&(a, b, x, y));
                            let at = |r: &RP| md(&ev(r, &bi(*x), &bi(*y)), &bi(p));
                            c.check(at(&f) == at(&g) && at(&f) == at(&h), || format!("a={} b={} p={}: the reduction of {:?} differs at ({}, {})", a, b, p, f, x, y));
                            c.trace();
                        }
                    }
                }
            }
        }));
    }
    v
}

