//! C17, C18, C19, C23, C24, C27, C28: terms, orders, rendering, linear algebra, numbering

use crate::conv::*;
use crate::engine::*;
use crate::poly::*;
use crate::refm::*;
use ellipticcurve::bigint::Power;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::simultaneous_equation::solve;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use num_traits::{One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::collections::HashSet;

// ------------------------------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    space: "every one-unknown system over the word-boundary values, every 2x2 one with entries in [-5,5] (thorough [-7,7]) and in {-1,0,1,2} for 3 (full rank ones), each with several integral solutions; every row order; redundant rows appended and prepended (copies, multiples, sums, zero rows); upper/lower triangular, permutation, companion and word-boundary matrices to 12 unknowns, systems shaped like the modular-polynomial equations. A state is a system, a trace one call whose last column is compared with the planted solution.",
    assumptions: &["the system is consistent with full column rank and an integral solution (others are refused or out of the domain)"],
    hang: (30, 60),
    units: c17_units,
};

type M = Vec<Vec<BigInt>>;

/// rank by fraction-free elimination (reference)
pub fn rank(m: &M) -> usize {
    let mut a = m.clone();
    let (r, c) = (a.len(), if a.is_empty() { 0 } else { a[0].len() });
    let mut k = 0;
    for j in 0..c {
        if let Some(p) = (k..r).find(|i| !a[*i][j].is_zero()) {
            a.swap(k, p);
            for i in k + 1..r {
                if !a[i][j].is_zero() {
                    let (x, y) = (a[k][j].clone(), a[i][j].clone());
                    for l in 0..c {
                        a[i][l] = &a[i][l] * &x - &a[k][l] * &y;
                    }
                    let mut g = BigInt::zero();
                    for l in 0..c {
                        g = gcd(&g, &a[i][l]);
                    }
                    if !g.is_zero() {
                        for l in 0..c {
                            a[i][l] = &a[i][l] / &g;
                        }
                    }
                }
            }
            k += 1;
        }
    }
    k
}

fn augment(m: &M, x: &[BigInt]) -> M {
    m.iter()
        .map(|row| {
            let mut r = row.clone();
            let mut s = BigInt::zero();
            for (a, b) in row.iter().zip(x) {
                s += a * b;
            }
            r.push(s);
            r
        })
        .collect()
}

fn solve_case(c: &mut Ctx, sys: &M, x: &[BigInt]) {
    c.state(sys);
    let keep = sys.clone();
    let lab = || format!("solve({})", keep.iter().map(|r| format!("[{}]", r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" "));
    let out = c.call(lab, || solve(sys));
    c.check(*sys == keep, || format!("{} changed its input", lab()));
    let n = x.len();
    let ok = out.len() >= n && (0..n).all(|i| out[i].len() == n + 1 && out[i][n] == x[i]);
    c.check(ok, || format!("{} gives {:?}, expected {:?}", lab(), out.iter().map(|r| r.last().map(|v| v.to_string())).collect::<Vec<_>>(), x.iter().map(|v| v.to_string()).collect::<Vec<_>>()));
    c.outcome(x);
    c.trace();
}

fn sols(n: usize, few: bool) -> Vec<Vec<BigInt>> {
    let mut v: Vec<Vec<BigInt>> = vec![(0..n).map(|i| bi([1, -1, 2, -3, 5][i % 5])).collect(), (0..n).map(|i| bi([0, 7, -2][i % 3])).collect()];
    if !few {
        v.push((0..n).map(|_| bi(0)).collect());
        v.push((0..n).map(|i| two_pow(64) * bi([1, -3][i % 2]) + bi(i as i64)).collect());
        v.push((0..n).map(|i| if i + 1 == n { bi(1) } else { bi(0) }).collect());
        v.push((0..n).map(|i| if i == 0 { bi(-4) } else { bi(6) }).collect());
    }
    v
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = Vec::new();
    for p in orders(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

/// the system with redundant rows, at the end, at the front and in between
fn redundant(sys: &M) -> Vec<M> {
    let comb = |a: &Vec<BigInt>, b: &Vec<BigInt>, s: i64, t: i64| -> Vec<BigInt> { a.iter().zip(b).map(|(x, y)| x * bi(s) + y * bi(t)).collect() };
    let last = sys.len() - 1;
    let extra = vec![
        comb(&sys[0], &sys[last], 1, 1),
        comb(&sys[0], &sys[last], 2, -3),
        sys[0].iter().map(|_| BigInt::zero()).collect(),
        sys[0].clone(),
        comb(&sys[last], &sys[0], -5, 0),
    ];
    let mut v = Vec::new();
    for e in &extra {
        let mut a = sys.clone();
        a.push(e.clone());
        v.push(a);
        let mut a = vec![e.clone()];
        a.extend(sys.clone());
        v.push(a);
        let mut a = sys.clone();
        a.insert(sys.len() / 2, e.clone());
        v.push(a);
    }
    let mut a = extra.clone();
    a.extend(sys.clone());
    v.push(a.clone());
    a.reverse();
    v.push(a);
    v
}

fn c17_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    v.push(unit(String::from("1 unknown"), |c| {
        for a in edge_ints() {
            if a.is_zero() {
                continue;
            }
            for x in edge_ints() {
                solve_case(c, &augment(&vec![vec![a.clone()]], &[x.clone()]), &[x.clone()]);
                let sys = augment(&vec![vec![bi(0)], vec![a.clone()], vec![-a.clone()], vec![&a * bi(3)]], &[x.clone()]);
                solve_case(c, &sys, &[x.clone()]);
            }
        }
    }));
    // short entries, long solutions: x_i = s x_(i+1) + t, as rows in three orders, also multiplied out
    for st in [2i64, -2, 3, -7, 10, 255, -256, 1000, 32767, 65536, -1000000, 2147483647, 1 << 40] {
        v.push(unit(format!("solutions far longer than the entries, ratio {}", st), move |c| {
            for n in [2usize, 3, 4, 5, 6, 7, 8, 10, 13, 17, 24, 32, 33, 48, 61, 64, 65, 70, 80, 96, 130] {
                let bits = 64 - st.unsigned_abs().leading_zeros() as usize;
                if n * bits > c.tier.pick(300, 1000) {
                    continue;
                }
                for t in [0i64, 1, -3] {
                    for last in [1i64, -5] {
                        let mut m: M = vec![vec![BigInt::zero(); n + 1]; n];
                        let mut x = vec![bi(last); n];
                        for i in (0..n).rev() {
                            m[i][i] = bi(1);
                            if i + 1 < n {
                                m[i][i + 1] = bi(-st);
                                m[i][n] = bi(t);
                                x[i] = bi(st) * &x[i + 1] + bi(t);
                            } else {
                                m[i][n] = bi(last);
                            }
                        }
                        solve_case(c, &m, &x);
                        let mut r = m.clone();
                        r.reverse();
                        solve_case(c, &r, &x);
                        let mut r = m.clone();
                        r.rotate_left(n / 2);
                        r.push(m[0].iter().zip(&m[n - 1]).map(|(a, b)| a * bi(2) - b).collect());
                        solve_case(c, &r, &x);
                        // the variables in the other order
                        let mut r: M = m.iter().map(|row| row[..n].iter().rev().chain([&row[n]]).cloned().collect()).collect();
                        let y: Vec<BigInt> = x.iter().rev().cloned().collect();
                        solve_case(c, &r, &y);
                        // rows combined so that no zero pattern is left
                        for i in 0..n {
                            let k = (i * 7 + 3) % n;
                            if k != i {
                                let add: Vec<BigInt> = r[k].clone();
                                for (a, b) in r[i].iter_mut().zip(&add) {
                                    *a = &*a + b * bi(if i % 2 == 0 { 1 } else { -2 });
                                }
                            }
                        }
                        if n <= 33 {
                            solve_case(c, &r, &y);
                        }
                    }
                }
            }
        }));
    }
    let r = tier.pick(5i64, 7);
    for a in -r..=r {
        v.push(unit(format!("2 unknowns, first entry {}", a), move |c| {
            for b in -r..=r {
                for d in -r..=r {
                    for e in -r..=r {
                        let m: M = vec![vec![bi(a), bi(b)], vec![bi(d), bi(e)]];
                        if a * e - b * d == 0 {
                            continue;
                        }
                        for x in sols(2, false) {
                            let s = augment(&m, &x);
                            solve_case(c, &s, &x);
                            for t in redundant(&s) {
                                solve_case(c, &t, &x);
                            }
                        }
                    }
                }
            }
        }));
    }
    let es: Vec<i64> = tier.pick(vec![0, 1, -1, 2], vec![0, 1, -1, 2, -3]);
    for (i, first) in vectors(3, es.len() as i64).into_iter().enumerate() {
        let es = es.clone();
        v.push(unit(format!("3 unknowns, first row {}", i), move |c| {
            for rest in vectors(6, es.len() as i64) {
                let f = |i: &i64| bi(es[*i as usize]);
                let m: M = vec![first.iter().map(f).collect(), rest[..3].iter().map(f).collect(), rest[3..].iter().map(f).collect()];
                if rank(&m) < 3 {
                    continue;
                }
                for (k, x) in sols(3, true).into_iter().enumerate() {
                    let s = augment(&m, &x);
                    solve_case(c, &s, &x);
                    if k == 0 {
                        let rs = redundant(&s);
                        solve_case(c, &rs[1], &x);
                        solve_case(c, &rs[rs.len() - 1], &x);
                    }
                }
            }
        }));
    }
    v.push(unit(String::from("entries in -1,0,1,2 with 3 unknowns, triangular"), |c| {
        for d in vectors(6, 5) {
            let f = |i: usize| bi(d[i] - 2);
            let (a, b, e) = (bi(d[0] * 2 - 5), bi(d[3] * 2 - 3), bi(d[5] * 2 - 7));
            let m: M = vec![vec![a, f(1), f(2)], vec![bi(0), b, f(4)], vec![bi(0), bi(0), e]];
            for x in sols(3, true) {
                let s = augment(&m, &x);
                solve_case(c, &s, &x);
                let mut t = s.clone();
                t.reverse();
                solve_case(c, &t, &x);
            }
        }
    }));
    for n in [3usize, 4, 5] {
        v.push(unit(format!("every row order, {} unknowns", n), move |c| {
            let mut ms: Vec<M> = Vec::new();
            for s in 0..c.tier.pick(20u64, 60) {
                ms.push((0..n).map(|i| (0..n).map(|j| bi(mix((i * 16 + j) as u64, s) % 7)).collect()).collect());
                ms.push((0..n).map(|i| (0..n).map(|j| if j < i { bi(0) } else { bi(mix((i * 16 + j) as u64, s + 99) % 9 | 1) }).collect()).collect());
                ms.push((0..n).map(|i| (0..n).map(|j| if (i + j + s as usize) % 3 == 0 { bi(0) } else { two_pow(31 + (i * j) as u32) * bi(mix(i as u64, j as u64 + s) | 1) }).collect()).collect());
            }
            for m in ms {
                if rank(&m) < n {
                    continue;
                }
                for x in sols(n, true) {
                    let s = augment(&m, &x);
                    for o in orders(n) {
                        let t: M = o.iter().map(|i| s[*i].clone()).collect();
                        solve_case(c, &t, &x);
                    }
                    for t in redundant(&s) {
                        solve_case(c, &t, &x);
                    }
                }
            }
        }));
    }
    for n in 6..=tier.pick(16usize, 26) {
        v.push(unit(format!("structured, {} unknowns", n), move |c| {
            let mut ms: Vec<M> = Vec::new();
            let id = |f: &dyn Fn(usize, usize) -> BigInt| -> M { (0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect() };
            ms.push(id(&|i, j| if i == j { bi(1) } else { bi(0) }));
            ms.push(id(&|i, j| if i + j + 1 == n { bi(-3) } else { bi(0) }));
            ms.push(id(&|i, j| if (i + 1) % n == j { bi(2) } else { bi(0) }));
            ms.push(id(&|i, j| if j + i + 1 >= n { bi(1) } else { bi(0) }));
            ms.push(id(&|i, j| if i == j { bi(2) } else if i + 1 == j || j + 1 == i { bi(-1) } else { bi(0) }));
            ms.push(id(&|i, j| ipow(&bi(i as i64 + 1), j as u32)));
            ms.push(id(&|i, j| if j < i { bi(0) } else { bi(mix(i as u64, j as u64) | 1) }));
            ms.push(id(&|i, j| if j > i { bi(0) } else { two_pow((i * 7 % 70) as u32) * bi(mix(i as u64, j as u64) | 1) }));
            for s in 0..6 {
                ms.push(id(&|i, j| bi(mix((i * 32 + j) as u64, s) % 11)));
            }
            for m in ms {
                if rank(&m) < n {
                    continue;
                }
                for x in sols(n, false) {
                    let s = augment(&m, &x);
                    solve_case(c, &s, &x);
                    let mut t = s.clone();
                    t.reverse();
                    solve_case(c, &t, &x);
                    let rs = redundant(&s);
                    for k in [0, 1, 6, 8, rs.len() - 2, rs.len() - 1] {
                        solve_case(c, &rs[k], &x);
                    }
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------- C18

pub static C18: Prop = Prop {
    id: "C18",
    space: "every prime p up to the bound: every variable and every index in both directions, count, every variable with subscripts in [-3, p+3]^2 outside the range, indices beyond the range including 2^31, 2^32, 2^32+k, 2^33+k, 2^63, u64::MAX; every non-prime up to the bound and structured large or negative ones refused. A state is an (p, index or variable) pair.",
    assumptions: &[],
    hang: (30, 60),
    units: c18_units,
};

fn c18_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for p in primes(2, tier.pick(47, 113)) {
        v.push(unit(format!("p = {}", p), move |c| {
            let p = p as i32;
            let cv = c.call(|| format!("converter for {}", p), || SubscriptedVariableConverter::new(p));
            let n = c.call(|| format!("count for {}", p), || cv.count());
            let want = ((p as u64 + 1) * (p as u64 + 2)) / 2;
            c.eq(|| format!("count for {}", p), &n, &want);
            let mut seen: HashSet<(i32, i32)> = HashSet::new();
            for i in 0..want {
                c.state(&(0, i));
                let w = c.call(|| format!("p={} variable_from_index({})", p, i), || cv.variable_from_index(i));
                c.check(!w.empty && 0 <= w.i && w.i <= w.j && w.j <= p, || format!("p={} index {} gives {:?}", p, i, w));
                c.check(seen.insert((w.i, w.j)), || format!("p={} index {} gives {:?} again", p, i, w));
                let back = c.call(|| format!("p={} index_from_variable({:?})", p, w), || cv.index_from_variable(w));
                c.eq(|| format!("p={} index of {:?}", p, w), &back, &Some(i));
                c.outcome(&(p, w.i, w.j));
                c.traces(1);
            }
            for i in -3..=p + 3 {
                for j in -3..=p + 3 {
                    c.state(&(1, i, j));
                    let var = SubscriptedVariable { i, j, empty: false };
                    if 0 <= i && i <= j && j <= p {
                        let k = c.call(|| format!("p={} index_from_variable({:?})", p, var), || cv.index_from_variable(var));
                        c.check(k.map(|k| k < want).unwrap_or(false), || format!("p={} index of {:?} is {:?}", p, var, k));
                        let w = c.call(|| format!("p={} variable_from_index({:?})", p, k), || cv.variable_from_index(k.unwrap()));
                        c.check(!w.empty && (w.i, w.j) == (i, j), || format!("p={}: {:?} -> {:?} -> {:?}", p, var, k, w));
                    } else {
                        c.refuses(|| format!("p={} index_from_variable({:?})", p, var), || cv.index_from_variable(var));
                    }
                    c.traces(1);
                }
            }
            for (i, j) in [(i32::MIN, 0), (0, i32::MIN), (i32::MAX, i32::MAX), (0, i32::MAX), (65536, 65537), (256, 257), (p, 256 * (p + 1)), (-p, p), (0, p + 256)] {
                let var = SubscriptedVariable { i, j, empty: false };
                c.refuses(|| format!("p={} index_from_variable({:?})", p, var), || cv.index_from_variable(var));
            }
            for (i, j) in [(0, 0), (1, 1), (0, 1), (-1, 7), (p + 5, 2)] {
                let none = SubscriptedVariable { i, j, empty: true };
                let k = c.call(|| format!("p={} index of the absent variable", p), || cv.index_from_variable(none));
                c.eq(|| format!("p={} index of the absent variable", p), &k, &None);
            }
            let mut bad: Vec<u64> = (0..40).map(|d| want + d).collect();
            for b in [1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 3 << 32, 1 << 48, 1 << 63] {
                for d in [0, 1, 2, want - 1, want] {
                    bad.push(b + d);
                }
                bad.push(b - 1);
            }
            bad.extend([u64::MAX, u64::MAX - 1, u64::MAX - want, want * 2, want * want]);
            for i in bad {
                if i >= want {
                    c.state(&(0, i));
                    c.refuses(|| format!("p={} variable_from_index({})", p, i), || cv.variable_from_index(i));
                }
            }
            c.sample(|| format!("p={}: {} variables", p, want));
        }));
    }
    // the squares of these primes cross 2^31 and 2^32, as do the numbers of variables
    for p in tier.pick(vec![257i32, 1009, 46337, 46349, 65537], vec![257, 1009, 32749, 32771, 46327, 46337, 46349, 46351, 65519, 65521, 65537, 65539, 92681, 92683]) {
        let want = (p as u64 + 1) * (p as u64 + 2) / 2;
        v.push(unit(format!("large p = {}", p), move |c| {
            let cv = c.call(|| format!("converter for {}", p), || SubscriptedVariableConverter::new(p));
            let n = c.call(|| format!("p={} count", p), || cv.count());
            c.eq(|| format!("p={} count", p), &n, &want);
            c.state(&0);
            c.trace();
            let row = |i: u64| i * (p as u64) - i * i.saturating_sub(1) / 2;
            let diag = row(p as u64);
            let mut cases = vec![(0u64, (0, 1)), (1, (0, 2)), (p as u64 - 1, (0, p)), (p as u64, (1, 2)), (diag - 1, (p - 1, p)), (diag, (0, 0)), (want - 1, (p, p))];
            for i in [1u64, p as u64 / 2, 2, 255, 256, 46340, 46341, 65535, 65536].into_iter().take(if p > 2000 { c.tier.pick(1, 9) } else { 9 }) {
                if i < p as u64 {
                    cases.push((row(i), (i as i32, i as i32 + 1)));
                    cases.push((row(i) + p as u64 - i - 1, (i as i32, p)));
                    cases.push((diag + i, (i as i32, i as i32)));
                }
            }
            for (k, (i, j)) in cases {
                c.state(&(k, i, j));
                let w = c.call(|| format!("p={} variable_from_index({})", p, k), || cv.variable_from_index(k));
                c.check(!w.empty && (w.i, w.j) == (i, j), || format!("p={} variable_from_index({}) is {:?}, expected ({}, {})", p, k, w, i, j));
                let r = c.call(|| format!("p={} index of ({}, {})", p, i, j), || cv.index_from_variable(sv(Some((i, j)))));
                c.eq(|| format!("p={} index of ({}, {})", p, i, j), &r, &Some(k));
                c.outcome(&(p, k));
                c.trace();
            }
            c.refuses(|| format!("p={} variable_from_index({})", p, want), || cv.variable_from_index(want));
            c.refuses(|| format!("p={} index of (1, 0)", p), || cv.index_from_variable(sv(Some((1, 0)))));
            c.refuses(|| format!("p={} index of (0, {})", p, p + 1), || cv.index_from_variable(sv(Some((0, p + 1)))));
        }));
    }
    v.push(unit(String::from("non-primes"), |c| {
        let mut bad: Vec<i64> = (-50..=c.tier.pick(2000i64, 20000)).filter(|n| *n < 2 || !is_prime(*n as u64)).collect();
        bad.extend([i32::MIN as i64, i32::MIN as i64 + 1, -7, 65536, 65535, 46337 * 46337, 2147483646, 2147483645, 561, 1105, 3215031, 25326001]);
        for n in bad {
            if n >= 2 && is_prime(n as u64) {
                continue;
            }
            c.state(&n);
            c.refuses(|| format!("converter for {}", n), || SubscriptedVariableConverter::new(n as i32));
        }
        for p in primes(2, 400) {
            c.call(|| format!("converter for {}", p), || SubscriptedVariableConverter::new(p as i32));
        }
        for p in [1009i32, 7919, 65537, 2147483647] {
            c.call(|| format!("converter for {}", p), || SubscriptedVariableConverter::new(p));
        }
    }));
    v
}

// ------------------------------------------------------------------------------------- C19

pub static C19: Prop = Prop {
    id: "C19",
    space: "every term over exponents -2..3 and 10, variables and coefficients around zero, one, minus one and the word boundaries; every polynomial over several supports with coefficients in {-2..2}, long ones, word-boundary ones, sparse ones over every subset of an exponent grid with mixed signs: the text is parsed back as algebra, and must list each term once, in strictly decreasing monomial order; points, lists of points and curves over small fields. A state is a value, a trace a rendering parsed back to it.",
    assumptions: &["the text uses the notation of the repository's own tests: factors x^n, y^n, q^n, c_i_j separated by blanks, terms joined by + and -"],
    hang: (30, 60),
    units: c19_units,
};

/// read a text as algebra: a list of (key, coefficient)
fn parse(s: &str) -> Result<Vec<(Key, BigInt)>, String> {
    let mut out = Vec::new();
    let mut sign: Option<i64> = Some(1);
    let mut cur: Option<(Key, BigInt)> = None;
    let mut first = true;
    if s != s.trim() || s.contains("  ") {
        return Err(String::from("stray blanks"));
    }
    for tok in s.split(' ') {
        if tok == "+" || tok == "-" {
            if first && tok == "+" {
                return Err(String::from("leading +"));
            }
            if !first && sign.is_some() {
                return Err(String::from("two signs in a row"));
            }
            if let Some(t) = cur.take() {
                out.push(t);
            }
            sign = Some(if tok == "-" { -1 } else { 1 });
            first = false;
            continue;
        }
        first = false;
        let s0 = sign.take();
        if cur.is_none() {
            match s0 {
                None => return Err(format!("no sign before {}", tok)),
                Some(s) => cur = Some(((0, 0, 0, None), bi(s))),
            }
        }
        let (k, c) = cur.as_mut().unwrap();
        let exp = |t: &str| -> Result<i32, String> {
            match t.strip_prefix('^') {
                None if t.is_empty() => Ok(1),
                Some(e) => e.parse::<i32>().map_err(|_| format!("exponent {}", t)),
                _ => Err(format!("factor {}", t)),
            }
        };
        if let Some(t) = tok.strip_prefix('x') {
            k.0 += exp(t)?;
        } else if let Some(t) = tok.strip_prefix('y') {
            k.1 += exp(t)?;
        } else if let Some(t) = tok.strip_prefix('q') {
            k.2 += exp(t)?;
        } else if let Some(t) = tok.strip_prefix("c_") {
            let f: Vec<&str> = t.split('_').collect();
            if f.len() != 2 || k.3.is_some() {
                return Err(format!("variable {}", tok));
            }
            k.3 = Some((f[0].parse().map_err(|_| String::from(tok))?, f[1].parse().map_err(|_| String::from(tok))?));
        } else if tok.chars().all(|c| c.is_ascii_digit()) && !tok.is_empty() {
            *c = &*c * tok.parse::<BigInt>().unwrap();
        } else {
            return Err(format!("token {:?}", tok));
        }
    }
    match cur {
        Some(t) => out.push(t),
        None => return Err(String::from("nothing after a sign")),
    }
    Ok(out)
}

pub fn parse_rp(s: &str) -> RP {
    let mut r = RP::zero();
    for (k, c) in parse(s).unwrap() {
        r.put(k, c);
    }
    r
}

fn key_cmp(a: &Key, b: &Key) -> Ordering {
    a.0.cmp(&b.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)).then(a.3.cmp(&b.3))
}

fn text_case(c: &mut Ctx, r: &RP, seen: &mut HashSet<String>) {
    c.state(r);
    let p = poly(r);
    let s = c.call(|| format!("text of {:?}", r), || p.to_string());
    c.check(seen.insert(s.clone()), || format!("{:?} and another polynomial both print {:?}", r, s));
    if r.is_zero() {
        c.check(s == "0", || format!("zero prints {:?}", s));
        return;
    }
    let t = match parse(&s) {
        Ok(t) => t,
        Err(e) => c.fail(format!("{:?} prints {:?}: {}", r, s, e)),
    };
    let want: Vec<(Key, BigInt)> = r.0.iter().map(|(k, v)| (*k, v.clone())).rev().collect();
    let mut want = want;
    want.sort_by(|a, b| key_cmp(&b.0, &a.0));
    c.check(t == want, || format!("{:?} prints {:?}", r, s));
    c.outcome(&s);
    c.trace();
}

fn term_text(c: &mut Ctx, k: &Key, co: &BigInt, seen: &mut HashSet<String>) {
    c.state(&(k, co));
    let t = term(k, co);
    let s = c.call(|| format!("text of the term ({}) {:?}", co, k), || t.to_string());
    let p = match parse(&s) {
        Ok(t) => t,
        Err(e) => c.fail(format!("the term ({}) {:?} prints {:?}: {}", co, k, s, e)),
    };
    if co.is_zero() {
        c.check(p.iter().all(|(_, v)| v.is_zero()), || format!("the zero term at {:?} prints {:?}", k, s));
    } else {
        c.check(p == vec![(*k, co.clone())], || format!("the term ({}) {:?} prints {:?}", co, k, s));
        c.check(seen.insert(s.clone()), || format!("two terms print {:?}", s));
    }
    c.trace();
}

fn c19_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for x in [-2i32, -1, 0, 1, 2, 3, 10, 100, i32::MAX, i32::MIN] {
        v.push(unit(format!("terms with x^{}", x), move |c| {
            let mut seen = HashSet::new();
            let es = edge_ints();
            for y in [-2i32, -1, 0, 1, 2, 12, i32::MIN] {
                for q in [-12i32, -1, 0, 1, 2, 3, i32::MAX] {
                    for var in [None, Some((0, 0)), Some((0, 1)), Some((1, 0)), Some((1, 1)), Some((1, 11)), Some((11, 1)), Some((12, 345)), Some((0, i32::MAX))] {
                        for (i, co) in es.iter().enumerate() {
                            if i < 8 || i == es.len() / 2 + 1 || co == &bi(-1) || (i as i64 + y as i64 + q as i64) % 9 == 0 {
                                term_text(c, &(x, y, q, var), co, &mut seen);
                            }
                        }
                    }
                }
            }
            c.sample(|| format!("{} texts of terms", seen.len()));
        }));
    }
    for (i, keys) in [
        vec![K1, KX, KX2, KX3],
        vec![K1, KX, KY, KXY],
        vec![KQM, K1, KQ, (0, 0, -2, None)],
        vec![K1, KV, (0, 0, 0, Some((0, 1))), (0, 0, 1, Some((0, 1)))],
        vec![(1, 0, 0, Some((1, 1))), (1, 1, 0, None), (-1, 0, 1, None), (1, 0, 0, Some((1, 0)))],
        vec![(10, 0, 0, None), (0, 10, 0, None), (1, 1, 1, Some((10, 2))), (1, 1, 1, Some((2, 10)))],
    ]
    .into_iter()
    .enumerate()
    {
        v.push(unit(format!("polynomials over support {}", i), move |c| {
            let mut seen = HashSet::new();
            for r in all_polys(&keys, c.tier.pick(3, 4)) {
                text_case(c, &r, &mut seen);
            }
            let cs = [bi(0), bi(10), bi(-10), bi(11), -two_pow(64), two_pow(31)];
            let mut seen = HashSet::new();
            for r in polys_over(&keys, &cs) {
                text_case(c, &r, &mut seen);
            }
            c.sample(|| format!("{} distinct texts", seen.len()));
        }));
    }
    v.push(unit(String::from("long polynomials"), |c| {
        let mut seen = HashSet::new();
        for n in [2, 5, 11, 24, 33, 65, 130, 257, 520, 1030] {
            for (_, r) in long_polys(n) {
                if !r.is_zero() && !seen.contains(&format!("{:?}", r)) {
                    seen.insert(format!("{:?}", r));
                    text_case(c, &r, &mut HashSet::new());
                    text_case(c, &r.neg(), &mut HashSet::new());
                }
            }
        }
        let mut seen = HashSet::new();
        for a in edge_ints() {
            for b in some_ints() {
                let mut r = RP::mono(KX, a.clone());
                r.put((0, 1, -3, None), b.clone());
                text_case(c, &r, &mut seen);
            }
        }
    }));
    let g = key_grid(&[-1, 0, 1, 2], &[-1, 0, 1], &[-2, 0, 1], &[None, Some((0, 1))]);
    let pats = vec![vec![bi(1), bi(-1), bi(10)], vec![bi(-1), two_pow(64), bi(1)]];
    sparse_units(&mut v, "texts", g, tier.pick(3, 4), pats, |c, r| text_case(c, r, &mut HashSet::new()));
    wide_exp_units(&mut v, 1 << 29, |c, _, _, r| {
        text_case(c, r, &mut HashSet::new());
        text_case(c, &r.map_keys(|k| (-k.0, k.1, -k.2, k.3)), &mut HashSet::new());
        text_case(c, &r.map_keys(|k| (k.0, -k.1, k.2, Some((k.0 % 1000, k.1 % 70000)))), &mut HashSet::new());
    });
    v.push(unit(String::from("decimal boundaries"), |c| {
        let mut xs = Vec::new();
        let mut t = bi(1);
        for k in 0..c.tier.pick(90, 400) {
            xs.extend([t.clone(), &t + bi(1), &t - bi(1), &t * bi(7)]);
            if k % 9 == 0 {
                xs.extend([&t * &t + bi(3), &t * &t * &t + &t]);
            }
            t = t * bi(10);
        }
        for x in xs.iter().chain(xs.iter().map(|x| -x).collect::<Vec<_>>().iter()) {
            for k in [K1, KX, (2, -1, 3, Some((1, 2)))] {
                let mut r = RP::zero();
                r.put(k, x.clone());
                r.put((1, 1, 0, None), bi(-1));
                text_case(c, &r, &mut HashSet::new());
            }
            let q = ECPoint::new(x, &(bi(5) - x), &bi(1));
            let t = c.call(|| format!("point {},{}", q.x, q.y), || q.to_string());
            c.eq(|| format!("point {},{}", q.x, q.y), &t, &format!("({}, {})", q.x, q.y));
            c.trace();
        }
    }));
    // long lists of points
    for p in [101i64, 257, 331, 523, 1031].into_iter().chain(tier.pick(vec![], vec![2053, 4099])) {
        v.push(unit(format!("lists over F_{}", p), move |c| {
            curve_text(c, 1, 1, p);
            if p < 600 {
                curve_text(c, -3, 0, p);
            }
        }));
    }
    let pmax = tier.pick(19, 37);
    v.push(unit(String::from("points"), |c| {
        for x in edge_ints() {
            for y in some_ints() {
                let q = ECPoint::new(&x, &y, &bi(1));
                c.state(&(&x, &y));
                let s = c.call(|| format!("point {},{}", x, y), || q.to_string());
                c.eq(|| format!("point {},{}", x, y), &s, &format!("({}, {})", x, y));
                c.trace();
            }
        }
        let s = c.call(|| s("infinity"), || ECPoint::infinity().to_string());
        c.eq(|| "infinity".to_string(), &s, &"O".to_string());
    }));
    for p in primes(3, pmax) {
        v.push(unit(format!("curves over F_{}", p), move |c| {
            for a in 0..p {
                for b in 0..p {
                    if !SmallCurve::nonsingular(a, b, p) {
                        continue;
                    }
                    for (ra, rb) in [(a, b), (a - p, b), (a, b - p), (a + 2 * p, b - 3 * p)] {
                        curve_text(c, ra, rb, p);
                    }
                }
            }
        }));
    }
    v
}

fn s(x: &str) -> String {
    x.to_string()
}

fn curve_text(c: &mut Ctx, a: i64, b: i64, p: i64) {
    c.state(&(a, b, p));
    let e = c.call(|| format!("curve {} {} {}", a, b, p), || EllipticCurve::new(&bi(a), &bi(b), &bi(p)));
    let t = c.call(|| format!("text of curve {} {} {}", a, b, p), || e.to_string());
    let sc = SmallCurve::new(a, b, p);
    let bad = |c: &mut Ctx, why: &str| c.fail(format!("the curve a={} b={} p={} prints {:?}: {}", a, b, p, t, why));
    let rest = match t.strip_prefix(&format!("F_{}: y^2 = ", p)) {
        Some(r) => r.to_string(),
        None => {
            bad(c, "field");
            return;
        }
    };
    let parts: Vec<&str> = rest.split(", ").collect();
    if parts.len() != 3 {
        bad(c, "shape");
    }
    let want = RP::m(3, 0, 0, 1).add(&RP::m(1, 0, 0, a)).add(&RP::m(0, 0, 0, b));
    let mut got = RP::zero();
    match parse(parts[0]) {
        Ok(ts) => {
            for (k, v) in ts {
                got.put(k, v);
            }
        }
        Err(e) => bad(c, &e),
    }
    if got != want {
        bad(c, "equation");
    }
    if parts[1] != format!("cardinality:{}", sc.pts.len()) {
        bad(c, "cardinality");
    }
    if parts[2] != format!("j:{}", sc.j()) {
        bad(c, "j-invariant");
    }
    // the list of the points killed by n
    for n in [1i64, 2, 3, sc.pts.len() as i64] {
        let l = c.call(|| format!("division points {} of a={} b={} p={}", n, a, b, p), || e.division_points(&bi(n)));
        let t = c.call(|| format!("text of the {}-division points of a={} b={} p={}", n, a, b, p), || l.to_string());
        let want = l.iter().map(|q| if q.is_infinity() { s("O") } else { format!("({}, {})", q.x, q.y) }).collect::<Vec<_>>().join(", ");
        c.eq(|| format!("text of the {}-division points of a={} b={} p={}", n, a, b, p), &t, &want);
    }
    c.outcome(&t);
    c.trace();
}

// ------------------------------------------------------------------------------------- C23

pub static C23: Prop = Prop {
    id: "C23",
    space: "every sequence of builder calls up to depth 4 (5 thorough) over an alphabet of setters in all overloads with intermediate builds; every ordered pair of terms over a grid of coefficients, exponents and variables for +, -, *, / in all owned/borrowed forms; powers, modular powers and residues with word-boundary values. A state is a builder state or operand tuple, a trace a sequence compared with the model.",
    assumptions: &["quotients are exact", "exponents stay in the i32 range"],
    hang: (30, 60),
    units: c23_units,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    Ci(i32),
    Cb(i64),
    Cr(i64),
    Cbig,
    X(i32),
    Y(i32),
    Q(i32),
    V(i32, i32),
    Vij(i32, i32),
    Vnone,
}

const BALPHA: [B; 20] = [
    B::Ci(0),
    B::Ci(-5),
    B::Ci(i32::MIN),
    B::Cb(7),
    B::Cb(-1),
    B::Cr(1),
    B::Cbig,
    B::X(0),
    B::X(3),
    B::X(-1),
    B::Y(2),
    B::Y(i32::MIN),
    B::Q(1),
    B::Q(i32::MAX),
    B::Q(-7),
    B::V(1, 2),
    B::V(-3, 4),
    B::Vij(0, 0),
    B::Vij(5, 1),
    B::Vnone,
];

fn apply(b: &mut TermBuilder, op: B) {
    match op {
        B::Ci(n) => {
            b.coef(n);
        }
        B::Cb(n) => {
            b.coef(bi(n));
        }
        B::Cr(n) => {
            b.coef(&bi(n));
        }
        B::Cbig => {
            b.coef(two_pow(200) + bi(1));
        }
        B::X(n) => {
            b.xpow(n);
        }
        B::Y(n) => {
            b.ypow(n);
        }
        B::Q(n) => {
            b.qpow(n);
        }
        B::V(i, j) => {
            b.variable(SubscriptedVariable { i, j, empty: false });
        }
        B::Vij(i, j) => {
            b.variable_ij(i, j);
        }
        B::Vnone => {
            b.variable(SubscriptedVariable::new());
        }
    }
}

fn model(st: &mut (Key, BigInt), op: B) {
    match op {
        B::Ci(n) => st.1 = bi(n as i64),
        B::Cb(n) | B::Cr(n) => st.1 = bi(n),
        B::Cbig => st.1 = two_pow(200) + bi(1),
        B::X(n) => st.0 .0 = n,
        B::Y(n) => st.0 .1 = n,
        B::Q(n) => st.0 .2 = n,
        B::V(i, j) | B::Vij(i, j) => st.0 .3 = Some((i, j)),
        B::Vnone => st.0 .3 = None,
    }
}

fn c23_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    for first in 0..BALPHA.len() {
        v.push(unit(format!("builder sequences starting with {:?}", BALPHA[first]), move |c| {
            let depth = c.tier.pick(5, 6);
            // (builder, model, depth): depth first over clones of the real builder
            let mut stack: Vec<(TermBuilder, (Key, BigInt), Vec<B>)> = Vec::new();
            let mut b = TermBuilder::new();
            let mut st = ((0, 0, 0, None), bi(1));
            apply(&mut b, BALPHA[first]);
            model(&mut st, BALPHA[first]);
            stack.push((b, st, vec![BALPHA[first]]));
            while let Some((b, st, path)) = stack.pop() {
                c.state(&(&st, path.len()));
                let t = c.call(|| format!("build after {:?}", path), || b.build());
                same_term(c, || format!("build after {:?}", path), &t, &st.0, &st.1);
                let t = c.call(|| format!("second build after {:?}", path), || b.build());
                same_term(c, || format!("second build after {:?}", path), &t, &st.0, &st.1);
                c.trace();
                if path.len() < depth {
                    for op in BALPHA {
                        let mut b2 = b.clone();
                        let mut s2 = st.clone();
                        apply(&mut b2, op);
                        model(&mut s2, op);
                        let mut p2 = path.clone();
                        p2.push(op);
                        stack.push((b2, s2, p2));
                    }
                }
            }
        }));
    }
    v.push(unit(String::from("one builder through long sequences, building between the calls"), |c| {
        // de Bruijn like: every ordered pair of setters occurs, on one builder
        let mut b = TermBuilder::new();
        let mut st = ((0, 0, 0, None), bi(1));
        let t = c.call(|| s("fresh build"), || b.build());
        same_term(c, || s("fresh build"), &t, &st.0, &st.1);
        for f in BALPHA {
            for g in BALPHA {
                for op in [f, g] {
                    apply(&mut b, op);
                    model(&mut st, op);
                    let t = c.call(|| format!("build after ... {:?} {:?}", f, g), || b.build());
                    same_term(c, || format!("build after ... {:?} {:?}", f, g), &t, &st.0, &st.1);
                }
                c.trace();
            }
        }
        for co in edge_ints() {
            let t = c.call(|| format!("coef {}", co), || TermBuilder::new().coef(&co).build());
            same_term(c, || format!("coef {}", co), &t, &(0, 0, 0, None), &co);
            let t = c.call(|| format!("coef {}", co), || TermBuilder::new().coef(co.clone()).xpow(2).build());
            same_term(c, || format!("coef {}", co), &t, &(2, 0, 0, None), &co);
            if let Some(i) = co.to_i32() {
                let t = c.call(|| format!("coef {}", co), || TermBuilder::new().ypow(1).coef(i).build());
                same_term(c, || format!("coef {}", co), &t, &(0, 1, 0, None), &co);
            }
        }
        let t = Term::new();
        same_term(c, || s("Term::new()"), &t, &(0, 0, 0, None), &bi(0));
        let t: Term = One::one();
        same_term(c, || s("Term::one()"), &t, &(0, 0, 0, None), &bi(1));
        for (i, j) in [(0, 0), (0, 1), (1, 0), (i32::MAX, 0), (0, i32::MAX), (19, 21)] {
            let t = c.call(|| format!("variable_ij({}, {})", i, j), || TermBuilder::new().variable_ij(i, j).build());
            same_term(c, || format!("variable_ij({}, {})", i, j), &t, &(0, 0, 0, Some((i, j))), &bi(1));
        }
    }));
    let cos: Vec<BigInt> = [0i64, 1, -1, 2, -6, 12].iter().map(|x| bi(*x)).chain([two_pow(64), -two_pow(32) + bi(1)]).collect();
    let mut keys: Vec<Key> = Vec::new();
    for x in [0, 1, -2, 3] {
        for y in [0, 1, 4] {
            for q in [0, 2, -1] {
                for var in [None, Some((0, 0)), Some((0, 1))] {
                    keys.push((x, y, q, var));
                }
            }
        }
    }
    let _ = tier;
    for (ki, k) in keys.clone().into_iter().enumerate() {
        let keys = keys.clone();
        let cos = cos.clone();
        v.push(unit(format!("term pairs, left {:?}", k), move |c| {
            for ca in &cos {
                let a = term(&k, ca);
                unary(c, &k, ca, &a);
                for (li, l) in keys.iter().enumerate() {
                    for cb in &cos {
                        // all pairs of monomials, with all coefficients on a third of them
                        if (li + ki) % 3 != 0 && cb != &bi(2) && cb != &bi(-1) && ca != &bi(-6) {
                            continue;
                        }
                        c.state(&(ca, l, cb));
                        pair(c, &k, ca, &a, l, cb);
                    }
                }
            }
        }));
    }
    // exponents next to those at which packed representations overflow, on either side of zero
    let mut wide: Vec<Key> = vec![(0, 0, 0, None), (1, -1, 2, None), (-1, 3, 0, Some((1, 2)))];
    for base in WIDE_EXP {
        for d in [0, 3, 4, 5, 8] {
            for e in [base + d, -base - d] {
                wide.push((e, 1, 0, None));
                wide.push((0, e, -1, None));
                wide.push((2, 0, e, None));
                if d == 4 {
                    wide.push((e, e - 1, e + 1, Some((base, 1))));
                    wide.push((e, -e, e, None));
                }
            }
        }
    }
    for (ki, k) in wide.clone().into_iter().enumerate() {
        let wide = wide.clone();
        v.push(unit(format!("wide term pairs, left {:?}", k), move |c| {
            for (li, l) in wide.iter().enumerate() {
                // one of several sign and size patterns of the coefficients
                let (ca, cb) = [(bi(-6), bi(3)), (two_pow(64), bi(-1)), (bi(1), two_pow(32)), (bi(0), bi(2))][(ki + li) % 4].clone();
                let a = term(&k, &ca);
                c.state(&(ki, li));
                pair(c, &k, &ca, &a, l, &cb);
            }
            unary(c, &k, &bi(-6), &term(&k, &bi(-6)));
        }));
    }
    v.push(unit(String::from("term powers"), |c| {
        for co in some_ints().into_iter().chain([bi(-1), bi(-2), bi(3)]) {
            for (x, y, q) in [(0, 0, 0), (1, 0, 0), (2, -3, 1), (0, 5, -7)] {
                let t = term(&(x, y, q, None), &co);
                for n in (0..=12).chain([31, 32, 33, 64, 65, 100, 127, 128]) {
                    c.state(&(&co, x, n));
                    let k = (x * n, y * n, q * n, None);
                    let want = ipow(&co, n as u32);
                    let l = || format!("term ({}) {:?} ^ {}", co, (x, y, q), n);
                    let r = c.call(l, || t.power(n));
                    same_term(c, l, &r, &k, &want);
                    let r = c.call(l, || t.power(bi(n as i64)));
                    same_term(c, l, &r, &k, &want);
                    let r = c.call(l, || t.power(&bi(n as i64)));
                    same_term(c, l, &r, &k, &want);
                    for m in [1i64, 2, 3, 7, 10, 65537, 4294967311] {
                        let r = c.call(l, || t.power_modulo(&bi(n as i64), &bi(m)));
                        same_term(c, || format!("{} mod {}", l(), m), &r, &k, &mpow(&co, &bi(n as i64), &bi(m)));
                        c.trace();
                    }
                    c.trace();
                }
                for n in [1000, 65535, 65536, 16777216, 1 << 28] {
                    let l = || format!("term ({}) {:?} ^ {} mod 1009", co, (x, y, q), n);
                    let r = c.call(l, || t.power_modulo(&bi(n as i64), &bi(1009)));
                    same_term(c, l, &r, &(x * n, y * n, q * n, None), &mpow(&co, &bi(n as i64), &bi(1009)));
                }
            }
        }
    }));
    v
}

fn unary(c: &mut Ctx, k: &Key, ca: &BigInt, a: &Term) {
    let l = || format!("term ({}) {:?}", ca, k);
    let n = c.call(l, || -a);
    same_term(c, || format!("- {}", l()), &n, k, &-ca);
    let n = c.call(l, || -(a.clone()));
    same_term(c, || format!("- {}", l()), &n, k, &-ca);
    let p = c.call(l, || a.to_pol());
    same(c, || format!("to_pol of {}", l()), &p, &RP::mono(*k, ca.clone()));
    for m in [bi(1), bi(2), bi(3), bi(5), bi(12), bi(13), two_pow(32), two_pow(64) - bi(1), two_pow(64) + bi(1), two_pow(100)] {
        let r = c.call(l, || a.modulo(&m));
        same_term(c, || format!("{} mod {}", l(), m), &r, k, &md(ca, &m));
        let mut t = a.clone();
        c.call(l, || t.modular_assign(&m));
        same_term(c, || format!("{} mod {} in place", l(), m), &t, k, &md(ca, &m));
        c.trace();
    }
    let acc = (a.xpow(), a.ypow(), a.qpow(), key_var(&a.variable()));
    c.check(&acc == k, || format!("accessors of {} answer {:?}", l(), acc));
    c.check((a.has_x(), a.has_y(), a.has_q()) == (k.0 != 0, k.1 != 0, k.2 != 0), || format!("has_x/has_y/has_q of {}", l()));
    let f = Term::from(&a.monomial, ca);
    same_term(c, || format!("Term::from of {}", l()), &f, k, ca);
    same_term(c, || format!("operand {}", l()), a, k, ca);
}

fn pair(c: &mut Ctx, k: &Key, ca: &BigInt, a: &Term, l: &Key, cb: &BigInt) {
    let b = term(l, cb);
    let lab = |o: &str| format!("term ({}) {:?} {} term ({}) {:?}", ca, k, o, cb, l);
    let (ra, rb) = (RP::mono(*k, ca.clone()), RP::mono(*l, cb.clone()));
    macro_rules! polop {
        ($op:tt, $want:expr) => {{
            let want: RP = $want;
            let n = stringify!($op);
            let r = c.call(|| lab(n), || a $op &b);
            same(c, || lab(n), &r, &want);
            let r = c.call(|| lab(n), || a.clone() $op b.clone());
            same(c, || lab(n), &r, &want);
            let r = c.call(|| lab(n), || a $op b.clone());
            same(c, || lab(n), &r, &want);
            let r = c.call(|| lab(n), || a.clone() $op &b);
            same(c, || lab(n), &r, &want);
        }};
    }
    polop!(+, ra.add(&rb));
    polop!(-, ra.sub(&rb));
    macro_rules! termop {
        ($op:tt, $k:expr, $co:expr) => {{
            let (kk, co): (Key, BigInt) = ($k, $co);
            let n = stringify!($op);
            let r = c.call(|| lab(n), || a $op &b);
            same_term(c, || lab(n), &r, &kk, &co);
            let r = c.call(|| lab(n), || a.clone() $op b.clone());
            same_term(c, || lab(n), &r, &kk, &co);
            let r = c.call(|| lab(n), || a $op b.clone());
            same_term(c, || lab(n), &r, &kk, &co);
            let r = c.call(|| lab(n), || a.clone() $op &b);
            same_term(c, || lab(n), &r, &kk, &co);
        }};
    }
    if k.3.is_none() || l.3.is_none() {
        termop!(*, (k.0 + l.0, k.1 + l.1, k.2 + l.2, k.3.or(l.3)), ca * cb);
    }
    if l.3.is_none() && !cb.is_zero() && (ca % cb).is_zero() {
        termop!(/, (k.0 - l.0, k.1 - l.1, k.2 - l.2, k.3), ca / cb);
    }
    let eq = c.call(|| lab("=="), || *a == b);
    c.check(eq == (k == l && ca == cb), || lab("=="));
    let eo = c.call(|| lab("is_equal_order"), || a.is_equal_order(&b));
    c.check(eo == ((k.0, k.1, k.2) == (l.0, l.1, l.2)), || lab("is_equal_order"));
    same_term(c, || lab("left operand of"), a, k, ca);
    same_term(c, || lab("right operand of"), &b, l, cb);
    c.trace();
}

// ------------------------------------------------------------------------------------- C24

pub static C24: Prop = Prop {
    id: "C24",
    space: "truncation at every order in [-4,8] and larger of every Laurent polynomial in q with coefficient variables over supports of five monomials; truncated powers of every small series to exponent 12, of 1 - q^k to exponent 80, at every order 0..50; sparse series over every subset of an exponent grid; coefficient extraction at every power and variable; scalars. A state is a (series, order or exponent) pair, a trace a result compared with the truncation of the exact reference.",
    assumptions: &["orders are >= 0 for truncated powers"],
    hang: (30, 60),
    units: c24_units,
};

fn trunc(r: &RP, n: i32) -> RP {
    r.filter(|k| k.2 <= n)
}

fn c24_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let sup: Vec<Vec<Key>> = vec![
        vec![K1, KQ, (0, 0, 2, None), (0, 0, 3, None), (0, 0, -1, None)],
        vec![K1, KV, (0, 0, 1, Some((0, 0))), (0, 0, 1, Some((0, 1))), (0, 0, 2, None)],
        vec![(0, 0, -2, Some((1, 2))), (0, 0, -2, None), (0, 0, 0, Some((1, 2))), (0, 0, 5, Some((0, 0))), (0, 0, 5, None)],
        vec![(0, 0, 7, None), (0, 0, 7, Some((9, 9))), (0, 0, 8, Some((0, 0))), (0, 0, 6, Some((9, 9))), (0, 0, -7, None)],
        vec![(0, 0, 3, Some((255, 256))), (0, 0, 3, Some((256, 0))), (0, 0, 3, Some((300, 400))), (0, 0, 4, Some((0, 0))), (0, 0, 4, None)],
        vec![(0, 0, 3, Some((65536, 1))), (0, 0, 3, Some((i32::MAX, i32::MAX))), (0, 0, 4, Some((i32::MIN, i32::MIN))), (0, 0, 4, Some((-1, -1))), (0, 0, 3, None)],
        vec![(0, 0, 0, Some((i32::MAX, 0))), (0, 0, 0, Some((i32::MIN, 5))), (0, 0, 1, Some((i32::MIN, 5))), (0, 0, -1, Some((1000, 1001))), (0, 0, -1, Some((1000, 1000)))],
    ];
    for (i, keys) in sup.into_iter().enumerate() {
        v.push(unit(format!("truncation and extraction over support {}", i), move |c| {
            let mut vars = vec![None, Some((0, 0)), Some((0, 1)), Some((1, 2)), Some((9, 9)), Some((3, 3))];
            if i >= 4 {
                vars = keys.iter().map(|k| k.3).chain([None, Some((1000, 0)), Some((0, 256))]).collect();
            }
            for r in all_polys(&keys, 1).into_iter().chain(polys_over(&keys, &[bi(0), two_pow(64), bi(-7)])) {
                let p = poly(&r);
                for n in (-9..=9).chain([100, 65535, 1 << 30, -(1 << 30), i32::MAX, i32::MAX - 1, i32::MIN]) {
                    c.state(&(&r, n));
                    let mut t = p.clone();
                    let l = || format!("({:?}).omit_high_order_q({})", r, n);
                    c.call(l, || t.omit_high_order_q(n));
                    same(c, l, &t, &trunc(&r, n));
                    let l = || format!("({:?}).to_q_power_coef({})", r, n);
                    let g = c.call(l, || p.to_q_power_coef(n));
                    let want = r.filter(|k| k.2 == n).map_keys(|k| (0, 0, 0, k.3));
                    same(c, l, &g, &want);
                    // then the coefficient of each variable, as the equations are read off
                    for var in vars.iter().copied() {
                        let l = || format!("({:?}).to_q_power_coef({}).to_variable_coef({:?})", r, n, var);
                        let x = c.call(l, || g.to_variable_coef(sv(var)));
                        c.eq(l, &x, &want.0.get(&(0, 0, 0, var)).cloned().unwrap_or_else(BigInt::zero));
                    }
                    let const_only = want.0.keys().all(|k| k.3.is_none());
                    if const_only {
                        let l = || format!("({:?}).to_q_power_coef({}).to_scalar()", r, n);
                        let x = c.call(l, || g.to_scalar());
                        c.eq(l, &x, &want.0.get(&K1).cloned().unwrap_or_else(BigInt::zero));
                    }
                    c.outcome(&want);
                    c.traces(2);
                }
                intact(c, "series", &p, &r);
            }
        }));
    }
    let g = key_grid(&[0], &[0], &[-2, -1, 0, 1, 2, 3], &[None, Some((0, 0)), Some((0, 1)), Some((1, 0))]);
    sparse_units(&mut v, "series", g, tier.pick(4, 5), patterns()[1..].to_vec(), |c, r| {
        let p = poly(r);
        for n in -3..=4 {
            c.state(&(r, n));
            let mut t = p.clone();
            let l = || format!("({:?}).omit_high_order_q({})", r, n);
            c.call(l, || t.omit_high_order_q(n));
            same(c, l, &t, &trunc(r, n));
            let l = || format!("({:?}).to_q_power_coef({})", r, n);
            let g = c.call(l, || p.to_q_power_coef(n));
            let want = r.filter(|k| k.2 == n).map_keys(|k| (0, 0, 0, k.3));
            same(c, l, &g, &want);
            for var in [None, Some((0, 0)), Some((0, 1)), Some((1, 0)), Some((1, 1))] {
                let l = || format!("({:?}).to_q_power_coef({}).to_variable_coef({:?})", r, n, var);
                let x = c.call(l, || g.to_variable_coef(sv(var)));
                c.eq(l, &x, &want.0.get(&(0, 0, 0, var)).cloned().unwrap_or_else(BigInt::zero));
            }
            c.trace();
        }
        intact(c, "series", &p, r);
    });
    wide_exp_units(&mut v, 1 << 29, |c, base, axis, r| {
        if axis != 'q' {
            return;
        }
        for s in [1, -1] {
            let r = r.map_keys(|k| (0, 0, s * k.2, if k.0 == 0 { None } else { Some((k.1, k.0)) }));
            let p = poly(&r);
            for n in [-base - 1, -base, -base + 1, -1, 0, 1, 8, base - 1, base, base + 1, base + 2, base + 20, i32::MAX, i32::MIN] {
                let mut t = p.clone();
                let l = || format!("({:?}).omit_high_order_q({})", r, n);
                c.call(l, || t.omit_high_order_q(n));
                same(c, l, &t, &trunc(&r, n));
                let l = || format!("({:?}).to_q_power_coef({})", r, n);
                let g = c.call(l, || p.to_q_power_coef(n));
                same(c, l, &g, &r.filter(|k| k.2 == n).map_keys(|k| (0, 0, 0, k.3)));
                c.traces(2);
            }
            let only = r.filter(|k| k.3.is_none());
            if s == 1 && base < 1 << 28 && only.0.len() <= 9 {
                let p = poly(&only);
                for order in [0, 5, base, base + 3, 2 * base + 2, 3 * base + 9] {
                    let mut want = RP::one();
                    for n in 0..=5 {
                        let l = || format!("({:?}).power_omit_high_order_q({}, {})", only, n, order);
                        let g = c.call(l, || p.power_omit_high_order_q(n, order));
                        same(c, l, &g, &want);
                        c.trace();
                        want = trunc(&want.mul(&only), order);
                    }
                }
            }
        }
    });
    let g = key_grid(&[0], &[0], &[0, 1, 2, 3, 4, 6], &[None]);
    sparse_units(&mut v, "powers of series", g, 4, patterns()[1..].to_vec(), |c, r| {
        let p = poly(r);
        for order in [0, 1, 2, 4, 7, 12] {
            let mut want = RP::one();
            for n in 0..=9 {
                c.state(&(r, order, n));
                let l = || format!("({:?}).power_omit_high_order_q({}, {})", r, n, order);
                let g = c.call(l, || p.power_omit_high_order_q(n, order));
                same(c, l, &g, &want);
                c.trace();
                want = trunc(&want.mul(r), order);
            }
        }
        intact(c, "series", &p, r);
    });
    v.push(unit(String::from("one exception to a rule"), |c| {
        for t in crate::poly::one_exception(65) {
            let mut r = RP::zero();
            for (e, x) in &t {
                r.put((0, 0, *e, None), bi(*x));
            }
            let p = poly(&r);
            let top = t.iter().map(|x| x.0).max().unwrap();
            for order in [0, 1, 3, top / 2, top - 1, top, top + 1, 2 * top + 1] {
                if order < 0 {
                    continue;
                }
                let low = trunc(&r, order);
                let mut want = RP::one();
                for n in 0..=if order > 40 { 2 } else { 4 } {
                    let l = || format!("({:?}).power_omit_high_order_q({}, {})", r, n, order);
                    let g = c.call(l, || p.power_omit_high_order_q(n, order));
                    same(c, l, &g, &want);
                    c.state(&(&r, order, n));
                    c.trace();
                    want = trunc(&want.mul(&low), order);
                }
                let mut t = p.clone();
                let l = || format!("({:?}).omit_high_order_q({})", r, order);
                c.call(l, || t.omit_high_order_q(order));
                same(c, l, &t, &trunc(&r, order));
                let l = || format!("({:?}).to_q_power_coef({})", r, order);
                let g = c.call(l, || p.to_q_power_coef(order));
                same(c, l, &g, &r.filter(|k| k.2 == order).map_keys(|k| (0, 0, 0, k.3)));
            }
        }
    }));
    // long dense series: truncation, extraction, and powers with and without truncation
    for n in [40i32, 70, 130, 260, 520, 1030] {
        v.push(unit(format!("long series, {} terms", n), move |c| {
            for (name, f) in long_polys(n) {
                let r = RP(f.0.iter().map(|(k, x)| ((0, 0, k.0 + 5 * k.1 + 31 * k.2, None), x.clone())).collect());
                let p = poly(&r);
                for order in [-3, 0, 1, 7, 31, 64, 100, n / 2, n - 1, n, 7 * n] {
                    let mut t = p.clone();
                    let l = || format!("({}).omit_high_order_q({})", name, order);
                    c.call(l, || t.omit_high_order_q(order));
                    same(c, l, &t, &trunc(&r, order));
                    let l = || format!("({}).to_q_power_coef({})", name, order);
                    let g = c.call(l, || p.to_q_power_coef(order));
                    same(c, l, &g, &r.filter(|k| k.2 == order).map_keys(|k| (0, 0, 0, k.3)));
                    c.state(&(&r, order));
                    c.traces(2);
                }
                let r = r.filter(|k| k.2 >= 0);
                let p = poly(&r);
                for order in [0, 5, 33, 64, 130, n, 2 * n] {
                    if order as i64 * n as i64 > c.tier.pick(300_000, 3_000_000) {
                        continue;
                    }
                    let low = trunc(&r, order);
                    let mut want = RP::one();
                    for k in 0..=if order > 300 { 2 } else { 5 } {
                        let l = || format!("({}).power_omit_high_order_q({}, {})", name, k, order);
                        let g = c.call(l, || p.power_omit_high_order_q(k, order));
                        same(c, l, &g, &want);
                        c.state(&(&r, order, k));
                        c.trace();
                        want = trunc(&want.mul(&low), order);
                    }
                }
                c.outcome(&r);
            }
        }));
    }
    v.push(unit(String::from("scalars"), |c| {
        for x in edge_ints() {
            c.state(&x);
            let g = c.call(|| format!("scalar {}", x), || poly(&RP::c(x.clone())).to_scalar());
            c.eq(|| format!("scalar {}", x), &g, &x);
            let g = c.call(|| format!("constant {}", x), || poly(&RP::c(x.clone())).to_variable_coef(sv(None)));
            c.eq(|| format!("constant {}", x), &g, &x);
            c.trace();
        }
    }));
    // truncated powers
    let fams: Vec<Vec<Key>> = vec![
        vec![K1, KQ, (0, 0, 2, None)],
        vec![K1, (0, 0, 3, None), (0, 0, 5, None)],
        vec![KQ, (0, 0, 2, None), (0, 0, 4, None)],
    ];
    for (i, keys) in fams.into_iter().enumerate() {
        v.push(unit(format!("truncated powers, family {}", i), move |c| {
            for r in all_polys(&keys, 2) {
                let p = poly(&r);
                for order in [0, 1, 2, 3, 5, 9, 17, 30, i32::MAX] {
                    let mut want = trunc(&RP::one(), order);
                    for n in 0..=c.tier.pick(20, 32) {
                        c.state(&(&r, order, n));
                        let l = || format!("({:?}).power_omit_high_order_q({}, {})", r, n, order);
                        let g = c.call(l, || p.power_omit_high_order_q(n, order));
                        same(c, l, &g, &want);
                        c.trace();
                        want = trunc(&want.mul(&r), order);
                    }
                }
                intact(c, "series", &p, &r);
            }
        }));
    }
    for k in 1..=tier.pick(12, 20) {
        v.push(unit(format!("powers of 1 - q^{} and friends", k), move |c| {
            let rs = [
                RP::one().add(&RP::m(0, 0, k, -1)),
                RP::one().add(&RP::m(0, 0, k, 1)),
                RP::m(0, 0, 0, 2).add(&RP::m(0, 0, k, -3)).add(&RP::m(0, 0, k + 1, 1)),
                RP::c(two_pow(40)).add(&RP::mono((0, 0, k, None), two_pow(64) - bi(1))),
                RP::m(0, 0, k, 1),
                RP::zero(),
            ];
            for r in &rs {
                let p = poly(r);
                for order in 0..=c.tier.pick(50, 90) {
                    let mut want = RP::one();
                    let top = if order % 5 == 0 || order == 24 { c.tier.pick(80, 120) } else { 8 };
                    for n in 0..=top {
                        if n <= 8 || n % 8 < 2 || n == 23 {
                            c.state(&(r, order, n));
                            let l = || format!("({:?}).power_omit_high_order_q({}, {})", r, n, order);
                            let g = c.call(l, || p.power_omit_high_order_q(n, order));
                            same(c, l, &g, &want);
                            c.trace();
                        }
                        want = trunc(&want.mul(r), order);
                    }
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------- C27

pub static C27: Prop = Prop {
    id: "C27",
    space: "every ordered pair (comparison, equality, agreement) and every ordered triple (transitivity, compatibility with products) of monomials over a grid of exponents and variables with the i32 extremes; every ordered pair of coefficient variables; leading term, x-degree and occurrence tests of every polynomial over mixed supports, of long ones and of sparse ones over every subset of an exponent grid. A state is a monomial pair or a polynomial.",
    assumptions: &[],
    hang: (30, 60),
    units: c27_units,
};

fn grid() -> Vec<Key> {
    let mut v = Vec::new();
    for x in [0, 1, -1, 2, i32::MAX, i32::MIN] {
        for y in [0, 1, -1, i32::MIN] {
            for q in [0, 1, -1, i32::MAX] {
                for var in [None, Some((0, 0)), Some((0, 1)), Some((1, 0))] {
                    v.push((x, y, q, var));
                }
            }
        }
    }
    v
}

fn mono(k: &Key) -> Monomial {
    term(k, &bi(1)).monomial
}

fn c27_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let g = grid();
    for chunk in 0..g.len() / 8 {
        let g = g.clone();
        v.push(unit(format!("monomial pairs, part {}", chunk), move |c| {
            for k in &g[chunk * 8..chunk * 8 + 8] {
                let a = mono(k);
                for l in &g {
                    let b = mono(l);
                    c.state(&(k, l));
                    let want = key_cmp(k, l);
                    let lab = || format!("{:?} against {:?}", k, l);
                    let got = c.call(lab, || a.cmp(&b));
                    c.eq(|| format!("cmp {}", lab()), &got, &want);
                    let got = c.call(lab, || a.partial_cmp(&b));
                    c.eq(|| format!("partial_cmp {}", lab()), &got, &Some(want));
                    let ops = c.call(lab, || (a < b, a <= b, a > b, a >= b, a == b, a != b));
                    let w = (want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less, want == Ordering::Equal, want != Ordering::Equal);
                    c.eq(|| format!("operators {}", lab()), &ops, &w);
                    let t = c.call(lab, || term(k, &bi(5)).cmp(&term(l, &bi(-3))));
                    c.eq(|| format!("term cmp {}", lab()), &t, &want);
                    let t = c.call(lab, || term(k, &bi(5)).partial_cmp(&term(l, &bi(7))));
                    c.eq(|| format!("term partial_cmp {}", lab()), &t, &Some(want));
                    c.outcome(&want);
                    c.trace();
                }
            }
        }));
    }
    v.push(unit(String::from("coefficient variables"), |c| {
        let mut vs: Vec<Option<(i32, i32)>> = vec![None];
        for i in [-1, 0, 1, 2, 10, 11, i32::MAX, i32::MIN] {
            for j in [-1, 0, 1, 2, 10, 11, i32::MAX, i32::MIN] {
                vs.push(Some((i, j)));
            }
        }
        for a in &vs {
            for b in &vs {
                c.state(&(a, b));
                let (x, y) = (sv(*a), sv(*b));
                let want = a.cmp(b);
                let lab = || format!("variable {:?} against {:?}", a, b);
                let got = c.call(lab, || (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x > y));
                c.eq(lab, &got, &(want, Some(want), a == b, a < b, a > b));
                c.trace();
            }
        }
        // the absent variable is one value whatever its subscripts
        for (i, j) in [(0, 0), (1, 2), (-1, 5)] {
            let x = SubscriptedVariable { i, j, empty: true };
            let y = SubscriptedVariable::new();
            let z: SubscriptedVariable = Default::default();
            c.check(x == y && x.cmp(&y) == Ordering::Equal && y == z, || format!("absent variable with subscripts {} {}", i, j));
            c.check(x < sv(Some((i32::MIN, i32::MIN))), || s("absent variable is not smallest"));
        }
    }));
    let small: Vec<Key> = {
        let mut v = Vec::new();
        for x in [0, 1, -1] {
            for y in [0, 2, -1] {
                for q in [0, 1, -2] {
                    for var in [None, Some((0, 0)), Some((0, 1)), Some((1, 0))] {
                        v.push((x, y, q, var));
                    }
                }
            }
        }
        v
    };
    for (i, k) in small.clone().into_iter().enumerate() {
        let small = small.clone();
        v.push(unit(format!("monomial triples, first {}", i), move |c| {
            let ms: Vec<(Key, Monomial, Term)> = small.iter().map(|k| (*k, mono(k), term(k, &bi(1)))).collect();
            let a = mono(&k);
            let ta = term(&k, &bi(1));
            for (l, b, tb) in &ms {
                for (m, d, td) in &ms {
                    c.state(&(l, m));
                    let (ab, bd, ad) = (a.cmp(b), b.cmp(d), a.cmp(d));
                    if ab == bd {
                        c.check(ad == ab, || format!("{:?}, {:?}, {:?} are not ordered transitively", k, l, m));
                    }
                    if m.3.is_none() {
                        let prod = c.call(|| format!("{:?} and {:?} times {:?}", k, l, m), || ((&ta * td).monomial, (tb * td).monomial));
                        c.check(prod.0.cmp(&prod.1) == ab, || format!("the order of {:?} and {:?} changes when multiplied by {:?}", k, l, m));
                    }
                    c.trace();
                }
            }
            c.beat();
        }));
    }
    let sup: Vec<Vec<Key>> = vec![
        vec![K1, KX, KY, KQ, KV],
        vec![KX2, KXY, (2, -1, 0, None), (-1, 0, 0, None), (0, 0, -1, None)],
        vec![(1, 0, 0, Some((0, 1))), (1, 0, 0, Some((1, 0))), (1, 0, 1, None), (1, 1, 0, None), (0, 9, 0, None)],
        vec![(-1, 0, 0, None), (-2, 0, 0, None), (-2, 5, 0, None), (0, -3, 0, None), (0, 0, 0, Some((2, 2)))],
    ];
    for (i, keys) in sup.into_iter().enumerate() {
        v.push(unit(format!("leading terms over support {}", i), move |c| {
            for r in all_polys(&keys, c.tier.pick(2, 3)) {
                lead(c, &r);
            }
        }));
    }
    let g = key_grid(&[-1, 0, 1], &[-1, 0, 2], &[-1, 0, 1], &[None, Some((0, 1)), Some((1, 0))]);
    sparse_units(&mut v, "leading terms", g, tier.pick(3, 4), patterns()[1..2].to_vec(), lead);
    wide_exp_units(&mut v, 1 << 29, |c, _, _, r| {
        for s in [1, -1] {
            for t in [1, -1] {
                lead(c, &r.map_keys(|k| (s * k.0, t * k.1, s * t * k.2, k.3)));
                lead(c, &r.map_keys(|k| (s * k.0, 0, 0, k.3)));
                lead(c, &r.map_keys(|k| (s * k.0, t * k.1, 0, Some((k.1, k.2)))));
            }
        }
    });
    let g = key_grid(&[-2, -1, 0, 1, 2, 5], &[0], &[0], &[None]);
    sparse_units(&mut v, "degrees", g, 6, patterns(), lead);
    v.push(unit(String::from("leading terms of long polynomials"), |c| {
        for n in [1, 2, 3, 9, 33, 65, 200, 257, 520, 1030, 2060] {
            for (_, r) in long_polys(n) {
                lead(c, &r);
                lead(c, &r.map_keys(|k| (-k.0, k.1, k.2, k.3)));
                lead(c, &r.map_keys(|k| (0, k.0, -k.2, k.3)));
            }
        }
        for k in grid() {
            lead(c, &RP::mono(k, bi(-4)));
            lead(c, &RP::mono(k, bi(1)).add(&RP::one()));
        }
    }));
    v
}

fn lead(c: &mut Ctx, r: &RP) {
    c.state(r);
    let p = poly(r);
    let l = || format!("leading term of {:?}", r);
    let t = c.call(l, || p.highest_term_x());
    let mut best: Option<Key> = None;
    for k in r.0.keys() {
        if best.map(|b| key_cmp(k, &b) == Ordering::Greater).unwrap_or(true) {
            best = Some(*k);
        }
    }
    match best {
        None => c.check(t.coef.is_zero(), || format!("{}: got {:?}", l(), t)),
        Some(k) => same_term(c, l, &t, &k, &r.0[&k]),
    }
    let h = c.call(l, || (p.has_x(), p.has_y(), p.has_q()));
    let w = (r.0.keys().any(|k| k.0 != 0), r.0.keys().any(|k| k.1 != 0), r.0.keys().any(|k| k.2 != 0));
    c.eq(|| format!("has_x, has_y, has_q of {:?}", r), &h, &w);
    if !w.1 && !w.2 {
        let d = c.call(|| format!("degree of {:?}", r), || p.degree_x());
        let want = r.0.keys().map(|k| k.0).max().unwrap_or(0);
        c.eq(|| format!("degree of {:?}", r), &d, &want);
    }
    intact(c, "leading term", &p, r);
    c.trace();
}

// ------------------------------------------------------------------------------------- C28

pub static C28: Prop = Prop {
    id: "C28",
    space: "every term over a grid of exponents, variables and word-boundary coefficients, every polynomial over supports of four monomials with coefficients -2..2, long ones, sparse ones over every subset of an exponent grid: both derivatives against the formal rule, linearity and the product rule over all pairs of a set, the two derivations in both orders, repeated derivation to zero. A state is a polynomial or pair, a trace a derivation compared with the rule.",
    assumptions: &[],
    hang: (30, 60),
    units: c28_units,
};

fn der(c: &mut Ctx, r: &RP) {
    c.state(r);
    let p = poly(r);
    if r.0.keys().all(|k| k.0 >= 0) {
        let l = || format!("d/dx ({:?})", r);
        let g = c.call(l, || p.derivative_x());
        same(c, l, &g, &r.deriv(false));
        if r.0.keys().all(|k| k.1 >= 0) {
            let l = || format!("d/dy d/dx ({:?})", r);
            let h = c.call(l, || g.derivative_y());
            same(c, l, &h, &r.deriv(false).deriv(true));
            let h = c.call(l, || p.derivative_y().derivative_x());
            same(c, || format!("d/dx d/dy ({:?})", r), &h, &r.deriv(false).deriv(true));
        }
        c.trace();
    }
    if r.0.keys().all(|k| k.1 >= 0) {
        let l = || format!("d/dy ({:?})", r);
        let g = c.call(l, || p.derivative_y());
        same(c, l, &g, &r.deriv(true));
        c.trace();
    }
    intact(c, "differentiated", &p, r);
}

fn c28_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    v.push(unit(String::from("terms"), |c| {
        let es = edge_ints();
        for x in [-1, 0, 1, 2, 3, 10, 255, 256, 65536, i32::MAX] {
            for y in [-2, 0, 1, 2, 5, 127, 128, 65535, i32::MAX] {
                for q in [0, 1, -3] {
                    for var in [None, Some((0, 0)), Some((2, 3))] {
                        for co in &es {
                            let t = term(&(x, y, q, var), co);
                            c.state(&(x, y, q, var, co));
                            if x >= 0 {
                                let l = || format!("d/dx of term ({}) {:?}", co, (x, y, q, var));
                                let d = c.call(l, || t.derivative_x());
                                let want = RP::mono((x, y, q, var), co.clone()).deriv(false);
                                same(c, l, &d.to_pol(), &want);
                                c.trace();
                            }
                            if y >= 0 {
                                let l = || format!("d/dy of term ({}) {:?}", co, (x, y, q, var));
                                let d = c.call(l, || t.derivative_y());
                                let want = RP::mono((x, y, q, var), co.clone()).deriv(true);
                                same(c, l, &d.to_pol(), &want);
                                c.trace();
                            }
                            if co.is_one() {
                                der(c, &RP::mono((x, y, q, var), co.clone()).add(&RP::m(4, 4, 0, -2)));
                            }
                        }
                    }
                }
            }
        }
    }));
    let sup: Vec<Vec<Key>> = vec![
        vec![K1, KX, KX2, KX3],
        vec![K1, KX, KY, KXY],
        vec![(2, 1, 0, None), (1, 2, 0, None), (2, 2, 1, None), (0, 3, -1, None)],
        vec![(3, 1, 0, Some((0, 1))), (3, 1, 0, None), (2, 1, 0, Some((0, 1))), KV],
        vec![(-2, 1, 0, None), (-1, 0, 0, None), KX, KY],
        vec![(1, -2, 0, None), (0, -1, 0, None), KX, KXY],
    ];
    for (i, keys) in sup.into_iter().enumerate() {
        v.push(unit(format!("polynomials over support {}", i), move |c| {
            for r in all_polys(&keys, 2) {
                der(c, &r);
            }
            // linearity and the product rule on the real derivation
            let small = all_polys(&keys[..3], 1);
            if keys.iter().any(|k| k.0 < 0 || k.1 < 0) {
                return;
            }
            for a in &small {
                for b in &small {
                    c.state(&(a, b));
                    let (pa, pb) = (poly(a), poly(b));
                    let ds = c.call(|| format!("({:?} + {:?})'", a, b), || (&pa + &pb).derivative_x());
                    let want = c.call(|| format!("({:?})' + ({:?})'", a, b), || pa.derivative_x() + pb.derivative_x());
                    c.check(ds == want, || format!("({:?} + {:?})' is {} but the sum of the derivatives {}", a, b, ds, want));
                    if !a.clash(b) {
                        for wy in [false, true] {
                            let d = |p: &Polynomial| if wy { p.derivative_y() } else { p.derivative_x() };
                            let dp = c.call(|| format!("(({:?}) ({:?}))'", a, b), || d(&(&pa * &pb)));
                            same(c, || format!("(({:?}) ({:?}))'", a, b), &dp, &a.mul(b).deriv(wy));
                            let want = c.call(|| s("product rule"), || d(&pa) * &pb + &pa * d(&pb));
                            c.check(dp == want, || format!("product rule for ({:?}) ({:?})", a, b));
                        }
                    }
                    c.trace();
                }
            }
        }));
    }
    v.push(unit(String::from("one exception to a rule"), |c| {
        for t in crate::poly::one_exception(65) {
            let mut r = RP::zero();
            for (e, x) in &t {
                r.put((*e, 0, 0, None), bi(*x));
            }
            der(c, &r);
            der(c, &r.map_keys(|k| (0, k.0, 0, None)));
            der(c, &r.map_keys(|k| (k.0, 65 - k.0 % 3, -k.0, None)));
            der(c, &r.map_keys(|k| (k.0 % 5, k.0, 1, Some((1, k.0)))));
        }
    }));
    let lens = tier.pick(vec![2, 3, 5, 9, 17, 33, 65, 129, 257, 520, 1030], vec![2, 3, 5, 9, 17, 33, 65, 129, 257, 520, 1030, 2060]);
    v.push(unit(String::from("long polynomials"), move |c| {
        for n in &lens {
            for (_, r) in long_polys(*n) {
                der(c, &r);
                der(c, &r.map_keys(|k| (k.1, k.0, k.2, k.3)));
                der(c, &r.map_keys(|k| (k.0, k.0 % 7, k.2, Some((k.0, 1)))));
                // to the end
                let mut m = r.filter(|k| k.0 < 12);
                let mut p = poly(&m);
                for i in 0..13 {
                    let l = || format!("derivative {} of {:?}", i + 1, r);
                    p = c.call(l, || p.derivative_x());
                    m = m.deriv(false);
                    same(c, l, &p, &m);
                }
                c.check(m.is_zero() && p.is_zero(), || format!("the 13th derivative of {:?}", r));
            }
        }
        for a in some_ints() {
            for e in [1, 2, 3, 64, 255] {
                der(c, &RP::mono((e, 1, 0, None), a.clone()).add(&RP::mono((e, 0, 0, None), -a.clone())).add(&RP::mono((0, e, 0, None), a.clone())));
            }
        }
    }));
    let g = key_grid(&[-1, 0, 1, 2], &[-1, 0, 1, 2], &[-1, 0, 1], &[None, Some((0, 1))]);
    sparse_units(&mut v, "grid", g, 3, patterns()[1..].to_vec(), der);
    wide_exp_units(&mut v, 1 << 29, |c, _, _, r| {
        der(c, r);
        der(c, &RP(r.0.iter().map(|(k, v)| (*k, v * two_pow(40))).collect()));
        der(c, &RP(r.0.iter().map(|(k, v)| ((k.0, k.1, k.2, Some((1, 2))), v * two_pow(62) + bi(1))).collect()));
    });
    let g = key_grid(&[-1, 0, 1], &[-1, 0, 1, 3], &[0, 1], &[None]);
    sparse_units(&mut v, "small grid", g, tier.pick(4, 6), patterns()[..2].to_vec(), der);
    v
}
