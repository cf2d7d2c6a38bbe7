//! C07, C08: integers

use crate::conv::*;
use crate::engine::*;
use crate::refm::*;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};

// ------------------------------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    space: "powers: every base in [-40,40] (thorough [-80,80]) with every exponent 0..48 in the three exponent types, word-boundary bases with exponents to 257, bases 0, 1, -1 with word-boundary exponents; modular powers: every base in [-60,60], every modulus 1..160, every exponent 0..40, every exponent 0..20000 on selected bases and moduli (all bit patterns up to 14 bits), every triple from the word-boundary values to 2^256; inverses: every a in [-2p,3p] for every prime up to the bound, structured a for some two dozen large primes up to 2^521. A state is an argument tuple, a trace a call compared with naive multiplication.",
    assumptions: &["modular powers compose squarings and multiplications, so exponents of more than 11 bits are covered by structured bit patterns, not all of them"],
    hang: (30, 60),
    units: c07_units,
};

fn pow_case(c: &mut Ctx, b: &BigInt, n: &BigInt, want: &BigInt) {
    c.state(&(b, n));
    let r = c.call(|| format!("({}).power(&BigInt {})", b, n), || b.power(n));
    c.eq(|| format!("({}).power(&BigInt {})", b, n), &r, want);
    let r = c.call(|| format!("({}).power(BigInt {})", b, n), || b.power(n.clone()));
    c.eq(|| format!("({}).power(BigInt {})", b, n), &r, want);
    if let Some(i) = n.to_i32() {
        let r = c.call(|| format!("({}).power({}i32)", b, i), || b.power(i));
        c.eq(|| format!("({}).power({}i32)", b, i), &r, want);
    }
    c.outcome(want);
    c.traces(1);
}

fn mpow_case(c: &mut Ctx, b: &BigInt, n: &BigInt, m: &BigInt, want: &BigInt) {
    c.state(&(b, n, m));
    let r = c.call(|| format!("({}).power_modulo({}, {})", b, n, m), || b.power_modulo(n, m));
    c.eq(|| format!("({}).power_modulo({}, {})", b, n, m), &r, want);
    c.outcome(&r);
    c.traces(1);
}

fn inv_case(c: &mut Ctx, a: &BigInt, p: &BigInt) {
    c.state(&(a, p));
    let r = c.call(|| format!("({}).inverse({})", a, p), || a.inverse(p));
    let ok = !r.is_negative() && &r < p && md(&(a * &r), p).is_one();
    c.check(ok, || format!("({}).inverse({}) = {} is not the inverse in [0, p)", a, p, r));
    c.outcome(&(p, r));
    c.traces(1);
}

fn c07_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let bb = tier.pick(40, 80);
    for b in -bb..=bb {
        v.push(unit(format!("powers of {}", b), move |c| {
            let b = bi(b);
            let mut want = BigInt::one();
            for n in 0..=48 {
                pow_case(c, &b, &bi(n), &want);
                want = &want * &b;
            }
            c.sample(|| format!("{}^48 = {}", b, &want));
        }));
    }
    for (i, b) in edge_ints().into_iter().enumerate() {
        v.push(unit(format!("powers of edge value {}", i), move |c| {
            let mut want = BigInt::one();
            let keep = [16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
            for n in 0..=257 {
                if n <= 12 || keep.contains(&n) {
                    pow_case(c, &b, &bi(n), &want);
                }
                want = &want * &b;
            }
        }));
    }
    v.push(unit(String::from("huge exponents of 0, 1, -1 and long powers of 2, -2, 3"), |c| {
        for n in edge_ints() {
            if n.is_negative() {
                continue;
            }
            let odd = !(&n % bi(2)).is_zero();
            pow_case(c, &bi(0), &n, &bi(if n.is_zero() { 1 } else { 0 }));
            pow_case(c, &bi(1), &n, &bi(1));
            pow_case(c, &bi(-1), &n, &bi(if odd { -1 } else { 1 }));
        }
        for b in [2i64, -2, 3] {
            let mut want = BigInt::one();
            for n in 0..=2050 {
                if n % 64 < 2 || n > 2040 || n < 70 {
                    pow_case(c, &bi(b), &bi(n), &want);
                }
                want = want * bi(b);
            }
        }
    }));
    // exponents past every small fixed width: the reference multiplies step by step up to the
    // exponent for the bases whose products are cheap, and shifts for powers of two
    for b in [2i64, -2, 4, 65536, -256] {
        v.push(unit(format!("long powers of {}", b), move |c| {
            let sh = b.unsigned_abs().trailing_zeros();
            for k in [511u32, 512, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 40000, 65535, 65536, 100003, 131071, 131072] {
                for n in [k, k + 1, k + 2] {
                    if n * sh > 270000 {
                        continue;
                    }
                    let m = two_pow(n * sh);
                    pow_case(c, &bi(b), &bi(n as i64), &if b < 0 && n % 2 == 1 { -m } else { m });
                }
            }
        }));
    }
    for b in [3i64, -5, 10, 255, -257, 65537, 1000003] {
        v.push(unit(format!("every power of {} to 1100", b), move |c| {
            let mut want = BigInt::one();
            for n in 0..=c.tier.pick(1100, 4200) {
                if n < 80 || n % 16 < 2 || n % 16 == 15 {
                    pow_case(c, &bi(b), &bi(n), &want);
                }
                want = want * bi(b);
            }
        }));
    }
    let (mb, mm) = tier.pick((60i64, 160i64), (120, 400));
    for m in 1..=mm {
        v.push(unit(format!("modular powers mod {}", m), move |c| {
            let mb = bi(m);
            for b in -mb_range(c.tier)..=mb_range(c.tier) {
                let b = bi(b);
                let mut want = md(&BigInt::one(), &mb);
                for n in 0..=40 {
                    mpow_case(c, &b, &bi(n), &mb, &want);
                    want = md(&(&want * &b), &mb);
                }
            }
        }));
    }
    let _ = mb;
    for (b, m) in [(2i64, 1000003i64), (3, 65536), (-7, 10007), (10, 97), (6, 4294967291), (1234567, 2147483647)] {
        v.push(unit(format!("every exponent, base {} mod {}", b, m), move |c| {
            let (b, m) = (bi(b), bi(m));
            let mut want = md(&BigInt::one(), &m);
            for n in 0..=c.tier.pick(20000, 140000) {
                mpow_case(c, &b, &bi(n), &m, &want);
                want = md(&(&want * &b), &m);
            }
        }));
    }
    // word-boundary triples
    for (i, m) in edge_ints().into_iter().chain(big_primes()).enumerate() {
        if !m.is_positive() {
            continue;
        }
        v.push(unit(format!("edge modulus {}", i), move |c| {
            let exps: Vec<BigInt> = edge_ints().into_iter().filter(|n| !n.is_negative()).collect();
            for b in some_ints() {
                for n in &exps {
                    let want = mpow(&b, n, &m);
                    mpow_case(c, &b, n, &m, &want);
                }
            }
            let o = &m - bi(1);
            for n in [&m - bi(2), o.clone(), m.clone(), &m + bi(1), &o * bi(2), &o * bi(3), &o * bi(2) + bi(1), &m * bi(2), &o * &m, &m * &m, &o / bi(2), &o + &o / bi(2)] {
                if n.is_negative() {
                    continue;
                }
                // multiples of the modulus and their neighbours, too
                let near = [-2i64, -1, 0, 1, 3].iter().flat_map(|k| vec![&m * bi(*k), &m * bi(*k) + bi(1), &m * bi(*k) - bi(1), &m * bi(*k) + &m / bi(2)]).collect::<Vec<_>>();
                for b in some_ints().into_iter().chain(near).chain(small_factors(&m)) {
                    let want = mpow(&b, &n, &m);
                    mpow_case(c, &b, &n, &m, &want);
                }
            }
        }));
    }
    for p in primes(2, tier.pick(1021, 4099)) {
        v.push(unit(format!("inverses mod {}", p), move |c| {
            for a in -2 * p..=3 * p {
                if a.rem_euclid(p) != 0 {
                    inv_case(c, &bi(a), &bi(p));
                }
            }
        }));
    }
    for p in big_primes() {
        v.push(unit(format!("inverses mod {}", p), move |c| {
            let mut xs = edge_ints();
            for d in 1..40 {
                xs.push(&p - bi(d));
                xs.push(&p + bi(d));
                xs.push(bi(d) * &p + bi(d + 1));
                xs.push(bi(-d) * &p - bi(d));
                xs.push((&p / bi(d)) + bi(1));
                xs.push(bi(d));
                xs.push(bi(-d));
            }
            for a in xs {
                if !md(&a, &p).is_zero() {
                    inv_case(c, &a, &p);
                }
            }
        }));
    }
    v
}

/// numbers that share a factor with m, where it has one that is quickly found
fn small_factors(m: &BigInt) -> Vec<BigInt> {
    let mut v = Vec::new();
    for d in 2..2000i64 {
        if (m % bi(d)).is_zero() {
            v.push(bi(d));
            v.push(m / bi(d));
            v.push(-(m / bi(d)) * bi(d + 1));
            if v.len() > 12 {
                break;
            }
        }
    }
    v
}

fn mb_range(t: Tier) -> i64 {
    t.pick(60, 120)
}

// ------------------------------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    space: "extended gcd: every (a,b) in [-R,R]^2 (R=250 quick, 900 thorough), every pair of word-boundary values, consecutive Fibonacci numbers to F_400 and their multiples; Chinese remaindering: every ordered list of up to 4 pairwise coprime moduli from 1..12 (up to 5 in thorough) whose product is bounded with every residue combination and shifted/negative representatives, lists of the first k primes to k=25, lists of large coprime moduli in every order. A state is an argument list, a trace a call checked against the defining equations.",
    assumptions: &[],
    hang: (30, 60),
    units: c08_units,
};

fn gcd_case(c: &mut Ctx, a: &BigInt, b: &BigInt) {
    c.state(&(a, b));
    let (g, x, y) = c.call(|| format!("extended_gcd({}, {})", a, b), || extended_gcd(a.clone(), b.clone()));
    let ok = a * &x + b * &y == g && g.abs() == gcd(a, b) && (a.is_negative() || b.is_negative() || !g.is_negative());
    c.check(ok, || format!("extended_gcd({}, {}) = ({}, {}, {}), gcd {}", a, b, g, x, y, gcd(a, b)));
    c.outcome(&(g, x, y));
    c.traces(1);
}

fn crt_case(c: &mut Ctx, ls: &[BigInt], rs: &[BigInt]) {
    c.state(&(ls, rs));
    let v: Vec<ModResult> = ls.iter().zip(rs).map(|(l, r)| ModResult { l: l.clone(), r: r.clone() }).collect();
    let show = || format!("chinese_remainder({:?})", ls.iter().zip(rs).map(|(l, r)| format!("{} mod {}", r, l)).collect::<Vec<_>>());
    let keep = v.clone();
    let out = c.call(show, || chinese_remainder(&v));
    c.check(v == keep, || format!("{} changed its argument", show()));
    let mut prod = BigInt::one();
    for l in ls {
        prod = prod * l;
    }
    c.check(out.l == prod, || format!("{}: modulus {}, expected {}", show(), out.l, prod));
    for (l, r) in ls.iter().zip(rs) {
        c.check(md(&(&out.r - r), l).is_zero(), || format!("{}: {} is not {} mod {}", show(), out.r, r, l));
    }
    c.outcome(&(&prod, md(&out.r, &prod)));
    c.traces(1);
}

fn residues(c: &mut Ctx, ls: &[i64], shift: &[i64], rs: &mut Vec<BigInt>) {
    if rs.len() == ls.len() {
        let l: Vec<BigInt> = ls.iter().map(|x| bi(*x)).collect();
        let r = rs.clone();
        crt_case(c, &l, &r);
        return;
    }
    let k = rs.len();
    for r in 0..ls[k] {
        rs.push(bi(r + shift[k % shift.len()] * ls[k]));
        residues(c, ls, shift, rs);
        rs.pop();
    }
}

fn g64(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { g64(b, a % b) }
}

fn lists(max: i64, len: usize, prod: i64, cur: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
    out.push(cur.clone());
    if cur.len() == len {
        return;
    }
    let pr: i64 = cur.iter().product();
    for l in 1..=max {
        if pr * l <= prod && cur.iter().all(|m| g64(*m, l) == 1) {
            cur.push(l);
            lists(max, len, prod, cur, out);
            cur.pop();
        }
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = Vec::new();
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

fn c08_units(tier: Tier) -> Vec<Unit> {
    let mut v = Vec::new();
    let r = tier.pick(250i64, 900);
    for a in -r..=r {
        v.push(unit(format!("extended gcd of {} and everything", a), move |c| {
            for b in -r..=r {
                gcd_case(c, &bi(a), &bi(b));
            }
        }));
    }
    for (i, a) in edge_ints().into_iter().chain(big_primes()).enumerate() {
        v.push(unit(format!("extended gcd of edge value {}", i), move |c| {
            for b in edge_ints().into_iter().chain(big_primes()) {
                gcd_case(c, &a, &b);
                gcd_case(c, &(&a * bi(6)), &(&b * bi(15)));
                gcd_case(c, &(&a * &b), &b);
                gcd_case(c, &(&a * &b + bi(1)), &b);
            }
        }));
    }
    v.push(unit(String::from("Fibonacci pairs"), |c| {
        let (mut a, mut b) = (bi(0), bi(1));
        for _ in 0..c.tier.pick(1500, 3000) {
            for (s, t) in [(1, 1), (-1, 1), (1, -1), (-1, -1), (6, 10), (35, 21)] {
                gcd_case(c, &(&a * bi(s)), &(&b * bi(t)));
                gcd_case(c, &(&b * bi(s)), &(&a * bi(t)));
            }
            let n = &a + &b;
            a = b;
            b = n;
        }
        c.sample(|| format!("gcd(F_400, F_401) with F_400 = {}", a));
    }));
    let mut ls = Vec::new();
    lists(12, tier.pick(4, 5), tier.pick(2500, 12000), &mut Vec::new(), &mut ls);
    for chunk in ls.chunks(40) {
        let chunk = chunk.to_vec();
        v.push(unit(format!("congruences modulo {:?} ..", chunk[0]), move |c| {
            for l in &chunk {
                residues(c, l, &[0], &mut Vec::new());
                if l.iter().product::<i64>() <= 400 {
                    residues(c, l, &[-1, 2, 0, -3], &mut Vec::new());
                    residues(c, l, &[1, -2], &mut Vec::new());
                }
            }
        }));
    }
    v.push(unit(String::from("long lists of primes"), |c| {
        let ps = primes(2, 100);
        for k in 0..=ps.len() {
            let ls: Vec<BigInt> = ps[..k].iter().map(|p| bi(*p)).collect();
            for x in edge_ints() {
                let rs: Vec<BigInt> = ls.iter().map(|l| md(&x, l)).collect();
                crt_case(c, &ls, &rs);
                let raw: Vec<BigInt> = ls.iter().map(|_| x.clone()).collect();
                crt_case(c, &ls, &raw);
            }
            let mut rl = ls.clone();
            rl.reverse();
            for s in 0..20u64 {
                let rs: Vec<BigInt> = (0..k).map(|i| bi(mix(i as u64, s))).collect();
                crt_case(c, &ls, &rs);
                crt_case(c, &rl, &rs);
            }
        }
        // powers of distinct primes
        for e in 1..12u32 {
            let ls = vec![two_pow(e * 8), ipow(&bi(3), e * 5), ipow(&bi(5), e), ipow(&bi(7), 12 - e)];
            for s in 0..10u64 {
                let rs: Vec<BigInt> = (0..4).map(|i| bi(mix(i, s)) * two_pow(e * 3)).collect();
                crt_case(c, &ls, &rs);
            }
        }
    }));
    let bp = big_primes();
    let mut mods: Vec<BigInt> = vec![two_pow(31), two_pow(64), bi(1), ipow(&bi(3), 41), bi(25)];
    mods.extend(bp);
    for i in 0..mods.len() {
        let mods = mods.clone();
        v.push(unit(format!("large moduli, first {}", mods[i]), move |c| {
            for j in 0..mods.len() {
                for k in 0..mods.len() {
                    let ls: Vec<BigInt> = vec![mods[i].clone(), mods[j].clone(), mods[k].clone()];
                    let cop = (0..3).all(|x| (0..x).all(|y| gcd(&ls[x], &ls[y]).is_one()));
                    if !cop {
                        continue;
                    }
                    let opts = |l: &BigInt| -> Vec<BigInt> { vec![bi(0), bi(1), bi(-1), l - bi(1), l / bi(2), two_pow(200) + bi(3)] };
                    for r0 in opts(&ls[0]) {
                        for r1 in opts(&ls[1]) {
                            for r2 in opts(&ls[2]) {
                                crt_case(c, &ls, &[r0.clone(), r1.clone(), r2]);
                            }
                        }
                    }
                }
            }
            // four moduli in every order
            let base: Vec<BigInt> = vec![mods[i].clone(), bi(49), bi(11), bi(13)];
            for p in perms(4) {
                let ls: Vec<BigInt> = p.iter().map(|x| base[*x].clone()).collect();
                let rs: Vec<BigInt> = p.iter().map(|x| bi(5 * *x as i64 - 7)).collect();
                crt_case(c, &ls, &rs);
            }
        }));
    }
    v
}
