//! E03 expansion arithmetic, E04 interval arithmetic, N01 small vector helpers.
use super::gen::*;
use crate::bigint::*;
use crate::driver::*;
use crate::ensure;
use crate::src::Src;
use gpf::predicates as gp;
use gpf::predicates::{ExpansionNum, IntervalNumber};
use std::alloc::Global;
use std::cmp::Ordering;

/// nearest double to a dyadic (ties and last-bit errors do not matter, the remainder is taken exactly)
fn nearest(d: &Dy) -> f64 {
    let b = d.m.bits();
    if b <= 53 {
        return d.approx();
    }
    // round half up on the magnitude, to 53 bits, exactly
    let a = d.approx();
    // refine: choose among neighbours the one with the smallest exact remainder
    let mut best = a;
    for k in [-1i64, 1] {
        let c = ulps(a, k);
        let rc = abs(&d.sub(&Dy::from(c)));
        let rb = abs(&d.sub(&Dy::from(best)));
        match rc.cmp(&rb) {
            Ordering::Less => best = c,
            Ordering::Equal if c.to_bits() & 1 == 0 => best = c,
            _ => {}
        }
    }
    best
}
fn abs(d: &Dy) -> Dy {
    Dy { m: d.m.abs(), e: d.e }
}
/// nonadjacent expansion of an exact value, increasing magnitude
fn expand(d: &Dy) -> Vec<f64> {
    let mut r = vec![];
    let mut d = d.clone();
    while d.sign() != 0 {
        let x = nearest(&d);
        r.push(x);
        d = d.sub(&Dy::from(x));
    }
    r.reverse();
    if r.is_empty() {
        r.push(0.0);
    }
    r
}
fn gen_float(s: &mut Src) -> f64 {
    match s.weighted(&[3, 3, 2, 1]) {
        0 => s.irange(-20, 20) as f64,
        1 => coord(s, Style::Float(53, -30, 30)),
        2 => coord(s, Style::Float(53, -1, 1)),
        _ => {
            let e = s.irange(-60, 60);
            ldexp(1.0, e) * if s.bool() { 1.0 } else { -1.0 }
        }
    }
}
fn gen_expansion(s: &mut Src) -> (Vec<f64>, Dy) {
    let n = s.range(1, 5);
    let xs: Vec<f64> = (0..n).map(|_| gen_float(s)).collect();
    let mut d = Dy::sum(&xs);
    if s.chance(1, 4) {
        d = d.mul(&Dy::from(gen_float(s)));
    }
    (expand(&d), d)
}
/// components sorted by magnitude, bit ranges disjoint, no zero unless alone
fn nonoverlapping(v: &[f64]) -> bool {
    if v.len() == 1 {
        return true;
    }
    let mut top = i32::MIN;
    for &x in v {
        if x == 0.0 {
            return false;
        }
        let (m, e) = decompose(x);
        if e < top {
            return false;
        }
        top = 64 - m.unsigned_abs().leading_zeros() as i32 + e;
    }
    true
}
fn eq(a: &Dy, b: &Dy) -> bool {
    a.cmp(b) == Ordering::Equal
}
fn check(name: &str, args: &str, got: &[f64], want: &Dy, zeroelim: bool) -> R {
    ensure!(!got.is_empty(), name, "{name}({args}) is empty; it should represent {}", want.approx());
    ensure!(eq(&Dy::sum(got), want), name, "{name}({args}) = {got:?} sums to {:e}, exact value {:e}", Dy::sum(got).approx(), want.approx());
    if zeroelim {
        ensure!(nonoverlapping(got), name, "{name}({args}) = {got:?} has overlapping, unsorted or zero components");
    } else {
        let nz: Vec<f64> = got.iter().copied().filter(|x| *x != 0.0).collect();
        ensure!(nz.is_empty() || nonoverlapping(&nz), name, "{name}({args}) = {got:?} has overlapping or unsorted components");
    }
    Ok(())
}

fn exact_pair(name: &str, a: f64, b: f64, got: (f64, f64), want: Dy, rounded: f64) -> R {
    ensure!(
        got.0 == rounded && eq(&Dy::from(got.0).add(&Dy::from(got.1)), &want),
        name,
        "{name}({a:e}, {b:e}) = {got:?}, exact {:e}",
        want.approx()
    );
    Ok(())
}

fn p03(s: &mut Src, c: &mut Ctx) -> R {
    match s.weighted(&[2, 5, 3]) {
        0 => {
            let (a, b) = (gen_float(s), if s.chance(1, 4) { -gen_float(s) } else { gen_float(s) });
            c.describe(|| format!("error-free transformations of {a:e} {b:e}"));
            let (da, db) = (Dy::from(a), Dy::from(b));
            c.nontrivial = gp::two_sum(a, b).1 != 0.0 || gp::two_product(a, b).1 != 0.0;
            c.label("error-free transformation");
            exact_pair("two_sum", a, b, gp::two_sum(a, b), da.add(&db), a + b)?;
            exact_pair("two_diff", a, b, gp::two_diff(a, b), da.sub(&db), a - b)?;
            exact_pair("two_product", a, b, gp::two_product(a, b), da.mul(&db), a * b)?;
            exact_pair("square", a, a, gp::square(a), da.mul(&da), a * a)?;
            exact_pair("two_diff_tail", a, b, (a - b, gp::two_diff_tail(a, b, a - b)), da.sub(&db), a - b)?;
            let (l, h) = if a.abs() < b.abs() { (a, b) } else { (b, a) };
            exact_pair("fast_two_sum", h, l, gp::fast_two_sum(h, l), da.add(&db), a + b)?;
            exact_pair("fast_two_diff", h, l, gp::fast_two_diff(h, l), Dy::from(h).sub(&Dy::from(l)), h - l)?;
            // two-component operations
            let p = gp::two_product(a, b);
            let (x, y) = (gen_float(s), gen_float(s));
            let q = gp::two_product(x, y);
            let (dp, dq) = (da.mul(&db), Dy::from(x).mul(&Dy::from(y)));
            let r = gp::two_two_sum(p.0, p.1, q.0, q.1);
            check("two_two_sum", &format!("{p:?}, {q:?}"), &[r.3, r.2, r.1, r.0], &dp.add(&dq), false)?;
            let r = gp::two_two_diff(p.0, p.1, q.0, q.1);
            check("two_two_diff", &format!("{p:?}, {q:?}"), &[r.3, r.2, r.1, r.0], &dp.sub(&dq), false)?;
            let r = gp::two_one_product(p.0, p.1, x);
            check("two_one_product", &format!("{p:?}, {x:?}"), &[r.3, r.2, r.1, r.0], &dp.mul(&Dy::from(x)), false)?;
        }
        1 => {
            let (e, de) = gen_expansion(s);
            let (f, df) = if s.chance(1, 8) {
                (e.iter().map(|x| -x).collect(), Dy::zero().sub(&de))
            } else {
                gen_expansion(s)
            };
            let b = gen_float(s);
            // now and then at the ends of the exponent range: sums and differences stay exact among subnormal numbers and
            // just below overflow, products while their lowest bit is representable
            let mut product = true;
            let (mut e, mut de, mut f, mut df, mut b) = (e, de, f, df, b);
            if s.chance(1, 5) {
                let top = |v: &[f64]| v.iter().filter(|x| **x != 0.0).map(|&x| decompose(x)).map(|(m, x)| 64 - m.unsigned_abs().leading_zeros() as i32 + x).max().unwrap_or(0);
                let all: Vec<f64> = e.iter().chain(&f).copied().chain([b]).collect();
                let (ke, kf);
                match s.usize(3) {
                    0 => {
                        product = false;
                        ke = -1074 + s.irange(0, 30) as i32 - min_exp(&all);
                        kf = ke;
                        c.label("subnormal components");
                    }
                    1 => {
                        product = false;
                        ke = 1020 - s.irange(0, 4) as i32 - top(&all);
                        kf = ke;
                        c.label("components near overflow");
                    }
                    _ => {
                        // the other factors keep their size
                        if s.bool() {
                            ke = -1070 + s.irange(0, 20) as i32 - min_exp(&e) - min_exp(&f).min(min_exp(&[b])).min(0);
                        } else {
                            ke = 960 - s.irange(0, 20) as i32 - top(&e) - top(&f).max(top(&[b])).max(0);
                        }
                        kf = 0;
                        c.label("products at the ends of the range");
                    }
                }
                e.iter_mut().for_each(|x| *x = ldexp(*x, ke as i64));
                de.e += ke;
                f.iter_mut().for_each(|x| *x = ldexp(*x, kf as i64));
                df.e += kf;
                b = ldexp(b, kf as i64);
            }
            let args = format!("{e:?}, {f:?}");
            c.describe(|| format!("expansion operations on {args}, {b:e}"));
            c.nontrivial = e.len() > 1 && f.len() > 1;
            c.label("expansion operations");
            check("fast_expansion_sum_zeroelim", &args, &gp::fast_expansion_sum_zeroelim(&e, &f, Global), &de.add(&df), true)?;
            check("fast_expansion_diff_zeroelim", &args, &gp::fast_expansion_diff_zeroelim(&e, &f, Global), &de.sub(&df), true)?;
            if product {
                check("mul_expansion_zeroelim", &args, &gp::mul_expansion_zeroelim(&e, &f, Global), &de.mul(&df), true)?;
            }
            check("expansion_sum", &args, &gp::expansion_sum(&e, &f, Global), &de.add(&df), false)?;
            let a1 = format!("{e:?}, {b:e}");
            let db = Dy::from(b);
            if product {
                check("scale_expansion_zeroelim", &a1, &gp::scale_expansion_zeroelim(&e, b, Global), &de.mul(&db), true)?;
            }
            check("grow_expansion", &a1, &gp::grow_expansion(&e, b, Global), &de.add(&db), false)?;
            check("grow_expansion_zeroelim", &a1, &gp::grow_expansion_zeroelim(&e, b, Global), &de.add(&db), true)?;
            let mut n = e.clone();
            gp::expansion_invert(&mut n);
            check("expansion_invert", &format!("{e:?}"), &n, &Dy::zero().sub(&de), false)?;
            let est = gp::estimate(&e);
            let err = abs(&Dy::from(est).sub(&de));
            let tol = abs(&de).mul(&Dy::from(ldexp(1.0, -48)));
            ensure!(err.cmp(&tol) != Ordering::Greater, "estimate", "estimate({e:?}) = {est:e}, exact {:e}", de.approx());
        }
        _ => {
            // a random program over ExpansionNum values
            let mut v: Vec<(ExpansionNum, Dy)> = vec![];
            for _ in 0..3 {
                let x = gen_float(s);
                v.push((vec![x].into(), Dy::from(x)));
            }
            let n = s.range(1, 7);
            let mut trace = String::new();
            for _ in 0..n {
                let i = s.usize(v.len());
                let j = s.usize(v.len());
                let op = s.usize(4);
                if v[i].0.vec.len() * v[j].0.vec.len() > 400 {
                    continue;
                }
                let form = s.usize(4);
                let (x, dx) = v[i].clone();
                let (y, dy) = v[j].clone();
                trace.push_str(&format!("v{}=v{i}{}v{j};", v.len(), ["+", "-", "*", "neg"][op]));
                let r = guarded("ExpansionNum operation", move || match (op, form) {
                    (0, 0) => x + y,
                    (0, 1) => &x + &y,
                    (0, 2) => x + &y,
                    (0, _) => &x + y,
                    (1, 0) => x - y,
                    (1, 1) => &x - &y,
                    (1, 2) => x - &y,
                    (1, _) => &x - y,
                    (2, 0) => x * y,
                    (2, 1) => &x * &y,
                    (2, 2) => x * &y,
                    (2, _) => &x * y,
                    _ => {
                        let mut z = x;
                        z.neg();
                        z
                    }
                })?;
                let d = match op {
                    0 => dx.add(&dy),
                    1 => dx.sub(&dy),
                    2 => dx.mul(&dy),
                    _ => Dy::zero().sub(&dx),
                };
                v.push((r, d));
            }
            c.describe(|| format!("{:?} {trace}", v.iter().take(3).map(|x| x.0[0]).collect::<Vec<_>>()));
            c.nontrivial = v.iter().any(|x| x.0.vec.len() > 2);
            c.label("ExpansionNum program");
            for (r, d) in &v {
                check("ExpansionNum", &trace, r, d, true)?;
                ensure!(r.not_zero() == (d.sign() != 0), "not_zero", "not_zero of {:?} ({trace})", r.vec);
                ensure!(r.negative() == (d.sign() < 0), "negative", "negative of {:?} ({trace})", r.vec);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- intervals
/// exact interval alongside the library's
#[derive(Clone)]
struct Iv {
    lib: IntervalNumber,
    lo: Dy,
    hi: Dy,
    /// no interval in the computation is wide: decisions must be sharp
    mag: f64,
    exactish: bool,
}
fn gen_iv(s: &mut Src) -> Iv {
    let f = |s: &mut Src| match s.weighted(&[4, 1, 3]) {
        0 => s.irange(-8, 8) as f64,
        1 => 0.0,
        _ => coord(s, Style::Float(53, -8, 8)),
    };
    let a = f(s);
    if s.bool() {
        Iv { lib: a.into(), lo: Dy::from(a), hi: Dy::from(a), mag: a.abs(), exactish: true }
    } else {
        let b = if s.chance(1, 6) { a } else { f(s) };
        let (l, h) = if a <= b { (a, b) } else { (b, a) };
        Iv { lib: IntervalNumber::new(l, h), lo: Dy::from(l), hi: Dy::from(h), mag: l.abs().max(h.abs()), exactish: false }
    }
}
fn show(x: &Iv) -> String {
    format!("[{:e}, {:e}]", x.lo.approx(), x.hi.approx())
}
/// what the library says about the sign must follow from the exact interval, and the bounds must enclose it
fn check_iv(x: &Iv, trace: &dyn Fn() -> String, slack: f64) -> R {
    let (p, n, z) = (x.lib.positive(), x.lib.negative(), x.lib.not_zero());
    ensure!(!(p && x.lo.sign() <= 0), "positive", "positive() of an interval enclosing {} : {}", show(x), trace());
    ensure!(!(n && x.hi.sign() >= 0), "negative", "negative() of an interval enclosing {} : {}", show(x), trace());
    ensure!(!(z && x.lo.sign() <= 0 && x.hi.sign() >= 0), "not_zero", "not_zero() of an interval enclosing {} : {}", show(x), trace());
    ensure!(z == (p || n), "not_zero", "not_zero() = {z}, positive() = {p}, negative() = {n} for {} : {}", show(x), trace());
    // probe the bounds through differences with representable numbers
    let (l, h) = (x.lo.approx(), x.hi.approx());
    for (probe, up) in [(l, false), (h, true)] {
        for k in [-3i64, 0, 3] {
            let q = if probe == 0.0 { k as f64 * 1e-300 } else { ulps(probe, k) };
            let d = &x.lib - &IntervalNumber::from(q);
            let dq = Dy::from(q);
            ensure!(
                !(d.positive() && x.lo.cmp(&dq) != Ordering::Greater),
                "enclosure",
                "an interval enclosing {} claims to be above {q:e}: {}",
                show(x),
                trace()
            );
            ensure!(
                !(d.negative() && x.hi.cmp(&dq) != Ordering::Less),
                "enclosure",
                "an interval enclosing {} claims to be below {q:e}: {}",
                show(x),
                trace()
            );
        }
        // tightness
        let q = if up { h + slack } else { l - slack };
        let d = &x.lib - &IntervalNumber::from(q);
        if slack > 0.0 {
            ensure!(
                if up { d.negative() } else { d.positive() },
                "tight",
                "the interval for {} cannot be told from {q:e}: {}",
                show(x),
                trace()
            );
        }
    }
    Ok(())
}
fn ivop(op: usize, form: usize, x: &Iv, y: &Iv) -> Iv {
    let (a, b) = (x.lib.clone(), y.lib.clone());
    let lib = match (op, form) {
        (0, 0) => a + b,
        (0, 1) => &a + &b,
        (0, 2) => a + &b,
        (0, _) => &a + b,
        (1, 0) => a - b,
        (1, 1) => &a - &b,
        (1, 2) => a - &b,
        (1, _) => &a - b,
        (2, 0) => a * b,
        (2, 1) => &a * &b,
        (2, 2) => a * &b,
        (2, _) => &a * b,
        _ => {
            let mut a = a;
            a.neg();
            a
        }
    };
    let zero = Dy::zero();
    let (lo, hi) = match op {
        0 => (x.lo.add(&y.lo), x.hi.add(&y.hi)),
        1 => (x.lo.sub(&y.hi), x.hi.sub(&y.lo)),
        2 => {
            let c = [x.lo.mul(&y.lo), x.lo.mul(&y.hi), x.hi.mul(&y.lo), x.hi.mul(&y.hi)];
            let mut lo = c[0].clone();
            let mut hi = c[0].clone();
            for d in &c[1..] {
                if d.cmp(&lo) == Ordering::Less {
                    lo = d.clone();
                }
                if d.cmp(&hi) == Ordering::Greater {
                    hi = d.clone();
                }
            }
            (lo, hi)
        }
        _ => (zero.sub(&x.hi), zero.sub(&x.lo)),
    };
    let mag = match op {
        0 | 1 => x.mag + y.mag,
        2 => x.mag * y.mag,
        _ => x.mag,
    };
    Iv { lib, lo, hi, mag, exactish: x.exactish && (y.exactish || op == 3) }
}

fn p04(s: &mut Src, c: &mut Ctx) -> R {
    let mut v: Vec<Iv> = (0..s.range(2, 4)).map(|_| gen_iv(s)).collect();
    let leaves = v.iter().map(show).collect::<Vec<_>>().join(" ");
    let n = s.range(1, 5);
    let mut trace = String::new();
    for x in &v {
        check_iv(x, &|| leaves.clone(), x.mag * 1e-12)?;
    }
    for _ in 0..n {
        let i = s.usize(v.len());
        let j = s.usize(v.len());
        let op = s.weighted(&[3, 3, 5, 1]);
        let form = s.usize(4);
        if v[i].mag * v[j].mag > 1e60 {
            continue;
        }
        trace.push_str(&format!("v{}=v{i}{}v{j};", v.len(), ["+", "-", "*", "neg"][op]));
        let r = guarded("interval operation", || ivop(op, form, &v[i], &v[j]))?;
        let kind = |x: &Iv| {
            if x.lo.sign() > 0 {
                '+'
            } else if x.hi.sign() < 0 {
                '-'
            } else if x.lo.sign() == 0 || x.hi.sign() == 0 {
                '0'
            } else {
                'm'
            }
        };
        if op == 2 {
            c.label(&format!("product {}{}", kind(&v[i]), kind(&v[j])));
        }
        let t = || format!("leaves {leaves}: {trace}");
        check_iv(&r, &t, r.mag * 1e-11)?;
        if r.exactish && r.lo.sign() != 0 && r.lo.approx().abs() > 1e-10 * r.mag {
            ensure!(r.lib.not_zero(), "undecided", "an interval computed from points cannot decide {} : {}", show(&r), t());
        }
        v.push(r);
    }
    c.nontrivial = v.iter().any(|x| !x.exactish && x.lo.sign() * x.hi.sign() < 0);
    c.describe(|| format!("intervals {leaves}: {trace}"));
    Ok(())
}

fn pn1(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.range(2, 6);
    let a: Vec<f64> = (0..n).map(|_| s.irange(-1 << 24, 1 << 24) as f64).collect();
    let b: Vec<f64> = (0..n).map(|_| s.irange(-1 << 24, 1 << 24) as f64).collect();
    c.describe(|| format!("{a:?} {b:?}"));
    c.nontrivial = a != b;
    let mut d = vec![0.0; n];
    gpf::math::sub(&a, &b, &mut d);
    for i in 0..n {
        ensure!(d[i] == a[i] - b[i], "sub", "sub({a:?}, {b:?}) = {d:?}");
    }
    // all products and sums are exact integers below 2^53
    let e: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
    ensure!(gpf::math::dot(&a, &b) == e, "dot", "dot({a:?}, {b:?}) = {}", gpf::math::dot(&a, &b));
    let q: f64 = a.iter().map(|x| x * x).sum::<f64>().sqrt();
    ensure!((gpf::math::norm(&a) - q).abs() <= 1e-15 * q, "norm", "norm({a:?}) = {}", gpf::math::norm(&a));
    let (u, v) = ([a[0], a[1], a[n - 1]], [b[0], b[1], b[n - 1]]);
    let mut w = [0.0; 3];
    gpf::math::cross(&u, &v, &mut w);
    let z = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
    ensure!(w == z, "cross", "cross({u:?}, {v:?}) = {w:?}");
    ensure!(gpf::math::dot(&u, &w).abs() <= 1e-13 * q.powi(2) * gpf::math::norm(&b).max(1.0), "cross", "cross({u:?}, {v:?}) = {w:?} is not perpendicular");
    let (iu, iv): ([i64; 3], [i64; 3]) = (u.map(|x| x as i64 >> 6), v.map(|x| x as i64 >> 6));
    let mut iw = [0i64; 3];
    gpf::math::cross(&iu, &iv, &mut iw);
    ensure!(gpf::math::dot(&iu, &iw) == 0 && gpf::math::dot(&iv, &iw) == 0, "cross", "integer cross({iu:?}, {iv:?}) = {iw:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E03",
            rule: "a case is one set of operands put through every expansion operation, or one random program of ExpansionNum operations; non-trivial when both operands have several components, a rounding error is non-zero, or an intermediate has more than two components",
            quick: 8_000_000,
            thorough: 120_000_000,
            chunk: 20_000,
            timeout_s: 300,
            run: p03,
            fixed: &[],
            assumptions: &["operands are non-empty non-adjacent expansions (what the library's own operations produce), with exponents far from overflow and underflow"],
        },
        Prop {
            id: "E04",
            rule: "a case is a random program of interval operations checked after each step against exact interval arithmetic; non-trivial when it contains an interval that is not a point and straddles zero",
            quick: 8_000_000,
            thorough: 120_000_000,
            chunk: 20_000,
            timeout_s: 300,
            run: p04,
            fixed: &[],
            assumptions: &["finite bounds, no overflow or underflow"],
        },
        Prop {
            id: "N01",
            rule: "a case is one pair of integer vectors put through every vector function; non-trivial when they differ",
            quick: 4_000_000,
            thorough: 60_000_000,
            chunk: 20_000,
            timeout_s: 300,
            run: pn1,
            fixed: &[],
            assumptions: &["integer components small enough for every result to be exact (the norm is compared within rounding)"],
        },
    ]
}
