//! E01..: explicit predicates against exact integer arithmetic.
use super::gen::*;
use crate::bigint::ldexp;
use crate::driver::*;
use crate::ensure;
use crate::geo;
use crate::src::Src;
use bumpalo::Bump;
use gpf::predicates as gp;

fn sgn(x: f64) -> i32 {
    if x > 0.0 {
        1
    } else if x < 0.0 {
        -1
    } else {
        0
    }
}
fn fmt<const N: usize>(v: &[[f64; N]]) -> String {
    v.iter().map(|p| format!("{:?}", p)).collect::<Vec<_>>().join(" ")
}

/// every permutation class: returns (permuted, parity)
fn perm<const N: usize>(s: &mut Src, n: usize) -> ([usize; N], i32) {
    let mut idx = [0; N];
    for i in 0..N {
        idx[i] = i;
    }
    let mut par = 1;
    for i in (1..n).rev() {
        let j = i - s.usize(i + 1);
        if i != j {
            idx.swap(i, j);
            par = -par;
        }
    }
    (idx, par)
}

fn p01(s: &mut Src, c: &mut Ctx) -> R {
    let st = style_explicit(s);
    let bump = Bump::new();
    if s.bool() {
        let v = config::<2>(s, 3, st, true);
        c.describe(|| format!("orient2d {}", fmt(&v)));
        if !in_range(&v.concat(), -300, 200) {
            c.label("discarded: out of range");
            return Ok(());
        }
        let want = geo::orient2d(&v[0], &v[1], &v[2]);
        let (q, par) = perm::<3>(s, 3);
        let got = guarded("orient2d", || gp::orient2d(&v[0], &v[1], &v[2], &bump))?;
        let got2 = guarded("orient2d", || gp::orient2d(&v[q[0]], &v[q[1]], &v[q[2]], &bump))?;
        label(c, "orient2d", want);
        c.nontrivial = hard2(&v, want);
        ensure!(sgn(got) == want, "orient2d", "orient2d{} = {got:e}, exact sign {want}", fmt(&v));
        ensure!(sgn(got2) == want * par, "orient2d", "orient2d{} permuted {q:?} = {got2:e}, exact sign {}", fmt(&v), want * par);
    } else {
        let v = config::<3>(s, 4, st, true);
        c.describe(|| format!("orient3d {}", fmt(&v)));
        if !in_range(&v.concat(), -240, 200) {
            c.label("discarded: out of range");
            return Ok(());
        }
        let want = geo::orient3d(&v[0], &v[1], &v[2], &v[3]);
        let (q, par) = perm::<4>(s, 4);
        let got = guarded("orient3d", || gp::orient3d(&v[0], &v[1], &v[2], &v[3], &bump))?;
        let got2 = guarded("orient3d", || gp::orient3d(&v[q[0]], &v[q[1]], &v[q[2]], &v[q[3]], &bump))?;
        label(c, "orient3d", want);
        let fast = gp::orient3d_fast(&v[0], &v[1], &v[2], &v[3]);
        c.nontrivial = want == 0 || sgn(fast) != want || fast.abs() < 1e-10 * v.concat().iter().fold(0f64, |a, x| a.max(x.abs())).powi(3);
        ensure!(sgn(got) == want, "orient3d", "orient3d{} = {got:e}, exact sign {want}", fmt(&v));
        ensure!(sgn(got2) == want * par, "orient3d", "orient3d{} permuted {q:?} = {got2:e}, exact sign {}", fmt(&v), want * par);
    }
    Ok(())
}
fn hard2(v: &[[f64; 2]], want: i32) -> bool {
    let d = (v[0][0] - v[2][0]) * (v[1][1] - v[2][1]) - (v[0][1] - v[2][1]) * (v[1][0] - v[2][0]);
    let m = v.concat().iter().fold(0f64, |a, x| a.max(x.abs()));
    want == 0 || sgn(d) != want || d.abs() < 1e-10 * m * m
}
fn label(c: &mut Ctx, what: &str, want: i32) {
    c.label(&format!("{what} {}", ["-", "0", "+"][(want + 1) as usize]));
}


/// points on a common circle / sphere (exactly), optionally moved by a few ulps
fn spherical<const N: usize>(s: &mut Src, k: usize) -> Vec<[f64; N]> {
    let fam2: [[i64; 2]; 6] = [[25, 0], [7, 24], [15, 20], [20, 15], [24, 7], [0, 25]];
    let fam3: [[i64; 3]; 6] = [[9, 0, 0], [1, 4, 8], [4, 4, 7], [3, 6, 6], [8, 4, 1], [7, 4, 4]];
    let mode = s.weighted(&[3, 2, 4]);
    if mode == 2 {
        // rounded points of a sphere with a real centre and radius: tiny but non-zero determinants, and
        // coordinate differences that are not representable
        let st = Style::Float(53, -3, 3);
        let mut ctr: [f64; N] = point(s, st);
        if s.chance(1, 3) {
            ctr = [0.0; N];
        }
        let r = coord(s, st).abs() + 0.125;
        return (0..k)
            .map(|_| {
                let u: [f64; N] = point(s, Style::Float(53, -3, 0));
                let n = u.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                let mut p = [0.0; N];
                for i in 0..N {
                    p[i] = ctr[i] + r * u[i] / n;
                }
                p
            })
            .collect();
    }
    let sc = ldexp(s.range(1, 9) as f64, s.irange(-12, 12));
    let st = style_explicit(s);
    let base: [f64; N] = point(s, st);
    let v: Vec<[f64; N]> = (0..k)
        .map(|_| {
            let mut q = [0f64; N];
            if mode == 0 {
                for (i, x) in q.iter_mut().enumerate() {
                    *x = if N == 2 { fam2[0][i] } else { fam3[0][i] } as f64;
                }
                let f = s.usize(6);
                for (i, x) in q.iter_mut().enumerate() {
                    *x = if N == 2 { fam2[f][i] } else { fam3[f][i] } as f64 * sc;
                }
            } else {
                q = base;
            }
            s.shuffle(&mut q);
            for x in &mut q {
                if s.bool() {
                    *x = -*x;
                }
            }
            q
        })
        .collect();
    let mut v = v;
    if mode == 0 && s.bool() {
        let t: Vec<f64> = (0..N).map(|_| s.irange(-1 << 20, 1 << 20) as f64 * sc).collect();
        for p in &mut v {
            for i in 0..N {
                p[i] += t[i];
            }
        }
    }
    if s.bool() {
        for _ in 0..s.range(1, 3) {
            let i = s.usize(k);
            let j = s.usize(N);
            v[i][j] = nudge(s, v[i][j]);
        }
    }
    v
}

fn p02(s: &mut Src, c: &mut Ctx) -> R {
    let bump = Bump::new();
    match s.weighted(&[3, 3, 4]) {
        0 => {
            let v = if s.bool() { spherical::<2>(s, 4) } else { let st = style_explicit(s); config::<2>(s, 4, st, true) };
            c.describe(|| format!("incircle {}", fmt(&v)));
            if !in_range(&v.concat(), -150, 100) {
                c.label("discarded: out of range");
                return Ok(());
            }
            let want = geo::incircle(&v[0], &v[1], &v[2], &v[3]);
            let (q, par) = perm::<4>(s, 4);
            let f = |i: [usize; 4]| guarded("incircle", || gp::incircle(&v[i[0]], &v[i[1]], &v[i[2]], &v[i[3]], &bump));
            let got = f([0, 1, 2, 3])?;
            let got2 = f(q)?;
            label(c, "incircle", want);
            let m = span(&v);
            c.nontrivial = want == 0 || got.abs() < 1e-10 * m.powi(4);
            tiny(c, "incircle", got, m.powi(4));
            ensure!(sgn(got) == want, "incircle", "incircle{} = {got:e}, exact sign {want}", fmt(&v));
            ensure!(sgn(got2) == want * par, "incircle", "incircle{} permuted {q:?} = {got2:e}, exact sign {}", fmt(&v), want * par);
        }
        1 => {
            let v = if s.bool() { spherical::<3>(s, 5) } else { let st = style_explicit(s); config::<3>(s, 5, st, true) };
            c.describe(|| format!("insphere {}", fmt(&v)));
            if !in_range(&v.concat(), -120, 100) {
                c.label("discarded: out of range");
                return Ok(());
            }
            let want = geo::insphere([&v[0], &v[1], &v[2], &v[3], &v[4]]);
            let (q, par) = perm::<5>(s, 5);
            let f = |i: [usize; 5]| {
                guarded("insphere", || gp::insphere(&v[i[0]], &v[i[1]], &v[i[2]], &v[i[3]], &v[i[4]], &bump))
            };
            let got = f([0, 1, 2, 3, 4])?;
            let got2 = f(q)?;
            label(c, "insphere", want);
            c.nontrivial = want == 0 || got.abs() < 1e-10 * span(&v).powi(5);
            tiny(c, "insphere", got, span(&v).powi(5));
            ensure!(sgn(got) == want, "insphere", "insphere{} = {got:e}, exact sign {want}", fmt(&v));
            ensure!(sgn(got2) == want * par, "insphere", "insphere{} permuted {q:?} = {got2:e}, exact sign {}", fmt(&v), want * par);
        }
        _ => {
            let v = if s.bool() { spherical::<3>(s, 5) } else { let st = style_explicit(s); config::<3>(s, 5, st, true) };
            let mut h = [0.0; 5];
            match s.weighted(&[3, 2, 2]) {
                0 => {
                    for i in 0..5 {
                        h[i] = v[i][0] * v[i][0] + v[i][1] * v[i][1] + v[i][2] * v[i][2];
                    }
                }
                1 => {
                    let k: Vec<f64> = (0..4).map(|_| s.irange(-4, 4) as f64).collect();
                    for i in 0..5 {
                        h[i] = v[i][0] * k[0] + v[i][1] * k[1] + v[i][2] * k[2] + k[3];
                    }
                }
                _ => {
                    let st = style_explicit(s);
                    for x in &mut h {
                        *x = coord(s, st);
                    }
                }
            }
            if s.bool() {
                let i = s.usize(5);
                h[i] = nudge(s, h[i]);
            }
            c.describe(|| format!("orient4d {} heights {h:?}", fmt(&v)));
            if !in_range(&v.concat(), -120, 100) || !in_range(&h, -240, 200) {
                c.label("discarded: out of range");
                return Ok(());
            }
            let want = geo::orient4d([&v[0], &v[1], &v[2], &v[3], &v[4]], h);
            let (q, par) = perm::<5>(s, 5);
            let f = |i: [usize; 5]| {
                guarded("orient4d", || {
                    gp::orient4d(
                        &v[i[0]], &v[i[1]], &v[i[2]], &v[i[3]], &v[i[4]], &bump, h[i[0]], h[i[1]], h[i[2]], h[i[3]],
                        h[i[4]],
                    )
                })
            };
            let got = f([0, 1, 2, 3, 4])?;
            let got2 = f(q)?;
            label(c, "orient4d", want);
            let hm = h.iter().fold(0f64, |a, x| a.max(x.abs()));
            c.nontrivial = want == 0 || got.abs() < 1e-10 * span(&v).powi(3) * hm;
            tiny(c, "orient4d", got, span(&v).powi(3) * hm);
            ensure!(sgn(got) == want, "orient4d", "orient4d{} {h:?} = {got:e}, exact sign {want}", fmt(&v));
            ensure!(sgn(got2) == want * par, "orient4d", "orient4d{} {h:?} permuted {q:?} = {got2:e}, exact sign {}", fmt(&v), want * par);
        }
    }
    Ok(())
}
fn tiny(c: &mut Ctx, what: &str, got: f64, scale: f64) {
    if got != 0.0 && got.abs() < 1e-14 * scale {
        c.label(&format!("{what} non-zero but below 1e-14 of its scale"));
    }
}
fn span<const N: usize>(v: &[[f64; N]]) -> f64 {
    let mut m = 0f64;
    for p in v {
        for i in 0..N {
            m = m.max((p[i] - v[v.len() - 1][i]).abs());
        }
    }
    m
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E01",
            rule: "a case is one point configuration evaluated in two argument orders; non-trivial when the exact sign is zero, or differs from the floating-point determinant's sign, or the determinant is below 1e-10 of its natural scale",
            quick: 12_000_000,
            thorough: 150_000_000,
            chunk: 50_000,
            timeout_s: 300,
            run: p01,
            fixed: &[],
            assumptions: &["coordinates finite, with every bit of every coordinate between 2^-300 and 2^200 (no overflow or underflow inside the expansions)"],
        },
        Prop {
            id: "E02",
            rule: "a case is one point configuration (plus heights for orient4d) evaluated in two argument orders; non-trivial when the exact sign is zero or the returned determinant is below 1e-10 of its natural scale",
            quick: 6_000_000,
            thorough: 40_000_000,
            chunk: 20_000,
            timeout_s: 300,
            run: p02,
            fixed: &[],
            assumptions: &["coordinates finite, with every bit between 2^-120 and 2^100 (no overflow or underflow inside the expansions)"],
        },
    ]
}
