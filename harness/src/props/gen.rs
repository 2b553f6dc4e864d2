//! Shared generators for coordinates and (nearly) degenerate point configurations.
use crate::bigint::ldexp;
use crate::src::Src;

#[derive(Clone, Copy, Debug)]
pub enum Style {
    /// integers -k..=k
    Int(i64),
    /// multiples of 2^-g with magnitude at most 2^m
    Grid(u32, u32),
    /// up to `bits` significant bits, magnitude exponent in lo..=hi
    Float(u32, i32, i32),
    /// a base value plus small integers times 2^-g
    Cluster(i64, u32),
}

pub fn coord(s: &mut Src, st: Style) -> f64 {
    match st {
        Style::Int(k) => s.irange(-k, k) as f64,
        Style::Grid(g, m) => {
            let lim = 1i64 << (g + m).min(52);
            let v = s.irange(-lim, lim);
            ldexp(v as f64, -(g as i64))
        }
        Style::Float(bits, lo, hi) => {
            if s.chance(1, 24) {
                return 0.0;
            }
            let e = s.irange(lo as i64, hi as i64);
            let b = if s.chance(1, 3) { s.range(1, bits as usize) as u32 } else { bits };
            let m = (1u64 << (b - 1)) + s.bits(b - 1);
            let x = ldexp(m as f64, e - b as i64);
            if s.bool() {
                -x
            } else {
                x
            }
        }
        Style::Cluster(base, g) => base as f64 + ldexp(s.irange(-6, 6) as f64, -(g as i64)),
    }
}
pub fn point<const N: usize>(s: &mut Src, st: Style) -> [f64; N] {
    let mut p = [0.0; N];
    for x in &mut p {
        *x = coord(s, st);
    }
    p
}

/// move a coordinate by a few units in the last place (or leave it)
pub fn nudge(s: &mut Src, x: f64) -> f64 {
    match s.weighted(&[5, 2, 2, 1, 1]) {
        0 => x,
        1 => ulps(x, 1),
        2 => ulps(x, -1),
        3 => { let k = s.irange(-4, 4); ulps(x, k) },
        _ => {
            let k = s.irange(-1000, 1000);
            ulps(x, k)
        }
    }
}
pub fn ulps(x: f64, k: i64) -> f64 {
    if x == 0.0 || k == 0 {
        return x; // denormals are outside the domain
    }
    let b = x.to_bits() as i64 + k;
    f64::from_bits(b as u64)
}

/// A point that is (nearly) an affine combination of the given ones.
pub fn near_affine<const N: usize>(s: &mut Src, base: &[[f64; N]], nudged: bool) -> [f64; N] {
    let mut p = base[0];
    let den = [1.0, 2.0, 4.0, 8.0, 3.0, 7.0];
    for q in &base[1..] {
        let t = s.irange(-3, 4) as f64 / *s.pick(&den);
        for i in 0..N {
            p[i] += (q[i] - base[0][i]) * t;
        }
    }
    if nudged {
        for x in &mut p {
            *x = nudge(s, *x);
        }
    }
    p
}

/// shared style for predicates of low degree evaluated on explicit points
pub fn style_explicit(s: &mut Src) -> Style {
    match s.weighted(&[3, 2, 3, 3, 2, 2, 1]) {
        0 => Style::Int(s.range(1, 6) as i64),
        1 => Style::Int(1 << s.range(3, 20)),
        2 => Style::Grid(s.range(1, 21) as u32, s.range(0, 6) as u32),
        3 => Style::Float(53, 0, 1),
        4 => Style::Float(53, -6, 6),
        5 => Style::Cluster(s.irange(-1000, 1000), s.range(20, 42) as u32),
        _ => Style::Float(53, -40, 40),
    }
}
/// limited precision (what the mesh pipeline feeds to the implicit-point predicates after snapping)
pub fn style_limited(s: &mut Src) -> Style {
    match s.weighted(&[4, 2, 4, 2, 2]) {
        0 => Style::Int(s.range(1, 6) as i64),
        1 => Style::Int(1 << s.range(3, 12)),
        2 => Style::Grid(s.range(1, 21) as u32, s.range(0, 4) as u32),
        3 => Style::Cluster(s.irange(-64, 64), s.range(8, 18) as u32),
        _ => Style::Float(16, -4, 4),
    }
}

/// k points in N dimensions with many coincidences, collinear / coplanar / co-spherical subsets
pub fn config<const N: usize>(s: &mut Src, k: usize, st: Style, exactish: bool) -> Vec<[f64; N]> {
    let mut v: Vec<[f64; N]> = vec![];
    for i in 0..k {
        let m = if i == 0 { 0 } else { s.weighted(&[6, 2, 3, 3, 2, 2]) };
        let p = match m {
            0 => point(s, st),
            1 => *s.pick(&v),
            2 if i >= 2 => {
                let a = *s.pick(&v);
                let b = *s.pick(&v);
                { let n = !exactish || s.bool(); near_affine(s, &[a, b], n) }
            }
            3 if i >= 3 => {
                let a = *s.pick(&v);
                let b = *s.pick(&v);
                let c = *s.pick(&v);
                { let n = !exactish || s.bool(); near_affine(s, &[a, b, c], n) }
            }
            4 => {
                // signed permutation of an earlier point: keeps |p|^2
                let mut a = *s.pick(&v);
                s.shuffle(&mut a);
                for x in &mut a {
                    if s.bool() {
                        *x = -*x;
                    }
                }
                if s.chance(1, 3) {
                    let i = s.usize(N);
                    a[i] = nudge(s, a[i]);
                }
                a
            }
            5 => {
                // copy some coordinates
                let a = *s.pick(&v);
                let mut p: [f64; N] = point(s, st);
                for i in 0..N {
                    if s.bool() {
                        p[i] = a[i];
                    }
                }
                p
            }
            _ => point(s, st),
        };
        v.push(p);
    }
    // a common translation moves the exact co-spherical families off the origin
    if matches!(st, Style::Int(_)) && s.chance(1, 3) {
        let t: [f64; N] = point(s, st);
        for p in &mut v {
            for i in 0..N {
                p[i] += t[i];
            }
        }
    }
    v
}

/// true when every value is zero or has magnitude and lowest bit inside 2^[lo, hi]
pub fn in_range(vals: &[f64], lo: i32, hi: i32) -> bool {
    vals.iter().all(|&x| {
        if x == 0.0 {
            return true;
        }
        if !x.is_finite() {
            return false;
        }
        let (m, e) = crate::bigint::decompose(x);
        let top = 64 - m.unsigned_abs().leading_zeros() as i32 + e;
        e >= lo && top <= hi
    })
}
