//! E05 orient3d, E06 orient2d, E07 coordinate comparison and E09 rounding of implicitly defined points.
use super::gen::*;
use crate::bigint::*;
use crate::driver::*;
use crate::ensure;
use crate::geo::{self, Hom};
use crate::src::Src;
use bumpalo::Bump;
use gpf::predicates as gp;
use gpf::predicates::{ExplicitPoint3D, ImplicitPoint3D, ImplicitPointLPI, ImplicitPointTPI, Orientation, Point3D};

pub fn ori(o: Orientation) -> i32 {
    match o {
        Orientation::Positive => 1,
        Orientation::Negative => -1,
        Orientation::Zero => 0,
        Orientation::Undefined => 9,
    }
}
pub fn ex(p: &[f64; 3]) -> ExplicitPoint3D {
    ExplicitPoint3D { data: *p }
}

/// description of a point: defining explicit points
#[derive(Clone, Debug)]
pub enum Def {
    E([f64; 3]),
    L([[f64; 3]; 5]),
    T([[f64; 3]; 9]),
}
impl Def {
    pub fn build(&self) -> Point3D {
        match self {
            Def::E(p) => Point3D::Explicit(ex(p)),
            Def::L(v) => {
                Point3D::LPI(ImplicitPointLPI::new(ex(&v[0]), ex(&v[1]), ex(&v[2]), ex(&v[3]), ex(&v[4])))
            }
            Def::T(v) => Point3D::TPI(ImplicitPointTPI::new(
                ex(&v[0]),
                ex(&v[1]),
                ex(&v[2]),
                ex(&v[3]),
                ex(&v[4]),
                ex(&v[5]),
                ex(&v[6]),
                ex(&v[7]),
                ex(&v[8]),
            )),
        }
    }
    pub fn pts(&self) -> &[[f64; 3]] {
        match self {
            Def::E(p) => std::slice::from_ref(p),
            Def::L(v) => v,
            Def::T(v) => v,
        }
    }
    pub fn hom(&self, e: i32) -> Hom {
        let f = |p: &[f64; 3]| geo::v3(p, e);
        match self {
            Def::E(p) => Hom::explicit(p, e),
            Def::L(v) => Hom::lpi(&f(&v[0]), &f(&v[1]), &f(&v[2]), &f(&v[3]), &f(&v[4])),
            Def::T(v) => {
                let q: Vec<geo::V3> = v.iter().map(f).collect();
                Hom::tpi([&q[0], &q[1], &q[2]], [&q[3], &q[4], &q[5]], [&q[6], &q[7], &q[8]])
            }
        }
    }
    pub fn kind(&self) -> char {
        match self {
            Def::E(_) => 'E',
            Def::L(_) => 'L',
            Def::T(_) => 'T',
        }
    }
    /// another definition of the same point: permuted plane points and swapped planes / line ends
    pub fn respell(&self, s: &mut Src) -> Def {
        match self {
            Def::E(p) => Def::E(*p),
            Def::L(v) => {
                let mut v = *v;
                if s.bool() {
                    v.swap(0, 1);
                }
                s.shuffle(&mut v[2..5]);
                Def::L(v)
            }
            Def::T(v) => {
                let mut q = [0usize, 1, 2];
                s.shuffle(&mut q);
                let mut w = *v;
                for i in 0..3 {
                    for j in 0..3 {
                        w[3 * i + j] = v[3 * q[i] + j];
                    }
                    s.shuffle(&mut w[3 * i..3 * i + 3]);
                }
                Def::T(w)
            }
        }
    }
}
pub fn show(d: &[Def]) -> String {
    d.iter().map(|x| format!("{}{:?}", x.kind(), x.pts())).collect::<Vec<_>>().join(" ")
}
pub fn kinds(d: &[Def]) -> String {
    d.iter().map(|x| x.kind()).collect()
}
pub fn common_exp(d: &[Def]) -> i32 {
    let v: Vec<&[f64]> = d.iter().flat_map(|x| x.pts().iter().map(|p| &p[..])).collect();
    geo::scale_exp(&v)
}

pub struct Pool {
    pub pts: Vec<[f64; 3]>,
    pub defs: Vec<Def>,
}
/// base points with many coincidences, then points defined over them
pub fn gen_pool(s: &mut Src, k: usize, want: Option<&[usize]>) -> Pool {
    let st = style_limited(s);
    let n = s.range(4, 12);
    let exact = s.chance(2, 3);
    let mut pts: Vec<[f64; 3]> = config::<3>(s, n, st, exact);
    // keep every coordinate inside the precision the callers guarantee
    for p in &mut pts {
        for x in p.iter_mut() {
            *x = (*x * 2097152.0).round() / 2097152.0;
            if x.abs() > 4096.0 {
                *x = x.signum() * 4096.0;
            }
            if *x == 0.0 {
                *x = 0.0;
            }
        }
    }
    let mut defs: Vec<Def> = vec![];
    for i in 0..k {
        let kind = match want {
            Some(w) => w[i],
            None => s.weighted(&[3, 4, 3]),
        };
        let pick = |s: &mut Src| *s.pick(&pts);
        let plane = |s: &mut Src| {
            // mostly three different pool entries
            let a = s.usize(pts.len());
            let b = (a + 1 + s.usize(pts.len() - 1)) % pts.len();
            let mut c = s.usize(pts.len());
            while c == a || c == b {
                c = (c + 1) % pts.len();
            }
            [pts[a], pts[b], pts[c]]
        };
        let retry = if s.chance(1, 12) { 0 } else { 10 };
        let mut tries = 0;
        let d = loop {
        let d = match kind {
            0 => {
                let m = s.weighted(&[4, 2, 3]);
                let p = match m {
                    0 => pick(s),
                    1 => {
                        let (a, b, c) = (pick(s), pick(s), pick(s));
                        let mut q = [0.0; 3];
                        let (u, v) = (s.irange(-2, 2) as f64 / 2.0, s.irange(-2, 2) as f64 / 2.0);
                        for i in 0..3 {
                            q[i] = a[i] + (b[i] - a[i]) * u + (c[i] - a[i]) * v;
                        }
                        q
                    }
                    _ => {
                        // the rounded position of an earlier implicit point
                        let prev: Vec<usize> =
                            (0..defs.len()).filter(|&j| !matches!(defs[j], Def::E(_))).collect();
                        if prev.is_empty() {
                            pick(s)
                        } else {
                            let j = *s.pick(&prev);
                            let e = common_exp(&defs[j..j + 1]);
                            let h = defs[j].hom(e);
                            if h.valid() {
                                let mut q = [0.0; 3];
                                for i in 0..3 {
                                    let x = ldexp(big_ratio(&h.c[i], &h.w), e as i64);
                                    q[i] = (x * 2097152.0).round() / 2097152.0;
                                }
                                if q.iter().all(|x| x.abs() <= 4096.0) {
                                    q
                                } else {
                                    pick(s)
                                }
                            } else {
                                pick(s)
                            }
                        }
                    }
                };
                Def::E(p)
            }
            1 => {
                let (mut p, mut q) = (pick(s), pick(s));
                let mut pl = plane(s);
                // share the line or the plane with an earlier point
                if let Some(Def::L(v)) = defs.last() {
                    match s.weighted(&[4, 2, 2]) {
                        1 => {
                            p = v[0];
                            q = v[1];
                        }
                        2 => pl = [v[2], v[3], v[4]],
                        _ => {}
                    }
                }
                Def::L([p, q, pl[0], pl[1], pl[2]])
            }
            _ => {
                let (mut a, b, c) = (plane(s), plane(s), plane(s));
                if let Some(Def::L(v)) = defs.last() {
                    if s.chance(1, 3) {
                        a = [v[2], v[3], v[4]];
                    }
                }
                if let Some(Def::T(v)) = defs.last() {
                    if s.chance(1, 3) {
                        a = [v[0], v[1], v[2]];
                    }
                }
                Def::T([a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2]])
            }
        };
            if tries >= retry || matches!(d, Def::E(_)) || d.hom(common_exp(std::slice::from_ref(&d))).valid() {
                break d;
            }
            tries += 1;
        };
        if !defs.is_empty() && s.chance(1, 12) {
            let j = s.usize(defs.len());
            let d2 = defs[j].clone();
            defs.push(d2.respell(s));
        } else {
            defs.push(d);
        }
    }
    Pool { pts, defs }
}

/// Points whose exact predicate value is zero or a single unit while floating-point evaluation is all
/// rounding noise: full-length coordinates of one magnitude (`off` shifts the cluster away from the
/// origin, some points are defined by small neighbourhoods), all points on one carrier.
/// `deg` bounds the degree of the exact expression, hence the length of coordinates that cannot underflow.
fn gen_noise(s: &mut Src, w: &[usize], deg: i64, carrier: usize, axis: usize) -> Vec<Def> {
    let bits = (960 / deg).min(52);
    let lim = (700 / deg).min(30);
    let k = if s.chance(1, 3) { 0 } else { s.irange(-lim, lim) };
    let u = |m: i64| ldexp(m as f64, k - bits);
    let full = 1i64 << bits;
    let off: [i64; 3] = if s.chance(1, 3) {
        let mut o = [0; 3];
        for x in &mut o {
            *x = if s.chance(1, 4) { 0 } else { let v = s.bits(bits as u32 - 1) as i64; if s.bool() { v } else { -v } };
        }
        o
    } else {
        [0; 3]
    };
    let far = off != [0; 3];
    let local = |s: &mut Src| -> i64 { if far { s.irange(1, bits / 2) } else { *s.pick(&[0i64, 0, 0, 0, 1, 2, bits / 4, bits / 2]) } };
    let j0 = local(s);
    let pt = |s: &mut Src, j: i64| -> [i64; 3] {
        let mut p = off;
        for x in &mut p {
            let top = (full >> (1 + j)).max(4) as u64;
            let m = match s.weighted(&[4, 4, 1]) {
                0 => s.below(top) as i64,
                1 => (top - 1 - s.below(top / 8 + 1)) as i64,
                _ => 0,
            };
            *x += if s.bool() { m } else { -m };
        }
        p
    };
    // `n` points defining a line or a plane that need not lie on the carrier: in mixed cases each
    // has a neighbourhood of its own size and place, or each point a size of its own
    let mixed = s.chance(1, 3);
    let free = |s: &mut Src, j: i64, n: usize| -> Vec<[i64; 3]> {
        if !mixed || s.chance(1, 3) {
            return (0..n).map(|_| pt(s, j)).collect();
        }
        let sizes = [0i64, 0, bits / 6, bits / 4, bits / 3, bits / 2];
        if s.bool() {
            (0..n).map(|_| { let j = *s.pick(&sizes); pt(s, j) }).collect()
        } else {
            let base = if s.chance(1, 4) { [0; 3] } else { let j = *s.pick(&sizes); pt(s, j) };
            let j = *s.pick(&sizes);
            (0..n)
                .map(|_| {
                    let mut p = base;
                    for x in &mut p {
                        let m = s.below((full >> (2 + j)).max(4) as u64) as i64;
                        *x += if s.bool() { m } else { -m };
                    }
                    p
                })
                .collect()
        }
    };
    let f = |p: [i64; 3]| [u(p[0]), u(p[1]), u(p[2])];
    let inside = |p: &[i64; 3]| p.iter().all(|x| x.abs() < full * 2);
    let unit = |s: &mut Src, mut p: [i64; 3]| -> [i64; 3] {
        let i = s.usize(3);
        p[i] += s.irange(-1, 1);
        p
    };
    // carrier
    let mut r = pt(s, j0);
    let mut q = pt(s, j0);
    let mut t = pt(s, j0);
    if carrier == 1 {
        // a plane of constant coordinate
        q[axis] = r[axis];
        t[axis] = r[axis];
    } else if carrier == 2 {
        // a plane parallel to the axis
        t = r;
        t[axis] = pt(s, j0)[axis];
    }
    if r == q || q == t || r == t {
        q[(axis + 1) % 3] += 1;
        t[(axis + 2) % 3] += 2;
    }
    let near = s.chance(1, 4);
    let combo = |s: &mut Src, a: [i64; 3], b: [i64; 3], c: [i64; 3]| -> [i64; 3] {
        // another point of the same plane
        let mut p = a;
        for i in 0..3 {
            p[i] = b[i] + c[i] - a[i];
        }
        if inside(&p) && s.chance(1, 2) { p } else { a }
    };
    let mut out: Vec<Def> = vec![];
    for &kind in w {
        let j = local(s);
        let mut tri = [r, q, t];
        s.shuffle(&mut tri);
        let own = {
            let c = combo(s, tri[0], tri[1], tri[2]);
            let mut v = [c, tri[1], tri[2]];
            s.shuffle(&mut v);
            v
        };
        let fix = |s: &mut Src, v: [[i64; 3]; 3]| -> [[i64; 3]; 3] {
            let mut v = v;
            if near && s.chance(1, 3) {
                let i = s.usize(3);
                v[i] = unit(s, v[i]);
            }
            v
        };
        let d = match kind {
            0 => {
                let mut p = if carrier == 3 {
                    let mut p = r;
                    if s.chance(1, 3) {
                        for i in 0..3 {
                            p[i] = 2 * q[i] - r[i];
                        }
                    }
                    if inside(&p) && s.bool() { p } else { *s.pick(&[r, q]) }
                } else if carrier == 4 {
                    r
                } else {
                    combo(s, tri[0], tri[1], tri[2])
                };
                if near && s.chance(1, 3) {
                    p = unit(s, p);
                }
                Def::E(f(p))
            }
            1 => {
                let (l, pl) = match carrier {
                    3 => ([r, q], tri3(free(s, j, 3))),
                    4 => ([r, free(s, j, 1)[0]], { let v = free(s, j, 2); [r, v[0], v[1]] }),
                    _ => ({ let v = free(s, j, 2); [v[0], v[1]] }, fix(s, own)),
                };
                let mut l = l;
                let mut pl = pl;
                if carrier == 3 && near && s.chance(1, 3) {
                    l[1] = unit(s, l[1]);
                }
                s.shuffle(&mut l);
                s.shuffle(&mut pl);
                Def::L([f(l[0]), f(l[1]), f(pl[0]), f(pl[1]), f(pl[2])])
            }
            _ => {
                let j2 = local(s);
                let mut p = match carrier {
                    3 => [[r, q, free(s, j, 1)[0]], [r, q, free(s, j2, 1)[0]], tri3(free(s, j, 3))],
                    4 => {
                        let (a, b, c) = (free(s, j, 2), free(s, j2, 2), free(s, j, 2));
                        [[r, a[0], a[1]], [r, b[0], b[1]], [r, c[0], c[1]]]
                    }
                    _ => [fix(s, own), tri3(free(s, j, 3)), tri3(free(s, j2, 3))],
                };
                s.shuffle(&mut p);
                for v in &mut p {
                    s.shuffle(v);
                }
                let g: Vec<[f64; 3]> = p.iter().flatten().map(|v| f(*v)).collect();
                Def::T([g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8]])
            }
        };
        out.push(d);
    }
    out
}
fn tri3(v: Vec<[i64; 3]>) -> [[i64; 3]; 3] {
    [v[0], v[1], v[2]]
}
/// degree of the exact expression: coordinates of a line-plane point have degree 4 over 3, of a three-plane point 7 over 6
fn degree(w: &[usize], factors: i64) -> i64 {
    let mut x: Vec<i64> = w.iter().map(|k| [1, 4, 7][*k]).collect();
    let n = w.iter().filter(|k| **k != 0).count();
    x.sort();
    x.reverse();
    let d = |v: i64| if v == 1 { 0 } else { v - 1 };
    match n {
        0 => factors,
        1 => x[0] + factors - 1,
        _ => factors * (x[0] + d(x[1])),
    }
}
/// half the cases from the coincidence-rich small-coordinate pool, half from rounding noise
fn gen_defs(s: &mut Src, c: &mut Ctx, w: &[usize], factors: i64, carriers: &[usize]) -> Vec<Def> {
    if s.bool() {
        gen_pool(s, w.len(), Some(w)).defs
    } else {
        let carrier = *s.pick(carriers);
        let axis = s.usize(3);
        c.label(["noise: common plane", "noise: axis plane", "noise: plane along an axis", "noise: common line", "noise: common point"][carrier]);
        gen_noise(s, w, degree(w, factors), carrier, axis)
    }
}
/// uniform over the kind combinations so that every branch of the dispatch is taken
fn kind_mix(s: &mut Src, k: usize) -> Vec<usize> {
    (0..k).map(|_| s.usize(3)).collect()
}

/// warm some of the lazily filled caches in a random order: results must not depend on it
fn warm(s: &mut Src, p: &Point3D) {
    for _ in 0..s.usize(3) {
        match s.usize(3) {
            0 => {
                match p {
                    Point3D::LPI(q) => drop(q.static_filter().is_some()),
                    Point3D::TPI(q) => drop(q.static_filter().is_some()),
                    _ => {}
                };
            }
            1 => {
                match p {
                    Point3D::LPI(q) => drop(q.dynamic_filter().is_some()),
                    Point3D::TPI(q) => drop(q.dynamic_filter().is_some()),
                    _ => {}
                };
            }
            _ => {
                match p {
                    Point3D::LPI(q) => drop(q.exact(std::alloc::Global).is_some()),
                    Point3D::TPI(q) => drop(q.exact(std::alloc::Global).is_some()),
                    _ => {}
                };
            }
        }
    }
}

fn p05(s: &mut Src, c: &mut Ctx) -> R {
    let w = kind_mix(s, 4);
    let d = &gen_defs(s, c, &w, 3, &[0, 0, 0, 2, 3, 4]);
    c.describe(|| format!("orient3d {}", show(d)));
    let e = common_exp(d);
    let h: Vec<Hom> = d.iter().map(|x| x.hom(e)).collect();
    let ok = h.iter().all(|x| x.valid());
    let p: Vec<Point3D> = d.iter().map(|x| x.build()).collect();
    for q in &p {
        warm(s, q);
    }
    let bump = Bump::new();
    // the documented sense is the opposite of Shewchuk's
    let want = if ok { -geo::orient3d_hom([&h[0], &h[1], &h[2], &h[3]]) } else { 9 };
    let mut idx = [0usize, 1, 2, 3];
    for round in 0..2 {
        let mut par = 1;
        if round == 1 {
            for i in (1..4).rev() {
                let j = i - s.usize(i + 1);
                if i != j {
                    idx.swap(i, j);
                    par = -par;
                }
            }
        }
        let o = ori(guarded("orient3d", || gp::orient3d::orient3d(&p[idx[0]], &p[idx[1]], &p[idx[2]], &p[idx[3]], &bump))?);
        let wo = if ok { want * par } else { 9 };
        ensure!(o == wo, "orient3d", "orient3d[{}] order {idx:?} = {o}, exact {wo} for {}", kinds(d), show(d));
    }
    if kinds(d) != "EEEE" {
        c.nontrivial = ok;
    }
    let mut k: Vec<char> = kinds(d).chars().collect();
    k.sort();
    c.label(&format!("orient3d {}", k.iter().collect::<String>()));
    c.label(["orient3d undefined", "orient3d zero", "orient3d non-zero"][if !ok { 0 } else if want == 0 { 1 } else { 2 }]);
    Ok(())
}
fn p06(s: &mut Src, c: &mut Ctx) -> R {
    let w = kind_mix(s, 3);
    let d = &gen_defs(s, c, &w, 2, &[2, 2, 3, 3, 0, 4]);
    c.describe(|| format!("orient2d {}", show(d)));
    let e = common_exp(d);
    let h: Vec<Hom> = d.iter().map(|x| x.hom(e)).collect();
    let ok = h.iter().all(|x| x.valid());
    let p: Vec<Point3D> = d.iter().map(|x| x.build()).collect();
    for q in &p {
        warm(s, q);
    }
    let bump = Bump::new();
    for axis in 0..3 {
        let want = if ok { geo::orient2d_hom([&h[0], &h[1], &h[2]], axis) } else { 9 };
        let mut idx = [0usize, 1, 2];
        for round in 0..2 {
            let mut par = 1;
            if round == 1 {
                for i in (1..3).rev() {
                    let j = i - s.usize(i + 1);
                    if i != j {
                        idx.swap(i, j);
                        par = -par;
                    }
                }
            }
            let (a, b, cc) = (&p[idx[0]], &p[idx[1]], &p[idx[2]]);
            let o = ori(guarded("orient2d", || gp::orient2d::orient2d_by_axis(a, b, cc, axis, &bump))?);
            let o2 = ori(guarded("orient2d", || match axis {
                0 => gp::orient2d::orient2d_yz(a, b, cc, &bump),
                1 => gp::orient2d::orient2d_zx(a, b, cc, &bump),
                _ => gp::orient2d::orient2d_xy(a, b, cc, &bump),
            })?);
            let wo = if ok { want * par } else { 9 };
            ensure!(o == wo && o2 == wo, "orient2d", "orient2d axis {axis} [{}] order {idx:?} = {o} / {o2}, exact {wo} for {}", kinds(d), show(d));
        }
        c.label(["orient2d undefined", "orient2d zero", "orient2d non-zero"][if !ok { 0 } else if want == 0 { 1 } else { 2 }]);
    }
    if kinds(d) != "EEE" {
        c.nontrivial = ok;
    }
    c.label(&format!("orient2d {}", kinds(d)));
    Ok(())
}
fn p07(s: &mut Src, c: &mut Ctx) -> R {
    let w = kind_mix(s, 3);
    let d = &gen_defs(s, c, &w, 1, &[1, 1, 1, 4, 4, 3]);
    c.describe(|| format!("less_than {}", show(d)));
    let e = common_exp(d);
    let h: Vec<Hom> = d.iter().map(|x| x.hom(e)).collect();
    let p: Vec<Point3D> = d.iter().map(|x| x.build()).collect();
    for q in &p {
        warm(s, q);
    }
    let bump = Bump::new();
    for i in 0..3 {
        for j in 0..3 {
            if i == j {
                continue;
            }
            for axis in 0..3 {
                let f = [gp::less_than_on_x::<&Bump>, gp::less_than_on_y, gp::less_than_on_z][axis];
                let o = ori(guarded("less_than", || f(&p[i], &p[j], &bump))?);
                let ok = h[i].valid() && h[j].valid();
                let want = if ok { geo::cmp_hom(&h[i], &h[j], axis) } else { 9 };
                ensure!(
                    o == want,
                    "less_than",
                    "less_than_on_{}[{}{}] = {o}, exact {want} for {}",
                    ['x', 'y', 'z'][axis],
                    d[i].kind(),
                    d[j].kind(),
                    show(&[d[i].clone(), d[j].clone()])
                );
                if ok && (d[i].kind() != 'E' || d[j].kind() != 'E') {
                    c.nontrivial = true;
                    if want == 0 {
                        c.label("equal coordinates");
                    }
                }
            }
            c.label(&format!("less_than {}{}", d[i].kind(), d[j].kind()));
        }
    }
    Ok(())
}

/// exact coordinates, caches and rounding
fn p09(s: &mut Src, c: &mut Ctx) -> R {
    let w = [1 + s.usize(2)];
    let defs = gen_defs(s, c, &w, 1, &[0, 1, 2, 3, 4]);
    let d = &defs[0];
    c.describe(|| show(&defs));
    let e = common_exp(&defs);
    let h = d.hom(e);
    let p = d.build();
    warm(s, &p);
    let n = if s.bool() { 2 } else { 1 };
    for _ in 0..n {
        match &p {
            Point3D::LPI(q) => check_rep(q, &h, e, &defs)?,
            Point3D::TPI(q) => check_rep(q, &h, e, &defs)?,
            _ => {}
        }
    }
    // a clone carries the caches with it and must behave the same
    match p.clone() {
        Point3D::LPI(q) => check_rep(&q, &h, e, &defs)?,
        Point3D::TPI(q) => check_rep(&q, &h, e, &defs)?,
        _ => {}
    }
    ensure!(p.explicit().is_none(), "explicit", "an implicit point reports itself as explicit");
    c.nontrivial = h.valid();
    c.label(&format!("{} {}", d.kind(), if h.valid() { "valid" } else { "undefined" }));
    Ok(())
}
fn check_rep<P: ImplicitPoint3D>(q: &P, h: &Hom, e: i32, d: &[Def]) -> R {
    let name = show(d);
    let ex = guarded("exact", || q.exact(std::alloc::Global))?;
    ensure!(ex.is_some() == h.valid(), "exact", "exact() is {} but the point is {} : {name}", if ex.is_some() { "Some" } else { "None" }, if h.valid() { "defined" } else { "undefined" });
    let st = guarded("static_filter", || q.static_filter().cloned())?;
    let dy = guarded("dynamic_filter", || q.dynamic_filter().cloned())?;
    if !h.valid() {
        ensure!(st.is_none(), "static_filter", "static_filter accepts an undefined point: {name}");
        ensure!(dy.is_none(), "dynamic_filter", "dynamic_filter accepts an undefined point: {name}");
        return Ok(());
    }
    let x = ex.unwrap();
    let ds = Dy::sum(&x.d);
    ensure!(ds.sign() > 0, "exact", "the exact denominator is not positive: {:?} : {name}", x.d.vec);
    for (i, v) in [&x.x, &x.y, &x.z].into_iter().enumerate() {
        // x / d == c / w * 2^e
        let lhs = Dy::sum(v).mul(&Dy { m: h.w.clone(), e: 0 });
        let rhs = ds.mul(&Dy { m: h.c[i].clone(), e });
        ensure!(lhs.cmp(&rhs) == std::cmp::Ordering::Equal, "exact", "the exact coordinate {i} is wrong: {:?} / {:?} : {name}", v.vec, x.d.vec);
    }
    let mut data = [f64::NAN; 3];
    guarded("to_explicit", || q.to_explicit(&mut data))?;
    for i in 0..3 {
        let want = ldexp(big_ratio(&h.c[i], &h.w), e as i64);
        let tol = 1e-14 * want.abs();
        ensure!((data[i] - want).abs() <= tol, "to_explicit", "to_explicit coordinate {i} = {:e}, exact {:e} : {name}", data[i], want);
    }
    // the numerators and the denominator as the determinants of the definition, with a positive denominator
    let deg = if d[0].kind() == 'L' { 3 } else { 6 };
    let neg = h.w.sign() < 0;
    let raw = |m: &crate::bigint::Big, k: i32| Dy { m: if neg { m.neg() } else { m.clone() }, e: e * k };
    let want = [raw(&h.c[0], deg + 1), raw(&h.c[1], deg + 1), raw(&h.c[2], deg + 1), raw(&h.w, deg)];
    let names = ["x", "y", "z", "denominator"];
    if let Some(dy) = dy {
        ensure!(dy.d.positive(), "dynamic_filter", "dynamic filter with a denominator not known to be positive: {name}");
        for (i, v) in [&dy.x, &dy.y, &dy.z, &dy.d].into_iter().enumerate() {
            let a = want[i].approx();
            let lo = v - &gpf::predicates::IntervalNumber::from(a.next_down());
            let hi = v - &gpf::predicates::IntervalNumber::from(a.next_up());
            ensure!(!lo.negative() && !hi.positive(), "dynamic_filter", "the interval of the {} excludes its exact value {a:e}: {name}", names[i]);
        }
    }
    if let Some((f, m)) = st {
        ensure!(f.d > 0.0 && m > 0.0, "static_filter", "static filter denominator {} bound {m}: {name}", f.d);
        // the error bounds that every comparison taking this representation is derived from
        let (kd, kx) = if deg == 3 { (4.884981308350689e-15, 1.932297637868842e-14) } else { (8.704148513061234e-14, 3.980270973924514e-13) };
        for (i, v) in [f.x, f.y, f.z, f.d].into_iter().enumerate() {
            let err = Dy::from(v).sub(&want[i]);
            let err = if err.sign() < 0 { Dy { m: err.m.neg(), e: err.e } } else { err };
            let bound = if i == 3 { kd * m.powi(deg) } else { kx * m.powi(deg + 1) } * 1.0000001;
            ensure!(err.cmp(&Dy::from(bound)) != std::cmp::Ordering::Greater, "static_filter", "the filtered {} is off by {:e}, more than its bound {bound:e} (size {m:e}): {name}", names[i], err.approx());
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let dom: &'static [&'static str] =
        &["coordinates are short enough for their degree that no exact expansion overflows or underflows: multiples of 2^-21 up to 4096 (what the pipeline passes), or up to 52 bits divided by the degree of the expression at magnitudes 2^-30..2^30"];
    let mk = |id, rule, quick, thorough, run| Prop { id, rule, quick, thorough, chunk: 2_000, timeout_s: 300, run, fixed: &[], assumptions: dom };
    vec![
        mk("E05", "a case is four points (explicit, line-plane or three-plane) evaluated in two argument orders with lazily filled caches warmed at random; non-trivial when at least one point is implicit and all are defined", 1_300_000, 30_000_000, p05),
        mk("E06", "a case is three points (explicit, line-plane or three-plane) evaluated on all three coordinate planes and two argument orders; non-trivial when at least one is implicit and all are defined", 2_000_000, 50_000_000, p06),
        mk("E07", "a case is three points compared pairwise in both orders on all axes; non-trivial when some compared pair is defined and contains an implicit point", 2_000_000, 50_000_000, p07),
        mk("E09", "a case is one implicit point with its caches warmed in a random order; non-trivial when the point is defined", 2_000_000, 50_000_000, p09),
    ]
}
