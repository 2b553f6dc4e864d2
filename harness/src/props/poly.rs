use super::gen::*;
use crate::driver::*;
use crate::ensure;
use crate::geo::{o2, o3};
use crate::src::Src;
use gpf::polygonlization::{make_mesh_for_triangles, remove_duplicates};
use std::collections::{BTreeMap, BTreeSet};

pub type P3 = [f64; 3];
pub fn sub(a: &P3, b: &P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn dot(a: &P3, b: &P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &P3, b: &P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: &P3) -> f64 {
    dot(a, a).sqrt()
}

// ---------------------------------------------------------------- solids with a membership oracle
#[derive(Clone)]
pub struct Map {
    pub a: [[f64; 3]; 3],
    pub t: P3,
}
impl Map {
    pub fn det(&self) -> f64 {
        let a = &self.a;
        dot(&a[0], &cross(&a[1], &a[2]))
    }
    pub fn apply(&self, p: &P3) -> P3 {
        [0, 1, 2].map(|i| dot(&self.a[i], p) + self.t[i])
    }
    pub fn back(&self, q: &P3) -> P3 {
        let p = sub(q, &self.t);
        let a = &self.a;
        let d = self.det();
        let c = [cross(&a[1], &a[2]), cross(&a[2], &a[0]), cross(&a[0], &a[1])];
        [0, 1, 2].map(|i| (c[0][i] * p[0] + c[1][i] * p[1] + c[2][i] * p[2]) / d)
    }
    /// how much distances can shrink
    pub fn shrink(&self) -> f64 {
        let a = &self.a;
        let d = self.det().abs();
        let c = [cross(&a[1], &a[2]), cross(&a[2], &a[0]), cross(&a[0], &a[1])];
        d / (c.iter().map(|v| dot(v, v)).sum::<f64>().sqrt())
    }
}

pub enum Solid {
    /// outward planes (unit normal, offset)
    Convex(Vec<(P3, f64)>),
    Cubes { g: [Vec<f64>; 3], occ: Vec<bool>, map: Map },
    /// a closed outward surface that does not cross itself
    Mesh(Out),
}
impl Solid {
    /// is q inside; None when it is closer than m to the boundary (or to a grid plane)
    pub fn side(&self, q: &P3, m: f64) -> Option<bool> {
        match self {
            Solid::Convex(pl) => {
                let mut ins = true;
                let mut out = false;
                for (n, d) in pl {
                    let h = dot(n, q) - d;
                    if h > m {
                        out = true;
                    }
                    if h > -m {
                        ins = false;
                    }
                }
                if out {
                    Some(false)
                } else if ins {
                    Some(true)
                } else {
                    None
                }
            }
            Solid::Cubes { g, occ, map } => {
                let p = map.back(q);
                let k = m / map.shrink();
                let mut id = [0usize; 3];
                for i in 0..3 {
                    if g[i].iter().any(|x| (x - p[i]).abs() <= k) {
                        // outside along another axis is enough
                        id[i] = usize::MAX;
                        continue;
                    }
                    let c = g[i].iter().filter(|x| **x < p[i]).count();
                    if c == 0 || c == g[i].len() {
                        return Some(false);
                    }
                    id[i] = c - 1;
                }
                if id.contains(&usize::MAX) {
                    return None;
                }
                Some(occ[(id[0] * (g[1].len() - 1) + id[1]) * (g[2].len() - 1) + id[2]])
            }
            Solid::Mesh(o) => {
                if out_dist(o, q) <= m {
                    return None;
                }
                winding(o, q, &mut 0x5eed).map(|w| w == 1)
            }
        }
    }
}

/// faces as vertex loops over points
#[derive(Default, Clone)]
pub struct Soup {
    pub pts: Vec<P3>,
    pub tris: Vec<[usize; 3]>,
}

/// distance from a point to a triangle
pub fn tri_dist(q: &P3, a: &P3, b: &P3, c: &P3) -> f64 {
    let (ab, ac, aq) = (sub(b, a), sub(c, a), sub(q, a));
    let n = cross(&ab, &ac);
    let nn = dot(&n, &n);
    if nn > 0.0 {
        let u = dot(&cross(&aq, &ac), &n) / nn;
        let v = dot(&cross(&ab, &aq), &n) / nn;
        if u >= 0.0 && v >= 0.0 && u + v <= 1.0 {
            return dot(&n, &aq).abs() / nn.sqrt();
        }
    }
    let seg = |p: &P3, r: &P3| {
        let d = sub(r, p);
        let l = dot(&d, &d);
        let t = if l > 0.0 { (dot(&sub(q, p), &d) / l).clamp(0.0, 1.0) } else { 0.0 };
        let x = [0, 1, 2].map(|i| p[i] + t * d[i]);
        norm(&sub(q, &x))
    };
    seg(a, b).min(seg(b, c)).min(seg(c, a))
}
pub fn out_dist(o: &Out, q: &P3) -> f64 {
    o.tris.iter().map(|t| tri_dist(q, &o.pts[t[0]], &o.pts[t[1]], &o.pts[t[2]])).fold(f64::MAX, f64::min)
}
/// facets (outward, strict corners) of the convex hull of a few points; empty when flat
pub fn hull_facets(p: &[P3]) -> Vec<Vec<usize>> {
    let n = p.len();
    let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut out = vec![];
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let (mut pos, mut neg) = (None, None);
                let mut on = vec![];
                for v in 0..n {
                    match o3(&p[i], &p[j], &p[k], &p[v]) {
                        0 => on.push(v),
                        x if x > 0 => pos = Some(v),
                        _ => neg = Some(v),
                    }
                    if pos.is_some() && neg.is_some() {
                        break;
                    }
                }
                let inner = match (pos, neg) {
                    (Some(v), None) => v,
                    (None, Some(v)) => v,
                    _ => continue,
                };
                if !seen.insert(on.clone()) {
                    continue;
                }
                // planar hull of `on` in a projection that keeps it
                let nrm = cross(&sub(&p[j], &p[i]), &sub(&p[k], &p[i]));
                let ax = (0..3).max_by(|&a, &b| nrm[a].abs().partial_cmp(&nrm[b].abs()).unwrap()).unwrap();
                let pr = |v: usize| [p[v][(ax + 1) % 3], p[v][(ax + 2) % 3]];
                on.sort_by(|&a, &b| pr(a).partial_cmp(&pr(b)).unwrap());
                let mut h: Vec<usize> = vec![];
                for pass in 0..2 {
                    let base = h.len();
                    let it: Vec<usize> = if pass == 0 { on.clone() } else { on.iter().rev().copied().collect() };
                    for v in it {
                        while h.len() >= base + 2 && o2(&pr(h[h.len() - 2]), &pr(h[h.len() - 1]), &pr(v)) <= 0 {
                            h.pop();
                        }
                        h.push(v);
                    }
                    h.pop();
                }
                if h.len() < 3 {
                    continue;
                }
                if o3(&p[h[0]], &p[h[1]], &p[h[2]], &p[inner]) < 0 {
                    h.reverse();
                }
                out.push(h);
            }
        }
    }
    out
}
pub fn planes(p: &[P3], f: &[Vec<usize>]) -> Vec<(P3, f64)> {
    f.iter()
        .map(|l| {
            let n = cross(&sub(&p[l[1]], &p[l[0]]), &sub(&p[l[2]], &p[l[0]]));
            let k = norm(&n);
            let n = n.map(|x| x / k);
            (n, dot(&n, &p[l[0]]))
        })
        .collect()
}

pub fn gen_map(s: &mut Src, span: i64, plain: bool) -> Map {
    let mut a = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    if !plain {
        match s.weighted(&[4, 3, 2]) {
            0 => {}
            1 => {
                for _ in 0..8 {
                    let mut b = [[0.0; 3]; 3];
                    for r in &mut b {
                        for x in r.iter_mut() {
                            *x = s.irange(-2, 2) as f64;
                        }
                    }
                    let m = Map { a: b, t: [0.0; 3] };
                    if m.det() != 0.0 {
                        a = b;
                        break;
                    }
                }
            }
            _ => {
                // rotation by a Pythagorean angle (scaled)
                let (u, v) = *s.pick(&[(3.0, 4.0), (5.0, 12.0), (4.0, 3.0), (8.0, 15.0)]);
                let i = s.usize(3);
                let j = (i + 1) % 3;
                let w = (u * u + v * v as f64).sqrt();
                a = [[w, 0.0, 0.0], [0.0, w, 0.0], [0.0, 0.0, w]];
                a[i][i] = u;
                a[j][j] = u;
                a[i][j] = -v;
                a[j][i] = v;
                for r in &mut a {
                    for x in r.iter_mut() {
                        *x *= 0.125;
                    }
                }
            }
        }
    }
    let t = [0, 1, 2].map(|_| if span == 0 { 0.0 } else { s.irange(-span, span) as f64 });
    Map { a, t }
}

/// faces: for each boundary square its 4 corners in outward order (grid indices)
pub type Gp = [usize; 3];
pub struct Cubes {
    pub g: [Vec<f64>; 3],
    pub occ: Vec<bool>,
    pub map: Map,
}
impl Cubes {
    pub fn dims(&self) -> [usize; 3] {
        [0, 1, 2].map(|i| self.g[i].len() - 1)
    }
    pub fn at(&self, c: [isize; 3]) -> bool {
        let d = self.dims();
        for i in 0..3 {
            if c[i] < 0 || c[i] as usize >= d[i] {
                return false;
            }
        }
        self.occ[(c[0] as usize * d[1] + c[1] as usize) * d[2] + c[2] as usize]
    }
    /// (axis, layer, outward sign, cell in the plane)
    pub fn squares(&self) -> Vec<(usize, usize, i32, [usize; 2])> {
        let d = self.dims();
        let mut v = vec![];
        for ax in 0..3 {
            let (b, c) = ((ax + 1) % 3, (ax + 2) % 3);
            for l in 0..=d[ax] {
                for i in 0..d[b] {
                    for j in 0..d[c] {
                        let mut lo = [0isize; 3];
                        lo[ax] = l as isize - 1;
                        lo[b] = i as isize;
                        lo[c] = j as isize;
                        let mut hi = lo;
                        hi[ax] = l as isize;
                        let (p, q) = (self.at(lo), self.at(hi));
                        if p && !q {
                            v.push((ax, l, 1, [i, j]));
                        } else if q && !p {
                            v.push((ax, l, -1, [i, j]));
                        }
                    }
                }
            }
        }
        v
    }
    pub fn point(&self, p: Gp) -> P3 {
        self.map.apply(&[self.g[0][p[0]], self.g[1][p[1]], self.g[2][p[2]]])
    }
    /// corners of a rectangle of squares, outward in space
    pub fn rect(&self, ax: usize, l: usize, sg: i32, a: [usize; 2], b: [usize; 2]) -> [Gp; 4] {
        let mk = |i: usize, j: usize| {
            let mut g = [0; 3];
            g[ax] = l;
            g[(ax + 1) % 3] = i;
            g[(ax + 2) % 3] = j;
            g
        };
        let mut r = [mk(a[0], a[1]), mk(b[0], a[1]), mk(b[0], b[1]), mk(a[0], b[1])];
        if (sg < 0) != (self.map.det() < 0.0) {
            r.reverse();
        }
        r
    }
    pub fn volume(&self) -> f64 {
        let d = self.dims();
        let mut v = 0.0;
        for i in 0..d[0] {
            for j in 0..d[1] {
                for k in 0..d[2] {
                    if self.at([i as isize, j as isize, k as isize]) {
                        v += (self.g[0][i + 1] - self.g[0][i]) * (self.g[1][j + 1] - self.g[1][j]) * (self.g[2][k + 1] - self.g[2][k]);
                    }
                }
            }
        }
        v * self.map.det().abs()
    }
    pub fn solid(&self) -> Solid {
        Solid::Cubes { g: self.g.clone(), occ: self.occ.clone(), map: self.map.clone() }
    }
}
pub fn gen_cubes(s: &mut Src, span: i64, plain: bool) -> Cubes {
    let big = s.chance(1, 6);
    let d = [0, 1, 2].map(|_| if big { s.range(1, 3) } else { s.range(1, 2) });
    let g = d.map(|n| {
        let mut x = if span == 0 { 0.0 } else { s.irange(-2, 2) as f64 };
        let mut v = vec![x];
        for _ in 0..n {
            x += *s.pick(&[1.0, 2.0, 1.0, 3.0, 0.5, 7.0]);
            v.push(x);
        }
        v
    });
    let n: usize = d.iter().product();
    let dense = s.range(1, 4) as u64;
    let mut occ: Vec<bool> = (0..n).map(|_| s.chance(dense, 4)).collect();
    if !occ.contains(&true) {
        occ[0] = true;
    }
    Cubes { g, occ, map: gen_map(s, span, plain) }
}
/// triangles of the boundary; `merge` makes larger rectangles with T-junctions
pub fn cubes_triangles(s: &mut Src, k: &Cubes, merge: bool) -> Soup {
    let mut out = Soup::default();
    let mut ids: BTreeMap<Gp, usize> = BTreeMap::new();
    let sq = k.squares();
    let set: BTreeSet<(usize, usize, i32, [usize; 2])> = sq.iter().copied().collect();
    let mut done = BTreeSet::new();
    for &(ax, l, sg, c) in &sq {
        if done.contains(&(ax, l, sg, c)) {
            continue;
        }
        let mut e = [c[0] + 1, c[1] + 1];
        done.insert((ax, l, sg, c));
        if merge {
            let dir = s.usize(2);
            loop {
                let mut nx = c;
                nx[dir] = e[dir];
                let key = (ax, l, sg, nx);
                if set.contains(&key) && !done.contains(&key) && s.chance(2, 3) {
                    done.insert(key);
                    e[dir] += 1;
                } else {
                    break;
                }
            }
        }
        let r = k.rect(ax, l, sg, c, e);
        let v: Vec<usize> = r
            .iter()
            .map(|&p| {
                *ids.entry(p).or_insert_with(|| {
                    out.pts.push(k.point(p));
                    out.pts.len() - 1
                })
            })
            .collect();
        let o = s.usize(2);
        out.tris.push([v[o], v[o + 1], v[(o + 2) % 4]]);
        out.tris.push([v[o], v[(o + 2) % 4], v[(o + 3) % 4]]);
    }
    out
}

pub fn gen_convex(s: &mut Src, span: i64) -> Option<(Solid, Vec<P3>, Vec<Vec<usize>>)> {
    let n = s.range(4, 8);
    let st = match s.weighted(&[4, 3, 2, 2]) {
        0 => Style::Int(2),
        1 => Style::Int(10),
        2 => Style::Grid(8, 3),
        _ => Style::Float(30, 0, 3),
    };
    let t = [0, 1, 2].map(|_| if span == 0 { 0.0 } else { s.irange(-span, span) as f64 });
    let mut p: Vec<P3> = vec![];
    for _ in 0..n {
        let q: P3 = point(s, st);
        // on the grid the library snaps to
        let q = [0, 1, 2].map(|i| ((q[i] + t[i]) * 1048576.0).round() / 1048576.0);
        if !p.contains(&q) {
            p.push(q);
        }
    }
    let f = hull_facets(&p);
    if f.len() < 4 {
        return None;
    }
    // not too thin for the sampling margin
    let pl = planes(&p, &f);
    let c = [0, 1, 2].map(|i| f.iter().flatten().map(|&v| p[v][i]).sum::<f64>() / f.iter().flatten().count() as f64);
    if pl.iter().any(|(n, d)| dot(n, &c) - d > -1e-3) {
        return None;
    }
    Some((Solid::Convex(pl), p, f))
}
/// a star-shaped polyhedron: the facets of a hull around the origin with the corners moved radially
pub fn gen_star(s: &mut Src, span: i64) -> Option<Soup> {
    let n = s.range(5, 18);
    let round = |x: f64| (x * 1024.0).round() / 1024.0;
    let style = s.usize(3);
    let mut p: Vec<P3> = vec![];
    for _ in 0..n {
        let q: P3 = match style {
            0 => point(s, Style::Int(2)),
            1 => point(s, Style::Int(9)),
            _ => point(s, Style::Grid(8, 0)),
        };
        let l = norm(&q);
        if l == 0.0 {
            continue;
        }
        let q = if s.chance(3, 4) { q.map(|x| round(x / l * 4.0)) } else { q.map(round) };
        if !p.contains(&q) {
            p.push(q);
        }
    }
    let f = hull_facets(&p);
    if f.len() < 4 {
        return None;
    }
    let mut m = fan(s, &p, &f);
    let wild = s.chance(1, 2);
    for v in &mut m.pts {
        let k = if wild { *s.pick(&[0.25, 0.5, 1.0, 2.0, 1.5]) } else { *s.pick(&[1.0, 1.0, 1.0, 0.5, 2.0, 0.75]) };
        *v = v.map(|x| round(x * k));
    }
    for t in &m.tris {
        let [a, b, c] = t.map(|v| m.pts[v]);
        if dot(&a, &cross(&b, &c)) < 0.02 * norm(&a) * norm(&b) * norm(&c) {
            return None;
        }
    }
    let t = [0, 1, 2].map(|_| if span == 0 { 0.0 } else { s.irange(-span, span) as f64 });
    for v in &mut m.pts {
        *v = [0, 1, 2].map(|i| v[i] + t[i]);
    }
    Some(m)
}
/// a ring of quadrilaterals with a hole through it
pub fn gen_torus(s: &mut Src, span: i64) -> Soup {
    let (m, k) = (s.range(3, 8), s.range(3, 5));
    let round = |x: f64| (x * 1024.0).round() / 1024.0;
    let mut o = Soup::default();
    let big = *s.pick(&[3.0, 4.0]);
    let (ph, qh) = (s.usize(8) as f64 * 0.1, s.usize(8) as f64 * 0.1);
    let tau = std::f64::consts::TAU;
    for i in 0..m {
        for j in 0..k {
            let (u, v) = (i as f64 / m as f64 * tau + ph, j as f64 / k as f64 * tau + qh);
            let r = big + v.cos();
            let mut p = [round(r * u.cos()), round(r * u.sin()), round(v.sin())];
            if s.chance(1, 4) {
                for x in &mut p {
                    *x += s.irange(-2, 2) as f64 / 32.0;
                }
            }
            o.pts.push(p);
        }
    }
    for i in 0..m {
        for j in 0..k {
            let id = |i: usize, j: usize| (i % m) * k + j % k;
            let q = [id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)];
            let e = s.usize(2);
            o.tris.push([q[e], q[e + 1], q[(e + 2) % 4]]);
            o.tris.push([q[e], q[(e + 2) % 4], q[(e + 3) % 4]]);
        }
    }
    let map = gen_map(s, span, false);
    for p in &mut o.pts {
        *p = map.apply(p);
    }
    if map.det() < 0.0 {
        for t in &mut o.tris {
            t.reverse();
        }
    }
    o
}
pub fn fan(s: &mut Src, p: &[P3], f: &[Vec<usize>]) -> Soup {
    let mut ids: BTreeMap<usize, usize> = BTreeMap::new();
    let mut out = Soup::default();
    for l in f {
        let k = s.usize(l.len());
        let v: Vec<usize> = (0..l.len())
            .map(|i| {
                let x = l[(i + k) % l.len()];
                *ids.entry(x).or_insert_with(|| {
                    out.pts.push(p[x]);
                    out.pts.len() - 1
                })
            })
            .collect();
        for i in 1..v.len() - 1 {
            out.tris.push([v[0], v[i], v[i + 1]]);
        }
    }
    out
}

// ---------------------------------------------------------------- checks of a result
pub struct Out {
    pub pts: Vec<P3>,
    pub tris: Vec<[usize; 3]>,
}
pub fn structure(w: &str, pts: &[f64], tris: &[usize]) -> Result<Out, Fail> {
    ensure!(pts.len() % 3 == 0 && tris.len() % 3 == 0, format!("{w}:length"), "{} coordinates, {} indices", pts.len(), tris.len());
    let o = Out { pts: pts.chunks(3).map(|p| [p[0], p[1], p[2]]).collect(), tris: tris.chunks(3).map(|t| [t[0], t[1], t[2]]).collect() };
    ensure!(pts.iter().all(|x| x.is_finite()), format!("{w}:finite"), "a coordinate is not finite");
    let mut used = vec![false; o.pts.len()];
    let mut bal: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for t in &o.tris {
        ensure!(t.iter().all(|&v| v < o.pts.len()), format!("{w}:index"), "triangle {t:?} with {} points", o.pts.len());
        ensure!(t[0] != t[1] && t[1] != t[2] && t[2] != t[0], format!("{w}:degenerate"), "triangle {t:?}");
        for i in 0..3 {
            used[t[i]] = true;
            let (a, b) = (t[i], t[(i + 1) % 3]);
            if a < b {
                *bal.entry((a, b)).or_default() += 1;
            } else {
                *bal.entry((b, a)).or_default() -= 1;
            }
        }
    }
    for (e, n) in bal {
        ensure!(n == 0, format!("{w}:watertight"), "edge {e:?} ({:?} - {:?}) has {} more triangles on one side than on the other", o.pts[e.0], o.pts[e.1], n.abs());
    }
    for (v, u) in used.iter().enumerate() {
        ensure!(u, format!("{w}:unused"), "output point {v} {:?} belongs to no triangle", o.pts[v]);
    }
    Ok(o)
}
/// winding number of the output around q; None when no generic ray was found
pub fn winding(o: &Out, q: &P3, dir: &mut u64) -> Option<i32> {
    let mut r = 1.0f64;
    for p in &o.pts {
        r = r.max(norm(&sub(p, q)));
    }
    'ray: for _ in 0..12 {
        let mut d = [0.0; 3];
        for x in &mut d {
            *dir = crate::src::mix(*dir);
            *x = (*dir >> 40) as f64 / (1u64 << 23) as f64 - 1.0;
        }
        let l = norm(&d);
        if l < 0.1 {
            continue;
        }
        let f = [0, 1, 2].map(|i| q[i] + d[i] / l * r * 2.0);
        let mut wn = 0;
        for t in &o.tris {
            let [a, b, c] = t.map(|v| &o.pts[v]);
            let s0 = o3(a, b, c, q);
            let s1 = o3(a, b, c, &f);
            if s0 == 0 {
                if s1 == 0 {
                    continue 'ray;
                }
                // q in the plane: fine unless q touches the triangle, which the margin excludes; the ray
                // leaves the plane at q, so it does not cross
                continue;
            }
            if s1 == 0 {
                continue 'ray;
            }
            if s0 == s1 {
                continue;
            }
            let x = o3(q, &f, a, b);
            let y = o3(q, &f, b, c);
            let z = o3(q, &f, c, a);
            if x == 0 || y == 0 || z == 0 {
                if (x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0) {
                    continue 'ray;
                }
                continue;
            }
            if x == y && y == z {
                // q below the outward side (positive) means the ray leaves
                wn += s0;
            }
        }
        return Some(wn);
    }
    None
}
pub fn volume(o: &Out) -> f64 {
    o.tris.iter().map(|t| dot(&o.pts[t[0]], &cross(&o.pts[t[1]], &o.pts[t[2]]))).sum::<f64>() / 6.0
}
pub fn area(p: &[P3], t: &[[usize; 3]]) -> f64 {
    t.iter().map(|t| norm(&cross(&sub(&p[t[1]], &p[t[0]]), &sub(&p[t[2]], &p[t[0]]))) / 2.0).sum()
}

pub struct Case {
    pub pts: Vec<P3>,
    pub tris: Vec<[usize; 3]>,
    pub shell: Vec<usize>,
    pub solids: Vec<Solid>,
}
impl Case {
    pub fn new() -> Case {
        Case { pts: vec![], tris: vec![], shell: vec![], solids: vec![] }
    }
    pub fn add(&mut self, m: &Soup, shell: usize) {
        let b = self.pts.len();
        self.pts.extend(&m.pts);
        for t in &m.tris {
            self.tris.push(t.map(|v| v + b));
            self.shell.push(shell);
        }
    }
    pub fn side(&self, q: &P3, m: f64) -> Option<bool> {
        let mut none = false;
        for s in &self.solids {
            match s.side(q, m) {
                Some(true) => return Some(true),
                None => none = true,
                _ => {}
            }
        }
        if none {
            None
        } else {
            Some(false)
        }
    }
    pub fn show(&self) -> String {
        format!("points {:?}\n  triangles {:?}\n  shells {:?}", self.pts, self.tris, self.shell)
    }
    pub fn bbox(&self) -> (P3, P3) {
        let mut lo = [f64::INFINITY; 3];
        let mut hi = [f64::NEG_INFINITY; 3];
        for p in &self.pts {
            for i in 0..3 {
                lo[i] = lo[i].min(p[i]);
                hi[i] = hi[i].max(p[i]);
            }
        }
        (lo, hi)
    }
    pub fn run(&self) -> Result<(Vec<f64>, Vec<usize>), Fail> {
        let t: Vec<usize> = self.tris.concat();
        guarded("make_mesh_for_triangles", || make_mesh_for_triangles(&self.pts.concat(), &t, &self.shell))
    }
    /// reorder everything that should not matter
    pub fn scramble(&mut self, s: &mut Src) {
        let mut p: Vec<usize> = (0..self.pts.len()).collect();
        s.shuffle(&mut p);
        let mut inv = vec![0; p.len()];
        for (i, &x) in p.iter().enumerate() {
            inv[x] = i;
        }
        self.pts = p.iter().map(|&i| self.pts[i]).collect();
        let mut t: Vec<usize> = (0..self.tris.len()).collect();
        s.shuffle(&mut t);
        self.shell = t.iter().map(|&i| self.shell[i]).collect();
        self.tris = t
            .iter()
            .map(|&i| {
                let k = s.usize(3);
                let x = self.tris[i].map(|v| inv[v]);
                [x[k], x[(k + 1) % 3], x[(k + 2) % 3]]
            })
            .collect();
    }
}

/// points to compare the membership at: anywhere, and close to the input faces on either side
pub fn samples(s: &mut Src, c: &Case, n: usize) -> Vec<P3> {
    let (lo, hi) = c.bbox();
    let ext = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, f64::max).max(1e-3);
    let mut v = vec![];
    for i in 0..n {
        let u = |s: &mut Src| s.below(1 << 20) as f64 / (1u64 << 20) as f64;
        if i % 3 == 0 {
            v.push([0, 1, 2].map(|i| lo[i] - 0.1 * ext + u(s) * (hi[i] - lo[i] + 0.2 * ext)));
        } else {
            let t = *s.pick(&c.tris);
            let [a, b, d] = t.map(|v| &c.pts[v]);
            let (x, y, z) = (u(s) + 0.02, u(s) + 0.02, u(s) + 0.02);
            let sum = x + y + z;
            let nn = cross(&sub(b, a), &sub(d, a));
            let k = norm(&nn);
            if k == 0.0 {
                continue;
            }
            let h = *s.pick(&[1e-3, -1e-3, 0.05, -0.05, 1e-4, -1e-4]) * ext;
            v.push([0, 1, 2].map(|i| (x * a[i] + y * b[i] + z * d[i]) / sum + nn[i] / k * h));
        }
    }
    v
}

/// the output encloses exactly the solid described by `side`
/// Does the segment meet an output triangle other than `t`, away from `t` itself?
fn other_crossing(o: &Out, t: &[usize; 3], p: &P3, q: &P3) -> bool {
    let d = sub(q, p);
    o.tris.iter().any(|u| {
        if u == t {
            return false;
        }
        let [a, b, c] = u.map(|v| &o.pts[v]);
        let (e1, e2) = (sub(b, a), sub(c, a));
        let n = cross(&e1, &e2);
        let den = dot(&n, &d);
        if den.abs() <= 1e-9 * norm(&n) * norm(&d) {
            return false;
        }
        let s = dot(&n, &sub(a, p)) / den;
        // a second layer in the same plane is no excuse
        if !(-0.01..=1.01).contains(&s) || ((s - 0.5).abs() < 1e-3 && den.abs() > (1.0 - 1e-6) * norm(&n) * norm(&d)) {
            return false;
        }
        let x = [0, 1, 2].map(|i| p[i] + s * d[i]);
        let nn = dot(&n, &n);
        let u0 = dot(&n, &cross(&sub(b, &x), &sub(c, &x))) / nn;
        let u1 = dot(&n, &cross(&sub(c, &x), &sub(a, &x))) / nn;
        let u2 = dot(&n, &cross(&sub(a, &x), &sub(b, &x))) / nn;
        u0 > -0.01 && u1 > -0.01 && u2 > -0.01
    })
}

pub fn same_solid(w: &str, s: &mut Src, c: &Case, o: &Out, n: usize) -> Result<usize, Fail> {
    let (lo, hi) = c.bbox();
    let ext = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, f64::max).max(1e-3);
    let m = 2e-6f64.max(ext * 1e-9);
    let mut dir = s.bits(60);
    let mut tested = 0;
    for q in samples(s, c, n) {
        let Some(want) = c.side(&q, m) else { continue };
        let Some(wn) = winding(o, &q, &mut dir) else { continue };
        tested += 1;
        ensure!(wn == want as i32, format!("{w}:solid"), "the result winds {wn} times around {q:?}, which is {} the solid", if want { "inside" } else { "outside" });
    }
    // every output triangle separates inside from outside
    for t in &o.tris {
        let [a, b, d] = t.map(|v| &o.pts[v]);
        let nn = cross(&sub(b, a), &sub(d, a));
        let k = norm(&nn);
        if k < 1e-6 * ext * ext {
            continue;
        }
        // stay inside the triangle by more than the offset
        let per = norm(&sub(b, a)) + norm(&sub(d, b)) + norm(&sub(a, d));
        let inr = k / per;
        let h = 20.0 * m;
        if inr < 4.0 * h {
            continue;
        }
        let x = [norm(&sub(d, b)), norm(&sub(a, d)), norm(&sub(b, a))];
        let ctr = [0, 1, 2].map(|i| (a[i] * x[0] + b[i] * x[1] + d[i] * x[2]) / per);
        let qi = [0, 1, 2].map(|i| ctr[i] - nn[i] / k * h);
        let qo = [0, 1, 2].map(|i| ctr[i] + nn[i] / k * h);
        if let (Some(i), Some(e)) = (c.side(&qi, m), c.side(&qo, m)) {
            for (q, want) in [(&qi, i), (&qo, e)] {
                if let Some(wn) = winding(o, q, &mut dir) {
                    ensure!(wn == want as i32, format!("{w}:solid"), "the result winds {wn} times around {q:?}, which is {} the solid", if want { "inside" } else { "outside" });
                }
            }
            // a thin part of the solid may lie between the two points
            if (i && !e) || !other_crossing(o, t, &qi, &qo) {
                ensure!(i && !e, format!("{w}:face"), "output triangle {:?} {:?} {:?}: behind it is {}, before it is {}", a, b, d, if i { "inside" } else { "outside" }, if e { "inside" } else { "outside" });
            }
            tested += 1;
        }
    }
    Ok(tested)
}

// ---------------------------------------------------------------- R01
fn r01(s: &mut Src, c: &mut Ctx) -> R {
    let k = s.range(1, 12);
    let eps = *s.pick(&[1e-6, 1e-6, 1e-3, 1e-9, 0.5, 1.0, 3.0, 0.0]);
    let st = match s.weighted(&[3, 2, 2]) {
        0 => Style::Int(2),
        1 => Style::Float(40, -2, 4),
        _ => Style::Grid(3, 1),
    };
    let mut p: Vec<P3> = vec![];
    let mut near = false;
    for _ in 0..k {
        if !p.is_empty() && s.chance(2, 5) {
            let mut q = *s.pick(&p);
            for x in &mut q {
                if s.bool() {
                    let d = *s.pick(&[0.1, 0.26, 0.01, 0.6, 1.0, 1e-4]);
                    *x += if s.bool() { d } else { -d } * if eps == 0.0 { 1e-9 } else { eps };
                    near = true;
                }
            }
            p.push(q);
        } else {
            p.push(point(s, st));
        }
    }
    let f = p.concat();
    c.describe(|| format!("eps {eps}: {p:?}"));
    let (q, map) = guarded("remove_duplicates", || remove_duplicates(&f, eps))?;
    let info = || format!("eps {eps}, points {p:?} gave {q:?} {map:?}");
    ensure!(q.len() % 3 == 0 && map.len() >= k, "R01:length", "{}", info());
    let m = q.len() / 3;
    let out = |i: usize| [q[3 * i], q[3 * i + 1], q[3 * i + 2]];
    let mut hit = vec![false; m];
    for i in 0..k {
        ensure!(map[i] < m, "R01:map", "point {i}: {}", info());
        hit[map[i]] = true;
        for a in 0..3 {
            ensure!((out(map[i])[a] - p[i][a]).abs() <= eps, "R01:moved", "point {i} moved by more than the tolerance: {}", info());
        }
        for j in 0..i {
            if p[i] == p[j] {
                ensure!(eps == 0.0 || map[i] == map[j], "R01:same", "equal points {i} and {j} are kept apart: {}", info());
            }
            if map[i] == map[j] {
                // merged points are within one grid cell of each other
                for a in 0..3 {
                    ensure!((p[i][a] - p[j][a]).abs() <= eps, "R01:merged", "points {i} and {j} are merged although farther apart than the tolerance: {}", info());
                }
            }
        }
    }
    if eps > 0.0 {
        for i in 0..m {
            ensure!(hit[i], "R01:extra", "output point {i} stands for no input point: {}", info());
            for j in 0..i {
                ensure!(out(i) != out(j), "R01:duplicate", "output points {i} and {j} coincide: {}", info());
            }
        }
    } else {
        ensure!(q == f, "R01:zero", "tolerance zero changed the points: {}", info());
    }
    c.nontrivial = near && m < k;
    Ok(())
}

// ---------------------------------------------------------------- P01, P02
pub fn gen_shell(s: &mut Src, c: &mut Ctx, case: &mut Case, shell: usize, span: i64) -> Option<f64> {
    let kind = s.weighted(&[12, 7, 2, 1]);
    if kind == 0 {
        let k = gen_cubes(s, span, false);
        let merge = s.chance(1, 3);
        let m = cubes_triangles(s, &k, merge);
        case.add(&m, shell);
        case.solids.push(k.solid());
        c.label(if merge { "cubes with T-junctions" } else { "cubes" });
        Some(k.volume())
    } else if kind == 1 {
        for _ in 0..6 {
            if let Some((sd, p, f)) = gen_convex(s, span) {
                let m = fan(s, &p, &f);
                case.add(&m, shell);
                case.solids.push(sd);
                c.label("convex");
                let o = Out { pts: m.pts.clone(), tris: m.tris.clone() };
                return Some(volume(&o));
            }
        }
        None
    } else {
        let m = if kind == 2 { (0..6).find_map(|_| gen_star(s, span))? } else { gen_torus(s, span) };
        case.add(&m, shell);
        c.label(if kind == 2 { "star" } else { "torus" });
        let o = Out { pts: m.pts, tris: m.tris };
        let v = volume(&o);
        case.solids.push(Solid::Mesh(o));
        Some(v)
    }
}
pub fn noise(s: &mut Src, case: &mut Case) {
    // repeated triangles, degenerate triangles, unused and repeated points change nothing
    let n = case.tris.len();
    if s.chance(1, 4) {
        for _ in 0..s.range(1, 3) {
            let i = s.usize(n);
            case.tris.push(case.tris[i]);
            case.shell.push(case.shell[i]);
        }
    }
    if s.chance(1, 4) {
        for _ in 0..s.range(1, 3) {
            let i = s.usize(n);
            let t = case.tris[i];
            case.tris.push([t[0], t[1], t[1]]);
            case.shell.push(case.shell[i]);
        }
    }
    if s.chance(1, 4) {
        // split off copies of points
        for _ in 0..s.range(1, 4) {
            let i = s.usize(n);
            let k = s.usize(3);
            case.pts.push(case.pts[case.tris[i][k]]);
            case.tris[i][k] = case.pts.len() - 1;
        }
    }
}
fn p01(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    let span = *s.pick(&[0, 3, 20, 300]);
    let Some(vol) = gen_shell(s, c, &mut case, 0, span) else { return Ok(()) };
    let ar = area(&case.pts, &case.tris);
    if s.chance(1, 3) {
        noise(s, &mut case);
        case.scramble(s);
        c.label("with repeated or degenerate triangles");
    } else if s.chance(1, 2) {
        case.scramble(s);
    }
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P01", &p, &t).map_err(info)?;
    let n = same_solid("P01", s, &case, &o, 12).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    let v = volume(&o);
    let a = area(&o.pts, &o.tris);
    ensure!((v - vol).abs() <= 1e-6 * vol.max(1.0), "P01:volume", "the volume is {v}, that of the input {vol}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    ensure!((a - ar).abs() <= 1e-6 * ar.max(1.0), "P01:area", "the area is {a}, that of the input {ar}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    c.nontrivial = n > 0 && case.tris.len() > 4;
    Ok(())
}
fn p02(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    let k = s.range(2, 3);
    let span = *s.pick(&[1, 3, 6]);
    let mut made = 0;
    for _ in 0..k {
        if made > 0 && s.chance(1, 12) {
            // a second copy of the first shell
            let n = case.shell.iter().filter(|x| **x == 0).count();
            for i in 0..n {
                case.tris.push(case.tris[i]);
                case.shell.push(made);
            }
            made += 1;
            c.label("identical shells");
            continue;
        }
        if gen_shell(s, c, &mut case, made, span).is_some() {
            made += 1;
        }
    }
    if made == 0 {
        return Ok(());
    }
    if s.bool() {
        noise(s, &mut case);
        case.scramble(s);
    }
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P02", &p, &t).map_err(info)?;
    let n = same_solid("P02", s, &case, &o, 16).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    c.nontrivial = n > 0 && made > 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R01",
            rule: "a case is one point list and tolerance; non-trivial when points closer than the tolerance were merged",
            quick: 4_000_000,
            thorough: 60_000_000,
            chunk: 20_000,
            timeout_s: 300,
            run: r01,
            fixed: &[],
            assumptions: &["at least one point", "with tolerance zero nothing is merged"],
        },
        Prop {
            id: "P01",
            rule: "a case is one closed solid as triangles; non-trivial when it has more than four triangles and the membership of sample points was decided",
            quick: 200_000,
            thorough: 400_000,
            chunk: 50,
            timeout_s: 600,
            run: p01,
            fixed: &[],
            assumptions: &["membership is compared at generated points farther than the snapping tolerance from every face"],
        },
        Prop {
            id: "P02",
            rule: "a case is two or three closed shells; non-trivial when more than one was generated and the membership of sample points was decided",
            quick: 45_000,
            thorough: 200_000,
            chunk: 25,
            timeout_s: 600,
            run: p02,
            fixed: &[],
            assumptions: &["membership is compared at generated points farther than the snapping tolerance from every face"],
        },
    ]
}
