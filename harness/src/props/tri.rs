//! T01-T04: planar triangulation.
use super::gen::*;
use crate::bigint::*;
use crate::driver::*;
use crate::ensure;
use crate::geo::*;
use crate::src::Src;
use bumpalo::Bump;
use gpf::triangle::{triangulate, triangulate_polygon, triangulate_polygon_soup};
use std::collections::{BTreeSet, HashMap, HashSet};

type P2 = [f64; 2];

pub fn dedup<const N: usize>(v: &mut Vec<[f64; N]>) {
    let mut seen: BTreeSet<[u64; N]> = BTreeSet::new();
    v.retain(|p| seen.insert(p.map(|x| (x + 0.0).to_bits())));
}

/// strict convex hull corners, counter-clockwise (monotone chain); fewer than 3 when all collinear
fn hull(pts: &[P2]) -> Vec<usize> {
    let mut id: Vec<usize> = (0..pts.len()).collect();
    id.sort_by(|&i, &j| pts[i].partial_cmp(&pts[j]).unwrap());
    let mut h: Vec<usize> = vec![];
    if pts.len() < 3 {
        return id;
    }
    for pass in 0..2 {
        let base = h.len();
        let it: Box<dyn Iterator<Item = &usize>> = if pass == 0 { Box::new(id.iter()) } else { Box::new(id.iter().rev()) };
        for &i in it {
            while h.len() >= base + 2 && o2(&pts[h[h.len() - 2]], &pts[h[h.len() - 1]], &pts[i]) <= 0 {
                h.pop();
            }
            h.push(i);
        }
        h.pop();
    }
    h
}
/// q strictly between a and b on their segment
fn between(a: &P2, b: &P2, q: &P2) -> bool {
    o2(a, b, q) == 0 && {
        let k = if a[0] != b[0] { 0 } else { 1 };
        (a[k] < q[k] && q[k] < b[k]) || (b[k] < q[k] && q[k] < a[k])
    }
}
/// split the directed edge (a, b) at the points lying on it
fn split(pts: &[P2], a: usize, b: usize) -> Vec<[usize; 2]> {
    let mut on: Vec<usize> = (0..pts.len()).filter(|&i| i != a && i != b && between(&pts[a], &pts[b], &pts[i])).collect();
    on.sort_by(|&i, &j| pts[i].partial_cmp(&pts[j]).unwrap());
    if pts[a] > pts[b] {
        on.reverse();
    }
    let mut r = vec![];
    let mut last = a;
    for i in on {
        r.push([last, i]);
        last = i;
    }
    r.push([last, b]);
    r
}

/// Is `tris` the (constrained) Delaunay triangulation of the region to the left of `boundary`?
/// `boundary` lists the directed edges of the region, already split at every input point.
fn check_triangulation(what: &str, pts: &[P2], boundary: &[[usize; 2]], tris: &[usize]) -> R {
    let n = pts.len();
    ensure!(tris.len() % 3 == 0, format!("{what}:length"), "{} indices returned", tris.len());
    let mut edge: HashMap<[usize; 2], usize> = HashMap::new();
    let mut used = vec![false; n];
    for t in tris.chunks(3) {
        for &v in t {
            ensure!(v < n, format!("{what}:index"), "index {v} out of range in {t:?}");
            used[v] = true;
        }
        ensure!(o2(&pts[t[0]], &pts[t[1]], &pts[t[2]]) > 0, format!("{what}:ccw"), "triangle {t:?} is not counter-clockwise");
        for k in 0..3 {
            let e = [t[k], t[(k + 1) % 3]];
            ensure!(edge.insert(e, t[(k + 2) % 3]).is_none(), format!("{what}:edge-twice"), "directed edge {e:?} belongs to two triangles");
        }
    }
    let bset: HashSet<[usize; 2]> = boundary.iter().copied().collect();
    for b in boundary {
        ensure!(edge.contains_key(b), format!("{what}:missing-edge"), "boundary edge {b:?} is not an edge of the triangulation");
    }
    for (e, &apex) in &edge {
        match edge.get(&[e[1], e[0]]) {
            None => ensure!(bset.contains(e), format!("{what}:open-edge"), "edge {e:?} has one triangle but is not on the boundary of the region"),
            Some(&opp) => {
                ensure!(!bset.contains(e), format!("{what}:spill"), "triangles on both sides of the boundary edge {e:?}");
                if e[0] < e[1] {
                    ensure!(
                        ic(&pts[e[0]], &pts[e[1]], &pts[apex], &pts[opp]) <= 0,
                        format!("{what}:delaunay"),
                        "vertex {opp} lies inside the circle through {e:?} and {apex}"
                    );
                }
            }
        }
    }
    // boundary matches and every triangle is positively oriented: a tiling of the region; look for skipped points
    for i in 0..n {
        if !used[i] {
            for t in tris.chunks(3) {
                let inside = (0..3).all(|k| o2(&pts[t[k]], &pts[t[(k + 1) % 3]], &pts[i]) >= 0);
                ensure!(!inside, format!("{what}:skipped"), "point {i} is covered by triangle {t:?} but is not a vertex");
            }
        }
    }
    // total area as a second opinion (exact)
    let all: Vec<&[f64]> = pts.iter().map(|p| &p[..]).collect();
    let e = scale_exp(&all);
    let q: Vec<V2> = pts.iter().map(|p| v2(p, e)).collect();
    let cr = |a: usize, b: usize| q[a][0].mul(&q[b][1]).sub(&q[a][1].mul(&q[b][0]));
    let mut s = Big::zero();
    for b in boundary {
        s = s.sub(&cr(b[0], b[1]));
    }
    for t in tris.chunks(3) {
        s = s.add(&orient2d_big(&q[t[0]], &q[t[1]], &q[t[2]]));
    }
    ensure!(s.is_zero(), format!("{what}:area"), "triangle areas do not add up to the area of the region");
    Ok(())
}

fn gen_points(s: &mut Src, big: bool) -> Vec<P2> {
    let n = match s.weighted(if big { &[2, 4, 4, 3] } else { &[8, 6, 2, 0] }) {
        0 => s.range(0, 8),
        1 => s.range(4, 20),
        2 => s.range(10, 70),
        _ => s.range(50, 400),
    };
    let st = match s.weighted(&[4, 2, 2, 2, 1]) {
        0 => Style::Int(s.range(1, 8) as i64),
        1 => Style::Int(1 << s.range(4, 24)),
        2 => Style::Float(53, 0, 1),
        3 => Style::Float(53, -8, 8),
        _ => Style::Cluster(s.irange(-100, 100), s.range(20, 44) as u32),
    };
    let mut v: Vec<P2> = match s.weighted(&[5, 4, 2, 2, 2, 2, 2]) {
        0 => (0..n).map(|_| point(s, st)).collect(),
        1 => config(s, n, st, s_bool(n)),
        2 => {
            // full grid patch
            let w = s.range(1, 8);
            let h = n / w;
            (0..w * h).map(|i| [(i % w) as f64, (i / w) as f64]).collect()
        }
        3 => {
            // one or two lines, horizontal / vertical / slanted
            let a: P2 = point(s, Style::Int(4));
            let d: P2 = point(s, Style::Int(3));
            let b: P2 = point(s, Style::Int(4));
            let f: P2 = point(s, Style::Int(3));
            let two = s.bool();
            (0..n)
                .map(|i| {
                    let t = s.irange(-20, 20) as f64;
                    if two && i % 2 == 0 {
                        [b[0] + f[0] * t, b[1] + f[1] * t]
                    } else {
                        [a[0] + d[0] * t, a[1] + d[1] * t]
                    }
                })
                .collect()
        }
        4 => {
            // points of a circle with integer coordinates (radius^2 with many representations)
            let r2 = *s.pick(&[25i64, 50, 65, 325, 1105, 5525]);
            let mut c = vec![];
            let m = (r2 as f64).sqrt() as i64 + 1;
            for x in -m..=m {
                for y in -m..=m {
                    if x * x + y * y == r2 {
                        c.push([x as f64, y as f64]);
                    }
                }
            }
            s.shuffle(&mut c);
            c.truncate(n);
            if s.bool() {
                let p = point(s, Style::Int(5));
                c.push(p);
            }
            if !c.is_empty() && s.chance(1, 4) {
                let i = s.usize(c.len());
                c[i][0] = nudge(s, c[i][0]);
            }
            c
        }
        5 => {
            // clusters
            let k = s.range(1, 4);
            let cs: Vec<P2> = (0..k).map(|_| point(s, Style::Int(50))).collect();
            (0..n)
                .map(|_| {
                    let c = *s.pick(&cs);
                    let d: P2 = point(s, Style::Int(3));
                    let sc = ldexp(1.0, -(s.range(0, 20) as i64));
                    [c[0] + d[0] * sc, c[1] + d[1] * sc]
                })
                .collect()
        }
        _ => {
            // nearly collinear
            let a: P2 = point(s, Style::Float(53, 0, 1));
            let d: P2 = point(s, Style::Float(53, 0, 1));
            (0..n)
                .map(|_| {
                    let t = s.irange(-8, 8) as f64 / 8.0;
                    [nudge(s, a[0] + d[0] * t), nudge(s, a[1] + d[1] * t)]
                })
                .collect()
        }
    };
    dedup(&mut v);
    s.shuffle(&mut v);
    v
}
fn s_bool(n: usize) -> bool {
    n % 2 == 0
}
fn flat<const N: usize>(v: &[[f64; N]]) -> Vec<f64> {
    v.iter().flatten().copied().collect()
}
fn show(pts: &[P2]) -> String {
    format!("{} points: {}", pts.len(), pts.iter().take(40).map(|p| fmt2(p)).collect::<Vec<_>>().join(" "))
}

fn t01(s: &mut Src, c: &mut Ctx) -> R {
    let th = c.thorough;
    let big = s.chance(1, if th { 4 } else { 12 });
    let pts = gen_points(s, big);
    if !in_range(&flat(&pts), -200, 200) {
        c.label("skipped");
        return Ok(());
    }
    c.describe(|| show(&pts));
    let bump = Bump::new();
    let f = flat(&pts);
    let tris: Vec<usize> = guarded("triangulate", || triangulate(&f, &[], &bump).iter().copied().collect())
        .map_err(|e| Fail { msg: format!("{} on {}", e.msg, show(&pts)), ..e })?;
    let h = hull(&pts);
    let res = if h.len() < 3 {
        c.label("all collinear");
        if tris.is_empty() {
            Ok(())
        } else {
            fail("T01:collinear", format!("triangles {tris:?} for collinear points"))
        }
    } else {
        let mut b = vec![];
        for i in 0..h.len() {
            b.extend(split(&pts, h[i], h[(i + 1) % h.len()]));
        }
        if b.len() > h.len() {
            c.label("hull edge with points on it");
        }
        if b.len() < pts.len() {
            c.label("interior points");
            c.nontrivial = true;
        }
        if pts.len() > 50 {
            c.label("more than 50 points");
        }
        check_triangulation("T01", &pts, &b, &tris)
    };
    res.map_err(|e| Fail { msg: format!("{}\n  {}\n  triangles {tris:?}", e.msg, show(&pts)), ..e })
}

// ---------------------------------------------------------------- polygons with holes
/// A region given by directed boundary edges (interior on the left) on distinct vertices.
pub struct Region {
    pub pts: Vec<P2>,
    pub edges: Vec<[usize; 2]>,
    pub kind: &'static str,
}

fn cell_region(s: &mut Src) -> Region {
    let w = s.range(1, 7);
    let h = s.range(1, 7);
    let dens = s.range(3, 9) as u64;
    let mut cell = vec![vec![false; w]; h];
    let mut any = false;
    for r in &mut cell {
        for x in r.iter_mut() {
            *x = !s.chance(10 - dens, 10);
            any |= *x;
        }
    }
    if !any {
        cell[0][0] = true;
    }
    let get = |i: i64, j: i64| i >= 0 && j >= 0 && (i as usize) < h && (j as usize) < w && cell[i as usize][j as usize];
    let mut unit: Vec<[(i64, i64); 2]> = vec![];
    for i in 0..h as i64 {
        for j in 0..w as i64 {
            if get(i, j) {
                if !get(i - 1, j) {
                    unit.push([(j, i), (j + 1, i)]);
                }
                if !get(i, j + 1) {
                    unit.push([(j + 1, i), (j + 1, i + 1)]);
                }
                if !get(i + 1, j) {
                    unit.push([(j + 1, i + 1), (j, i + 1)]);
                }
                if !get(i, j - 1) {
                    unit.push([(j, i + 1), (j, i)]);
                }
            }
        }
    }
    // merge collinear runs with some probability (the merged segment may pass through other vertices)
    let merge = s.range(0, 2);
    let mut alive = vec![true; unit.len()];
    for i in 0..unit.len() {
        if !alive[i] || merge == 0 {
            continue;
        }
        loop {
            let [a, b] = unit[i];
            let d = ((b.0 - a.0).signum(), (b.1 - a.1).signum());
            let nx = (0..unit.len()).find(|&k| alive[k] && k != i && unit[k][0] == b && {
                let [p, q] = unit[k];
                ((q.0 - p.0).signum(), (q.1 - p.1).signum()) == d
            });
            match nx {
                Some(k) if merge == 2 || s.bool() => {
                    unit[i][1] = unit[k][1];
                    alive[k] = false;
                }
                _ => break,
            }
        }
    }
    let segs: Vec<[(i64, i64); 2]> = unit.into_iter().zip(alive).filter(|x| x.1).map(|x| x.0).collect();
    let mut id: HashMap<(i64, i64), usize> = HashMap::new();
    let mut keys: Vec<(i64, i64)> = vec![];
    let mut edges = vec![];
    for sg in segs {
        let mut e = [0; 2];
        for k in 0..2 {
            e[k] = *id.entry(sg[k]).or_insert_with(|| {
                keys.push(sg[k]);
                keys.len() - 1
            });
        }
        edges.push(e);
    }
    // non-uniform cell sizes, then an orientation-preserving integer map
    let mut xs = vec![0i64];
    for _ in 0..w {
        let st = if s.bool() { 1 } else { s.range(1, 40) as i64 };
        xs.push(xs.last().unwrap() + st);
    }
    let mut ys = vec![0i64];
    for _ in 0..h {
        let st = if s.bool() { 1 } else { s.range(1, 40) as i64 };
        ys.push(ys.last().unwrap() + st);
    }
    let (mut a, mut b, mut cc, mut d) = (1, 0, 0, 1);
    if s.bool() {
        for _ in 0..20 {
            let m = [s.irange(-3, 3), s.irange(-3, 3), s.irange(-3, 3), s.irange(-3, 3)];
            if m[0] * m[3] - m[1] * m[2] > 0 {
                (a, b, cc, d) = (m[0], m[1], m[2], m[3]);
                break;
            }
        }
    }
    let pts = keys
        .iter()
        .map(|&(x, y)| {
            let (x, y) = (xs[x as usize], ys[y as usize]);
            [(a * x + b * y) as f64, (cc * x + d * y) as f64]
        })
        .collect();
    Region { pts, edges, kind: "cells" }
}

fn star_region(s: &mut Src) -> Region {
    // vertices sorted by direction around the origin; one per direction
    let n = s.range(3, 24);
    let k = 1i64 << s.range(2, 12);
    let mut v: Vec<(i64, i64)> = (0..n)
        .map(|_| (s.irange(-k, k), s.irange(-k, k)))
        .filter(|&(x, y)| x != 0 || y != 0)
        .collect();
    let half = |p: &(i64, i64)| if p.1 > 0 || (p.1 == 0 && p.0 > 0) { 0 } else { 1 };
    v.sort_by(|a, b| half(a).cmp(&half(b)).then((b.0 * a.1 - b.1 * a.0).cmp(&0)).then(a.cmp(b)));
    v.dedup_by(|a, b| half(a) == half(b) && a.0 * b.1 - a.1 * b.0 == 0);
    // consecutive directions must turn by less than pi
    let ok = v.len() >= 3 && (0..v.len()).all(|i| {
        let (p, q) = (v[i], v[(i + 1) % v.len()]);
        p.0 * q.1 - p.1 * q.0 > 0
    });
    if !ok {
        v = vec![(3, 0), (0, 2), (-2, -1)];
    }
    let t = (s.irange(-50, 50), s.irange(-50, 50));
    let m = v.len();
    let mut pts: Vec<P2> = v.iter().map(|p| [(p.0 + t.0) as f64, (p.1 + t.1) as f64]).collect();
    let mut edges: Vec<[usize; 2]> = (0..m).map(|i| [i, (i + 1) % m]).collect();
    let mut kind = "star";
    if s.chance(1, 3) {
        // a scaled copy inside, traversed clockwise: an annulus (coordinates doubled to stay integral)
        kind = "star annulus";
        for p in &mut pts {
            p[0] = 2.0 * p[0];
            p[1] = 2.0 * p[1];
        }
        for p in &v {
            pts.push([(p.0 + 2 * t.0) as f64, (p.1 + 2 * t.1) as f64]);
        }
        edges.extend((0..m).map(|i| [m + (i + 1) % m, m + i]));
    }
    Region { pts, edges, kind }
}

/// exact winding number test is not needed for free points: only keep those off the boundary or on it
fn gen_region(s: &mut Src, extra: bool) -> Region {
    let mut r = if s.chance(2, 5) { star_region(s) } else { cell_region(s) };
    if extra && s.chance(2, 3) {
        let m = s.range(0, 12);
        let (lo, hi) = r.pts.iter().fold(([f64::MAX; 2], [f64::MIN; 2]), |(l, h), p| {
            ([l[0].min(p[0]), l[1].min(p[1])], [h[0].max(p[0]), h[1].max(p[1])])
        });
        for _ in 0..m {
            let mut p = [0.0; 2];
            for k in 0..2 {
                p[k] = s.irange(lo[k] as i64 - 1, hi[k] as i64 + 1) as f64;
            }
            if s.chance(1, 4) {
                // on a boundary edge
                let e = *s.pick(&r.edges);
                let (a, b) = (r.pts[e[0]], r.pts[e[1]]);
                p = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
            }
            if !r.pts.contains(&p) {
                r.pts.push(p);
            }
        }
    }
    // relabel the vertices, reorder the edges, scale by a power of two, optionally perturb by an exact shift
    let n = r.pts.len();
    let mut perm: Vec<usize> = (0..n).collect();
    s.shuffle(&mut perm);
    let mut pts = vec![[0.0; 2]; n];
    let sc = ldexp(1.0, s.irange(-12, 3));
    for i in 0..n {
        pts[perm[i]] = [r.pts[i][0] * sc, r.pts[i][1] * sc];
    }
    let mut edges: Vec<[usize; 2]> = r.edges.iter().map(|e| [perm[e[0]], perm[e[1]]]).collect();
    s.shuffle(&mut edges);
    Region { pts, edges, kind: r.kind }
}
fn boundary(r: &Region) -> Vec<[usize; 2]> {
    r.edges.iter().flat_map(|e| split(&r.pts, e[0], e[1])).collect()
}

/// a closed walk along a line: bounds nothing
fn flat_region(s: &mut Src) -> Region {
    let n = s.range(0, 6);
    let d: P2 = point(s, Style::Int(5));
    let o: P2 = point(s, Style::Int(9));
    let mut ts: Vec<[i64; 1]> = (0..n).map(|_| [s.irange(-9, 9)]).collect();
    ts.sort();
    ts.dedup();
    if d == [0.0, 0.0] {
        ts.truncate(1);
    }
    s.shuffle(&mut ts);
    let pts: Vec<P2> = ts.iter().map(|t| [o[0] + d[0] * t[0] as f64, o[1] + d[1] * t[0] as f64]).collect();
    let m = pts.len();
    let edges = if m < 2 { vec![] } else { (0..m).map(|i| [i, (i + 1) % m]).collect() };
    Region { pts, edges, kind: "collapsed" }
}

fn t02(s: &mut Src, c: &mut Ctx) -> R {
    if s.chance(1, 30) {
        let r = flat_region(s);
        c.describe(|| format!("{}: {} segments {:?}", r.kind, show(&r.pts), r.edges));
        c.label(r.kind);
        let bump = Bump::new();
        let f = flat(&r.pts);
        let seg: Vec<usize> = r.edges.iter().flatten().copied().collect();
        let tris: Vec<usize> = guarded("triangulate", || triangulate(&f, &seg, &bump).iter().copied().collect())
            .map_err(|e| Fail { msg: format!("{}\n  {}\n  segments {:?}", e.msg, show(&r.pts), r.edges), ..e })?;
        ensure!(tris.is_empty(), "T02:collapsed", "triangles {tris:?} from a collapsed polygon {} {:?}", show(&r.pts), r.edges);
        return Ok(());
    }
    let r = gen_region(s, true);
    c.describe(|| format!("{}: {} segments {:?}", r.kind, show(&r.pts), r.edges));
    let bump = Bump::new();
    let f = flat(&r.pts);
    let seg: Vec<usize> = r.edges.iter().flatten().copied().collect();
    let ctx = |e: Fail, tris: &[usize]| Fail { msg: format!("{}\n  {}\n  segments {:?}\n  triangles {tris:?}", e.msg, show(&r.pts), r.edges), ..e };
    let tris: Vec<usize> = guarded("triangulate", || triangulate(&f, &seg, &bump).iter().copied().collect()).map_err(|e| ctx(e, &[]))?;
    let b = boundary(&r);
    c.label(r.kind);
    if b.len() > r.edges.len() {
        c.label("segment through a vertex");
    }
    let h = hull(&r.pts);
    let hb: HashSet<[usize; 2]> = (0..h.len()).flat_map(|i| split(&r.pts, h[i], h[(i + 1) % h.len()])).collect();
    c.nontrivial = b.iter().any(|e| !hb.contains(e)) && r.edges.len() > 3;
    check_triangulation("T02", &r.pts, &b, &tris).map_err(|e| ctx(e, &tris))
}

/// frames whose projection of plane points is exact: integer vectors x, y with x.y = 0 are not required by the
/// projection, but orientation preservation is
fn frame(s: &mut Src) -> ([f64; 3], [f64; 3], [f64; 3]) {
    let frames: [([f64; 3], [f64; 3]); 8] = [
        ([1., 0., 0.], [0., 1., 0.]),
        ([0., 1., 0.], [0., 0., 1.]),
        ([0., 0., 1.], [1., 0., 0.]),
        ([0., 1., 0.], [1., 0., 0.]),
        ([1., 2., 2.], [2., 1., -2.]),
        ([2., -1., 2.], [2., 2., -1.]),
        ([1., 1., 0.], [1., -1., 4.]),
        ([3., 0., 4.], [0., 1., 0.]),
    ];
    let (x, y) = *s.pick(&frames);
    let o = [s.irange(-20, 20) as f64, s.irange(-20, 20) as f64, s.irange(-20, 20) as f64];
    (o, x, y)
}
fn lift(o: &[f64; 3], x: &[f64; 3], y: &[f64; 3], p: &P2) -> [f64; 3] {
    [0, 1, 2].map(|i| o[i] + x[i] * p[0] + y[i] * p[1])
}

/// A polygon embedded in space; `pts` gets the vertices appended, the returned edges refer to it.
struct Embedded {
    o: [f64; 3],
    x: [f64; 3],
    y: [f64; 3],
    edges: Vec<usize>,
    region: Region,
    /// index in the shared point list of each region vertex
    map: Vec<usize>,
}
fn embed(s: &mut Src, pool: &mut Vec<[f64; 3]>) -> Embedded {
    let region = if s.chance(1, 20) { flat_region(s) } else { gen_region(s, false) };
    let (o, x, y) = frame(s);
    let map: Vec<usize> = region
        .pts
        .iter()
        .map(|p| {
            pool.push(lift(&o, &x, &y, p));
            if s.chance(1, 6) {
                // an unrelated point between the vertices
                let q = point(s, Style::Int(20));
                pool.push(q);
                pool.len() - 2
            } else {
                pool.len() - 1
            }
        })
        .collect();
    let edges = region.edges.iter().flatten().map(|&i| map[i]).collect();
    // the frame's origin may be any point; scaled axes project the same orientation
    let sc = ldexp(1.0, s.irange(-3, 3));
    let o2 = if s.bool() { o } else { [o[0] + 1.0, o[1] - 2.0, o[2] + 0.5] };
    Embedded { o: o2, x: x.map(|v| v * sc), y: y.map(|v| v * sc), edges, region, map }
}
fn check_embedded(what: &str, e: &Embedded, tris: &[usize]) -> R {
    let back: HashMap<usize, usize> = e.map.iter().enumerate().map(|(i, &v)| (v, i)).collect();
    let mut t2 = vec![];
    for &v in tris {
        match back.get(&v) {
            Some(&i) => t2.push(i),
            None => return fail(&format!("{what}:vertex"), format!("vertex {v} does not belong to the polygon")),
        }
    }
    // the frames are orthogonal with equal or different lengths; positions for the Delaunay test are the projected ones
    let (xx, yy) = (e.x.iter().map(|v| v * v).sum::<f64>(), e.y.iter().map(|v| v * v).sum::<f64>());
    // lifted p = o + x p0 + y p1, projected = (x.x' p0, y.y' p1) up to translation
    let pts: Vec<P2> = e.region.pts.iter().map(|p| [p[0] * xx, p[1] * yy]).collect();
    if e.region.kind == "collapsed" {
        ensure!(tris.is_empty(), format!("{what}:collapsed"), "triangles from a collapsed polygon");
        return Ok(());
    }
    check_triangulation(what, &pts, &boundary(&e.region), &t2)
}
fn t03(s: &mut Src, c: &mut Ctx) -> R {
    let mut pool = vec![];
    for _ in 0..s.range(0, 3) {
        let q = point(s, Style::Int(20));
        pool.push(q);
    }
    let e = embed(s, &mut pool);
    c.describe(|| format!("{} in frame {:?} {:?}: {} edges {:?}", e.region.kind, e.x, e.y, show(&e.region.pts), e.edges));
    let f = flat(&pool);
    let bump = Bump::new();
    let ctx = |r: Fail, tris: &[usize]| Fail { msg: format!("{}\n  origin {:?} x {:?} y {:?}\n  points {pool:?}\n  edges {:?}\n  triangles {tris:?}", r.msg, e.o, e.x, e.y, e.edges), ..r };
    let tris: Vec<usize> = guarded("triangulate_polygon", || triangulate_polygon(&f, &e.edges, &e.o, &e.x, &e.y, &bump).iter().copied().collect()).map_err(|r| ctx(r, &[]))?;
    c.label(e.region.kind);
    c.nontrivial = e.region.edges.len() > 4;
    check_embedded("T03", &e, &tris).map_err(|r| ctx(r, &tris))
}

fn t04(s: &mut Src, c: &mut Ctx) -> R {
    let mut pool = vec![];
    let k = s.range(0, 6);
    let es: Vec<Embedded> = (0..k).map(|_| embed(s, &mut pool)).collect();
    let f = flat(&pool);
    let edges: Vec<Vec<usize>> = es.iter().map(|e| e.edges.clone()).collect();
    let axes: Vec<f64> = es.iter().flat_map(|e| e.o.iter().chain(&e.x).chain(&e.y).copied().collect::<Vec<_>>()).collect();
    c.describe(|| format!("{k} polygons with {:?} edges", edges.iter().map(|e| e.len() / 2).collect::<Vec<_>>()));
    let ctx = |r: Fail| Fail { msg: format!("{}\n  points {pool:?}\n  edges {edges:?}\n  axes {axes:?}", r.msg), ..r };
    let (tris, par) = guarded("triangulate_polygon_soup", || triangulate_polygon_soup(&f, &edges, &axes)).map_err(ctx)?;
    ensure!(par.len() * 3 == tris.len(), "T04:parents", "{} triangles, {} parents", tris.len() / 3, par.len());
    for (t, p) in par.iter().enumerate() {
        ensure!(*p < k, "T04:parent-index", "parent {p} of triangle {t}");
    }
    for (i, e) in es.iter().enumerate() {
        let mine: Vec<usize> = par.iter().enumerate().filter(|x| *x.1 == i).flat_map(|x| tris[x.0 * 3..x.0 * 3 + 3].to_vec()).collect();
        check_embedded("T04", e, &mine).map_err(|r| ctx(Fail { msg: format!("face {i}: {} (its triangles: {mine:?})", r.msg), ..r }))?;
    }
    c.nontrivial = k >= 2;
    c.label(&format!("{k} faces"));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T01",
            rule: "a case is one set of distinct points; non-trivial when the points are not all collinear and some lie inside the hull",
            quick: 1_200_000,
            thorough: 20_000_000,
            chunk: 1_000,
            timeout_s: 300,
            run: t01,
            fixed: &[],
            assumptions: &["points are distinct"],
        },
        Prop {
            id: "T02",
            rule: "a case is one polygonal region with holes, islands and extra points; non-trivial when some boundary edge is not on the convex hull",
            quick: 1_200_000,
            thorough: 20_000_000,
            chunk: 1_000,
            timeout_s: 300,
            run: t02,
            fixed: &[],
            assumptions: &["segments do not cross and bound a region consistently"],
        },
        Prop {
            id: "T03",
            rule: "a case is one planar polygonal region embedded in space; non-trivial when it has more than four edges",
            quick: 1_200_000,
            thorough: 20_000_000,
            chunk: 1_000,
            timeout_s: 300,
            run: t03,
            fixed: &[],
            assumptions: &["the axes are orthogonal and the projection is exact in floating point"],
        },
        Prop {
            id: "T04",
            rule: "a case is a list of planar polygonal regions over one point list; non-trivial with at least two faces",
            quick: 400_000,
            thorough: 8_000_000,
            chunk: 500,
            timeout_s: 300,
            run: t04,
            fixed: &[],
            assumptions: &["the axes are orthogonal and the projection is exact in floating point"],
        },
    ]
}
