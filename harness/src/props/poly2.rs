//! P03-P08: arbitrary triangle soups, polygon faces, open boxes, repeated application, stray triangles, self overlap.
use super::gen::*;
use super::poly::*;
use crate::driver::*;
use crate::ensure;
use crate::src::Src;
use gpf::polygonlization::make_polyhedral_mesh;
use std::collections::{BTreeMap, BTreeSet};

fn unit(s: &mut Src) -> f64 {
    s.below(1 << 20) as f64 / (1u64 << 20) as f64
}
/// points in the box and close to the given triangles
fn probes(s: &mut Src, pts: &[P3], tris: &[[usize; 3]], n: usize) -> Vec<P3> {
    let mut lo = [f64::MAX; 3];
    let mut hi = [f64::MIN; 3];
    for p in pts {
        for i in 0..3 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    let ext = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, f64::max).max(1e-3);
    let mut v = vec![];
    for i in 0..n {
        if i % 3 == 0 || tris.is_empty() {
            v.push([0, 1, 2].map(|i| lo[i] - 0.05 * ext + unit(s) * (hi[i] - lo[i] + 0.1 * ext)));
        } else {
            let t = *s.pick(tris);
            let [a, b, d] = t.map(|v| &pts[v]);
            let w = [unit(s) + 0.02, unit(s) + 0.02, unit(s) + 0.02];
            let sum = w[0] + w[1] + w[2];
            let nn = cross(&sub(b, a), &sub(d, a));
            let k = norm(&nn);
            if k == 0.0 {
                continue;
            }
            let h = *s.pick(&[1e-3, -1e-3, 0.05, -0.05, 1e-4, -1e-4]) * ext;
            v.push([0, 1, 2].map(|i| (w[0] * a[i] + w[1] * b[i] + w[2] * d[i]) / sum + nn[i] / k * h));
        }
    }
    v
}

// ---------------------------------------------------------------- P03: any triangles
fn gen_soup(s: &mut Src, c: &mut Ctx) -> Case {
    let mut case = Case::new();
    let n = s.range(3, 12);
    let kind = s.weighted(&[5, 3, 2, 1]);
    c.label(["small lattice", "lattice", "grid of eighths", "one plane"][kind]);
    for _ in 0..n {
        let p: P3 = match kind {
            0 => [0; 3].map(|_| s.irange(0, 2) as f64),
            1 => [0; 3].map(|_| s.irange(-6, 6) as f64),
            2 => [0; 3].map(|_| s.irange(-40, 40) as f64 / 8.0),
            _ => {
                let (x, y) = (s.irange(-3, 3) as f64, s.irange(-3, 3) as f64);
                [x, y, x - y]
            }
        };
        case.pts.push(p);
    }
    if n > 4 && s.chance(1, 3) {
        // points on lines and planes of others
        let q = {
            let k = s.range(2, 3);
            let b: Vec<P3> = (0..k).map(|_| *s.pick(&case.pts)).collect();
            near_affine(s, &b, false)
        }.map(|x| (x * 64.0).round() / 64.0);
        case.pts.push(q);
    }
    let shells = s.range(1, 3);
    let m = s.range(0, 14);
    for _ in 0..m {
        let t = [s.usize(case.pts.len()), s.usize(case.pts.len()), s.usize(case.pts.len())];
        case.tris.push(t);
        case.shell.push(s.usize(shells));
    }
    if s.chance(1, 3) {
        // something that encloses a volume
        let mut side = Case::new();
        gen_shell(s, c, &mut side, 0, 1);
        let b = case.pts.len();
        case.pts.extend(&side.pts);
        let skip = s.usize(4);
        for t in side.tris.iter().skip(skip) {
            case.tris.push(t.map(|v| v + b));
            case.shell.push(0);
        }
        c.label("with a (partly open) shell");
    }
    case
}
fn coplanar(p: &[P3]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                let nn = cross(&sub(&p[j], &p[i]), &sub(&p[k], &p[i]));
                if nn != [0.0; 3] {
                    return p.iter().all(|q| dot(&nn, &sub(q, &p[i])) == 0.0);
                }
            }
        }
    }
    true
}
/// winding number 0 or 1 everywhere off the surface, 0 outside the bounding box
fn zero_one(w: &str, s: &mut Src, o: &Out, extra: &[P3], tris: &[[usize; 3]], n: usize) -> Result<usize, Fail> {
    let mut dir = s.bits(60);
    let mut tested = 0;
    let mut all = extra.to_vec();
    all.extend(&o.pts);
    let mut qs = probes(s, &all, tris, n);
    qs.extend(probes(s, &o.pts, &o.tris, if o.tris.is_empty() { 0 } else { n }));
    let ext = all.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    for q in qs {
        if out_dist(o, &q) < 1e-9 * ext {
            continue;
        }
        let Some(wn) = winding(o, &q, &mut dir) else { continue };
        ensure!(wn == 0 || wn == 1, format!("{w}:winding"), "the result winds {wn} times around {q:?}");
        tested += 1;
    }
    Ok(tested)
}
fn p03(s: &mut Src, c: &mut Ctx) -> R {
    let case = gen_soup(s, c);
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P03", &p, &t).map_err(info)?;
    if coplanar(&case.pts) {
        ensure!(o.tris.is_empty(), "P03:flat", "triangles from points in one plane\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
        c.label("flat");
        return Ok(());
    }
    if o.tris.is_empty() {
        c.label("empty result");
    }
    // inside the box of the input points
    let (lo, hi) = case.bbox();
    for q in &o.pts {
        for i in 0..3 {
            let m = 1e-6 + 1e-9 * (hi[i] - lo[i]);
            ensure!(q[i] >= lo[i] - m && q[i] <= hi[i] + m, "P03:box", "output point {q:?} lies outside the box of the input\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
        }
    }
    zero_one("P03", s, &o, &case.pts, &case.tris, 12).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    c.nontrivial = !o.tris.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- P04: polygon faces
struct Faces {
    pts: Vec<P3>,
    edges: Vec<Vec<usize>>,
    axes: Vec<f64>,
    shell: Vec<usize>,
}
impl Faces {
    fn show(&self) -> String {
        format!("points {:?}\n  face edges {:?}\n  axes {:?}\n  shells {:?}", self.pts, self.edges, self.axes.chunks(9).collect::<Vec<_>>(), self.shell)
    }
}
fn ortho_map(s: &mut Src, span: i64) -> Map {
    let mut m = gen_map(s, span, true);
    let frames: [[P3; 3]; 5] = [
        [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
        [[0., 1., 0.], [-1., 0., 0.], [0., 0., 2.]],
        [[3., -4., 0.], [4., 3., 0.], [0., 0., 5.]],
        [[1., 2., 2.], [2., 1., -2.], [2., -2., 1.]],
        [[5., 0., -12.], [0., -13., 0.], [12., 0., 5.]],
    ];
    m.a = *s.pick(&frames);
    m
}
fn cubes_faces(s: &mut Src, k: &Cubes, out: &mut Faces, shell: usize) {
    let sq = k.squares();
    let n = sq.len();
    let idx: BTreeMap<(usize, usize, i32, [usize; 2]), usize> = sq.iter().enumerate().map(|(i, q)| (*q, i)).collect();
    let mut group: Vec<usize> = (0..n).collect();
    let join = s.weighted(&[1, 2, 4]); // never, sometimes, always
    for i in 0..n {
        let (ax, l, sg, cell) = sq[i];
        for d in 0..2 {
            let mut nx = cell;
            nx[d] += 1;
            if let Some(&j) = idx.get(&(ax, l, sg, nx)) {
                if join == 2 || (join == 1 && s.chance(2, 3)) {
                    let (a, b) = (group[i], group[j]);
                    for g in &mut group {
                        if *g == b {
                            *g = a;
                        }
                    }
                }
            }
        }
    }
    let mut ids: BTreeMap<Gp, usize> = BTreeMap::new();
    let simplify = s.chance(1, 3);
    let mut gs: Vec<usize> = group.clone();
    gs.sort();
    gs.dedup();
    s.shuffle(&mut gs);
    for g in gs {
        let mem: Vec<usize> = (0..n).filter(|&i| group[i] == g).collect();
        let (ax, l, sg, _) = sq[mem[0]];
        // boundary edges of the group: directed edges without their reverse
        let mut dir: BTreeSet<(Gp, Gp)> = BTreeSet::new();
        let mut corner: [P3; 3] = [[0.0; 3]; 3];
        for &i in &mem {
            let c = sq[i].3;
            let r = k.rect(ax, l, sg, c, [c[0] + 1, c[1] + 1]);
            corner = [k.point(r[0]), k.point(r[1]), k.point(r[3])];
            for v in 0..4 {
                let (a, b) = (r[v], r[(v + 1) % 4]);
                if !dir.remove(&(b, a)) {
                    dir.insert((a, b));
                }
            }
        }
        if simplify {
            // drop vertices in the middle of a straight run that no other edge of the face uses
            loop {
                let mut hit = None;
                for &(a, b) in &dir {
                    let nx: Vec<_> = dir.iter().filter(|e| e.0 == b).collect();
                    let pv = dir.iter().filter(|e| e.1 == b).count();
                    if nx.len() == 1 && pv == 1 {
                        let e = *nx[0];
                        let same = |p: &Gp, q: &Gp| (0..3).filter(|&i| p[i] != q[i]).collect::<Vec<_>>();
                        if same(&a, &b) == same(&b, &e.1) && e.1 != a {
                            hit = Some((a, b, e.1));
                            break;
                        }
                    }
                }
                let Some((a, b, e)) = hit else { break };
                dir.remove(&(a, b));
                dir.remove(&(b, e));
                dir.insert((a, e));
            }
        }
        let mut ed: Vec<(Gp, Gp)> = dir.into_iter().collect();
        s.shuffle(&mut ed);
        let mut v = vec![];
        for (a, b) in ed {
            for p in [a, b] {
                let id = *ids.entry(p).or_insert_with(|| {
                    out.pts.push(k.point(p));
                    out.pts.len() - 1
                });
                v.push(id);
            }
        }
        out.edges.push(v);
        let x = sub(&corner[1], &corner[0]);
        let y = sub(&corner[2], &corner[0]);
        out.axes.extend(corner[0].iter().chain(&x).chain(&y));
        out.shell.push(shell);
    }
}
fn convex_faces(s: &mut Src, case: &mut Case, out: &mut Faces, shell: usize, span: i64) -> bool {
    let n = s.range(4, 9);
    let b = *s.pick(&[1, 2, 6]);
    let t = [0, 1, 2].map(|_| s.irange(-span, span) as f64);
    let mut p: Vec<P3> = vec![];
    for _ in 0..n {
        let q: P3 = [0, 1, 2].map(|i| s.irange(-b, b) as f64 + t[i]);
        if !p.contains(&q) {
            p.push(q);
        }
    }
    let f = hull_facets(&p);
    if f.len() < 4 {
        return false;
    }
    case.solids.push(Solid::Convex(planes(&p, &f)));
    let base = out.pts.len();
    out.pts.extend(&p);
    for l in &f {
        let mut pairs: Vec<[usize; 2]> = (0..l.len()).map(|i| [l[i], l[(i + 1) % l.len()]]).collect();
        s.shuffle(&mut pairs);
        out.edges.push(pairs.concat().iter().map(|v| v + base).collect());
        let o = p[l[0]];
        let x = sub(&p[l[1]], &o);
        let nn = cross(&x, &sub(&p[l[2]], &o));
        let y = cross(&nn, &x);
        out.axes.extend(o.iter().chain(&x).chain(&y));
        out.shell.push(shell);
    }
    true
}
fn p04(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    let mut f = Faces { pts: vec![], edges: vec![], axes: vec![], shell: vec![] };
    let k = s.weighted(&[4, 1, 1]) + 1;
    let span = *s.pick(&[0, 1, 4, 30]);
    let mut many = false;
    for sh in 0..k {
        if s.chance(3, 5) {
            let mut q = gen_cubes(s, span, true);
            q.map = ortho_map(s, span);
            cubes_faces(s, &q, &mut f, sh);
            case.solids.push(q.solid());
            c.label("cubes");
        } else if !convex_faces(s, &mut case, &mut f, sh, span) {
            return Ok(());
        } else {
            c.label("convex");
        }
    }
    if f.edges.iter().any(|e| e.len() > 8) {
        c.label("face with more than four edges");
        many = true;
    }
    // the positions stand for the triangles when sampling
    case.pts = f.pts.clone();
    for e in &f.edges {
        let t = [e[0], e[1], *e.iter().find(|v| **v != e[0] && **v != e[1]).unwrap()];
        case.tris.push(t);
    }
    if s.chance(1, 3) {
        // separate copies of shared points
        for _ in 0..s.range(1, 5) {
            let i = s.usize(f.edges.len());
            let j = s.usize(f.edges[i].len());
            f.pts.push(f.pts[f.edges[i][j]]);
            f.edges[i][j] = f.pts.len() - 1;
        }
    }
    if s.chance(1, 4) {
        // edges between copies of one point
        for _ in 0..s.range(1, 3) {
            let i = s.usize(f.edges.len());
            let j = s.usize(f.edges[i].len());
            let v = f.edges[i][j];
            f.pts.push(f.pts[v]);
            let w = f.pts.len() - 1;
            f.edges[i][j] = w;
            if j % 2 == 0 {
                f.edges[i].extend([v, w]);
            } else {
                f.edges[i].extend([w, v]);
            }
        }
        c.label("edge of length zero");
    }
    if s.chance(1, 8) {
        // a face that has shrunk to a point
        let i = s.usize(f.edges.len() + 1);
        let p = *s.pick(&f.pts);
        let b = f.pts.len();
        f.pts.extend([p; 3]);
        f.edges.insert(i, vec![b, b + 1, b + 1, b + 2, b + 2, b]);
        f.axes.splice(9 * i..9 * i, p.iter().copied().chain([1.0, 0.0, 0.0, 0.0, 1.0, 0.0]));
        f.shell.insert(i, s.usize(k));
        c.label("face shrunk to a point");
    }
    let eps = *s.pick(&[1e-6, 1e-6, 1e-4, 1e-9, 0.03125]);
    c.describe(|| format!("eps {eps} {}", f.show()));
    let info = |e: Fail| Fail { msg: format!("{}\n  eps {eps} {}", e.msg, f.show()), ..e };
    let (p, t) = guarded("make_polyhedral_mesh", || make_polyhedral_mesh(&f.pts.concat(), &f.axes, &f.shell, &f.edges, eps)).map_err(info)?;
    let o = structure("P04", &p, &t).map_err(info)?;
    let n = same_solid("P04", s, &case, &o, 16).map_err(|e| info(Fail { msg: format!("{}\n  result {:?} {:?}", e.msg, o.pts, o.tris), ..e }))?;
    c.nontrivial = n > 0 && (many || k > 1);
    Ok(())
}

// ---------------------------------------------------------------- P05: an opening in a flat face is closed by the face
/// a convex solid on a flat base whose upper faces are all steep; (solid, corners, facets)
fn gen_spire(s: &mut Src) -> Option<(Vec<P3>, Vec<Vec<usize>>)> {
    let nb = s.range(3, 6);
    let fine = s.bool();
    let mut p: Vec<P3> = vec![];
    for _ in 0..nb {
        let q = [0, 1].map(|_| if fine { s.irange(-24, 24) as f64 / 8.0 } else { s.irange(-3, 3) as f64 });
        let q = [q[0], q[1], 0.0];
        if !p.contains(&q) {
            p.push(q);
        }
    }
    for _ in 0..s.range(1, 3) {
        let h = *s.pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 8.0]);
        let q = [0, 1].map(|_| if s.bool() { s.irange(-2, 2) as f64 } else { s.irange(-20, 20) as f64 / 8.0 });
        p.push([q[0], q[1], h]);
    }
    let f = hull_facets(&p);
    if f.len() < 4 {
        return None;
    }
    let pl = planes(&p, &f);
    // straight up from the base, a flow of density one meets the upper faces with less than a half
    if !pl.iter().any(|(n, _)| n[2] == -1.0) || pl.iter().any(|(n, _)| n[2] > 0.45) {
        return None;
    }
    let c = [0, 1, 2].map(|i| f.iter().flatten().map(|&v| p[v][i]).sum::<f64>() / f.iter().flatten().count() as f64);
    if pl.iter().any(|(n, d)| dot(n, &c) - d > -1e-2) {
        return None;
    }
    Some((p, f))
}
fn p05(s: &mut Src, c: &mut Ctx) -> R {
    if s.chance(2, 5) {
        let mut g = None;
        for _ in 0..6 {
            g = gen_spire(s);
            if g.is_some() {
                break;
            }
        }
        if let Some((p, f)) = g {
            c.label("base of a spire");
            let map = ortho_map(s, 5);
            let mut full = fan(s, &p, &f);
            // the base may be cut further, at points inside it
            for _ in 0..s.usize(3) {
                let i = s.usize(full.tris.len());
                let t = full.tris[i];
                if t.iter().all(|&v| full.pts[v][2] == 0.0) {
                    let [a, b, d] = t.map(|v| full.pts[v]);
                    let q = [0, 1].map(|k| ((a[k] + b[k] + d[k]) / 3.0 * 256.0).round() / 256.0);
                    let q = [q[0], q[1], 0.0];
                    let m = full.pts.len();
                    full.pts.push(q);
                    full.tris[i] = [t[0], t[1], m];
                    full.tris.push([t[1], t[2], m]);
                    full.tris.push([t[2], t[0], m]);
                    if [[a, b, q], [b, d, q], [d, a, q]].iter().any(|x| crate::geo::o2(&[x[0][0], x[0][1]], &[x[1][0], x[1][1]], &[x[2][0], x[2][1]]) >= 0) {
                        c.label("flat corner");
                        full.pts.pop();
                        full.tris.truncate(full.tris.len() - 2);
                        full.tris[i] = t;
                    }
                }
            }
            let lid: Vec<usize> = (0..full.tris.len()).filter(|&i| full.tris[i].iter().all(|&v| full.pts[v][2] == 0.0)).collect();
            let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
            for q in &full.pts {
                for i in 0..3 {
                    lo[i] = lo[i].min(q[i]);
                    hi[i] = hi[i].max(q[i]);
                }
            }
            let put = |s: &mut Src, full: &mut Soup, lo: P3, hi: P3| {
                let k = Cubes { g: [0, 1, 2].map(|i| vec![lo[i], hi[i]]), occ: vec![true], map: Map { a: [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], t: [0.0; 3] } };
                let m = cubes_triangles(s, &k, false);
                let b = full.pts.len();
                full.pts.extend(m.pts);
                full.tris.extend(m.tris.iter().map(|t| t.map(|v| v + b)));
            };
            // in the middle of a block, thick and wide below the base, it is a hole; its base is a face of the partition
            // for sure only when the triangles of the base have empty spheres
            let flat: Vec<P3> = full.pts.iter().filter(|q| q[2] == 0.0).copied().collect();
            let w = (0..2).map(|i| flat.iter().map(|q| q[i]).fold(f64::MIN, f64::max) - flat.iter().map(|q| q[i]).fold(f64::MAX, f64::min)).fold(0.0, f64::max);
            let (mut blo, mut bhi) = (lo, hi);
            for i in 0..2 {
                blo[i] -= w * *s.pick(&[1.0, 1.25, 1.5]);
                bhi[i] += w * *s.pick(&[1.0, 1.25, 1.5]);
            }
            blo[2] -= w * *s.pick(&[1.5, 2.0]);
            bhi[2] += *s.pick(&[0.5, 1.0, 4.0]);
            let sure = lid.iter().all(|&i| {
                let [a, b, d] = full.tris[i].map(|v| full.pts[v]);
                let (u, v) = (sub(&b, &a), sub(&d, &a));
                let den = 2.0 * (u[0] * v[1] - u[1] * v[0]);
                let (uu, vv) = (dot(&u, &u), dot(&v, &v));
                let o = [(v[1] * uu - u[1] * vv) / den, (u[0] * vv - v[0] * uu) / den, 0.0];
                let r = dot(&o, &o);
                let m = [a[0] + o[0], a[1] + o[1], 0.0];
                let far = |q: &P3| {
                    let h = sub(q, &m);
                    dot(&h, &h) > r * 1.001
                };
                full.pts.iter().all(|q| *q == a || *q == b || *q == d || far(q)) && (0..8).all(|k| far(&[0, 1, 2].map(|i| if k >> i & 1 == 0 { blo[i] } else { bhi[i] })))
            });
            if sure && s.chance(2, 3) {
                c.label("spire as a hole");
                full.tris.iter_mut().for_each(|t| t.reverse());
                put(s, &mut full, blo, bhi);
            }
            // perhaps other boxes beside it, above the plane of the base
            else { for i in 0..s.usize(3) {
                c.label("spire in company");
                let mut blo = [lo[0], lo[1], 0.0];
                let mut bhi = [0.0; 3];
                for j in 0..3 {
                    blo[j] += s.usize(4) as f64 * 0.5;
                    bhi[j] = blo[j] + *s.pick(&[0.5, 1.0, 3.0]);
                }
                // beside it, on one side or the other
                let d = if i == 0 { hi[0] + 0.5 + s.usize(3) as f64 - blo[0] } else { lo[0] - 0.5 - s.usize(3) as f64 - bhi[0] };
                blo[0] += d;
                bhi[0] += d;
                put(s, &mut full, blo, bhi);
            }
            }
            for q in &mut full.pts {
                *q = map.apply(q);
            }
            if map.det() < 0.0 {
                full.tris.iter_mut().for_each(|t| t.reverse());
            }
            let solid = Solid::Mesh(Out { pts: full.pts.clone(), tris: full.tris.clone() });
            return p05_open(s, c, full, solid, lid);
        }
    }
    // a box whose sides are within a factor of two, cut into a grid
    let base = *s.pick(&[1.0, 2.0, 4.0]);
    let g = [0; 3].map(|_| {
        let n = s.range(1, 3);
        let len = base * *s.pick(&[1.0, 1.25, 1.5, 2.0]);
        let mut v = vec![0.0, len];
        for _ in 1..n {
            let x = len * s.range(1, 15) as f64 / 16.0;
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    });
    let n = (g[0].len() - 1) * (g[1].len() - 1) * (g[2].len() - 1);
    let mut k = Cubes { g, occ: vec![true; n], map: ortho_map(s, 5) };
    // or a block with a notch or a boss in the middle of one side
    let relief = if s.chance(2, 3) { 0 } else { s.range(1, 2) };
    let ax = s.usize(3);
    let mut lvl = 0.0;
    if relief > 0 {
        let w = base * *s.pick(&[1.0, 1.25]);
        let d = base * *s.pick(&[0.125, 0.25, 0.375, 1.0, 1.5]);
        let depth = base * *s.pick(&[1.5, 2.0, 3.0]);
        for i in 0..3 {
            let v = if i == 0 { base } else { w };
            k.g[(ax + 1 + i) % 3] = if i < 2 { vec![0.0, base, base + v, 2.0 * base + v] } else { vec![0.0, depth, depth + d] };
        }
        if s.bool() {
            // towards the other end
            k.g[ax] = vec![0.0, d, depth + d];
        }
        let low = k.g[ax][1] != depth;
        let dm = k.dims();
        k.occ = vec![];
        for x in 0..dm[0] {
            for y in 0..dm[1] {
                for z in 0..dm[2] {
                    let c = [x, y, z];
                    let mid = c[(ax + 1) % 3] == 1 && c[(ax + 2) % 3] == 1;
                    k.occ.push((c[ax] == low as usize) || (mid == (relief == 2)));
                }
            }
        }
        lvl = if relief == 1 { k.g[ax][1] } else if low { 0.0 } else { depth + d };
        c.label(["", "floor of a notch", "top of a boss"][relief]);
    }
    let full = cubes_triangles(s, &k, false);
    // the triangles of one face of the box
    let end = s.bool();
    if relief == 0 {
        lvl = if end { *k.g[ax].last().unwrap() } else { 0.0 };
    }
    let on = |v: usize| {
        let q = k.map.back(&full.pts[v]);
        (q[ax] - lvl).abs() < 1e-9 && (relief == 0 || [1, 2].iter().all(|i| (q[(ax + i) % 3] - k.g[(ax + i) % 3][1]).abs() < 1e-9 || (q[(ax + i) % 3] - k.g[(ax + i) % 3][2]).abs() < 1e-9))
    };
    let lid: Vec<usize> = (0..full.tris.len()).filter(|&i| full.tris[i].iter().all(|&v| on(v))).collect();
    let solid = k.solid();
    p05_open(s, c, full, solid, lid)
}
/// take away some of the triangles `lid`, which must not matter
fn p05_open(s: &mut Src, c: &mut Ctx, full: Soup, solid: Solid, lid: Vec<usize>) -> R {
    let whole = Out { pts: full.pts.clone(), tris: full.tris.clone() };
    let vol = volume(&whole);
    let ar = area(&full.pts, &full.tris);
    let mut case = Case::new();
    case.add(&full, 0);
    case.solids.push(solid);
    let all = s.chance(1, 3);
    let mut drop: BTreeSet<usize> = lid.iter().copied().filter(|_| all || s.chance(1, 2)).collect();
    if drop.is_empty() {
        drop.insert(lid[0]);
    }
    c.label(if drop.len() == lid.len() { "whole face missing" } else { "part of a face missing" });
    let keep: Vec<usize> = (0..case.tris.len()).filter(|i| !drop.contains(i)).collect();
    case.tris = keep.iter().map(|&i| case.tris[i]).collect();
    case.shell = vec![0; keep.len()];
    case.scramble(s);
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P05", &p, &t).map_err(info)?;
    let m = same_solid("P05", s, &case, &o, 12).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    let (v, a) = (volume(&o), area(&o.pts, &o.tris));
    ensure!((v - vol).abs() <= 1e-6 * vol, "P05:volume", "the volume is {v}, that of the solid {vol}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    ensure!((a - ar).abs() <= 1e-6 * ar, "P05:area", "the area is {a}, that of the solid {ar}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    c.nontrivial = m > 0;
    Ok(())
}

// ---------------------------------------------------------------- P06: applying it to its own result
fn p06(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    if s.chance(2, 3) {
        case = gen_soup(s, c);
    } else {
        let span = *s.pick(&[1, 2]);
        gen_shell(s, c, &mut case, 0, span);
        gen_shell(s, c, &mut case, 1, span);
        c.label("two shells");
    }
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P06", &p, &t).map_err(info)?;
    if o.tris.is_empty() {
        return Ok(());
    }
    let mut next = Case { pts: o.pts.clone(), tris: o.tris.clone(), shell: vec![0; o.tris.len()], solids: vec![] };
    if s.bool() {
        next.scramble(s);
    }
    let (p2, t2) = next.run().map_err(|f| info(Fail { msg: format!("second pass: {}\n  first result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    let info = |f: Fail| Fail { msg: format!("{}\n  first result {:?} {:?}\n  second result {:?} {:?}\n  {}", f.msg, o.pts, o.tris, p2, t2, case.show()), ..f };
    let o2 = structure("P06:second", &p2, &t2).map_err(info)?;
    let mut dir = s.bits(60);
    let qs = probes(s, &o.pts, &o.tris, 24);
    let ext = o.pts.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    let mut n = 0;
    for q in qs {
        // the second pass snaps the points to its grid
        if out_dist(&o, &q) < 4e-6 + 1e-9 * ext {
            continue;
        }
        let (Some(a), Some(b)) = (winding(&o, &q, &mut dir), winding(&o2, &q, &mut dir)) else { continue };
        n += 1;
        ensure!(a == b, "P06:solid", "{}", info(Fail { sig: String::new(), msg: format!("the first result winds {a} times around {q:?}, the second {b} times") }).msg);
    }
    let (v, w) = (volume(&o), volume(&o2));
    let ar = area(&o.pts, &o.tris);
    ensure!((v - w).abs() <= 4e-6 * ar + 1e-9 * v + 1e-12 * ext.powi(3), "P06:volume", "{}", info(Fail { sig: String::new(), msg: format!("the first volume is {v}, the second {w}") }).msg);
    c.nontrivial = n > 0;
    Ok(())
}

// ---------------------------------------------------------------- P07: a stray triangle
fn p07(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    let Some(vol) = gen_shell(s, c, &mut case, 0, 2) else { return Ok(()) };
    let ar = area(&case.pts, &case.tris);
    // coplanar pieces facing the same way, strictly inside or outside
    let (lo, hi) = case.bbox();
    let ext = (0..3).map(|i| hi[i] - lo[i]).fold(0.0, f64::max);
    let grid = |x: f64| (x * 64.0).round() / 64.0;
    let mut stray = None;
    let want_inside = s.bool();
    for _ in 0..12 {
        let p = if want_inside {
            // small and around a point of the solid
            let q = [0, 1, 2].map(|i| lo[i] + unit(s) * (hi[i] - lo[i]));
            if case.side(&q, 1e-2) != Some(true) {
                continue;
            }
            let r = *s.pick(&[0.1, 0.25, 0.5]) * ext;
            [0; 3].map(|_| [0, 1, 2].map(|i| grid(q[i] + (unit(s) - 0.5) * r)))
        } else {
            [0; 3].map(|_| [0, 1, 2].map(|i| grid(lo[i] - 0.5 * ext + unit(s) * (hi[i] - lo[i] + ext))))
        };
        let n = cross(&sub(&p[1], &p[0]), &sub(&p[2], &p[0]));
        if norm(&n) < 1e-2 {
            continue;
        }
        // clear of the surface: no sample of the triangle changes sides and it is farther from every face than its spread allows
        let mut ok = true;
        let first = case.side(&p[0], 1e-3);
        let m = 12;
        'g: for i in 0..=m {
            for j in 0..=m - i {
                let w = [i as f64 / m as f64, j as f64 / m as f64, (m - i - j) as f64 / m as f64];
                let q = [0, 1, 2].map(|k| w[0] * p[0][k] + w[1] * p[1][k] + w[2] * p[2][k]);
                if first.is_none() || case.side(&q, 1e-3) != first {
                    ok = false;
                    break 'g;
                }
            }
        }
        if !ok || case.tris.iter().any(|t| tri_tri(&p, &t.map(|v| case.pts[v]))) {
            continue;
        }
        stray = Some((p, first == Some(true)));
        break;
    }
    let Some((p, inside)) = stray else { return Ok(()) };
    c.label(if inside { "stray triangle inside" } else { "stray triangle outside" });
    let b = case.pts.len();
    case.pts.extend(&p);
    case.tris.push([b, b + 1, b + 2]);
    case.shell.push(0);
    if s.bool() {
        case.scramble(s);
    }
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (q, t) = case.run().map_err(info)?;
    let o = structure("P07", &q, &t).map_err(info)?;
    let n = same_solid("P07", s, &case, &o, 12).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    let (v, a) = (volume(&o), area(&o.pts, &o.tris));
    ensure!((v - vol).abs() <= 1e-6 * vol.max(1.0), "P07:volume", "the volume is {v}, that of the solid {vol}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    ensure!((a - ar).abs() <= 1e-6 * ar.max(1.0), "P07:area", "the area is {a}, that of the solid {ar}\n  {}\n  result {:?} {:?}", case.show(), o.pts, o.tris);
    c.nontrivial = n > 0;
    Ok(())
}
/// do two triangles (given by their corners) meet; conservative: an edge of one meets the other, or touches
fn tri_tri(a: &[P3; 3], b: &[P3; 3]) -> bool {
    let edge = |p: &P3, q: &P3, t: &[P3; 3]| {
        let o = |x: &P3, y: &P3, z: &P3, w: &P3| crate::geo::o3(x, y, z, w);
        let (u, v) = (o(&t[0], &t[1], &t[2], p), o(&t[0], &t[1], &t[2], q));
        if u * v > 0 {
            return false;
        }
        if u == 0 && v == 0 {
            return true; // coplanar: be careful
        }
        let (x, y, z) = (o(p, q, &t[0], &t[1]), o(p, q, &t[1], &t[2]), o(p, q, &t[2], &t[0]));
        (x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0)
    };
    (0..3).any(|i| edge(&a[i], &a[(i + 1) % 3], b) || edge(&b[i], &b[(i + 1) % 3], a))
}

// ---------------------------------------------------------------- P08: two convex parts that overlap in one shell
fn p08(s: &mut Src, c: &mut Ctx) -> R {
    let mut case = Case::new();
    let span = *s.pick(&[1, 2, 3]);
    for _ in 0..2 {
        if s.chance(1, 3) {
            let mut k = gen_cubes(s, span, false);
            for o in &mut k.occ {
                *o = true;
            }
            let m = cubes_triangles(s, &k, false);
            case.add(&m, 0);
            case.solids.push(k.solid());
            c.label("box");
        } else {
            let Some((sd, p, f)) = gen_convex(s, span) else { return Ok(()) };
            let m = fan(s, &p, &f);
            case.add(&m, 0);
            case.solids.push(sd);
            c.label("convex");
        }
    }
    if s.bool() {
        case.scramble(s);
    }
    c.describe(|| case.show());
    let info = |f: Fail| Fail { msg: format!("{}\n  {}", f.msg, case.show()), ..f };
    let (p, t) = case.run().map_err(info)?;
    let o = structure("P08", &p, &t).map_err(info)?;
    let n = same_solid("P08", s, &case, &o, 16).map_err(|f| info(Fail { msg: format!("{}\n  result {:?} {:?}", f.msg, o.pts, o.tris), ..f }))?;
    c.nontrivial = n > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let p = |id, rule, quick, run, assumptions| Prop { id, rule, quick, thorough: quick * 12, chunk: 50, timeout_s: 600, run, fixed: &[], assumptions };
    vec![
        p("P03", "a case is a set of arbitrary triangles in one to three shells; non-trivial when the result is not empty", 80_000, p03, &["every triangle belongs to a shell; shells are numbered from zero"]),
        p("P04", "a case is one to three solids given as polygon faces with edge lists and axes; non-trivial when a face has more than four edges or there are several shells", 80_000, p04, &["the axes are orthogonal, x cross y points outward, and the projection is exact in floating point"]),
        p("P05", "a case is a box, its sides within a factor of two, or a block with a notch or boss, or a spire, with an opening in one face; non-trivial when the membership of sample points was decided", 60_000, p05, &["the flat lid is the cheapest closure for these proportions"]),
        p("P06", "a case is one input whose result is fed back; non-trivial when the first result is not empty and sample points were compared", 50_000, p06, &["membership is compared farther than the snapping tolerance from the first result"]),
        p("P07", "a case is a closed solid with one stray triangle clear of its surface; non-trivial when the membership of sample points was decided", 100_000, p07, &["the stray triangle does not touch the surface of the solid"]),
        p("P08", "a case is two convex solids in one shell; non-trivial when the membership of sample points was decided", 60_000, p08, &["with two convex parts the union has the least cost"]),
    ]
}
