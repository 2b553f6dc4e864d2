use super::gen::*;
use crate::driver::*;
use crate::ensure;
use crate::geo::{is, o3};
use crate::src::Src;
use bumpalo::Bump;
use gpf::triangle::{enext, eprev, tetrahedralize, TetMesh, TriFace};
use std::collections::{BTreeMap, BTreeSet};

fn pt(p: &[f64], i: usize) -> &[f64] {
    &p[3 * i..3 * i + 3]
}

/// distinct points that are not all coplanar
pub fn cloud(s: &mut Src, c: &mut Ctx, big: bool) -> Vec<f64> {
    let kind = s.weighted(&[5, 4, 3, 3, 2, 2, 1]);
    let mut n = match s.weighted(&[12, 12, 4, 1]) {
        0 => s.range(4, 9),
        1 => s.range(8, 24),
        2 => s.range(20, 70),
        _ => s.range(64, 220),
    };
    if !big {
        n = n.min(40);
    }
    let mut v: Vec<[f64; 3]> = vec![];
    match kind {
        0 => {
            // small lattice: many coplanar, collinear and cospherical subsets
            let k = s.range(1, 4) as i64;
            for _ in 0..n {
                v.push(point(s, Style::Int(k)));
            }
            c.label("lattice");
        }
        1 => {
            let st = style_limited(s);
            v = config::<3>(s, n, st, true);
            c.label("degenerate configuration");
        }
        2 => {
            // integer points on few spheres around one centre
            let k = s.range(2, 7) as i64;
            let mut base: [f64; 3] = point(s, Style::Int(k));
            let ctr: [f64; 3] = point(s, Style::Int(9));
            for _ in 0..n {
                if s.chance(1, 6) {
                    base = point(s, Style::Int(k));
                }
                s.shuffle(&mut base);
                for x in &mut base {
                    if s.bool() {
                        *x = -*x;
                    }
                }
                v.push([0, 1, 2].map(|i| base[i] + ctr[i]));
            }
            c.label("cospherical");
        }
        3 => {
            for _ in 0..n {
                v.push(point(s, Style::Float(53, 0, 1)));
            }
            c.label("random");
        }
        4 => {
            // points almost in a plane, with a few beside it
            let h = *s.pick(&[1.0, 1e-2, 1e-4]);
            for _ in 0..n {
                let mut p: [f64; 3] = point(s, Style::Int(4));
                p[2] = if s.chance(1, 4) { s.irange(-2, 2) as f64 * h } else { 0.0 };
                v.push(p);
            }
            c.label("flat");
        }
        5 => {
            // very different extents along the axes
            let sc: [f64; 3] = [0, 1, 2].map(|_| *s.pick(&[1.0, 64.0, 1024.0, 0.015625, 1048576.0]));
            for _ in 0..n {
                let p: [f64; 3] = point(s, Style::Int(5));
                v.push([0, 1, 2].map(|i| p[i] * sc[i]));
            }
            c.label("stretched");
        }
        _ => {
            // box corners subdivided
            let m = s.range(1, 3) as i64;
            let sc: [f64; 3] = point(s, Style::Float(53, 0, 3)).map(|x: f64| if x == 0.0 { 1.0 } else { x });
            for i in 0..=m {
                for j in 0..=m {
                    for k in 0..=m {
                        v.push([i as f64 * sc[0], j as f64 * sc[1], k as f64 * sc[2]]);
                    }
                }
            }
            c.label("box grid");
        }
    }
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for p in v {
        let q = p.map(|x| if x == 0.0 { 0.0 } else { x });
        if !in_range(&q, -80, 60) {
            continue;
        }
        if seen.insert(q.map(|x| x.to_bits())) {
            out.push(q);
        }
    }
    if s.chance(1, 3) {
        s.shuffle(&mut out);
    }
    out.concat()
}

/// exact: are all points in one plane?
fn coplanar(p: &[f64]) -> bool {
    let n = p.len() / 3;
    if n < 4 {
        return true;
    }
    let cross0 = |a: &[f64], b: &[f64], c: &[f64]| {
        use crate::geo::*;
        let e = scale_exp(&[a, b, c]);
        let (a, b, c) = (v3(a, e), v3(b, e), v3(c, e));
        is_zero3(&cross3(&sub3(&b, &a), &sub3(&c, &a)))
    };
    let a = pt(p, 0);
    let b = pt(p, 1);
    let Some(k) = (2..n).find(|&k| !cross0(a, b, pt(p, k))) else { return true };
    (0..n).all(|i| o3(a, b, pt(p, k), pt(p, i)) == 0)
}

fn show(p: &[f64]) -> String {
    if p.len() > 300 {
        return format!("{} points", p.len() / 3);
    }
    p.chunks(3).map(|q| format!("{:?}", q)).collect::<Vec<_>>().join(" ")
}

type Face = [usize; 3];
fn key(mut f: Face) -> Face {
    f.sort_unstable();
    f
}

/// structure that navigation relies on
fn check_adjacency(w: &str, m: &TetMesh, p: &[f64]) -> Result<BTreeMap<Face, Vec<usize>>, Fail> {
    let n = p.len() / 3;
    let mut faces: BTreeMap<Face, Vec<usize>> = BTreeMap::new();
    let mut all = BTreeSet::new();
    for (t, tet) in m.tets.iter().enumerate() {
        let mut d = tet.data;
        d.sort_unstable();
        ensure!(d.windows(2).all(|x| x[0] < x[1]) && d[3] <= n, format!("{w}:tet"), "tet {t} has vertices {:?}: points {}", tet.data, show(p));
        ensure!(all.insert(d), format!("{w}:tet"), "tet {d:?} occurs twice: points {}", show(p));
        ensure!((d[3] == n) == m.is_hull_tet(t), format!("{w}:ghost"), "is_hull_tet({t}) = {} for {:?}, {n} points", m.is_hull_tet(t), tet.data);
        for i in 0..4 {
            let mut f = [0; 3];
            let mut k = 0;
            for j in 0..4 {
                if j != i {
                    f[k] = tet.data[j];
                    k += 1;
                }
            }
            faces.entry(key(f)).or_default().push(t);
        }
    }
    for (f, ts) in &faces {
        ensure!(ts.len() == 2, format!("{w}:face"), "face {f:?} belongs to tets {ts:?} ({n} stands for the outside): points {}", show(p));
    }
    for (t, tet) in m.tets.iter().enumerate() {
        for i in 0..4 {
            let mut f = [0; 3];
            let mut k = 0;
            for j in 0..4 {
                if j != i {
                    f[k] = tet.data[j];
                    k += 1;
                }
            }
            let ts = &faces[&key(f)];
            let want = if ts[0] == t { ts[1] } else { ts[0] };
            ensure!(tet.nei[i].tet == want, format!("{w}:neighbour"), "tet {t} {:?}: neighbour opposite {} is {} rather than {want}: points {}", tet.data, tet.data[i], tet.nei[i].tet, show(p));
        }
    }
    Ok(faces)
}

fn t05(s: &mut Src, c: &mut Ctx) -> R {
    let p = if s.chance(1, 1200) && !c.thorough || c.thorough && s.chance(1, 800) { sphere(s, c) } else { cloud(s, c, true) };
    let n = p.len() / 3;
    c.describe(|| show(&p));
    if n < 4 {
        return Ok(());
    }
    if coplanar(&p) {
        if n > 64 {
            return Ok(());
        }
        // nothing to fill; it must say so and not crash
        c.label("coplanar");
        let m = guarded("tetrahedralize", || tetrahedralize(&p)).map_err(|e| Fail { msg: format!("{}\n  coplanar points {}", e.msg, show(&p)), ..e })?;
        ensure!(m.tets.is_empty(), "T05:flat", "coplanar points gave {} tets: {}", m.tets.len(), show(&p));
        return Ok(());
    }
    let m = guarded("tetrahedralize", || tetrahedralize(&p)).map_err(|e| Fail { msg: format!("{}\n  points {}", e.msg, show(&p)), ..e })?;
    let full = || if n <= 300 { show(&p) } else { format!("{n} points") };
    ensure!(!m.tets.is_empty(), "T05:empty", "no tets for points that are not coplanar: {}", full());
    let faces = check_adjacency("T05", &m, &p)?;
    let mut sign = 0;
    let mut used = vec![false; n];
    let mut degenerate = false;
    for (t, tet) in m.tets.iter().enumerate() {
        let d = tet.data;
        if m.is_hull_tet(t) {
            continue;
        }
        let o = o3(pt(&p, d[0]), pt(&p, d[1]), pt(&p, d[2]), pt(&p, d[3]));
        if sign == 0 {
            sign = o;
        }
        ensure!(o != 0 && o == sign, "T05:orientation", "tet {d:?} has orientation {o}, the others {sign}: {}", full());
        for v in d {
            used[v] = true;
        }
    }
    for v in 0..n {
        ensure!(used[v], "T05:lost-point", "point {v} is in no tet: {}", full());
        let t = m.p2t[v];
        ensure!(t < m.tets.len() && !m.is_hull_tet(t) && m.tets[t].data.contains(&v), "T05:p2t", "p2t[{v}] = {t}: {}", full());
    }
    let small = n <= 24;
    for (f, ts) in &faces {
        let other = |t: usize| *m.tets[t].data.iter().find(|x| !f.contains(x)).unwrap();
        let (g0, g1) = (m.is_hull_tet(ts[0]), m.is_hull_tet(ts[1]));
        if g0 && g1 {
            continue;
        }
        if !g0 && !g1 {
            let d = m.tets[ts[0]].data;
            let e = other(ts[1]);
            let k = is([pt(&p, d[0]), pt(&p, d[1]), pt(&p, d[2]), pt(&p, d[3]), pt(&p, e)]) * sign;
            ensure!(k <= 0, "T05:delaunay", "point {e} lies inside the circumsphere of the adjacent tet {d:?}: {}", full());
            degenerate |= k == 0;
        } else {
            // the whole set lies on the inner side of a hull face
            let t = if g0 { ts[1] } else { ts[0] };
            let w = other(t);
            let side = o3(pt(&p, f[0]), pt(&p, f[1]), pt(&p, f[2]), pt(&p, w));
            if n <= 300 {
                for v in 0..n {
                    let o = o3(pt(&p, f[0]), pt(&p, f[1]), pt(&p, f[2]), pt(&p, v));
                    ensure!(o * side >= 0, "T05:hull", "hull face {f:?} has point {v} outside: {}", full());
                }
            } else {
                for v in (0..n).step_by(17) {
                    let o = o3(pt(&p, f[0]), pt(&p, f[1]), pt(&p, f[2]), pt(&p, v));
                    ensure!(o * side >= 0, "T05:hull", "hull face {f:?} has point {v} outside: {}", full());
                }
            }
            // the ghost is glued with its own orientation
            let g = if g0 { ts[0] } else { ts[1] };
            let gd = m.tets[g].data;
            ensure!(o3(pt(&p, gd[0]), pt(&p, gd[1]), pt(&p, gd[2]), pt(&p, w)) == -sign, "T05:ghost", "hull tet {gd:?} faces the wrong way: {}", full());
        }
    }
    if small {
        for (t, tet) in m.tets.iter().enumerate() {
            if m.is_hull_tet(t) {
                continue;
            }
            let d = tet.data;
            for v in 0..n {
                if d.contains(&v) {
                    continue;
                }
                let k = is([pt(&p, d[0]), pt(&p, d[1]), pt(&p, d[2]), pt(&p, d[3]), pt(&p, v)]) * sign;
                ensure!(k <= 0, "T05:delaunay", "point {v} lies inside the circumsphere of tet {d:?}: {}", full());
            }
        }
    }
    if n <= 70 {
        // arbitrary points of the hull are covered exactly once
        for _ in 0..2 {
            let ids = [0, 1, 2, 3].map(|_| s.usize(n));
            let ws = [0, 1, 2, 3].map(|_| (1 + s.below(1000)) as f64);
            let tot: f64 = ws.iter().sum();
            let q = [0, 1, 2].map(|i| (0..4).map(|k| p[3 * ids[k] + i] * ws[k]).sum::<f64>() / tot);
            let mut inside = 0;
            let mut touch = 0;
            for (t, tet) in m.tets.iter().enumerate() {
                if m.is_hull_tet(t) {
                    continue;
                }
                let d = tet.data;
                let mut lo = 1;
                for i in 0..4 {
                    let mut r = [0, 1, 2, 3].map(|k| pt(&p, d[k]));
                    r[i] = &q;
                    lo = lo.min(o3(r[0], r[1], r[2], r[3]) * sign);
                }
                if lo > 0 {
                    inside += 1;
                } else if lo == 0 {
                    touch += 1;
                }
            }
            // rounding may move q just out of the hull
            ensure!(inside <= 1 && !(inside == 1 && touch > 0), "T05:overlap", "{q:?} lies inside {inside} tets and on {touch}: {}", full());
        }
        let mut es = BTreeSet::new();
        let mut fs = BTreeSet::new();
        let mut nt = 0i64;
        for (t, tet) in m.tets.iter().enumerate() {
            if m.is_hull_tet(t) {
                continue;
            }
            nt += 1;
            let d = tet.data;
            for i in 0..4 {
                for j in 0..i {
                    es.insert((d[i].min(d[j]), d[i].max(d[j])));
                }
                fs.insert(key([d[i], d[(i + 1) % 4], d[(i + 2) % 4]]));
            }
        }
        ensure!(n as i64 - es.len() as i64 + fs.len() as i64 - nt == 1, "T05:euler", "V - E + F - T = {} - {} + {} - {nt}: {}", n, es.len(), fs.len(), full());
    }
    c.nontrivial = degenerate || n >= 20;
    if degenerate {
        c.label("cospherical neighbours");
    }
    if n >= 64 {
        c.label("several insertion rounds");
    }
    Ok(())
}

/// many points on a sphere and one inside: a cavity of thousands of faces
fn sphere(s: &mut Src, c: &mut Ctx) -> Vec<f64> {
    let n = s.range(1100, 2600);
    let r = 1.0 + s.below(5) as f64;
    let off = s.below(1000) as f64 * 0.1;
    let hemi = s.chance(2, 3);
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let z = 1.0 - (2 * i + 1) as f64 / n as f64;
        let ph = i as f64 * 2.399963229728653 + off;
        let q = (1.0 - z * z).max(0.0).sqrt();
        let mut p = [r * q * ph.cos(), r * q * ph.sin(), r * z];
        if hemi {
            p[2] = p[2].abs();
        }
        if seen.insert(p.map(|x| x.to_bits())) {
            out.push(p);
        }
    }
    let k = s.range(1, 4);
    let (far, side) = (*s.pick(&[2.0, 4.0, 100.0]), *s.pick(&[0.0, 0.4, 1.0, 100.0]));
    let up = if s.bool() { r } else { -r };
    let (ax, flip) = (s.usize(3), s.bool());
    for i in 0..k {
        let z = if hemi { up * far } else { 0.0 };
        out.push([0.01 * i as f64 + if hemi { side * r } else { 0.0 }, 0.003 * (i * i) as f64 + if hemi { side * r } else { 0.0 }, z]);
    }
    for p in &mut out {
        if flip {
            p[2] = -p[2];
        }
        p.rotate_left(ax);
    }
    c.label(if hemi { "dome and apex" } else { "sphere and centre" });
    out.concat()
}

// ---------------------------------------------------------------- navigation
fn t06(s: &mut Src, c: &mut Ctx) -> R {
    let p = cloud(s, c, false);
    let n = p.len() / 3;
    if n < 4 || coplanar(&p) {
        return Ok(());
    }
    let mut m = guarded("tetrahedralize", || tetrahedralize(&p)).map_err(|e| Fail { msg: format!("{}\n  points {}", e.msg, show(&p)), ..e })?;
    ensure!(!m.tets.is_empty(), "T06:empty", "no tets: {}", show(&p));
    let mut faces: BTreeMap<Face, Vec<usize>> = BTreeMap::new();
    for (t, tet) in m.tets.iter().enumerate() {
        let d = tet.data;
        for f in [[d[0], d[1], d[2]], [d[0], d[1], d[3]], [d[0], d[2], d[3]], [d[1], d[2], d[3]]] {
            faces.entry(key(f)).or_default().push(t);
        }
    }
    // walk: the model is the tet and the vertices (origin, destination, apex, opposite)
    let q = |m: &TetMesh, f: &TriFace| [m.org(f), m.dest(f), m.apex(f), m.oppo(f)];
    let mut f = TriFace::new(s.usize(m.tets.len()), s.usize(12));
    let mut cur = q(&m, &f);
    let mut tet = f.tet;
    let even = |m: &TetMesh, t: usize, v: [usize; 4]| -> Option<bool> {
        let d = m.tets[t].data;
        let mut pos = [0; 4];
        for i in 0..4 {
            pos[i] = d.iter().position(|&x| x == v[i])?;
        }
        let mut inv = 0;
        for i in 0..4 {
            for j in 0..i {
                if pos[j] > pos[i] {
                    inv += 1;
                }
                if pos[i] == pos[j] {
                    return None;
                }
            }
        }
        Some(inv % 2 == 0)
    };
    let par = even(&m, tet, cur);
    ensure!(par.is_some(), "T06:start", "version {} of tet {:?} gives {cur:?}", f.ver, m.tets[tet].data);
    let mut log: Vec<String> = vec![format!("tet {:?} version {}", m.tets[tet].data, f.ver)];
    let steps = s.range(1, 24);
    let mut crossed = 0;
    for _ in 0..steps {
        let [o, d, a, x] = cur;
        let ghost_next = |tet: usize, face: Face| -> (usize, usize) {
            let ts = &faces[&key(face)];
            let t2 = if ts[0] == tet { ts[1] } else { ts[0] };
            let v = *m.tets[t2].data.iter().find(|v| !face.contains(v)).unwrap();
            (t2, v)
        };
        let op = s.usize(10);
        let name;
        match op {
            0 => {
                name = "enext";
                f.enext_self();
                cur = [d, a, o, x];
            }
            1 => {
                name = "eprev";
                f.eprev_self();
                cur = [a, o, d, x];
            }
            2 => {
                name = "esym";
                f.esym_self();
                cur = [d, o, x, a];
            }
            3 => {
                name = "enext_esym";
                f.enext_esym_self();
                cur = [a, d, x, o];
            }
            4 => {
                name = "eprev_esym";
                f.eprev_esym_self();
                cur = [o, a, x, d];
            }
            5 => {
                name = "fsym_self";
                let (t2, v) = ghost_next(tet, [o, d, a]);
                m.fsym_self(&mut f);
                cur = [d, o, a, v];
                tet = t2;
                crossed += 1;
            }
            6 => {
                name = "fsym";
                let (t2, v) = ghost_next(tet, [o, d, a]);
                let mut g = TriFace::default();
                m.fsym(&f, &mut g);
                ensure!(q(&m, &f) == cur && f.tet == tet, "T06:fsym", "fsym changed its argument");
                f = g;
                cur = [d, o, a, v];
                tet = t2;
                crossed += 1;
            }
            7 => {
                name = "fnext_self";
                let (t2, v) = ghost_next(tet, [o, d, x]);
                m.fnext_self(&mut f);
                cur = [o, d, x, v];
                tet = t2;
                crossed += 1;
            }
            8 => {
                name = "enext (copy)";
                let mut g = TriFace::default();
                enext(&f, &mut g);
                f = g;
                cur = [d, a, o, x];
            }
            _ => {
                name = "eprev (copy)";
                let mut g = TriFace::default();
                eprev(&f, &mut g);
                f = g;
                cur = [a, o, d, x];
            }
        }
        log.push(name.into());
        ensure!(f.tet == tet && f.ver < 12 && q(&m, &f) == cur, format!("T06:{name}"), "after {log:?} the handle is tet {} {:?} with (org, dest, apex, oppo) = {:?}; expected tet {tet} {cur:?}\n  points {}", f.tet, m.tets[f.tet].data, q(&m, &f), show(&p));
        ensure!(even(&m, tet, cur) == par, "T06:parity", "after {log:?} the handle is an odd permutation: points {}", show(&p));
    }
    // flags and stars, in any order
    let (mut inf, mut tst) = (BTreeSet::new(), BTreeSet::new());
    let bump = Bump::new();
    for _ in 0..s.range(1, 8) {
        let t = s.usize(m.tets.len());
        match s.usize(6) {
            0 => {
                m.infect(t);
                inf.insert(t);
            }
            1 => {
                m.uninfect(t);
                inf.remove(&t);
            }
            2 => {
                m.mark_test(t);
                tst.insert(t);
            }
            3 => {
                m.unmark_test(t);
                tst.remove(&t);
            }
            _ => {
                if !tst.is_empty() {
                    for t in std::mem::take(&mut tst) {
                        m.unmark_test(t);
                    }
                }
                let v = s.usize(n);
                let got = guarded("incident", || m.incident(v, &bump).to_vec()).map_err(|e| Fail { msg: format!("{}\n  incident({v}): points {}", e.msg, show(&p)), ..e })?;
                let mut g = got.clone();
                g.sort_unstable();
                let want: Vec<usize> = (0..m.tets.len()).filter(|&t| !m.is_hull_tet(t) && m.tets[t].data.contains(&v)).collect();
                ensure!(g == want, "T06:incident", "incident({v}) = {g:?}, expected {want:?}: points {}", show(&p));
            }
        }
        for t in 0..m.tets.len() {
            ensure!(m.infected(t) == inf.contains(&t) && m.mark_tested(t) == tst.contains(&t), "T06:flags", "flags of tet {t}: infected {} marked {}, expected {} {}", m.infected(t), m.mark_tested(t), inf.contains(&t), tst.contains(&t));
            ensure!(m.tets[t].index(m.tets[t].data[2]) == Some(2) && m.tets[t].index(n + 1).is_none(), "T06:index", "index");
        }
    }
    for v in 0..n {
        ensure!(m.point(v) == pt(&p, v), "T06:point", "point({v})");
    }
    let ids = [0, 1, 2, 3].map(|_| s.usize(n));
    let o = m.orient3d(ids[0], ids[1], ids[2], ids[3], &bump);
    let e = o3(pt(&p, ids[0]), pt(&p, ids[1]), pt(&p, ids[2]), pt(&p, ids[3]));
    ensure!((o > 0.0) as i32 - ((o < 0.0) as i32) == e, "T06:orient", "orient3d({ids:?}) = {o}, expected sign {e}: points {}", show(&p));
    c.describe(|| format!("{} then {log:?}", show(&p)));
    c.nontrivial = crossed >= 2;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "T05",
            rule: "a case is one set of distinct points; non-trivial when neighbouring tetrahedra share a circumsphere or there are at least twenty points",
            quick: 160_000,
            thorough: 4_000_000,
            chunk: 500,
            timeout_s: 600,
            run: t05,
            fixed: &[],
            assumptions: &["points are distinct", "coordinates far from overflow and underflow of degree-five products", "the global empty-sphere condition is checked point by point up to 24 points and through adjacent tets above"],
        },
        Prop {
            id: "T06",
            rule: "a case is a point set, a random walk through its mesh and a history of flag and star queries; non-trivial when the walk crossed at least two faces",
            quick: 400_000,
            thorough: 6_000_000,
            chunk: 1000,
            timeout_s: 600,
            run: t06,
            fixed: &[],
            assumptions: &["points are distinct and not coplanar"],
        },
    ]
}
