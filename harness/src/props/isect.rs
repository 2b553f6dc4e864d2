//! E08: exact intersection tests between points, segments and triangles.
use super::gen::*;
use super::implicit::{self, Def};
use crate::bigint::*;
use crate::driver::*;
use crate::ensure;
use crate::geo::*;
use crate::src::Src;
use bumpalo::Bump;
use gpf::predicates as gp;

fn collinear(a: &V3, b: &V3, c: &V3) -> bool {
    is_zero3(&cross3(&sub3(b, a), &sub3(c, a)))
}
fn in_open_seg(p: &V3, a: &V3, b: &V3) -> bool {
    if !collinear(p, a, b) {
        return false;
    }
    // (p-a).(b-p) > 0
    dot3(&sub3(p, a), &sub3(b, p)).sign() > 0
}
fn same(a: &V3, b: &V3) -> bool {
    is_zero3(&sub3(a, b))
}
fn coplanar(a: &V3, b: &V3, c: &V3, d: &V3) -> bool {
    orient3d_big(a, b, c, d).is_zero()
}
/// coplanar p strictly inside / inside or on the boundary of a non-degenerate triangle
fn tri_pos(p: &V3, t: [&V3; 3]) -> i32 {
    let n = cross3(&sub3(t[1], t[0]), &sub3(t[2], t[0]));
    let mut m = 1;
    for i in 0..3 {
        let s = dot3(&n, &cross3(&sub3(t[(i + 1) % 3], t[i]), &sub3(p, t[i]))).sign();
        m = m.min(s);
    }
    m
}
fn segs_cross(a: &V3, b: &V3, c: &V3, d: &V3) -> bool {
    // proper: the open segments meet in one point and are not collinear
    if !coplanar(a, b, c, d) {
        return false;
    }
    let n = cross3(&sub3(b, a), &sub3(d, c));
    if is_zero3(&n) {
        return false;
    }
    let side = |p: &V3, q: &V3, r: &V3| dot3(&n, &cross3(&sub3(q, p), &sub3(r, p))).sign();
    side(a, b, c) * side(a, b, d) < 0 && side(c, d, a) * side(c, d, b) < 0
}
fn seg_cross_tri(u: &V3, v: &V3, t: [&V3; 3]) -> bool {
    let n = cross3(&sub3(t[1], t[0]), &sub3(t[2], t[0]));
    let (su, sv) = (dot3(&n, &sub3(u, t[0])), dot3(&n, &sub3(v, t[0])));
    if su.sign() * sv.sign() >= 0 {
        return false;
    }
    // crossing point x = (u*sv - v*su) / (sv - su), scaled by w = |sv - su|
    let w = sv.sub(&su);
    let sg = w.sign();
    let x: Vec<Big> = (0..3).map(|i| u[i].mul(&sv).sub(&v[i].mul(&su))).collect();
    for i in 0..3 {
        let a = t[i];
        let e = sub3(t[(i + 1) % 3], a);
        // (x/w - a) scaled by w
        let r: V3 = [x[0].sub(&a[0].mul(&w)), x[1].sub(&a[1].mul(&w)), x[2].sub(&a[2].mul(&w))];
        if dot3(&n, &cross3(&e, &r)).sign() * sg <= 0 {
            return false;
        }
    }
    true
}

fn p08(s: &mut Src, c: &mut Ctx) -> R {
    let bump = Bump::new();
    if s.chance(1, 6) {
        return general(s, c, &bump);
    }
    let st = match s.weighted(&[5, 2, 2, 2]) {
        0 => Style::Int(s.range(1, 5) as i64),
        1 => Style::Int(1 << s.range(4, 20)),
        2 => Style::Float(53, -3, 3),
        _ => style_limited(s),
    };
    let exact = s.chance(3, 4);
    let mut v = config::<3>(s, 5, st, exact);
    if s.chance(1, 3) {
        // a common plane of constant coordinate, or a common linear relation
        let k = s.usize(3);
        if s.bool() {
            let x = v[0][k];
            for p in &mut v {
                p[k] = x;
            }
        } else {
            for p in &mut v {
                p[k] = p[(k + 1) % 3] + p[(k + 2) % 3];
            }
        }
    }
    if s.chance(1, 3) {
        // dyadic points of the plane of the first three
        for i in 3..5 {
            let (a, b) = (s.irange(-2, 6) as f64 / 4.0, s.irange(-2, 6) as f64 / 4.0);
            for k in 0..3 {
                v[i][k] = v[0][k] + (v[1][k] - v[0][k]) * a + (v[2][k] - v[0][k]) * b;
            }
        }
    }
    s.shuffle(&mut v);
    c.describe(|| format!("{v:?}"));
    if !in_range(&v.concat(), -200, 150) {
        c.label("discarded: out of range");
        return Ok(());
    }
    let e = scale_exp(&v.iter().map(|p| &p[..]).collect::<Vec<_>>());
    let b: Vec<V3> = v.iter().map(|p| v3(p, e)).collect();
    let (u1, u2, t1, t2, t3) = (&v[0], &v[1], &v[2], &v[3], &v[4]);
    let tri = [&b[2], &b[3], &b[4]];
    let nondeg = !collinear(tri[0], tri[1], tri[2]);
    let seg = !same(&b[0], &b[1]);
    let show = || format!("{v:?}");

    ensure!(gp::same_point(u1, u2) == !seg, "same_point", "same_point: {}", show());
    let got = guarded("mis_alignment", || gp::mis_alignment(t1, t2, t3, &bump))?;
    ensure!(got == nondeg, "mis_alignment", "mis_alignment(p2, p3, p4) = {got}: {}", show());
    for i in 0..3 {
        let (p, a, q) = (&v[2 + i], &v[0], &v[1]);
        let w = in_open_seg(&b[2 + i], &b[0], &b[1]);
        let got = guarded("point_in_inner_segment", || gp::point_in_inner_segment(p, a, q, &bump))?;
        ensure!(got == w, "point_in_inner_segment", "point_in_inner_segment(p{}, p0, p1) = {got}: {}", 2 + i, show());
        let got = guarded("point_in_segment", || gp::point_in_segment(p, a, q, &bump))?;
        let w2 = w || same(&b[2 + i], &b[0]) || same(&b[2 + i], &b[1]);
        ensure!(got == w2, "point_in_segment", "point_in_segment(p{}, p0, p1) = {got}: {}", 2 + i, show());
        if w {
            c.label("point inside a segment");
            c.nontrivial = true;
        }
    }
    // segment / segment
    let w = segs_cross(&b[0], &b[1], &b[2], &b[3]);
    for (k, (x, y, z, t)) in [(0, 1, 2, 3), (1, 0, 2, 3), (2, 3, 0, 1), (3, 2, 1, 0)].into_iter().enumerate() {
        let got = guarded("inner_segments_cross", || gp::inner_segments_cross(&v[x], &v[y], &v[z], &v[t], &bump))?;
        ensure!(got == w, "inner_segments_cross", "inner_segments_cross variant {k} = {got}: {}", show());
    }
    if w {
        c.label("segments cross");
        c.nontrivial = true;
    }
    // half planes of a line through p2 p3
    if seg && !same(&b[2], &b[3]) && coplanar(&b[0], &b[1], &b[2], &b[3]) {
        let n1 = cross3(&sub3(&b[3], &b[2]), &sub3(&b[0], &b[2]));
        let n2 = cross3(&sub3(&b[3], &b[2]), &sub3(&b[1], &b[2]));
        let w = match (is_zero3(&n1), is_zero3(&n2)) {
            (true, true) => true,
            (false, false) => dot3(&n1, &n2).sign() > 0,
            _ => false,
        };
        let got = guarded("same_half_plane", || gp::same_half_plane(u1, u2, t1, t2, &bump))?;
        ensure!(got == w, "same_half_plane", "same_half_plane(p0, p1, p2, p3) = {got}: {}", show());
        c.label(if w { "same half plane" } else { "different half planes" });
    }
    if nondeg {
        let w = seg_cross_tri(&b[0], &b[1], tri);
        let mut idx = [2, 3, 4];
        s.shuffle(&mut idx);
        let got = guarded("inner_segment_cross_inner_triangle", || {
            gp::inner_segment_cross_inner_triangle(u1, u2, &v[idx[0]], &v[idx[1]], &v[idx[2]], &bump)
        })?;
        ensure!(got == w, "inner_segment_cross_inner_triangle", "inner_segment_cross_inner_triangle = {got}: {}", show());
        if w {
            c.label("segment pierces triangle");
            c.nontrivial = true;
        }
        let w = w
            || (2..5).any(|i| in_open_seg(&b[i], &b[0], &b[1]))
            || (0..3).any(|i| segs_cross(&b[0], &b[1], tri[i], tri[(i + 1) % 3]));
        let got = guarded("inner_segment_cross_triangle", || {
            gp::inner_segment_cross_triangle(u1, u2, &v[idx[0]], &v[idx[1]], &v[idx[2]], &bump)
        })?;
        ensure!(got == w, "inner_segment_cross_triangle", "inner_segment_cross_triangle = {got}: {}", show());
        for i in 0..2 {
            if coplanar(&b[i], tri[0], tri[1], tri[2]) {
                let w = tri_pos(&b[i], tri);
                let got = guarded("point_in_inner_triangle", || {
                    gp::point_in_inner_triangle(&v[i], &v[idx[0]], &v[idx[1]], &v[idx[2]], &bump)
                })?;
                ensure!(got == (w > 0), "point_in_inner_triangle", "point_in_inner_triangle(p{i}) = {got}: {}", show());
                let got = guarded("point_in_triangle", || {
                    gp::point_in_triangle(&v[i], &v[idx[0]], &v[idx[1]], &v[idx[2]], &bump)
                })?;
                ensure!(got == (w >= 0), "point_in_triangle", "point_in_triangle(p{i}) = {got}: {}", show());
                c.label(["coplanar point outside triangle", "coplanar point on triangle boundary", "coplanar point inside triangle"][(w + 1) as usize]);
                if w >= 0 {
                    c.nontrivial = true;
                }
            }
        }
        // dominant axis of the normal
        let k = guarded("max_comp_in_tri_normal", || gp::max_comp_in_tri_normal(t1, t2, t3, &bump))?;
        let n = cross3(&sub3(tri[1], tri[0]), &sub3(tri[2], tri[0]));
        let m = n.iter().map(|x| x.abs()).fold(Big::zero(), |a, x| if x.cmp(&a) == std::cmp::Ordering::Greater { x } else { a });
        // the promise callers rely on: the projection along this axis is not degenerate; and for triangles
        // that are not slivers it is the dominant axis
        let mut span = 0f64;
        for i in 0..3 {
            span = span.max((t2[i] - t1[i]).abs()).max((t3[i] - t1[i]).abs());
        }
        let fat = ldexp(big_ratio(&m, &Big::from_i64(1)), 2 * e as i64) > 1e-9 * span * span;
        if !fat {
            c.label("sliver triangle");
        }
        ensure!(
            k < 3 && !n[k].is_zero() && (!fat || big_ratio(&n[k].abs(), &m) > 0.99),
            "max_comp_in_tri_normal",
            "max_comp_in_tri_normal = {k}: {}",
            show()
        );
        if m.bits() > 40 && n.iter().any(|x| x.bits() + 45 < m.bits()) {
            c.label("nearly axis-aligned normal");
        }
    } else {
        c.label("degenerate triangle");
    }
    // explicit orientation by projection
    for axis in 0..3 {
        let o = implicit::ori(gp::orient2d_by_axis(t1, t2, t3, axis, &bump));
        let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
        let w = orient2d_big(&[b[2][i].clone(), b[2][j].clone()], &[b[3][i].clone(), b[3][j].clone()], &[b[4][i].clone(), b[4][j].clone()]).sign();
        ensure!(o == w, "orient2d_by_axis", "orient2d_by_axis({axis}) = {o}, exact {w}: {}", show());
    }
    Ok(())
}

/// collinear, possibly implicit points: membership in a closed segment
fn general(s: &mut Src, c: &mut Ctx, bump: &Bump) -> R {
    // points of one line, each explicit or the intersection of that line with a plane
    let k = s.range(1, 4) as i64;
    let a: [f64; 3] = point(s, Style::Int(k * 4));
    let mut d: [f64; 3] = point(s, Style::Int(k));
    if d == [0.0; 3] {
        d = [1.0, 0.0, 0.0];
    }
    let at = |t: f64| [a[0] + d[0] * t, a[1] + d[1] * t, a[2] + d[2] * t];
    let mut defs = vec![];
    for _ in 0..3 {
        let t = s.irange(-6, 6) as f64 / 2.0;
        if s.chance(1, 3) {
            defs.push(Def::E(at(t)));
        } else {
            // a plane through at(t), or a random one
            let mut pl: [[f64; 3]; 3] = [point(s, Style::Int(6)), point(s, Style::Int(6)), point(s, Style::Int(6))];
            if s.bool() {
                pl[0] = at(t);
            }
            let (p, q) = (at(s.irange(-4, 4) as f64), at(s.irange(-4, 4) as f64 + 0.5));
            defs.push(Def::L([p, q, pl[0], pl[1], pl[2]]));
        }
    }
    c.describe(|| implicit::show(&defs));
    let e = implicit::common_exp(&defs);
    let h: Vec<Hom> = defs.iter().map(|x| x.hom(e)).collect();
    if !h.iter().all(|x| x.valid()) {
        c.label("collinear: undefined point");
        return Ok(());
    }
    let p: Vec<_> = defs.iter().map(|x| x.build()).collect();
    // axis where the direction is non-zero
    let ax = (0..3).find(|&i| d[i] != 0.0).unwrap();
    let (c1, c2) = (cmp_hom(&h[0], &h[1], ax), cmp_hom(&h[0], &h[2], ax));
    let w = c1 * c2 <= 0;
    let got = guarded("point_in_segment_general", || gp::point_in_segment_general(&p[0], &p[1], &p[2], bump))?;
    ensure!(got == w, "point_in_segment_general", "point_in_segment_general = {got}, exact {w}: {}", implicit::show(&defs));
    c.nontrivial = implicit::kinds(&defs) != "EEE";
    c.label(if w { "collinear point in closed segment" } else { "collinear point outside segment" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E08",
        rule: "a case is five explicit points put through every test that applies to them (or three collinear, possibly implicit points); non-trivial when some test has to answer yes, or an implicit point is involved",
        quick: 4_000_000,
        thorough: 40_000_000,
        chunk: 10_000,
        timeout_s: 300,
        run: p08,
        fixed: &[],
        assumptions: &["triangles are non-degenerate where the callers guarantee it", "points passed to point_in_triangle and same_half_plane are coplanar with the triangle / line, and to point_in_segment_general collinear, as every caller guarantees"],
    }]
}
