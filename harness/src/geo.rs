//! Exact geometric oracles over integer-scaled coordinates.
use crate::bigint::*;

pub type V2 = [Big; 2];
pub type V3 = [Big; 3];

pub fn scale_exp(pts: &[&[f64]]) -> i32 {
    let mut e = i32::MAX;
    for p in pts {
        for &x in p.iter() {
            if x != 0.0 {
                e = e.min(decompose(x).1);
            }
        }
    }
    if e == i32::MAX {
        0
    } else {
        e
    }
}
pub fn v3(p: &[f64], e: i32) -> V3 {
    [to_big(p[0], e), to_big(p[1], e), to_big(p[2], e)]
}
pub fn v2(p: &[f64], e: i32) -> V2 {
    [to_big(p[0], e), to_big(p[1], e)]
}
pub fn sub3(a: &V3, b: &V3) -> V3 {
    [a[0].sub(&b[0]), a[1].sub(&b[1]), a[2].sub(&b[2])]
}
pub fn cross3(a: &V3, b: &V3) -> V3 {
    [
        &a[1].mul(&b[2]) - &a[2].mul(&b[1]),
        &a[2].mul(&b[0]) - &a[0].mul(&b[2]),
        &a[0].mul(&b[1]) - &a[1].mul(&b[0]),
    ]
}
pub fn dot3(a: &V3, b: &V3) -> Big {
    a[0].mul(&b[0]).add(&a[1].mul(&b[1])).add(&a[2].mul(&b[2]))
}
pub fn is_zero3(a: &V3) -> bool {
    a.iter().all(|x| x.is_zero())
}
pub fn det2(a: &Big, b: &Big, c: &Big, d: &Big) -> Big {
    a.mul(d).sub(&b.mul(c))
}
pub fn det3(m: [&V3; 3]) -> Big {
    dot3(m[0], &cross3(m[1], m[2]))
}
/// general determinant by fraction-free elimination is not needed: cofactor expansion suffices (n <= 5)
pub fn det(m: &[Vec<Big>]) -> Big {
    let n = m.len();
    if n == 1 {
        return m[0][0].clone();
    }
    if n == 2 {
        return det2(&m[0][0], &m[0][1], &m[1][0], &m[1][1]);
    }
    let mut r = Big::zero();
    for j in 0..n {
        if m[0][j].is_zero() {
            continue;
        }
        let minor: Vec<Vec<Big>> = (1..n)
            .map(|i| (0..n).filter(|&k| k != j).map(|k| m[i][k].clone()).collect())
            .collect();
        let t = m[0][j].mul(&det(&minor));
        r = if j % 2 == 0 { r.add(&t) } else { r.sub(&t) };
    }
    r
}

/// > 0: a, b, c counter-clockwise
pub fn orient2d_big(a: &V2, b: &V2, c: &V2) -> Big {
    det2(&a[0].sub(&c[0]), &a[1].sub(&c[1]), &b[0].sub(&c[0]), &b[1].sub(&c[1]))
}
pub fn orient2d(a: &[f64], b: &[f64], c: &[f64]) -> i32 {
    let e = scale_exp(&[&a[..2], &b[..2], &c[..2]]);
    orient2d_big(&v2(a, e), &v2(b, e), &v2(c, e)).sign()
}
/// Shewchuk's convention: > 0 when d is below the plane a, b, c (a, b, c counter-clockwise from above)
pub fn orient3d_big(a: &V3, b: &V3, c: &V3, d: &V3) -> Big {
    det3([&sub3(a, d), &sub3(b, d), &sub3(c, d)])
}
pub fn orient3d(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let e = scale_exp(&[&a[..3], &b[..3], &c[..3], &d[..3]]);
    orient3d_big(&v3(a, e), &v3(b, e), &v3(c, e), &v3(d, e)).sign()
}
/// > 0: d inside the circle through the counter-clockwise a, b, c
pub fn incircle(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let e = scale_exp(&[&a[..2], &b[..2], &c[..2], &d[..2]]);
    let d = v2(d, e);
    let rows: Vec<V3> = [a, b, c]
        .iter()
        .map(|p| {
            let p = v2(p, e);
            let x = p[0].sub(&d[0]);
            let y = p[1].sub(&d[1]);
            let l = x.mul(&x).add(&y.mul(&y));
            [x, y, l]
        })
        .collect();
    det3([&rows[0], &rows[1], &rows[2]]).sign()
}
/// > 0: e inside the sphere through a, b, c, d, positively oriented in the sense of orient3d > 0
pub fn insphere(pts: [&[f64]; 5]) -> i32 {
    let ex = scale_exp(&[&pts[0][..3], &pts[1][..3], &pts[2][..3], &pts[3][..3], &pts[4][..3]]);
    let q: Vec<V3> = pts.iter().map(|p| v3(p, ex)).collect();
    let rows: Vec<Vec<Big>> = (0..4)
        .map(|i| {
            let d = sub3(&q[i], &q[4]);
            let l = dot3(&d, &d);
            let [x, y, z] = d;
            vec![x, y, z, l]
        })
        .collect();
    det(&rows).sign()
}
/// lifted orientation with explicit heights
pub fn orient4d(pts: [&[f64]; 5], h: [f64; 5]) -> i32 {
    let ex = scale_exp(&[&pts[0][..3], &pts[1][..3], &pts[2][..3], &pts[3][..3], &pts[4][..3], &h]);
    let q: Vec<V3> = pts.iter().map(|p| v3(p, ex)).collect();
    let hb: Vec<Big> = h.iter().map(|&x| to_big(x, ex)).collect();
    let rows: Vec<Vec<Big>> = (0..4)
        .map(|i| {
            let [x, y, z] = sub3(&q[i], &q[4]);
            vec![x, y, z, hb[i].sub(&hb[4])]
        })
        .collect();
    det(&rows).sign()
}

/// A homogeneous point: coordinates (x/w, y/w, z/w) in units of the common scale.
#[derive(Clone, Debug)]
pub struct Hom {
    pub c: [Big; 3],
    pub w: Big,
}
impl Hom {
    pub fn explicit(p: &[f64], e: i32) -> Hom {
        Hom { c: v3(p, e), w: Big::from_i64(1) }
    }
    /// line pq with plane rst; w == 0 when they are parallel or the plane is degenerate
    pub fn lpi(p: &V3, q: &V3, r: &V3, s: &V3, t: &V3) -> Hom {
        let n = cross3(&sub3(s, r), &sub3(t, r));
        let d = sub3(q, p);
        let w = dot3(&n, &d);
        let k = dot3(&n, &sub3(r, p));
        let f = |i: usize| p[i].mul(&w).add(&d[i].mul(&k));
        Hom { c: [f(0), f(1), f(2)], w }
    }
    pub fn tpi(v: [&V3; 3], w: [&V3; 3], u: [&V3; 3]) -> Hom {
        let n = |t: [&V3; 3]| cross3(&sub3(t[1], t[0]), &sub3(t[2], t[0]));
        let (n1, n2, n3) = (n(v), n(w), n(u));
        let (d1, d2, d3) = (dot3(&n1, v[0]), dot3(&n2, w[0]), dot3(&n3, u[0]));
        let (c23, c31, c12) = (cross3(&n2, &n3), cross3(&n3, &n1), cross3(&n1, &n2));
        let den = dot3(&n1, &c23);
        let f = |i: usize| d1.mul(&c23[i]).add(&d2.mul(&c31[i])).add(&d3.mul(&c12[i]));
        Hom { c: [f(0), f(1), f(2)], w: den }
    }
    pub fn valid(&self) -> bool {
        !self.w.is_zero()
    }
}
/// Shewchuk convention; all points valid
pub fn orient3d_hom(p: [&Hom; 4]) -> i32 {
    // det of rows (x y z w): equals det of (a-d, b-d, c-d) * product of w (up to a fixed sign)
    let rows: Vec<Vec<Big>> =
        p.iter().map(|h| vec![h.c[0].clone(), h.c[1].clone(), h.c[2].clone(), h.w.clone()]).collect();
    let d = det(&rows).sign();
    let mut s = 1;
    for h in p {
        s *= h.w.sign();
    }
    d * s
}
/// axis: the dropped coordinate; the remaining ones are taken cyclically (axis+1, axis+2)
pub fn orient2d_hom(p: [&Hom; 3], axis: usize) -> i32 {
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    let rows: Vec<V3> = p.iter().map(|h| [h.c[i].clone(), h.c[j].clone(), h.w.clone()]).collect();
    let d = det3([&rows[0], &rows[1], &rows[2]]).sign();
    d * p[0].w.sign() * p[1].w.sign() * p[2].w.sign()
}
/// sign(a[axis] - b[axis])
pub fn cmp_hom(a: &Hom, b: &Hom, axis: usize) -> i32 {
    a.c[axis].mul(&b.w).sub(&b.c[axis].mul(&a.w)).sign() * a.w.sign() * b.w.sign()
}

/// exact orientation sign with a floating-point filter in front
pub fn o2(a: &[f64], b: &[f64], c: &[f64]) -> i32 {
    let l = (a[0] - c[0]) * (b[1] - c[1]);
    let r = (a[1] - c[1]) * (b[0] - c[0]);
    let d = l - r;
    if d.abs() > 1e-14 * (l.abs() + r.abs()) && l.abs() + r.abs() > 1e-200 {
        return if d > 0.0 { 1 } else { -1 };
    }
    orient2d(a, b, c)
}
pub fn ic(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let (ax, ay, bx, by, cx, cy) = (a[0] - d[0], a[1] - d[1], b[0] - d[0], b[1] - d[1], c[0] - d[0], c[1] - d[1]);
    let (al, bl, cl) = (ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy);
    let det = al * (bx * cy - by * cx) + bl * (cx * ay - cy * ax) + cl * (ax * by - ay * bx);
    let perm = al * ((bx * cy).abs() + (by * cx).abs()) + bl * ((cx * ay).abs() + (cy * ax).abs()) + cl * ((ax * by).abs() + (ay * bx).abs());
    if det.abs() > 1e-13 * perm && perm > 1e-200 {
        return if det > 0.0 { 1 } else { -1 };
    }
    incircle(a, b, c, d)
}
pub fn o3(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> i32 {
    let v = |p: &[f64]| [p[0] - d[0], p[1] - d[1], p[2] - d[2]];
    let (x, y, z) = (v(a), v(b), v(c));
    let m = |p: f64, q: f64| p * q;
    let det = x[0] * (m(y[1], z[2]) - m(y[2], z[1])) + x[1] * (m(y[2], z[0]) - m(y[0], z[2])) + x[2] * (m(y[0], z[1]) - m(y[1], z[0]));
    let perm = x[0].abs() * (m(y[1], z[2]).abs() + m(y[2], z[1]).abs())
        + x[1].abs() * (m(y[2], z[0]).abs() + m(y[0], z[2]).abs())
        + x[2].abs() * (m(y[0], z[1]).abs() + m(y[1], z[0]).abs());
    if det.abs() > 1e-14 * perm && perm > 1e-200 {
        return if det > 0.0 { 1 } else { -1 };
    }
    orient3d(a, b, c, d)
}
/// sign of the in-sphere determinant, filtered
pub fn is(pts: [&[f64]; 5]) -> i32 {
    let e = pts[4];
    let r: Vec<[f64; 4]> = (0..4)
        .map(|i| {
            let (x, y, z) = (pts[i][0] - e[0], pts[i][1] - e[1], pts[i][2] - e[2]);
            [x, y, z, x * x + y * y + z * z]
        })
        .collect();
    let mut det = 0.0;
    let mut perm = 0.0;
    // expansion along the lift column
    for i in 0..4 {
        let o: Vec<&[f64; 4]> = (0..4).filter(|&k| k != i).map(|k| &r[k]).collect();
        let mut d = 0.0;
        let mut p = 0.0;
        for (j, k, l, sg) in [(0, 1, 2, 1.0), (1, 2, 0, 1.0), (2, 0, 1, 1.0), (0, 2, 1, -1.0), (1, 0, 2, -1.0), (2, 1, 0, -1.0)] {
            let t: f64 = o[0][j] * o[1][k] * o[2][l];
            d += sg * t;
            p += t.abs();
        }
        // cofactor sign for column 3: (-1)^(i+3)
        let sg = if i % 2 == 1 { 1.0 } else { -1.0 };
        det += sg * r[i][3] * d;
        perm += r[i][3] * p;
    }
    if det.abs() > 1e-13 * perm && perm > 1e-200 {
        return if det > 0.0 { 1 } else { -1 };
    }
    insphere(pts)
}

pub fn fmt3(p: &[f64]) -> String {
    format!("({:?}, {:?}, {:?})", p[0], p[1], p[2])
}
pub fn fmt2(p: &[f64]) -> String {
    format!("({:?}, {:?})", p[0], p[1])
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn conventions() {
        assert_eq!(orient2d(&[0., 0.], &[1., 0.], &[0., 1.]), 1);
        // a,b,c ccw from above, d below => positive
        assert_eq!(orient3d(&[0., 0., 0.], &[1., 0., 0.], &[0., 1., 0.], &[0., 0., -1.]), 1);
        assert_eq!(incircle(&[1., 0.], &[0., 1.], &[-1., 0.], &[0., 0.5]), 1);
        let p: [&[f64]; 5] = [&[0., 0., 0.], &[1., 0., 0.], &[0., 1., 0.], &[0., 0., -1.], &[0.25, 0.25, -0.25]];
        assert_eq!(insphere(p), 1);
        assert_eq!(is(p), 1);
        assert_eq!(o3(p[0], p[1], p[2], p[3]), 1);
        assert_eq!(o2(&[0., 0.], &[1., 0.], &[0., 1.]), 1);
        assert_eq!(ic(&[1., 0.], &[0., 1.], &[-1., 0.], &[0., 0.5]), 1);
        let e = 0;
        let h: Vec<Hom> = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., -1.]].iter().map(|p: &[f64; 3]| Hom::explicit(p, e)).collect();
        assert_eq!(orient3d_hom([&h[0], &h[1], &h[2], &h[3]]), 1);
        assert_eq!(orient2d_hom([&h[0], &h[1], &h[2]], 2), 1);
        let o: V3 = v3(&[0., 0., 0.], 0);
        let x = v3(&[2., 0., 0.], 0);
        let y = v3(&[0., 2., 0.], 0);
        let l = Hom::lpi(&v3(&[1., 1., 5.], 0), &v3(&[1., 1., 3.], 0), &o, &x, &y);
        assert_eq!(cmp_hom(&l, &Hom::explicit(&[1., 1., 0.], 0), 0), 0);
        assert_eq!(cmp_hom(&l, &Hom::explicit(&[1., 1., 0.], 0), 2), 0);
        assert_eq!(cmp_hom(&l, &Hom::explicit(&[1., 1., 1.], 0), 2), -1);
        let z = v3(&[0., 0., 3.], 0);
        let t = Hom::tpi([&o, &x, &y], [&o, &y, &z], [&o, &z, &x]);
        for a in 0..3 {
            assert_eq!(cmp_hom(&t, &Hom::explicit(&[0., 0., 0.], 0), a), 0);
        }
    }
}
