// tetrahedralizations of integer points against exact integer geometry
use gpf::triangle::{tetrahedralize, TriFace};
use bumpalo::Bump;
struct R(u64);
impl R { fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % k as u64) as usize } }
type P = [i128; 3];
fn d(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn det(a: P, b: P, c: P) -> i128 { a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]) }
fn ori(a: P, b: P, c: P, e: P) -> i128 { det(d(a, e), d(b, e), d(c, e)) }
fn insph(t: [P; 4], e: P) -> i128 {
    let v: Vec<P> = t.iter().map(|&p| d(p, e)).collect();
    let w: Vec<i128> = v.iter().map(|p| p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).collect();
    let s = w[3] * det(v[0], v[1], v[2]) - w[2] * det(v[0], v[1], v[3]) + w[1] * det(v[0], v[2], v[3]) - w[0] * det(v[1], v[2], v[3]);
    s * ori(t[0], t[1], t[2], t[3]).signum()
}
fn fail(s: String) -> ! { println!("{s}"); std::process::exit(1) }
fn main() {
    let mut r = R(23);
    for case in 0..3000 {
        let g = 2 + r.n(8);
        let mut pts: Vec<P> = (0..1 + r.n(22)).map(|_| [r.n(g) as i128, r.n(g) as i128, r.n(g) as i128]).collect();
        pts.sort();
        pts.dedup();
        for i in (1..pts.len()).rev() { let j = r.n(i + 1); pts.swap(i, j); }
        let flat: Vec<f64> = pts.iter().flatten().map(|&x| x as f64).collect();
        let n = pts.len();
        let solid = (0..n).any(|i| (0..i).any(|j| (0..j).any(|k| (0..k).any(|l| ori(pts[i], pts[j], pts[k], pts[l]) != 0))));
        let mut m = tetrahedralize(&flat);
        let real: Vec<usize> = (0..m.tets.len()).filter(|&t| !m.is_hull_tet(t)).collect();
        if real.is_empty() { if solid { fail(format!("case {case}: nothing for {pts:?}")) } continue; }
        let mut used = vec![0; n];
        let mut sg = 0;
        let mut faces = std::collections::BTreeMap::<Vec<usize>, usize>::new();
        for &t in &real {
            let ix = m.tets[t].data;
            let q = ix.map(|i| pts[i]);
            let o = ori(q[0], q[1], q[2], q[3]).signum();
            if o == 0 || (sg != 0 && o != sg) { fail(format!("case {case}: {pts:?} orientation of {ix:?}")) }
            sg = o;
            for i in ix { used[i] += 1; }
            for e in 0..n { if insph(q, pts[e]) * SPH > 0 { fail(format!("case {case}: {pts:?} point {e} in sphere of {ix:?}")) } }
            for k in 0..4 { let mut f: Vec<usize> = (0..4).filter(|&i| i != k).map(|i| ix[i]).collect(); f.sort(); *faces.entry(f).or_default() += 1; }
        }
        if used.iter().any(|&u| u == 0) { fail(format!("case {case}: {pts:?} unused points {used:?}")) }
        for (f, c) in faces {
            if c > 2 { fail(format!("case {case}: face {f:?} {c} times")) }
            if c == 1 {
                let s: Vec<i128> = pts.iter().map(|&p| ori(pts[f[0]], pts[f[1]], pts[f[2]], p).signum()).collect();
                if s.contains(&1) && s.contains(&-1) { fail(format!("case {case}: {pts:?} open face {f:?} inside the hull")) }
            }
        }
        for t in 0..m.tets.len() {
            for v in 0..12 {
                let f = TriFace::new(t, v);
                let mut s = TriFace::new(t, v);
                m.fsym_self(&mut s);
                if m.org(&f) != m.dest(&s) || m.dest(&f) != m.org(&s) || m.apex(&f) != m.apex(&s) { fail(format!("case {case}: {pts:?} fsym of {t} {v}")) }
                m.fsym_self(&mut s);
                if s.tet != t || s.ver != v { fail(format!("case {case}: fsym twice of {t} {v}")) }
            }
        }
        for v in 0..n {
            let bump = Bump::new();
            let mut a: Vec<usize> = m.incident(v, &bump).iter().copied().collect();
            a.sort();
            let b: Vec<usize> = (0..m.tets.len()).filter(|&t| real.contains(&t) && m.tets[t].data.contains(&v)).collect();
            if a != b { fail(format!("case {case}: {pts:?} star of {v}: {a:?} expected {b:?}")) }
        }
    }
}
const SPH: i128 = 1;
