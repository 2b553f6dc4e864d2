// unions of boxes (sheared by an integer matrix): the result has to be closed and contain exactly the cells of the union
use gpf::polygonlization::{make_mesh_for_triangles, make_polyhedral_mesh};
struct R(u64);
impl R { fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % k as u64) as usize } }
fn fail(s: String) -> ! { println!("{s}"); std::process::exit(1) }
type V = [f64; 3];
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn crs(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn wind(pts: &[V], tri: &[usize], p: V) -> f64 {
    let mut w = 0.0;
    for t in tri.chunks(3) {
        let (a, b, c) = (sub(pts[t[0]], p), sub(pts[t[1]], p), sub(pts[t[2]], p));
        let (la, lb, lc) = (dot(a, a).sqrt(), dot(b, b).sqrt(), dot(c, c).sqrt());
        w += 2.0 * dot(a, crs(b, c)).atan2(la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb);
    }
    w / (4.0 * std::f64::consts::PI)
}
// corners of a box by bits, faces as counter-clockwise quads seen from outside
const Q: [[usize; 4]; 6] = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]];
fn main() {
    let mut r = R(SEED);
    for case in 0..CASES {
        let m: [V; 3] = loop {
            let mut m = [[0.0; 3]; 3];
            for x in m.iter_mut().flatten() { *x = r.n(5) as f64 - 2.0; }
            if ORTHO || r.n(2) == 0 { m = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]; }
            if dot(m[0], crs(m[1], m[2])) > 0.5 { break m; }
        };
        let map = |p: V| -> V { let mut q = [0.0; 3]; for i in 0..3 { for k in 0..3 { q[k] += m[i][k] * p[i]; } } q };
        let nb = 1 + r.n(MAXB);
        let g = 4;
        let boxes: Vec<[[usize; 2]; 3]> = (0..nb).map(|_| [0; 3].map(|_| { let a = r.n(g); [a, a + 1 + r.n(g - a)] })).collect();
        let inside = |c: V| boxes.iter().any(|b| (0..3).all(|k| (b[k][0] as f64) < c[k] && c[k] < b[k][1] as f64));
        let mut pts: Vec<f64> = vec![];
        let (mut tris, mut shells) = (vec![], vec![]);
        let (mut faces, mut fshell, mut axes): (Vec<Vec<usize>>, Vec<usize>, Vec<f64>) = (vec![], vec![], vec![]);
        let one = ONESHELL && r.n(2) == 0;
        for (bi, b) in boxes.iter().enumerate() {
            let base = pts.len() / 3;
            let sh = if one { 0 } else { bi };
            let mut cs = vec![];
            for i in 0..8 { let p = map([b[0][i & 1] as f64, b[1][i >> 1 & 1] as f64, b[2][i >> 2 & 1] as f64]); cs.push(p); pts.extend(p); }
            for q in Q {
                let k = r.n(4);
                let q = [q[k], q[(k + 1) % 4], q[(k + 2) % 4], q[(k + 3) % 4]];
                tris.extend([base + q[0], base + q[1], base + q[2], base + q[0], base + q[2], base + q[3]]);
                shells.extend([sh, sh]);
                let (o, x) = (cs[q[0]], sub(cs[q[1]], cs[q[0]]));
                let y = crs(crs(x, sub(cs[q[2]], o)), x);
                for v in [o, x, y] { let l = if v == o { 1.0 } else { dot(v, v).sqrt() }; axes.extend(v.map(|c| c / l)); }
                faces.push((0..4).flat_map(|i| [base + q[i], base + q[(i + 1) % 4]]).collect());
                fshell.push(sh);
            }
        }
        let poly = POLY && r.n(2) == 0;
        let what = format!("case {case}: boxes {boxes:?} matrix {m:?} polygons {poly} one shell {one}");
        if DROP && nb == 1 && !poly {
            // one triangle of one side is missing, the side lies free
            let k = r.n(12);
            tris.drain(3 * k..3 * k + 3);
            shells.remove(k);
        }
        if STRAY && !poly {
            // a small triangle in the middle of a cell
            let c = [r.n(g) as f64 + 0.5, r.n(g) as f64 + 0.5, r.n(g) as f64 + 0.5];
            let base = pts.len() / 3;
            for d in [[0.125, 0.0, 0.0], [-0.125, 0.125, 0.0], [-0.125, -0.125, 0.0625]] { pts.extend(map([c[0] + d[0], c[1] + d[1], c[2] + d[2]])); }
            tris.extend([base, base + 1, base + 2]);
            shells.push(r.n(nb));
        }
        let (p, t) = if poly { make_polyhedral_mesh(&pts, &axes, &fshell, &faces, 1e-6) } else { make_mesh_for_triangles(&pts, &tris, &shells) };
        let p: Vec<V> = p.chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
        let mut e = std::collections::BTreeMap::<(usize, usize), i32>::new();
        for k in t.chunks(3) { for i in 0..3 { *e.entry((k[i], k[(i + 1) % 3])).or_default() += 1; } }
        for (&(a, b), &c) in &e { if e.get(&(b, a)) != Some(&c) { fail(format!("{what}: open edge {a} {b}")) } }
        let vol: f64 = t.chunks(3).map(|k| dot(p[k[0]], crs(p[k[1]], p[k[2]]))).sum::<f64>() / 6.0;
        let mut cells = 0;
        for i in 0..g { for j in 0..g { for k in 0..g {
            let c = [i as f64 + 0.47, j as f64 + 0.53, k as f64 + 0.39];
            let want = inside(c);
            cells += want as usize;
            let w = wind(&p, &t, map(c));
            if (w - want as i32 as f64).abs() > 1e-3 { fail(format!("{what}: cell {i} {j} {k} winds {w}, inside {want}")) }
        } } }
        let want = cells as f64 * dot(m[0], crs(m[1], m[2]));
        if (vol - want).abs() > 1e-3 * (1.0 + want) { fail(format!("{what}: volume {vol}, expected {want}")) }
        let used: std::collections::BTreeSet<usize> = t.iter().copied().collect();
        if used.len() != p.len() { fail(format!("{what}: unused points")) }
    }
}
const SEED: u64 = 29;
const CASES: usize = 600;
const ONESHELL: bool = false;
const POLY: bool = true;
const DROP: bool = false;
const STRAY: bool = false;
const MAXB: usize = 3;
const ORTHO: bool = false;
