// planar triangulations on integer points against exact integer geometry
use bumpalo::Bump;
use gpf::triangle::triangulate;
struct R(u64);
impl R { fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % k as u64) as usize } }
type P = [i64; 2];
fn cr(a: P, b: P, c: P) -> i64 { (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) }
fn inc(a: P, b: P, c: P, d: P) -> i128 {
    let f = |p: P| { let (x, y) = ((p[0] - d[0]) as i128, (p[1] - d[1]) as i128); (x, y, x * x + y * y) };
    let (a, b, c) = (f(a), f(b), f(c));
    a.0 * (b.1 * c.2 - c.1 * b.2) - a.1 * (b.0 * c.2 - c.0 * b.2) + a.2 * (b.0 * c.1 - c.0 * b.1)
}
fn fail(s: String) -> ! { println!("{s}"); std::process::exit(1) }
fn main() {
    let mut r = R(17);
    for case in 0..SCALE * 3000 {
        let g = 2 + r.n(12);
        let mut pts: Vec<P> = (0..1 + r.n(24)).map(|_| [r.n(g) as i64, r.n(g) as i64]).collect();
        pts.sort();
        pts.dedup();
        for i in (1..pts.len()).rev() { let j = r.n(i + 1); pts.swap(i, j); }
        let flat: Vec<f64> = pts.iter().flatten().map(|&x| x as f64).collect();
        let bump = Bump::new();
        // hull area
        let mut s = pts.clone();
        s.sort();
        let mut h: Vec<P> = vec![];
        for pass in 0..2 {
            let st = h.len();
            let it: Vec<P> = if pass == 0 { s.clone() } else { s.iter().rev().copied().collect() };
            for p in it { while h.len() >= st + 2 && cr(h[h.len() - 2], h[h.len() - 1], p) <= 0 { h.pop(); } h.push(p); }
            h.pop();
        }
        let area: i64 = (0..h.len()).map(|i| { let (a, b) = (h[i], h[(i + 1) % h.len()]); a[0] * b[1] - a[1] * b[0] }).sum();
        let t = triangulate(&flat, &[], &bump);
        let mut used = vec![false; pts.len()];
        let mut sum = 0;
        for k in t.chunks(3) {
            let (a, b, c) = (pts[k[0]], pts[k[1]], pts[k[2]]);
            if cr(a, b, c) <= 0 { fail(format!("case {case}: {pts:?} triangle {k:?} is not counter-clockwise")) }
            sum += cr(a, b, c);
            for &i in k { used[i] = true; }
            for (i, &d) in pts.iter().enumerate() { if inc(a, b, c, d) > 0 { fail(format!("case {case}: {pts:?} point {i} in circle of {k:?}")) } }
        }
        if sum != area || (area > 0 && used.iter().any(|u| !u)) { fail(format!("case {case}: {pts:?} area {sum} of {area}, used {used:?}")) }
        // a simple polygon through all the points: sorted around an interior direction (star shaped), with the rest inside
        if area > 0 {
            let c0: P = [pts.iter().map(|p| p[0]).sum::<i64>(), pts.iter().map(|p| p[1]).sum::<i64>()];
            let n = pts.len() as i64;
            let q: Vec<P> = pts.iter().map(|p| [p[0] * n - c0[0], p[1] * n - c0[1]]).collect();
            let mut idx: Vec<usize> = (0..pts.len()).filter(|&i| q[i] != [0, 0] && r.n(4) > 0).collect();
            let half = |p: P| p[1] < 0 || (p[1] == 0 && p[0] < 0);
            idx.sort_by(|&i, &j| half(q[i]).cmp(&half(q[j])).then(0.cmp(&cr([0, 0], q[i], q[j]))).then((q[i][0].abs() + q[i][1].abs()).cmp(&(q[j][0].abs() + q[j][1].abs()))));
            idx.dedup_by(|a, b| half(q[*a]) == half(q[*b]) && cr([0, 0], q[*a], q[*b]) == 0);
            let m = idx.len();
            if m < 3 || (0..m).any(|i| cr([0, 0], q[idx[i]], q[idx[(i + 1) % m]]) <= 0) { continue; }
            let segs: Vec<usize> = (0..m).flat_map(|i| [idx[i], idx[(i + 1) % m]]).collect();
            let pa: i64 = (0..m).map(|i| cr([0, 0], pts[idx[i]], pts[idx[(i + 1) % m]])).sum();
            let t = triangulate(&flat, &segs, &bump);
            let mut sum = 0;
            let mut es = std::collections::BTreeSet::new();
            for k in t.chunks(3) {
                let (a, b, c) = (pts[k[0]], pts[k[1]], pts[k[2]]);
                if cr(a, b, c) <= 0 { fail(format!("case {case}: {pts:?} {segs:?} triangle {k:?} is not counter-clockwise")) }
                sum += cr(a, b, c);
                for i in 0..3 { if !es.insert((k[i], k[(i + 1) % 3])) { fail(format!("case {case}: edge twice")) } }
            }
            if sum != pa { fail(format!("case {case}: {pts:?} {segs:?} area {sum} of {pa}: {t:?}")) }
            for &(a, b) in &es {
                // every edge is shared, or lies on the outline
                if !es.contains(&(b, a)) {
                    let on = (0..m).any(|i| { let (s, e) = (pts[idx[i]], pts[idx[(i + 1) % m]]); cr(s, e, pts[a]) == 0 && cr(s, e, pts[b]) == 0 });
                    if !on { fail(format!("case {case}: {pts:?} {segs:?} open edge {a} {b}")) }
                }
            }
        }
    }
}
const SCALE: usize = 1;
