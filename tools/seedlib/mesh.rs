// random polygon lists and editing histories; after every step the mesh has to be consistent
use bumpalo::Bump;
use gpf::mesh::*;
use std::collections::BTreeSet;
struct R(u64);
impl R { fn n(&mut self, k: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) % k as u64) as usize } }
fn canon(mut f: Vec<usize>) -> Vec<usize> { let k = (0..f.len()).min_by_key(|&i| f[i]).unwrap_or(0); f.rotate_left(k); f }
fn faces(m: &SurfaceMesh) -> Vec<Vec<usize>> { let mut v: Vec<_> = (0..m.n_faces()).map(|f| canon(m.face(FaceId(f)).vertices().take(200).map(|v| v.0).collect())).collect(); v.sort(); v }
fn fail(s: String) -> ! { println!("{s}"); std::process::exit(1) }
fn set<T: Iterator<Item = usize>>(it: T, what: &str) -> BTreeSet<usize> { let v: Vec<usize> = it.take(500).collect(); let s: BTreeSet<usize> = v.iter().copied().collect(); if s.len() != v.len() { fail(format!("{what}: something listed twice {v:?}")) } s }
fn check(m: &SurfaceMesh, want: &[Vec<usize>], log: &str) {
    let mut w: Vec<_> = want.iter().cloned().map(canon).collect();
    w.sort();
    let got = faces(m);
    if got != w { fail(format!("faces {got:?}\nexpected {w:?}\n{log}")) }
    let nh = m.n_halfedges();
    let (mut seen, mut owner) = (0, vec![usize::MAX; nh]);
    for f in 0..m.n_faces() { for h in set(m.face(FaceId(f)).halfedges().map(|h| h.0), log) { seen += 1; owner[h] = f; } }
    if seen != nh || nh != want.iter().map(|f| f.len()).sum::<usize>() { fail(format!("{seen} of {nh} halfedges in faces\n{log}")) }
    let id = |h: usize| HalfedgeId(h);
    for h in 0..nh {
        if m.he_face(id(h)).0 != owner[h] { fail(format!("halfedge {h} belongs to face {} not {:?}\n{log}", owner[h], m.he_face(id(h)))) }
        if m.he_next(m.he_prev(id(h))) != id(h) { fail(format!("prev/next of {h}\n{log}")) }
        let (a, b) = (m.he_vertex(id(h)).0, m.he_tip_vertex(id(h)).0);
        let [x, y] = m.e_vertices(m.he_edge(id(h))).map(|v| v.0);
        if (a, b) != (x, y) && (a, b) != (y, x) { fail(format!("halfedge {h} joins {a} {b}, its edge {x} {y}\n{log}")) }
    }
    for e in 0..m.n_edges() {
        let got = set(m.edge(EdgeId(e)).halfedges().map(|h| h.0), log);
        let want: BTreeSet<usize> = (0..nh).filter(|&h| m.he_edge(id(h)).0 == e).collect();
        if got != want || want.is_empty() { fail(format!("edge {e}: {got:?} expected {want:?}\n{log}")) }
    }
    for v in 0..m.n_vertices() {
        let out: BTreeSet<usize> = (0..nh).filter(|&h| m.he_vertex(id(h)).0 == v).collect();
        let inc: BTreeSet<usize> = (0..nh).filter(|&h| m.he_tip_vertex(id(h)).0 == v).collect();
        if out.is_empty() { continue; }
        let vx = m.vertex(VertexId(v));
        if set(vx.outgoing_halfedges().map(|h| h.0), log) != out { fail(format!("outgoing of {v}\n{log}")) }
        if set(vx.incoming_halfedges().map(|h| h.0), log) != inc { fail(format!("incoming of {v}\n{log}")) }
        let es: BTreeSet<usize> = out.iter().chain(&inc).map(|&h| m.he_edge(id(h)).0).collect();
        if set(vx.edges().map(|e| e.0), log) != es { fail(format!("edges of {v}\n{log}")) }
    }
}
fn main() {
    let mut r = R(11);
    for case in 0..4000 {
        let nv = 3 + r.n(5);
        let mut polys: Vec<Vec<usize>> = vec![];
        for _ in 0..1 + r.n(5) {
            let mut v: Vec<usize> = (0..nv).collect();
            for i in (1..nv).rev() { let j = r.n(i + 1); v.swap(i, j); }
            v.truncate(3 + r.n(nv - 2));
            polys.push(v);
        }
        let mut m = SurfaceMesh::new(&polys);
        let mut log = format!("case {case}: {polys:?}");
        check(&m, &polys, &log);
        for _ in 0..r.n(7) {
            let bump = Bump::new();
            match r.n(3) {
                0 => {
                    let e = r.n(m.n_edges());
                    log += &format!(" split_edge {e}");
                    let mut at = vec![];
                    for (f, _) in polys.iter().enumerate() { for h in m.face(FaceId(f)).halfedges() { if m.he_edge(*h).0 == e { at.push((f, m.he_vertex(*h).0, m.he_tip_vertex(*h).0)); } } }
                    let v = m.split_edge(EdgeId(e), &bump).0;
                    for (f, a, b) in at {
                        let n = polys[f].len();
                        let i = (0..n).find(|&i| polys[f][i] == a && polys[f][(i + 1) % n] == b).unwrap();
                        polys[f].insert(i + 1, v);
                    }
                }
                1 => {
                    let f = r.n(polys.len());
                    let n = polys[f].len();
                    if n < 4 { continue; }
                    let p: Vec<usize> = m.face(FaceId(f)).vertices().map(|v| v.0).collect();
                    let i = r.n(n);
                    let j = (i + 2 + r.n(n - 3)) % n;
                    log += &format!(" split_face {f} {} {}", p[i], p[j]);
                    let h = m.split_face(FaceId(f), VertexId(p[i]), VertexId(p[j]), &bump);
                    if m.he_face(h).0 != polys.len() { fail(format!("split_face returned {h:?}\n{log}")) }
                    let part = |a: usize, b: usize| { let mut v = vec![p[a]]; let mut k = a; while k != b { k = (k + 1) % n; v.push(p[k]); } v };
                    let (x, y) = (part(i, j), part(j, i));
                    let xs: BTreeSet<usize> = x.iter().copied().collect();
                    let mine: BTreeSet<usize> = m.face(FaceId(f)).vertices().take(200).map(|v| v.0).collect();
                    if mine == xs { polys[f] = x; polys.push(y); } else { polys[f] = y; polys.push(x); }
                }
                _ => {
                    let f = r.n(polys.len());
                    let hs: Vec<HalfedgeId> = m.face(FaceId(f)).halfedges().map(|h| *h).collect();
                    log += &format!(" add_face {f}");
                    let g = m.add_face_by_halfedges(&hs, &bump);
                    if g.0 != polys.len() { fail(format!("add_face returned {g:?}\n{log}")) }
                    polys.push(polys[f].clone());
                }
            }
            check(&m, &polys, &log);
        }
    }
}
