//! M01-M03: halfedge mesh against a plain list-of-loops model.
use crate::driver::*;
use crate::ensure;
use crate::src::Src;
use bumpalo::Bump;
use gpf::mesh::{EdgeId, ElementId, FaceId, HalfedgeId, Mesh, SurfaceMesh, VertexId};
use std::collections::{BTreeMap, BTreeSet};

/// Face loops: (origin vertex, edge token of the halfedge leaving it).
#[derive(Clone, Debug, Default)]
struct Model {
    n_vertices: usize,
    faces: Vec<Vec<(usize, usize)>>,
    /// end points of each edge token
    edges: Vec<(usize, usize)>,
}
impl Model {
    fn new(polys: &[Vec<usize>]) -> Model {
        let mut m = Model { n_vertices: polys.iter().flatten().max().unwrap() + 1, ..Default::default() };
        let mut id: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for p in polys {
            let mut f = vec![];
            for i in 0..p.len() {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let k = (a.min(b), a.max(b));
                let n = m.edges.len();
                let e = *id.entry(k).or_insert(n);
                if e == n {
                    m.edges.push(k);
                }
                f.push((a, e));
            }
            m.faces.push(f);
        }
        m
    }
}

/// Faces, edges and counts. `emap` maps edge tokens to mesh edges; tokens already in it must keep their edge.
fn check_core(w: &str, mesh: &SurfaceMesh, m: &Model, emap: &mut BTreeMap<usize, usize>) -> R {
    let nh: usize = m.faces.iter().map(|f| f.len()).sum();
    ensure!(mesh.n_vertices() == m.n_vertices && mesh.n_vertices_capacity() == m.n_vertices, format!("{w}:n_vertices"), "{} vertices, expected {}", mesh.n_vertices(), m.n_vertices);
    ensure!(mesh.n_faces() == m.faces.len() && mesh.n_faces_capacity() == m.faces.len(), format!("{w}:n_faces"), "{} faces, expected {}", mesh.n_faces(), m.faces.len());
    ensure!(mesh.n_halfedges() == nh && mesh.n_halfedges_capacity() == nh, format!("{w}:n_halfedges"), "{} halfedges, expected {nh}", mesh.n_halfedges());
    ensure!(mesh.n_edges() == m.edges.len() && mesh.n_edges_capacity() == m.edges.len(), format!("{w}:n_edges"), "{} edges, expected {}", mesh.n_edges(), m.edges.len());
    ensure!(mesh.faces().map(|f| f.0).eq(0..m.faces.len()), format!("{w}:faces()"), "the face iterator does not list every face");
    ensure!(mesh.halfedges().map(|f| f.0).eq(0..nh), format!("{w}:halfedges()"), "the halfedge iterator does not list every halfedge");
    ensure!(mesh.edges().map(|f| f.0).eq(0..m.edges.len()), format!("{w}:edges()"), "the edge iterator does not list every edge");
    let used: BTreeSet<usize> = m.faces.iter().flatten().map(|x| x.0).collect();
    ensure!(mesh.vertices().map(|f| f.0).eq(used.iter().copied()), format!("{w}:vertices()"), "the vertex iterator does not list the used vertices");
    let mut seen = vec![false; nh];
    for (fi, f) in m.faces.iter().enumerate() {
        let hs: Vec<HalfedgeId> = mesh.face(FaceId(fi)).halfedges().take(nh + 1).map(|h| *h).collect();
        ensure!(hs.len() == f.len(), format!("{w}:face-size"), "face {fi} has {} halfedges, expected {}", hs.len(), f.len());
        for h in &hs {
            ensure!(h.0 < nh && !seen[h.0], format!("{w}:face-halfedges"), "halfedge {h:?} listed twice");
            seen[h.0] = true;
            ensure!(mesh.he_face(*h) == FaceId(fi), format!("{w}:he_face"), "halfedge {h:?} of face {fi} says face {:?}", mesh.he_face(*h));
        }
        let vs: Vec<usize> = mesh.face(FaceId(fi)).vertices().take(nh + 1).map(|v| v.0).collect();
        ensure!(vs.iter().copied().eq(hs.iter().map(|h| mesh.he_vertex(*h).0)), format!("{w}:face-vertices"), "vertices and halfedges of face {fi} disagree");
        // align
        let mv: Vec<usize> = f.iter().map(|x| x.0).collect();
        let n = mv.len();
        // several alignments are possible only if a vertex repeats, which never happens here
        let Some(k) = (0..n).find(|&k| (0..n).all(|i| vs[(i + k) % n] == mv[i])) else {
            return fail(&format!("{w}:face-loop"), format!("face {fi} is {vs:?}, expected {mv:?}"));
        };
        for i in 0..n {
            let e = mesh.he_edge(hs[(i + k) % n]).0;
            let t = f[i].1;
            let old = *emap.entry(t).or_insert(e);
            ensure!(old == e, format!("{w}:he_edge"), "face {fi} vertex {}: edge {e}, expected {old}", f[i].0);
        }
    }
    // injective
    let im: BTreeSet<usize> = emap.values().copied().collect();
    ensure!(im.len() == emap.len() && emap.len() == m.edges.len(), format!("{w}:edge-merge"), "different edges share an id");
    for (t, e) in emap.iter() {
        let [a, b] = mesh.e_vertices(EdgeId(*e)).map(|v| v.0);
        let (x, y) = m.edges[*t];
        ensure!((a, b) == (x, y) || (b, a) == (x, y), format!("{w}:e_vertices"), "edge {e} joins {a} {b}, expected {x} {y}");
    }
    Ok(())
}

/// Every circulator and local navigation query, from the faces alone.
fn check_nav(w: &str, mesh: &SurfaceMesh, m: &Model) -> R {
    let nh = mesh.n_halfedges();
    let lim = nh + 2;
    let org: Vec<usize> = (0..nh).map(|h| mesh.he_vertex(HalfedgeId(h)).0).collect();
    let tip: Vec<usize> = (0..nh).map(|h| mesh.he_vertex(mesh.he_next(HalfedgeId(h))).0).collect();
    let edg: Vec<usize> = (0..nh).map(|h| mesh.he_edge(HalfedgeId(h)).0).collect();
    for h in 0..nh {
        let id = HalfedgeId(h);
        let he = mesh.halfedge(id);
        ensure!(mesh.halfedge_is_valid(id) && id.valid(), format!("{w}:valid"), "halfedge {h} is not valid");
        ensure!(mesh.he_tip_vertex(id).0 == tip[h] && he.to().0 == tip[h] && he.from().0 == org[h], format!("{w}:to-from"), "halfedge {h}: from {} to {}, expected {} {}", he.from().0, he.to().0, org[h], tip[h]);
        let [a, b] = he.vertices();
        ensure!((a.0, b.0) == (org[h], tip[h]), format!("{w}:he-vertices"), "vertices of halfedge {h}");
        let p = mesh.he_prev(id);
        ensure!(mesh.he_next(p) == id && *he.prev() == p && *he.next() == mesh.he_next(id), format!("{w}:prev"), "prev of halfedge {h} is {p:?}");
        ensure!(*he.edge() == mesh.he_edge(id) && *he.sibling() == mesh.he_sibling(id), format!("{w}:he-edge"), "edge / sibling of halfedge {h}");
        // twin: a halfedge of the same edge in the other direction if there is one
        let t = mesh.he_twin(id);
        let has = (0..nh).any(|k| edg[k] == edg[h] && org[k] != org[h]);
        if has {
            ensure!(edg[t.0] == edg[h] && org[t.0] == tip[h] && tip[t.0] == org[h], format!("{w}:twin"), "twin of halfedge {h} ({} {}) is {t:?} ({} {})", org[h], tip[h], org[t.0], tip[t.0]);
        } else {
            ensure!(t == id, format!("{w}:twin"), "halfedge {h} has no opposite but its twin is {t:?}");
        }
        ensure!(*he.twin() == t, format!("{w}:twin"), "twin() and he_twin disagree");
        let eh = mesh.e_halfedge(mesh.he_edge(id));
        ensure!(mesh.he_same_dir(id) == (org[h] == org[eh.0]), format!("{w}:same_dir"), "he_same_dir({h})");
        ensure!(mesh.hes_same_dir(id, eh) == (org[h] == org[eh.0]), format!("{w}:same_dir"), "hes_same_dir({h})");
    }
    for e in 0..mesh.n_edges() {
        let want: BTreeSet<usize> = (0..nh).filter(|&h| edg[h] == e).collect();
        let got: Vec<usize> = mesh.edge(EdgeId(e)).halfedges().take(lim).map(|h| h.0).collect();
        ensure!(got.len() == want.len() && got.iter().copied().collect::<BTreeSet<_>>() == want, format!("{w}:edge-halfedges"), "edge {e} lists {got:?}, expected {want:?}");
        ensure!(want.contains(&mesh.edge(EdgeId(e)).halfedge().0), format!("{w}:edge-halfedge"), "first halfedge of edge {e}");
        ensure!(mesh.edge_is_valid(EdgeId(e)), format!("{w}:valid"), "edge {e} is not valid");
    }
    for v in 0..m.n_vertices {
        let id = VertexId(v);
        let out: BTreeSet<usize> = (0..nh).filter(|&h| org[h] == v).collect();
        ensure!(mesh.vertex_is_valid(id) == !out.is_empty(), format!("{w}:valid"), "vertex {v}");
        if out.is_empty() {
            continue;
        }
        let inc: BTreeSet<usize> = (0..nh).filter(|&h| tip[h] == v).collect();
        let vx = mesh.vertex(id);
        let got: Vec<usize> = vx.outgoing_halfedges().take(lim).map(|h| h.0).collect();
        ensure!(got.len() == out.len() && got.iter().copied().collect::<BTreeSet<_>>() == out, format!("{w}:outgoing"), "vertex {v}: outgoing {got:?}, expected {out:?}");
        let got: Vec<usize> = vx.incoming_halfedges().take(lim).map(|h| h.0).collect();
        ensure!(got.len() == inc.len() && got.iter().copied().collect::<BTreeSet<_>>() == inc, format!("{w}:incoming"), "vertex {v}: incoming {got:?}, expected {inc:?}");
        ensure!(out.contains(&vx.out_halfedge().0) && inc.contains(&vx.in_halfedge().0), format!("{w}:v-halfedge"), "vertex {v}: out {:?} in {:?}", *vx.out_halfedge(), *vx.in_halfedge());
        let we: BTreeSet<usize> = out.iter().chain(&inc).map(|&h| edg[h]).collect();
        let got: Vec<usize> = vx.edges().take(lim).map(|e| e.0).collect();
        ensure!(got.len() == we.len() && got.iter().copied().collect::<BTreeSet<_>>() == we, format!("{w}:vertex-edges"), "vertex {v}: edges {got:?}, expected {we:?}");
        // one neighbour per edge
        let mut wn: Vec<usize> = we.iter().map(|&e| { let [a, b] = mesh.e_vertices(EdgeId(e)).map(|x| x.0); if a == v { b } else { a } }).collect();
        let mut got: Vec<usize> = vx.vertices().take(lim).map(|u| u.0).collect();
        wn.sort();
        got.sort();
        ensure!(got == wn, format!("{w}:vertex-vertices"), "vertex {v}: neighbours {got:?}, expected {wn:?}");
        // stepping by the neighbour maps alone stays around the vertex
        for &h in &out {
            let n = mesh.he_next_outgoing_neighbor(HalfedgeId(h));
            ensure!(out.contains(&n.0), format!("{w}:next-out"), "next outgoing of {h} is {n:?}");
        }
        for &h in &inc {
            let n = mesh.he_next_incoming_neighbor(HalfedgeId(h));
            ensure!(inc.contains(&n.0), format!("{w}:next-in"), "next incoming of {h} is {n:?}");
        }
    }
    Ok(())
}

fn gen_polys(s: &mut Src) -> Vec<Vec<usize>> {
    let mut polys: Vec<Vec<usize>> = match s.weighted(&[5, 3, 2, 2]) {
        0 => {
            // anything: random polygons on few vertices, with many shared edges
            let nv = s.range(3, 9);
            let nf = s.range(1, 10);
            (0..nf)
                .map(|_| {
                    let mut v: Vec<usize> = (0..nv).collect();
                    s.shuffle(&mut v);
                    v.truncate(s.range(3, nv.min(6)));
                    v
                })
                .collect()
        }
        1 => {
            // patch of a quad grid, some quads split, some dropped, some flipped
            let (w, h) = (s.range(1, 4), s.range(1, 4));
            let id = |i: usize, j: usize| i * (w + 1) + j;
            let mut p = vec![];
            for i in 0..h {
                for j in 0..w {
                    let q = vec![id(i, j), id(i, j + 1), id(i + 1, j + 1), id(i + 1, j)];
                    match s.weighted(&[4, 2, 1, 1]) {
                        0 => p.push(q),
                        1 => {
                            p.push(vec![q[0], q[1], q[2]]);
                            p.push(vec![q[0], q[2], q[3]]);
                        }
                        2 => p.push(q.into_iter().rev().collect()),
                        _ => {}
                    }
                }
            }
            if p.is_empty() {
                p.push(vec![0, 1, 2]);
            }
            p
        }
        2 => {
            // pages of a book: many faces on one edge
            let n = s.range(1, 7);
            (0..n)
                .map(|i| if s.bool() { vec![0, 1, i + 2] } else { vec![1, 0, i + 2] })
                .collect()
        }
        _ => {
            // closed polyhedra sharing a vertex or an edge
            let mut p = vec![vec![0, 1, 2], vec![0, 3, 1], vec![1, 3, 2], vec![2, 3, 0]];
            let k = s.range(0, 2);
            let map = match k {
                0 => [0, 4, 5, 6],
                1 => [0, 1, 4, 5],
                _ => [4, 5, 6, 7],
            };
            for i in 0..4 {
                let q: Vec<usize> = p[i].iter().map(|&v| map[v]).collect();
                p.push(q);
            }
            p
        }
    };
    // rename vertices (possibly leaving gaps), rotate faces, reorder, repeat a face
    let nv = polys.iter().flatten().max().unwrap() + 1;
    let gap = if s.chance(1, 4) { s.range(1, 4) } else { 0 };
    let mut name: Vec<usize> = (0..nv + gap).collect();
    s.shuffle(&mut name);
    for p in &mut polys {
        for v in p.iter_mut() {
            *v = name[*v];
        }
        let k = s.usize(p.len());
        p.rotate_left(k);
    }
    s.shuffle(&mut polys);
    if s.chance(1, 6) {
        let mut p = s.pick(&polys).clone();
        if s.bool() {
            p.reverse();
        }
        polys.push(p);
    }
    polys
}

fn build(polys: &[Vec<usize>]) -> Result<SurfaceMesh, Fail> {
    guarded("SurfaceMesh::new", || SurfaceMesh::new(polys)).map_err(|e| Fail { msg: format!("{} on {polys:?}", e.msg), ..e })
}

fn non_manifold(m: &Model) -> bool {
    let mut c = vec![0; m.edges.len()];
    for f in &m.faces {
        for x in f {
            c[x.1] += 1;
        }
    }
    c.iter().any(|&n| n > 2)
}

fn m01(s: &mut Src, c: &mut Ctx) -> R {
    let polys = gen_polys(s);
    c.describe(|| format!("{polys:?}"));
    let mesh = build(&polys)?;
    let m = Model::new(&polys);
    let mut emap = BTreeMap::new();
    check_core("M01", &mesh, &m, &mut emap).map_err(|e| Fail { msg: format!("{}\n  {polys:?}", e.msg), ..e })?;
    check_nav("M01", &mesh, &m).map_err(|e| Fail { msg: format!("{}\n  {polys:?}", e.msg), ..e })?;
    c.nontrivial = polys.len() >= 2 && m.edges.len() < polys.iter().map(|p| p.len()).sum();
    c.label(if non_manifold(&m) { "edge with more than two faces" } else { "at most two faces per edge" });
    Ok(())
}

/// random history; `nav` chooses which of the two checks runs after every step
fn history(s: &mut Src, c: &mut Ctx, w: &str, nav: bool) -> R {
    let polys = gen_polys(s);
    let mut mesh = build(&polys)?;
    let mut m = Model::new(&polys);
    let mut emap = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    check_core("start", &mesh, &m, &mut emap).map_err(|e| Fail { sig: format!("{w}:start"), msg: format!("{}\n  {polys:?}", e.msg) })?;
    if nav {
        check_nav(w, &mesh, &m).map_err(|e| Fail { msg: format!("{}\n  {polys:?}", e.msg), ..e })?;
    }
    let steps = s.range(0, if c.thorough { 30 } else { 10 });
    let mut kinds = BTreeSet::new();
    for step in 0..steps {
        let bump = Bump::new();
        match s.weighted(&[4, 4, 2]) {
            0 => {
                // split an edge
                let t = s.usize(m.edges.len());
                let e = EdgeId(emap[&t]);
                log.push(format!("split_edge({})", e.0));
                let v = guarded("split_edge", || mesh.split_edge(e, &bump)).map_err(|f| Fail { msg: format!("{}\n  {polys:?}\n  {log:?}", f.msg), ..f })?;
                ensure!(v.0 == m.n_vertices, format!("{w}:new-vertex"), "split_edge returned {v:?}: {polys:?} {log:?}");
                m.n_vertices += 1;
                let (a, b) = m.edges[t];
                let t2 = m.edges.len();
                // token t keeps the end that stays with the old id; find out which end that is
                let [x, y] = mesh.e_vertices(e).map(|q| q.0);
                let keep = if x == v.0 { y } else { x };
                ensure!((x == v.0 || y == v.0) && (keep == a || keep == b), format!("{w}:split-edge"), "after the split edge {e:?} joins {x} {y}; it joined {a} {b}: {polys:?} {log:?}");
                let other = if keep == a { b } else { a };
                m.edges[t] = (keep, v.0);
                m.edges.push((other, v.0));
                for f in &mut m.faces {
                    let mut i = 0;
                    while i < f.len() {
                        if f[i].1 == t && f[i].0 != v.0 {
                            // from a or b
                            if f[i].0 == keep {
                                f.insert(i + 1, (v.0, t2));
                            } else {
                                f[i].1 = t2;
                                f.insert(i + 1, (v.0, t));
                            }
                            i += 1;
                        }
                        i += 1;
                    }
                }
                kinds.insert("split_edge");
            }
            1 => {
                // split a face between two vertices that are not neighbours in it
                let cand: Vec<usize> = (0..m.faces.len()).filter(|&f| m.faces[f].len() >= 4).collect();
                if cand.is_empty() {
                    continue;
                }
                let f = *s.pick(&cand);
                let n = m.faces[f].len();
                let i = s.usize(n);
                let j = (i + s.range(2, n - 2)) % n;
                let (va, vb) = (m.faces[f][i].0, m.faces[f][j].0);
                log.push(format!("split_face({f}, {va}, {vb})"));
                let h = guarded("split_face", || mesh.split_face(FaceId(f), VertexId(va), VertexId(vb), &bump)).map_err(|e| Fail { msg: format!("{}\n  {polys:?}\n  {log:?}", e.msg), ..e })?;
                let t = m.edges.len();
                m.edges.push((va, vb));
                let lp = m.faces[f].clone();
                let part = |from: usize, to: usize| {
                    let mut v = vec![];
                    let mut k = from;
                    while k != to {
                        v.push(lp[k]);
                        k = (k + 1) % n;
                    }
                    v.push((lp[to].0, t));
                    v
                };
                let (p, q) = (part(i, j), part(j, i));
                // which half keeps the id is the library's choice
                ensure!(h.0 < mesh.n_halfedges() && mesh.he_face(h).0 == m.faces.len(), format!("{w}:split-face-result"), "split_face returned {h:?}, which is not in the new face: {polys:?} {log:?}");
                let mine: BTreeSet<usize> = mesh.face(FaceId(f)).vertices().take(n + 3).map(|v| v.0).collect();
                let ps: BTreeSet<usize> = p.iter().map(|x| x.0).collect();
                if mine == ps {
                    m.faces[f] = p;
                    m.faces.push(q);
                } else {
                    m.faces[f] = q;
                    m.faces.push(p);
                }
                let (x, y) = (mesh.he_vertex(h).0, mesh.he_tip_vertex(h).0);
                ensure!((x, y) == (va, vb) || (x, y) == (vb, va), format!("{w}:split-face-result"), "split_face returned a halfedge from {x} to {y}: {polys:?} {log:?}");
                kinds.insert("split_face");
            }
            _ => {
                // add a face along existing halfedges: walk until the walk closes
                let nh = mesh.n_halfedges();
                let mut walk = vec![HalfedgeId(s.usize(nh))];
                let start = mesh.he_vertex(walk[0]).0;
                let mut ok = false;
                for _ in 0..8 {
                    let at = mesh.he_tip_vertex(*walk.last().unwrap()).0;
                    if at == start {
                        ok = walk.len() >= 3;
                        break;
                    }
                    let seen: BTreeSet<usize> = walk.iter().map(|h| mesh.he_vertex(*h).0).collect();
                    let outs: Vec<usize> = (0..nh)
                        .filter(|&k| {
                            let to = mesh.he_tip_vertex(HalfedgeId(k)).0;
                            mesh.he_vertex(HalfedgeId(k)).0 == at && (!seen.contains(&to) || (to == start && walk.len() >= 2))
                        })
                        .collect();
                    if outs.is_empty() {
                        break;
                    }
                    // prefer closing
                    let close: Vec<usize> = outs.iter().copied().filter(|&k| mesh.he_tip_vertex(HalfedgeId(k)).0 == start).collect();
                    let k = if !close.is_empty() && s.chance(2, 3) { *s.pick(&close) } else { *s.pick(&outs) };
                    walk.push(HalfedgeId(k));
                }
                if !ok {
                    continue;
                }
                let back: BTreeMap<usize, usize> = emap.iter().map(|(t, e)| (*e, *t)).collect();
                let lp: Vec<(usize, usize)> = walk.iter().map(|h| (mesh.he_vertex(*h).0, back[&mesh.he_edge(*h).0])).collect();
                log.push(format!("add_face({:?})", walk.iter().map(|h| h.0).collect::<Vec<_>>()));
                let f = guarded("add_face_by_halfedges", || mesh.add_face_by_halfedges(&walk, &bump)).map_err(|e| Fail { msg: format!("{}\n  {polys:?}\n  {log:?}", e.msg), ..e })?;
                ensure!(f.0 == m.faces.len(), format!("{w}:new-face"), "add_face returned {f:?}: {polys:?} {log:?}");
                m.faces.push(lp);
                kinds.insert("add_face");
            }
        }
        let fin = |e: Fail| Fail { msg: format!("{}\n  {polys:?}\n  {log:?}\n  expected faces {:?}", e.msg, m.faces.iter().map(|f| f.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()), ..e };
        check_core(w, &mesh, &m, &mut emap).map_err(fin)?;
        if nav || step + 1 == steps {
            check_nav(w, &mesh, &m).map_err(fin)?;
        }
    }
    c.describe(|| format!("{polys:?} then {log:?}"));
    c.nontrivial = kinds.len() >= 2 || (nav && polys.len() >= 2);
    for k in kinds {
        c.label(k);
    }
    if non_manifold(&m) {
        c.label("edge with more than two faces");
    }
    Ok(())
}
fn m02(s: &mut Src, c: &mut Ctx) -> R {
    history(s, c, "M02", false)
}
fn m03(s: &mut Src, c: &mut Ctx) -> R {
    history(s, c, "M03", true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M01",
            rule: "a case is one polygon list; non-trivial when it has several polygons and some edge is shared",
            quick: 4_000_000,
            thorough: 20_000_000,
            chunk: 5_000,
            timeout_s: 300,
            run: m01,
            fixed: &[],
            assumptions: &["every polygon has at least three distinct vertices"],
        },
        Prop {
            id: "M02",
            rule: "a case is a polygon list followed by a history of edge splits, face splits and added faces; non-trivial when at least two kinds of operation were applied",
            quick: 1_500_000,
            thorough: 6_000_000,
            chunk: 2_000,
            timeout_s: 300,
            run: m02,
            fixed: &[],
            assumptions: &["faces are split between vertices that are not neighbours in the face"],
        },
        Prop {
            id: "M03",
            rule: "a case is a polygon list and a history as in M02, with every navigation query made after every step; non-trivial when there are several polygons",
            quick: 400_000,
            thorough: 4_000_000,
            chunk: 500,
            timeout_s: 300,
            run: m03,
            fixed: &[],
            assumptions: &["faces are split between vertices that are not neighbours in the face"],
        },
    ]
}
