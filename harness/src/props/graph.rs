//! G01-G02: maximum flow / minimum cut; D01: disjoint sets.
use crate::driver::*;
use crate::ensure;
use crate::src::Src;
use gpf::disjoint_set::DisjointSet;
use gpf::graphcut::{ArcBuilder, GraphCut, MaxFlow, PushRelabelFifo};
use std::collections::{BTreeMap, BTreeSet};

/// reference maximum flow (breadth-first augmenting paths on an adjacency matrix of integers)
fn max_flow_ref(n: usize, arcs: &[(usize, usize, i64)], s: usize, t: usize) -> i64 {
    let mut g: Vec<BTreeMap<usize, i64>> = vec![BTreeMap::new(); n];
    for &(a, b, c) in arcs {
        if a != b {
            *g[a].entry(b).or_insert(0) += c;
            g[b].entry(a).or_insert(0);
        }
    }
    let mut flow = 0;
    loop {
        let mut par = vec![usize::MAX; n];
        par[s] = s;
        let mut q = std::collections::VecDeque::from([s]);
        while let Some(u) = q.pop_front() {
            for (&v, &c) in &g[u] {
                if c > 0 && par[v] == usize::MAX {
                    par[v] = u;
                    q.push_back(v);
                }
            }
        }
        if par[t] == usize::MAX {
            return flow;
        }
        let mut d = i64::MAX;
        let mut v = t;
        while v != s {
            d = d.min(g[par[v]][&v]);
            v = par[v];
        }
        let mut v = t;
        while v != s {
            let u = par[v];
            *g[u].get_mut(&v).unwrap() -= d;
            *g[v].get_mut(&u).unwrap() += d;
            v = u;
        }
        flow += d;
    }
}
fn cut_value(arcs: &[(usize, usize, i64)], sink_side: &[bool]) -> i64 {
    arcs.iter().filter(|a| !sink_side[a.0] && sink_side[a.1]).map(|a| a.2).sum()
}

#[derive(Debug)]
struct Net {
    src: Vec<i64>,
    snk: Vec<i64>,
    /// i, j, capacity, reverse capacity
    edges: Vec<(usize, usize, i64, i64)>,
}
fn gen_net(s: &mut Src) -> Net {
    let n = match s.weighted(&[6, 4, 2]) {
        0 => s.range(1, 7),
        1 => s.range(3, 16),
        _ => s.range(10, 60),
    };
    let maxc = *s.pick(&[1i64, 2, 4, 10, 1000, 1 << 30]);
    let zero = *s.pick(&[0u64, 0, 1, 3, 6]);
    let cap = |s: &mut Src| if s.chance(zero, 10) { 0 } else { s.below(maxc as u64 + 1) as i64 };
    let mut src = vec![0; n];
    let mut snk = vec![0; n];
    let term = s.weighted(&[2, 3, 3]);
    for i in 0..n {
        match term {
            0 => {
                src[i] = cap(s);
                snk[i] = cap(s);
            }
            1 => {
                if s.bool() {
                    src[i] = cap(s)
                } else {
                    snk[i] = cap(s)
                }
            }
            _ => {
                // few terminals
                if s.chance(1, 4) {
                    src[i] = cap(s)
                } else if s.chance(1, 4) {
                    snk[i] = cap(s)
                }
            }
        }
    }
    let mut edges = vec![];
    match s.weighted(&[4, 3, 2, 2]) {
        0 => {
            let m = s.range(0, 3 * n);
            for _ in 0..m {
                let (i, j) = (s.usize(n), s.usize(n));
                if i != j {
                    edges.push((i, j));
                }
            }
        }
        1 => {
            // grid
            let w = s.range(1, n);
            for i in 0..n {
                if (i + 1) % w != 0 && i + 1 < n {
                    edges.push((i, i + 1));
                }
                if i + w < n {
                    edges.push((i, i + w));
                }
            }
        }
        2 => {
            // path, with chords
            for i in 1..n {
                edges.push((i - 1, i));
            }
            for _ in 0..s.range(0, n / 2) {
                let (i, j) = (s.usize(n), s.usize(n));
                if i != j {
                    edges.push((i, j));
                }
            }
        }
        _ => {
            // layered
            let l = s.range(1, 5);
            let m = s.range(0, 4 * n);
            for _ in 0..m {
                let (i, j) = (s.usize(n), s.usize(n));
                if i != j && i * l / n + 1 >= j * l / n {
                    edges.push((i, j));
                }
            }
        }
    }
    let sym = s.weighted(&[2, 2, 2]);
    let edges = edges
        .into_iter()
        .map(|(i, j)| {
            let c = cap(s);
            let r = match sym {
                0 => c,
                1 => 0,
                _ => cap(s),
            };
            if s.bool() { (i, j, c, r) } else { (j, i, c, r) }
        })
        .collect();
    Net { src, snk, edges }
}
/// arcs with node 0 = source, 1..=n, n+1 = sink
fn arcs_of(net: &Net) -> Vec<(usize, usize, i64)> {
    let n = net.src.len();
    let mut a = vec![];
    for i in 0..n {
        a.push((0, i + 1, net.src[i]));
        a.push((i + 1, n + 1, net.snk[i]));
    }
    for &(i, j, c, r) in &net.edges {
        a.push((i + 1, j + 1, c));
        a.push((j + 1, i + 1, r));
    }
    a
}

fn g01(s: &mut Src, c: &mut Ctx) -> R {
    let net = gen_net(s);
    let n = net.src.len();
    let unit = crate::bigint::ldexp(1.0, s.irange(-20, 10));
    c.describe(|| format!("{net:?} in units of {unit:?}"));
    let arcs = arcs_of(&net);
    let want = max_flow_ref(n + 2, &arcs, 0, n + 1);
    let f = |v: &[i64]| v.iter().map(|&x| x as f64 * unit).collect::<Vec<_>>();
    let run = || {
        let mut g = GraphCut::new(&f(&net.src), &f(&net.snk));
        for &(i, j, a, b) in &net.edges {
            g.add_edge(i, j, a as f64 * unit, b as f64 * unit);
        }
        let v = g.max_flow();
        let side = g.is_sink.clone();
        let again = g.max_flow();
        (v, g.flow, again, side)
    };
    let (v, fl, again, side) = guarded("GraphCut", run).map_err(|e| Fail { msg: format!("{} on {net:?}", e.msg), ..e })?;
    let w = want as f64 * unit;
    ensure!(v == w, "G01:flow", "max_flow = {v:?}, the maximum is {w:?}: {net:?} x {unit:?}");
    ensure!(fl == v && again == v, "G01:flow-field", "flow field {fl:?}, second call {again:?}, first {v:?}");
    ensure!(side.len() == n, "G01:sides", "{} sides for {n} nodes", side.len());
    let mut ss = vec![false; n + 2];
    ss[n + 1] = true;
    ss[1..=n].copy_from_slice(&side);
    let cut = cut_value(&arcs, &ss);
    ensure!(cut == want, "G01:cut", "is_sink {side:?} cuts {cut}, the minimum is {want}: {net:?}");
    c.nontrivial = want > 0 && side.iter().any(|&b| b) && side.iter().any(|&b| !b);
    let direct: i64 = net.src.iter().zip(&net.snk).map(|(a, b)| a.min(b)).sum();
    c.label(if want == 0 { "no flow" } else if want == direct { "flow through single nodes only" } else { "flow along edges" });
    Ok(())
}

fn run_pr<T>(n: usize, arcs: Vec<(usize, usize, T)>) -> Vec<bool>
where
    T: Copy + PartialOrd + From<i32> + std::ops::AddAssign + std::ops::SubAssign,
{
    let mut g = PushRelabelFifo::from((arcs, n));
    g.find_max_flow();
    (0..n).map(|i| g.is_sink(i)).collect()
}

fn g02(s: &mut Src, c: &mut Ctx) -> R {
    let net = gen_net(s);
    let n = net.src.len();
    // through the builder, or an arbitrary arc list in arbitrary order
    let direct = s.bool();
    let mut arcs: Vec<(usize, usize, i64)>;
    let given: Vec<(usize, usize, i64)>;
    if direct {
        arcs = arcs_of(&net);
        if s.bool() {
            arcs.retain(|a| a.2 != 0);
        }
        // arcs into the source, out of the sink, from source to sink
        for _ in 0..s.range(0, 2) {
            let i = s.range(1, n);
            match s.usize(3) {
                0 => arcs.push((i, 0, s.range(0, 5) as i64)),
                1 => arcs.push((n + 1, i, s.range(0, 5) as i64)),
                _ => arcs.push((0, n + 1, s.range(0, 5) as i64)),
            }
        }
        s.shuffle(&mut arcs);
        given = arcs.clone();
    } else {
        let built = guarded("ArcBuilder", || {
            let mut b = ArcBuilder::new(&net.src[..], &net.snk[..]);
            for &(i, j, a, r) in &net.edges {
                if a == r {
                    b.add_arc(i, j, a, true);
                } else {
                    b.add_arc(i, j, a, false);
                    b.add_arc(j, i, r, false);
                }
            }
            b.arcs
        })?;
        arcs = arcs_of(&net);
        let sum = |v: &[(usize, usize, i64)]| {
            let mut m: BTreeMap<(usize, usize), i64> = BTreeMap::new();
            for a in v {
                if a.2 != 0 {
                    *m.entry((a.0, a.1)).or_insert(0) += a.2;
                }
            }
            m
        };
        ensure!(sum(&built) == sum(&arcs), "G02:builder", "the builder's arcs {built:?} are not those of {net:?}");
        given = built;
    }
    c.describe(|| format!("{} nodes, arcs {given:?}", n + 2));
    let want = max_flow_ref(n + 2, &arcs, 0, n + 1);
    let kind = s.usize(3);
    let side = guarded("PushRelabelFifo", || match kind {
        0 => run_pr::<i64>(n + 2, given.clone()),
        1 => run_pr::<f64>(n + 2, given.iter().map(|a| (a.0, a.1, a.2 as f64 * 0.125)).collect()),
        _ => run_pr::<i128>(n + 2, given.iter().map(|a| (a.0, a.1, a.2 as i128)).collect()),
    })
    .map_err(|e| Fail { msg: format!("{} on {given:?}", e.msg), ..e })?;
    ensure!(!side[0] && side[n + 1], "G02:terminals", "source on the sink side {}, sink on the sink side {}: {given:?}", side[0], side[n + 1]);
    let cut = cut_value(&arcs, &side);
    ensure!(cut == want, "G02:cut", "sides {side:?} cut {cut}, the minimum is {want}: {} nodes {given:?}", n + 2);
    c.nontrivial = want > 0 && side[1..=n].iter().any(|&b| b) && side[1..=n].iter().any(|&b| !b);
    c.label(if direct { "arc list" } else { "builder" });
    Ok(())
}

fn d01(s: &mut Src, c: &mut Ctx) -> R {
    let n = match s.weighted(&[5, 3, 1]) {
        0 => s.range(0, 8),
        1 => s.range(5, 40),
        _ => s.range(30, 200),
    };
    let mut model: Vec<usize> = (0..n).collect();
    let steps = if n == 0 { 0 } else { s.range(0, 2 * n + 4) };
    let mut ops = vec![];
    let mut d = DisjointSet::new(n);
    let mut merged = 0;
    for k in 0..=steps {
        let groups = n - merged;
        ensure!(d.n_groups == groups, "D01:count", "n_groups {} after {ops:?}, expected {groups}", d.n_groups);
        if k == steps || s.chance(1, 8) {
            let out = guarded("output", || d.output()).map_err(|e| Fail { msg: format!("{} n={n} {ops:?}", e.msg), ..e })?;
            let got: BTreeSet<Vec<usize>> = out.values().map(|v| { let mut v = v.clone(); v.sort(); v }).collect();
            let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for (i, &r) in model.iter().enumerate() {
                m.entry(r).or_default().push(i);
            }
            let want: BTreeSet<Vec<usize>> = m.into_values().collect();
            ensure!(got == want && out.len() == want.len(), "D01:groups", "groups {got:?}, expected {want:?} after {ops:?}");
            for (k, v) in &out {
                ensure!(v.contains(k), "D01:key", "group {v:?} is filed under {k}");
            }
        }
        if k < steps {
            let (a, b) = match s.weighted(&[4, 2, 1]) {
                0 => (s.usize(n), s.usize(n)),
                1 => { let a = s.usize(n); (a, (a + 1) % n) }
                _ => { let a = s.usize(n); (a, a) }
            };
            ops.push((a, b));
            guarded("merge", || d.merge(a, b)).map_err(|e| Fail { msg: format!("{} n={n} {ops:?}", e.msg), ..e })?;
            let (x, y) = (model[a], model[b]);
            if x != y {
                merged += 1;
                for r in &mut model {
                    if *r == y {
                        *r = x;
                    }
                }
            }
        }
    }
    c.describe(|| format!("{n} elements, merges {ops:?}"));
    c.nontrivial = merged >= 2 && merged < ops.len();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "G01",
            rule: "a case is one network solved by GraphCut; non-trivial when the flow is positive and both sides of the cut contain nodes",
            quick: 6_000_000,
            thorough: 80_000_000,
            chunk: 5_000,
            timeout_s: 300,
            run: g01,
            fixed: &[],
            assumptions: &["capacities are non-negative and their sums exact in floating point; no self-loops"],
        },
        Prop {
            id: "G02",
            rule: "a case is one network solved by PushRelabelFifo; non-trivial when the flow is positive and both sides of the cut contain inner nodes",
            quick: 3_000_000,
            thorough: 40_000_000,
            chunk: 5_000,
            timeout_s: 300,
            run: g02,
            fixed: &[],
            assumptions: &["capacities are non-negative and their sums exact; no self-loops"],
        },
        Prop {
            id: "D01",
            rule: "a case is a history of merges with interleaved queries; non-trivial when at least two merges join groups and one does not",
            quick: 1_200_000,
            thorough: 20_000_000,
            chunk: 10_000,
            timeout_s: 300,
            run: d01,
            fixed: &[],
            assumptions: &[],
        },
    ]
}
