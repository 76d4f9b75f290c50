//! C05-C10, C15, C16: traversals, components, conversions, labels, iterators.

use crate::checks_graph::{apply, Op};
use crate::gen::*;
use crate::lib_api::*;
use crate::model::*;
use crate::runner::*;
use gamma::graph::{DefaultGraph, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

/// A verdict on one graph (and root) for any implementation of the trait.
pub trait Judge: Copy + Send + Sync + 'static {
    const ROOTED: bool;
    fn name(&self) -> &'static str;
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String>;
}

fn call<J: Judge>(j: &J, root: usize) -> String {
    if J::ROOTED {
        format!("{} from root {}", j.name(), root)
    } else {
        j.name().to_string()
    }
}

fn roots_of<J: Judge>(m: &RG, limit: usize) -> Vec<usize> {
    if !J::ROOTED {
        return vec![0];
    }
    let n = m.nodes.len();
    if n <= limit {
        m.nodes.clone()
    } else if limit == 1 {
        vec![m.nodes[0]]
    } else if limit == 2 {
        vec![m.nodes[0], m.nodes[n - 1]]
    } else {
        let mut v: Vec<usize> = vec![0, 1, n / 3, n / 2, n - 1];
        v.dedup();
        v.into_iter().map(|i| m.nodes[i]).collect()
    }
}

fn on<G: Graph, J: Judge>(j: J, g: &G, m: &RG, limit: usize, desc: &dyn Fn() -> String, cx: &mut Ctx) -> R {
    for root in roots_of::<J>(m, limit) {
        cx.case(|| format!("{}{}", desc(), call(&j, root)), |st| {
            st.states += 1;
            st.traces += 1;
            j.go(g, m, root, st)
        })?;
    }
    Ok(())
}

/// Builds along a route inside the judged area, then runs the judge.
fn with<J: Judge>(j: J, build: impl Fn() -> Result<DefaultGraph, String>, m: &RG, limit: usize, desc: &dyn Fn() -> String, cx: &mut Ctx) -> R {
    match guarded(&build) {
        Ok(Ok(g)) => on(j, &g, m, limit, desc, cx),
        Ok(Err(e)) => cx.case(desc, |_| Err(e)),
        Err(p) => cx.case(desc, |_| Err(format!("panicked while building: {}", p))),
    }
}

/// Builds call by call and judges the same object after every call.
fn grow<J: Judge>(j: J, m: &RG, limit: usize, st: &mut Stats) -> Result<(), String> {
    let mut g = DefaultGraph::new();
    let mut now = RG::new();
    let look = |g: &DefaultGraph, now: &RG, st: &mut Stats| {
        for root in roots_of::<J>(now, limit) {
            st.states += 1;
            st.traces += 1;
            j.go(g, now, root, st).map_err(|e| format!("with {} nodes and {} edges, {}: {}", now.nodes.len(), now.edges.len(), call(&j, root), e))?;
        }
        Ok::<(), String>(())
    };
    for &n in &m.nodes {
        apply(&mut g, &mut now, Op::N(n))?;
        look(&g, &now, st)?;
    }
    for &(a, b) in &m.edges {
        apply(&mut g, &mut now, Op::E(a, b))?;
        look(&g, &now, st)?;
    }
    Ok(())
}

/// The input spaces shared by all per-graph judges.
fn inputs<J: Judge>(j: J, t: Tier) -> Vec<Stage> {
    let mut s = vec![];
    for (n, loops, name) in [
        (1, true, "orders_1_loops"),
        (2, true, "orders_2_loops"),
        (3, true, "orders_3_loops"),
        (4, false, "orders_4"),
        (4, true, "orders_4_loops"),
    ] {
        // root 0 stands for every root up to relabeling
        let one = n == 4 && loops && !t.thorough();
        s.push(stage(
            name,
            format!("all graphs {} loops on {} nodes x all neighbour orders x {}", if loops { "with" } else { "without" }, n, if one { "root 0" } else { "all roots" }),
            graph_count(n, loops),
            move |i, cx| {
                each_neighbour_order(&labeled(n, loops, i), &mut |m| {
                    with(j, || by_adjacency(&m.adj), m, if one { 1 } else { 64 }, &|| rs_adj(&m.adj), cx)
                })
            },
        ));
    }
    // every rooted, neighbour-ordered graph on 5 nodes is of this form up to
    // relabeling (root 0, its neighbours 1..d in that order)
    s.push(stage(
        "orders_5_from_0",
        "all simple graphs on 5 nodes in which node 0 has neighbours 1..d in ascending order x all neighbour orders of the other nodes x root 0",
        front_count(5),
        move |i, cx| {
            each_neighbour_order_but_first(&front(5, i), &mut |m| {
                with(j, || by_adjacency(&m.adj), m, 1, &|| rs_adj(&m.adj), cx)
            })
        },
    ));
    if t.thorough() {
        s.push(stage(
            "orders_5",
            "all simple graphs on 5 nodes x all neighbour orders x all roots",
            graph_count(5, false),
            move |i, cx| {
                each_neighbour_order(&labeled(5, false, i), &mut |m| {
                    with(j, || by_adjacency(&m.adj), m, 64, &|| rs_adj(&m.adj), cx)
                })
            },
        ));
    }
    s.push(stage(
        "labeled_5_loops",
        "all graphs with loops on 5 nodes x 3 insertion orders x all roots",
        graph_count(5, true),
        move |i, cx| {
            for v in 0..3 {
                let m = reordered(&labeled(5, true, i), v);
                with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
            }
            Ok(())
        },
    ));
    s.push(stage(
        "labeled_6",
        "all simple graphs on 6 nodes x 4 insertion orders and 3 with other ids x all roots",
        graph_count(6, false),
        move |i, cx| {
            for v in 0..VARIANTS {
                let m = variant(&labeled(6, false, i), v);
                with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
            }
            Ok(())
        },
    ));
    s.push(stage(
        "node_orders_4",
        "all simple graphs on 4 nodes x all node orders x all neighbour orders, as a user-written Graph implementation",
        graph_count(4, false),
        move |i, cx| {
            each_neighbour_order(&labeled(4, false, i), &mut |m| {
                for p in perms(&[0, 1, 2, 3]) {
                    let c = RG {
                        nodes: p.clone(),
                        adj: p.iter().map(|&x| m.adj[x].clone()).collect(),
                        edges: m.edges.clone(),
                    };
                    on(j, &c, &c, 64, &|| rs_custom(&c), cx)?;
                }
                Ok(())
            })
        },
    ));
    s.push(stage(
        "sparse_ids",
        "all graphs with loops on 4 nodes x 9 awkward id alphabets x 6 windows x 3 insertion orders x all roots, as DefaultGraph and as a user-written Graph",
        graph_count(4, true) * NS,
        move |i, cx| {
            let ids = SPARSE[(i % NS) as usize];
            for w in 0..6 {
                for v in 0..3 {
                    let m = reordered(&labeled(4, true, i / NS).relabel(&|x| ids[(x + w) % 9]), v);
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                    on(j, &m, &m, 64, &|| rs_custom(&m), cx)?;
                }
            }
            Ok(())
        },
    ));
    s.push(stage(
        "factor_ids",
        format!("all simple graphs on 5 nodes x ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f x 9 windows x all roots; the complete graph with loops on all 9", FACTORS.len()),
        FACTORS.len() as u64 * 128,
        move |i, cx| {
            let ids = factor_ids(FACTORS[i as usize / 128]);
            for k in 0..8 {
                for w in 0..9 {
                    let m = labeled(5, false, i % 128 * 8 + k).relabel(&|x| ids[(x + w) % 9]);
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
            }
            if i % 128 < 3 {
                let m = reordered(&labeled(9, true, (1 << 45) - 1).relabel(&|x| ids[x]), i as usize % 128);
                with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
            }
            Ok(())
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        s.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {} x all roots", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
                Ok(())
            },
        ));
    }
    // the same graph object, judged again whenever it has grown
    s.push(stage(
        "growing_4",
        "all graphs with loops on 4 nodes x 3 insertion orders, judged after every single add_node and add_edge on one and the same object, all roots",
        graph_count(4, true),
        move |i, cx| {
            for v in 0..3 {
                let m = reordered(&labeled(4, true, i), v);
                cx.case(|| format!("{} after every call: {}", rs_ops(&m), j.name()), |st| grow(j, &m, 64, st))?;
            }
            Ok(())
        },
    ));
    let nf = FAMILIES.len();
    s.push(stage(
        "growing_families",
        format!("all {} families up to size {} x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added, judged after every single add_node and add_edge on one and the same object", nf, t.pick(12, 24)),
        (t.pick(12, 24) * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], i / nf / FVARIANTS + 1, i / nf % FVARIANTS);
            let m = cast(f, k, v);
            cx.case(|| format!("family {} size {} order {}, after every call: {}", f, k, v, j.name()), |st| grow(j, &m, 5, st))
        },
    ));
    s.push(lazy_classes("connected_7", 7, 6, t.pick(4, 14), j));
    s.push(lazy_classes("connected_8", 8, 7, t.pick(1, 16), j));
    s.push(lazy_classes("subcubic_9", 9, 3, t.pick(4, 18), j));
    s.push(lazy_classes("subcubic_10", 10, 3, t.pick(1, 20), j));
    if t.thorough() {
        s.push(lazy_classes("subcubic_11", 11, 3, 22, j));
        s.push(lazy_classes("subcubic_12", 12, 3, 6, j));
        s.push(stage(
            "labeled_7",
            "all simple graphs on 7 nodes x all roots",
            graph_count(7, false) / 64,
            move |i, cx| {
                for k in 0..64 {
                    let m = labeled(7, false, i * 64 + k);
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
                Ok(())
            },
        ));
    }
    let sizes: Vec<usize> = t.pick((1..=24).chain([31, 32, 33, 40, 48, 63, 64, 65, 66, 99, 101, 127, 128, 129, 130]).collect(), (1..=70).chain([80, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300]).collect());
    let nf = FAMILIES.len();
    s.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added x all roots", nf, sizes),
        (sizes.len() * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
            let m = cast(f, k, v);
            with(j, || by_ops(&m), &m, t.pick(24, 200), &|| format!("family {} size {} order {}: {}", f, k, v, rs_ops(&m)), cx)
        },
    ));
    let big: Vec<(&'static str, usize)> = vec![
        ("path", 3000), ("cycle", 3000), ("star", 1500), ("tree", 2000), ("ladder", 1500),
        ("complete", 90), ("bipartite", 120), ("triangle_chain", 1500), ("copies_p2", 1200),
        ("isolated", 1500), ("mixed_parts", 900), ("grid", 900),
        ("affine", 1200), ("affine_dense", 260), ("divisors", 300),
    ];
    s.push(stage(
        "large",
        format!("{:?} x 3 insertion orders, one with other ids, and one with other components, x selected roots", big),
        big.len() as u64 * 4,
        move |i, cx| {
            let (f, k) = big[i as usize / 4];
            let v = [0, 4, 3, 8][i as usize % 4];
            let m = cast(f, k, v);
            with(j, || by_ops(&m), &m, 0, &|| format!("large family {} size {} order {}; ", f, k, v), cx)
        },
    ));
    s.push(stage(
        "huge",
        format!("{:?} with {} nodes x first and last root", HUGE, HUGE_N),
        HUGE.len() as u64,
        move |i, cx| {
            let f = HUGE[i as usize];
            let m = cx.prepare(|| huge(f));
            with(j, || by_ops(&m), &m, 2, &|| format!("huge {} of {} nodes; ", f, HUGE_N), cx)
        },
    ));
    s
}

fn lazy_classes<J: Judge>(name: &'static str, n: usize, maxdeg: usize, rot: usize, j: J) -> Stage {
    let cell: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    // the number of classes is only known once enumerated: split in 512 shares
    stage(
        name,
        format!("all isomorphism classes of connected graphs on {} nodes with maximum degree {} x {} labelings (the first plain, the others in turn with 4 insertion orders and 4 id maps) x all roots", n, maxdeg, rot.max(2)),
        512,
        move |i, cx| {
            let cls = cx.prepare(|| cell.get_or_init(|| connected_classes(n, maxdeg)));
            let rots = rotations(n);
            for c in (i as usize..cls.len()).step_by(512) {
                for (l, p) in spread(&rots, rot.max(2)).into_iter().enumerate() {
                    let m = variant(&permuted(&cls[c], p), if l == 0 { 0 } else { (c + l) % VARIANTS });
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
            }
            Ok(())
        },
    )
}

pub fn spread<T>(v: &[T], k: usize) -> Vec<&T> {
    let k = k.min(v.len());
    (0..k).map(|i| &v[i * v.len() / k]).collect()
}

// ------------------------------------------------ C05 / C07: coverage

fn judge_cover(m: &RG, root: usize, steps: &[St]) -> Result<(), String> {
    let show = || short(steps);
    let comp = m.reach(root);
    let mut left: BTreeMap<Edge, usize> = BTreeMap::new();
    for (i, &n) in m.nodes.iter().enumerate() {
        if comp.contains(&n) {
            for &x in &m.adj[i] {
                left.insert(und(n, x), 1);
            }
        }
    }
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    seen.insert(root);
    for (k, &(a, b, cut)) in steps.iter().enumerate() {
        match left.get_mut(&und(a, b)) {
            None => return Err(format!("step {} ({}, {}) is not an edge of the root's component; steps={}", k + 1, a, b, show())),
            Some(0) => return Err(format!("edge ({}, {}) traversed twice (again at step {}); steps={}", a, b, k + 1, show())),
            Some(c) => *c = 0,
        }
        if !seen.contains(&a) {
            return Err(format!("step {} ({}, {}) starts at a node not yet reached; steps={}", k + 1, a, b, show()));
        }
        if cut != seen.contains(&b) {
            return Err(format!("step {} ({}, {}) has cut={} but the target was {}reached before; steps={}", k + 1, a, b, cut, if seen.contains(&b) { "" } else { "not " }, show()));
        }
        seen.insert(b);
    }
    if let Some((e, _)) = left.iter().find(|x| *x.1 == 1) {
        return Err(format!("edge {:?} of the root's component was never traversed; steps={}", e, show()));
    }
    if seen != comp {
        let lost: Vec<_> = comp.difference(&seen).collect();
        return Err(format!("reachable nodes never visited: {:?}; steps={}", lost, show()));
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub struct DfsCover;
impl Judge for DfsCover {
    const ROOTED: bool = true;
    fn name(&self) -> &'static str {
        "DepthFirst"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String> {
        let v = dfs(g, root)?;
        st.transitions += v.len() as u64 + 1;
        st.outcome(&v);
        judge_cover(m, root, &v)
    }
}

#[derive(Clone, Copy)]
pub struct BfsCover;
impl Judge for BfsCover {
    const ROOTED: bool = true;
    fn name(&self) -> &'static str {
        "BreadthFirst"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String> {
        let v = bfs(g, root)?;
        st.transitions += v.len() as u64 + 1;
        st.outcome(&v);
        judge_cover(m, root, &v)
    }
}

// ------------------------------------------------ C06 / C08: order

#[derive(Clone, Copy)]
pub struct DfsOrder;
impl Judge for DfsOrder {
    const ROOTED: bool = true;
    fn name(&self) -> &'static str {
        "DepthFirst"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String> {
        let v = dfs(g, root)?;
        st.transitions += v.len() as u64 + 1;
        st.outcome(&v);
        let want = ref_dfs(m, root);
        if v != want {
            return Err(format!("steps={}, depth-first order in neighbour order is {}", short(&v), short(&want)));
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct BfsOrder;
impl Judge for BfsOrder {
    const ROOTED: bool = true;
    fn name(&self) -> &'static str {
        "BreadthFirst"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String> {
        let v = bfs(g, root)?;
        st.transitions += v.len() as u64 + 1;
        st.outcome(&v);
        let want = ref_bfs(m, root);
        if v != want {
            return Err(format!("steps={}, breadth-first order in neighbour order is {}", short(&v), short(&want)));
        }
        // independent of the order model: tree paths are shortest paths
        let mut depth: BTreeMap<usize, usize> = BTreeMap::new();
        depth.insert(root, 0);
        for &(a, b, cut) in &v {
            if !cut {
                let d = depth[&a] + 1;
                depth.insert(b, d);
            }
        }
        let mut dist: BTreeMap<usize, usize> = BTreeMap::new();
        dist.insert(root, 0);
        let mut layer = vec![root];
        let mut d = 0;
        while !layer.is_empty() {
            d += 1;
            let mut next = vec![];
            for x in layer {
                for &y in m.nb(x) {
                    if !dist.contains_key(&y) {
                        dist.insert(y, d);
                        next.push(y);
                    }
                }
            }
            layer = next;
        }
        if depth != dist {
            return Err(format!("tree depths {:?} differ from distances {:?}", depth, dist));
        }
        Ok(())
    }
}

fn simple_check<J: Judge>(id: &'static str, j: J, t: Tier) -> Check {
    Check { id, stages: inputs(j, t), assumptions: vec![] }
}

pub fn c05(t: Tier) -> Check {
    simple_check("C05", DfsCover, t)
}
pub fn c06(t: Tier) -> Check {
    simple_check("C06", DfsOrder, t)
}
pub fn c07(t: Tier) -> Check {
    simple_check("C07", BfsCover, t)
}
pub fn c08(t: Tier) -> Check {
    simple_check("C08", BfsOrder, t)
}

// ------------------------------------------------ C09: components

#[derive(Clone, Copy)]
pub struct Comps;

/// Same nodes and edges as the part of `m` on `want`, every view agreeing.
fn judge_part(c: &DefaultGraph, m: &RG, want: &BTreeSet<usize>) -> Result<(), String> {
    let nodes: Vec<usize> = c.nodes().collect();
    let set: BTreeSet<usize> = nodes.iter().cloned().collect();
    if set != *want || nodes.len() != want.len() || c.order() != want.len() || c.is_empty() {
        return Err(format!("nodes {} (order {}), expected the set {}", short(&nodes), c.order(), short(&want.iter().collect::<Vec<_>>())));
    }
    let edges: Vec<Edge> = c.edges().map(|(a, b)| und(a, b)).collect();
    let eset: BTreeSet<Edge> = edges.iter().cloned().collect();
    let wset: BTreeSet<Edge> = m.edges.iter().map(|&(a, b)| und(a, b)).filter(|e| want.contains(&e.0)).collect();
    if eset != wset || edges.len() != wset.len() || c.size() != wset.len() {
        return Err(format!("edges {} (size {}), expected {}", short(&edges), c.size(), short(&wset.iter().collect::<Vec<_>>())));
    }
    for &n in &nodes {
        let mut a: Vec<usize> = c.neighbors(n).map_err(|e| format!("neighbors({}): {:?}", n, e))?.collect();
        let mut b = m.nb(n).to_vec();
        a.sort();
        b.sort();
        if a != b || c.degree(n) != Ok(b.len()) || !c.has_node(n) {
            return Err(format!("neighbours of {} are {:?} (degree {:?}), expected {:?}", n, a, c.degree(n), b));
        }
    }
    for &(a, b) in &wset {
        if c.has_edge(a, b) != Ok(true) || c.has_edge(b, a) != Ok(true) {
            return Err(format!("has_edge misses ({}, {})", a, b));
        }
    }
    if let Some(&x) = m.nodes.iter().find(|x| !want.contains(x)) {
        if c.has_node(x) || c.neighbors(x).is_ok() {
            return Err(format!("contains node {} of another component", x));
        }
    }
    Ok(())
}

impl Judge for Comps {
    const ROOTED: bool = false;
    fn name(&self) -> &'static str {
        "components(&g)"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, _: usize, st: &mut Stats) -> Result<(), String> {
        let want = ref_components(m);
        let cs: Vec<DefaultGraph> = components(g).take(m.nodes.len() + 2).collect();
        st.transitions += cs.len() as u64 + 1;
        let sizes: Vec<usize> = cs.iter().map(|c| c.order()).collect();
        st.outcome(&sizes);
        if cs.len() != want.len() {
            let l: Vec<Vec<usize>> = cs.iter().map(|c| c.nodes().collect()).collect();
            return Err(format!("{} components {}, expected {}", cs.len(), short(&l), want.len()));
        }
        let mut firsts: Vec<usize> = vec![];
        let mut met: std::collections::HashSet<usize> = Default::default();
        let mut of: std::collections::HashMap<usize, usize> = Default::default();
        for (k, w) in want.iter().enumerate() {
            of.extend(w.iter().map(|&x| (x, k)));
        }
        for &x in &m.nodes {
            if met.insert(of[&x]) {
                firsts.push(x);
            }
        }
        for (k, (c, w)) in cs.iter().zip(&want).enumerate() {
            judge_part(c, m, w).map_err(|e| format!("component {}: {}", k, e))?;
            if c.nodes().next() != Some(firsts[k]) {
                return Err(format!("component {}: its first node is {:?}, of its nodes the graph lists {} first", k, c.nodes().next(), firsts[k]));
            }
        }
        Ok(())
    }
}

fn disjoint_union(parts: &[RG], interleave: bool) -> RG {
    let mut nodes: Vec<Vec<usize>> = vec![];
    let mut edges: Vec<Vec<Edge>> = vec![];
    let mut off = 0;
    for p in parts {
        nodes.push(p.nodes.iter().map(|x| x + off).collect());
        edges.push(p.edges.iter().map(|&(a, b)| (a + off, b + off)).collect());
        off += p.nodes.len();
    }
    if !interleave {
        return RG::from_edges(&nodes.concat(), &edges.concat());
    }
    fn weave<T: Clone>(v: &[Vec<T>]) -> Vec<T> {
        let mut out = vec![];
        let mut i = 0;
        loop {
            let mut any = false;
            for l in v {
                if let Some(x) = l.get(i) {
                    out.push(x.clone());
                    any = true;
                }
            }
            if !any {
                return out;
            }
            i += 1;
        }
    }
    RG::from_edges(&weave(&nodes), &weave(&edges))
}

fn union_stage<J: Judge>(j: J, t: Tier) -> Stage {
    let fams: Vec<RG> = [("isolated", 1), ("path", 2), ("path", 3), ("cycle", 3), ("star", 4), ("cycle", 4), ("lollipop", 5), ("looped_cycle", 1), ("complete", 4), ("cycle", 5), ("triangle_chain", 5)]
        .iter()
        .map(|&(f, k)| family(f, k))
        .collect();
    let k = fams.len() as u64;
    let depth: u32 = t.pick(3, 4);
    stage(
        "disjoint_unions",
        format!("all sequences of up to {} of {} small connected graphs, side by side and interleaved", depth, k),
        k.pow(depth),
        move |i, cx| {
            for len in 1..=depth {
                if len < depth && i >= k.pow(len) {
                    continue;
                }
                let mut x = i;
                let mut parts = vec![];
                for _ in 0..len {
                    parts.push(fams[(x % k) as usize].clone());
                    x /= k;
                }
                for il in [false, true] {
                    let m = disjoint_union(&parts, il);
                    with(j, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
            }
            Ok(())
        },
    )
}

pub fn c09(t: Tier) -> Check {
    let mut c = simple_check("C09", Comps, t);
    c.stages.insert(5, union_stage(Comps, t));
    c
}

// ------------------------------------------------ C10: conversions

#[derive(Clone, Copy)]
pub struct Convert;
impl Judge for Convert {
    const ROOTED: bool = true;
    fn name(&self) -> &'static str {
        "DefaultGraph::try_from(DepthFirst) and DepthFirst::into_table"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, root: usize, st: &mut Stats) -> Result<(), String> {
        let mk = || DepthFirst::new(g, root).map_err(|e| format!("DepthFirst::new(&g, {}) = Err({:?})", root, e));
        let steps = dfs(g, root)?;
        let r = DefaultGraph::try_from(mk()?).map_err(|e| format!("conversion to a graph failed: {:?}", e))?;
        let (tn, te) = mk()?.into_table();
        st.transitions += 2;
        st.outcome(&(&tn, &te));
        if m.nb(root).is_empty() {
            // nothing is traversed, so there is no edge to report
            if r.size() != 0 || r.nodes().any(|x| x != root) || !te.is_empty() || tn.iter().any(|&x| x != root) {
                return Err(format!("isolated root {}: graph nodes {:?} edges {:?}, table {:?}", root, r.nodes().collect::<Vec<_>>(), r.edges().collect::<Vec<_>>(), (tn, te)));
            }
            return Ok(());
        }
        // the traversal itself is the reference: node order is discovery order
        let mut nodes = vec![root];
        nodes.extend(steps.iter().filter(|s| !s.2).map(|s| s.1));
        let edges: Vec<Edge> = steps.iter().map(|s| (s.0, s.1)).collect();
        if tn != nodes || te != edges {
            return Err(format!("into_table() = ({}, {}), the traversal gives ({}, {})", short(&tn), short(&te), short(&nodes), short(&edges)));
        }
        let comp = m.reach(root);
        judge_part(&r, m, &comp).map_err(|e| format!("converted graph: {}", e))?;
        let set: BTreeSet<usize> = tn.iter().cloned().collect();
        if set != comp || tn.len() != comp.len() {
            return Err(format!("table nodes {} are not the component {}", short(&tn), short(&comp.iter().collect::<Vec<_>>())));
        }
        st.transitions += view(&r, &RG::from_edges(&nodes, &edges), &[]).map_err(|e| format!("converted graph: {}", e))?;
        // and it compares equal to the component built directly
        let mut cn: Vec<usize> = comp.iter().cloned().collect();
        cn.reverse();
        let ce: Vec<Edge> = m.edges.iter().cloned().filter(|e| comp.contains(&e.0)).collect();
        if comp.len() <= 64 {
            let direct = by_ops(&RG::from_edges(&cn, &ce))?;
            if r != direct || direct != r {
                return Err(String::from("converted graph is not == the component built directly"));
            }
        }
        Ok(())
    }
}

pub fn c10(t: Tier) -> Check {
    let mut c = simple_check("C10", Convert, t);
    c.stages.insert(5, union_stage(Convert, t));
    c
}

// ------------------------------------------------ C12: greedy matching

#[derive(Clone, Copy)]
pub struct Greedy;
impl Judge for Greedy {
    const ROOTED: bool = false;
    fn name(&self) -> &'static str {
        "greedy(&g)"
    }
    fn go<G: Graph>(&self, g: &G, m: &RG, _: usize, st: &mut Stats) -> Result<(), String> {
        let p = greedy(g);
        st.transitions += 1;
        let es = valid_matching(m, &p)?;
        st.outcome(&es);
        let used: std::collections::HashSet<usize> = es.iter().flat_map(|e| [e.0, e.1]).collect();
        for &(a, b) in &m.edges {
            if a != b && !used.contains(&a) && !used.contains(&b) {
                return Err(format!("not maximal: edge ({}, {}) joins two unmatched nodes; pairs={}", a, b, short(&es)));
            }
        }
        Ok(())
    }
}

pub fn c12(t: Tier) -> Check {
    let mut c = simple_check("C12", Greedy, t);
    c.stages.insert(5, union_stage(Greedy, t));
    if !t.thorough() {
        c.stages.push(stage(
            "labeled_7",
            "all simple graphs on 7 nodes",
            graph_count(7, false) / 64,
            move |i, cx| {
                for k in 0..64 {
                    let m = labeled(7, false, i * 64 + k);
                    with(Greedy, || by_ops(&m), &m, 64, &|| rs_ops(&m), cx)?;
                }
                Ok(())
            },
        ));
    }
    c
}

// ------------------------------------------------ C15: opaque labels

#[derive(Debug, PartialEq, Clone)]
struct Computed {
    dfs: Vec<Vec<St>>,
    bfs: Vec<Vec<St>>,
    comps: Vec<(Vec<usize>, Vec<Edge>)>,
    greedy: BTreeSet<Edge>,
    max: usize,
}

fn compute<G: Graph>(g: &G, m: &RG, limit: usize) -> Result<Computed, String> {
    let mut d = vec![];
    let mut b = vec![];
    let n = m.nodes.len();
    let step = (n / limit.max(1)).max(1);
    for r in m.nodes.iter().step_by(step) {
        d.push(dfs(g, *r)?);
        b.push(bfs(g, *r)?);
    }
    let comps = components(g).take(n + 2).map(|c| (c.nodes().collect(), c.edges().collect())).collect();
    let gp = greedy(g);
    let gr = valid_matching(m, &gp).map_err(|e| format!("greedy: {}", e))?;
    let mut p = Pairing::new();
    maximum_matching(g, &mut p);
    let mm = valid_matching(m, &p).map_err(|e| format!("maximum_matching: {}", e))?;
    // from the greedy start as well
    let mut q = gp;
    maximum_matching(g, &mut q);
    let mq = valid_matching(m, &q).map_err(|e| format!("maximum_matching from greedy: {}", e))?;
    if mq.len() != mm.len() {
        return Err(format!("maximum matching has {} pairs from scratch and {} from the greedy start", mm.len(), mq.len()));
    }
    Ok(Computed { dfs: d, bfs: b, comps, greedy: gr.into_iter().collect(), max: mm.len() })
}

fn renamed(c: &Computed, f: &dyn Fn(usize) -> usize) -> Computed {
    let s = |v: &Vec<Vec<St>>| v.iter().map(|l| l.iter().map(|&(a, b, c)| (f(a), f(b), c)).collect()).collect();
    Computed {
        dfs: s(&c.dfs),
        bfs: s(&c.bfs),
        comps: c.comps.iter().map(|(n, e)| (n.iter().map(|&x| f(x)).collect(), e.iter().map(|&(a, b)| (f(a), f(b))).collect())).collect(),
        greedy: c.greedy.iter().map(|&(a, b)| und(f(a), f(b))).collect(),
        max: c.max,
    }
}

fn judge_same(a: &Computed, b: &Computed) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    Err(if a.dfs != b.dfs {
        format!("depth-first: {:?}, expected {:?}", short(&b.dfs), short(&a.dfs))
    } else if a.bfs != b.bfs {
        format!("breadth-first: {:?}, expected {:?}", short(&b.bfs), short(&a.bfs))
    } else if a.comps != b.comps {
        format!("components: {:?}, expected {:?}", short(&b.comps), short(&a.comps))
    } else if a.greedy != b.greedy {
        format!("greedy: {:?}, expected {:?}", b.greedy, a.greedy)
    } else {
        format!("maximum matching has {} pairs, expected {}", b.max, a.max)
    })
}

/// `base` uses ids 0..n; everything must commute with the renaming.
fn judge_labels(m: &RG, base: &Computed, f: &dyn Fn(usize) -> usize, limit: usize, st: &mut Stats) -> Result<(), String> {
    let r = m.relabel(f);
    let want = renamed(base, f);
    st.states += 1;
    st.traces += 2;
    st.transitions += 8;
    let g = by_ops(&r)?;
    let got = compute(&g, &r, limit).map_err(|e| format!("as DefaultGraph: {}", e))?;
    judge_same(&want, &got).map_err(|e| format!("renaming changes the result (DefaultGraph): {}", e))?;
    let got = compute(&r, &r, limit).map_err(|e| format!("as user-written Graph: {}", e))?;
    judge_same(&want, &got).map_err(|e| format!("renaming changes the result (user-written Graph): {}", e))?;
    Ok(())
}

fn base_of(m: &RG, limit: usize, cx: &mut Ctx) -> Result<Computed, Stop> {
    let mut out = None;
    cx.case(
        || format!("{} then every algorithm", rs_ops(m)),
        |st| {
            st.states += 1;
            let c = compute(&by_ops(m)?, m, limit)?;
            if c.max != nu(m) {
                return Err(format!("maximum_matching finds {} pairs, {} are possible", c.max, nu(m)));
            }
            out = Some(c);
            Ok(())
        },
    )?;
    out.ok_or(Stop)
}

type Rename = fn(usize) -> usize;
const BIG: [(&str, Rename); 10] = [
    ("MAX-x", |x| usize::MAX - x),
    ("x<<32", |x| x << 32),
    ("(x<<32)+1", |x| (x << 32) + 1),
    ("x<<8", |x| x << 8),
    ("x^MAX/3", |x| x ^ (usize::MAX / 3)),
    ("x<<16|0xffff", |x| x << 16 | 0xffff),
    ("x%3<<32|x/3", |x| x % 3 << 32 | x / 3),
    ("x%4<<16|x/4", |x| x % 4 << 16 | x / 4),
    ("x%5<<8|x/5", |x| x % 5 << 8 | x / 5),
    ("alternating ends", |x| if x % 2 == 0 { x } else { usize::MAX - x }),
];

pub fn c15(t: Tier) -> Check {
    let mut s = vec![];
    s.push(stage(
        "loops_4_all_renamings",
        "all graphs with loops on 4 nodes x 9 id alphabets x all 24 assignments x 6 windows",
        graph_count(4, true),
        |i, cx| {
            let m = labeled(4, true, i);
            let base = base_of(&m, 64, cx)?;
            for ids in SPARSE {
                for p in perms(&[0, 1, 2, 3]) {
                    for w in 0..6 {
                        let f = |x: usize| ids[p[x] + w];
                        if p.iter().any(|&q| q + w >= 9) {
                            continue;
                        }
                        cx.case(|| format!("{} vs renamed {:?}", rs_ops(&m), (0..4).map(f).collect::<Vec<_>>()), |st| judge_labels(&m, &base, &f, 64, st))?;
                    }
                }
            }
            Ok(())
        },
    ));
    s.push(stage(
        "simple_5_all_renamings",
        format!("all simple graphs on 5 nodes x {} id alphabets x all 120 assignments", t.pick(4, 7)),
        graph_count(5, false),
        move |i, cx| {
            let m = labeled(5, false, i);
            let base = base_of(&m, 64, cx)?;
            for (ai, ids) in SPARSE.iter().enumerate() {
                if (ai == 1 || ai > 4) && !t.thorough() {
                    continue;
                }
                for p in perms(&[0, 1, 2, 3, 4]) {
                    let f = |x: usize| ids[p[x]];
                    cx.case(|| format!("{} vs renamed {:?}", rs_ops(&m), (0..5).map(f).collect::<Vec<_>>()), |st| judge_labels(&m, &base, &f, 64, st))?;
                }
            }
            Ok(())
        },
    ));
    s.push(stage(
        "simple_6_renamings",
        format!("all simple graphs on 6 nodes x 9 id alphabets x {} rotations", t.pick(2, 6)),
        graph_count(6, false),
        move |i, cx| {
            let m = labeled(6, false, i);
            let base = base_of(&m, 64, cx)?;
            for (ai, ids) in SPARSE.iter().enumerate() {
                for w in 0..6 {
                    if !t.thorough() && (w + ai) % 3 != 0 {
                        continue;
                    }
                    let f = |x: usize| ids[(x + w) % 6];
                    cx.case(|| format!("{} vs renamed {:?}", rs_ops(&m), (0..6).map(f).collect::<Vec<_>>()), |st| judge_labels(&m, &base, &f, 64, st))?;
                }
            }
            Ok(())
        },
    ));
    for (name, n, d) in [("connected_7", 7usize, 6usize), ("subcubic_8", 8, 3), ("subcubic_9", 9, 3)] {
        let cell: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
        s.push(stage(
            name,
            format!("all isomorphism classes of connected graphs on {} nodes, maximum degree {}, x {} labelings x 9 id alphabets and {} renamings", n, d, t.pick(2, 2 * n), BIG.len()),
            256,
            move |i, cx| {
                let cls = cx.prepare(|| cell.get_or_init(|| connected_classes(n, d)));
                let rots = rotations(n);
                for c in (i as usize..cls.len()).step_by(256) {
                    for p in spread(&rots, t.pick(2, 2 * n)) {
                        let m = permuted(&cls[c], p);
                        let base = base_of(&m, 64, cx)?;
                        for ids in SPARSE {
                            let f = |x: usize| ids[x];
                            cx.case(|| format!("{} vs renamed {:?}", rs_ops(&m), (0..n).map(f).collect::<Vec<_>>()), |st| judge_labels(&m, &base, &f, 64, st))?;
                        }
                        for (name, f) in BIG {
                            cx.case(|| format!("{} vs renamed x -> {}", rs_ops(&m), name), |st| judge_labels(&m, &base, &f, 64, st))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    s.push(stage(
        "factor_ids",
        format!("all simple graphs on 5 nodes renamed to ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f x 9 windows", FACTORS.len()),
        graph_count(5, false),
        |i, cx| {
            let m = labeled(5, false, i);
            let base = base_of(&m, 64, cx)?;
            for k in FACTORS {
                let ids = factor_ids(k);
                for w in 0..9 {
                    let f = |x: usize| ids[(x + w) % 9];
                    cx.case(|| format!("{} vs renamed {:?}", rs_ops(&m), (0..5).map(f).collect::<Vec<_>>()), |st| judge_labels(&m, &base, &f, 64, st))?;
                }
            }
            Ok(())
        },
    ));
    // the trait says nothing about edge orientation or node order
    s.push(stage(
        "orientations_4",
        "all simple graphs on 4 nodes x all edge orientations x all node orders as a user-written Graph: matchings valid, maximal, maximum",
        graph_count(4, false),
        |i, cx| {
            let m = labeled(4, false, i);
            for o in 0..1u64 << m.edges.len() {
                let edges: Vec<Edge> = m.edges.iter().enumerate().map(|(k, &(a, b))| if o >> k & 1 == 1 { (b, a) } else { (a, b) }).collect();
                for p in perms(&[0, 1, 2, 3]) {
                    let c = RG { nodes: p.clone(), adj: p.iter().map(|&x| m.adj[x].clone()).collect(), edges: edges.clone() };
                    cx.case(|| format!("{}every algorithm", rs_custom(&c)), |st| judge_custom(&c, st))?;
                }
            }
            Ok(())
        },
    ));
    s.push(stage(
        "orientations_5",
        "all simple graphs on 5 nodes x 4 orientation patterns x 4 node orders x edge list reversed or not, as a user-written Graph",
        graph_count(5, false),
        |i, cx| {
            let m = labeled(5, false, i);
            for o in [0u64, u64::MAX, 0x5555_5555, 0x3333_3333] {
                for p in [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3], [1, 4, 0, 3, 2]] {
                    for rev in [false, true] {
                        let mut edges: Vec<Edge> = m.edges.iter().enumerate().map(|(k, &(a, b))| if o >> k & 1 == 1 { (b, a) } else { (a, b) }).collect();
                        if rev {
                            edges.reverse();
                        }
                        let c = RG { nodes: p.to_vec(), adj: p.iter().map(|&x| m.adj[x].clone()).collect(), edges };
                        cx.case(|| format!("{}every algorithm", rs_custom(&c)), |st| judge_custom(&c, st))?;
                    }
                }
            }
            Ok(())
        },
    ));
    let sizes: Vec<usize> = t.pick((2..=18).chain([26, 31, 32, 33, 40, 63, 64, 65, 66]).collect(), (2..=40).chain([65, 66, 129]).collect());
    let nf = FAMILIES.len();
    s.push(stage(
        "families",
        format!("all {} families x sizes {:?}, alone and with one of 3 kinds of additions (loops, isolated nodes, leaves, components), x {} renamings", nf, sizes, BIG.len()),
        (sizes.len() * nf * 2) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k) = (FAMILIES[i % nf], sizes[i / nf / 2]);
            let m = dressed(&family(f, k), if i / nf % 2 == 0 { 0 } else { 1 + (k + i % nf) % 3 });
            let base = base_of(&m, 8, cx)?;
            for (name, g) in BIG {
                cx.case(|| format!("family {} size {} ({}) vs renamed x -> {}", f, k, rs_ops(&m), name), |st| judge_labels(&m, &base, &g, 8, st))?;
            }
            Ok(())
        },
    ));
    Check { id: "C15", stages: s, assumptions: vec!["which maximum matching is found may depend on the ids; only its size is compared".into()] }
}

fn judge_custom(c: &RG, st: &mut Stats) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    st.transitions += 5;
    let r = compute(c, c, 64)?;
    if r.max != nu(c) {
        return Err(format!("maximum_matching finds {} pairs, {} are possible", r.max, nu(c)));
    }
    for (k, &root) in c.nodes.iter().enumerate() {
        if r.dfs[k] != ref_dfs(c, root) || r.bfs[k] != ref_bfs(c, root) {
            return Err(format!("traversal from {}: depth-first {:?}, breadth-first {:?}", root, r.dfs[k], r.bfs[k]));
        }
    }
    let want = ref_components(c);
    let got: Vec<BTreeSet<usize>> = r.comps.iter().map(|x| x.0.iter().cloned().collect()).collect();
    if got != want {
        return Err(format!("components {:?}, expected {:?}", got, want));
    }
    Greedy.go(c, c, 0, st)
}

// ------------------------------------------------ C16: iterators

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    D(usize),
    B(usize),
    C,
    /// nodes()
    N,
    /// edges()
    E,
    /// neighbors(id)
    A(usize),
    /// Pairing::edges() of a matching of the graph
    P,
}

#[derive(Debug, PartialEq, Clone, Hash)]
enum Obs {
    Step(St),
    Part(Vec<usize>, Vec<Edge>),
    Id(usize),
    Pair(Edge),
}

/// What iterators borrow from: a graph and a pairing on its nodes.
struct World {
    g: DefaultGraph,
    p: Pairing,
}

fn world(m: &RG) -> Result<World, String> {
    let g = by_ops(m)?;
    let mut p = Pairing::new();
    for &(a, b) in &m.edges {
        if a != b && !p.has_node(a) && !p.has_node(b) {
            p.pair(a, b);
        }
    }
    Ok(World { g, p })
}

type BoxIt<'a> = Box<dyn Iterator<Item = Obs> + 'a>;

fn make<'a>(w: &'a World, k: Kind) -> Result<BoxIt<'a>, String> {
    let g = &w.g;
    Ok(match k {
        Kind::N => Box::new(g.nodes().map(Obs::Id)),
        Kind::E => Box::new(g.edges().map(Obs::Pair)),
        Kind::A(r) => Box::new(g.neighbors(r).map_err(|e| format!("{:?}", e))?.map(Obs::Id)),
        Kind::P => Box::new(w.p.edges().map(Obs::Pair)),
        Kind::D(r) => Box::new(DepthFirst::new(g, r).map_err(|e| format!("{:?}", e))?.map(|s| Obs::Step(st(s)))),
        Kind::B(r) => Box::new(BreadthFirst::new(g, r).map_err(|e| format!("{:?}", e))?.map(|s| Obs::Step(st(s)))),
        Kind::C => Box::new(components(g).map(|c| Obs::Part(c.nodes().collect(), c.edges().collect()))),
    })
}

fn kinds(m: &RG) -> Vec<Kind> {
    let mut v: Vec<Kind> = m.nodes.iter().map(|&r| Kind::D(r)).collect();
    v.extend(m.nodes.iter().map(|&r| Kind::B(r)));
    v.push(Kind::C);
    v
}

/// The plain reads as iterators.
fn read_kinds(m: &RG) -> Vec<Kind> {
    let mut v = vec![Kind::N, Kind::E, Kind::P];
    v.extend(m.nodes.iter().map(|&r| Kind::A(r)));
    v
}

fn solo(w: &World, k: Kind) -> Result<Vec<Obs>, String> {
    let cap = 4 * (w.g.size() + w.g.order()) + 16;
    let v: Vec<Obs> = make(w, k)?.take(cap).collect();
    if v.len() == cap {
        return Err(format!("{:?} alone does not end", k));
    }
    Ok(v)
}

/// All interleavings of `scripts` (create, next until exhausted, `extra` more
/// nexts, drop), checked against the solo sequences.
fn interleave(
    gs: &[&World],
    ks: &[Kind],
    want: &[Vec<Obs>],
    extra: usize,
    desc: &dyn Fn() -> String,
    cx: &mut Ctx,
) -> R {
    // plain reads promise nothing about calls after the end
    let more = |k: Kind| match k {
        Kind::D(_) | Kind::B(_) | Kind::C => extra,
        _ => extra.min(1),
    };
    let lens: Vec<usize> = want.iter().zip(ks).map(|(w, &k)| w.len() + 1 + more(k) + 1).collect();
    let mut left = lens.clone();
    let mut sched: Vec<usize> = vec![];
    fn go(
        left: &mut Vec<usize>,
        sched: &mut Vec<usize>,
        f: &mut dyn FnMut(&[usize]) -> R,
    ) -> R {
        let mut any = false;
        for i in 0..left.len() {
            if left[i] > 0 {
                any = true;
                left[i] -= 1;
                sched.push(i);
                go(left, sched, f)?;
                sched.pop();
                left[i] += 1;
            }
        }
        if !any {
            f(sched)?;
        }
        Ok(())
    }
    go(&mut left, &mut sched, &mut |s| {
        cx.case(
            || format!("{}schedule {:?} of iterators {:?}", desc(), s, ks),
            |stt| {
                let mut its: Vec<Option<BoxIt>> = (0..ks.len()).map(|_| None).collect();
                let mut at = vec![0usize; ks.len()];
                for &i in s {
                    let pc = at[i];
                    at[i] += 1;
                    stt.transitions += 1;
                    if pc == 0 {
                        its[i] = Some(make(gs[i], ks[i])?);
                    } else if pc == lens[i] - 1 {
                        its[i] = None;
                    } else {
                        let got = its[i].as_mut().and_then(|x| x.next());
                        let w = want[i].get(pc - 1);
                        if got.as_ref() != w {
                            return Err(format!("iterator {} ({:?}), call {}: got {:?}, alone it yields {:?}", i, ks[i], pc, got, w));
                        }
                    }
                }
                stt.traces += 1;
                stt.states += 1;
                stt.outcome(&want);
                Ok(())
            },
        )
    })
}

fn small_graphs() -> Vec<RG> {
    let mut v = vec![];
    for n in 1..=4usize {
        let mut seen = std::collections::HashSet::new();
        for mask in 0..graph_count(n, false) {
            let g = labeled(n, false, mask);
            if seen.insert(canon(&masks(&g))) {
                v.push(g);
            }
        }
    }
    v.push(family("looped_cycle", 1));
    v.push(family("looped_cycle", 2));
    v.push(family("looped_cycle", 3));
    v
}

/// Everything an iterator promises beyond `next`.
fn lawful<I: Iterator>(mk: &dyn Fn() -> Result<I, String>, f: &dyn Fn(I::Item) -> Obs, want: &[Obs], what: &str, fused: bool) -> Result<u64, String> {
    let n = want.len();
    let got: Vec<Obs> = mk()?.take(n + 5).map(|x| f(x)).collect();
    if got != want {
        return Err(format!("{}: second run yields {:?}, first run {:?}", what, got, want));
    }
    if mk()?.count() != n {
        return Err(format!("{}: count() = {}, next() yields {}", what, mk()?.count(), n));
    }
    if mk()?.last().map(|x| f(x)).as_ref() != want.last() {
        return Err(format!("{}: last() differs from the last item of next()", what));
    }
    for k in 0..=n + fused as usize {
        let mut it = mk()?;
        for _ in 0..k {
            it.next();
        }
        let (lo, hi) = it.size_hint();
        let rest = n.saturating_sub(k);
        if lo > rest || hi.map_or(false, |h| h < rest) {
            return Err(format!("{}: after {} items size_hint() = ({}, {:?}) but {} remain", what, k, lo, hi, rest));
        }
        for _ in 0..(if fused { 3 } else { 0 }) {
            // stays finished once finished
            if k == n {
                if let Some(x) = it.next() {
                    return Err(format!("{}: yields {:?} after it ended", what, f(x)));
                }
            }
        }
        let mut it = mk()?;
        let got = it.nth(k).map(|x| f(x));
        if got.as_ref() != want.get(k) {
            return Err(format!("{}: nth({}) = {:?}, expected {:?}", what, k, got, want.get(k)));
        }
        if fused || k < n {
            let rest: Vec<Obs> = it.take(n + 5).map(|x| f(x)).collect();
            if rest != want[(k + 1).min(n)..] {
                return Err(format!("{}: after nth({}) the rest is {:?}", what, k, rest));
            }
        }
        // resumed by_ref in two parts
        let mut it = mk()?;
        let mut parts: Vec<Obs> = it.by_ref().take(k).map(|x| f(x)).collect();
        it.for_each(|x| parts.push(f(x)));
        if parts != want {
            return Err(format!("{}: taken in two parts at {}: {:?}", what, k, parts));
        }
    }
    Ok(4 * n as u64 + 8)
}

fn judge_lawful(m: &RG, st: &mut Stats) -> Result<(), String> {
    let w = world(m)?;
    let g = &w.g;
    for &r in &m.nodes {
        let want = solo(&w, Kind::D(r))?;
        st.transitions += lawful(&|| DepthFirst::new(g, r).map_err(|e| format!("{:?}", e)), &|s| Obs::Step(self::stp(s)), &want, &format!("DepthFirst({})", r), true)?;
        let want = solo(&w, Kind::B(r))?;
        st.transitions += lawful(&|| BreadthFirst::new(g, r).map_err(|e| format!("{:?}", e)), &|s| Obs::Step(self::stp(s)), &want, &format!("BreadthFirst({})", r), true)?;
        let want = solo(&w, Kind::A(r))?;
        let mine: Vec<Obs> = m.nb(r).iter().cloned().map(Obs::Id).collect();
        if want != mine {
            return Err(format!("neighbors({}) = {:?}, expected {:?}", r, want, mine));
        }
        st.transitions += lawful(&|| g.neighbors(r).map_err(|e| format!("{:?}", e)), &Obs::Id, &want, &format!("neighbors({})", r), false)?;
    }
    let want = solo(&w, Kind::C)?;
    st.transitions += lawful(&|| Ok(components(g)), &|c: DefaultGraph| Obs::Part(c.nodes().collect(), c.edges().collect()), &want, "components", true)?;
    st.transitions += lawful(&|| Ok(g.nodes()), &Obs::Id, &solo(&w, Kind::N)?, "nodes", false)?;
    st.transitions += lawful(&|| Ok(g.edges()), &Obs::Pair, &solo(&w, Kind::E)?, "edges", false)?;
    st.transitions += lawful(&|| Ok(w.p.edges()), &Obs::Pair, &solo(&w, Kind::P)?, "Pairing::edges", false)?;
    // matchings, repeated
    let mut first = Pairing::new();
    maximum_matching(g, &mut first);
    for _ in 0..2 {
        let mut again = Pairing::new();
        maximum_matching(g, &mut again);
        if again != first {
            return Err(format!("maximum_matching from the empty pairing gives {:?}, then {:?}", pair_set(&first), pair_set(&again)));
        }
        if greedy(g) != greedy(g) {
            return Err(String::from("greedy gives two different pairings"));
        }
        st.transitions += 3;
    }
    st.transitions += view(g, m, &[usize::MAX]).map_err(|e| format!("graph after analysis: {}", e))?;
    st.states += 1;
    st.traces += 1;
    st.outcome(&want);
    Ok(())
}

fn stp(s: gamma::traversal::Step) -> St {
    st(s)
}

/// Abandons a partly consumed iterator, runs something else, then expects the
/// usual answers from fresh iterators and the same graph as before.
fn judge_abandoned(m: &RG, k: Kind, upto: usize, st: &mut Stats) -> Result<(), String> {
    let w = world(m)?;
    let fresh = world(m)?;
    let g = &w.g;
    let mut ks = kinds(m);
    ks.extend(read_kinds(m));
    let alone = solo(if k == Kind::P { &w } else { &fresh }, k)?;
    let mut it = make(&w, k)?;
    for _ in 0..upto {
        it.next();
    }
    // other work while it is suspended
    let p0 = greedy(g);
    let mut p = Pairing::new();
    maximum_matching(g, &mut p);
    let inner = components(g).count();
    let rest: Vec<Obs> = it.take(4 * (m.edges.len() + m.nodes.len()) + 16).collect();
    let want = alone;
    if rest != want[upto.min(want.len())..] {
        return Err(format!("{:?} resumed after {} items and other work yields {:?}, expected {:?}", k, upto, rest, &want[upto.min(want.len())..]));
    }
    if inner != ref_components(m).len() {
        return Err(format!("components while a traversal is suspended: {}", inner));
    }
    // abandon one midway, then everything again
    let mut it = make(&w, k)?;
    for _ in 0..upto {
        it.next();
    }
    drop(it);
    for &k2 in &ks {
        st.transitions += 1;
        let mut a = solo(&w, k2)?;
        let mut b = solo(&fresh, k2)?;
        if k2 == Kind::P {
            // the order of pairs is free
            a.sort_by_key(|x| format!("{:?}", x));
            b.sort_by_key(|x| format!("{:?}", x));
        }
        if a != b {
            return Err(format!("{:?} after abandoning {:?} at {}: {:?}, on a fresh graph {:?}", k2, k, upto, a, b));
        }
    }
    let p1 = greedy(g);
    if p0 != p1 || p0 != greedy(&fresh.g) {
        return Err(String::from("greedy changes its answer on an unchanged graph"));
    }
    let mut q = Pairing::new();
    maximum_matching(&fresh.g, &mut q);
    if p != q {
        return Err(String::from("maximum_matching gives another pairing on a fresh copy of the graph"));
    }
    st.transitions += view(g, m, &[usize::MAX]).map_err(|e| format!("graph after analysis: {}", e))?;
    st.states += 1;
    st.traces += 1;
    st.outcome(&want);
    Ok(())
}

pub fn c16(t: Tier) -> Check {
    let mut s = vec![];
    let gs = small_graphs();
    // two iterators over the same graph, all interleavings
    let n = gs.len();
    let g1 = gs.clone();
    s.push(stage(
        "two_iterators_one_graph",
        format!("{} graphs (all simple graphs on <= 4 nodes up to isomorphism, looped cycles) x all pairs of iterators (depth-first, breadth-first and neighbors from every node, components, nodes, edges, pairs of a pairing) x all interleavings of create/next../next after the end/drop", n),
        (n * 256) as u64,
        move |i, cx| {
            let m = &g1[i as usize / 256];
            let mut ks = kinds(m);
            ks.extend(read_kinds(m));
            let (a, b) = (i as usize % 256 / 16, i as usize % 16);
            if a >= ks.len() || b >= ks.len() || b < a {
                return Ok(());
            }
            two(m, m, ks[a], ks[b], true, 1, cx)
        },
    ));
    // two graphs with the same ids
    let g2: Vec<RG> = gs.iter().filter(|g| g.nodes.len() >= 3 && g.edges.len() >= 2 && (t.thorough() || g.edges.len() <= 4)).cloned().collect();
    let n2 = g2.len();
    s.push(stage(
        "two_iterators_two_graphs",
        format!("all ordered pairs of {} such graphs sharing ids x iterators from root 0 (depth-first, breadth-first, components) x all interleavings", n2),
        (n2 * n2 * 9) as u64,
        move |i, cx| {
            let i = i as usize;
            let (a, b) = (&g2[i / 9 / n2], &g2[i / 9 % n2]);
            let ks = [Kind::D(0), Kind::B(0), Kind::C];
            two(a, b, ks[i % 9 / 3], ks[i % 3], false, 0, cx)
        },
    ));
    // three iterators over one small graph
    let g3: Vec<RG> = vec![family("path", 3), family("cycle", 3), reordered(&family("path", 4), 2), family("star", 4)];
    let n3 = if t.thorough() { 4 } else { 2 };
    s.push(stage(
        "three_iterators",
        format!("{} graphs x all triples of iterators from roots 0 and last (depth-first, breadth-first) and components x all interleavings", n3),
        n3 * 125,
        move |i, cx| {
            let m = &g3[i as usize / 125];
            let last = m.nodes[m.nodes.len() - 1];
            let ks = [Kind::D(0), Kind::D(last), Kind::B(0), Kind::B(last), Kind::C];
            let k3 = [ks[i as usize % 125 / 25], ks[i as usize % 25 / 5], ks[i as usize % 5]];
            let pos = |k: Kind| ks.iter().position(|&x| x == k).unwrap();
            if pos(k3[0]) > pos(k3[1]) || pos(k3[1]) > pos(k3[2]) {
                return Ok(());
            }
            let (g, want) = match prep(m, &k3, cx)? {
                Some(x) => x,
                None => return Ok(()),
            };
            interleave(&[&g, &g, &g], &k3, &want, 0, &|| rs_ops(m), cx)
        },
    ));
    // iterator laws
    s.push(stage(
        "laws_loops_4",
        "all graphs with loops on 4 nodes x 3 insertion orders: count, last, nth, size_hint, by_ref, end of iteration at every position",
        graph_count(4, true) * 3,
        |i, cx| {
            let m = reordered(&labeled(4, true, i / 3), (i % 3) as usize);
            cx.case(|| format!("{}iterator laws", rs_ops(&m)), |st| judge_lawful(&m, st))
        },
    ));
    let n5 = 6usize;
    s.push(stage(
        "laws_simple",
        format!("all simple graphs on {} nodes: the same laws", n5),
        graph_count(n5, false),
        move |i, cx| {
            let m = labeled(n5, false, i);
            cx.case(|| format!("{}iterator laws", rs_ops(&m)), |st| judge_lawful(&m, st))
        },
    ));
    // suspended and abandoned iterators
    s.push(stage(
        "suspended_abandoned",
        "all graphs with loops on 4 nodes and all simple ones on 5 x every iterator x every suspension point, with other algorithms run meanwhile, and abandoned there",
        2048,
        |i, cx| {
            let m = if i < 1024 { labeled(4, true, i) } else { labeled(5, false, i - 1024) };
            for k in kinds(&m).into_iter().chain(read_kinds(&m)) {
                let most = match k {
                    Kind::D(_) | Kind::B(_) | Kind::C => m.edges.len() + 1,
                    Kind::E => m.edges.len(),
                    Kind::N => m.nodes.len(),
                    Kind::A(r) => m.nb(r).len(),
                    Kind::P => {
                        let mut used = BTreeSet::new();
                        m.edges.iter().filter(|e| !used.contains(&e.0) && !used.contains(&e.1) && used.insert(e.0) && used.insert(e.1)).count()
                    }
                };
                for upto in 0..=most {
                    cx.case(|| format!("{}{:?} suspended after {}", rs_ops(&m), k, upto), |st| judge_abandoned(&m, k, upto, st))?;
                }
            }
            Ok(())
        },
    ));
    let nf = FAMILIES.len();
    let sizes: Vec<usize> = t.pick(vec![5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66], (5..=40).chain([64, 65, 66, 100]).collect());
    s.push(stage(
        "families",
        format!("all {} families x sizes {:?}, alone and with one of 3 kinds of additions (loops, isolated nodes, leaves, components): laws, and iterators from first/last root suspended at every third point (above size 20 only those with at most 100 edges)", nf, sizes),
        (nf * sizes.len() * 2) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k) = (FAMILIES[i % nf], sizes[i / nf / 2]);
            let m = dressed(&family(f, k), if i / nf % 2 == 0 { 0 } else { 1 + (k + i % nf) % 3 });
            if k > 20 && m.edges.len() > 100 {
                return Ok(());
            }
            cx.case(|| format!("family {} size {}: {}iterator laws", f, k, rs_ops(&m)), |st| judge_lawful(&m, st))?;
            let last = m.nodes[m.nodes.len() - 1];
            for kd in [Kind::D(0), Kind::D(last), Kind::B(0), Kind::B(last), Kind::C] {
                for upto in (0..=m.edges.len() + 1).step_by(3) {
                    if m.edges.len() > 60 && upto % 15 != 0 {
                        continue;
                    }
                    cx.case(|| format!("family {} size {}: {}{:?} suspended after {}", f, k, rs_ops(&m), kd, upto), |st| judge_abandoned(&m, kd, upto, st))?;
                }
            }
            Ok(())
        },
    ));
    Check { id: "C16", stages: s, assumptions: vec!["iterators are interleaved on one OS thread; the library contains no synchronisation to schedule".into()] }
}

fn prep(m: &RG, ks: &[Kind], cx: &mut Ctx) -> Result<Option<(World, Vec<Vec<Obs>>)>, Stop> {
    let mut out = None;
    cx.case(
        || format!("{}{:?} each alone", rs_ops(m), ks),
        |_| {
            let g = world(m)?;
            let mut w = vec![];
            for &k in ks {
                w.push(solo(&g, k)?);
            }
            out = Some((g, w));
            Ok(())
        },
    )?;
    Ok(out)
}

fn two(m1: &RG, m2: &RG, a: Kind, b: Kind, same: bool, extra: usize, cx: &mut Ctx) -> R {
    let (ga, wa) = match prep(m1, &[a], cx)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let (gb, wb) = match prep(m2, &[b], cx)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut want = vec![wa[0].clone(), wb[0].clone()];
    if same && b == Kind::P {
        // the order of pairs belongs to the pairing, not to its contents
        cx.case(|| format!("{}pairs alone", rs_ops(m1)), |_| {
            want[1] = solo(&ga, b)?;
            Ok(())
        })?;
    }
    let second = if same { &ga } else { &gb };
    interleave(&[&ga, second], &[a, b], &want, extra, &|| format!("{} and {}", rs_ops(m1), if same { "the same graph".into() } else { rs_ops(m2) }), cx)
}
