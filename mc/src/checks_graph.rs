//! C01-C04, C17, C18: the graph type.

use crate::gen::*;
use crate::lib_api::*;
use crate::model::*;
use crate::runner::*;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::{greedy, maximum_matching, Pairing};
use gamma::selection::components;
use gamma::traversal::{BreadthFirst, DepthFirst};
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;

#[derive(Clone, Copy, Debug)]
pub enum Op {
    N(usize),
    E(usize, usize),
}

pub fn ops_over(ids: &[usize]) -> Vec<Op> {
    let mut v: Vec<Op> = ids.iter().map(|&i| Op::N(i)).collect();
    for &a in ids {
        for &b in ids {
            v.push(Op::E(a, b));
        }
    }
    v
}

fn rs_history(start: &str, ops: &[Op], obs: &str) -> String {
    let mut s = String::from(start);
    for o in ops {
        match o {
            Op::N(i) => s += &format!("let _ = g.add_node({}); ", i),
            Op::E(a, b) => s += &format!("let _ = g.add_edge({}, {}); ", a, b),
        }
    }
    s + obs
}

pub fn apply(g: &mut DefaultGraph, m: &mut RG, op: Op) -> Result<(), String> {
    let (want, got) = match op {
        Op::N(i) => (m.add_node(i), g.add_node(i)),
        Op::E(a, b) => (m.add_edge(a, b), g.add_edge(a, b)),
    };
    if want.accepts(&got) {
        Ok(())
    } else {
        Err(format!("{:?} returned {:?}, expected {:?}", op, got, want))
    }
}

/// Runs a history on graph and model; observes after op i iff bit i of `obs`.
fn run_history(
    mut g: DefaultGraph,
    mut m: RG,
    ops: &[Op],
    obs: u64,
    probes: &[usize],
    st: &mut Stats,
) -> Result<(), String> {
    for (i, &o) in ops.iter().enumerate() {
        apply(&mut g, &mut m, o).map_err(|e| format!("step {}: {}", i + 1, e))?;
        st.transitions += 1;
        if obs >> i & 1 == 1 {
            st.transitions += view(&g, &m, probes).map_err(|e| format!("after step {}: {}", i + 1, e))?;
        }
    }
    st.traces += 1;
    st.states += 1;
    st.outcome(&(&m.nodes, &m.edges));
    Ok(())
}

fn each_seq(al: &[Op], len: usize, cur: &mut Vec<Op>, f: &mut dyn FnMut(&[Op]) -> R) -> R {
    if cur.len() == len {
        return f(cur);
    }
    for &o in al {
        cur.push(o);
        each_seq(al, len, cur, f)?;
        cur.pop();
    }
    Ok(())
}

fn prefix(al: &[Op], k: usize, mut index: u64) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..k {
        v.push(al[(index % al.len() as u64) as usize]);
        index /= al.len() as u64;
    }
    v.reverse();
    v
}

/// All insertion variants used as non-initial start states.
fn start_variants(n: usize, mask: u64) -> Vec<RG> {
    let g = labeled(n, true, mask);
    (0..3).map(|v| reordered(&g, v)).collect()
}

pub fn c01(t: Tier) -> Check {
    let ids: [usize; 3] = [5, 0, usize::MAX];
    let probes: [usize; 5] = [5, 0, usize::MAX, 1, 1 << 32];
    let mut stages = vec![];
    let depth = t.pick(6, 7);
    // every history up to the depth, observed at the end only
    for (name, every) in [("histories_end", false), ("histories_every_step", true)] {
        let al = ops_over(&ids);
        let pre = depth - 3;
        let bound = format!(
            "all {}^{} histories of add_node/add_edge over ids {:?}, length <= {}, {}",
            al.len(), depth, ids, depth,
            if every { "observed in full after every step" } else { "each length observed in full only at its end" }
        );
        stages.push(stage(name, bound, (al.len() as u64).pow(pre as u32), move |i, cx| {
            let p = prefix(&al, pre, i);
            let lens: Vec<usize> = if every { vec![depth] } else { (pre..=depth).collect() };
            for len in lens {
                let obs = if every { u64::MAX } else { 1 << (len - 1) };
                each_seq(&al, len, &mut p.clone(), &mut |ops| {
                    cx.case(
                        || rs_history("let mut g = DefaultGraph::new(); ", ops, if every { "// observed after each call" } else { "// observed at the end" }),
                        |st| run_history(DefaultGraph::new(), RG::new(), ops, obs, &probes, st),
                    )
                })?;
            }
            Ok(())
        }));
    }
    {
        let al = ops_over(&ids);
        let d = t.pick(4, 5);
        stages.push(stage(
            "observation_points",
            format!("all histories of length {} x all subsets of observation points", d),
            (al.len() as u64).pow(2),
            move |i, cx| {
                let p = prefix(&al, 2, i);
                each_seq(&al, d, &mut p.clone(), &mut |ops| {
                    for sub in 0..1u64 << (d - 1) {
                        cx.case(
                            || rs_history("let mut g = DefaultGraph::new(); ", ops, &format!("// observed after steps with bits {:#b}", sub | 1 << (d - 1))),
                            |st| run_history(DefaultGraph::new(), RG::new(), ops, sub | 1 << (d - 1), &probes, st),
                        )?;
                    }
                    Ok(())
                })
            },
        ));
    }
    // from every graph on 4 nodes (loops included), every pair of calls
    {
        let al = ops_over(&[0, 1, 2, 3, 4]);
        let n = graph_count(4, true);
        stages.push(stage(
            "from_every_4_node_graph",
            "all 1024 graphs with loops on 4 nodes x 3 insertion orders x all pairs of calls over 5 ids",
            n * 3,
            move |i, cx| {
                let m0 = start_variants(4, i / 3).swap_remove((i % 3) as usize);
                each_seq(&al, 2, &mut vec![], &mut |ops| {
                    cx.case(
                        || rs_history(&rs_ops(&m0), ops, ""),
                        |st| run_history(by_ops(&m0)?, m0.clone(), ops, 2, &[4, 9], st),
                    )
                })
            },
        ));
    }
    // graphs coming out of the other constructors, then mutated
    {
        let al = ops_over(&[0, 1, 2, 3]);
        let n = graph_count(3, true);
        stages.push(stage(
            "from_constructors",
            "all 64 graphs with loops on 3 nodes built by each constructor (adjacency list, edge list, traversal, component), then all sequences of 2 (thorough: 3) calls over 4 ids",
            n * 4,
            move |i, cx| {
                let m = labeled(3, true, i / 4);
                let kind = i % 4;
                let len = t.pick(2, 3);
                let root = 0;
                let adj = m.adj.clone();
                let m0 = match kind {
                    0 => RG::from_adjacency(&adj),
                    1 => edge_list_model(&m.edges),
                    _ => component_model(&m, root),
                };
                if kind == 2 && m.adj[0].is_empty() {
                    return Ok(());
                }
                let desc = match kind {
                    0 => rs_adj(&adj),
                    1 => format!("let mut g = DefaultGraph::try_from(vec!{:?}).unwrap(); ", m.edges),
                    2 => format!("{} let mut g = DefaultGraph::try_from(DepthFirst::new(&g, 0).unwrap()).unwrap(); ", rs_ops(&m)),
                    _ => format!("{} let mut g = components(&g).next().unwrap(); ", rs_ops(&m)),
                };
                each_seq(&al, len, &mut vec![], &mut |ops| {
                    cx.case(
                        || rs_history(&desc, ops, ""),
                        |st| {
                            let g = match kind {
                                0 => by_adjacency(&adj)?,
                                1 => by_edges(&m.edges)?,
                                2 => {
                                    let src = by_ops(&m)?;
                                    let tr = DepthFirst::new(&src, root).map_err(|e| format!("{:?}", e))?;
                                    DefaultGraph::try_from(tr).map_err(|e| format!("conversion of a traversal failed: {:?}", e))?
                                }
                                _ => {
                                    let src = by_ops(&m)?;
                                    let c = components(&src).next();
                                    c.ok_or("components() of a non-empty graph is empty")?
                                }
                            };
                            let m0 = if kind == 3 { component_of(&g, &m, root)? } else { m0.clone() };
                            view(&g, &m0, &[9])?;
                            run_history(g, m0, ops, u64::MAX, &[3, 9], st)
                        },
                    )
                })
            },
        ));
    }
    {
        let ls = listings(t.pick(5, 6));
        stages.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {}, every edge re-added in both orientations", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    cx.case(|| format!("{} each edge re-added", rs_ops(&m)), |st| build_family(&m, st))?;
                }
                Ok(())
            },
        ));
    }
    // pairs of edges which a careless key could confuse
    stages.push(stage(
        "factor_ids",
        format!("ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f: one edge, then every second one, both orientations; the complete graph with loops, 3 orders, every edge re-added", FACTORS.len()),
        FACTORS.len() as u64 * 46,
        |i, cx| {
            let ids = factor_ids(FACTORS[i as usize / 46]);
            let ps = pairs(9, true);
            let all: Vec<Edge> = ps.iter().map(|&(a, b)| (ids[a], ids[b])).collect();
            let k = i as usize % 46;
            if k == 45 {
                for v in 0..3 {
                    let m = reordered(&RG::from_edges(&ids, &all), v);
                    cx.case(|| format!("{} each edge re-added", rs_ops(&m)), |st| build_family(&m, st))?;
                }
                return Ok(());
            }
            let m = RG::from_edges(&ids, &all[k..k + 1]);
            for &(a, b) in &all {
                for op in [Op::E(a, b), Op::E(b, a)] {
                    cx.case(|| rs_history(&rs_ops(&m), &[op], ""), |st| run_history(by_ops(&m)?, m.clone(), &[op], 1, &[7], st))?;
                }
            }
            Ok(())
        },
    ));
    // large builds, duplicate attempts interleaved
    {
        let sizes: Vec<usize> = t.pick((1..=24).chain([31, 32, 33, 40, 63, 64, 65, 66, 72, 100, 101, 129]).collect(), (1..=70).chain([72, 97, 100, 101, 129, 140, 257]).collect());
        let fam: Vec<&'static str> = FAMILIES.to_vec();
        let n = sizes.len() * fam.len() * FVARIANTS;
        stages.push(stage(
            "families",
            format!("all {} graph families x sizes {:?} x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added, every edge re-added in both orientations as soon as it exists, full reads along the way", fam.len(), sizes),
            n as u64,
            move |i, cx| {
                let i = i as usize;
                let (f, k, v) = (fam[i % fam.len()], sizes[i / fam.len() / FVARIANTS], i / fam.len() % FVARIANTS);
                cx.case(
                    || format!("family {} size {} order {}: add all nodes and edges, re-adding each", f, k, v),
                    |st| build_family(&cast(f, k, v), st),
                )
            },
        ));
        let big: Vec<(&'static str, usize)> = vec![("star", t.pick(700, 3000)), ("path", t.pick(700, 3000)), ("complete", t.pick(100, 300)), ("isolated", t.pick(1100, 5000))];
        stages.push(stage(
            "large",
            format!("{:?} x 2 orders", big),
            big.len() as u64 * 2,
            move |i, cx| {
                let (f, k) = big[i as usize / 2];
                cx.case(
                    || format!("large family {} size {} order {}", f, k, i % 2),
                    |st| {
                        let m = reordered(&family(f, k), i as usize % 2);
                        let g = by_ops(&m)?;
                        st.transitions += view(&g, &m, &[usize::MAX])?;
                        st.states += 1;
                        st.traces += 1;
                        Ok(())
                    },
                )
            },
        ));
        stages.push(huge_stage("add_node/add_edge", |m| Ok((by_ops(m)?, m.clone())), |g, m| {
            let n = m.nodes.len();
            let mut k = 0;
            for &(a, b) in m.edges.iter().take(3).chain(m.edges.last()) {
                k += 2;
                if g.add_edge(b, a) != Err(Error::DuplicateEdge(b, a)) || g.add_edge(a, n) != Err(Error::MissingNode(n)) {
                    return Err(format!("edge ({}, {}) accepted again, or an absent node", b, a));
                }
            }
            if g.add_node(n - 1) != Err(Error::DuplicateNode(n - 1)) || g.add_node(n) != Ok(()) || g.add_edge(n, n - 2) != Ok(()) || g.add_edge(n - 2, n) != Err(Error::DuplicateEdge(n - 2, n)) {
                return Err(String::from("a node added at the end is not treated like others"));
            }
            m.add_node(n);
            m.add_edge(n, n - 2);
            Ok(k + view(g, m, &[n + 1])?)
        }));
    }
    Check {
        id: "C01",
        stages,
        assumptions: vec!["ids outside the listed alphabets behave like those inside".into()],
    }
}

/// Graphs beyond 2^16 nodes and neighbours, built, read in full, then `more`.
fn huge_stage(
    what: &'static str,
    build: impl Fn(&RG) -> Result<(DefaultGraph, RG), String> + Send + Sync + 'static,
    more: impl Fn(&mut DefaultGraph, &mut RG) -> Result<u64, String> + Send + Sync + 'static,
) -> Stage {
    stage(
        "huge",
        format!("{:?} with {} nodes by {}", HUGE, HUGE_N, what),
        HUGE.len() as u64,
        move |i, cx| {
            let f = HUGE[i as usize];
            let m = cx.prepare(|| huge(f));
            cx.case(|| format!("huge {} of {} nodes by {}", f, HUGE_N, what), |st| {
                let (mut g, mut m) = build(&m)?;
                st.states += 1;
                st.traces += 1;
                st.transitions += view(&g, &m, &[HUGE_N, usize::MAX])?;
                st.transitions += more(&mut g, &mut m)?;
                Ok(())
            })
        },
    )
}

fn build_family(m: &RG, st: &mut Stats) -> Result<(), String> {
    let mut g = DefaultGraph::new();
    let mut r = RG::new();
    let absent = 1_000_003;
    for (i, &n) in m.nodes.iter().enumerate() {
        apply(&mut g, &mut r, Op::N(n))?;
        apply(&mut g, &mut r, Op::N(m.nodes[i / 2]))?;
        st.transitions += 2;
    }
    let every = (m.edges.len() / 12).max(1);
    for (i, &(a, b)) in m.edges.iter().enumerate() {
        apply(&mut g, &mut r, Op::E(a, b))?;
        apply(&mut g, &mut r, Op::E(b, a))?;
        apply(&mut g, &mut r, Op::E(a, b))?;
        let (c, d) = m.edges[i / 2];
        apply(&mut g, &mut r, Op::E(d, c))?;
        apply(&mut g, &mut r, Op::E(a, absent))?;
        apply(&mut g, &mut r, Op::E(absent, b))?;
        apply(&mut g, &mut r, Op::N(a))?;
        st.transitions += 7;
        if i % every == 0 {
            st.states += 1;
            st.transitions += view(&g, &r, &[absent])?;
        }
    }
    st.transitions += view(&g, &r, &[absent])?;
    st.traces += 1;
    st.states += 1;
    Ok(())
}

/// What the edge-list constructor should give for a duplicate-free list.
pub fn edge_list_model(es: &[Edge]) -> RG {
    let mut m = RG::new();
    for &(a, b) in es {
        if !m.has(a) {
            m.add_node(a);
        }
        if !m.has(b) {
            m.add_node(b);
        }
        m.add_edge(a, b);
    }
    m
}

/// What converting the depth-first traversal from `root` should give: nodes in
/// order of discovery, edges in order and direction of traversal.
pub fn component_model(m: &RG, root: usize) -> RG {
    let mut r = RG::new();
    r.add_node(root);
    for (a, b, cut) in ref_dfs(m, root) {
        if !cut {
            r.add_node(b);
        }
        r.add_edge(a, b);
    }
    r
}

/// What a graph says of itself, as a model. The order of nodes, neighbours and
/// edges in a component is the library's choice; what follows is not.
pub fn read_back(g: &DefaultGraph) -> Result<RG, String> {
    let nodes: Vec<usize> = g.nodes().collect();
    let mut adj = vec![];
    for &n in &nodes {
        adj.push(g.neighbors(n).map_err(|e| format!("neighbors({}): {:?}", n, e))?.collect());
    }
    let m = RG { nodes, adj, edges: g.edges().collect() };
    let distinct = |v: &[usize]| v.iter().collect::<std::collections::BTreeSet<_>>().len() == v.len();
    let mut linked: std::collections::BTreeSet<Edge> = std::collections::BTreeSet::new();
    for (i, l) in m.adj.iter().enumerate() {
        linked.extend(l.iter().map(|&x| (m.nodes[i], x)));
    }
    let mut listed: std::collections::BTreeSet<Edge> = std::collections::BTreeSet::new();
    for &(a, b) in &m.edges {
        listed.extend([(a, b), (b, a)]);
    }
    let once: std::collections::BTreeSet<Edge> = m.edges.iter().map(|&(a, b)| und(a, b)).collect();
    if !distinct(&m.nodes) || m.adj.iter().any(|l| !distinct(l)) || linked != listed || once.len() != m.edges.len() {
        return Err(format!("nodes, neighbours and edges do not fit together: {}", m.describe()));
    }
    Ok(m)
}

/// The component of `root`, in whatever order the library gives it.
fn component_of(g: &DefaultGraph, m: &RG, root: usize) -> Result<RG, String> {
    let got = read_back(g)?;
    let want = component_model(m, root);
    if key(&got) != key(&want) {
        return Err(format!("component of {} is {}", root, got.describe()));
    }
    Ok(got)
}

// ------------------------------------------------------------------ C02

/// The defects present in an adjacency list, in the terms of the error type.
fn truthful(adj: &[Vec<usize>], e: &Error) -> bool {
    let n = adj.len();
    match *e {
        Error::MissingNode(x) => x >= n && adj.iter().any(|l| l.contains(&x)),
        Error::DuplicateEdge(a, b) => {
            a < n && adj[a].iter().filter(|&&x| x == b).count() > 1
        }
        Error::MissingEdge(a, b) => {
            a < n && b < n && adj[b].contains(&a) && !adj[a].contains(&b)
        }
        Error::DuplicateNode(_) => false,
    }
}

fn well_formed(adj: &[Vec<usize>]) -> bool {
    let n = adj.len();
    adj.iter().enumerate().all(|(s, l)| {
        l.iter().enumerate().all(|(i, &x)| x < n && !l[i + 1..].contains(&x) && adj[x].contains(&s))
    })
}

fn judge_adj(adj: &[Vec<usize>], st: &mut Stats) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    st.transitions += 1;
    let r = DefaultGraph::try_from(adj.to_vec());
    match (well_formed(adj), r) {
        (true, Ok(g)) => {
            st.transitions += view(&g, &RG::from_adjacency(adj), &[adj.len(), adj.len() + 7])?;
            st.outcome(&1);
            Ok(())
        }
        (true, Err(e)) => Err(format!("well-formed adjacency list rejected with {:?}", e)),
        (false, Ok(g)) => Err(format!(
            "malformed adjacency list accepted: nodes={:?} edges={:?}",
            g.nodes().take(20).collect::<Vec<_>>(),
            g.edges().take(40).collect::<Vec<_>>()
        )),
        (false, Err(e)) => {
            st.outcome(&format!("{:?}", e));
            if truthful(adj, &e) {
                Ok(())
            } else {
                Err(format!("rejected with {:?}, which names no defect of the list", e))
            }
        }
    }
}

fn rs_try_adj(adj: &[Vec<usize>]) -> String {
    if adj.len() > 60 {
        return format!("DefaultGraph::try_from(adjacency list with {} nodes)", adj.len());
    }
    let l: Vec<String> = adj.iter().map(|v| format!("vec!{:?}", v)).collect();
    format!("DefaultGraph::try_from(vec![{}])", l.join(", "))
}

fn lists(symbols: usize, maxlen: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = vec![];
        for l in &level {
            for s in 0..symbols {
                let mut m = l.clone();
                m.push(s);
                next.push(m);
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}

/// Single-entry corruptions of a well-formed list.
fn corruptions(adj: &[Vec<usize>]) -> Vec<Vec<Vec<usize>>> {
    let n = adj.len();
    let mut out = vec![];
    for s in 0..n {
        for i in 0..adj[s].len() {
            let mut a = adj.to_vec();
            a[s].remove(i);
            out.push(a);
            for x in (0..n).chain([n, n + 1, usize::MAX]) {
                if x != adj[s][i] {
                    let mut a = adj.to_vec();
                    a[s][i] = x;
                    out.push(a);
                }
            }
        }
        for i in 0..=adj[s].len() {
            for x in (0..n).chain([n, usize::MAX]) {
                let mut a = adj.to_vec();
                a[s].insert(i, x);
                out.push(a);
            }
        }
    }
    out
}

pub fn c02(t: Tier) -> Check {
    let mut stages = vec![];
    for (name, n, len) in [
        ("all_lists_1", 1usize, 4usize),
        ("all_lists_2", 2, 4),
        ("all_lists_3", 3, t.pick(3, 4)),
        ("all_lists_4", 4, 2),
    ] {
        let opts = lists(n + 1, len);
        let k = opts.len() as u64;
        let outer = if n == 1 { 1 } else { k };
        stages.push(stage(
            name,
            format!("all adjacency lists with {} rows of length <= {} over symbols 0..={} (the last one not a node)", n, len, n),
            outer,
            move |i, cx| {
                let first = if n == 1 { None } else { Some(opts[i as usize].clone()) };
                let free = if n == 1 { 1 } else { n - 1 };
                let mut at = vec![0usize; free];
                loop {
                    let mut adj: Vec<Vec<usize>> = first.iter().cloned().collect();
                    adj.extend(at.iter().map(|&x| opts[x].clone()));
                    cx.case(|| rs_try_adj(&adj), |st| judge_adj(&adj, st))?;
                    let mut p = 0;
                    loop {
                        if p == free {
                            return Ok(());
                        }
                        at[p] += 1;
                        if at[p] < opts.len() {
                            break;
                        }
                        at[p] = 0;
                        p += 1;
                    }
                }
            },
        ));
    }
    stages.push(stage("empty_list", "the empty list", 1, |_, cx| {
        cx.case(|| rs_try_adj(&[]), |st| judge_adj(&[], st))
    }));
    stages.push(stage(
        "orders_4_loops",
        "all graphs with loops on 4 nodes x all neighbour orders",
        graph_count(4, true),
        |i, cx| {
            each_neighbour_order(&labeled(4, true, i), &mut |m| {
                cx.case(|| rs_try_adj(&m.adj), |st| judge_adj(&m.adj, st))
            })
        },
    ));
    // up to relabeling, every neighbour-ordered graph on 5 nodes
    stages.push(stage(
        "orders_5_from_0",
        "all simple graphs on 5 nodes in which node 0 has neighbours 1..d in ascending order x all neighbour orders of the other nodes",
        front_count(5),
        |i, cx| {
            each_neighbour_order_but_first(&front(5, i), &mut |m| {
                cx.case(|| rs_try_adj(&m.adj), |st| judge_adj(&m.adj, st))
            })
        },
    ));
    if t.thorough() {
        stages.push(stage(
            "orders_5",
            "all simple graphs on 5 nodes x all neighbour orders",
            graph_count(5, false),
            |i, cx| {
                each_neighbour_order(&labeled(5, false, i), &mut |m| {
                    cx.case(|| rs_try_adj(&m.adj), |st| judge_adj(&m.adj, st))
                })
            },
        ));
    }
    let nn = 4;
    stages.push(stage(
        "corrupt_4",
        "all graphs with loops on 4 nodes, rows ascending and descending, x every single-entry corruption (remove, replace, insert)",
        graph_count(nn, true),
        move |i, cx| {
            let m = labeled(nn, true, i);
            let mut adj = m.adj.clone();
            for l in adj.iter_mut() {
                l.sort();
            }
            for rev in [false, true] {
                if rev {
                    for l in adj.iter_mut() {
                        l.reverse();
                    }
                }
                for a in corruptions(&adj) {
                    cx.case(|| rs_try_adj(&a), |st| judge_adj(&a, st))?;
                }
            }
            Ok(())
        },
    ));
    stages.push(stage(
        "corrupt_5",
        "all simple graphs on 5 nodes, rows ascending, x every single-entry corruption",
        graph_count(5, false),
        move |i, cx| {
            let m = labeled(5, false, i);
            for a in corruptions(&m.adj) {
                cx.case(|| rs_try_adj(&a), |st| judge_adj(&a, st))?;
            }
            Ok(())
        },
    ));
    let sizes: Vec<usize> = t.pick((1..=14).chain([16, 17, 20, 31, 32, 33, 63, 64, 65, 66, 101, 127, 128, 129, 130]).collect(), (1..=34).chain([63, 64, 65, 66, 101, 129, 130, 257]).collect());
    let nf = FAMILIES.len();
    stages.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 orders, 3 of them again with loops, isolated nodes, leaves and components added, plus every single-entry corruption up to size 12 and all removals, duplications and out-of-range entries above (of more than 400 entries, those near both ends and the middle of the first, middle and last rows)", nf, sizes),
        (sizes.len() * nf * 7) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / 7], i / nf % 7);
            let base = reordered(&dressed(&family(f, k), v.saturating_sub(3)), v % 4);
            // variants 1, 2 keep ids 0..n, so rows can be laid out by id
            let mut adj = vec![vec![]; base.nodes.len()];
            for (p, &n) in base.nodes.iter().enumerate() {
                adj[n] = base.adj[p].clone();
            }
            cx.case(|| rs_try_adj(&adj), |st| judge_adj(&adj, st))?;
            let n = adj.len();
            if n <= 12 {
                for a in corruptions(&adj) {
                    cx.case(|| rs_try_adj(&a), |st| judge_adj(&a, st))?;
                }
            } else {
                let all = adj.iter().map(|l| l.len()).sum::<usize>() <= 400;
                for s in 0..n {
                    for j in 0..adj[s].len() {
                        // of large lists, the corners
                        let edge = |x: usize, n: usize| x < 2 || x + 2 >= n || x == n / 2;
                        if !all && !(edge(s, n) && edge(j, adj[s].len())) {
                            continue;
                        }
                        let mut a = adj.clone();
                        let x = a[s].remove(j);
                        cx.case(|| format!("family {} size {} order {}: entry {} of row {} removed", f, k, v, j, s), |st| judge_adj(&a, st))?;
                        a[s].insert(j, x);
                        a[s].push(x);
                        cx.case(|| format!("family {} size {} order {}: entry {} of row {} repeated at the end", f, k, v, j, s), |st| judge_adj(&a, st))?;
                        a[s].pop();
                        a[s][j] = n;
                        cx.case(|| format!("family {} size {} order {}: entry {} of row {} out of range", f, k, v, j, s), |st| judge_adj(&a, st))?;
                    }
                }
            }
            Ok(())
        },
    ));
    stages.push(huge_stage("adjacency list", |m| Ok((by_adjacency(&m.adj)?, RG::from_adjacency(&m.adj))), |_, m| {
        let n = m.nodes.len();
        let (x, y) = *m.edges.last().unwrap();
        for (row, to, bad) in [(x, n, "out of range"), (x, y, "repeated"), (n / 3, n / 3 + 5, "one-sided")] {
            let mut a = m.adj.clone();
            a[row].push(to);
            match DefaultGraph::try_from(a) {
                Ok(_) => return Err(format!("accepted with an entry {} in row {} ({})", to, row, bad)),
                Err(e) => {
                    let ok = match bad {
                        "out of range" => e == Error::MissingNode(to),
                        "repeated" => e == Error::DuplicateEdge(row, to),
                        _ => e == Error::MissingEdge(to, row),
                    };
                    if !ok {
                        return Err(format!("entry {} in row {} ({}) rejected as {:?}", to, row, bad, e));
                    }
                }
            }
        }
        Ok(3)
    }));
    Check { id: "C02", stages, assumptions: vec![] }
}

// ------------------------------------------------------------------ C03

fn judge_edges(es: &[Edge], probes: &[usize], st: &mut Stats) -> Result<(), String> {
    st.states += 1;
    st.traces += 1;
    st.transitions += 1;
    let dup = (0..es.len()).find(|&i| es[..i].iter().any(|&(a, b)| und(a, b) == und(es[i].0, es[i].1)));
    let r = DefaultGraph::try_from(es.to_vec());
    match (dup, r) {
        (None, Ok(g)) => {
            st.outcome(&0);
            st.transitions += view(&g, &edge_list_model(es), probes)?;
            Ok(())
        }
        (Some(i), Err(Error::DuplicateEdge(a, b))) => {
            st.outcome(&(1, a, b));
            let named = (0..es.len()).any(|k| {
                es[k] == (a, b) && es[..k].iter().any(|&(c, d)| und(c, d) == und(a, b))
            });
            if named && es[i] == (a, b) {
                Ok(())
            } else {
                Err(format!("DuplicateEdge({}, {}) is not the first repeated entry {:?} as it was given", a, b, es[i]))
            }
        }
        (None, Err(e)) => Err(format!("valid edge list rejected with {:?}", e)),
        (Some(i), Ok(_)) => Err(format!("accepted although entry {} {:?} repeats an edge", i, es[i])),
        (Some(i), Err(e)) => Err(format!("entry {} {:?} repeats an edge but the error is {:?}", i, es[i], e)),
    }
}

pub fn c03(t: Tier) -> Check {
    let mut stages = vec![];
    for (name, ids, len) in [
        ("lists_3_ids", vec![0usize, 1, 2], t.pick(6usize, 7usize)),
        ("lists_3_sparse_ids", vec![usize::MAX, 4, 1 << 32], t.pick(5, 6)),
        ("lists_4_ids", vec![3usize, 1, 0, 2], t.pick(5, 6)),
    ] {
        let mut al = vec![];
        for &a in &ids {
            for &b in &ids {
                al.push((a, b));
            }
        }
        let k = al.len() as u64;
        let probes: Vec<usize> = ids.iter().cloned().chain([77, 0, 1]).collect();
        stages.push(stage(
            name,
            format!("all edge lists of length <= {} over ids {:?} (loops and both orientations included)", len, ids),
            k * k,
            move |i, cx| {
                let first = [al[(i / k) as usize], al[(i % k) as usize]];
                fn go(al: &[Edge], cur: &mut Vec<Edge>, max: usize, probes: &[usize], cx: &mut Ctx) -> R {
                    cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", cur), |st| judge_edges(cur, probes, st))?;
                    if cur.len() < max {
                        for &e in al {
                            cur.push(e);
                            go(al, cur, max, probes, cx)?;
                            cur.pop();
                        }
                    }
                    Ok(())
                }
                if i == 0 {
                    cx.case(|| "DefaultGraph::try_from(Vec::<(usize, usize)>::new())".into(), |st| judge_edges(&[], &probes, st))?;
                }
                if i % k == 0 {
                    let f = [first[0]];
                    cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", f), |st| judge_edges(&f, &probes, st))?;
                }
                go(&al, &mut first.to_vec(), len, &probes, cx)
            },
        ));
    }
    // every graph on 5 nodes in three orders, with one edge repeated anywhere
    stages.push(stage(
        "repeat_5",
        "all simple graphs on 5 nodes x 3 edge orders x every edge repeated at every later position in both orientations",
        graph_count(5, false) * 3,
        |i, cx| {
            let m = reordered(&labeled(5, false, i / 3), (i % 3) as usize);
            let es = m.edges.clone();
            cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", es), |st| judge_edges(&es, &[0, 9], st))?;
            for a in 0..es.len() {
                for p in a + 1..=es.len() {
                    for flip in [false, true] {
                        let mut v = es.clone();
                        let e = es[a];
                        v.insert(p, if flip { (e.1, e.0) } else { e });
                        cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", v), |st| judge_edges(&v, &[0, 9], st))?;
                    }
                }
            }
            Ok(())
        },
    ));
    stages.push(stage(
        "factor_ids",
        format!("all lists of two edges over ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f; all edges of the complete graph with loops", FACTORS.len()),
        FACTORS.len() as u64 * 81,
        |i, cx| {
            let ids = factor_ids(FACTORS[i as usize / 81]);
            let k = i as usize % 81;
            let e = (ids[k / 9], ids[k % 9]);
            for a in ids {
                for b in ids {
                    let v = [e, (a, b)];
                    cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", v), |st| judge_edges(&v, &[7], st))?;
                }
            }
            if k == 0 {
                let v: Vec<Edge> = pairs(9, true).iter().map(|&(a, b)| (ids[a], ids[b])).collect();
                cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", v), |st| judge_edges(&v, &[7], st))?;
            }
            Ok(())
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        stages.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {}, as an edge list and with each edge repeated at its end, either way round", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    for at in 0..=m.edges.len() {
                        for flip in [false, true] {
                            let mut w = m.edges.clone();
                            if at < w.len() {
                                w.push(if flip { (w[at].1, w[at].0) } else { w[at] });
                            }
                            cx.case(|| format!("DefaultGraph::try_from(vec!{:?})", w), |st| judge_edges(&w, &[8, 9], st))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    let sizes: Vec<usize> = t.pick((2..=20).chain([31, 32, 33, 40, 63, 64, 65, 66, 101, 128, 129, 130, 256, 260]).collect(), (2..=40).chain([65, 66, 100, 101, 130, 260, 520]).collect());
    let nf = FAMILIES.len();
    stages.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 orders, 3 with other ids and 3 with loops, isolated nodes and further components (edge lists have no isolated nodes); every edge repeated at the end in both orientations up to size 20, first/middle/last above (3 of the variants above 3000 edges)", nf, sizes),
        (sizes.len() * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
            let m = cast(f, k, v);
            let es = m.edges.clone();
            if es.len() > 3000 && ![0, 5, 8].contains(&v) {
                return Ok(());
            }
            cx.case(|| format!("edge list of family {} size {} order {}", f, k, v), |st| judge_edges(&es, &[1 << 40], st))?;
            let all: Vec<usize> = if k <= 20 { (0..es.len()).collect() } else if es.is_empty() { vec![] } else { vec![0, es.len() / 2, es.len() - 1] };
            for a in all {
                for flip in [false, true] {
                    let mut w = es.clone();
                    let e = es[a];
                    w.push(if flip { (e.1, e.0) } else { e });
                    cx.case(|| format!("edge list of family {} size {} order {} followed by {:?}", f, k, v, w.last().unwrap()), |st| judge_edges(&w, &[1 << 40], st))?;
                }
            }
            Ok(())
        },
    ));
    stages.push(huge_stage("edge list", |m| {
        // the last node gets an edge to itself, isolated nodes are dropped
        let mut es = m.edges.clone();
        let n = m.nodes.len();
        es.push((n - 1, n - 1));
        // and a run of pairs far from the others
        let es: Vec<Edge> = es.into_iter().chain((0..if m.edges.len() > 100 { 0 } else { n }).map(|k| (2 * n + k, 3 * n + k))).collect();
        let mut ids: Vec<usize> = vec![];
        let mut seen: HashSet<usize> = HashSet::new();
        for &(a, b) in &es {
            for x in [a, b] {
                if seen.insert(x) {
                    ids.push(x);
                }
            }
        }
        let mut at: HashMap<usize, usize> = HashMap::new();
        let mut r = RG::new();
        for x in ids {
            at.insert(x, r.nodes.len());
            r.nodes.push(x);
            r.adj.push(vec![]);
        }
        for &(a, b) in &es {
            r.adj[at[&a]].push(b);
            if a != b {
                r.adj[at[&b]].push(a);
            }
            r.edges.push((a, b));
        }
        Ok((by_edges(&es)?, r))
    }, |_, m| {
        let mut es = m.edges.clone();
        let (a, b) = es[es.len() / 2];
        es.push((b, a));
        es.push(es[0]);
        match DefaultGraph::try_from(es) {
            Err(e) if e == Error::DuplicateEdge(b, a) => Ok(1),
            r => Err(format!("edge ({}, {}) repeated at the end: {:?}", b, a, r.map(|_| ()))),
        }
    }));
    Check { id: "C03", stages, assumptions: vec![] }
}

// ------------------------------------------------------------------ C04

type Key = (Vec<usize>, Vec<Edge>);

fn key(m: &RG) -> Key {
    let mut n = m.nodes.clone();
    n.sort();
    let mut e: Vec<Edge> = m.edges.iter().map(|&(a, b)| und(a, b)).collect();
    e.sort();
    (n, e)
}

/// All graphs whose nodes are a subset of `ids`.
fn universe(ids: &[usize], loops: bool) -> Vec<RG> {
    let mut out = vec![];
    for s in 0..1u32 << ids.len() {
        let nodes: Vec<usize> = ids.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| *x.1).collect();
        let ps = pairs(nodes.len(), loops);
        for mask in 0..1u64 << ps.len() {
            let es: Vec<Edge> = ps.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, &(a, b))| (nodes[a], nodes[b])).collect();
            out.push(RG::from_edges(&nodes, &es));
        }
    }
    out
}

struct Form {
    key: Key,
    g: DefaultGraph,
    text: String,
}

/// Several constructions of the same abstract graph.
fn forms(m: &RG) -> Result<Vec<Form>, String> {
    let mut out = vec![];
    let k = key(m);
    for v in 0..3 {
        let r = reordered(m, v);
        out.push(Form { key: k.clone(), g: by_ops(&r)?, text: rs_ops(&r) });
    }
    let n = m.nodes.len();
    if m.nodes.iter().enumerate().all(|(i, &x)| i == x) && n > 0 {
        for rev in [false, true] {
            let mut adj = m.adj.clone();
            if rev {
                for l in adj.iter_mut() {
                    l.reverse();
                }
            }
            out.push(Form { key: k.clone(), g: by_adjacency(&adj)?, text: rs_adj(&adj) });
        }
    }
    if m.adj.iter().all(|l| !l.is_empty()) {
        out.push(Form { key: k.clone(), g: by_edges(&m.edges)?, text: format!("let g = DefaultGraph::try_from(vec!{:?}).unwrap(); ", m.edges) });
    }
    Ok(out)
}

fn judge_eq(a: &Form, b: &Form, st: &mut Stats) -> Result<(), String> {
    st.transitions += 2;
    st.traces += 1;
    let want = a.key == b.key;
    st.outcome(&want);
    if (a.g == b.g) != want {
        return Err(format!("g1 == g2 is {}, expected {}", a.g == b.g, want));
    }
    if (a.g != b.g) == want {
        return Err(format!("g1 != g2 is {}, expected {}", a.g != b.g, !want));
    }
    Ok(())
}

pub fn c04(t: Tier) -> Check {
    let mut stages = vec![];
    let sets: Vec<(&'static str, Vec<usize>, bool)> = vec![
        ("pairs_3_ids_loops", vec![0, 1, 2], true),
        ("pairs_4_ids", vec![0, 1, 2, 3], false),
        ("pairs_4_sparse_ids", vec![1 << 32, usize::MAX, 0, 1], false),
        ("pairs_4_ids_loops", vec![0, 1, 2, 3], true),
    ];
    for (name, ids, loops) in sets {
        let uni = universe(&ids, loops);
        let n = uni.len() as u64;
        let rg: Vec<RG> = uni;
        let one_form = name == "pairs_4_ids_loops" && !t.thorough();
        let cell: std::sync::OnceLock<Result<(), String>> = std::sync::OnceLock::new();
        let _ = cell;
        stages.push(stage(
            name,
            format!("all ordered pairs of the {} graphs on subsets of {:?}{}{}", n, ids, if loops { ", loops included" } else { "" }, if one_form { " (left graph in one construction)" } else { ", in every construction" }),
            n,
            move |i, cx| {
                // graphs are built once per index, compared with all others
                let left = match guarded(|| forms(&rg[i as usize])) {
                    Ok(Ok(f)) => f,
                    Ok(Err(e)) => return cx.case(|| rg[i as usize].describe(), |_| Err(e)),
                    Err(e) => return cx.case(|| rg[i as usize].describe(), |_| Err(format!("panicked: {}", e))),
                };
                cx.st.states += left.len() as u64;
                for m in &rg {
                    let right = match guarded(|| forms(m)) {
                        Ok(Ok(f)) => f,
                        Ok(Err(e)) => return cx.case(|| m.describe(), |_| Err(e)),
                        Err(e) => return cx.case(|| m.describe(), |_| Err(format!("panicked: {}", e))),
                    };
                    for a in left.iter().take(if one_form { 1 } else { 9 }) {
                        for b in &right {
                            cx.case(
                                || format!("g1: {}  g2: {}  g1 == g2", a.text, b.text),
                                |st| judge_eq(a, b, st),
                            )?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    stages.push(stage(
        "factor_ids",
        format!("all ordered pairs of the 64 simple graphs on 4 nodes x 9 windows of ids {{0, 1, 2, f + 2, f + 1, 3, 2f + 2, f, f - 1}} for {} factors f", FACTORS.len()),
        FACTORS.len() as u64 * 9,
        |i, cx| {
            let ids = factor_ids(FACTORS[i as usize / 9]);
            let w = i as usize % 9;
            let mut fs = vec![];
            for k in 0..64 {
                let m = reordered(&labeled(4, false, k).relabel(&|x| ids[(x + w) % 9]), k as usize % 3);
                match guarded(|| by_ops(&m)) {
                    Ok(Ok(g)) => fs.push(Form { key: key(&m), g, text: rs_ops(&m) }),
                    Ok(Err(e)) | Err(e) => return cx.case(|| rs_ops(&m), |_| Err(e)),
                }
            }
            cx.st.states += fs.len() as u64;
            for a in &fs {
                for b in &fs {
                    cx.case(|| format!("g1: {}  g2: {}  g1 == g2", a.text, b.text), |st| judge_eq(a, b, st))?;
                }
            }
            Ok(())
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        stages.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {}, against the same in other orders, with one id replaced, and with two ids exchanged", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    let mut others: Vec<RG> = (0..4).map(|v| reordered(&m, v)).collect();
                    for &x in &m.nodes {
                        for y in (0..8).filter(|&y| !m.has(y)) {
                            let o = m.relabel(&|z| if z == x { y } else { z });
                            others.push(reordered(&o, (x + y) % 4));
                        }
                        // exchange two ids
                        let y = m.nodes[0];
                        others.push(m.relabel(&|z| if z == x { y } else if z == y { x } else { z }));
                    }
                    let mk = |r: &RG| -> Result<Form, String> { Ok(Form { key: key(r), g: by_ops(r)?, text: rs_ops(r) }) };
                    for o in &others {
                        cx.case(|| format!("g1: {} g2: {} g1 == g2 and g2 == g1", rs_ops(&m), rs_ops(o)), |st| {
                            let (a, b) = (mk(&m)?, mk(o)?);
                            st.states += 1;
                            judge_eq(&a, &b, st)?;
                            judge_eq(&b, &a, st)
                        })?;
                    }
                }
                Ok(())
            },
        ));
    }
    let sizes: Vec<usize> = t.pick((2..=12).chain([16, 17, 21, 32, 33, 40, 64, 65, 66]).collect(), (2..=24).chain([33, 40, 65, 70, 130]).collect());
    let nf = FAMILIES.len();
    stages.push(stage(
        "families_one_difference",
        format!("all {} families x sizes {:?}: the graph against its reorderings and against every graph that moves, flips, drops one edge, renames one node or exchanges the ends of two edges; alone and with one of 3 kinds of additions; as they are, and with one of 3 other sets of ids and the second in one of 4 insertion orders", nf, sizes),
        (sizes.len() * nf * 2) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k) = (FAMILIES[i % nf], sizes[i / nf / 2]);
            let m = dressed(&family(f, k), if i / nf % 2 == 0 { 0 } else { 1 + (k + i % nf) % 3 });
            let mk = |r: &RG| -> Result<Form, String> { Ok(Form { key: key(r), g: by_ops(r)?, text: rs_ops(r) }) };
            let mut others: Vec<RG> = (0..4).map(|v| reordered(&m, v)).collect();
            let n = m.nodes.len();
            let step = (m.edges.len() / 40).max(1);
            for e in (0..m.edges.len()).step_by(step) {
                // drop one
                let mut es = m.edges.clone();
                es.remove(e);
                others.push(RG::from_edges(&m.nodes, &es));
                // move one: to the first few absent pairs
                let (a, _) = m.edges[e];
                for b in [(a + 1) % n, (a + 2) % n, (a + n / 2) % n, n - 1] {
                    if !m.linked(a, b) {
                        let mut es = m.edges.clone();
                        es[e] = (b, a);
                        others.push(RG::from_edges(&m.nodes, &es));
                    }
                }
            }
            // exchange the ends of two edges: all degrees stay
            let step = (m.edges.len() / 12).max(1);
            for e in (0..m.edges.len()).step_by(step) {
                for f in (e + 1..m.edges.len()).step_by(step) {
                    let ((a, b), (c, d)) = (m.edges[e], m.edges[f]);
                    if a == b || c == d || a == c || a == d || b == c || b == d {
                        continue;
                    }
                    for (x, y) in [((a, c), (b, d)), ((a, d), (b, c))] {
                        if !m.linked(x.0, x.1) && !m.linked(y.0, y.1) {
                            let mut es = m.edges.clone();
                            es[e] = x;
                            es[f] = y;
                            others.push(RG::from_edges(&m.nodes, &es));
                        }
                    }
                }
            }
            for v in (0..n).step_by((n / 20).max(1)) {
                others.push(m.relabel(&|x| if x == v { 1_000_000 } else { x }));
            }
            for (x, o) in others.iter().enumerate() {
                for (m, o) in [(m.clone(), o.clone()), (mapped(&m, 1 + x % 3), reordered(&mapped(o, 1 + x % 3), x % 4))] {
                    cx.case(
                        || format!("g1: {} g2: {} g1 == g2 and g2 == g1", rs_ops(&m), rs_ops(&o)),
                        |st| {
                            let (a, b) = (mk(&m)?, mk(&o)?);
                            st.states += 1;
                            judge_eq(&a, &b, st)?;
                            judge_eq(&b, &a, st)
                        },
                    )?;
                }
            }
            Ok(())
        },
    ));
    // graphs that differ only after further mutation
    stages.push(stage(
        "after_mutation",
        "all pairs (graph on 3 nodes, same graph plus one call of add_node/add_edge over 4 ids), then the same call on the other",
        graph_count(3, true),
        |i, cx| {
            let m = labeled(3, true, i);
            for op in ops_over(&[0, 1, 2, 3]) {
                cx.case(
                    || format!("{} compared before and after {:?}", rs_ops(&m), op),
                    |st| {
                        let a = by_ops(&m)?;
                        let mut b = by_ops(&reordered(&m, 1))?;
                        let mut mb = reordered(&m, 1);
                        if a != b {
                            return Err("reordered construction differs".into());
                        }
                        apply(&mut b, &mut mb, op)?;
                        st.states += 1;
                        st.transitions += 4;
                        st.traces += 1;
                        let want = key(&m) == key(&mb);
                        if (a == b) != want || (b == a) != want {
                            return Err(format!("equality after the call: {} and {}, expected {}", a == b, b == a, want));
                        }
                        let mut a = a;
                        let mut ma = m.clone();
                        apply(&mut a, &mut ma, op)?;
                        if a != b {
                            return Err("unequal after the same call on both".into());
                        }
                        Ok(())
                    },
                )?;
            }
            Ok(())
        },
    ));
    // graphs on 5 ids with the same number of edges
    let classes: Vec<u64> = (0..graph_count(5, false)).collect();
    stages.push(stage(
        "pairs_5_ids",
        "all ordered pairs of simple graphs on 5 nodes with equally many edges, and each against its reorderings",
        graph_count(5, false),
        move |i, cx| {
            let m = labeled(5, false, i);
            let mk = |m: &RG| by_ops(m);
            let a = match guarded(|| mk(&m)) {
                Ok(Ok(a)) => a,
                r => return cx.case(|| rs_ops(&m), |_| Err(format!("does not build: {:?}", r.map(|x| x.map(|_| ()))))),
            };
            for v in 1..3 {
                let r = reordered(&m, v);
                cx.case(|| format!("g1: {} g2: {} g1 == g2", rs_ops(&m), rs_ops(&r)), |st| {
                    let b = mk(&r)?;
                    st.transitions += 2;
                    if a != b || b != a {
                        return Err(String::from("the same nodes and edges in another order are unequal"));
                    }
                    Ok(())
                })?;
            }
            for &j in &classes {
                if i == j || i.count_ones() != j.count_ones() {
                    continue;
                }
                let r = labeled(5, false, j);
                cx.case(|| format!("g1: {} g2: {} g1 == g2", rs_ops(&m), rs_ops(&r)), |st| {
                    let b = mk(&r)?;
                    st.states += 1;
                    st.transitions += 1;
                    st.traces += 1;
                    if a == b {
                        return Err(String::from("equal although their edges differ"));
                    }
                    Ok(())
                })?;
            }
            Ok(())
        },
    ));
    stages.push(huge_stage("add_node/add_edge", |m| Ok((by_ops(m)?, m.clone())), |g, m| {
        let n = m.nodes.len();
        let mut es = m.edges.clone();
        es.reverse();
        let same = RG::from_edges(&m.nodes, &es);
        if *g != by_ops(&same)? {
            return Err(String::from("!= the same graph with its edges added in reverse"));
        }
        es.pop();
        let mut fewer = RG::from_edges(&m.nodes, &es);
        if *g == by_ops(&fewer)? {
            return Err(String::from("== the graph without one of its edges"));
        }
        fewer.add_edge(n - 1, n - 1);
        let other = by_ops(&fewer)?;
        if *g == other || other == *g {
            return Err(String::from("== the graph with one edge replaced by another"));
        }
        Ok(4)
    }));
    Check { id: "C04", stages, assumptions: vec![] }
}

// ------------------------------------------------------------------ C17

/// Everything the library computes from a graph, in observable form.
#[derive(Debug, PartialEq, Clone)]
struct Everything {
    dfs: Vec<Vec<St>>,
    bfs: Vec<Vec<St>>,
    comps: Vec<(Vec<usize>, Vec<Edge>, Vec<Vec<usize>>)>,
    greedy: Vec<Edge>,
    max: usize,
}

fn everything<G: Graph>(g: &G, nodes: &[usize]) -> Result<Everything, String> {
    let mut dv = vec![];
    let mut bv = vec![];
    for &r in nodes {
        dv.push(dfs(g, r)?);
        bv.push(bfs(g, r)?);
    }
    let cs: Vec<DefaultGraph> = components(g).take(nodes.len() + 2).collect();
    let comps = cs
        .iter()
        .map(|c| {
            let n: Vec<usize> = c.nodes().collect();
            let a = n.iter().map(|&x| c.neighbors(x).map(|i| i.collect()).unwrap_or_default()).collect();
            (n, c.edges().collect(), a)
        })
        .collect();
    let mut gr: Vec<Edge> = greedy(g).edges().collect();
    gr.sort();
    let mut p = Pairing::new();
    maximum_matching(g, &mut p);
    let max = p.edges().count();
    Ok(Everything { dfs: dv, bfs: bv, comps, greedy: gr, max })
}

fn diff(a: &Everything, b: &Everything) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let what = if a.dfs != b.dfs {
        format!("depth-first traversals differ: {:?} vs {:?}", a.dfs, b.dfs)
    } else if a.bfs != b.bfs {
        format!("breadth-first traversals differ: {:?} vs {:?}", a.bfs, b.bfs)
    } else if a.comps != b.comps {
        format!("components differ: {:?} vs {:?}", a.comps, b.comps)
    } else if a.greedy != b.greedy {
        format!("greedy matchings differ: {:?} vs {:?}", a.greedy, b.greedy)
    } else {
        format!("maximum matching sizes differ: {} vs {}", a.max, b.max)
    };
    Err(what)
}

/// The same ordered content reached along every route that can express it.
fn routes(m: &RG) -> Result<Vec<(String, DefaultGraph)>, String> {
    // m must be built by add_edge order
    let mut out = vec![];
    out.push((String::from("add_node/add_edge"), by_ops(m)?));
    let n = m.nodes.len();
    if m.nodes.iter().enumerate().all(|(i, &x)| x == i) {
        out.push((String::from("adjacency list"), by_adjacency(&m.adj)?));
        // a prefix by adjacency list, the remaining edges added
        for cut in [m.edges.len() / 2, m.edges.len().saturating_sub(1)] {
            let pre = RG::from_edges(&m.nodes, &m.edges[..cut]);
            let mut g = by_adjacency(&pre.adj)?;
            for &(a, b) in &m.edges[cut..] {
                g.add_edge(a, b).map_err(|e| format!("add_edge({}, {}) after adjacency list: {:?}", a, b, e))?;
            }
            out.push((format!("adjacency list of the first {} edges, then add_edge", cut), g));
        }
        // fewer nodes by adjacency list, then add_node, then edges
        if n > 1 {
            let mut g = by_adjacency(&vec![vec![]; n - 1])?;
            g.add_node(n - 1).map_err(|e| format!("{:?}", e))?;
            for &(a, b) in &m.edges {
                g.add_edge(a, b).map_err(|e| format!("{:?}", e))?;
            }
            out.push((String::from("edgeless adjacency list, add_node, add_edge"), g));
        }
    }
    // edges as early as possible, nodes added just in time, with failing calls mixed in
    {
        let mut g = DefaultGraph::new();
        let mut done = vec![false; m.edges.len()];
        for &x in &m.nodes {
            let _ = g.add_edge(x, x);
            g.add_node(x).map_err(|e| format!("{:?}", e))?;
            let _ = g.add_node(x);
            // keep the global edge order: only add the next edges that are possible
            for (k, &(a, b)) in m.edges.iter().enumerate() {
                if done[k] {
                    continue;
                }
                if g.has_node(a) && g.has_node(b) {
                    g.add_edge(a, b).map_err(|e| format!("{:?}", e))?;
                    let _ = g.add_edge(b, a);
                    done[k] = true;
                } else {
                    let _ = g.add_edge(a, b);
                    break;
                }
            }
        }
        out.push((String::from("nodes just in time, failing calls interleaved"), g));
    }
    // via the edge list, when it introduces the nodes in this order
    let em = edge_list_model(&m.edges);
    if em == *m {
        out.push((String::from("edge list"), by_edges(&m.edges)?));
    }
    Ok(out)
}

fn judge_routes(m: &RG, st: &mut Stats) -> Result<(), String> {
    let nodes = m.nodes.clone();
    let base = everything(m, &nodes).map_err(|e| format!("reference implementation of Graph: {}", e))?;
    let plain = by_ops(m)?;
    let small = m.nodes.len() <= 8;
    st.states += 1;
    for (name, g) in routes(m)? {
        st.transitions += 5 * nodes.len() as u64;
        st.traces += 1;
        view_set(&g, m).map_err(|e| format!("route {}: {}", name, e))?;
        // with its own edge order known, every read is determined
        let mine = RG { nodes: m.nodes.clone(), adj: m.adj.clone(), edges: g.edges().collect() };
        st.transitions += view(&g, &mine, &[usize::MAX, 1 << 40]).map_err(|e| format!("route {}: {}", name, e))?;
        if g != plain || plain != g {
            return Err(format!("route {}: unequal to the graph built by add_node/add_edge", name));
        }
        let e = everything(&g, &nodes).map_err(|e| format!("route {}: {}", name, e))?;
        diff(&base, &e).map_err(|x| format!("route {} vs a plain Graph implementation with the same content: {}", name, x))?;
        // outputs are full citizens: components behave like directly built graphs
        for c in components(&g) {
            let cn: Vec<usize> = c.nodes().collect();
            let direct = read_back(&c)?;
            let d = everything(&direct, &cn)?;
            let got = everything(&c, &cn).map_err(|e| format!("route {}, component {:?}: {}", name, cn, e))?;
            diff(&d, &got).map_err(|x| format!("route {}, component {:?} vs a plain Graph implementation with the same content: {}", name, cn, x))?;
            if small {
                st.transitions += extend(c, direct).map_err(|x| format!("route {}, component {:?}: {}", name, cn, x))?;
            }
        }
        // conversions of a traversal from every root as well
        for &r in nodes.iter().filter(|&&r| small && !m.nb(r).is_empty()) {
            let c = DefaultGraph::try_from(DepthFirst::new(&g, r).map_err(|e| format!("{:?}", e))?)
                .map_err(|e| format!("route {}, conversion from root {}: {:?}", name, r, e))?;
            let direct = read_back(&c)?;
            st.transitions += extend(c, direct).map_err(|x| format!("route {}, conversion from root {}: {}", name, r, x))?;
        }
        if small {
            st.transitions += extend(g, mine).map_err(|x| format!("route {}: {}", name, x))?;
        }
    }
    st.outcome(&base.max);
    Ok(())
}

/// Further calls on a graph, all outcomes and reads compared with the model:
/// every edge again, an absent end, every node again, a new node joined to all
/// others, then all missing edges.
fn extend(mut g: DefaultGraph, mut m: RG) -> Result<u64, String> {
    let mut k = 0;
    let old = m.nodes.clone();
    let new = (0..).map(|i| 1000 + i).find(|&x| !m.has(x)).unwrap_or(0);
    let mut ops = vec![];
    for &(a, b) in &m.edges {
        ops.extend([Op::E(a, b), Op::E(b, a), Op::E(a, new)]);
    }
    ops.extend(old.iter().map(|&x| Op::N(x)));
    ops.push(Op::N(new));
    ops.extend(old.iter().rev().map(|&x| Op::E(new, x)));
    ops.extend(old.iter().map(|&x| Op::E(x, new)));
    let late = ops.len();
    for &a in &old {
        for &b in old.iter().rev() {
            ops.push(Op::E(a, b));
        }
    }
    for (i, &o) in ops.iter().enumerate() {
        apply(&mut g, &mut m, o).map_err(|e| format!("further call {:?}: {}", o, e))?;
        k += 1;
        if i + 1 == late || i + 1 == ops.len() {
            k += view(&g, &m, &[new + 1]).map_err(|e| format!("after further calls up to {:?}: {}", o, e))?;
            let root = m.nodes[0];
            if dfs(&g, root)? != ref_dfs(&m, root) || bfs(&g, root)? != ref_bfs(&m, root) {
                return Err(format!("after further calls up to {:?}: traversals from {} differ from those of the same graph built directly", o, root));
            }
        }
    }
    Ok(k)
}

/// Node and neighbour orders must agree exactly; edges as a set (an adjacency
/// list determines its own edge order).
fn view_set(g: &DefaultGraph, m: &RG) -> Result<(), String> {
    if !g.nodes().eq(m.nodes.iter().cloned()) {
        return Err(format!("nodes() = {:?}, expected {:?}", g.nodes().collect::<Vec<_>>(), m.nodes));
    }
    for (i, &n) in m.nodes.iter().enumerate() {
        let v: Vec<usize> = g.neighbors(n).map_err(|e| format!("{:?}", e))?.collect();
        if v != m.adj[i] {
            return Err(format!("neighbors({}) = {:?}, expected {:?}", n, v, m.adj[i]));
        }
    }
    let a: HashSet<Edge> = g.edges().map(|(a, b)| und(a, b)).collect();
    let b: HashSet<Edge> = m.edges.iter().map(|&(a, b)| und(a, b)).collect();
    if a != b || g.size() != b.len() {
        return Err(format!("edges differ: {:?} vs {:?}, size {}", a, b, g.size()));
    }
    Ok(())
}

pub fn c17(t: Tier) -> Check {
    let mut stages = vec![];
    stages.push(stage(
        "loops_4",
        "all graphs with loops on 4 nodes x 3 insertion orders x all routes",
        graph_count(4, true) * 3,
        |i, cx| {
            let m = reordered(&labeled(4, true, i / 3), (i % 3) as usize);
            cx.case(|| rs_ops(&m), |st| judge_routes(&m, st))
        },
    ));
    stages.push(stage(
        "edge_orders_4",
        "all simple graphs on 4 nodes x all edge orders x all routes",
        graph_count(4, false),
        |i, cx| {
            let m = labeled(4, false, i);
            let idx: Vec<usize> = (0..m.edges.len()).collect();
            for p in perms(&idx) {
                let es: Vec<Edge> = p.iter().map(|&k| m.edges[k]).collect();
                let r = RG::from_edges(&m.nodes, &es);
                cx.case(|| rs_ops(&r), |st| judge_routes(&r, st))?;
            }
            Ok(())
        },
    ));
    let n5 = t.pick(5, 6);
    stages.push(stage(
        "simple_n",
        format!("all simple graphs on {} nodes x 3 insertion orders x all routes", n5),
        graph_count(n5, false) * 3,
        move |i, cx| {
            let m = reordered(&labeled(n5, false, i / 3), (i % 3) as usize);
            cx.case(|| rs_ops(&m), |st| judge_routes(&m, st))
        },
    ));
    stages.push(stage(
        "sparse_ids_4",
        "all graphs with loops on 4 nodes under 9 awkward id alphabets x all routes that can express them",
        graph_count(4, true) * NS,
        |i, cx| {
            let ids = SPARSE[(i % NS) as usize];
            let m = labeled(4, true, i / NS).relabel(&|x| ids[x]);
            cx.case(|| rs_ops(&m), |st| judge_routes(&m, st))
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        stages.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {} x all routes that can express them", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    cx.case(|| rs_ops(&m), |st| judge_routes(&m, st))?;
                }
                Ok(())
            },
        ));
    }
    let sizes: Vec<usize> = t.pick((1..=18).chain([20, 26, 31, 32, 33, 63, 64, 65, 66, 101, 128, 129, 130]).collect(), (1..=40).chain([65, 66, 101, 130, 258]).collect());
    let nf = FAMILIES.len();
    stages.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added x all routes (above size 30 only those with at most 300 edges)", nf, sizes),
        (sizes.len() * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
            let m = cast(f, k, v);
            if k > 30 && m.edges.len() > 300 {
                return Ok(());
            }
            cx.case(|| format!("family {} size {} order {}: {}", f, k, v, rs_ops(&m)), |st| judge_routes(&m, st))
        },
    ));
    Check {
        id: "C17",
        stages,
        assumptions: vec!["maximum matchings are compared by size: which of several maximum matchings is found is not specified".into()],
    }
}

// ------------------------------------------------------------------ C18

fn judge_absent<G: Graph>(g: &G, m: &RG, absent: usize, st: &mut Stats) -> Result<(), String> {
    let want = Err(Error::MissingNode(absent));
    st.states += 1;
    if g.has_node(absent) {
        return Err(format!("has_node({}) = true", absent));
    }
    if g.neighbors(absent).map(|_| ()) != want {
        return Err(format!("neighbors({}) = {:?}", absent, g.neighbors(absent).map(|i| i.collect::<Vec<_>>())));
    }
    if g.degree(absent).map(|_| ()) != want {
        return Err(format!("degree({}) = {:?}", absent, g.degree(absent)));
    }
    let e = |r: Result<(), Error>, what: &str| -> Result<(), String> {
        if r != Err(Error::MissingNode(absent)) {
            Err(format!("{} with absent root {} gave {:?}", what, absent, r))
        } else {
            Ok(())
        }
    };
    e(DepthFirst::new(g, absent).map(|_| ()), "DepthFirst::new")?;
    e(BreadthFirst::new(g, absent).map(|_| ()), "BreadthFirst::new")?;
    for &x in m.nodes.iter().take(40) {
        for (a, b) in [(x, absent), (absent, x)] {
            let r = g.has_edge(a, b);
            if r != Err(Error::MissingNode(absent)) {
                return Err(format!("has_edge({}, {}) = {:?}", a, b, r));
            }
            st.transitions += 1;
        }
    }
    let r = g.has_edge(absent, absent);
    if r != Err(Error::MissingNode(absent)) {
        return Err(format!("has_edge({}, {}) = {:?}", absent, absent, r));
    }
    st.transitions += 6;
    st.traces += 1;
    Ok(())
}

fn judge_absent_mut(mut g: DefaultGraph, m: &RG, absent: &[usize], st: &mut Stats) -> Result<(), String> {
    for &x in absent {
        judge_absent(&g, m, x, st)?;
        for &y in m.nodes.iter().take(40) {
            for (a, b) in [(x, y), (y, x)] {
                let r = g.add_edge(a, b);
                if r != Err(Error::MissingNode(x)) {
                    return Err(format!("add_edge({}, {}) = {:?} with {} absent", a, b, r, x));
                }
                st.transitions += 1;
            }
        }
        if g.add_edge(x, x) != Err(Error::MissingNode(x)) {
            return Err(format!("add_edge({}, {}) did not report the absent node", x, x));
        }
        for &y in absent {
            if y != x {
                match g.has_edge(x, y) {
                    Err(Error::MissingNode(z)) if z == x || z == y => {}
                    r => return Err(format!("has_edge({}, {}) of two absent nodes = {:?}", x, y, r)),
                }
                match g.add_edge(x, y) {
                    Err(Error::MissingNode(z)) if z == x || z == y => {}
                    r => return Err(format!("add_edge({}, {}) of two absent nodes = {:?}", x, y, r)),
                }
            }
        }
    }
    // rejected queries and calls leave no trace
    let probes: Vec<usize> = absent.to_vec();
    st.transitions += view(&g, m, &probes).map_err(|e| format!("after rejected calls: {}", e))?;
    for &x in absent {
        judge_absent(&g, m, x, st).map_err(|e| format!("second time: {}", e))?;
    }
    Ok(())
}

pub fn c18(t: Tier) -> Check {
    let mut stages = vec![];
    let absent: [usize; 6] = [4, 5, 255, 1 << 32, usize::MAX, usize::MAX - 1];
    stages.push(stage(
        "loops_le4",
        format!("all graphs with loops on 0..=4 nodes x absent ids {:?} x every query and mutation that mentions them", absent),
        (0..=4).map(|n| graph_count(n, true)).sum(),
        move |i, cx| {
            let mut i = i;
            let mut n = 0;
            while i >= graph_count(n, true) {
                i -= graph_count(n, true);
                n += 1;
            }
            let m = labeled(n, true, i);
            let mut ab = absent.to_vec();
            ab.extend(n..4);
            cx.case(|| format!("{} then queries on {:?}", rs_ops(&m), ab), |st| judge_absent_mut(by_ops(&m)?, &m, &ab, st))?;
            let am = RG::from_adjacency(&m.adj);
            cx.case(|| format!("{} then queries on {:?}", rs_adj(&m.adj), ab), |st| judge_absent_mut(by_adjacency(&m.adj)?, &am, &ab, st))?;
            for c in 0..ref_components(&m).len() {
                let root = *ref_components(&m)[c].iter().next().unwrap();
                let cm = component_model(&m, root);
                let others: Vec<usize> = m.nodes.iter().cloned().filter(|&x| !cm.has(x)).chain([usize::MAX]).collect();
                cx.case(
                    || format!("{} component {} then queries on {:?}", rs_ops(&m), c, others),
                    |st| {
                        let src = by_ops(&m)?;
                        let g = components(&src).nth(c).ok_or("component missing")?;
                        let cm = component_of(&g, &m, root)?;
                        judge_absent_mut(g, &cm, &others, st)
                    },
                )?;
            }
            Ok(())
        },
    ));
    {
        let ls = listings(t.pick(5, 6));
        stages.push(stage(
            "listings",
            format!("all listings of <= {} ids of 0..8 in every order and nearly sorted ones of up to 33 ids x {} x all absent ids below 40 and some about 1000", t.pick(5, 6), PATTERN_TEXT),
            ls.len() as u64,
            move |i, cx| {
                for p in 0..PATTERNS {
                    let m = listed(&ls[i as usize], p);
                    let most = if m.nodes.len() < 6 { 10 } else { 40 };
                    let ab: Vec<usize> = (0..most).chain(998..1003).filter(|&x| !m.has(x)).collect();
                    cx.case(|| format!("{} then queries on {:?}", rs_ops(&m), ab), |st| judge_absent_mut(by_ops(&m)?, &m, &ab, st))?;
                }
                Ok(())
            },
        ));
    }
    stages.push(stage(
        "sparse_ids",
        "all graphs with loops on 3 nodes under 9 awkward id alphabets; absent ids are the rest of the alphabet and neighbours of the ids used (id +- 1, id mod 2^32, bit flips)",
        graph_count(3, true) * NS,
        |i, cx| {
            let ids = SPARSE[(i % NS) as usize];
            let m = labeled(3, true, i / NS).relabel(&|x| ids[x]);
            let mut ab: Vec<usize> = ids[3..].to_vec();
            for &x in &ids[..3] {
                ab.extend([x.wrapping_add(1), x.wrapping_sub(1), x & 0xffff_ffff, x ^ (1 << 63), x ^ (1 << 32), x ^ (1 << 16), x ^ (1 << 8), x & 0xffff, x & 0xff]);
            }
            ab.sort();
            ab.dedup();
            ab.retain(|&x| !m.has(x));
            cx.case(|| format!("{} then queries on {:?}", rs_ops(&m), ab), |st| judge_absent_mut(by_ops(&m)?, &m, &ab, st))
        },
    ));
    let sizes: Vec<usize> = t.pick((1..=20).chain([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 256, 257, 260]).collect(), (1..=40).chain([65, 100, 130, 257, 300, 520, 1030]).collect());
    let nf = FAMILIES.len();
    stages.push(stage(
        "families",
        format!("all {} families x sizes {:?} x 4 insertion orders, 3 with other ids and 3 with loops, isolated nodes, leaves and components added x absent ids among 0, 1, n-1, n, n+1, 2n+3, one above and below the greatest and least id, 2^32, 2^32+1, MAX", nf, sizes),
        (sizes.len() * nf * FVARIANTS) as u64,
        move |i, cx| {
            let i = i as usize;
            let (f, k, v) = (FAMILIES[i % nf], sizes[i / nf / FVARIANTS], i / nf % FVARIANTS);
            let m = cast(f, k, v);
            let n = m.nodes.len();
            let mut ab = vec![0, 1, n - 1, n, n + 1, 2 * n + 3, 1 << 32, (1 << 32) + 1, usize::MAX];
            for x in [m.nodes.iter().min(), m.nodes.iter().max()].into_iter().flatten() {
                ab.extend([x.wrapping_sub(1), x.wrapping_add(1)]);
            }
            ab.sort();
            ab.dedup();
            ab.retain(|&x| !m.has(x));
            cx.case(|| format!("family {} size {} variant {} then queries on {:?}", f, k, v, ab), |st| judge_absent_mut(by_ops(&m)?, &m, &ab, st))
        },
    ));
    stages.push(huge_stage("add_node/add_edge", |m| Ok((by_ops(m)?, m.clone())), |g, m| {
        let n = m.nodes.len();
        for x in [n, n + 1, 1 << 17, (1 << 17) + 3, usize::MAX] {
            for y in [0, 3, n - 1] {
                for (a, b) in [(x, y), (y, x)] {
                    if g.add_edge(a, b) != Err(Error::MissingNode(x)) || g.has_edge(a, b) != Err(Error::MissingNode(x)) {
                        return Err(format!("({}, {}): add_edge or has_edge accept the absent node", a, b));
                    }
                }
            }
            if DepthFirst::new(&*g, x).is_ok() || BreadthFirst::new(&*g, x).is_ok() {
                return Err(format!("traversal from absent {} accepted", x));
            }
        }
        Ok(14 * 5 + view(g, m, &[n, 1 << 17])?)
    }));
    Check { id: "C18", stages, assumptions: vec![] }
}
