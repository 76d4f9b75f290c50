//! Thin adapters over the public API of the code under test: building graphs
//! along every construction route, reading them back, describing cases as
//! Rust source.

use crate::model::*;
use gamma::graph::{DefaultGraph, Error, Graph};
use gamma::matching::Pairing;
use gamma::traversal::{BreadthFirst, DepthFirst, Step};
use std::collections::BTreeSet;
use std::convert::TryFrom;

pub fn st(s: Step) -> St {
    (s.sid, s.tid, s.cut)
}

pub fn by_ops(m: &RG) -> Result<DefaultGraph, String> {
    let mut g = DefaultGraph::new();
    for &n in &m.nodes {
        g.add_node(n).map_err(|e| format!("add_node({}) on a valid build failed: {:?}", n, e))?;
    }
    for &(a, b) in &m.edges {
        g.add_edge(a, b)
            .map_err(|e| format!("add_edge({}, {}) on a valid build failed: {:?}", a, b, e))?;
    }
    Ok(g)
}

pub fn by_adjacency(adj: &[Vec<usize>]) -> Result<DefaultGraph, String> {
    DefaultGraph::try_from(adj.to_vec())
        .map_err(|e| format!("valid adjacency list rejected: {:?}", e))
}

pub fn by_edges(es: &[Edge]) -> Result<DefaultGraph, String> {
    DefaultGraph::try_from(es.to_vec()).map_err(|e| format!("valid edge list rejected: {:?}", e))
}

pub fn rs_ops(m: &RG) -> String {
    if m.nodes.len() > 40 || m.edges.len() > 120 {
        return format!("graph by add_node/add_edge: {}", m.describe());
    }
    let mut s = String::from("let mut g = DefaultGraph::new(); ");
    for n in &m.nodes {
        s += &format!("g.add_node({}).unwrap(); ", n);
    }
    for (a, b) in &m.edges {
        s += &format!("g.add_edge({}, {}).unwrap(); ", a, b);
    }
    s
}

pub fn rs_adj(adj: &[Vec<usize>]) -> String {
    if adj.len() > 60 {
        return format!("graph from adjacency list: {}", RG::from_adjacency(adj).describe());
    }
    let l: Vec<String> = adj.iter().map(|v| format!("vec!{:?}", v)).collect();
    format!("let g = DefaultGraph::try_from(vec![{}]).unwrap(); ", l.join(", "))
}

pub fn rs_custom(m: &RG) -> String {
    format!("user-written Graph g with {}; ", m.describe())
}

fn miss<T: std::fmt::Debug>(what: &str, r: &Result<T, Error>, ok: &[usize]) -> Result<(), String> {
    match r {
        Err(Error::MissingNode(x)) if ok.contains(x) => Ok(()),
        other => Err(format!("{} returned {:?}, expected MissingNode of one of {:?}", what, other, ok)),
    }
}

/// Compares every observer of a graph with the model. `probes` are extra ids,
/// members or not. Returns the number of observations made.
pub fn view<G: Graph>(g: &G, m: &RG, probes: &[usize]) -> Result<u64, String> {
    let mut k = 3;
    if g.is_empty() != m.nodes.is_empty() {
        return Err(format!("is_empty() = {}, model has {} nodes", g.is_empty(), m.nodes.len()));
    }
    if g.order() != m.nodes.len() {
        return Err(format!("order() = {}, expected {}", g.order(), m.nodes.len()));
    }
    if g.size() != m.edges.len() {
        return Err(format!("size() = {}, expected {}", g.size(), m.edges.len()));
    }
    if !g.nodes().eq(m.nodes.iter().cloned()) {
        let v: Vec<_> = g.nodes().take(m.nodes.len() * 2 + 10).collect();
        return Err(format!("nodes() = {}, expected {}", short(&v), short(&m.nodes)));
    }
    if !g.edges().eq(m.edges.iter().cloned()) {
        let v: Vec<_> = g.edges().take(m.edges.len() * 2 + 10).collect();
        return Err(format!("edges() = {}, expected {}", short(&v), short(&m.edges)));
    }
    for (i, &n) in m.nodes.iter().enumerate() {
        k += 3;
        if !g.has_node(n) {
            return Err(format!("has_node({}) = false for a member", n));
        }
        match g.neighbors(n) {
            Ok(it) => {
                if !it.eq(m.adj[i].iter().cloned()) {
                    let v: Vec<_> = g.neighbors(n).map(|i| i.take(1000).collect()).unwrap_or_default();
                    return Err(format!("neighbors({}) = {}, expected {}", n, short(&v), short(&m.adj[i])));
                }
            }
            Err(e) => return Err(format!("neighbors({}) = Err({:?}) for a member", n, e)),
        }
        if g.degree(n) != Ok(m.adj[i].len()) {
            return Err(format!("degree({}) = {:?}, expected {}", n, g.degree(n), m.adj[i].len()));
        }
    }
    for &p in probes {
        if m.has(p) {
            continue;
        }
        k += 3;
        if g.has_node(p) {
            return Err(format!("has_node({}) = true for a non-member", p));
        }
        miss(&format!("neighbors({})", p), &g.neighbors(p).map(|i| i.take(5).collect::<Vec<_>>()), &[p])?;
        miss(&format!("degree({})", p), &g.degree(p), &[p])?;
    }
    if m.nodes.len() <= 24 {
        let all: Vec<usize> =
            m.nodes.iter().cloned().chain(probes.iter().cloned().filter(|&p| !m.has(p))).collect();
        let nn = m.nodes.len();
        for (i, &a) in all.iter().enumerate() {
            for (j, &b) in all.iter().enumerate() {
                k += 1;
                let r = g.has_edge(a, b);
                if i < nn && j < nn {
                    if r != Ok(m.adj[i].contains(&b)) {
                        return Err(format!("has_edge({}, {}) = {:?}, expected {}", a, b, r, m.adj[i].contains(&b)));
                    }
                } else {
                    let mut ok = vec![];
                    if i >= nn {
                        ok.push(a);
                    }
                    if j >= nn {
                        ok.push(b);
                    }
                    miss(&format!("has_edge({}, {})", a, b), &r, &ok)?;
                }
            }
        }
    } else {
        for &(a, b) in &m.edges {
            k += 2;
            if g.has_edge(a, b) != Ok(true) || g.has_edge(b, a) != Ok(true) {
                return Err(format!(
                    "has_edge of an edge ({}, {}): {:?} and reversed {:?}",
                    a, b, g.has_edge(a, b), g.has_edge(b, a)
                ));
            }
        }
        // non-edges: for each node, the first few non-neighbours after it
        for (i, &a) in m.nodes.iter().enumerate() {
            let mut c = 0;
            for d in 1..m.nodes.len() {
                let b = m.nodes[(i + d) % m.nodes.len()];
                if !m.adj[i].contains(&b) {
                    k += 1;
                    if g.has_edge(a, b) != Ok(false) {
                        return Err(format!("has_edge({}, {}) = {:?} for a non-edge", a, b, g.has_edge(a, b)));
                    }
                    c += 1;
                    if c == 4 {
                        break;
                    }
                }
            }
        }
    }
    Ok(k)
}

pub fn dfs<G: Graph>(g: &G, root: usize) -> Result<Vec<St>, String> {
    let cap = 4 * g.size() + 16;
    let it = DepthFirst::new(g, root).map_err(|e| format!("DepthFirst::new(&g, {}) = Err({:?})", root, e))?;
    let v: Vec<St> = it.take(cap).map(st).collect();
    if v.len() == cap {
        return Err(format!("depth-first traversal from {} yields more than {} steps for {} edges: {}..", root, cap - 1, g.size(), short(&v)));
    }
    Ok(v)
}

pub fn bfs<G: Graph>(g: &G, root: usize) -> Result<Vec<St>, String> {
    let cap = 4 * g.size() + 16;
    let it = BreadthFirst::new(g, root).map_err(|e| format!("BreadthFirst::new(&g, {}) = Err({:?})", root, e))?;
    let v: Vec<St> = it.take(cap).map(st).collect();
    if v.len() == cap {
        return Err(format!("breadth-first traversal from {} yields more than {} steps for {} edges: {}..", root, cap - 1, g.size(), short(&v)));
    }
    Ok(v)
}

pub fn pairing_of(m: &[Edge]) -> Pairing {
    let mut p = Pairing::new();
    for &(a, b) in m {
        p.pair(a, b);
    }
    p
}

pub fn pair_set(p: &Pairing) -> BTreeSet<Edge> {
    p.edges().map(|(a, b)| und(a, b)).collect()
}

/// The pairs of a pairing, after checking that all its views agree and that
/// it is a matching of `g`.
pub fn valid_matching(g: &RG, p: &Pairing) -> Result<Vec<Edge>, String> {
    let mut es: Vec<Edge> = p.edges().collect();
    es.sort();
    let mut used: Vec<usize> = vec![];
    for &(a, b) in &es {
        if !g.has(a) || !g.has(b) {
            return Err(format!("pair ({}, {}) names a node that is not in the graph; pairs={}", a, b, short(&es)));
        }
        if a == b || !g.linked(a, b) {
            return Err(format!("pair ({}, {}) is not an edge between two nodes of the graph; pairs={}", a, b, short(&es)));
        }
        used.push(a);
        used.push(b);
    }
    let set: std::collections::HashSet<usize> = used.iter().cloned().collect();
    if set.len() != used.len() {
        return Err(format!("a node occurs in two pairs: {}", short(&es)));
    }
    if p.order() != used.len() {
        return Err(format!("order() = {} but pairs={}", p.order(), short(&es)));
    }
    for &n in &g.nodes {
        if p.has_node(n) != set.contains(&n) {
            return Err(format!("has_node({}) = {} but pairs={}", n, p.has_node(n), short(&es)));
        }
    }
    for &(a, b) in &es {
        if p.mate(a) != b || p.mate(b) != a {
            return Err(format!("mate({})={} mate({})={} but pairs={}", a, p.mate(a), b, p.mate(b), short(&es)));
        }
    }
    Ok(es)
}
