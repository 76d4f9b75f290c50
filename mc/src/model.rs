//! Reference models. Deliberately boring: ordered lists, linear scans and
//! small brute-force searches. Nothing in this file calls the code under test
//! (it only implements its `Graph` trait so that the reference graph can also
//! be handed to the library as a user-written graph type).

use gamma::graph::{Error, Graph};
use std::collections::BTreeSet;

pub type Edge = (usize, usize);

/// Reference graph: nodes, neighbour lists and edges in a definite order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RG {
    pub nodes: Vec<usize>,
    pub adj: Vec<Vec<usize>>,
    pub edges: Vec<Edge>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
    Ok,
    DuplicateNode(usize),
    DuplicateEdge(usize, usize),
    /// any of these ids may be the one named
    MissingNode(Vec<usize>),
}

impl Want {
    pub fn accepts(&self, got: &Result<(), Error>) -> bool {
        match (self, got) {
            (Want::Ok, Ok(())) => true,
            (Want::DuplicateNode(a), Err(Error::DuplicateNode(b))) => a == b,
            (Want::DuplicateEdge(a, b), Err(Error::DuplicateEdge(c, d))) => a == c && b == d,
            (Want::MissingNode(v), Err(Error::MissingNode(x))) => v.contains(x),
            _ => false,
        }
    }
}

impl RG {
    pub fn new() -> Self {
        RG { nodes: vec![], adj: vec![], edges: vec![] }
    }
    pub fn pos(&self, id: usize) -> Option<usize> {
        if self.nodes.get(id) == Some(&id) {
            return Some(id);
        }
        self.nodes.iter().position(|&x| x == id)
    }
    pub fn has(&self, id: usize) -> bool {
        self.pos(id).is_some()
    }
    pub fn nb(&self, id: usize) -> &[usize] {
        &self.adj[self.pos(id).unwrap()]
    }
    pub fn linked(&self, a: usize, b: usize) -> bool {
        match (self.pos(a), self.pos(b)) {
            (Some(p), Some(q)) => {
                if self.adj[p].len() <= self.adj[q].len() {
                    self.adj[p].contains(&b)
                } else {
                    self.adj[q].contains(&a)
                }
            }
            _ => false,
        }
    }
    pub fn add_node(&mut self, id: usize) -> Want {
        if self.has(id) {
            return Want::DuplicateNode(id);
        }
        self.nodes.push(id);
        self.adj.push(vec![]);
        Want::Ok
    }
    /// A self-loop is one edge and makes the node its own neighbour, once.
    pub fn add_edge(&mut self, s: usize, t: usize) -> Want {
        let mut missing = vec![];
        for id in [s, t] {
            if !self.has(id) {
                missing.push(id);
            }
        }
        if !missing.is_empty() {
            return Want::MissingNode(missing);
        }
        if self.linked(s, t) {
            return Want::DuplicateEdge(s, t);
        }
        let (ps, pt) = (self.pos(s).unwrap(), self.pos(t).unwrap());
        self.adj[ps].push(t);
        if s != t {
            self.adj[pt].push(s);
        }
        self.edges.push((s, t));
        Want::Ok
    }
    /// What the adjacency constructor should produce for a well-formed list.
    pub fn from_adjacency(adj: &[Vec<usize>]) -> RG {
        let mut edges = vec![];
        for (s, l) in adj.iter().enumerate() {
            for &t in l {
                if s <= t {
                    edges.push((s, t));
                }
            }
        }
        RG { nodes: (0..adj.len()).collect(), adj: adj.to_vec(), edges }
    }
    pub fn from_edges(nodes: &[usize], edges: &[Edge]) -> RG {
        let mut g = RG::new();
        for &n in nodes {
            g.add_node(n);
        }
        for &(a, b) in edges {
            g.add_edge(a, b);
        }
        g
    }
    pub fn relabel(&self, f: &dyn Fn(usize) -> usize) -> RG {
        RG {
            nodes: self.nodes.iter().map(|&x| f(x)).collect(),
            adj: self.adj.iter().map(|l| l.iter().map(|&x| f(x)).collect()).collect(),
            edges: self.edges.iter().map(|&(a, b)| (f(a), f(b))).collect(),
        }
    }
    pub fn describe(&self) -> String {
        let mut s = String::from("nodes=");
        s += &short(&self.nodes);
        s += " neighbours={";
        let lim = 40;
        for (i, n) in self.nodes.iter().enumerate().take(lim) {
            if i > 0 {
                s += ", ";
            }
            s += &format!("{}:{}", n, short(&self.adj[i]));
        }
        if self.nodes.len() > lim {
            s += ", ...";
        }
        s += "} edges=";
        s += &short(&self.edges);
        s
    }
    pub fn reach(&self, root: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![root];
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(self.nb(x).iter().cloned());
            }
        }
        seen
    }
}

pub fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 80 {
        format!("{:?}", v)
    } else {
        format!("{:?}..({} in all)", &v[..40], v.len())
    }
}

fn missing(id: usize) -> Error {
    Error::MissingNode(id)
}

/// The reference graph as a user-written implementation of the library trait.
/// The same items from an iterator that tells nothing about its length: a
/// user-written Graph need not know more.
fn unsized_iter<'a, T: 'a>(mut it: impl Iterator<Item = T> + 'a) -> Box<dyn Iterator<Item = T> + 'a> {
    Box::new(std::iter::from_fn(move || it.next()))
}

impl Graph for RG {
    fn is_empty(&self) -> bool {
        self.nodes.is_empty()
    }
    fn order(&self) -> usize {
        self.nodes.len()
    }
    fn size(&self) -> usize {
        self.edges.len()
    }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> {
        unsized_iter(self.nodes.iter().cloned())
    }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        let p = self.pos(id).ok_or(missing(id))?;
        Ok(unsized_iter(self.adj[p].iter().cloned()))
    }
    fn has_node(&self, id: usize) -> bool {
        self.has(id)
    }
    fn degree(&self, id: usize) -> Result<usize, Error> {
        let p = self.pos(id).ok_or(missing(id))?;
        Ok(self.adj[p].len())
    }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> {
        unsized_iter(self.edges.iter().cloned())
    }
    fn has_edge(&self, s: usize, t: usize) -> Result<bool, Error> {
        let p = self.pos(s).ok_or(missing(s))?;
        self.pos(t).ok_or(missing(t))?;
        Ok(self.adj[p].contains(&t))
    }
}

pub fn und(a: usize, b: usize) -> Edge {
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

/// One traversal step: source, target, cut flag.
pub type St = (usize, usize, bool);

/// Depth-first reference: recursion with an explicit frame list; each edge is
/// traversed from the side that meets it first.
pub fn ref_dfs(g: &RG, root: usize) -> Vec<St> {
    // work on positions to stay fast on the larger families
    let idx = Index::new(g);
    let n = g.nodes.len();
    let mut seen = vec![false; n];
    let mut done: Vec<Vec<bool>> = g.adj.iter().map(|l| vec![false; l.len()]).collect();
    let mut out = vec![];
    let r = g.pos(root).unwrap();
    seen[r] = true;
    let mut frames = vec![(r, 0usize)];
    while let Some(&(u, i)) = frames.last() {
        if i == idx.adj[u].len() {
            frames.pop();
            continue;
        }
        frames.last_mut().unwrap().1 += 1;
        if done[u][i] {
            continue;
        }
        let v = idx.adj[u][i];
        done[u][i] = true;
        let j = idx.adj[v].iter().position(|&x| x == u).unwrap();
        done[v][j] = true;
        out.push((g.nodes[u], g.nodes[v], seen[v]));
        if !seen[v] {
            seen[v] = true;
            frames.push((v, 0));
        }
    }
    out
}

/// Breadth-first reference: nodes in discovery order, each going over its
/// not-yet-traversed edges in neighbour order.
pub fn ref_bfs(g: &RG, root: usize) -> Vec<St> {
    let idx = Index::new(g);
    let n = g.nodes.len();
    let mut seen = vec![false; n];
    let mut done: Vec<Vec<bool>> = g.adj.iter().map(|l| vec![false; l.len()]).collect();
    let mut out = vec![];
    let r = g.pos(root).unwrap();
    seen[r] = true;
    let mut order = vec![r];
    let mut k = 0;
    while k < order.len() {
        let u = order[k];
        k += 1;
        for i in 0..idx.adj[u].len() {
            if done[u][i] {
                continue;
            }
            let v = idx.adj[u][i];
            done[u][i] = true;
            let j = idx.adj[v].iter().position(|&x| x == u).unwrap();
            done[v][j] = true;
            out.push((g.nodes[u], g.nodes[v], seen[v]));
            if !seen[v] {
                seen[v] = true;
                order.push(v);
            }
        }
    }
    out
}

pub struct Index {
    pub adj: Vec<Vec<usize>>,
}

impl Index {
    pub fn new(g: &RG) -> Index {
        if g.nodes.iter().enumerate().all(|(i, &x)| i == x) {
            return Index { adj: g.adj.clone() };
        }
        if g.nodes.len() <= 12 {
            return Index {
                adj: g.adj.iter().map(|l| l.iter().map(|&x| g.pos(x).unwrap()).collect()).collect(),
            };
        }
        let mut sorted: Vec<(usize, usize)> =
            g.nodes.iter().enumerate().map(|(i, &x)| (x, i)).collect();
        sorted.sort();
        let f = |x: usize| sorted[sorted.binary_search_by(|p| p.0.cmp(&x)).unwrap()].1;
        Index { adj: g.adj.iter().map(|l| l.iter().map(|&x| f(x)).collect()).collect() }
    }
}

/// Connected components: node sets in order of their first node.
pub fn ref_components(g: &RG) -> Vec<BTreeSet<usize>> {
    let idx = Index::new(g);
    let n = g.nodes.len();
    let mut comp = vec![usize::MAX; n];
    let mut out: Vec<BTreeSet<usize>> = vec![];
    for i in 0..n {
        if comp[i] != usize::MAX {
            continue;
        }
        let c = out.len();
        let mut set = BTreeSet::new();
        let mut todo = vec![i];
        comp[i] = c;
        while let Some(x) = todo.pop() {
            set.insert(g.nodes[x]);
            for &y in &idx.adj[x] {
                if comp[y] == usize::MAX {
                    comp[y] = c;
                    todo.push(y);
                }
            }
        }
        out.push(set);
    }
    out
}

/// Size of a maximum matching by exhaustive subset search (n <= 20).
pub fn nu_brute(adj: &[u32]) -> usize {
    fn go(adj: &[u32], left: u32) -> usize {
        // skip nodes with no live neighbour
        let mut left = left;
        loop {
            if left == 0 {
                return 0;
            }
            let v = left.trailing_zeros() as usize;
            let nb = adj[v] & left & !(1 << v);
            if nb == 0 {
                left &= !(1 << v);
                continue;
            }
            let rest = left & !(1 << v);
            let bound = (left.count_ones() / 2) as usize;
            let mut best = 0;
            let mut m = nb;
            while m != 0 {
                let w = m.trailing_zeros();
                m &= m - 1;
                let r = 1 + go(adj, rest & !(1 << w));
                if r > best {
                    best = r;
                    if best == bound {
                        return best;
                    }
                }
            }
            let r = go(adj, rest);
            return best.max(r);
        }
    }
    let n = adj.len();
    let all = if n == 32 { u32::MAX } else { (1u32 << n) - 1 };
    go(adj, all)
}

/// Maximum-matching size by the textbook O(n^3) blossom-base algorithm; an
/// independent implementation that is cross-checked against `nu_brute` by the
/// self-test of the matching checks.
pub fn nu_edmonds(adj: &[Vec<usize>]) -> usize {
    mates_edmonds(adj).iter().filter(|&&m| m != NIL).count() / 2
}

const NIL: usize = usize::MAX;

/// A maximum matching of a reference graph.
pub fn best_matching(g: &RG) -> Vec<Edge> {
    let idx = Index::new(g);
    let mate = mates_edmonds(&idx.adj);
    (0..mate.len()).filter(|&i| mate[i] != NIL && i < mate[i]).map(|i| (g.nodes[i], g.nodes[mate[i]])).collect()
}

fn mates_edmonds(adj: &[Vec<usize>]) -> Vec<usize> {
    let n = adj.len();
    let mut mate = vec![NIL; n];
    for root in 0..n {
        if mate[root] != NIL {
            continue;
        }
        let mut p = vec![NIL; n];
        let mut base: Vec<usize> = (0..n).collect();
        let mut used = vec![false; n];
        used[root] = true;
        let mut q = vec![root];
        let mut qi = 0;
        let mut found = NIL;
        'bfs: while qi < q.len() {
            let v = q[qi];
            qi += 1;
            for &to in &adj[v] {
                if to == v || base[v] == base[to] || mate[v] == to {
                    continue;
                }
                if to == root || (mate[to] != NIL && p[mate[to]] != NIL) {
                    // blossom: lowest common ancestor of v and to
                    let mut mark = vec![false; n];
                    let mut a = v;
                    loop {
                        a = base[a];
                        mark[a] = true;
                        if mate[a] == NIL {
                            break;
                        }
                        a = p[mate[a]];
                    }
                    let mut b = to;
                    let lca = loop {
                        b = base[b];
                        if mark[b] {
                            break b;
                        }
                        b = p[mate[b]];
                    };
                    let mut blossom = vec![false; n];
                    for (mut x, mut child) in [(v, to), (to, v)] {
                        while base[x] != lca {
                            blossom[base[x]] = true;
                            blossom[base[mate[x]]] = true;
                            p[x] = child;
                            child = mate[x];
                            x = p[mate[x]];
                        }
                    }
                    for i in 0..n {
                        if blossom[base[i]] {
                            base[i] = lca;
                            if !used[i] {
                                used[i] = true;
                                q.push(i);
                            }
                        }
                    }
                } else if p[to] == NIL {
                    p[to] = v;
                    if mate[to] == NIL {
                        found = to;
                        break 'bfs;
                    }
                    used[mate[to]] = true;
                    q.push(mate[to]);
                }
            }
        }
        if found != NIL {
            let mut v = found;
            while v != NIL {
                let pv = p[v];
                let ppv = mate[pv];
                mate[v] = pv;
                mate[pv] = v;
                v = ppv;
            }
        }
    }
    mate
}

pub fn masks(g: &RG) -> Vec<u32> {
    let idx = Index::new(g);
    idx.adj.iter().map(|l| l.iter().fold(0u32, |m, &x| m | (1 << x))).collect()
}

/// Size of a maximum matching of a reference graph.
pub fn nu(g: &RG) -> usize {
    if g.nodes.len() <= 9 {
        nu_brute(&masks(g))
    } else {
        nu_edmonds(&Index::new(g).adj)
    }
}
