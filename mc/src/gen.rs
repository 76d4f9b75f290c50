//! Enumerators of the bounded spaces.

use crate::model::*;
use std::collections::HashSet;

/// All node pairs i<j (optionally i<=j) of 0..n in lexicographic order.
pub fn pairs(n: usize, loops: bool) -> Vec<Edge> {
    let mut v = vec![];
    for i in 0..n {
        for j in i..n {
            if i != j || loops {
                v.push((i, j));
            }
        }
    }
    v
}

pub fn graph_count(n: usize, loops: bool) -> u64 {
    1u64 << pairs(n, loops).len()
}

pub fn edges_of(n: usize, loops: bool, mask: u64) -> Vec<Edge> {
    pairs(n, loops)
        .into_iter()
        .enumerate()
        .filter(|(k, _)| mask >> k & 1 == 1)
        .map(|(_, e)| e)
        .collect()
}

/// Labeled graph number `mask` on nodes 0..n with edges in lexicographic order.
pub fn labeled(n: usize, loops: bool, mask: u64) -> RG {
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &edges_of(n, loops, mask))
}

pub fn perms(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

/// Every combination of neighbour orders of the graph (the graph itself is
/// unchanged; `edges` follows the adjacency-list convention).
pub fn each_neighbour_order<E>(g: &RG, f: &mut dyn FnMut(&RG) -> Result<(), E>) -> Result<(), E> {
    let opts: Vec<Vec<Vec<usize>>> = g.adj.iter().map(|l| perms(l)).collect();
    odometer(&opts, f)
}

fn odometer<E>(opts: &[Vec<Vec<usize>>], f: &mut dyn FnMut(&RG) -> Result<(), E>) -> Result<(), E> {
    let mut at = vec![0usize; opts.len()];
    loop {
        let adj: Vec<Vec<usize>> = at.iter().zip(opts).map(|(&i, o)| o[i].clone()).collect();
        f(&RG::from_adjacency(&adj))?;
        let mut k = 0;
        loop {
            if k == at.len() {
                return Ok(());
            }
            at[k] += 1;
            if at[k] < opts[k].len() {
                break;
            }
            at[k] = 0;
            k += 1;
        }
    }
}

/// Like `each_neighbour_order`, with node 0's neighbours left as they are.
pub fn each_neighbour_order_but_first<E>(g: &RG, f: &mut dyn FnMut(&RG) -> Result<(), E>) -> Result<(), E> {
    let first = g.adj[0].clone();
    let mut opts: Vec<Vec<Vec<usize>>> = g.adj.iter().map(|l| perms(l)).collect();
    opts[0] = vec![first];
    odometer(&opts, f)
}

/// Graphs on n nodes in which node 0's neighbours are exactly 1..=d.
pub fn front_count(n: usize) -> u64 {
    n as u64 * graph_count(n - 1, false)
}

pub fn front(n: usize, i: u64) -> RG {
    let per = graph_count(n - 1, false);
    let d = (i / per) as usize;
    let mut es: Vec<Edge> = (1..=d).map(|x| (0, x)).collect();
    es.extend(edges_of(n - 1, false, i % per).into_iter().map(|(a, b)| (a + 1, b + 1)));
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &es)
}

/// Every matching (including the empty one) of the simple edges of `g`.
pub fn each_matching<E>(g: &RG, f: &mut dyn FnMut(&[Edge]) -> Result<(), E>) -> Result<(), E> {
    let es: Vec<Edge> = g.edges.iter().cloned().filter(|e| e.0 != e.1).collect();
    fn go<E>(
        es: &[Edge],
        cur: &mut Vec<Edge>,
        f: &mut dyn FnMut(&[Edge]) -> Result<(), E>,
    ) -> Result<(), E> {
        f(cur)?;
        for (k, &(a, b)) in es.iter().enumerate() {
            if cur.iter().all(|&(c, d)| a != c && a != d && b != c && b != d) {
                cur.push((a, b));
                go(&es[k + 1..], cur, f)?;
                cur.pop();
            }
        }
        Ok(())
    }
    go(&es, &mut vec![], f)
}

// ------------------------------------------------ isomorphism classes

fn refine(adj: &[u32], color: &mut Vec<usize>) {
    let n = adj.len();
    loop {
        let mut sig: Vec<(Vec<usize>, usize)> = (0..n)
            .map(|v| {
                let mut s: Vec<usize> =
                    (0..n).filter(|&w| adj[v] >> w & 1 == 1).map(|w| color[w]).collect();
                s.sort();
                s.insert(0, color[v]);
                (s, v)
            })
            .collect();
        sig.sort();
        let mut new = vec![0; n];
        let mut c = 0;
        for i in 0..n {
            if i > 0 && sig[i].0 != sig[i - 1].0 {
                c = i;
            }
            new[sig[i].1] = c;
        }
        if new == *color {
            return;
        }
        *color = new;
    }
}

fn leaf_key(adj: &[u32], color: &[usize]) -> u128 {
    let n = adj.len();
    let mut at = vec![0; n];
    for v in 0..n {
        at[color[v]] = v;
    }
    let mut k = 0u128;
    for i in 0..n {
        for j in i + 1..n {
            k = k << 1 | (adj[at[i]] >> at[j] & 1) as u128;
        }
    }
    k
}

fn canon_rec(adj: &[u32], color: Vec<usize>, best: &mut Option<u128>) {
    let n = adj.len();
    let mut size = vec![0; n];
    for &c in &color {
        size[c] += 1;
    }
    let cell = (0..n).find(|&c| size[c] > 1);
    match cell {
        None => {
            let k = leaf_key(adj, &color);
            if best.map_or(true, |b| k < b) {
                *best = Some(k);
            }
        }
        Some(c) => {
            let members: Vec<usize> = (0..n).filter(|&v| color[v] == c).collect();
            let twins = members.windows(2).all(|w| {
                let m = !((1u32 << w[0]) | (1u32 << w[1]));
                adj[w[0]] & m == adj[w[1]] & m
            });
            let tries = if twins { &members[..1] } else { &members[..] };
            for &v in tries {
                let mut col = color.clone();
                for &w in &members {
                    if w != v {
                        col[w] = c + 1;
                    }
                }
                refine(adj, &mut col);
                canon_rec(adj, col, best);
            }
        }
    }
}

pub fn canon(adj: &[u32]) -> u128 {
    let mut color = vec![0; adj.len()];
    refine(adj, &mut color);
    let mut best = None;
    canon_rec(adj, color, &mut best);
    best.unwrap_or(0)
}

/// Representatives of the isomorphism classes of connected graphs with exactly
/// `n` nodes and maximum degree `maxdeg`, built by adding a non-cut vertex.
pub fn connected_classes(n: usize, maxdeg: usize) -> Vec<Vec<u32>> {
    let mut level: Vec<Vec<u32>> = vec![vec![0]];
    for k in 1..n {
        let mut seen: HashSet<u128> = HashSet::new();
        let mut next = vec![];
        for g in &level {
            let free: Vec<usize> =
                (0..k).filter(|&v| (g[v].count_ones() as usize) < maxdeg).collect();
            for s in 1u32..1 << free.len() {
                if s.count_ones() as usize > maxdeg {
                    continue;
                }
                let mut h = g.clone();
                h.push(0);
                for (i, &v) in free.iter().enumerate() {
                    if s >> i & 1 == 1 {
                        h[v] |= 1 << k;
                        h[k] |= 1 << v;
                    }
                }
                if seen.insert(canon(&h)) {
                    next.push(h);
                }
            }
        }
        level = next;
    }
    level
}

pub fn from_masks(adj: &[u32]) -> RG {
    let n = adj.len();
    let es: Vec<Edge> =
        pairs(n, false).into_iter().filter(|&(i, j)| adj[i] >> j & 1 == 1).collect();
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &es)
}

/// The same abstract graph under a relabeling, edges re-sorted.
pub fn permuted(adj: &[u32], p: &[usize]) -> RG {
    let n = adj.len();
    let mut es: Vec<Edge> = pairs(n, false)
        .into_iter()
        .filter(|&(i, j)| adj[i] >> j & 1 == 1)
        .map(|(i, j)| und(p[i], p[j]))
        .collect();
    es.sort();
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &es)
}

/// A fixed, enumerated set of relabelings: all rotations, and all rotations of
/// the reversal.
pub fn rotations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for r in 0..n {
        out.push((0..n).map(|i| (i + r) % n).collect());
    }
    for r in 0..n {
        out.push((0..n).map(|i| (n - 1 - i + r) % n).collect());
    }
    out
}

// ------------------------------------------------ families

fn mk(n: usize, es: Vec<Edge>) -> RG {
    RG::from_edges(&(0..n).collect::<Vec<_>>(), &es)
}

pub const FAMILIES: &[&str] = &[
    "path", "cycle", "star", "complete", "bipartite", "wheel", "ladder", "grid", "tree",
    "caterpillar", "triangle_chain", "windmill", "pentagon_chain", "lollipop", "barbell",
    "prism", "petersen", "stemmed_odd_cycle", "nested_flower", "copies_c3", "copies_p2",
    "isolated", "mixed_parts", "spider", "triangle_tree", "chorded_path", "looped_cycle",
    "affine", "affine_dense", "divisors", "theta", "broken_path", "two_hubs", "many_hubs",
    "petals", "odd_tower", "clique_chain", "cocktail", "looped_path",
    "legs", "leg_pair", "mid_cycle", "mid_cycles", "off_cycle", "mid_chords",
];

/// Member `k` of a family: roughly k nodes (k >= 1).
pub fn family(name: &str, k: usize) -> RG {
    let mut e: Vec<Edge> = vec![];
    match name {
        "path" => {
            for i in 1..k {
                e.push((i - 1, i));
            }
            mk(k, e)
        }
        "cycle" => {
            for i in 1..k {
                e.push((i - 1, i));
            }
            if k > 2 {
                e.push((k - 1, 0));
            }
            mk(k, e)
        }
        "looped_cycle" => {
            for i in 0..k {
                if i > 0 {
                    e.push((i - 1, i));
                }
                if i % 2 == 0 {
                    e.push((i, i));
                }
            }
            if k > 2 {
                e.push((k - 1, 0));
            }
            mk(k, e)
        }
        "star" => {
            for i in 1..k {
                e.push((0, i));
            }
            mk(k, e)
        }
        "complete" => {
            for i in 0..k {
                for j in i + 1..k {
                    e.push((i, j));
                }
            }
            mk(k, e)
        }
        "bipartite" => {
            let a = k / 2;
            for i in 0..a {
                for j in a..k {
                    e.push((i, j));
                }
            }
            mk(k, e)
        }
        "wheel" => {
            for i in 1..k {
                e.push((0, i));
                if i > 1 {
                    e.push((i - 1, i));
                }
            }
            if k > 3 {
                e.push((k - 1, 1));
            }
            mk(k, e)
        }
        "ladder" => {
            let h = (k / 2).max(1);
            for i in 0..h {
                e.push((2 * i, 2 * i + 1));
                if i + 1 < h {
                    e.push((2 * i, 2 * i + 2));
                    e.push((2 * i + 1, 2 * i + 3));
                }
            }
            mk(2 * h, e)
        }
        "prism" => {
            let h = (k / 2).max(3);
            for i in 0..h {
                e.push((i, (i + 1) % h));
                e.push((h + i, h + (i + 1) % h));
                e.push((i, h + i));
            }
            mk(2 * h, e)
        }
        "petersen" => {
            let h = (k / 2).max(5);
            for i in 0..h {
                e.push((i, (i + 1) % h));
                e.push((i, h + i));
                if !e.contains(&(h + (i + 2) % h, h + i)) {
                    e.push((h + i, h + (i + 2) % h));
                }
            }
            mk(2 * h, e)
        }
        "grid" => {
            let mut w = 1;
            while (w + 1) * (w + 1) <= k {
                w += 1;
            }
            let h = k / w;
            for y in 0..h {
                for x in 0..w {
                    if x + 1 < w {
                        e.push((y * w + x, y * w + x + 1));
                    }
                    if y + 1 < h {
                        e.push((y * w + x, y * w + x + w));
                    }
                }
            }
            mk(w * h, e)
        }
        "tree" => {
            for i in 1..k {
                e.push(((i - 1) / 2, i));
            }
            mk(k, e)
        }
        "caterpillar" => {
            let h = (k / 2).max(1);
            for i in 0..h {
                if i > 0 {
                    e.push((i - 1, i));
                }
                e.push((i, h + i));
            }
            mk(2 * h, e)
        }
        "spider" => {
            // three long legs and a triangle at the far end of one
            let l = (k / 3).max(1);
            for leg in 0..3 {
                for i in 0..l {
                    let a = if i == 0 { 0 } else { leg * l + i };
                    e.push((a, leg * l + i + 1));
                }
            }
            if l >= 2 {
                e.push((l - 1, l * 2));
            }
            mk(3 * l + 1, e)
        }
        "triangle_chain" => {
            let t = (k / 2).max(1);
            for i in 0..t {
                e.push((2 * i, 2 * i + 1));
                e.push((2 * i + 1, 2 * i + 2));
                e.push((2 * i, 2 * i + 2));
            }
            mk(2 * t + 1, e)
        }
        "windmill" => {
            let t = (k / 2).max(1);
            for i in 0..t {
                e.push((0, 2 * i + 1));
                e.push((2 * i + 1, 2 * i + 2));
                e.push((2 * i + 2, 0));
            }
            mk(2 * t + 1, e)
        }
        "triangle_tree" => {
            // every node of a binary tree replaced by a triangle
            let t = (k / 3).max(1);
            for i in 0..t {
                e.push((3 * i, 3 * i + 1));
                e.push((3 * i + 1, 3 * i + 2));
                e.push((3 * i, 3 * i + 2));
                if i > 0 {
                    let p = (i - 1) / 2;
                    e.push((3 * p + 1 + (i - 1) % 2, 3 * i));
                }
            }
            mk(3 * t, e)
        }
        "pentagon_chain" => {
            let t = (k / 5).max(1);
            for i in 0..t {
                let b = 5 * i;
                for j in 0..5 {
                    e.push((b + j, b + (j + 1) % 5));
                }
                if i > 0 {
                    e.push((b - 3, b));
                }
            }
            mk(5 * t, e)
        }
        "lollipop" => {
            let c = (k / 2).max(1);
            for i in 0..c {
                for j in i + 1..c {
                    e.push((i, j));
                }
            }
            for i in c..k {
                e.push((i - 1, i));
            }
            mk(k.max(c), e)
        }
        "barbell" => {
            let c = (k / 3).max(1);
            for i in 0..c {
                for j in i + 1..c {
                    e.push((i, j));
                }
            }
            for i in c..2 * c {
                e.push((i - 1, i));
            }
            for i in 2 * c - 1..3 * c - 1 {
                for j in i + 1..3 * c - 1 {
                    if i != j {
                        e.push((i, j));
                    }
                }
            }
            mk((3 * c - 1).max(1), e)
        }
        "stemmed_odd_cycle" => {
            let c = (k / 2) | 1;
            let c = c.max(3);
            for i in 0..c {
                e.push((i, (i + 1) % c));
            }
            let mut last = 0;
            let mut n = c;
            while n < k.max(c + 1) {
                e.push((last, n));
                last = n;
                n += 1;
            }
            mk(n, e)
        }
        "nested_flower" => {
            // a triangle, each further pair of nodes closing a larger odd cycle
            e.extend([(0, 1), (1, 2), (2, 0)]);
            let mut n = 3;
            while n + 1 < k {
                e.push((n - 2, n));
                e.push((n, n + 1));
                e.push((n + 1, n - 1));
                n += 2;
            }
            if n < k {
                e.push((n - 1, n));
                n += 1;
            }
            mk(n, e)
        }
        "chorded_path" => {
            for i in 1..k {
                e.push((i - 1, i));
            }
            for i in 0..k {
                if i % 3 == 0 && i + 2 < k {
                    e.push((i + 2, i));
                }
                if i % 5 == 0 && i + 4 < k {
                    e.push((i, i + 4));
                }
            }
            mk(k, e)
        }
        "copies_c3" => {
            let t = (k / 3).max(1);
            for i in 0..t {
                e.push((i, t + i));
                e.push((t + i, 2 * t + i));
                e.push((2 * t + i, i));
            }
            mk(3 * t, e)
        }
        "copies_p2" => {
            let t = (k / 2).max(1);
            for i in 0..t {
                e.push((t + i, i));
            }
            mk(2 * t, e)
        }
        "isolated" => mk(k, e),
        // irregular: i joined to images under affine maps modulo k
        "affine" | "affine_dense" => {
            let maps: &[(usize, usize)] = if name == "affine" {
                &[(3, 1), (7, 5)]
            } else {
                &[(2, 1), (3, 4), (5, 2), (7, 5), (11, 3), (13, 8), (17, 6)]
            };
            let mut seen = HashSet::new();
            for &(a, b) in maps {
                for i in 0..k {
                    let j = (a * i + b) % k;
                    if i != j && seen.insert(und(i, j)) {
                        e.push((i, j));
                    }
                }
            }
            mk(k, e)
        }
        // uneven degrees
        "divisors" => {
            for i in 2..=k {
                for j in (2 * i..=k).step_by(i) {
                    e.push((j - 1, i - 1));
                }
            }
            mk(k, e)
        }
        // one edge more than nodes
        "theta" => {
            for i in 1..k {
                e.push((i - 1, i));
            }
            if k > 3 {
                e.push((k - 1, 0));
                e.push((k / 2, 0));
            }
            mk(k, e)
        }
        // three edges fewer than nodes
        "broken_path" => {
            for i in 1..k {
                if i != k / 3 && i != 2 * k / 3 {
                    e.push((i - 1, i));
                }
            }
            mk(k, e)
        }
        // two nodes joined to all others, not to each other
        "two_hubs" => {
            for i in 2..k {
                e.push((0, i));
                e.push((i, 1));
            }
            mk(k, e)
        }
        // a tree of stars of 1, 2, 3, ... leaves, their centres in a row
        "many_hubs" => {
            let (mut n, mut last, mut leaves) = (1, 0, 1);
            while n < k {
                for _ in 0..leaves.min(k - n) {
                    e.push((last, n));
                    n += 1;
                }
                leaves += 1;
                if n < k {
                    e.push((last, n));
                    last = n;
                    n += 1;
                }
            }
            mk(k.max(1), e)
        }
        // cycles of 3, 4, 5, ... edges through node 0
        "petals" => {
            let (mut n, mut len) = (1, 3);
            while n + len - 1 <= k {
                e.push((0, n));
                for i in 1..len - 1 {
                    e.push((n + i - 1, n + i));
                }
                e.push((n + len - 2, 0));
                n += len - 1;
                len += 1;
            }
            mk(n, e)
        }
        // odd cycles nested in one another, each by a longer ear, and a stem
        "odd_tower" => {
            e.extend([(0, 1), (1, 2), (2, 0)]);
            let (mut n, mut ear) = (3, 2);
            while n + ear < k {
                e.push((n - ear, n));
                for i in 1..ear {
                    e.push((n + i - 1, n + i));
                }
                e.push((n + ear - 1, n - 1));
                n += ear;
                ear += 2;
            }
            while n < k {
                e.push((n - 1, n));
                n += 1;
            }
            mk(n, e)
        }
        // complete graphs on 4 nodes, each sharing a node with the next
        "clique_chain" => {
            let t = (k / 3).max(1);
            for c in 0..t {
                for i in 0..4 {
                    for j in i + 1..4 {
                        e.push((3 * c + i, 3 * c + j));
                    }
                }
            }
            mk(3 * t + 1, e)
        }
        // complete but for a perfect matching
        "cocktail" => {
            for i in 0..k {
                for j in i + 1..k {
                    if i / 2 != j / 2 {
                        e.push((i, j));
                    }
                }
            }
            mk(k, e)
        }
        // a node with many legs of two edges
        "legs" => {
            let h = k / 2;
            for i in 1..=h {
                e.push((0, i));
                e.push((i, h + i));
            }
            mk(2 * h + 1, e)
        }
        // two such nodes joined by a path
        "leg_pair" => {
            let h = (k / 4).max(1);
            e.extend([(0, 1), (1, 2), (2, 3)]);
            for i in 0..2 * h {
                e.push((if i % 2 == 0 { 0 } else { 3 }, 4 + 2 * i));
                e.push((4 + 2 * i, 5 + 2 * i));
            }
            mk(4 + 4 * h, e)
        }
        // a long path interrupted by one or two odd cycles: in the middle, at
        // thirds, at a third; where it enters and leaves them changes with k
        // (mid_chords: also by a second edge on either side)
        "mid_cycle" | "mid_cycles" | "off_cycle" | "mid_chords" => {
            let c = [3, 5, 7, 9][k % 4];
            let at = 1 + k / 4 % (c - 1);
            let rest = k.saturating_sub(c);
            let lens = match name {
                "mid_cycle" | "mid_chords" => vec![rest / 2, rest - rest / 2],
                "off_cycle" => vec![rest / 3, rest - rest / 3],
                _ => vec![rest / 3, rest / 3, rest / 3],
            };
            let (mut n, mut end) = (0, None);
            for (j, &l) in lens.iter().enumerate() {
                for _ in 0..l.max(1) {
                    if let Some(p) = end {
                        e.push((p, n));
                    }
                    end = Some(n);
                    n += 1;
                }
                if j + 1 < lens.len() {
                    e.push((n - 1, n));
                    for i in 0..c {
                        e.push((n + i, n + (i + 1) % c));
                    }
                    end = Some(n + at);
                    if name == "mid_chords" {
                        e.push((n - 1, n + 1 + k / 2 % (c - 1)));
                        e.push((n + (at + 1 + k / 3 % (c - 1)) % c, n + c));
                    }
                    n += c;
                }
            }
            mk(n, e)
        }
        "looped_path" => {
            for i in 0..k {
                e.push((i, i));
                if i > 0 {
                    e.push((i, i - 1));
                }
            }
            mk(k, e)
        }
        "mixed_parts" => {
            // an isolated node, an edge, a triangle, a path, ... of growing sizes
            let mut n = 0;
            let mut part = 1;
            while n + part <= k.max(1) {
                for i in 1..part {
                    e.push((n + i - 1, n + i));
                }
                if part % 2 == 1 && part > 1 {
                    e.push((n + part - 1, n));
                }
                n += part;
                part += 1;
            }
            mk(n, e)
        }
        _ => unreachable!(),
    }
}

/// Graphs with more than 2^16 nodes, or a node of more than 2^16 neighbours.
pub const HUGE: [&str; 3] = ["far_lollipop", "path", "star"];
pub const HUGE_N: usize = 66_000;

pub fn huge(name: &str) -> RG {
    if name != "far_lollipop" {
        return family(name, HUGE_N);
    }
    // isolated nodes, then a looped triangle with a tail on the last ids
    let n = HUGE_N;
    let mut e: Vec<Edge> = vec![(n - 6, n - 5), (n - 5, n - 4), (n - 4, n - 6), (n - 4, n - 3), (n - 3, n - 2), (n - 1, n - 2), (n - 5, n - 5)];
    // and one edge from the low end to the high one
    e.push((3, n - 1));
    mk(n, e)
}

/// Other ids for the same graph: shifted, descending multiples of 2^16 from the
/// top, scattered over 32 bits.
pub fn mapped(g: &RG, map: usize) -> RG {
    match map {
        0 => g.clone(),
        1 => g.relabel(&|x| 1000 + x),
        2 => g.relabel(&|x| usize::MAX - (x << 16)),
        _ => g.relabel(&|x| x.wrapping_mul(2_654_435_761) & 0xffff_ffff),
    }
}

/// Number of variants: 4 insertion orders, and 3 of them with other ids.
pub const VARIANTS: usize = 7;
pub fn variant(g: &RG, v: usize) -> RG {
    match v {
        0..=3 => reordered(g, v),
        4 => mapped(&reordered(g, 1), 1),
        5 => mapped(&reordered(g, 3), 2),
        _ => mapped(&reordered(g, 2), 3),
    }
}

/// The same graph (ids 0..n) with things added at the side: edges from nodes to
/// themselves, isolated nodes, leaves, further components. Ids stay 0..n'.
pub fn dressed(g: &RG, d: usize) -> RG {
    let n = g.nodes.len();
    let mut nodes = g.nodes.clone();
    let mut edges = g.edges.clone();
    match d {
        0 => {}
        1 => {
            // loops on every third node, listed late or early; isolated nodes
            // at both ends
            nodes.insert(0, n);
            nodes.push(n + 1);
            for (i, x) in (0..n).step_by(3).filter(|&x| !g.linked(x, x)).enumerate() {
                let at = if i % 2 == 0 { edges.len() } else { (i * 5 + 2).min(edges.len()) };
                edges.insert(at, (x, x));
            }
        }
        2 => {
            // a looped node and a triangle with a stem, mixed with the rest
            for i in 0..5 {
                nodes.insert((i * n / 4 + i).min(nodes.len()), n + i);
            }
            let extra = [(n + 3, n + 1), (n, n), (n + 1, n + 2), (n + 4, n + 3), (n + 2, n + 3)];
            for (i, &e) in extra.iter().enumerate() {
                edges.insert((i * edges.len() / 3).min(edges.len()), e);
            }
        }
        _ => {
            // a leaf on every fourth node; the last leaf has a loop
            let mut x = n;
            for v in (0..n).step_by(4) {
                nodes.push(x);
                edges.insert((v * 2).min(edges.len()), (x, v));
                x += 1;
            }
            if x > n {
                edges.insert(edges.len() / 2, (x - 1, x - 1));
            }
        }
    }
    RG::from_edges(&nodes, &edges)
}

/// A family at one size in one of its variants: those above, and three with
/// things added.
pub const FVARIANTS: usize = VARIANTS + 3;
pub fn cast(f: &str, k: usize, v: usize) -> RG {
    let m = family(f, k);
    match v.checked_sub(VARIANTS) {
        None => variant(&m, v),
        Some(0) => dressed(&m, 1),
        Some(1) => mapped(&reordered(&dressed(&m, 2), 1), 3),
        Some(_) => reordered(&dressed(&m, 3), 3),
    }
}

/// Variants of a graph with the same nodes and edges in other orders.
pub fn reordered(g: &RG, variant: usize) -> RG {
    match variant {
        0 => g.clone(),
        1 => {
            let mut es: Vec<Edge> = g.edges.iter().rev().map(|&(a, b)| (b, a)).collect();
            if es.is_empty() {
                es = vec![];
            }
            let nodes: Vec<usize> = g.nodes.iter().rev().cloned().collect();
            RG::from_edges(&nodes, &es)
        }
        3 => {
            // far jumps: every position once, in steps of about 0.62 n
            let far = |m: usize| -> Vec<usize> {
                let gcd = |mut a: usize, mut b: usize| {
                    while b > 0 {
                        (a, b) = (b, a % b);
                    }
                    a
                };
                let mut k = (m * 618 / 1000).max(1);
                while gcd(k, m) > 1 {
                    k += 1;
                }
                (0..m).map(|i| (i * k + m / 3) % m).collect()
            };
            let es: Vec<Edge> = far(g.edges.len())
                .into_iter()
                .map(|i| if i % 3 == 1 { (g.edges[i].1, g.edges[i].0) } else { g.edges[i] })
                .collect();
            let nodes: Vec<usize> = far(g.nodes.len()).into_iter().map(|i| g.nodes[i]).collect();
            RG::from_edges(&nodes, &es)
        }
        _ => {
            // interleaved: odd positions first
            let mut es = vec![];
            for (i, &e) in g.edges.iter().enumerate() {
                if i % 2 == 1 {
                    es.push((e.1, e.0));
                }
            }
            for (i, &e) in g.edges.iter().enumerate() {
                if i % 2 == 0 {
                    es.push(e);
                }
            }
            let mut nodes = vec![];
            for (i, &v) in g.nodes.iter().enumerate() {
                if i % 2 == 1 {
                    nodes.push(v);
                }
            }
            for (i, &v) in g.nodes.iter().enumerate() {
                if i % 2 == 0 {
                    nodes.push(v);
                }
            }
            RG::from_edges(&nodes, &es)
        }
    }
}

/// Awkward id alphabets: aliases modulo 2^8, 2^16, 2^32, extremes, gaps.
/// Id alphabets: extremes, shuffled, colliding under truncation to 8, 16 and
/// 32 bits, descending.
pub const SPARSE: [&[usize]; 9] = [
    &[usize::MAX, 0, 1 << 32, (1 << 32) + 1, 1, usize::MAX - 1, 1 << 63, 256, 65536],
    &[7, 3, 1000, 42, 1 << 20, 5, 99, 1 << 40, 12],
    &[1, 257, 65537, (1 << 32) + 1, (1 << 16) + 257, 513, (1 << 48) + 1, 129, 33],
    &[9, 8, 7, 6, 5, 4, 3, 2, 1],
    &[0, 1 << 32, 2 << 32, 1, (1 << 32) + 1, (2 << 32) + 1, 3 << 32, 2, (1 << 32) + 2],
    &[1 << 16, 0, (1 << 16) + 1, 1, 2 << 16, (2 << 16) + 1, 2, (1 << 16) + 2, 3 << 16],
    &[2 << 8, 1 << 8, 0, 1, (1 << 8) + 1, (2 << 8) + 1, 3 << 8, (1 << 8) + 2, 2],
    &[64, 0, 32, 96, 128, 1, 65, 33, 192],
    &[1023, 1024, 100_000, 4095, 10_000, 4096, 9_999, 99_999, 2_000_000],
];
pub const NS: u64 = SPARSE.len() as u64;

/// Factors by which an implementation might squeeze two ids into one key.
pub const FACTORS: [usize; 42] = [
    10, 16, 31, 32, 33, 37, 63, 64, 65, 97, 100, 101, 127, 128, 131, 255, 256, 257, 511, 512, 521,
    997, 1000, 1009, 1024, 4096, 8191, 10_000, 65_535, 65_536, 65_537, 100_000, 1 << 20, 1_000_000,
    1_000_003, 1 << 24, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 0x9e37_79b9,
    0x9e37_79b9_7f4a_7c15,
];

/// Ids among which different pairs agree in `a * f + b`.
pub fn factor_ids(f: usize) -> [usize; 9] {
    let m = |k: usize, x: usize| f.wrapping_mul(k).wrapping_add(x);
    [0, 1, 2, m(1, 2), m(1, 1), 3, m(2, 2), f, f.wrapping_sub(1)]
}

/// All listings of up to `max` distinct ids out of 0..8, in every order.
pub fn listings(max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        level = level
            .iter()
            .flat_map(|l| (0..8).filter(|x| !l.contains(x)).map(|x| [l.clone(), vec![x]].concat()).collect::<Vec<_>>())
            .collect();
        out.extend(level.iter().cloned());
    }
    out.extend(nearly_sorted());
    out
}

/// Longer listings which are 0..n but for one thing: two ids exchanged, a part
/// reversed, a rotation, one id replaced by one outside.
fn nearly_sorted() -> Vec<Vec<usize>> {
    let mut out = std::collections::BTreeSet::new();
    for n in [6, 7, 8, 9, 10, 11, 12, 16, 17, 33] {
        let base: Vec<usize> = (0..n).collect();
        let corner = |i: usize| n <= 12 || i < 5 || i + 4 > n || i == n / 2;
        for i in (0..n).filter(|&i| corner(i)) {
            let mut v = base.clone();
            v.rotate_left(i);
            out.insert(v);
            for y in [n, n + 1, 1000] {
                let mut v = base.clone();
                v[i] = y;
                out.insert(v);
            }
            for j in (i + 1..n).filter(|&j| corner(j)) {
                let mut v = base.clone();
                v.swap(i, j);
                out.insert(v);
                let mut v = base.clone();
                v[i..=j].reverse();
                out.insert(v);
            }
        }
    }
    out.into_iter().collect()
}

/// Number of ways in which `listed` joins the nodes of a listing.
pub const PATTERNS: usize = 6;
pub const PATTERN_TEXT: &str = "6 ways of joining them (not at all, path, complete (above 12 ids each with the next 3), star of the last, pairs and a looped last, path backwards with chord and looped first)";
pub fn listed(ids: &[usize], pattern: usize) -> RG {
    let n = ids.len();
    let at = |i: usize| ids[i];
    let mut e: Vec<Edge> = vec![];
    match pattern {
        0 => {}
        1 => e.extend((1..n).map(|i| (at(i - 1), at(i)))),
        2 => e.extend(pairs(n, false).into_iter().filter(|&(i, j)| n <= 12 || j < i + 4).map(|(i, j)| (at(i), at(j)))),
        3 => e.extend((0..n - 1).map(|i| (at(n - 1), at(i)))),
        4 => {
            e.extend((1..n).step_by(2).map(|i| (at(i), at(i - 1))));
            e.push((at(n - 1), at(n - 1)));
        }
        _ => {
            e.extend((1..n).rev().map(|i| (at(i), at(i - 1))));
            e.push((at(0), at(0)));
            if n > 2 {
                e.push((at(0), at(2)));
            }
        }
    }
    RG::from_edges(ids, &e)
}
