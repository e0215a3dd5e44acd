//! Exhaustive enumeration of ordered trees and forests.

/// A tree as a parent array in preorder (`par[0]` is unused).
pub type Shape = Vec<usize>;

/// All ordered rooted trees with exactly `n` nodes, in a fixed order.
pub fn trees(n: usize) -> Vec<Shape> {
    fn rec(cur: &mut Shape, n: usize, out: &mut Vec<Shape>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        // The parent of the next preorder node is any node of the rightmost path.
        let mut p = cur.len() - 1;
        loop {
            cur.push(p);
            rec(cur, n, out);
            cur.pop();
            if p == 0 {
                break;
            }
            p = cur[p];
        }
    }
    assert!(n >= 1);
    let mut out = vec![];
    rec(&mut vec![0], n, &mut out);
    out
}

/// All multisets of trees with `n` nodes in total.
pub fn forests(n: usize) -> Vec<Vec<Shape>> {
    let all: Vec<Shape> = (1..=n).rev().flat_map(trees).collect();
    fn rec(all: &[Shape], from: usize, left: usize, cur: &mut Vec<Shape>, out: &mut Vec<Vec<Shape>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..all.len() {
            if all[i].len() <= left {
                cur.push(all[i].clone());
                rec(all, i, left - all[i].len(), cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(&all, 0, n, &mut vec![], &mut out);
    out
}

/// Large degenerate families: (name, shape).
pub fn families(n: usize) -> Vec<(&'static str, Shape)> {
    let mut v: Vec<(&'static str, Shape)> = vec![];
    v.push(("chain", (0..n).map(|i| i.saturating_sub(1)).collect()));
    v.push(("star", vec![0; n]));
    // Spine with one leaf before / after each spine child.
    let mut comb_r = vec![0];
    let mut spine = 0;
    while comb_r.len() < n {
        comb_r.push(spine);
        if comb_r.len() < n {
            comb_r.push(spine);
            spine = comb_r.len() - 1;
        }
    }
    v.push(("comb-right", comb_r));
    // Chain whose every node gets one more (last) leaf child, in preorder.
    let k = n.div_ceil(2);
    let mut comb_l: Shape = (0..k).map(|i| i.saturating_sub(1)).collect();
    let mut at = k;
    for i in (0..n - k).rev() {
        comb_l.push(i.min(k - 1));
        at += 1;
    }
    assert_eq!(at, n);
    v.push(("comb-left", comb_l));
    v
}

pub fn show(s: &Shape) -> String {
    let n = s.len();
    let mut kids = vec![vec![]; n];
    for i in 1..n {
        kids[s[i]].push(i);
    }
    fn rec(i: usize, kids: &[Vec<usize>], o: &mut String) {
        o.push_str(&i.to_string());
        if !kids[i].is_empty() {
            o.push('(');
            for (j, &k) in kids[i].iter().enumerate() {
                if j > 0 {
                    o.push(' ');
                }
                rec(k, kids, o);
            }
            o.push(')');
        }
    }
    let mut o = String::new();
    rec(0, &kids, &mut o);
    o
}

/// Less degenerate shapes with about `n` nodes: several wide or deep places at once.
pub fn mixed(n: usize) -> Vec<(&'static str, Shape)> {
    let mut v: Vec<(&'static str, Shape)> = vec![];
    // The first, a middle or the last of several children has many children.
    for (name, at) in [("star in the first", 0), ("star in the middle", 2), ("star in the last", 4)] {
        let mut s: Shape = vec![0];
        for i in 0..5 {
            s.push(0);
            if i == at {
                let p = s.len() - 1;
                s.extend(std::iter::repeat_n(p, n.saturating_sub(6)));
            }
        }
        v.push((name, s));
    }
    // The same with a chain.
    for (name, at) in [("chain in the first", 0), ("chain in the last", 2)] {
        let mut s: Shape = vec![0];
        for i in 0..3 {
            s.push(0);
            if i == at {
                for _ in 0..n.saturating_sub(4) {
                    s.push(s.len() - 1);
                }
            }
        }
        v.push((name, s));
    }
    // √n children with √n children each.
    let k = (1..).find(|k| k * k >= n).unwrap();
    let mut s: Shape = vec![0];
    while s.len() < n {
        s.push(0);
        let p = s.len() - 1;
        s.extend(std::iter::repeat_n(p, (n - s.len()).min(k - 1)));
    }
    v.push(("bush", s));
    // Complete binary tree (preorder).
    let mut s: Shape = vec![];
    fn rec(p: usize, n: usize, s: &mut Shape) {
        if n == 0 {
            return;
        }
        let i = s.len();
        s.push(p);
        rec(i, (n - 1).div_ceil(2), s);
        rec(i, (n - 1) / 2, s);
    }
    rec(0, n, &mut s);
    v.push(("binary", s));
    v
}

/// Shapes whose depths or numbers of children lie around 2^8 or 2^16: (name, shape).
pub fn boundary(bits: u32, families_too: bool) -> Vec<(String, Shape)> {
    let at = 1usize << bits;
    let mut v = vec![];
    for n in at - 1..=at + 3 {
        for (name, s) in families(n) {
            if families_too || matches!(name, "chain" | "star") {
                v.push((format!("{name} with {n} nodes"), s));
            }
        }
    }
    if families_too {
        for n in [2 * at - 1, 2 * at, 2 * at + 1, 2 * at + 2, 2 * at + 3] {
            for (name, s) in families(n) {
                if name.starts_with("comb") {
                    v.push((format!("{name} with {n} nodes"), s));
                }
            }
        }
    }
    if families_too {
        for (name, s) in mixed(at + 8) {
            v.push((format!("{name} with {} nodes", s.len()), s));
        }
    }
    // A chain that ends in a star, between two leaves.
    for (k, l) in [(at, 3), (at + 1, at), (3, at + 1)] {
        if !families_too && k.min(l) > 3 {
            continue;
        }
        let mut s: Shape = vec![0, 0];
        s.push(0);
        for i in 3..k + 2 {
            s.push(i - 1);
        }
        let end = s.len() - 1;
        s.extend(std::iter::repeat_n(end, l));
        s.push(0);
        v.push((format!("leaf, chain of {k} with {l} leaves at its end, leaf"), s));
    }
    v
}

/// Depths of the nodes.
pub fn depths(s: &Shape) -> Vec<usize> {
    let mut d = vec![0; s.len()];
    for i in 1..s.len() {
        d[i] = d[s[i]] + 1;
    }
    d
}

/// End (exclusive) of each node's subtree in preorder.
pub fn ends(s: &Shape) -> Vec<usize> {
    let mut e: Vec<usize> = (1..=s.len()).collect();
    for i in (1..s.len()).rev() {
        e[s[i]] = e[s[i]].max(e[i]);
    }
    e
}

/// Events of the subtree of `x`: (is_open, node).
pub fn events(s: &Shape, x: usize) -> Vec<(bool, usize)> {
    let e = ends(s);
    let mut v = vec![];
    let mut open: Vec<usize> = vec![];
    for i in x..e[x] {
        while open.last().is_some_and(|&o| e[o] <= i) {
            v.push((false, open.pop().unwrap()));
        }
        v.push((true, i));
        open.push(i);
    }
    while let Some(o) = open.pop() {
        v.push((false, o));
    }
    v
}
