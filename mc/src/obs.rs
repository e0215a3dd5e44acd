//! Observation functions: everything visible through the public API, compared with a model.

#![allow(deprecated)]

use dendron::{FrozenNode, HotNode, Node};

use crate::data::D;
use crate::model::Model;
use crate::sup::{catch, Res};
use crate::world::World;

#[cold]
fn bad(w: &World, flavour: &str, x: usize, what: &str, exp: Option<usize>, got: Option<&Node<D>>) -> String {
    format!(
        "{flavour} node {x}: {what} is {}, expected {}",
        w.name(got),
        exp.map_or("None".to_owned(), |e| e.to_string())
    )
}

#[inline]
fn same(w: &World, exp: Option<usize>, got: Option<&Node<D>>) -> bool {
    match (exp, got) {
        (None, None) => true,
        (Some(e), Some(g)) => w.keep[e].ptr_eq(g),
        _ => false,
    }
}

macro_rules! navs {
    ($w:expr, $m:expr, $x:expr, $h:expr, $fl:expr, $plain:expr) => {{
        let (w, m, x, h): (&World, &Model, usize, _) = ($w, $m, $x, $h);
        let sibs = m.sibs(x);
        let (pos, cnt) = m.pos(x);
        let kids = &m.n[x].kids;
        let first_s = sibs.first().copied().unwrap_or(x);
        let last_s = sibs.last().copied().unwrap_or(x);
        macro_rules! eqn {
            ($what:expr, $exp:expr, $got:expr) => {{
                let exp: Option<usize> = $exp;
                let got = $got.map($plain);
                if !same(w, exp, got.as_ref()) {
                    return Err(bad(w, $fl, x, $what, exp, got.as_ref()));
                }
            }};
        }
        macro_rules! eqv {
            ($what:expr, $exp:expr, $got:expr) => {{
                let (exp, got) = ($exp, $got);
                if exp != got {
                    return Err(format!("{} node {}: {} is {:?}, expected {:?}", $fl, x, $what, got, exp));
                }
            }};
        }
        eqn!("parent", m.parent(x), h.parent());
        eqn!("root", Some(m.root(x)), Some(h.root()));
        eqn!("prev_sibling", m.prev(x), h.prev_sibling());
        eqn!("next_sibling", m.next(x), h.next_sibling());
        eqn!("first_sibling", Some(first_s), Some(h.first_sibling()));
        eqn!("last_sibling", Some(last_s), Some(h.last_sibling()));
        let (a, b) = h.first_last_sibling();
        eqn!("first_last_sibling.0", Some(first_s), Some(a));
        eqn!("first_last_sibling.1", Some(last_s), Some(b));
        eqn!("first_child", kids.first().copied(), h.first_child());
        eqn!("last_child", kids.last().copied(), h.last_child());
        let (a, b) = match h.first_last_child() {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, None),
        };
        eqn!("first_last_child.0", kids.first().copied(), a);
        eqn!("first_last_child.1", kids.last().copied(), b);
        eqv!("is_root", m.parent(x).is_none(), h.is_root());
        eqv!("has_prev_sibling", pos > 0, h.has_prev_sibling());
        eqv!("has_next_sibling", pos + 1 < cnt, h.has_next_sibling());
        eqv!("num_children", kids.len(), h.num_children());
        eqv!("has_children", !kids.is_empty(), h.has_children());
        eqv!("has_one_child", kids.len() == 1, h.has_one_child());
        eqv!("has_multiple_children", kids.len() > 1, h.has_multiple_children());
        eqv!("count_children", kids.len(), h.count_children());
        eqv!("count_preceding_siblings", pos, h.count_preceding_siblings());
        eqv!("count_following_siblings", cnt - 1 - pos, h.count_following_siblings());
        eqv!("count_ancestors", m.depth(x), h.count_ancestors());
        Ok(())
    }};
}

fn pn(n: Node<D>) -> Node<D> {
    n
}
fn ph(n: HotNode<D>) -> Node<D> {
    n.plain()
}
fn pf(n: FrozenNode<D>) -> Node<D> {
    n.plain()
}

pub fn nav_plain(w: &World, m: &Model, x: usize) -> Res {
    navs!(w, m, x, &w.keep[x], "plain", pn)
}
pub fn nav_hot(w: &World, m: &Model, x: usize, h: &HotNode<D>) -> Res {
    navs!(w, m, x, h, "hot", ph)
}
pub fn nav_frozen(w: &World, m: &Model, x: usize, h: &FrozenNode<D>) -> Res {
    navs!(w, m, x, h, "frozen", pf)
}

/// A panic or an endless loop inside an accessor is itself a failure; panics are reported here.
fn guarded(what: &str, f: impl FnOnce() -> Res) -> Res {
    match catch(f) {
        Ok(r) => r,
        Err(p) => Err(format!("{what} panicked: {p}")),
    }
}

/// Every accessor of every node through all three handle flavours.
pub fn nav_all(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        guarded("plain accessor", || nav_plain(w, m, x))?;
        let h = w.keep[x]
            .clone()
            .bundle_new_hierarchy_edit_grant()
            .map_err(|_| format!("node {x}: grant is not acquirable on a neutral tree"))?;
        guarded("hot accessor", || nav_hot(w, m, x, &h))?;
        drop(h);
        let h = w.keep[x]
            .clone()
            .bundle_new_hierarchy_edit_prohibition()
            .map_err(|_| format!("node {x}: prohibition is not acquirable on a neutral tree"))?;
        guarded("frozen accessor", || nav_frozen(w, m, x, &h))?;
        drop(h);
    }
    Ok(())
}

/// Plain accessors only (for large trees).
pub fn nav_plain_all(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        guarded("plain accessor", || nav_plain(w, m, x))?;
    }
    Ok(())
}

/// Data of every node is the very instance (and value) it was created with.
pub fn data_all(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        match w.keep[x].try_borrow_data() {
            Ok(d) => {
                if d.tag != w.tag[x] {
                    return Err(format!("node {x} holds data #{} instead of #{}", d.tag, w.tag[x]));
                }
                if d.val != m.n[x].val {
                    return Err(format!("node {x} holds value {} instead of {}", d.val, m.n[x].val));
                }
            }
            Err(_) => return Err(format!("data of node {x} is still borrowed")),
        }
    }
    w.check_alive()
}

/// Tree membership and identity of every node.
pub fn membership_all(w: &World, m: &Model) -> Res {
    let mut trees = vec![];
    for t in 0..m.roots.len() {
        let up = w.weak[t].as_ref().and_then(|w| w.upgrade());
        match (m.roots[t], &up) {
            (Some(r), None) => return Err(format!("tree t{t} (root {r}) does not exist any more")),
            (None, Some(_)) => return Err(format!("tree t{t} must not exist any more")),
            _ => {}
        }
        trees.push(up);
    }
    let alive: Vec<usize> = m.alive().collect();
    for t in 0..trees.len() {
        let Some(tree) = &trees[t] else { continue };
        let r = tree.root();
        if !same(w, m.roots[t], Some(&r)) {
            return Err(format!("root of tree t{t} is {}, expected {:?}", w.name(Some(&r)), m.roots[t]));
        }
        if !r.is_root() {
            return Err(format!("root of tree t{t} does not claim to be a root"));
        }
        for (u, other) in trees.iter().enumerate() {
            if let Some(other) = other {
                if tree.ptr_eq(other) != (t == u) {
                    return Err(format!("Tree::ptr_eq of t{t} and t{u} is wrong"));
                }
            }
        }
        // Exactly the nodes reachable from the root claim to belong to the tree.
        let mut reach = vec![false; m.len()];
        let mut st = vec![r];
        let mut steps = 0;
        while let Some(n) = st.pop() {
            steps += 1;
            if steps > 4 * m.len() + 16 {
                return Err(format!("walk of tree t{t} does not end"));
            }
            reach[w.idx(&n)?] = true;
            if let Some(s) = n.next_sibling() {
                st.push(s);
            }
            if let Some(c) = n.first_child() {
                st.push(c);
            }
        }
        for &x in &alive {
            let h = &w.keep[x];
            let exp = m.n[x].tree == t;
            if h.belongs_to(tree) != exp {
                return Err(format!("node {x} belongs_to(t{t}) is {}, expected {exp}", !exp));
            }
            if reach[x] != exp {
                return Err(format!("node {x} reachable from the root of t{t}: {}, expected {exp}", !exp));
            }
            if exp {
                if !h.tree().ptr_eq(tree) {
                    return Err(format!("tree() of node {x} is not t{t}"));
                }
                if !same(w, m.roots[t], Some(&h.root())) {
                    return Err(format!("root() of node {x} is not the root of t{t}"));
                }
                if h.is_root() != (m.roots[t] == Some(x)) {
                    return Err(format!("is_root() of node {x} is wrong"));
                }
            }
        }
    }
    for &x in &alive {
        for &y in &alive {
            let exp = m.n[x].tree == m.n[y].tree;
            if w.keep[x].belongs_to_same_tree(&w.keep[y]) != exp {
                return Err(format!("belongs_to_same_tree({x}, {y}) is {}, expected {exp}", !exp));
            }
            if w.keep[x].ptr_eq(&w.keep[y]) != (x == y) {
                return Err(format!("ptr_eq({x}, {y}) is wrong"));
            }
        }
    }
    // The same answers through hot and frozen handles.
    for &x in &alive {
        let t = m.n[x].tree;
        let tree = trees[t].as_ref().ok_or("harness: tree")?;
        let h = w.keep[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| format!("node {x}: not grantable"))?;
        if !h.belongs_to(tree) || !h.tree().ptr_eq(tree) || h.is_root() != (m.roots[t] == Some(x)) {
            return Err(format!("hot node {x}: membership of t{t} is wrong"));
        }
        for (u, other) in trees.iter().enumerate() {
            if let Some(other) = other {
                if h.belongs_to(other) != (t == u) {
                    return Err(format!("hot node {x}: belongs_to(t{u}) is wrong"));
                }
            }
        }
        for &y in &alive {
            let hy = w.keep[y].clone().bundle_new_hierarchy_edit_grant().map_err(|_| format!("node {y}: not grantable"))?;
            if h.belongs_to_same_tree(&hy) != (t == m.n[y].tree) {
                return Err(format!("hot belongs_to_same_tree({x}, {y}) is wrong"));
            }
            if h.ptr_eq(&hy) != (x == y) || h.ptr_eq_plain(&w.keep[y]) != (x == y) {
                return Err(format!("hot ptr_eq({x}, {y}) is wrong"));
            }
        }
        drop(h);
        let h = w.keep[x].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| format!("node {x}: not freezable"))?;
        if !h.belongs_to(tree) || !h.tree().ptr_eq(tree) || h.is_root() != (m.roots[t] == Some(x)) {
            return Err(format!("frozen node {x}: membership of t{t} is wrong"));
        }
        for (u, other) in trees.iter().enumerate() {
            if let Some(other) = other {
                if h.belongs_to(other) != (t == u) {
                    return Err(format!("frozen node {x}: belongs_to(t{u}) is wrong"));
                }
            }
        }
        for &y in &alive {
            let hy = w.keep[y].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| format!("node {y}: not freezable"))?;
            if h.belongs_to_same_tree(&hy) != (t == m.n[y].tree) || h.ptr_eq(&hy) != (x == y) {
                return Err(format!("frozen belongs_to_same_tree/ptr_eq({x}, {y}) is wrong"));
            }
        }
    }
    Ok(())
}

/// Every tree is neutral: each kind of lock can be acquired through each node.
pub fn neutral_all(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        if w.keep[x].tree().grant_hierarchy_edit().is_err() {
            return Err(format!("tree of node {x}: a prohibition is left over"));
        }
        if w.keep[x].tree().prohibit_hierarchy_edit().is_err() {
            return Err(format!("tree of node {x}: a grant is left over"));
        }
    }
    Ok(())
}

/// Derives the hierarchy from the basic links only (parent chain for the root, then first child
/// and next sibling), checking that this much is a forest covering all kept nodes.
pub fn derive(w: &World, m: &Model) -> Result<Model, String> {
    let n = m.len();
    let mut d = Model {
        n: m.n.clone(),
        roots: vec![],
    };
    let mut seen = vec![false; n];
    for i in 0..n {
        d.n[i].kids.clear();
        d.n[i].parent = None;
    }
    for i in 0..n {
        if !m.n[i].alive || seen[i] {
            continue;
        }
        let mut r = w.keep[i].clone();
        let mut steps = 0;
        while let Some(p) = r.parent() {
            r = p;
            steps += 1;
            if steps > n {
                return Err(format!("ancestors of node {i} do not end"));
            }
        }
        let ri = w.idx(&r)?;
        if seen[ri] {
            return Err(format!("node {i} is not reachable from its root {ri}"));
        }
        seen[ri] = true;
        let t = d.roots.len();
        d.roots.push(Some(ri));
        d.n[ri].tree = t;
        let mut st = vec![(ri, r)];
        while let Some((pi, p)) = st.pop() {
            let mut c = p.first_child();
            while let Some(ch) = c {
                let ci = w.idx(&ch)?;
                if seen[ci] {
                    return Err(format!("node {ci} is reached twice (below {pi})"));
                }
                seen[ci] = true;
                d.n[ci].parent = Some(pi);
                d.n[ci].tree = t;
                d.n[pi].kids.push(ci);
                c = ch.next_sibling();
                st.push((ci, ch));
            }
        }
        if !seen[i] {
            return Err(format!("node {i} is not reachable from its root {ri}"));
        }
    }
    Ok(d)
}

/// Forward and reverse depth-first and child iterators agree with the hierarchy (plain flavour).
pub fn walks(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        if m.parent(x).is_some() {
            continue;
        }
        let ev = m.events(x);
        let mut k = 0;
        for e in w.keep[x].depth_first_traverse() {
            let (open, n) = match e {
                dendron::traverse::DftEvent::Open(n) => (true, n),
                dendron::traverse::DftEvent::Close(n) => (false, n),
            };
            if k >= ev.len() || ev[k].0 != open || !w.keep[ev[k].1].ptr_eq(&n) {
                return Err(format!("depth-first event {k} of tree at {x} is wrong"));
            }
            k += 1;
        }
        if k != ev.len() {
            return Err(format!("depth-first traversal of tree at {x} has {k} events, expected {}", ev.len()));
        }
        let mut k = ev.len();
        for e in w.keep[x].depth_first_reverse_traverse() {
            let (open, n) = match e {
                dendron::traverse::DftEvent::Open(n) => (true, n),
                dendron::traverse::DftEvent::Close(n) => (false, n),
            };
            if k == 0 || ev[k - 1].0 != open || !w.keep[ev[k - 1].1].ptr_eq(&n) {
                return Err(format!("reverse depth-first event {k} of tree at {x} is wrong"));
            }
            k -= 1;
        }
        if k != 0 {
            return Err(format!("reverse depth-first traversal of tree at {x} ends early"));
        }
    }
    Ok(())
}
