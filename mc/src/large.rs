//! Linear-time comparison of large real trees with the model.
#![allow(deprecated)]

use dendron::Node;

use crate::data::D;
use crate::model::Model;
use crate::sup::Res;
use crate::world::World;

fn tag(n: &Node<D>) -> u32 {
    n.borrow_data().tag
}

/// Some places of a world: the first and last few nodes, some in the middle, and the neighbourhood
/// of the node with the most children.
fn places(m: &Model) -> Vec<usize> {
    let n = m.len();
    let wide = (0..n).max_by_key(|&x| m.n[x].kids.len()).unwrap_or(0);
    let k = &m.n[wide].kids;
    let mut v = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(3), n.saturating_sub(2), n - 1, wide];
    if !k.is_empty() {
        v.extend([k[0], k[k.len() / 2], k[k.len() - 1]]);
    }
    v.retain(|&x| x < n && m.n[x].alive);
    v.sort_unstable();
    v.dedup();
    v
}

/// The counting questions (each takes time linear in its answer), through every handle.
fn counts(w: &World, m: &Model) -> Res {
    for x in places(m) {
        let kids = &m.n[x].kids;
        let (before, after) = match m.n[x].parent {
            Some(p) => {
                let s = &m.n[p].kids;
                let i = s.iter().position(|&k| k == x).ok_or("harness")?;
                (i, s.len() - i - 1)
            }
            None => (0, 0),
        };
        let mut up = 0;
        let mut y = x;
        while let Some(p) = m.n[y].parent {
            up += 1;
            y = p;
        }
        let want = (kids.len(), kids.len(), kids.len() == 1, kids.len() > 1, !kids.is_empty(), before, after, up, before > 0, after > 0);
        macro_rules! ask {
            ($h:expr, $name:literal) => {{
                let h = $h;
                let got = (
                    h.num_children(),
                    h.count_children(),
                    h.has_one_child(),
                    h.has_multiple_children(),
                    h.has_children(),
                    h.count_preceding_siblings(),
                    h.count_following_siblings(),
                    h.count_ancestors(),
                    h.has_prev_sibling(),
                    h.has_next_sibling(),
                );
                if got != want {
                    return Err(format!(
                        "{} node {x}: (children twice, one, many, any, preceding, following siblings, ancestors, has prev, next) = {got:?}, expected {want:?}",
                        $name
                    ));
                }
            }};
        }
        let n = &w.keep[x];
        ask!(n, "plain");
        ask!(n.clone().bundle_new_hierarchy_edit_grant().map_err(|_| "cannot be granted")?, "hot");
        ask!(n.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "cannot be prohibited")?, "frozen");
    }
    Ok(())
}

/// All links and counts of all nodes of the world; nodes are recognized by the tag of their data.
pub fn nav(w: &World, m: &Model) -> Res {
    let mut index = vec![usize::MAX; w.reg.count()];
    for (i, &t) in w.tag.iter().enumerate() {
        index[t as usize] = i;
    }
    let ix = |n: Option<Node<D>>| n.map(|n| index[tag(&n) as usize]);
    for x in 0..m.len() {
        let kids = &m.n[x].kids;
        let n = &w.keep[x];
        let got = (ix(n.parent()), ix(n.first_child()), ix(n.last_child()), n.num_children(), n.has_children(), n.is_root());
        let want =
            (m.n[x].parent, kids.first().copied(), kids.last().copied(), kids.len(), !kids.is_empty(), m.n[x].parent.is_none());
        if got != want {
            return Err(format!(
                "node {x}: (parent, first child, last child, children, has children, is root) = {got:?}, expected {want:?}"
            ));
        }
        if n.borrow_data().val != m.n[x].val || tag(n) != w.tag[x] {
            return Err(format!("node {x}: wrong data"));
        }
        if n.has_one_child() != (kids.len() == 1) || n.has_multiple_children() != (kids.len() > 1) {
            return Err(format!("node {x}: has_one_child/has_multiple_children are wrong for {} children", kids.len()));
        }
        if m.n[x].parent.is_none() {
            let got = (ix(n.prev_sibling()), ix(n.next_sibling()), ix(Some(n.first_sibling())), ix(Some(n.last_sibling())));
            if got != (None, None, Some(x), Some(x)) {
                return Err(format!("root {x}: (prev, next, first sibling, last sibling) = {got:?}"));
            }
        }
        for (i, &k) in kids.iter().enumerate() {
            let n = &w.keep[k];
            let got =
                (ix(n.prev_sibling()), ix(n.next_sibling()), n.has_prev_sibling(), n.has_next_sibling(), ix(Some(n.first_sibling())), ix(Some(n.last_sibling())));
            let want = (
                i.checked_sub(1).map(|j| kids[j]),
                kids.get(i + 1).copied(),
                i > 0,
                i + 1 < kids.len(),
                Some(kids[0]),
                kids.last().copied(),
            );
            if got != want {
                return Err(format!("node {k}: (prev, next, has prev, has next, first, last) = {got:?}, expected {want:?}"));
            }
        }
    }
    counts(w, m)?;
    w.check_alive()
}

/// Membership of all nodes and the roots of all trees.
pub fn membership(w: &World, m: &Model) -> Res {
    let trees: Vec<_> = w.weak.iter().map(|t| t.as_ref().and_then(|t| t.upgrade())).collect();
    for x in m.alive() {
        for (t, tree) in trees.iter().enumerate() {
            if let Some(tree) = tree {
                if w.keep[x].belongs_to(tree) != (m.n[x].tree == t) {
                    return Err(format!("node {x}: belongs_to(t{t}) is wrong"));
                }
            }
        }
    }
    let some = places(m);
    for &x in &some {
        let n = &w.keep[x];
        let (t, r) = (m.n[x].tree, m.root(x));
        if !trees[t].as_ref().is_some_and(|tree| n.tree().ptr_eq(tree)) || !n.root().ptr_eq(&w.keep[r]) {
            return Err(format!("node {x}: tree() or root() is wrong"));
        }
        for &y in &some {
            let o = &w.keep[y];
            let same = m.n[y].tree == t;
            let e = |h: &str| format!("{h} nodes {x}, {y}: belongs_to_same_tree is not {same}");
            if n.belongs_to_same_tree(o) != same {
                return Err(e("plain"));
            }
            let (a, b) = (n.clone().bundle_new_hierarchy_edit_grant(), o.clone().bundle_new_hierarchy_edit_grant());
            let (a, b) = (a.map_err(|_| "cannot be granted")?, b.map_err(|_| "cannot be granted")?);
            if a.belongs_to_same_tree(&b) != same {
                return Err(e("hot"));
            }
            drop((a, b));
            let (a, b) = (n.clone().bundle_new_hierarchy_edit_prohibition(), o.clone().bundle_new_hierarchy_edit_prohibition());
            let (a, b) = (a.map_err(|_| "cannot be prohibited")?, b.map_err(|_| "cannot be prohibited")?);
            if a.belongs_to_same_tree(&b) != same {
                return Err(e("frozen"));
            }
        }
    }
    for (t, r) in m.roots.iter().enumerate() {
        match (r, &trees[t]) {
            (Some(r), Some(tree)) => {
                if !tree.root().ptr_eq(&w.keep[*r]) {
                    return Err(format!("root of tree t{t} is not {r}"));
                }
            }
            (None, None) => {}
            _ => return Err(format!("tree t{t} lives: {}, expected: {}", trees[t].is_some(), r.is_some())),
        }
    }
    Ok(())
}

/// A separate tree `got` has the shape and data of the subtree of `x`.
pub fn same<T>(got: &Node<T>, m: &Model, x: usize, val: impl Fn(&Node<T>) -> u32) -> Res {
    let mut st = vec![(got.clone(), x)];
    if !got.is_root() {
        return Err("not a root".into());
    }
    while let Some((n, y)) = st.pop() {
        let kids = &m.n[y].kids;
        if val(&n) != m.n[y].val || n.num_children() != kids.len() || n.has_children() == kids.is_empty() {
            return Err(format!("copy of {y}: data {}, {} children", val(&n), n.num_children()));
        }
        let mut prev: Option<Node<T>> = None;
        let mut c = n.first_child();
        for (i, &k) in kids.iter().enumerate() {
            let d = c.ok_or_else(|| format!("copy of {y}: {i} children of {}", kids.len()))?;
            if !d.parent().is_some_and(|p| p.ptr_eq(&n)) {
                return Err(format!("copy of {k}: wrong parent"));
            }
            let back = d.prev_sibling();
            if back.is_some() != prev.is_some() || prev.is_some_and(|p| !p.ptr_eq(&back.unwrap())) {
                return Err(format!("copy of {k}: wrong previous sibling"));
            }
            prev = Some(d.clone());
            c = d.next_sibling();
            st.push((d, k));
        }
        if c.is_some() {
            return Err(format!("copy of {y}: more than {} children", kids.len()));
        }
        let last = n.last_child();
        if last.is_some() != prev.is_some() || prev.is_some_and(|p| !p.ptr_eq(&last.unwrap())) {
            return Err(format!("copy of {y}: wrong last child"));
        }
    }
    Ok(())
}
