//! Handles and locks in numbers around 2^8 and 2^16.

use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};

use crate::data::{Reg, D};
use crate::sup::{catch, Cx, Fnv, Res, Run};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C05,
    C06,
    C07,
    C08,
}

/// Nodes: 0(1(2) 3) and 4(5).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Node(usize),
    Tree,
    Hot(usize),
    Frozen(usize),
    Grant,
    Prohibition,
}
impl K {
    fn grants(self) -> bool {
        matches!(self, K::Hot(_) | K::Grant)
    }
    fn prohibits(self) -> bool {
        matches!(self, K::Frozen(_) | K::Prohibition)
    }
    /// Tokens refer to their tree weakly.
    fn keeps(self) -> bool {
        !matches!(self, K::Grant | K::Prohibition)
    }
    /// The node whose tree it concerns now.
    fn at(self) -> usize {
        match self {
            K::Node(x) | K::Hot(x) | K::Frozen(x) => x,
            K::Tree | K::Grant | K::Prohibition => 0,
        }
    }
}

enum Held {
    N(#[allow(dead_code)] Node<D>),
    T(#[allow(dead_code)] Tree<D>),
    H(HotNode<D>),
    F(FrozenNode<D>),
    G(HierarchyEditGrant<D>),
    P(HierarchyEditProhibition<D>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Nothing,
    Detach,
    Move,
    MoveRoot,
    Replace,
}

struct Case {
    a: K,
    ka: usize,
    b: K,
    kb: usize,
    act: Act,
    fresh: bool,
    b_first: bool,
}

fn make(first: Option<&Held>, k: K, n: &NodeWeak<D>, fresh: bool) -> Result<Held, String> {
    if !fresh {
        match first {
            Some(Held::N(x)) => return Ok(Held::N(x.clone())),
            Some(Held::T(x)) => return Ok(Held::T(x.clone())),
            Some(Held::H(x)) => return Ok(Held::H(x.clone())),
            Some(Held::F(x)) => return Ok(Held::F(x.clone())),
            Some(Held::G(x)) => return Ok(Held::G(x.clone())),
            Some(Held::P(_)) | None => {}
        }
    }
    let n = n.upgrade().ok_or("a node with handles is gone")?;
    let e = |_| "a lock that must be acquirable is refused".to_string();
    Ok(match k {
        K::Node(_) => Held::N(n),
        K::Tree => Held::T(n.tree()),
        K::Hot(_) => Held::H(n.bundle_new_hierarchy_edit_grant().map_err(|x| e(format!("{x}")))?),
        K::Frozen(_) => Held::F(n.bundle_new_hierarchy_edit_prohibition().map_err(|x| e(format!("{x}")))?),
        K::Grant => Held::G(n.tree().grant_hierarchy_edit().map_err(|x| e(format!("{x}")))?),
        K::Prohibition => Held::P(n.tree().prohibit_hierarchy_edit().map_err(|x| e(format!("{x}")))?),
    })
}

fn run_case(c: &Case, p: Prop, run: &mut Run) -> Res {
    let reg = Reg::new();
    let mut keep: Vec<Node<D>> = vec![];
    for (i, par) in [None, Some(0), Some(1), Some(0), None, Some(4)].into_iter().enumerate() {
        let d = D::new(&reg, i as u32);
        let n = match par {
            None => Node::new_tree(d),
            Some(q) => {
                let g = keep[q as usize].tree().grant_hierarchy_edit().map_err(|_| "harness")?;
                keep[q as usize].create_as_last_child(&g, d)
            }
        };
        keep.push(n);
    }
    let weak: Vec<NodeWeak<D>> = keep.iter().map(|n| n.downgrade()).collect();
    let other = keep[4].clone();
    let mut trees: Vec<TreeWeak<D>> = vec![keep[0].tree().downgrade(), keep[4].tree().downgrade()];
    let mut tree_of = [0usize, 0, 0, 0, 1, 1];
    let mut held: [Vec<Held>; 2] = [vec![], vec![]];
    for (i, (k, n)) in [(c.a, c.ka), (c.b, c.kb)].into_iter().enumerate() {
        for _ in 0..n {
            let h = make(held[i].first(), k, &weak[k.at()], c.fresh)?;
            held[i].push(h);
        }
    }
    if c.a.keeps() || c.kb > 0 && c.b.keeps() {
        keep.clear();
    }
    // The edit.
    {
        let up = |x: usize| weak[x].upgrade().ok_or_else(|| format!("node {x} is gone while its tree has handles"));
        let a = up(1)?;
        let grant = |n: &Node<D>| n.tree().grant_hierarchy_edit().map_err(|_| "a grant is refused".to_string());
        match c.act {
            Act::Nothing => {}
            Act::Detach => {
                a.detach_subtree(&grant(&a)?);
                trees.push(a.tree().downgrade());
                tree_of[1] = 2;
                tree_of[2] = 2;
            }
            Act::Move => {
                a.try_detach_insert_subtree(&grant(&a)?, InsertAs::LastChildOf(&other.clone().bundle_hierarchy_edit_grant(&grant(&other)?)))
                    .map_err(|e| format!("moving is refused: {e}"))?;
                tree_of[1] = 1;
                tree_of[2] = 1;
            }
            Act::MoveRoot => {
                let r = up(0)?;
                r.try_detach_insert_subtree(&grant(&r)?, InsertAs::FirstChildOf(&other.clone().bundle_hierarchy_edit_grant(&grant(&other)?)))
                    .map_err(|e| format!("moving the root is refused: {e}"))?;
                tree_of = [1; 6];
            }
            Act::Replace => {
                a.try_replace_with_children(&grant(&a)?).map_err(|e| format!("replacing is refused: {e}"))?;
                trees.push(a.tree().downgrade());
                tree_of[1] = 2;
            }
        }
    }
    drop(keep);
    let mut left = [c.ka, c.kb];
    let order = if c.b_first { [1, 0] } else { [0, 1] };
    let ks = [c.a, c.b];
    let tree_at = |k: K| match k {
        K::Tree | K::Grant | K::Prohibition => 0,
        _ => tree_of[k.at()],
    };
    let look = |left: &[usize; 2]| -> Res {
        for (t, tw) in trees.iter().enumerate() {
            let has = |f: &dyn Fn(K) -> bool| (0..2).any(|i| left[i] > 0 && tree_at(ks[i]) == t && f(ks[i]));
            let lives = t == 1 || has(&K::keeps);
            let up = tw.upgrade();
            if lives && up.is_none() && p == Prop::C05 {
                return Err(format!("with {left:?} left: tree t{t} is gone although it has handles"));
            }
            let (grants, prohibits) = (has(&K::grants), has(&K::prohibits));
            let Some(tree) = up else { continue };
            if !lives {
                if p == Prop::C06 {
                    return Err(format!("with {left:?} left: tree t{t} is alive without any handle"));
                }
                continue;
            }
            if p == Prop::C07 || p == Prop::C08 {
                let grantable = tree.grant_hierarchy_edit().is_ok();
                let prohibitable = tree.prohibit_hierarchy_edit().is_ok();
                let got = (grantable, prohibitable);
                if got != (!prohibits, !grants) {
                    return Err(format!("with {left:?} left: t{t}: (grantable, prohibitable) = {got:?}, expected {:?}", (!prohibits, !grants)));
                }
            }
        }
        let want = (0..6)
            .filter(|&x| tree_of[x] == 1 || (0..2).any(|i| left[i] > 0 && ks[i].keeps() && tree_at(ks[i]) == tree_of[x]))
            .count();
        let live = reg.live.get();
        if p == Prop::C05 && live < want || p == Prop::C06 && live > want {
            return Err(format!("with {left:?} left: {live} values live, expected {want}"));
        }
        Ok(())
    };
    look(&left)?;
    for i in order {
        while left[i] > 0 {
            // Works right up to the last one.
            if matches!(p, Prop::C08) && left[i] <= 2 {
                if let Some(Held::H(h)) = held[i].last() {
                    let g = h.extract_hierarchy_edit_grant();
                    let n = h.plain();
                    let c = n.create_as_last_child(&g, D::new(&reg, 9));
                    drop(g);
                    let g = h.extract_hierarchy_edit_grant();
                    c.detach_subtree(&g);
                }
            }
            held[i].pop();
            left[i] -= 1;
            look(&left)?;
        }
    }
    drop(other);
    if p == Prop::C06 && reg.live.get() != 0 {
        return Err(format!("{} values live without any handle", reg.live.get()));
    }
    if let Some(e) = reg.error.borrow().clone() {
        return Err(e);
    }
    run.step((c.ka + c.kb) as u64);
    let mut h = Fnv::new();
    h.s(&format!("{:?} {:?} {:?} {:?} {}", c.a, c.b, c.act, tree_of, c.ka.min(70000)));
    run.state(h.get());
    Ok(())
}

pub fn explore(cx: &mut Cx, p: Prop) {
    let _ = AdoptAs::LastChild;
    let kinds = [K::Node(0), K::Node(2), K::Tree, K::Hot(1), K::Hot(2), K::Frozen(2), K::Grant, K::Prohibition];
    let counts: &[usize] = cx.pick(
        &[2, 127, 128, 129, 255, 256, 257, 65537],
        &[2, 127, 128, 129, 254, 255, 256, 257, 258, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538],
    );
    let acts: &[Act] = match p {
        Prop::C07 => &[Act::Nothing],
        Prop::C08 => &[Act::Detach, Act::Move, Act::MoveRoot, Act::Replace],
        _ => &[Act::Nothing, Act::Detach, Act::Move, Act::MoveRoot, Act::Replace],
    };
    for &ka in counts {
        for a in kinds {
            if !cx.task() {
                continue;
            }
            for (j, b) in kinds.into_iter().enumerate() {
                for kb in 0..=2 {
                    if kb == 0 && j > 0 || kb == 2 && (ka > 1000 || j % 2 == 0) {
                        continue;
                    }
                    let both = [a, if kb == 0 { a } else { b }];
                    let (g, q) = (both.iter().any(|k| k.grants()), both.iter().any(|k| k.prohibits()));
                    if g && q {
                        continue;
                    }
                    for &act in acts {
                        if q && act != Act::Nothing {
                            continue;
                        }
                        // Merging a tree needs it to have no other handles, and its tokens would go stale.
                        if act == Act::MoveRoot && both.iter().any(|k| matches!(k, K::Tree | K::Grant)) {
                            continue;
                        }
                        for fresh in [false, true] {
                            for b_first in [false, true] {
                                if b_first && (kb == 0 || ka > 1000 && fresh) {
                                    continue;
                                }
                                let c = Case { a, ka, b, kb, act, fresh, b_first };
                                cx.case(
                                    || {
                                        format!(
                                            "{ka} of {a:?}{}, {act:?}, {} and released {}",
                                            if kb > 0 { format!(" and {kb} of {b:?}") } else { String::new() },
                                            if fresh { "acquired one by one" } else { "cloned" },
                                            if b_first { "the few first" } else { "the many first" }
                                        )
                                    },
                                    |run| match catch(|| run_case(&c, p, run)) {
                                        Ok(r) => r,
                                        Err(e) => Err(format!("panicked: {e}")),
                                    },
                                );
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Numbers of equal locks per place, independent of each other.
const PLACES: [(K, usize); 7] = [
    (K::Grant, 0),
    (K::Hot(0), 0),
    (K::Hot(1), 0),
    (K::Hot(2), 0),
    (K::Hot(3), 0),
    (K::Grant, 1),
    (K::Hot(4), 1),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Edit {
    Detach(usize),
    /// The node and the place below which it goes.
    Move(usize, usize),
    Replace(usize),
    Create(usize),
    IntParent(usize),
    IntChild(usize),
    CloneIns(usize, usize),
}

fn run_counts(counts: &[usize; 7], e: Edit, by_hot: bool, backward: bool, run: &mut Run) -> Res {
    let reg = Reg::new();
    let mut keep: Vec<Node<D>> = vec![];
    for (i, par) in [None, Some(0), Some(1), Some(0), None, Some(4)].into_iter().enumerate() {
        let d = D::new(&reg, i as u32);
        let n = match par {
            None => Node::new_tree(d),
            Some(q) => {
                let g = keep[q as usize].tree().grant_hierarchy_edit().map_err(|_| "harness")?;
                keep[q as usize].create_as_last_child(&g, d)
            }
        };
        keep.push(n);
    }
    // The tree of each node, and of the tokens.
    let mut at = [0usize, 0, 0, 0, 1, 1];
    let mut held: Vec<(usize, Held)> = vec![];
    for (i, (k, t)) in PLACES.into_iter().enumerate() {
        for _ in 0..counts[i] {
            let n = if t == 1 && k == K::Grant { &keep[4] } else { &keep[k.at()] };
            let h = make(None, k, &n.downgrade(), true)?;
            held.push((i, h));
        }
    }
    let find = |x: usize, held: &[(usize, Held)]| {
        held.iter().find_map(|(i, h)| match h {
            Held::H(h) if PLACES[*i].0.at() == x => Some(h.clone()),
            _ => None,
        })
    };
    {
        let grant = |n: &Node<D>| n.tree().grant_hierarchy_edit().map_err(|_| "a grant is refused".to_string());
        let d = D::new(&reg, 9);
        let refused = |e| format!("refused: {e}");
        // `by_hot`: through a handle that is dropped together with the locks of the same place, so
        // nothing else is acquired for the edit.
        let x = match e {
            Edit::Detach(x) | Edit::Move(x, _) | Edit::Replace(x) | Edit::Create(x) | Edit::IntParent(x) => x,
            Edit::IntChild(x) | Edit::CloneIns(x, _) => x,
        };
        let n = keep[x].clone();
        if by_hot {
            let i = held.iter().position(|(i, h)| matches!(h, Held::H(_)) && PLACES[*i].0.at() == x).ok_or("harness: no hot handle")?;
            let Held::H(h) = &held[i].1 else { unreachable!() };
            match e {
                Edit::Detach(_) => h.detach_subtree(),
                Edit::Move(_, y) => {
                    let dest = find(y, &held).ok_or("harness: no hot handle")?;
                    h.try_detach_insert_subtree(InsertAs::FirstChildOf(&dest)).map_err(refused)?
                }
                Edit::Replace(_) => h.try_replace_with_children().map_err(refused)?,
                Edit::Create(_) => drop(h.create_as_last_child(d)),
                Edit::IntParent(_) => drop(h.create_as_interrupting_parent(d)),
                Edit::IntChild(_) => drop(h.create_as_interrupting_child(d)),
                Edit::CloneIns(_, y) => {
                    let dest = find(y, &held).ok_or("harness: no hot handle")?;
                    h.try_clone_insert_subtree(InsertAs::FirstChildOf(&dest)).map_err(refused).map(drop)?
                }
            }
        } else {
            let g = grant(&n)?;
            match e {
                Edit::Detach(_) => n.detach_subtree(&g),
                Edit::Move(_, y) => {
                    let dest = keep[y].clone().bundle_hierarchy_edit_grant(&grant(&keep[y])?);
                    n.try_detach_insert_subtree(&g, InsertAs::FirstChildOf(&dest)).map_err(refused)?
                }
                Edit::Replace(_) => n.try_replace_with_children(&g).map_err(refused)?,
                Edit::Create(_) => drop(n.create_as_last_child(&g, d)),
                Edit::IntParent(_) => drop(n.create_as_interrupting_parent(&g, d)),
                Edit::IntChild(_) => drop(n.create_as_interrupting_child(&g, d)),
                Edit::CloneIns(_, y) => {
                    let dest = keep[y].clone().bundle_hierarchy_edit_grant(&grant(&keep[y])?);
                    n.try_clone_insert_subtree(InsertAs::FirstChildOf(&dest)).map_err(refused).map(drop)?
                }
            }
        }
    }
    let below: &[usize] = match e {
        Edit::Detach(x) | Edit::Move(x, _) => [&[0, 1, 2, 3][..], &[1, 2], &[2], &[3], &[4, 5]][x],
        Edit::Replace(x) => [&[0][..], &[1], &[2], &[3], &[4]][x],
        _ => &[],
    };
    for &b in below {
        at[b] = match e {
            Edit::Detach(0) => 0,
            Edit::Detach(4) => 1,
            Edit::Move(_, y) => usize::from(y >= 4),
            Edit::Detach(_) => 2,
            // A root with one child.
            _ => 2,
        };
    }
    let tree_at = |i: usize| match PLACES[i] {
        (K::Grant, t) => t,
        (k, _) => at[k.at()],
    };
    let look = |held: &[(usize, Held)]| -> Res {
        for x in 0..6 {
            let granted = held.iter().any(|(i, _)| tree_at(*i) == at[x]);
            let t = keep[x].tree();
            let grantable = t.grant_hierarchy_edit().is_ok();
            let got = (grantable, t.prohibit_hierarchy_edit().is_ok());
            if got != (true, !granted) {
                let left = held.iter().map(|(i, _)| PLACES[*i]).collect::<Vec<_>>();
                return Err(format!("with {left:?} held: tree of {x}: (grantable, prohibitable) = {got:?}, expected {:?}", (true, !granted)));
            }
        }
        Ok(())
    };
    look(&held)?;
    // Every handle still authorizes edits of its node's tree.
    for (_, h) in &held {
        if let Held::H(h) = h {
            h.create_as_last_child(D::new(&reg, 8)).detach_subtree();
        }
    }
    look(&held).map_err(|e| format!("after further edits: {e}"))?;
    while !held.is_empty() {
        let h = if backward { held.pop() } else { Some(held.remove(0)) };
        drop(h);
        look(&held)?;
    }
    run.step(counts.iter().sum::<usize>() as u64 + 1);
    let mut h = Fnv::new();
    h.s(&format!("{counts:?} {e:?}"));
    run.state(h.get());
    Ok(())
}

/// C08: every number of locks up to `max` in every place, independently, across every edit.
pub fn explore_counts(cx: &mut Cx) {
    let max = cx.pick(2usize, 3);
    let edits = [
        Edit::Detach(0),
        Edit::Detach(1),
        Edit::Detach(2),
        Edit::Move(1, 4),
        Edit::Move(2, 4),
        Edit::Move(2, 0),
        Edit::Move(3, 1),
        Edit::Move(0, 4),
        Edit::Move(4, 3),
        Edit::Replace(1),
        Edit::Replace(2),
        Edit::Replace(4),
        Edit::Create(1),
        Edit::IntParent(0),
        Edit::IntParent(1),
        Edit::IntChild(1),
        Edit::CloneIns(1, 4),
    ];
    let b = max + 1;
    for code in 0..b.pow(7) {
        let mut c = [0usize; 7];
        let mut r = code;
        for p in &mut c {
            *p = r % b;
            r /= b;
        }
        if !cx.task() {
            continue;
        }
        for e in edits {
            // The tokens of a tree that is merged into another go stale.
            if matches!(e, Edit::Move(0, _)) && c[0] > 0 || matches!(e, Edit::Move(4, _)) && c[5] > 0 {
                continue;
            }
            let hot_at = |x: usize| c[[1, 2, 3, 4, 6][x]] > 0;
            let can_hot = match e {
                Edit::Move(x, y) | Edit::CloneIns(x, y) => hot_at(x) && hot_at(y),
                Edit::Detach(x) | Edit::Replace(x) | Edit::Create(x) | Edit::IntParent(x) | Edit::IntChild(x) => hot_at(x),
            };
            for by_hot in [false, true] {
                if by_hot && !can_hot {
                    continue;
                }
                for backward in [false, true] {
                    cx.case(
                        || {
                            let v: Vec<_> = PLACES.iter().zip(c).map(|((k, t), n)| format!("{n} of {k:?} in t{t}")).collect();
                            format!(
                                "{}, {e:?}{}, released {}",
                                v.join(", "),
                                if by_hot { " by hot handles" } else { "" },
                                if backward { "backward" } else { "forward" }
                            )
                        },
                        |run| match catch(|| run_counts(&c, e, by_hot, backward, run)) {
                            Ok(r) => r,
                            Err(e) => Err(format!("panicked: {e}")),
                        },
                    );
                }
            }
        }
    }
}
