//! C05, C06, C21: lifetimes of trees under histories of handle operations and edits.

use std::rc::Rc;

use dendron::serial::TreeSerializeIter;
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, NonAllocatingBreadthFirstTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableSiblingsTraverser,
};
use dendron::{FrozenNode, HotNode, Node, NodeWeak, Tree, TreeWeak};

use mc::data::{Reg, D};
use mc::model::{As, Exp, Model, AS};
use mc::ops::{adopt, err, insert};
use mc::shape;
use mc::sup::{self, Check, Cx, Res, Run};
use mc::world::build_tree;

#[path = "../life_dtor.rs"]
pub mod dtor;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C05,
    C06,
    C21,
}

/// Model of a held handle.
#[derive(Clone, Debug, PartialEq, Eq)]
enum H {
    Node(usize),
    Hot(usize),
    Frozen(usize),
    Tree(usize),
    /// An iterator over nodes; it may refer to any of these. `frozen`: it may hold prohibitions.
    It { may: Vec<usize>, frozen: bool },
}

enum ItR {
    Sib(SiblingsTraverser<D>),
    Anc(AncestorsTraverser<D>),
    Dft(DepthFirstTraverser<D>),
    Ser(TreeSerializeIter<D>),
    SSib(StableSiblingsTraverser<D>),
    SDft(StableDepthFirstTraverser<D>),
    Bfs(AllocatingBreadthFirstTraverser<D>),
    Nbfs(NonAllocatingBreadthFirstTraverser<D>),
}

enum R {
    Node(Node<D>),
    Hot(HotNode<D>),
    Frozen(FrozenNode<D>),
    Tree(Tree<D>),
    It(ItR),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Nav {
    Parent,
    First,
    Last,
    Next,
    Prev,
    Root,
    FirstSib,
    LastSib,
}
const NAV: [Nav; 8] = [
    Nav::Parent,
    Nav::First,
    Nav::Last,
    Nav::Next,
    Nav::Prev,
    Nav::Root,
    Nav::FirstSib,
    Nav::LastSib,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum It {
    Children,
    Ancestors,
    DepthFirst,
    Events,
    ChildrenStable,
    DepthFirstStable,
    Breadth,
    BreadthNonAlloc,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum O {
    Drop(usize),
    Clone(usize),
    CloneFrom(usize, usize),
    ToHot(usize),
    ToFrozen(usize),
    IntoPlain(usize),
    Plain(usize),
    Go(usize, Nav),
    TreeOf(usize),
    RootOf(usize),
    Iter(usize, It),
    Next(usize),
    Detach(usize),
    Replace(usize),
    IntP(usize, bool),
    IntC(usize, bool),
    Create(usize, As, bool),
    Move(usize, As, usize),
    CloneSub(usize, bool),
    CloneIns(usize, As, usize, bool),
}

#[derive(Clone)]
struct L {
    m: Model,
    hs: Vec<H>,
}

impl L {
    fn node_of(&self, i: usize) -> Option<usize> {
        match self.hs[i] {
            H::Node(x) | H::Hot(x) | H::Frozen(x) => Some(x),
            _ => None,
        }
    }
    fn frozen_tree(&self, t: usize) -> bool {
        self.hs.iter().any(|h| match h {
            H::Frozen(x) => self.m.n[*x].tree == t,
            H::It { may, frozen: true } => may.iter().any(|x| self.m.n[*x].tree == t),
            _ => false,
        })
    }
    fn hot_tree(&self, t: usize) -> bool {
        self.hs.iter().any(|h| matches!(h, H::Hot(x) if self.m.n[*x].tree == t))
    }
    fn tree_held(&self, t: usize) -> bool {
        self.hs.iter().any(|h| matches!(h, H::Tree(u) if *u == t))
    }
    fn widen(&mut self) {
        for i in 0..self.hs.len() {
            if let H::It { may, .. } = &self.hs[i] {
                let trees: Vec<usize> = may.iter().map(|&x| self.m.n[x].tree).collect();
                let all: Vec<usize> = (0..self.m.len()).filter(|&x| trees.contains(&self.m.n[x].tree)).collect();
                if let H::It { may, .. } = &mut self.hs[i] {
                    *may = all;
                }
            }
        }
    }

    fn ops(&self) -> Vec<O> {
        let mut v = vec![];
        let n = self.hs.len();
        let room = n < 5;
        for i in 0..n {
            v.push(O::Drop(i));
            match &self.hs[i] {
                H::Node(x) => {
                    let t = self.m.n[*x].tree;
                    if !self.frozen_tree(t) {
                        v.push(O::ToHot(i));
                    }
                    if !self.hot_tree(t) {
                        v.push(O::ToFrozen(i));
                    }
                }
                H::Hot(_) | H::Frozen(_) => {
                    v.push(O::IntoPlain(i));
                    if room {
                        v.push(O::Plain(i));
                    }
                }
                H::Tree(_) => {
                    if room {
                        v.push(O::RootOf(i));
                    }
                }
                H::It { .. } => v.push(O::Next(i)),
            }
            if !matches!(self.hs[i], H::It { .. }) && room {
                v.push(O::Clone(i));
            }
            for j in 0..n {
                let same = match (&self.hs[i], &self.hs[j]) {
                    (H::It { .. }, _) => false,
                    (a, b) => std::mem::discriminant(a) == std::mem::discriminant(b),
                };
                if i != j && same {
                    v.push(O::CloneFrom(i, j));
                }
            }
            let Some(x) = self.node_of(i) else { continue };
            if room {
                for nav in NAV {
                    if self.target(x, nav).is_some() {
                        v.push(O::Go(i, nav));
                    }
                }
                v.push(O::TreeOf(i));
                let kinds: &[It] = match self.hs[i] {
                    H::Frozen(_) => &[It::ChildrenStable, It::DepthFirstStable, It::Breadth, It::BreadthNonAlloc],
                    _ => &[It::Children, It::Ancestors, It::DepthFirst, It::Events],
                };
                for &k in kinds {
                    v.push(O::Iter(i, k));
                }
            }
            let t = self.m.n[x].tree;
            for keep in [false, true] {
                if room || !keep {
                    v.push(O::CloneSub(i, keep));
                }
            }
            if matches!(self.hs[i], H::Frozen(_)) || self.frozen_tree(t) {
                continue;
            }
            v.push(O::Detach(i));
            v.push(O::Replace(i));
            for keep in [false, true] {
                if keep && !room {
                    continue;
                }
                v.push(O::IntP(i, keep));
                v.push(O::IntC(i, keep));
                for a in AS {
                    v.push(O::Create(i, a, keep));
                }
            }
            for j in 0..n {
                let Some(y) = self.node_of(j) else { continue };
                if matches!(self.hs[j], H::Frozen(_)) || self.frozen_tree(self.m.n[y].tree) {
                    continue;
                }
                for a in AS {
                    v.push(O::Move(i, a, j));
                }
                for a in [As::First, As::Next] {
                    for keep in [false, true] {
                        if room || !keep {
                            v.push(O::CloneIns(i, a, j, keep));
                        }
                    }
                }
            }
        }
        v
    }

    fn target(&self, x: usize, nav: Nav) -> Option<usize> {
        match nav {
            Nav::Parent => self.m.parent(x),
            Nav::First => self.m.n[x].kids.first().copied(),
            Nav::Last => self.m.n[x].kids.last().copied(),
            Nav::Next => self.m.next(x),
            Nav::Prev => self.m.prev(x),
            Nav::Root => Some(self.m.root(x)),
            Nav::FirstSib => Some(self.m.sibs(x).first().copied().unwrap_or(x)),
            Nav::LastSib => Some(self.m.sibs(x).last().copied().unwrap_or(x)),
        }
    }

    fn flav(&self, i: usize, x: usize) -> H {
        match self.hs[i] {
            H::Hot(_) => H::Hot(x),
            H::Frozen(_) => H::Frozen(x),
            _ => H::Node(x),
        }
    }

    /// Applies the operation to the model. Returns whether the real call must succeed
    /// (`None`: nothing changes whatever is reported) and the new nodes.
    fn apply(&mut self, o: O) -> (Option<bool>, Vec<usize>) {
        let mut new = vec![];
        let mut ok = Some(true);
        let val = 100 + self.m.len() as u32;
        match o {
            O::Drop(i) => {
                self.hs.remove(i);
            }
            O::Clone(i) => self.hs.push(self.hs[i].clone()),
            O::CloneFrom(i, j) => self.hs[i] = self.hs[j].clone(),
            O::ToHot(i) => self.hs[i] = H::Hot(self.node_of(i).unwrap()),
            O::ToFrozen(i) => self.hs[i] = H::Frozen(self.node_of(i).unwrap()),
            O::IntoPlain(i) => self.hs[i] = H::Node(self.node_of(i).unwrap()),
            O::Plain(i) => self.hs.push(H::Node(self.node_of(i).unwrap())),
            O::Go(i, nav) => {
                let y = self.target(self.node_of(i).unwrap(), nav).unwrap();
                self.hs.push(self.flav(i, y));
            }
            O::TreeOf(i) => self.hs.push(H::Tree(self.m.n[self.node_of(i).unwrap()].tree)),
            O::RootOf(i) => {
                let H::Tree(t) = self.hs[i] else { unreachable!() };
                self.hs.push(H::Node(self.m.roots[t].unwrap()));
            }
            O::Iter(i, k) => {
                let x = self.node_of(i).unwrap();
                let frozen = matches!(k, It::ChildrenStable | It::DepthFirstStable | It::Breadth | It::BreadthNonAlloc);
                self.hs.push(H::It { may: vec![x], frozen });
            }
            O::Next(_) => {}
            O::Detach(i) => self.m.detach(self.node_of(i).unwrap()),
            O::Replace(i) => ok = Some(self.m.replace(self.node_of(i).unwrap()) == Exp::Ok),
            O::IntP(i, keep) => {
                let y = self.m.int_parent(self.node_of(i).unwrap(), val);
                new.push(y);
                if keep {
                    self.hs.push(self.flav(i, y));
                }
            }
            O::IntC(i, keep) => {
                let y = self.m.int_child(self.node_of(i).unwrap(), val);
                new.push(y);
                if keep {
                    self.hs.push(self.flav(i, y));
                }
            }
            O::Create(i, a, keep) => match self.m.create(self.node_of(i).unwrap(), a, val) {
                Ok(y) => {
                    new.push(y);
                    if keep {
                        self.hs.push(self.flav(i, y));
                    }
                }
                Err(_) => ok = Some(false),
            },
            O::Move(i, a, j) => {
                let (x, y) = (self.node_of(i).unwrap(), self.node_of(j).unwrap());
                let held = self.tree_held(self.m.n[x].tree);
                ok = match self.m.mv(x, a, y, held) {
                    Exp::Ok => Some(true),
                    Exp::Err(_) => Some(false),
                    Exp::NoChange => None,
                };
            }
            O::CloneSub(i, keep) => {
                new = self.m.clone_sub(self.node_of(i).unwrap());
                if keep {
                    self.hs.push(H::Node(new[0]));
                }
            }
            O::CloneIns(i, a, j, keep) => {
                match self.m.clone_ins(self.node_of(i).unwrap(), a, self.node_of(j).unwrap(), false) {
                    Ok(v) => {
                        new = v;
                        if keep {
                            self.hs.push(H::Hot(new[0]));
                        }
                    }
                    Err(_) => ok = Some(false),
                }
            }
        }
        self.widen();
        (ok, new)
    }

    /// Trees that must exist because of a node or tree handle.
    fn must_trees(&self) -> Vec<usize> {
        let mut v = vec![];
        for h in &self.hs {
            match h {
                H::Node(x) | H::Hot(x) | H::Frozen(x) => v.push(self.m.n[*x].tree),
                H::Tree(t) => v.push(*t),
                H::It { .. } => {}
            }
        }
        v
    }
    fn may_trees(&self) -> Vec<usize> {
        let mut v = self.must_trees();
        for h in &self.hs {
            if let H::It { may, .. } = h {
                v.extend(may.iter().map(|x| self.m.n[*x].tree));
            }
        }
        v
    }
    fn show(&self) -> String {
        format!(
            "{} handles [{}]",
            self.m.show(),
            self.hs
                .iter()
                .map(|h| match h {
                    H::Node(x) => format!("node {x}"),
                    H::Hot(x) => format!("hot {x}"),
                    H::Frozen(x) => format!("frozen {x}"),
                    H::Tree(t) => format!("tree t{t}"),
                    H::It { .. } => "iterator".into(),
                })
                .collect::<Vec<_>>()
                .join(", ")
        )
    }
    fn hash(&self) -> u64 {
        let mut h = sup::Fnv::new();
        h.u(self.m.hash()).s(&format!("{:?}", self.hs));
        h.get()
    }
}

struct LW {
    reg: Rc<Reg>,
    /// Data instance of each model node (new nodes are identified when they are created).
    tag: Vec<u32>,
    hr: Vec<R>,
    wn: Vec<NodeWeak<D>>,
    wt: Vec<TreeWeak<D>>,
}

fn plain_of(r: &R) -> Option<Node<D>> {
    match r {
        R::Node(n) => Some(n.clone()),
        R::Hot(n) => Some(n.plain()),
        R::Frozen(n) => Some(n.plain()),
        _ => None,
    }
}

macro_rules! go {
    ($h:expr, $nav:expr) => {
        match $nav {
            Nav::Parent => $h.parent(),
            Nav::First => $h.first_child(),
            Nav::Last => $h.last_child(),
            Nav::Next => $h.next_sibling(),
            Nav::Prev => $h.prev_sibling(),
            Nav::Root => Some($h.root()),
            Nav::FirstSib => Some($h.first_sibling()),
            Nav::LastSib => Some($h.last_sibling()),
        }
    };
}

impl LW {
    /// Builds the initial world holding exactly the given handles.
    fn build(l: &L, weak: bool) -> LW {
        let reg = Reg::new();
        let m = &l.m;
        let mut out: Vec<Option<Node<D>>> = (0..m.len()).map(|_| None).collect();
        for r in m.roots.iter().flatten() {
            build_tree(&reg, m, *r, &mut out);
        }
        let keep: Vec<Node<D>> = out.into_iter().map(|n| n.unwrap()).collect();
        let mut w = LW {
            tag: keep.iter().map(|k| k.borrow_data().tag).collect(),
            reg,
            hr: vec![],
            wn: vec![],
            wt: vec![],
        };
        if weak {
            w.wn = keep.iter().map(|k| k.downgrade()).collect();
            w.wt = m.roots.iter().map(|r| keep[r.unwrap()].tree().downgrade()).collect();
        }
        for h in &l.hs {
            w.hr.push(match h {
                H::Node(x) => R::Node(keep[*x].clone()),
                H::Tree(t) => R::Tree(keep[m.roots[*t].unwrap()].tree()),
                _ => unreachable!(),
            });
        }
        w
    }

    /// Executes `o`; `lm` is the model after the operation.
    fn exec(&mut self, o: O, ok: Option<bool>, new: &[usize], lm: &L) -> Res {
        let reg = self.reg.clone();
        let val = new.first().map_or(0, |&y| lm.m.n[y].val);
        let data = || D::new(&reg, val);
        let mut made: Option<R> = None;
        let mut keep_made = false;
        let mut res: Option<Result<(), mc::model::E>> = None;
        match o {
            O::Drop(i) => {
                self.hr.remove(i);
            }
            O::Clone(i) => {
                let c = match &self.hr[i] {
                    R::Node(n) => R::Node(n.clone()),
                    R::Hot(n) => R::Hot(n.clone()),
                    R::Frozen(n) => R::Frozen(n.clone()),
                    R::Tree(t) => R::Tree(t.clone()),
                    R::It(_) => unreachable!(),
                };
                self.hr.push(c);
            }
            O::CloneFrom(i, j) => {
                let mut to = self.hr.remove(i);
                match (&mut to, &self.hr[if j > i { j - 1 } else { j }]) {
                    (R::Node(a), R::Node(b)) => a.clone_from(b),
                    (R::Hot(a), R::Hot(b)) => a.clone_from(b),
                    (R::Frozen(a), R::Frozen(b)) => a.clone_from(b),
                    (R::Tree(a), R::Tree(b)) => a.clone_from(b),
                    _ => unreachable!(),
                }
                self.hr.insert(i, to);
            }
            O::ToHot(i) | O::ToFrozen(i) | O::IntoPlain(i) => {
                let old = self.hr.remove(i);
                let n = match (o, old) {
                    (O::ToHot(_), R::Node(n)) => R::Hot(n.bundle_new_hierarchy_edit_grant().map_err(|_| "grant refused on a tree without prohibitions")?),
                    (O::ToFrozen(_), R::Node(n)) => R::Frozen(n.bundle_new_hierarchy_edit_prohibition().map_err(|_| "prohibition refused on a tree without grants")?),
                    (_, R::Hot(n)) => R::Node(n.into()),
                    (_, R::Frozen(n)) => R::Node(n.into()),
                    _ => unreachable!(),
                };
                self.hr.insert(i, n);
            }
            O::Plain(i) => {
                let n = plain_of(&self.hr[i]).unwrap();
                self.hr.push(R::Node(n));
            }
            O::Go(i, nav) => {
                let r = match &self.hr[i] {
                    R::Node(h) => go!(h, nav).map(R::Node),
                    R::Hot(h) => go!(h, nav).map(R::Hot),
                    R::Frozen(h) => go!(h, nav).map(R::Frozen),
                    _ => unreachable!(),
                };
                self.hr.push(r.ok_or_else(|| format!("{nav:?} of handle {i} is None"))?);
            }
            O::TreeOf(i) => {
                let t = match &self.hr[i] {
                    R::Node(h) => h.tree(),
                    R::Hot(h) => h.tree(),
                    R::Frozen(h) => h.tree(),
                    _ => unreachable!(),
                };
                self.hr.push(R::Tree(t));
            }
            O::RootOf(i) => {
                let R::Tree(t) = &self.hr[i] else { unreachable!() };
                let r = t.root();
                self.hr.push(R::Node(r));
            }
            O::Iter(i, k) => {
                let it = match (&self.hr[i], k) {
                    (R::Node(h), It::Children) => ItR::Sib(h.children()),
                    (R::Node(h), It::Ancestors) => ItR::Anc(h.ancestors_or_self()),
                    (R::Node(h), It::DepthFirst) => ItR::Dft(h.depth_first_traverse()),
                    (R::Node(h), It::Events) => ItR::Ser(h.to_events()),
                    (R::Hot(h), It::Children) => ItR::Sib(h.children()),
                    (R::Hot(h), It::Ancestors) => ItR::Anc(h.ancestors_or_self()),
                    (R::Hot(h), It::DepthFirst) => ItR::Dft(h.depth_first_traverse()),
                    (R::Hot(h), It::Events) => ItR::Ser(h.to_events()),
                    (R::Frozen(h), It::ChildrenStable) => ItR::SSib(h.children_stable()),
                    (R::Frozen(h), It::DepthFirstStable) => ItR::SDft(h.depth_first_traverse_stable()),
                    (R::Frozen(h), It::Breadth) => ItR::Bfs(h.allocating_breadth_first_traverse_stable(0)),
                    (R::Frozen(h), It::BreadthNonAlloc) => ItR::Nbfs(h.non_allocating_breadth_first_traverse_stable(0)),
                    _ => unreachable!(),
                };
                self.hr.push(R::It(it));
            }
            O::Next(i) => {
                let R::It(it) = &mut self.hr[i] else { unreachable!() };
                match it {
                    ItR::Sib(i) => drop(i.next()),
                    ItR::Anc(i) => drop(i.next()),
                    ItR::Dft(i) => drop(i.next()),
                    ItR::Ser(i) => drop(i.next()),
                    ItR::SSib(i) => drop(i.next()),
                    ItR::SDft(i) => drop(i.next_back()),
                    ItR::Bfs(i) => drop(i.next()),
                    ItR::Nbfs(i) => drop(i.next()),
                }
            }
            O::Detach(i) => match &self.hr[i] {
                R::Node(h) => {
                    let g = h.tree().grant_hierarchy_edit().map_err(|_| "grant refused")?;
                    h.detach_subtree(&g);
                }
                R::Hot(h) => h.detach_subtree(),
                _ => unreachable!(),
            },
            O::Replace(i) => {
                let r = match &self.hr[i] {
                    R::Node(h) => {
                        let g = h.tree().grant_hierarchy_edit().map_err(|_| "grant refused")?;
                        h.try_replace_with_children(&g)
                    }
                    R::Hot(h) => h.try_replace_with_children(),
                    _ => unreachable!(),
                };
                res = Some(r.map_err(err));
            }
            O::IntP(i, k) | O::IntC(i, k) => {
                keep_made = k;
                let p = matches!(o, O::IntP(..));
                made = Some(match &self.hr[i] {
                    R::Node(h) => {
                        let g = h.tree().grant_hierarchy_edit().map_err(|_| "grant refused")?;
                        R::Node(if p {
                            h.create_as_interrupting_parent(&g, data())
                        } else {
                            h.create_as_interrupting_child(&g, data())
                        })
                    }
                    R::Hot(h) => R::Hot(if p {
                        h.create_as_interrupting_parent(data())
                    } else {
                        h.create_as_interrupting_child(data())
                    }),
                    _ => unreachable!(),
                });
            }
            O::Create(i, a, k) => {
                keep_made = k;
                match &self.hr[i] {
                    R::Node(h) => {
                        let g = h.tree().grant_hierarchy_edit().map_err(|_| "grant refused")?;
                        match h.try_create_node_as(&g, data(), adopt(a)) {
                            Ok(n) => made = Some(R::Node(n)),
                            Err(e) => res = Some(Err(err(e))),
                        }
                    }
                    R::Hot(h) => match h.try_create_node_as(data(), adopt(a)) {
                        Ok(n) => made = Some(R::Hot(n)),
                        Err(e) => res = Some(Err(err(e))),
                    },
                    _ => unreachable!(),
                }
            }
            O::Move(i, a, j) => {
                let dest = plain_of(&self.hr[j]).unwrap().bundle_new_hierarchy_edit_grant().map_err(|_| "grant refused")?;
                let r = match &self.hr[i] {
                    R::Node(h) => {
                        let g = h.tree().grant_hierarchy_edit().map_err(|_| "grant refused")?;
                        h.try_detach_insert_subtree(&g, insert(a, &dest))
                    }
                    R::Hot(h) => h.try_detach_insert_subtree(insert(a, &dest)),
                    _ => unreachable!(),
                };
                res = Some(r.map_err(err));
            }
            O::CloneSub(i, k) => {
                keep_made = k;
                made = Some(R::Node(match &self.hr[i] {
                    R::Node(h) => h.clone_subtree(),
                    R::Hot(h) => h.clone_subtree(),
                    R::Frozen(h) => h.clone_subtree(),
                    _ => unreachable!(),
                }));
            }
            O::CloneIns(i, a, j, k) => {
                keep_made = k;
                let dest = plain_of(&self.hr[j]).unwrap().bundle_new_hierarchy_edit_grant().map_err(|_| "grant refused")?;
                let r = match &self.hr[i] {
                    R::Node(h) => h.try_clone_insert_subtree(insert(a, &dest)),
                    R::Hot(h) => h.try_clone_insert_subtree(insert(a, &dest)),
                    _ => unreachable!(),
                };
                match r {
                    Ok(n) => made = Some(R::Hot(n)),
                    Err(e) => res = Some(Err(err(e))),
                }
            }
        }
        if let (Some(ok), Some(r)) = (ok, &res) {
            if r.is_ok() != ok {
                return Err(format!("{o:?}: result {r:?}, expected success: {ok}"));
            }
        }
        if let Some(made) = made {
            if ok != Some(true) {
                return Err(format!("{o:?} succeeded but must be rejected"));
            }
            // Identify the new nodes by walking the new part in preorder next to the model.
            let root = plain_of(&made).unwrap();
            let mut st = vec![(new[0], root)];
            let mut found: Vec<(usize, u32, NodeWeak<D>)> = vec![];
            while let Some((y, n)) = st.pop() {
                found.push((y, n.borrow_data().tag, n.downgrade()));
                let mut c = n.first_child();
                for &k in &lm.m.n[y].kids {
                    let Some(ck) = c else { return Err(format!("{o:?}: new node {y} lacks child {k}")) };
                    c = ck.next_sibling();
                    if new.contains(&k) {
                        st.push((k, ck));
                    }
                }
            }
            found.sort_by_key(|f| f.0);
            for (y, tag, wk) in found {
                if y != self.tag.len() {
                    return Err("harness: binding".into());
                }
                self.tag.push(tag);
                if !self.wt.is_empty() {
                    self.wn.push(wk);
                }
            }
            if !self.wt.is_empty() {
                let t = lm.m.n[new[0]].tree;
                if t >= self.wt.len() {
                    self.wt.push(plain_of(&made).unwrap().tree().downgrade());
                }
            }
            if keep_made {
                self.hr.push(made);
            }
        }
        // Identities of trees made by detaching.
        if !self.wt.is_empty() {
            while self.wt.len() < lm.m.roots.len() {
                let t = self.wt.len();
                // A handle into the new tree exists: the operand itself.
                let i = lm
                    .hs
                    .iter()
                    .position(|h| match h {
                        H::Node(x) | H::Hot(x) | H::Frozen(x) => lm.m.n[*x].tree == t,
                        _ => false,
                    })
                    .ok_or("harness: new tree without handle")?;
                self.wt.push(plain_of(&self.hr[i]).unwrap().tree().downgrade());
            }
        }
        Ok(())
    }

    /// Compares liveness with the model and reachability from every handle.
    fn check(&self, p: Prop, l: &L) -> Res {
        let mut must = l.must_trees();
        // Positions of plain iterators pin their trees too.
        for r in &self.hr {
            if let R::It(it) = r {
                let pos = match it {
                    ItR::Sib(i) => i.peek().cloned(),
                    ItR::Anc(i) => i.peek().cloned(),
                    ItR::Dft(i) => i.peek().map(|e| e.as_value().clone()),
                    ItR::SSib(i) => i.peek().map(|n| n.plain()),
                    ItR::SDft(i) => i.peek().map(|e| e.as_value().plain()),
                    ItR::Bfs(i) => i.peek().map(|(n, _)| n.plain()),
                    ItR::Ser(_) | ItR::Nbfs(_) => None,
                };
                if let Some(n) = pos {
                    let x = self.model_node(&n)?;
                    must.push(l.m.n[x].tree);
                    self.walk(l, x, &n)?;
                }
            }
        }
        let may = l.may_trees();
        for x in 0..l.m.len() {
            let t = l.m.n[x].tree;
            let live = self.reg.is_live(self.tag[x]);
            if must.contains(&t) && !live && p != Prop::C06 {
                return Err(format!("node {x} of tree t{t} was released although the tree is referenced"));
            }
            if !may.contains(&t) && live && p != Prop::C05 {
                return Err(format!("node {x} of tree t{t} is still alive although nothing refers to the tree"));
            }
            if p == Prop::C21 {
                // Exactly the live nodes can be upgraded.
                let up = self.wn[x].upgrade();
                if up.is_some() != live {
                    return Err(format!("weak reference to node {x} upgrades: {}, node alive: {live}", up.is_some()));
                }
                if let Some(n) = up {
                    if n.borrow_data().tag != self.tag[x] {
                        return Err(format!("weak reference to node {x} upgrades to another node"));
                    }
                    let c = self.wn[x].clone().upgrade().ok_or("clone of a weak reference does not upgrade")?;
                    if !c.ptr_eq(&n) || !n.downgrade().upgrade().map_or(false, |d| d.ptr_eq(&n)) {
                        return Err(format!("weak references to node {x} disagree"));
                    }
                    self.walk(l, x, &n)?;
                }
            }
        }
        if p == Prop::C21 {
            for t in 0..self.wt.len() {
                let up = self.wt[t].upgrade();
                let exists = l.m.roots[t].is_some();
                if (must.contains(&t) && up.is_none()) || ((!may.contains(&t) || !exists) && up.is_some()) {
                    return Err(format!("weak reference to tree t{t} upgrades: {}", up.is_some()));
                }
                if let Some(tree) = up {
                    let r = tree.root();
                    if self.model_node(&r)? != l.m.roots[t].unwrap() {
                        return Err(format!("weak reference to tree t{t} upgrades to another tree"));
                    }
                }
            }
        }
        if p != Prop::C05 {
            // No data value outside the model exists, none was released twice.
            let model_live = (0..l.m.len()).filter(|&x| self.reg.is_live(self.tag[x])).count();
            if self.reg.live.get() != model_live {
                return Err(format!("{} data values are alive besides those of the nodes", self.reg.live.get() - model_live));
            }
        }
        if let Some(e) = self.reg.error.borrow().clone() {
            return Err(e);
        }
        // Everything is reachable from every handle.
        for (i, h) in l.hs.iter().enumerate() {
            match (h, &self.hr[i]) {
                (H::Node(x) | H::Hot(x) | H::Frozen(x), r) => {
                    let n = plain_of(r).unwrap();
                    if self.model_node(&n)? != *x {
                        return Err(format!("handle {i} refers to another node than {x}"));
                    }
                    self.walk(l, *x, &n)?;
                }
                (H::Tree(t), R::Tree(tree)) => {
                    let x = l.m.roots[*t].ok_or("harness: held tree without root")?;
                    self.walk(l, x, &tree.root())?;
                }
                _ => {}
            }
        }
        Ok(())
    }

    fn model_node(&self, n: &Node<D>) -> Result<usize, String> {
        let tag = n.borrow_data().tag;
        self.tag.iter().position(|&t| t == tag).ok_or_else(|| "an unknown node is reachable".to_string())
    }

    /// From `n` (model node `x`) the whole tree can be reached and every datum read.
    fn walk(&self, l: &L, x: usize, n: &Node<D>) -> Res {
        let r = l.m.root(x);
        let root = n.tree().root();
        let mut up = n.clone();
        for _ in 0..l.m.depth(x) {
            up = up.parent().ok_or_else(|| format!("an ancestor of node {x} is unreachable"))?;
        }
        if !up.ptr_eq(&root) {
            return Err(format!("root reached from node {x} differs from the root of its tree"));
        }
        let mut st = vec![(r, root)];
        while let Some((y, n)) = st.pop() {
            let d = n.try_borrow_data().map_err(|_| "data is borrowed".to_string())?;
            if d.tag != self.tag[y] || d.val != l.m.n[y].val {
                return Err(format!("node {y} reached from node {x} has foreign data"));
            }
            drop(d);
            let mut c = n.first_child();
            for &k in &l.m.n[y].kids {
                let Some(ck) = c else { return Err(format!("node {k} is not reachable from node {x}")) };
                c = ck.next_sibling();
                st.push((k, ck));
            }
            if c.is_some() {
                return Err(format!("node {y} has surplus children"));
            }
        }
        Ok(())
    }
}

fn exec_case(p: Prop, l0: &L, seq: &[O], rev: bool, run: &mut Run) -> Res {
    let mut l = l0.clone();
    let mut w = LW::build(&l, p == Prop::C21);
    if seq.is_empty() {
        w.check(p, &l)?;
    }
    for &o in seq {
        let (ok, new) = l.apply(o);
        w.exec(o, ok, &new, &l)?;
        run.step(1);
    }
    w.check(p, &l)?;
    run.state(l.hash());
    // Let go of everything, looking after every step.
    while !l.hs.is_empty() {
        let i = if rev { l.hs.len() - 1 } else { 0 };
        l.apply(O::Drop(i));
        w.exec(O::Drop(i), Some(true), &[], &l)?;
        w.check(p, &l)?;
        run.step(1);
    }
    if w.reg.live.get() != 0 && p != Prop::C05 {
        return Err(format!("{} data values leaked", w.reg.live.get()));
    }
    Ok(())
}

fn histories(cx: &mut Cx, p: Prop, l0: &L, depth: usize) {
    fn rec(cx: &mut Cx, p: Prop, l0: &L, l: &L, seq: &mut Vec<O>, left: usize) {
        for o in l.ops() {
            if cx.finished() {
                return;
            }
            let mut l2 = l.clone();
            let (ok, _) = l2.apply(o);
            seq.push(o);
            if left == 1 || ok != Some(true) {
                // Failing calls end a history: they change nothing (C03).
                for rev in [false, true] {
                    let s: &[O] = seq;
                    cx.case(
                        || format!("{}\n{}\nrelease {}", l0.show(), s.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("\n"), if rev { "last first" } else { "first first" }),
                        |run| exec_case(p, l0, s, rev, run),
                    );
                }
            } else {
                rec(cx, p, l0, &l2, seq, left - 1);
            }
            seq.pop();
        }
    }
    rec(cx, p, l0, l0, &mut vec![], depth);
}

fn starts(n: usize) -> Vec<L> {
    let mut v = vec![];
    for f in shape::forests(n) {
        let m = Model::from_forest(&f);
        let nt = m.roots.len();
        for nodes in 0..1u32 << n {
            for trees in 0..1u32 << nt {
                let mut hs = vec![];
                for x in 0..n {
                    if nodes >> x & 1 == 1 {
                        hs.push(H::Node(x));
                    }
                }
                for t in 0..nt {
                    if trees >> t & 1 == 1 {
                        hs.push(H::Tree(t));
                    }
                }
                if hs.is_empty() || hs.len() > 4 {
                    continue;
                }
                // Every tree is referenced; unreferenced trees are covered by dropping.
                let l = L { m: m.clone(), hs };
                let must = l.must_trees();
                if (0..nt).all(|t| must.contains(&t)) {
                    v.push(l);
                }
            }
        }
    }
    v
}

pub fn explore(cx: &mut Cx, p: Prop) {
    mc::kinds::explore(
        cx,
        match p {
            Prop::C05 => mc::kinds::Part::Alive,
            Prop::C06 => mc::kinds::Part::Gone,
            Prop::C21 => mc::kinds::Part::Weak,
        },
    );
    match p {
        Prop::C05 => mc::many::explore(cx, mc::many::Prop::C05),
        Prop::C06 => {
            mc::many::explore(cx, mc::many::Prop::C06);
            mc::pump::edits(cx, mc::pump::Part::Gone);
        }
        Prop::C21 => {
            dtor::explore(cx);
            mc::pump::edits(cx, mc::pump::Part::Weak);
        }
    }
    // (nodes, depth)
    let plan: &[(usize, usize)] = match (cx.thorough(), p) {
        (false, Prop::C21) => &[(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3)],
        (false, _) => &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)],
        (true, _) => &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (3, 3), (1, 4)],
    };
    for &(n, d) in plan {
        if n + d + 2 * cx.lighter > cx.pick(6, 7) {
            continue;
        }
        for l in starts(n) {
            if cx.task() {
                histories(cx, p, &l, d);
            }
        }
    }
}

const Q: &str = "every history of handle operations and edits of length 1 from every forest up to 5 nodes and every set of up to 4 node/tree handles, of length 2 up to 3 nodes, of length 3 up to 2 nodes; both orders of releasing the handles with a check after each release; 2, 127..129, 255..257 and 65537 equal handles or locks, cloned or acquired one by one, with 0..2 of every other kind, across every edit, released in both orders; every edit from every forest up to 4 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with every kind of last handle and five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128) (C06 also: every edit repeated 520 times (words of two: 262) from every forest up to 3 nodes (2), and words that restore the shape 65540 times)";
const T: &str = "as quick, with length 1 up to 6 nodes, length 2 up to 4 nodes, length 3 up to 3 nodes, length 4 from 1 node; numbers of handles or locks also at 2^8 +- 2, 2^15 +- 1 and 2^16 +- 2; every edit from every forest up to 5 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with every kind of last handle and five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128) (C06 also: every edit repeated 520 times and words of two edits 262 times from every forest up to 3 nodes, and words that restore the shape 65540 times)";
const QW: &str = "weak references after every history of length 1 from every forest up to 4 nodes and every set of up to 4 handles, of length 2 up to 3 nodes, of length 3 from 1 node; destructors: every last handle, refused bundling, failed creation, overwriting, discarded copy, departing subtree and builder over every tree up to 5 nodes, and every action (and pair with a drop) in the destructor of every node of every tree up to 3 nodes next to every other tree up to 3 nodes, with its handle outside or owned by the dying data, and chains of three trees; destructors at extreme places of families up to 65 nodes (acting ones: 20); every edit from every forest up to 4 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit repeated 520 times (words of two: 262) from every forest up to 3 nodes (2), and words that restore the shape 65540 times";
const TW: &str = "as quick, with histories as deep as for C06, destructor triggers up to 6 nodes, all destructor actions on trees up to 4 nodes next to trees up to 3 nodes (at most 6 together; pairs at most 4); destructors at extreme places of families up to 65 nodes; every edit from every forest up to 5 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit repeated 520 times and words of two edits 262 times from every forest up to 3 nodes, and words that restore the shape 65540 times";
const A: &[&str] = &[
    "when an exhausted iterator lets go of its nodes is not prescribed, only that dropping it does",
    "at most 5 handles are held at a time",
];

fn main() {
    sup::main(&[
        Check { id: "C05", f: |cx| explore(cx, Prop::C05), bounds_quick: Q, bounds_thorough: T, assumptions: A },
        Check { id: "C06", f: |cx| explore(cx, Prop::C06), bounds_quick: Q, bounds_thorough: T, assumptions: A },
        Check { id: "C21", f: |cx| explore(cx, Prop::C21), bounds_quick: QW, bounds_thorough: TW, assumptions: A },
    ]);
}
