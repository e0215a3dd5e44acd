//! C07, C08, C09: edit grants and prohibitions under histories of acquisitions and edits.

use std::rc::Rc;

use dendron::serial::TreeBuilder;
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, NonAllocatingBreadthFirstTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{FrozenNode, HotNode, Node, NodeWeak, TreeWeak};

use mc::model::{As, Exp, Model, AS, E};
use mc::ops::{adopt, err, insert};
use mc::shape;
use mc::sup::{self, catch, Check, Cx, Fnv, Res, Run};

type V = Rc<u32>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C07,
    C08,
    C09,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ik {
    Children,
    Siblings,
    Dft,
    Shallow,
    Bfs,
    Nbfs,
}
const IK: [Ik; 6] = [Ik::Children, Ik::Siblings, Ik::Dft, Ik::Shallow, Ik::Bfs, Ik::Nbfs];

/// Model of something held.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum I {
    Plain(usize),
    Hot(usize),
    Frozen(usize),
    /// Token for this tree identity.
    G(usize),
    P(usize),
    /// A traversal of frozen nodes at a node of the tree with this many items to come.
    It(usize, usize),
    /// A builder with this root and this current node.
    Builder(usize, usize),
}

enum It {
    Sib(StableSiblingsTraverser<V>),
    Dft(StableDepthFirstTraverser<V>),
    Shallow(StableShallowDepthFirstTraverser<V>),
    Bfs(AllocatingBreadthFirstTraverser<V>),
    Nbfs(NonAllocatingBreadthFirstTraverser<V>),
}
enum R {
    Plain(Node<V>),
    Hot(HotNode<V>),
    Frozen(FrozenNode<V>),
    G(HierarchyEditGrant<V>),
    P(HierarchyEditProhibition<V>),
    It(It),
    Builder(#[allow(dead_code)] TreeBuilder<V>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Nav {
    Parent,
    First,
    Last,
    Next,
    Prev,
    Root,
    FirstSib,
    LastSib,
    /// The second of the pair.
    FirstLastChild,
    FirstLastSib,
}
const NAV: [Nav; 10] = [
    Nav::Parent,
    Nav::First,
    Nav::Last,
    Nav::Next,
    Nav::Prev,
    Nav::Root,
    Nav::FirstSib,
    Nav::LastSib,
    Nav::FirstLastChild,
    Nav::FirstLastSib,
];

/// An edit of node `x`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ed {
    Detach,
    Replace,
    IntP,
    IntC,
    Create(As),
    /// Destination: a hot handle (item).
    Move(As, usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum O {
    Drop(usize),
    Clone(usize),
    /// `clone_from` of item `.1` into item `.0`.
    CloneFrom(usize, usize),
    /// `Into<Node>` of a hot or frozen handle; `plain()` and drop.
    IntoPlain(usize),
    Plain(usize),
    /// A plain handle of that node.
    Handle(usize),
    Go(usize, Nav),
    Extract(usize),
    TreeGrant(usize),
    TreeProhibit(usize),
    NewHot(usize),
    NewFrozen(usize),
    /// Bundles node `.0` with the token item `.1`.
    WithToken(usize, usize),
    Iter(usize, Ik),
    /// Steps an iterator; `true`: from the back.
    Step(usize, bool),
    Builder(usize),
    /// The builder opens a child and closes it.
    BuilderChild(usize),
    /// The builder opens a child.
    BuilderOpen(usize),
    BuilderFinish(usize),
    HotTree,
    /// Edit of node `.1` with the token item `.0`, fallible if possible.
    Tok(usize, usize, Ed),
    /// Edit of the node of the hot item; the new node's hot handle is kept.
    HotEd(usize, Ed, bool),
    /// Copy of node `.0` inserted at the hot item.
    CloneIns(usize, As, usize),
}

#[derive(Clone)]
struct S {
    m: Model,
    it: Vec<I>,
}

impl S {
    fn show(&self) -> String {
        format!("{} holding {:?}", self.m.show(), self.it)
    }
    fn node(&self, i: usize) -> Option<usize> {
        match self.it[i] {
            I::Plain(x) | I::Hot(x) | I::Frozen(x) => Some(x),
            _ => None,
        }
    }
    fn prohibited(&self, t: usize) -> bool {
        self.it.iter().any(|i| match *i {
            I::Frozen(x) => self.m.n[x].tree == t,
            I::P(u) | I::It(u, _) => u == t,
            _ => false,
        })
    }
    fn granted(&self, t: usize) -> bool {
        self.it.iter().any(|i| match *i {
            I::Hot(x) | I::Builder(_, x) => self.m.n[x].tree == t,
            I::G(u) => u == t,
            _ => false,
        })
    }
    fn tree_alive(&self, t: usize) -> bool {
        self.m.roots[t].is_some()
            && self.it.iter().any(|i| match *i {
                I::Plain(x) | I::Hot(x) | I::Frozen(x) => self.m.n[x].tree == t,
                I::Builder(x, y) => self.m.n[x].tree == t || self.m.n[y].tree == t,
                I::It(u, _) => u == t,
                _ => false,
            })
    }
    fn alive(&self, x: usize) -> bool {
        self.tree_alive(self.m.n[x].tree)
    }
    fn nodes(&self) -> Vec<usize> {
        (0..self.m.len()).filter(|&x| self.alive(x)).collect()
    }
    fn target(&self, x: usize, nav: Nav) -> Option<usize> {
        let k = &self.m.n[x].kids;
        match nav {
            Nav::Parent => self.m.parent(x),
            Nav::First => k.first().copied(),
            Nav::Last | Nav::FirstLastChild => k.last().copied(),
            Nav::Next => self.m.next(x),
            Nav::Prev => self.m.prev(x),
            Nav::Root => Some(self.m.root(x)),
            Nav::FirstSib => Some(self.m.sibs(x).first().copied().unwrap_or(x)),
            Nav::LastSib | Nav::FirstLastSib => Some(self.m.sibs(x).last().copied().unwrap_or(x)),
        }
    }
    fn count(&self, x: usize, k: Ik) -> usize {
        match k {
            Ik::Children => self.m.n[x].kids.len(),
            Ik::Siblings => self.m.sibs(x).len().max(1),
            Ik::Dft => 2 * self.m.preorder(x).len(),
            // Depth limit 1.
            Ik::Shallow => 2 * (1 + self.m.n[x].kids.len()),
            Ik::Bfs => self.m.preorder(x).len(),
            // Start depth 1.
            Ik::Nbfs => self.m.preorder(x).len() - 1,
        }
    }

    fn acq_ops(&self, v: &mut Vec<O>) {
        let room = self.it.len() < 6;
        for i in 0..self.it.len() {
            v.push(O::Drop(i));
            for j in 0..self.it.len() {
                match (self.it[i], self.it[j]) {
                    (I::Hot(_), I::Hot(_)) | (I::Frozen(_), I::Frozen(_)) | (I::G(_), I::G(_)) | (I::It(..), I::It(..)) if i != j => v.push(O::CloneFrom(i, j)),
                    _ => {}
                }
            }
            match self.it[i] {
                I::Hot(_) | I::Frozen(_) => {
                    v.push(O::IntoPlain(i));
                    if room {
                        v.push(O::Plain(i));
                        v.push(O::Extract(i));
                        v.push(O::Clone(i));
                    }
                }
                I::It(..) => {
                    v.push(O::Step(i, false));
                    v.push(O::Step(i, true));
                    if room {
                        v.push(O::Clone(i));
                    }
                }
                I::Builder(..) => {
                    v.push(O::BuilderFinish(i));
                }
                I::Plain(_) => {}
                I::G(_) | I::P(_) => {
                    if room {
                        v.push(O::Clone(i));
                    }
                }
            }
            if room {
                if let I::Hot(x) | I::Frozen(x) = self.it[i] {
                    for n in NAV {
                        if self.target(x, n).is_some() {
                            v.push(O::Go(i, n));
                        }
                    }
                }
                if let I::Frozen(_) = self.it[i] {
                    for k in IK {
                        v.push(O::Iter(i, k));
                    }
                }
                if let I::Hot(_) = self.it[i] {
                    v.push(O::Builder(i));
                }
            }
        }
        if !room {
            return;
        }
        for t in 0..self.m.roots.len() {
            if self.tree_alive(t) {
                v.push(O::TreeGrant(t));
                v.push(O::TreeProhibit(t));
            }
        }
        for x in self.nodes() {
            v.push(O::Handle(x));
            v.push(O::NewHot(x));
            v.push(O::NewFrozen(x));
            for (j, i) in self.it.iter().enumerate() {
                if let I::G(_) | I::P(_) = i {
                    v.push(O::WithToken(x, j));
                }
            }
        }
        v.push(O::HotTree);
    }
    fn edits(&self) -> Vec<Ed> {
        let mut e = vec![Ed::Detach, Ed::Replace, Ed::IntP, Ed::IntC];
        for a in AS {
            e.push(Ed::Create(a));
        }
        for (j, i) in self.it.iter().enumerate() {
            if let I::Hot(_) = i {
                for a in AS {
                    e.push(Ed::Move(a, j));
                }
            }
        }
        e
    }
    /// Edits with a valid grant.
    fn edit_ops(&self, v: &mut Vec<O>) {
        let room = self.it.len() < 6;
        let eds = self.edits();
        for i in 0..self.it.len() {
            match self.it[i] {
                I::Hot(_) => {
                    for &e in &eds {
                        for keep in [false, true] {
                            if !keep || room && matches!(e, Ed::Create(_) | Ed::IntP | Ed::IntC) {
                                v.push(O::HotEd(i, e, keep));
                            }
                        }
                    }
                    for x in self.nodes() {
                        for a in AS {
                            v.push(O::CloneIns(x, a, i));
                        }
                    }
                }
                I::G(t) => {
                    for x in self.nodes() {
                        if self.m.n[x].tree == t {
                            for &e in &eds {
                                v.push(O::Tok(i, x, e));
                            }
                        }
                    }
                }
                I::Builder(..) => {
                    v.push(O::BuilderChild(i));
                    v.push(O::BuilderOpen(i));
                }
                _ => {}
            }
        }
    }
    /// Edits with a grant of another tree.
    fn bad_ops(&self, v: &mut Vec<O>) {
        let eds = self.edits();
        for i in 0..self.it.len() {
            if let I::G(t) = self.it[i] {
                for x in self.nodes() {
                    if self.m.n[x].tree != t {
                        for &e in &eds {
                            v.push(O::Tok(i, x, e));
                        }
                    }
                }
            }
        }
    }

    fn edit(&mut self, x: usize, e: Ed) -> (Exp, Option<usize>) {
        match e {
            Ed::Detach => {
                self.m.detach(x);
                (Exp::Ok, None)
            }
            Ed::Replace => (self.m.replace(x), None),
            Ed::IntP => (Exp::Ok, Some(self.m.int_parent(x, 0))),
            Ed::IntC => (Exp::Ok, Some(self.m.int_child(x, 0))),
            Ed::Create(a) => match self.m.create(x, a, 0) {
                Ok(y) => (Exp::Ok, Some(y)),
                Err(e) => (e, None),
            },
            Ed::Move(a, j) => {
                let d = self.node(j).expect("hot");
                (self.m.mv(x, a, d, false), None)
            }
        }
    }

    /// Effect on the model: expectation and the new node, if any.
    fn apply(&mut self, o: O) -> (Want, Option<usize>) {
        let ok = (Want::Ok, None);
        match o {
            O::Drop(i) => {
                self.it.remove(i);
                ok
            }
            O::CloneFrom(i, j) => {
                self.it[i] = self.it[j];
                ok
            }
            O::Clone(i) => {
                let x = self.it[i];
                self.it.push(x);
                ok
            }
            O::IntoPlain(i) => {
                self.it[i] = I::Plain(self.node(i).expect("node"));
                ok
            }
            O::Plain(i) => {
                self.it.push(I::Plain(self.node(i).expect("node")));
                ok
            }
            O::Handle(x) => {
                self.it.push(I::Plain(x));
                ok
            }
            O::Go(i, n) => {
                let y = self.target(self.node(i).expect("node"), n).expect("target");
                self.it.push(if matches!(self.it[i], I::Hot(_)) { I::Hot(y) } else { I::Frozen(y) });
                ok
            }
            O::Extract(i) => {
                let x = self.node(i).expect("node");
                let t = self.m.n[x].tree;
                self.it.push(if matches!(self.it[i], I::Hot(_)) { I::G(t) } else { I::P(t) });
                ok
            }
            O::TreeGrant(t) => {
                if self.prohibited(t) {
                    return (Want::Err, None);
                }
                self.it.push(I::G(t));
                ok
            }
            O::TreeProhibit(t) => {
                if self.granted(t) {
                    return (Want::Err, None);
                }
                self.it.push(I::P(t));
                ok
            }
            O::NewHot(x) => {
                if self.prohibited(self.m.n[x].tree) {
                    return (Want::Err, None);
                }
                self.it.push(I::Hot(x));
                ok
            }
            O::NewFrozen(x) => {
                if self.granted(self.m.n[x].tree) {
                    return (Want::Err, None);
                }
                self.it.push(I::Frozen(x));
                ok
            }
            O::WithToken(x, j) => {
                let t = self.m.n[x].tree;
                match self.it[j] {
                    I::G(u) if u == t => self.it.push(I::Hot(x)),
                    I::P(u) if u == t => self.it.push(I::Frozen(x)),
                    _ => return (Want::Panic, None),
                }
                ok
            }
            O::Iter(i, k) => {
                let x = self.node(i).expect("node");
                let n = self.count(x, k);
                if n > 0 {
                    self.it.push(I::It(self.m.n[x].tree, n));
                }
                ok
            }
            O::Step(i, _) => {
                if let I::It(t, n) = self.it[i] {
                    if n == 1 {
                        self.it.remove(i);
                    } else {
                        self.it[i] = I::It(t, n - 1);
                    }
                }
                ok
            }
            O::Builder(i) => {
                let x = self.node(i).expect("node");
                self.it.push(I::Builder(x, x));
                ok
            }
            O::BuilderChild(i) | O::BuilderOpen(i) => {
                let I::Builder(r, x) = self.it[i] else { unreachable!() };
                let y = self.m.create(x, As::Last, 0).expect("child");
                if matches!(o, O::BuilderOpen(_)) {
                    self.it[i] = I::Builder(r, y);
                }
                (Want::Ok, Some(y))
            }
            O::BuilderFinish(i) => {
                self.it.remove(i);
                ok
            }
            O::HotTree => {
                let t = self.m.roots.len();
                let y = self.m.new_node(t, 0);
                self.m.roots.push(Some(y));
                self.it.push(I::Hot(y));
                (Want::Ok, Some(y))
            }
            O::Tok(i, x, e) => {
                if self.it[i] != I::G(self.m.n[x].tree) {
                    return (Want::Panic, None);
                }
                let (e, n) = self.edit(x, e);
                (Want::from(e), n)
            }
            O::HotEd(i, e, keep) => {
                let x = self.node(i).expect("hot");
                let (e, n) = self.edit(x, e);
                if let (Exp::Ok, Some(y), true) = (&e, n, keep) {
                    self.it.push(I::Hot(y));
                }
                (Want::from(e), n)
            }
            O::CloneIns(x, a, j) => {
                let d = self.node(j).expect("hot");
                match self.m.clone_ins(x, a, d, false) {
                    Ok(v) => (Want::Ok, Some(v[0])),
                    Err(e) => (Want::from(e), None),
                }
            }
        }
    }
    fn hash(&self) -> u64 {
        let mut h = Fnv::new();
        h.u(self.m.hash());
        h.s(&format!("{:?}", self.it));
        h.get()
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Want {
    Ok,
    /// A refused acquisition.
    Err,
    /// A rejected edit.
    Rej(Vec<E>),
    NoChange,
    Panic,
}
impl From<Exp> for Want {
    fn from(e: Exp) -> Want {
        match e {
            Exp::Ok => Want::Ok,
            Exp::Err(v) => Want::Rej(v),
            Exp::NoChange => Want::NoChange,
        }
    }
}

struct W {
    weak: Vec<NodeWeak<V>>,
    trees: Vec<TreeWeak<V>>,
    it: Vec<R>,
    /// Every value ever handed over (the data is dropped with its node).
    vals: Vec<std::rc::Weak<u32>>,
}

impl W {
    /// Every node of the forest has one plain handle at the beginning of the list.
    fn build(s: &S) -> W {
        let mut w = W { weak: vec![], trees: vec![], it: vec![], vals: vec![] };
        let mut keep: Vec<Node<V>> = vec![];
        for x in 0..s.m.len() {
            let v = Rc::new(x as u32);
            w.vals.push(Rc::downgrade(&v));
            let n = match s.m.parent(x) {
                None => Node::new_tree(v),
                Some(p) => {
                    let g = keep[p].tree().grant_hierarchy_edit().expect("harness");
                    keep[p].create_as_last_child(&g, v)
                }
            };
            w.weak.push(n.downgrade());
            keep.push(n);
        }
        w.trees = s.m.roots.iter().flatten().map(|&r| keep[r].tree().downgrade()).collect();
        for i in &s.it {
            match *i {
                I::Plain(x) => w.it.push(R::Plain(keep[x].clone())),
                _ => panic!("harness: initial item"),
            }
        }
        w
    }
    fn up(&self, x: usize) -> Result<Node<V>, String> {
        self.weak[x].upgrade().ok_or_else(|| format!("node {x} is gone while its tree is referred to"))
    }
    fn val(&mut self) -> V {
        let v = Rc::new(self.weak.len() as u32);
        self.vals.push(Rc::downgrade(&v));
        v
    }
    fn bind(&mut self, n: &Node<V>) {
        self.weak.push(n.downgrade());
    }

    fn exec(&mut self, o: O, want: &Want, new: Option<usize>, after: &S) -> Res {
        let got = self.exec_(o, after).map_err(|e| format!("{o:?}: {e}"))?;
        let bad = |g: &str| Err(format!("{o:?}: {g}, expected {want:?}"));
        match (&got, want) {
            (Got::Ok(_), Want::Ok) | (Got::Err, Want::Err) | (Got::Panic(_), Want::Panic) => {}
            (Got::Rej(e), Want::Rej(v)) if v.contains(e) => {}
            (Got::Ok(_) | Got::Rej(_), Want::NoChange) => {}
            (Got::Ok(_), _) => return bad("succeeded"),
            (Got::Err, _) => return bad("refused"),
            (Got::Rej(e), _) => return bad(&format!("rejected with {e:?}")),
            (Got::Panic(p), _) => return bad(&format!("panicked ({p})")),
        }
        if let (Got::Ok(n), Want::Ok) = (got, want) {
            match (n, new) {
                (Some(n), Some(_)) => {
                    self.bind(&n);
                    // A copied subtree has more nodes; they follow in preorder.
                    if let O::CloneIns(..) = o {
                        for ev in n.depth_first_traverse().skip(1) {
                            if let Some(n) = ev.into_open() {
                                self.bind(&n);
                            }
                        }
                    }
                }
                (None, None) => {}
                _ => return Err("harness: new node".into()),
            }
            while self.trees.len() < after.m.roots.len() {
                let r = after.m.roots[self.trees.len()].ok_or("harness: root")?;
                // It may be dead already if nothing refers to it; then nothing can be asked.
                let w = match self.weak[r].upgrade() {
                    Some(n) => n.tree().downgrade(),
                    None => Node::new_tree(Rc::new(0)).tree().downgrade(),
                };
                self.trees.push(w);
            }
        }
        if self.weak.len() != after.m.len() {
            return Err("harness: node count".into());
        }
        Ok(())
    }

    fn exec_(&mut self, o: O, after: &S) -> Result<Got, String> {
        let done = Ok(Got::Ok(None));
        match o {
            O::Drop(i) => {
                let r = self.it.remove(i);
                catch(|| drop(r)).map_err(|p| format!("panicked: {p}"))?;
                done
            }
            O::CloneFrom(i, j) => {
                let mut to = std::mem::replace(&mut self.it[i], R::Builder(TreeBuilder::new()));
                match (&mut to, &self.it[j]) {
                    (R::Hot(a), R::Hot(b)) => a.clone_from(b),
                    (R::Frozen(a), R::Frozen(b)) => a.clone_from(b),
                    (R::G(a), R::G(b)) => a.clone_from(b),
                    (R::It(a), R::It(b)) => match (a, b) {
                        (It::Sib(a), It::Sib(b)) => a.clone_from(b),
                        (It::Dft(a), It::Dft(b)) => a.clone_from(b),
                        (It::Shallow(a), It::Shallow(b)) => a.clone_from(b),
                        (It::Bfs(a), It::Bfs(b)) => a.clone_from(b),
                        (It::Nbfs(a), It::Nbfs(b)) => a.clone_from(b),
                        // Different kinds: the one replaces the other.
                        (a, It::Sib(x)) => *a = It::Sib(x.clone()),
                        (a, It::Dft(x)) => *a = It::Dft(x.clone()),
                        (a, It::Shallow(x)) => *a = It::Shallow(x.clone()),
                        (a, It::Bfs(x)) => *a = It::Bfs(x.clone()),
                        (a, It::Nbfs(x)) => *a = It::Nbfs(x.clone()),
                    },
                    _ => return Err("harness: clone_from".into()),
                }
                self.it[i] = to;
                done
            }
            O::Clone(i) => {
                let r = match &self.it[i] {
                    R::Plain(n) => R::Plain(n.clone()),
                    R::Hot(n) => R::Hot(n.clone()),
                    R::Frozen(n) => R::Frozen(n.clone()),
                    R::G(g) => {
                        let a = g.try_clone().map_err(|_| "try_clone failed")?;
                        // Both ways of cloning.
                        let b = g.clone();
                        drop(a);
                        R::G(b)
                    }
                    R::P(p) => R::P(p.try_clone().map_err(|_| "try_clone failed")?),
                    R::It(it) => R::It(match it {
                        It::Sib(x) => It::Sib(x.clone()),
                        It::Dft(x) => It::Dft(x.clone()),
                        It::Shallow(x) => It::Shallow(x.clone()),
                        It::Bfs(x) => It::Bfs(x.clone()),
                        It::Nbfs(x) => It::Nbfs(x.clone()),
                    }),
                    R::Builder(_) => return Err("harness: clone of a builder".into()),
                };
                self.it.push(r);
                done
            }
            O::IntoPlain(i) => {
                let r = std::mem::replace(&mut self.it[i], R::Builder(TreeBuilder::new()));
                self.it[i] = R::Plain(match r {
                    R::Hot(n) => Node::from(n),
                    R::Frozen(n) => n.into(),
                    _ => return Err("harness: into".into()),
                });
                done
            }
            O::Plain(i) => {
                let n = match &self.it[i] {
                    R::Hot(n) => n.plain(),
                    R::Frozen(n) => n.plain(),
                    _ => return Err("harness: plain".into()),
                };
                self.it.push(R::Plain(n));
                done
            }
            O::Handle(x) => {
                let n = self.up(x)?;
                self.it.push(R::Plain(n));
                done
            }
            O::Go(i, nav) => {
                macro_rules! go {
                    ($n:expr) => {
                        match nav {
                            Nav::Parent => $n.parent(),
                            Nav::First => $n.first_child(),
                            Nav::Last => $n.last_child(),
                            Nav::Next => $n.next_sibling(),
                            Nav::Prev => $n.prev_sibling(),
                            Nav::Root => Some($n.root()),
                            Nav::FirstSib => Some($n.first_sibling()),
                            Nav::LastSib => Some($n.last_sibling()),
                            Nav::FirstLastChild => $n.first_last_child().map(|p| p.1),
                            Nav::FirstLastSib => Some($n.first_last_sibling().1),
                        }
                    };
                }
                let r = match &self.it[i] {
                    R::Hot(n) => R::Hot(go!(n).ok_or("no such node")?),
                    R::Frozen(n) => R::Frozen(go!(n).ok_or("no such node")?),
                    _ => return Err("harness: go".into()),
                };
                self.it.push(r);
                done
            }
            O::Extract(i) => {
                let r = match &self.it[i] {
                    R::Hot(n) => R::G(n.extract_hierarchy_edit_grant()),
                    R::Frozen(n) => R::P(n.extract_hierarchy_edit_prohibition()),
                    _ => return Err("harness: extract".into()),
                };
                self.it.push(r);
                done
            }
            O::TreeGrant(t) => {
                let tree = self.trees[t].upgrade().ok_or("tree is gone")?;
                match tree.grant_hierarchy_edit() {
                    Ok(g) => {
                        self.it.push(R::G(g));
                        done
                    }
                    Err(_) => Ok(Got::Err),
                }
            }
            O::TreeProhibit(t) => {
                let tree = self.trees[t].upgrade().ok_or("tree is gone")?;
                match tree.prohibit_hierarchy_edit() {
                    Ok(g) => {
                        self.it.push(R::P(g));
                        done
                    }
                    Err(_) => Ok(Got::Err),
                }
            }
            O::NewHot(x) => match self.up(x)?.bundle_new_hierarchy_edit_grant() {
                Ok(n) => {
                    self.it.push(R::Hot(n));
                    done
                }
                Err(_) => Ok(Got::Err),
            },
            O::NewFrozen(x) => match self.up(x)?.bundle_new_hierarchy_edit_prohibition() {
                Ok(n) => {
                    self.it.push(R::Frozen(n));
                    done
                }
                Err(_) => Ok(Got::Err),
            },
            O::WithToken(x, j) => {
                let n = self.up(x)?;
                let r = match &self.it[j] {
                    R::G(g) => catch(|| R::Hot(n.bundle_hierarchy_edit_grant(g))),
                    R::P(p) => catch(|| R::Frozen(n.bundle_hierarchy_edit_prohibition(p))),
                    _ => return Err("harness: token".into()),
                };
                match r {
                    Ok(r) => {
                        self.it.push(r);
                        done
                    }
                    Err(p) => Ok(Got::Panic(p)),
                }
            }
            O::Iter(i, k) => {
                let R::Frozen(n) = &self.it[i] else { return Err("harness: iter".into()) };
                let it = match k {
                    Ik::Children => It::Sib(n.children_stable()),
                    Ik::Siblings => It::Sib(n.siblings_stable()),
                    Ik::Dft => It::Dft(n.depth_first_traverse_stable()),
                    Ik::Shallow => It::Shallow(n.shallow_depth_first_traverse_stable(Some(1))),
                    Ik::Bfs => It::Bfs(n.allocating_breadth_first_traverse_stable(0)),
                    Ik::Nbfs => It::Nbfs(n.non_allocating_breadth_first_traverse_stable(1)),
                };
                // An empty traversal is dropped at once.
                if matches!(after.it.last(), Some(I::It(..))) && after.it.len() == self.it.len() + 1 {
                    self.it.push(R::It(it));
                }
                done
            }
            O::Step(i, back) => {
                let R::It(it) = &mut self.it[i] else { return Err("harness: step".into()) };
                let some = match (it, back) {
                    (It::Sib(x), false) => x.next().is_some(),
                    (It::Sib(x), true) => x.next_back().is_some(),
                    (It::Dft(x), false) => x.next().is_some(),
                    (It::Dft(x), true) => x.next_back().is_some(),
                    (It::Shallow(x), false) => x.next().is_some(),
                    (It::Shallow(x), true) => x.next_back().is_some(),
                    (It::Bfs(x), _) => x.next().is_some(),
                    (It::Nbfs(x), _) => x.next().is_some(),
                };
                if !some {
                    return Err("traversal ended too early".into());
                }
                if after.it.len() < self.it.len() {
                    self.it.remove(i);
                }
                done
            }
            O::Builder(i) => {
                let R::Hot(n) = &self.it[i] else { return Err("harness: builder".into()) };
                let b = TreeBuilder::with_root(n.clone());
                self.it.push(R::Builder(b));
                done
            }
            O::BuilderChild(i) | O::BuilderOpen(i) => {
                let v = self.val();
                let par = match after.it[i] {
                    I::Builder(_, y) => match o {
                        O::BuilderOpen(_) => after.m.parent(y).ok_or("harness")?,
                        _ => y,
                    },
                    _ => return Err("harness: builder".into()),
                };
                let p = self.up(par)?;
                let R::Builder(b) = &mut self.it[i] else { return Err("harness: builder".into()) };
                b.open(v).map_err(|e| format!("open: {e:?}"))?;
                if let O::BuilderChild(_) = o {
                    b.close(1).map_err(|e| format!("close: {e:?}"))?;
                }
                let n = p.last_child().ok_or("the builder made no child")?;
                Ok(Got::Ok(Some(n)))
            }
            O::BuilderFinish(i) => {
                let R::Builder(b) = self.it.remove(i) else { return Err("harness: builder".into()) };
                // Whether the root is closed does not matter here.
                let _ = b.finish();
                done
            }
            O::HotTree => {
                let v = self.val();
                let h = HotNode::new_tree(v);
                let n = h.plain();
                self.it.push(R::Hot(h));
                Ok(Got::Ok(Some(n)))
            }
            O::Tok(i, x, e) => {
                let n = self.up(x)?;
                let v = self.val();
                let R::G(g) = &self.it[i] else { return Err("harness: token".into()) };
                let r: Result<Result<Option<Node<V>>, E>, String> = match e {
                    Ed::Detach => catch(|| {
                        n.detach_subtree(g);
                        Ok(None)
                    }),
                    Ed::Replace => catch(|| n.try_replace_with_children(g).map(|_| None).map_err(err)),
                    Ed::IntP => catch(|| Ok(Some(n.create_as_interrupting_parent(g, v)))),
                    Ed::IntC => catch(|| Ok(Some(n.create_as_interrupting_child(g, v)))),
                    Ed::Create(As::First) => catch(|| Ok(Some(n.create_as_first_child(g, v)))),
                    Ed::Create(As::Last) => catch(|| Ok(Some(n.create_as_last_child(g, v)))),
                    Ed::Create(As::Prev) => catch(|| n.try_create_as_prev_sibling(g, v).map(Some).map_err(err)),
                    Ed::Create(a) => catch(|| n.try_create_node_as(g, v, adopt(a)).map(Some).map_err(err)),
                    Ed::Move(a, j) => {
                        let R::Hot(h) = &self.it[j] else { return Err("harness: destination".into()) };
                        catch(|| n.try_detach_insert_subtree(g, insert(a, h)).map(|_| None).map_err(err))
                    }
                };
                Ok(match r {
                    Ok(Ok(n)) => Got::Ok(n),
                    Ok(Err(e)) => Got::Rej(e),
                    Err(p) => Got::Panic(p),
                })
            }
            O::HotEd(i, e, keep) => {
                let v = self.val();
                let R::Hot(h) = &self.it[i] else { return Err("harness: hot".into()) };
                let r: Result<Result<Option<HotNode<V>>, E>, String> = match e {
                    Ed::Detach => catch(|| {
                        h.detach_subtree();
                        Ok(None)
                    }),
                    Ed::Replace => catch(|| h.try_replace_with_children().map(|_| None).map_err(err)),
                    Ed::IntP => catch(|| Ok(Some(h.create_as_interrupting_parent(v)))),
                    Ed::IntC => catch(|| Ok(Some(h.create_as_interrupting_child(v)))),
                    Ed::Create(As::First) => catch(|| Ok(Some(h.create_as_first_child(v)))),
                    Ed::Create(As::Last) => catch(|| Ok(Some(h.create_as_last_child(v)))),
                    Ed::Create(As::Next) => catch(|| h.try_create_as_next_sibling(v).map(Some).map_err(err)),
                    Ed::Create(a) => catch(|| h.try_create_node_as(v, adopt(a)).map(Some).map_err(err)),
                    Ed::Move(a, j) => {
                        let R::Hot(d) = &self.it[j] else { return Err("harness: destination".into()) };
                        catch(|| h.try_detach_insert_subtree(insert(a, d)).map(|_| None).map_err(err))
                    }
                };
                Ok(match r {
                    Ok(Ok(Some(h))) => {
                        let n = h.plain();
                        if keep {
                            self.it.push(R::Hot(h));
                        }
                        Got::Ok(Some(n))
                    }
                    Ok(Ok(None)) => Got::Ok(None),
                    Ok(Err(e)) => Got::Rej(e),
                    Err(p) => Got::Panic(p),
                })
            }
            O::CloneIns(x, a, j) => {
                let n = self.up(x)?;
                let R::Hot(h) = &self.it[j] else { return Err("harness: destination".into()) };
                Ok(match catch(|| n.try_clone_insert_subtree(insert(a, h)).map(|c| c.plain()).map_err(err)) {
                    Ok(Ok(n)) => Got::Ok(Some(n)),
                    Ok(Err(e)) => Got::Rej(e),
                    Err(p) => Got::Panic(p),
                })
            }
        }
    }

    /// Acquirability by every route, validity of tokens, hierarchy.
    fn check(&self, s: &S) -> Res {
        for t in 0..s.m.roots.len() {
            let alive = s.tree_alive(t);
            let Some(tree) = self.trees[t].upgrade() else {
                if alive {
                    return Err(format!("tree {t} is gone"));
                }
                continue;
            };
            if !alive {
                return Err(format!("tree {t} is still alive"));
            }
            let (g, p) = (!s.prohibited(t), !s.granted(t));
            let e = |how: &str, got: bool, want: bool| -> Res {
                if got == want {
                    Ok(())
                } else {
                    Err(format!("tree {t}: {how} possible: {got}, expected {want}"))
                }
            };
            e("a grant from the tree", tree.grant_hierarchy_edit().is_ok(), g)?;
            e("a prohibition from the tree", tree.prohibit_hierarchy_edit().is_ok(), p)?;
            for x in s.m.preorder(s.m.roots[t].expect("live")) {
                let n = self.up(x)?;
                e(&format!("a hot handle of node {x}"), n.clone().bundle_new_hierarchy_edit_grant().is_ok(), g)?;
                e(&format!("a frozen handle of node {x}"), n.bundle_new_hierarchy_edit_prohibition().is_ok(), p)?;
            }
            e("a grant from the tree, afterwards,", tree.grant_hierarchy_edit().is_ok(), g)?;
            e("a prohibition from the tree, afterwards,", tree.prohibit_hierarchy_edit().is_ok(), p)?;
        }
        for (i, r) in self.it.iter().enumerate() {
            match (r, s.it[i]) {
                (R::G(g), I::G(t)) => {
                    for x in s.nodes() {
                        if g.is_valid_for_node(&self.up(x)?) != (s.m.n[x].tree == t) {
                            return Err(format!("grant item {i} of tree {t}: wrong validity for node {x}"));
                        }
                    }
                    if g.try_clone().is_err() {
                        return Err(format!("grant item {i} is not clonable"));
                    }
                }
                (R::P(p), I::P(t)) => {
                    for x in s.nodes() {
                        if p.is_valid_for_node(&self.up(x)?) != (s.m.n[x].tree == t) {
                            return Err(format!("prohibition item {i} of tree {t}: wrong validity for node {x}"));
                        }
                    }
                    if p.try_clone().is_err() {
                        return Err(format!("prohibition item {i} is not clonable"));
                    }
                }
                (R::Hot(n), I::Hot(x)) => {
                    let g = catch(|| n.extract_hierarchy_edit_grant())
                        .map_err(|p| format!("hot item {i} has no grant: {p}"))?;
                    if !n.ptr_eq_plain(&self.up(x)?) || !g.is_valid_for_node(&n.plain()) {
                        return Err(format!("hot item {i}: wrong node or grant"));
                    }
                }
                (R::Frozen(n), I::Frozen(x)) => {
                    let g = catch(|| n.extract_hierarchy_edit_prohibition())
                        .map_err(|p| format!("frozen item {i} has no prohibition: {p}"))?;
                    let p = n.plain();
                    if !p.ptr_eq(&self.up(x)?) || !g.is_valid_for_node(&p) {
                        return Err(format!("frozen item {i}: wrong node or prohibition"));
                    }
                }
                (R::Plain(n), I::Plain(x)) => {
                    if !n.ptr_eq(&self.up(x)?) {
                        return Err(format!("plain item {i}: wrong node"));
                    }
                }
                (R::It(_), I::It(..)) | (R::Builder(_), I::Builder(..)) => {}
                _ => return Err("harness: items".into()),
            }
        }
        self.shape(s)
    }
    /// The hierarchy is the model's.
    fn shape(&self, s: &S) -> Res {
        for x in s.nodes() {
            let n = self.up(x)?;
            let is = |got: Option<Node<V>>, want: Option<usize>, what: &str| -> Res {
                let same = match (&got, want) {
                    (None, None) => true,
                    (Some(g), Some(y)) => g.ptr_eq(&self.up(y)?),
                    _ => false,
                };
                if same {
                    Ok(())
                } else {
                    Err(format!("{what} of node {x} is not {want:?}"))
                }
            };
            is(n.parent(), s.m.parent(x), "parent")?;
            is(n.first_child(), s.m.n[x].kids.first().copied(), "first child")?;
            is(n.last_child(), s.m.n[x].kids.last().copied(), "last child")?;
            is(n.next_sibling(), s.m.next(x), "next sibling")?;
            is(n.prev_sibling(), s.m.prev(x), "previous sibling")?;
            let t = self.trees[s.m.n[x].tree].upgrade().ok_or("tree")?;
            if !n.belongs_to(&t) {
                return Err(format!("node {x} does not belong to tree {}", s.m.n[x].tree));
            }
        }
        Ok(())
    }
}

enum Got {
    Ok(Option<Node<V>>),
    /// Refused acquisition.
    Err,
    Rej(E),
    Panic(String),
}

fn run_case(s0: &S, init: &[O], seq: &[O], order: usize, run: &mut Run) -> Res {
    let mut s = s0.clone();
    let mut w = W::build(&s);
    for &o in init.iter().chain(seq) {
        let (want, new) = s.apply(o);
        w.exec(o, &want, new, &s)?;
        run.step(1);
    }
    w.check(&s)?;
    run.state(s.hash());
    // Release everything. Nodes with plain handles outlive the locks or not, as the order has it.
    while !s.it.is_empty() {
        let i = match order {
            0 => s.it.len() - 1,
            1 => 0,
            // Locks first, oldest first; then all trees must be neutral.
            _ => s.it.iter().position(|i| !matches!(i, I::Plain(_))).unwrap_or(0),
        };
        let o = O::Drop(i);
        let (want, new) = s.apply(o);
        w.exec(o, &want, new, &s)?;
        w.check(&s)?;
        run.step(1);
    }
    if let Some(i) = w.vals.iter().position(|v| v.strong_count() != 0) {
        return Err(format!("value {i} is not released"));
    }
    Ok(())
}

fn ops_of(p: Prop, s: &S) -> Vec<O> {
    let mut v = vec![];
    s.acq_ops(&mut v);
    if p != Prop::C07 {
        s.edit_ops(&mut v);
    }
    v
}

fn rec(cx: &mut Cx, p: Prop, s0: &S, init: &[O], s: &S, seq: &mut Vec<O>, left: usize) {
    let mut ops = ops_of(p, s);
    if p == Prop::C09 {
        // The last step is an unauthorized one.
        if left == 1 {
            ops.clear();
            s.bad_ops(&mut ops);
            for x in s.nodes() {
                for (j, i) in s.it.iter().enumerate() {
                    if matches!(*i, I::G(t) | I::P(t) if t != s.m.n[x].tree) {
                        ops.push(O::WithToken(x, j));
                    }
                }
            }
            // While a prohibition is active, anything at all.
            if (0..s.m.roots.len()).any(|t| s.tree_alive(t) && s.prohibited(t)) {
                s.acq_ops(&mut ops);
                s.edit_ops(&mut ops);
            }
        }
    }
    for o in ops {
        if cx.finished() {
            return;
        }
        let mut s2 = s.clone();
        let (want, _) = s2.apply(o);
        seq.push(o);
        if left == 1 || want != Want::Ok {
            for order in 0..3 {
                let q: &[O] = seq;
                cx.case(
                    || {
                        let l: Vec<String> = init.iter().chain(q).map(|o| format!("{o:?}")).collect();
                        format!("{}\n{}\nrelease order {order}", s0.show(), l.join("\n"))
                    },
                    |run| run_case(s0, init, q, order, run),
                );
            }
        } else {
            rec(cx, p, s0, init, &s2, seq, left - 1);
        }
        seq.pop();
    }
}

/// Forests in which every tree is referred to by a plain handle of some node, or every node is.
fn starts(n: usize) -> Vec<S> {
    let mut v = vec![];
    for f in shape::forests(n) {
        let m = Model::from_forest(&f);
        let mut choices = vec![(0..n).collect::<Vec<_>>()];
        // One handle per tree, at every node of the first tree.
        let n0 = f[0].len();
        for x in 0..n0 {
            let mut c = vec![x];
            for &r in m.roots.iter().skip(1).flatten() {
                c.push(r);
            }
            if !choices.contains(&c) {
                choices.push(c);
            }
        }
        for c in choices {
            v.push(S { m: m.clone(), it: c.into_iter().map(I::Plain).collect() });
        }
    }
    v
}

/// Acquisitions that lead to all consistent sets of up to `k` locks.
fn inits(s: &S, k: usize) -> Vec<(Vec<O>, S)> {
    let mut cand = vec![];
    for t in 0..s.m.roots.len() {
        cand.push(O::TreeGrant(t));
        cand.push(O::TreeProhibit(t));
    }
    for x in 0..s.m.len() {
        cand.push(O::NewHot(x));
        cand.push(O::NewFrozen(x));
    }
    let mut out = vec![(vec![], s.clone())];
    let mut from = vec![(vec![], s.clone(), 0)];
    for _ in 0..k {
        let mut next = vec![];
        for (q, s, c0) in &from {
            for (c, &o) in cand.iter().enumerate().skip(*c0) {
                let mut s2 = s.clone();
                if s2.apply(o).0 == Want::Ok {
                    let mut q2 = q.clone();
                    q2.push(o);
                    out.push((q2.clone(), s2.clone()));
                    next.push((q2, s2, c));
                }
            }
        }
        from = next;
    }
    out
}

pub fn explore(cx: &mut Cx, p: Prop) {
    match p {
        Prop::C07 => {
            mc::many::explore(cx, mc::many::Prop::C07);
            mc::pump::locks(cx);
        }
        Prop::C08 => {
            mc::many::explore(cx, mc::many::Prop::C08);
            mc::many::explore_counts(cx);
            mc::pump::edits(cx, mc::pump::Part::Locks);
        }
        Prop::C09 => {}
    }
    // (nodes, initial locks, depth)
    let plan: &[(usize, usize, usize)] = match (p, cx.thorough()) {
        (Prop::C07, false) => &[(1, 2, 2), (2, 2, 2), (3, 2, 2), (4, 1, 1), (1, 1, 3), (2, 1, 3), (1, 0, 4)],
        (Prop::C07, true) => &[(1, 3, 3), (2, 2, 3), (3, 3, 2), (3, 1, 3), (4, 2, 2), (1, 0, 5), (2, 0, 4)],
        (Prop::C08, false) => &[(1, 2, 2), (2, 2, 2), (3, 3, 1), (3, 1, 2), (4, 2, 1), (1, 1, 3), (2, 0, 3), (2, 1, 3)],
        (Prop::C08, true) => &[(1, 3, 3), (2, 2, 3), (3, 2, 2), (3, 3, 1), (4, 1, 2), (4, 3, 1), (1, 1, 4), (5, 2, 1)],
        (Prop::C09, false) => &[(1, 3, 1), (2, 3, 1), (3, 3, 1), (4, 2, 1), (1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 1, 3)],
        (Prop::C09, true) => &[(3, 3, 1), (4, 3, 1), (5, 2, 1), (2, 3, 2), (3, 3, 2), (4, 1, 2), (1, 2, 3), (2, 2, 3)],
    };
    for &(n, k, d) in plan {
        for s in starts(n) {
            for (q, s1) in inits(&s, k) {
                if cx.task() {
                    rec(cx, p, &s, &q, &s1, &mut vec![], d);
                }
            }
        }
    }
}

const A: &[&str] = &[
    "an iterator over frozen handles is dropped by the harness as soon as its last item was taken: when exactly an exhausted one lets go is not prescribed",
    "at most 6 items are held when another one is acquired",
];

fn main() {
    sup::main(&[
        Check {
            id: "C07",
            f: |cx| explore(cx, Prop::C07),
            bounds_quick: "every history of acquiring, cloning, converting, navigating, iterating and releasing locks after every consistent set of k initial locks on every forest of n nodes with all or one plain handle per tree: (n,k,length) = (1,2,2) (2,2,2) (3,2,2) (4,1,1) (1,1,3) (2,1,3) (1,0,4); three release orders with a full check after every release; 2, 127..129, 255..257 and 65537 equal handles or locks, cloned or acquired one by one, with 0..2 of every other kind, released in both orders; every way of acquiring, alone (65540 times) and in pairs (520 times), repeated next to every kind of held lock",
            bounds_thorough: "as quick, with (1,3,3) (2,2,3) (3,3,2) (3,1,3) (4,2,2) (1,0,5) (2,0,4); numbers of handles or locks also at 2^8 +- 2, 2^15 +- 1 and 2^16 +- 2; pairs of ways of acquiring also 65540 times",
            assumptions: A,
        },
        Check {
            id: "C08",
            f: |cx| explore(cx, Prop::C08),
            bounds_quick: "every history of acquisitions, releases and authorized edits, likewise: (n,k,length) = (1,2,2) (2,2,2) (3,3,1) (3,1,2) (4,2,1) (1,1,3) (2,0,3) (2,1,3); three release orders; 2, 127..129, 255..257 and 65537 equal handles or locks, cloned or acquired one by one, with 0..2 of every other kind, across every edit, released in both orders; every number up to 2 of tokens and hot handles in each of seven places of two trees, independently, across 17 edits in two ways, released in both orders; every edit repeated 520 times (pairs: 262) from every forest up to 3 (2) nodes, and those that restore the shape 65540 times",
            bounds_thorough: "as quick, with (1,3,3) (2,2,3) (3,2,2) (3,3,1) (4,1,2) (4,3,1) (1,1,4) (5,2,1); up to 3 locks in each of the seven places; numbers of handles or locks also at 2^8 +- 2, 2^15 +- 1 and 2^16 +- 2",
            assumptions: A,
        },
        Check {
            id: "C09",
            f: |cx| explore(cx, Prop::C09),
            bounds_quick: "every history of acquisitions, releases and authorized edits followed by every edit or bundling with a token of another or a dead tree, or by anything while a prohibition is active: (n,k,length) = (1,3,1) (2,3,1) (3,3,1) (4,2,1) (1,2,2) (2,2,2) (3,2,2) (2,1,3); three release orders",
            bounds_thorough: "as quick, with (3,3,1) (4,3,1) (5,2,1) (2,3,2) (3,3,2) (4,1,2) (1,2,3) (2,2,3)",
            assumptions: A,
        },
    ]);
}
