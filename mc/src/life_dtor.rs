// C21: data destructors that look at, edit and drop things while a tree is being released.
// Included by `bin/life.rs`.

use std::cell::{Cell, RefCell};
use std::rc::Rc;

use dendron::serial::{Event, TreeBuilder};
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{FrozenNode, HotNode, Node, NodeWeak, Tree, TreeWeak};

use mc::model::{As, Exp, Model, AS};
use mc::ops::{adopt, insert};
use mc::shape;
use mc::sup::{catch, Cx, Res, Run};

const TEMP: usize = usize::MAX;

#[derive(Default)]
struct PReg {
    m: RefCell<Model>,
    weak: RefCell<Vec<NodeWeak<P>>>,
    trees: RefCell<Vec<TreeWeak<P>>>,
    /// What the strong handles that exist refer to.
    refs: RefCell<Vec<To>>,
    /// Nodes whose data is mutably borrowed just now.
    busy: RefCell<Vec<usize>>,
    err: RefCell<Option<String>>,
    /// Drops per model node.
    drops: RefCell<Vec<u32>>,
    probes: Cell<u64>,
    live: Cell<i64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum To {
    Node(usize),
    Tree(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Own {
    Node,
    Hot,
    Frozen,
    Tree,
    Dft,
    StableDft,
}
const OWN: [Own; 6] = [Own::Node, Own::Hot, Own::Frozen, Own::Tree, Own::Dft, Own::StableDft];

#[allow(dead_code)]
enum Held {
    Node(Node<P>),
    Hot(HotNode<P>),
    Frozen(FrozenNode<P>),
    Tree(Tree<P>),
    Dft(dendron::traverse::DepthFirstTraverser<P>),
    StableDft(dendron::traverse::StableDepthFirstTraverser<P>),
}

fn own(n: Node<P>, k: Own) -> Held {
    match k {
        Own::Node => Held::Node(n),
        Own::Hot => Held::Hot(n.bundle_new_hierarchy_edit_grant().expect("harness")),
        Own::Frozen => Held::Frozen(n.bundle_new_hierarchy_edit_prohibition().expect("harness")),
        Own::Tree => Held::Tree(n.tree()),
        Own::Dft => Held::Dft(n.depth_first_traverse()),
        Own::StableDft => Held::StableDft(
            n.bundle_new_hierarchy_edit_prohibition().expect("harness").depth_first_traverse_stable(),
        ),
    }
}

/// What a destructor does, apart from looking at everything before and after.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    /// Drops the handle that the data owns; it may be the last one of that tree.
    DropOwned,
    /// Makes and drops handles of every kind to the first other tree.
    Handles,
    Create(As),
    IntP,
    IntC,
    Replace,
    Detach,
    /// Moves node `1` of the tree after node `0`'s place.
    MoveIn(As),
    /// Moves the whole second other tree into the first other tree.
    Merge(As),
    CloneSub,
    CloneIns(As),
    NewTree,
    Write,
}
fn acts() -> Vec<Act> {
    let mut v = vec![
        Act::DropOwned,
        Act::Handles,
        Act::IntP,
        Act::IntC,
        Act::Replace,
        Act::Detach,
        Act::CloneSub,
        Act::NewTree,
        Act::Write,
    ];
    for a in AS {
        v.push(Act::Create(a));
        v.push(Act::MoveIn(a));
        v.push(Act::Merge(a));
        v.push(Act::CloneIns(a));
    }
    v
}

struct P {
    reg: Rc<PReg>,
    id: usize,
    acts: Vec<Act>,
    /// Trees this data owns the last handle of.
    owned: RefCell<Vec<(To, Held)>>,
    #[allow(dead_code)]
    tokens: RefCell<(Option<HierarchyEditGrant<P>>, Option<HierarchyEditProhibition<P>>)>,
}

impl P {
    fn new(reg: &Rc<PReg>, id: usize) -> P {
        reg.live.set(reg.live.get() + 1);
        P { reg: reg.clone(), id, acts: vec![], owned: RefCell::new(vec![]), tokens: RefCell::new((None, None)) }
    }
}
impl Clone for P {
    fn clone(&self) -> P {
        P::new(&self.reg, TEMP)
    }
}

impl Drop for P {
    fn drop(&mut self) {
        let reg = self.reg.clone();
        reg.live.set(reg.live.get() - 1);
        if self.id != TEMP {
            reg.drops.borrow_mut()[self.id] += 1;
        }
        let r = catch(|| -> Res {
            reg.probe("at the beginning of a destructor")?;
            let acts = std::mem::take(&mut self.acts);
            for a in acts {
                self.act(a).map_err(|e| format!("{a:?} in the destructor of node {}: {e}", self.id))?;
                reg.probe("after an action of a destructor")?;
            }
            let owned = std::mem::take(&mut *self.owned.borrow_mut());
            for (to, h) in owned {
                reg.unref(to);
                drop(h);
            }
            reg.probe("at the end of a destructor")
        });
        let r = r.unwrap_or_else(|p| Err(format!("panic in a destructor: {p}")));
        if let Err(e) = r {
            reg.err.borrow_mut().get_or_insert(e);
        }
    }
}

impl PReg {
    fn idx(&self, n: &Node<P>) -> Result<usize, String> {
        // By identity of live nodes only.
        for (i, w) in self.weak.borrow().iter().enumerate() {
            if w.upgrade().is_some_and(|u| u.ptr_eq(n)) {
                return Ok(i);
            }
        }
        Err("a node that is not alive".into())
    }
    fn opt(&self, n: Option<Node<P>>) -> Result<Option<usize>, String> {
        n.map(|n| self.idx(&n)).transpose()
    }

    /// Looks at everything that can be looked at.
    fn probe(&self, when: &str) -> Res {
        self.probes.set(self.probes.get() + 1);
        self.probe_(when).map_err(|e| format!("{when}: {e}"))
    }
    fn probe_(&self, _when: &str) -> Res {
        let m = self.m.borrow().clone();
        let weak: Vec<NodeWeak<P>> = self.weak.borrow().clone();
        let trees: Vec<TreeWeak<P>> = self.trees.borrow().clone();
        for t in 0..trees.len() {
            let alive = m.roots[t].is_some() && self.alive(&m, t);
            let up = trees[t].upgrade();
            if up.is_some() != alive {
                return Err(format!("weak reference to tree {t} upgrades: {}, tree alive: {alive}", up.is_some()));
            }
            if let Some(tree) = up {
                let r = self.idx(&tree.root())?;
                if Some(r) != m.roots[t] {
                    return Err(format!("root of tree {t} is node {r}"));
                }
            }
        }
        for x in 0..weak.len() {
            let t = m.n[x].tree;
            let alive = self.alive(&m, t);
            let up = weak[x].upgrade();
            if up.is_some() != alive {
                return Err(format!("weak reference to node {x} upgrades: {}, tree alive: {alive}", up.is_some()));
            }
            let Some(n) = up else { continue };
            // A tree that the edit in progress has just made is not known yet.
            if t < trees.len() && !n.tree().ptr_eq(&trees[t].upgrade().ok_or("tree")?) {
                return Err(format!("node {x} says it belongs to a tree other than {t}"));
            }
            let is_busy = self.busy.borrow().contains(&x);
            match n.try_borrow_data() {
                Ok(d) => {
                    if is_busy {
                        return Err(format!("data of node {x} is borrowable while it is being written"));
                    }
                    if d.id != x {
                        return Err(format!("node {x} has the data of node {}", d.id));
                    }
                }
                Err(_) if is_busy => {}
                Err(_) => return Err(format!("data of node {x} is not borrowable")),
            }
            let e = |w: &str, got: Option<usize>, want: Option<usize>| -> Res {
                if got == want {
                    Ok(())
                } else {
                    Err(format!("{w} of node {x} is {got:?}, expected {want:?}"))
                }
            };
            e("parent", self.opt(n.parent())?, m.parent(x))?;
            e("next sibling", self.opt(n.next_sibling())?, m.next(x))?;
            e("previous sibling", self.opt(n.prev_sibling())?, m.prev(x))?;
            e("first child", self.opt(n.first_child())?, m.n[x].kids.first().copied())?;
            e("last child", self.opt(n.last_child())?, m.n[x].kids.last().copied())?;
            e("number of children", Some(n.num_children()), Some(m.n[x].kids.len()))?;
            if m.parent(x).is_none() {
                let mut got = vec![];
                for ev in n.depth_first_traverse() {
                    let open = matches!(ev, dendron::traverse::DftEvent::Open(_));
                    got.push((open, self.idx(&ev.into_value())?));
                }
                if got != m.events(x) {
                    return Err(format!("events of the tree of {x} are {got:?}"));
                }
            }
        }
        Ok(())
    }

    /// A new node was made.
    fn bind(&self, n: &Node<P>) {
        self.weak.borrow_mut().push(n.downgrade());
        self.drops.borrow_mut().push(0);
    }
    fn bind_trees(&self) -> Res {
        let m = self.m.borrow();
        let mut trees = self.trees.borrow_mut();
        while trees.len() < m.roots.len() {
            let r = m.roots[trees.len()].ok_or("harness: new tree")?;
            let n = self.weak.borrow()[r].upgrade().ok_or("a new tree is not alive")?;
            trees.push(n.tree().downgrade());
        }
        Ok(())
    }
    /// First node of the first tree that is alive, with that tree; trees from `from` on.
    fn other(&self, from: usize) -> Option<(usize, Node<P>)> {
        let m = self.m.borrow();
        for t in from..self.trees.borrow().len() {
            if let (Some(r), true) = (m.roots[t], self.alive(&m, t)) {
                return Some((r, self.weak.borrow()[r].upgrade()?));
            }
        }
        None
    }
    fn alive(&self, m: &Model, t: usize) -> bool {
        self.refs.borrow().iter().any(|r| match *r {
            To::Node(x) => m.n[x].tree == t,
            To::Tree(u) => u == t,
        })
    }
    fn unref(&self, to: To) {
        let mut v = self.refs.borrow_mut();
        let i = v.iter().position(|r| *r == to).expect("harness: refs");
        v.remove(i);
    }
    fn addref(&self, to: To) {
        self.refs.borrow_mut().push(to);
    }
}

impl P {
    fn act(&self, a: Act) -> Res {
        let reg = &self.reg;
        let exp_ok = |what: &str, e: &Exp, ok: bool| -> Res {
            match e {
                Exp::Ok if !ok => Err(format!("{what} failed")),
                Exp::Err(_) if ok => Err(format!("{what} succeeded")),
                _ => Ok(()),
            }
        };
        match a {
            Act::DropOwned => {
                let o = self.owned.borrow_mut().pop();
                if let Some((to, h)) = o {
                    reg.unref(to);
                    drop(h);
                }
                return Ok(());
            }
            Act::NewTree => {
                let n = Node::new_tree(P::new(reg, TEMP));
                let h = n.bundle_new_hierarchy_edit_grant().map_err(|_| "new tree not grantable")?;
                let c = h.create_as_last_child(P::new(reg, TEMP));
                drop(h);
                c.detach_subtree();
                return Ok(());
            }
            _ => {}
        }
        // Actions on the first other tree.
        let Some((r, root)) = reg.other(1) else { return Ok(()) };
        let frozen = root.tree().grant_hierarchy_edit().is_err();
        if frozen && !matches!(a, Act::CloneSub | Act::Handles | Act::Write) {
            // Somebody else holds a prohibition.
            return Ok(());
        }
        match a {
            Act::Handles => {
                let t = root.tree();
                let w = t.downgrade();
                let h = root.clone().bundle_new_hierarchy_edit_grant();
                if h.is_err() != frozen {
                    return Err("grant of the other tree".into());
                }
                drop(h);
                let f = root.clone().bundle_new_hierarchy_edit_prohibition();
                drop(f);
                drop((t, root));
                drop(w.upgrade().ok_or("tree died")?);
            }
            Act::Write => {
                let d = root.try_borrow_data_mut().map_err(|_| "the data of the other tree is borrowed")?;
                reg.busy.borrow_mut().push(r);
                reg.probe("while writing")?;
                reg.busy.borrow_mut().pop();
                drop(d);
            }
            Act::CloneSub => {
                let c = root.try_clone_subtree().map_err(|_| "clone")?;
                drop(c);
            }
            Act::Create(as_) => {
                // At the last node in preorder, so that siblings are possible.
                let x = *reg.m.borrow().preorder(r).last().unwrap();
                let n = reg.weak.borrow()[x].upgrade().ok_or("node died")?;
                let y = reg.m.borrow().len();
                let g = n.tree().grant_hierarchy_edit().map_err(|_| "grant")?;
                let e = reg.m.borrow_mut().clone().create(x, as_, 0);
                let mut d = P::new(reg, y);
                if e.is_err() {
                    d.id = TEMP;
                }
                let res = n.try_create_node_as(&g, d, adopt(as_));
                match (&res, e) {
                    (Ok(c), Ok(_)) => {
                        let _ = reg.m.borrow_mut().create(x, as_, 0);
                        reg.bind(c);
                    }
                    (Err(_), Err(_)) => {}
                    _ => return Err("create: wrong outcome".into()),
                }
            }
            Act::IntP | Act::IntC => {
                let x = *reg.m.borrow().preorder(r).last().unwrap();
                let n = reg.weak.borrow()[x].upgrade().ok_or("node died")?;
                let y = reg.m.borrow().len();
                let g = n.tree().grant_hierarchy_edit().map_err(|_| "grant")?;
                let d = P::new(reg, y);
                let c = if a == Act::IntP { n.create_as_interrupting_parent(&g, d) } else { n.create_as_interrupting_child(&g, d) };
                if a == Act::IntP {
                    reg.m.borrow_mut().int_parent(x, 0);
                } else {
                    reg.m.borrow_mut().int_child(x, 0);
                }
                reg.bind(&c);
            }
            Act::Replace | Act::Detach => {
                let x = reg.m.borrow().preorder(r).get(1).copied().unwrap_or(r);
                let n = reg.weak.borrow()[x].upgrade().ok_or("node died")?;
                drop(root);
                reg.addref(To::Node(x));
                let g = n.tree().grant_hierarchy_edit().map_err(|_| "grant")?;
                if a == Act::Replace {
                    let e = reg.m.borrow_mut().replace(x);
                    let ok = n.try_replace_with_children(&g).is_ok();
                    exp_ok("replace", &e, ok)?;
                } else {
                    reg.m.borrow_mut().detach(x);
                    n.detach_subtree(&g);
                }
                drop(g);
                reg.bind_trees()?;
                reg.probe("right after the edit")?;
                // This may be the last handle of the separated part.
                reg.unref(To::Node(x));
                drop(n);
            }
            Act::MoveIn(as_) => {
                let p = reg.m.borrow().preorder(r);
                let (Some(&x), Some(&b)) = (p.get(1), p.last()) else { return Ok(()) };
                let n = reg.weak.borrow()[x].upgrade().ok_or("node died")?;
                let bn = reg.weak.borrow()[b].upgrade().ok_or("node died")?;
                let g = n.tree().grant_hierarchy_edit().map_err(|_| "grant")?;
                let bh = bn.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?;
                let e = reg.m.borrow_mut().mv(x, as_, b, true);
                let ok = n.try_detach_insert_subtree(&g, insert(as_, &bh)).is_ok();
                exp_ok("move", &e, ok)?;
            }
            Act::Merge(as_) => {
                let t = reg.m.borrow().n[r].tree;
                let Some((r2, n2)) = reg.other(t + 1) else { return Ok(()) };
                let Ok(g2) = n2.tree().grant_hierarchy_edit() else { return Ok(()) };
                let b = *reg.m.borrow().preorder(r).last().unwrap();
                let bn = reg.weak.borrow()[b].upgrade().ok_or("node died")?;
                let bh = bn.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?;
                let t2 = reg.m.borrow().n[r2].tree;
                let held = reg.refs.borrow().contains(&To::Tree(t2));
                let e = reg.m.borrow_mut().mv(r2, as_, b, held);
                let ok = n2.try_detach_insert_subtree(&g2, insert(as_, &bh)).is_ok();
                exp_ok("merge", &e, ok)?;
            }
            Act::CloneIns(as_) => {
                let b = *reg.m.borrow().preorder(r).last().unwrap();
                let bn = reg.weak.borrow()[b].upgrade().ok_or("node died")?;
                let bh = bn.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?;
                let x = *reg.m.borrow().preorder(r).last().unwrap();
                let n = reg.weak.borrow()[x].upgrade().ok_or("node died")?;
                let m0 = reg.m.borrow().clone();
                let e = reg.m.borrow_mut().clone_ins(x, as_, b, false);
                let res = n.try_clone_insert_subtree(insert(as_, &bh));
                match (e, res) {
                    (Ok(new), Ok(c)) => {
                        // A single node was copied.
                        if new.len() != 1 {
                            return Err("harness: one node".into());
                        }
                        c.borrow_data_mut().id = new[0];
                        reg.bind(&c.plain());
                    }
                    (Err(_), Err(_)) => *reg.m.borrow_mut() = m0,
                    _ => return Err("clone-insert: wrong outcome".into()),
                }
            }
            _ => {}
        }
        Ok(())
    }
}

/// Where the handles of another tree are.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Place {
    /// Held by the program.
    Outside,
    /// Owned by the data of the acting node.
    InActor(Own, usize),
    /// Owned by the data of the last node of the previous tree.
    InPrev(Own, usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Token {
    None,
    Grant,
    Prohibition,
}

/// How the acting data comes to be dropped.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Trig {
    /// The last handle of its tree, of this kind at this node, goes away.
    Last(Own, usize),
    /// A bundling that is refused takes the last handle with it.
    RefusedGrant(usize),
    RefusedProhibition(usize),
    /// The node with the only handle leaves the tree: by detaching, by replacing it with its
    /// children, by a move to another tree. `.1`: the handle is a hot one.
    DetachKills(usize, bool),
    ReplaceKills(usize, bool),
    MoveKills(usize, bool, As),
    /// It is handed to a creation that is rejected / panics.
    FailedCreate(bool),
    /// It is overwritten.
    Assign,
    /// It was opened in a builder that is dropped, or refused by a builder.
    BuilderDrop,
    BuilderRefuse,
    /// A copy of it is discarded because node `.0` is being written; `.1`: clone-insert there.
    FailedClone(usize),
    FailedCloneIns(usize, As, usize),
}

#[derive(Clone, Debug)]
struct Cfg {
    t0: shape::Shape,
    others: Vec<(shape::Shape, Place)>,
    actor: usize,
    acts: Vec<Act>,
    token: Token,
    trig: Trig,
}

fn to_of(m: &Model, k: Own, x: usize) -> To {
    match k {
        Own::Tree => To::Tree(m.n[x].tree),
        _ => To::Node(x),
    }
}

fn run_cfg(c: &Cfg, run: &mut Run) -> Res {
    let reg = Rc::new(PReg::default());
    let mut f = vec![c.t0.clone()];
    f.extend(c.others.iter().map(|o| o.0.clone()));
    let m = Model::from_forest(&f);
    let n0 = c.t0.len();
    let mut nodes: Vec<Option<Node<P>>> = vec![];
    for t in 0..f.len() {
        let base = nodes.len();
        let root = Node::new_tree(P::new(&reg, base));
        let g = root.tree().grant_hierarchy_edit().map_err(|_| "harness: grant")?;
        nodes.push(Some(root));
        for (i, &p) in f[t].iter().enumerate().skip(1) {
            let par = nodes[base + p].clone().ok_or("harness")?;
            nodes.push(Some(par.create_as_last_child(&g, P::new(&reg, base + i))));
        }
    }
    *reg.weak.borrow_mut() = nodes.iter().flatten().map(|n| n.downgrade()).collect();
    *reg.trees.borrow_mut() = m.roots.iter().flatten().map(|&r| nodes[r].as_ref().expect("harness").tree().downgrade()).collect();
    *reg.drops.borrow_mut() = vec![0; m.len()];
    *reg.m.borrow_mut() = m.clone();
    let made_elsewhere = matches!(c.trig, Trig::FailedCreate(_) | Trig::BuilderDrop | Trig::BuilderRefuse);
    // The acting data is either in a node or handed over by the trigger.
    let mut actor = made_elsewhere.then(|| P::new(&reg, TEMP));
    let mut outside = vec![];
    let mut base = n0;
    let mut prev_last = None;
    for (t, (s, place)) in c.others.iter().enumerate() {
        let h = |k: Own, y: usize| -> (To, Held) {
            let to = to_of(&m, k, base + y);
            reg.addref(to);
            (to, own(nodes[base + y].clone().expect("harness"), k))
        };
        match *place {
            Place::Outside => outside.push(h(if t == 0 { Own::Node } else { Own::Dft }, 0)),
            Place::InActor(k, y) => {
                let o = h(k, y);
                match &mut actor {
                    Some(a) => a.owned.borrow_mut().push(o),
                    None => nodes[c.actor].as_ref().expect("harness").borrow_data().owned.borrow_mut().push(o),
                }
            }
            Place::InPrev(k, y) => {
                let o = h(k, y);
                let p: usize = prev_last.ok_or("harness: place")?;
                nodes[p].as_ref().expect("harness").borrow_data().owned.borrow_mut().push(o)
            }
        }
        base += s.len();
        prev_last = Some(base - 1);
    }
    match &mut actor {
        Some(a) => a.acts = c.acts.clone(),
        None => {
            let n = nodes[c.actor].clone().expect("harness");
            n.borrow_data_mut().acts = c.acts.clone();
            let tok = match c.token {
                Token::None => (None, None),
                Token::Grant => (n.tree().grant_hierarchy_edit().ok(), None),
                Token::Prohibition => (None, n.tree().prohibit_hierarchy_edit().ok()),
            };
            *n.borrow_data().tokens.borrow_mut() = tok;
        }
    }
    // Everything is held for the time being.
    for i in 0..n0 {
        reg.addref(To::Node(i));
    }
    for x in n0..nodes.len() {
        nodes[x] = None;
    }
    reg.probe("before")?;
    let release = |nodes: &mut Vec<Option<Node<P>>>, but: Option<usize>| -> Option<Node<P>> {
        let kept = but.and_then(|y| nodes[y].clone());
        for i in 0..n0 {
            if Some(i) == but {
                continue;
            }
            reg.unref(To::Node(i));
            nodes[i] = None;
        }
        nodes.clear();
        kept
    };
    let get = |nodes: &Vec<Option<Node<P>>>, x: usize| nodes[x].clone().expect("harness");
    match c.trig {
        Trig::Last(k, y) => {
            let to = to_of(&m, k, y);
            reg.addref(to);
            let h = own(get(&nodes, y), k);
            release(&mut nodes, None);
            reg.probe("before the last handle goes")?;
            reg.unref(to);
            drop(h);
        }
        Trig::RefusedGrant(y) | Trig::RefusedProhibition(y) => {
            let n = release(&mut nodes, Some(y)).ok_or("harness")?;
            let grant = matches!(c.trig, Trig::RefusedGrant(_));
            let (g, p) = if grant {
                (None, n.tree().prohibit_hierarchy_edit().ok())
            } else {
                (n.tree().grant_hierarchy_edit().ok(), None)
            };
            if g.is_none() && p.is_none() {
                return Err("harness: token".into());
            }
            reg.unref(To::Node(y));
            let refused = if grant {
                n.bundle_new_hierarchy_edit_grant().is_err()
            } else {
                n.bundle_new_hierarchy_edit_prohibition().is_err()
            };
            if !refused {
                return Err("bundling was not refused".into());
            }
            reg.probe("after the refused bundling")?;
            drop((g, p));
        }
        Trig::DetachKills(y, hot) | Trig::ReplaceKills(y, hot) | Trig::MoveKills(y, hot, _) => {
            let n = release(&mut nodes, Some(y)).ok_or("harness")?;
            let dest = match c.trig {
                Trig::MoveKills(..) => {
                    let (_, d) = reg.other(1).ok_or("harness: other tree")?;
                    // The last node, so that siblings are possible.
                    let b = *reg.m.borrow().preorder(reg.idx(&d)?).last().ok_or("harness")?;
                    let d = reg.weak.borrow()[b].upgrade().ok_or("harness")?;
                    Some((b, d.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?))
                }
                _ => None,
            };
            let (h, p) = if hot {
                (Some(n.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?), None)
            } else {
                (None, Some((n.tree().grant_hierarchy_edit().map_err(|_| "grant")?, n)))
            };
            let exp = match c.trig {
                Trig::DetachKills(..) => {
                    reg.m.borrow_mut().detach(y);
                    Exp::Ok
                }
                Trig::ReplaceKills(..) => reg.m.borrow_mut().replace(y),
                Trig::MoveKills(_, _, as_) => {
                    let b = dest.as_ref().ok_or("harness")?.0;
                    reg.m.borrow_mut().mv(y, as_, b, false)
                }
                _ => return Err("harness".into()),
            };
            let ok = match (c.trig, &h, &p) {
                (Trig::DetachKills(..), Some(h), _) => {
                    h.detach_subtree();
                    true
                }
                (Trig::DetachKills(..), _, Some((g, n))) => {
                    n.detach_subtree(g);
                    true
                }
                (Trig::ReplaceKills(..), Some(h), _) => h.try_replace_with_children().is_ok(),
                (Trig::ReplaceKills(..), _, Some((g, n))) => n.try_replace_with_children(g).is_ok(),
                (Trig::MoveKills(_, _, as_), Some(h), _) => {
                    h.try_detach_insert_subtree(insert(as_, &dest.as_ref().ok_or("harness")?.1)).is_ok()
                }
                (Trig::MoveKills(_, _, as_), _, Some((g, n))) => {
                    n.try_detach_insert_subtree(g, insert(as_, &dest.as_ref().ok_or("harness")?.1)).is_ok()
                }
                _ => return Err("harness".into()),
            };
            if ok != (exp == Exp::Ok) {
                return Err(format!("the edit succeeded: {ok}, expected {exp:?}"));
            }
            reg.bind_trees()?;
            reg.probe("after the edit")?;
            drop(dest);
            reg.probe("after the edit")?;
            reg.unref(To::Node(y));
            drop((h, p));
        }
        Trig::FailedCreate(panicking) => {
            let r = get(&nodes, 0);
            let g = r.tree().grant_hierarchy_edit().map_err(|_| "grant")?;
            let d = actor.take().ok_or("harness")?;
            if panicking {
                if catch(|| r.create_as_next_sibling(&g, d)).is_ok() {
                    return Err("creation beside the root succeeded".into());
                }
            } else if r.try_create_as_prev_sibling(&g, d).is_ok() {
                return Err("creation beside the root succeeded".into());
            }
        }
        Trig::Assign => {
            let n = get(&nodes, c.actor);
            let new = P::new(&reg, TEMP);
            {
                let mut d = n.borrow_data_mut();
                reg.busy.borrow_mut().push(c.actor);
                *d = new;
                reg.probe("after the assignment")?;
            }
            reg.busy.borrow_mut().pop();
            n.borrow_data_mut().id = c.actor;
            reg.drops.borrow_mut()[c.actor] -= 1;
        }
        Trig::BuilderDrop => {
            let mut b = TreeBuilder::new();
            b.open(P::new(&reg, TEMP)).map_err(|_| "open")?;
            b.open(actor.take().ok_or("harness")?).map_err(|_| "open")?;
            b.open(P::new(&reg, TEMP)).map_err(|_| "open")?;
            drop(b);
        }
        Trig::BuilderRefuse => {
            let mut b = TreeBuilder::new();
            b.push_events(vec![Event::Open(P::new(&reg, TEMP)), Event::Close(1)]).map_err(|_| "events")?;
            if b.open(actor.take().ok_or("harness")?).is_ok() {
                return Err("a second root was accepted".into());
            }
            drop(b.finish().map_err(|_| "finish")?);
        }
        Trig::FailedClone(b) => {
            let (n, bn) = (get(&nodes, c.actor), get(&nodes, b));
            let d = bn.borrow_data_mut();
            reg.busy.borrow_mut().push(b);
            let r = n.try_clone_subtree();
            let want = m.preorder(c.actor).contains(&b);
            if r.is_err() != want {
                return Err("clone: wrong outcome".into());
            }
            drop(r);
            reg.probe("after the clone")?;
            reg.busy.borrow_mut().pop();
            drop(d);
        }
        Trig::FailedCloneIns(b, as_, a) => {
            let (n, bn, an) = (get(&nodes, c.actor), get(&nodes, b), get(&nodes, a));
            let h = an.bundle_new_hierarchy_edit_grant().map_err(|_| "grant")?;
            let d = bn.borrow_data_mut();
            reg.busy.borrow_mut().push(b);
            if n.try_clone_insert_subtree(insert(as_, &h)).is_ok() {
                return Err("clone-insert succeeded".into());
            }
            reg.probe("after the clone-insert")?;
            reg.busy.borrow_mut().pop();
            drop(d);
        }
    }
    reg.probe("after")?;
    run.step(reg.probes.get());
    run.state(reg.m.borrow().hash());
    if !nodes.is_empty() {
        release(&mut nodes, None);
        reg.probe("after the release of the tree")?;
    }
    drop(actor);
    while let Some((to, h)) = outside.pop() {
        reg.unref(to);
        drop(h);
        reg.probe("after the release of another tree")?;
    }
    if let Some(e) = reg.err.borrow().clone() {
        return Err(e);
    }
    for (x, &k) in reg.drops.borrow().iter().enumerate() {
        if k != 1 {
            return Err(format!("data of node {x} was dropped {k} times"));
        }
    }
    if reg.live.get() != 0 {
        return Err(format!("{} values are left", reg.live.get()));
    }
    Ok(())
}

pub fn explore(cx: &mut Cx) {
    let go = |cx: &mut Cx, c: &Cfg| cx.case(|| format!("destructor {c:?}"), |run| run_cfg(c, run));
    let nmax = cx.size(4, 5);
    let kinds = |k: Own, tok: Token| match tok {
        Token::None => true,
        Token::Grant => !matches!(k, Own::Frozen | Own::StableDft),
        Token::Prohibition => !matches!(k, Own::Hot),
    };
    // Looking only.
    for n in 1..=nmax + 1 {
        for t0 in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            for token in [Token::None, Token::Grant, Token::Prohibition] {
                for actor in 0..n {
                    let mut trigs = vec![];
                    for y in 0..n {
                        for k in OWN {
                            if kinds(k, token) {
                                trigs.push(Trig::Last(k, y));
                            }
                        }
                        if token == Token::None {
                            for hot in [false, true] {
                                trigs.push(Trig::DetachKills(y, hot));
                                trigs.push(Trig::ReplaceKills(y, hot));
                            }
                            trigs.push(Trig::RefusedGrant(y));
                            trigs.push(Trig::RefusedProhibition(y));
                        }
                    }
                    if token == Token::None && actor == 0 {
                        trigs.extend([Trig::FailedCreate(false), Trig::FailedCreate(true), Trig::BuilderDrop, Trig::BuilderRefuse]);
                    }
                    if token == Token::None {
                        trigs.push(Trig::Assign);
                        for b in 0..n {
                            trigs.push(Trig::FailedClone(b));
                        }
                        let m = Model::from_forest(&[t0.clone()]);
                        for b in m.preorder(actor) {
                            for a in 0..n {
                                for as_ in AS {
                                    trigs.push(Trig::FailedCloneIns(b, as_, a));
                                }
                            }
                        }
                    }
                    for trig in trigs {
                        go(cx, &Cfg { t0: t0.clone(), others: vec![], actor, acts: vec![], token, trig });
                    }
                }
            }
        }
    }
    // A subtree leaves for another tree.
    for n in 1..=nmax {
        for t0 in shape::trees(n) {
            for n1 in 1..=3 {
                for t1 in shape::trees(n1) {
                    if !cx.task() {
                        continue;
                    }
                    for y in 0..n {
                        for as_ in AS {
                            for hot in [false, true] {
                                let others = vec![(t1.clone(), Place::Outside)];
                                let trig = Trig::MoveKills(y, hot, as_);
                                go(cx, &Cfg { t0: t0.clone(), others, actor: 0, acts: vec![], token: Token::None, trig });
                            }
                        }
                    }
                }
            }
        }
    }
    // Acting on other trees.
    let mut lists: Vec<Vec<Act>> = vec![vec![]];
    lists.extend(acts().into_iter().map(|a| vec![a]));
    let pairs = cx.thorough();
    for a in acts() {
        for b in acts() {
            // Pairs of edits are for the thorough tier, except those with a drop.
            if pairs || a == Act::DropOwned || b == Act::DropOwned {
                lists.push(vec![a, b]);
            }
        }
    }
    let some: Vec<Vec<Act>> = lists.iter().filter(|l| l.len() < 2 || l.contains(&Act::DropOwned)).cloned().collect();
    for n in 1..=cx.size(3, 4) {
        for t0 in shape::trees(n) {
            for n1 in 1..=3 {
                for t1 in shape::trees(n1) {
                    if !cx.task() {
                        continue;
                    }
                    if n + n1 > 6 {
                        continue;
                    }
                    // All pairs of actions, as long as the trees are small.
                    let pairs = pairs && n + n1 <= 4;
                    let lists = if pairs { &lists } else { &some };
                    let mut places = vec![Place::Outside];
                    for k in OWN {
                        for y in 0..n1 {
                            places.push(Place::InActor(k, y));
                        }
                    }
                    for &p1 in &places {
                        let mut others = vec![vec![(t1.clone(), p1)]];
                        for t2 in [vec![0], vec![0, 0]] {
                            others.push(vec![(t1.clone(), p1), (t2.clone(), Place::Outside)]);
                            for k in OWN {
                                let y = t2.len() - 1;
                                others.push(vec![(t1.clone(), p1), (t2.clone(), Place::InPrev(k, y))]);
                                if p1 == Place::Outside || pairs {
                                    others.push(vec![(t1.clone(), p1), (t2.clone(), Place::InActor(k, y))]);
                                }
                            }
                        }
                        for others in others {
                            // A tree must not come to own a handle of itself.
                            let cyclic = others.iter().any(|o| matches!(o.1, Place::InPrev(..)));
                            for acts in lists {
                                if !pairs && acts.len() > 1 && n1 == 3 {
                                    continue;
                                }
                                if cyclic && acts.iter().any(|a| matches!(a, Act::Merge(_))) {
                                    continue;
                                }
                                for actor in 0..n {
                                    let mut trigs = vec![Trig::Last(Own::Node, n - 1), Trig::Last(Own::Tree, 0), Trig::Assign];
                                    if actor == 0 {
                                        trigs.extend([Trig::FailedCreate(false), Trig::BuilderDrop, Trig::BuilderRefuse]);
                                    }
                                    if actor == n - 1 {
                                        trigs.push(Trig::Last(Own::StableDft, 0));
                                        trigs.push(Trig::Last(Own::Hot, 0));
                                        trigs.push(Trig::RefusedGrant(0));
                                        trigs.push(Trig::DetachKills(n - 1, false));
                                        trigs.push(Trig::ReplaceKills(n - 1, true));
                                    }
                                    for trig in trigs {
                                        let c = Cfg {
                                            t0: t0.clone(),
                                            others: others.clone(),
                                            actor,
                                            acts: acts.clone(),
                                            token: Token::None,
                                            trig,
                                        };
                                        go(cx, &c);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if cx.lighter == 0 || cx.thorough() {
        large(cx, &go);
    }
}

/// Trees beyond the small ones: actors and handles at the ends, in the middle and next to them.
fn large(cx: &mut Cx, go: &dyn Fn(&mut Cx, &Cfg)) {
    for n in [8, 12, 20, 33, 65] {
        for (_, t0) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            let n = t0.len();
            let at = [0, 1, n / 2, n - 1];
            for actor in at {
                if !cx.task() {
                    continue;
                }
                let mut trigs = vec![Trig::Assign];
                for y in at {
                    trigs.extend(OWN.map(|k| Trig::Last(k, y)));
                    for hot in [false, true] {
                        trigs.push(Trig::DetachKills(y, hot));
                        trigs.push(Trig::ReplaceKills(y, hot));
                    }
                    trigs.extend([Trig::RefusedGrant(y), Trig::RefusedProhibition(y), Trig::FailedClone(y)]);
                }
                for &trig in &trigs {
                    go(cx, &Cfg { t0: t0.clone(), others: vec![], actor, acts: vec![], token: Token::None, trig });
                }
                for y in [1, n - 1] {
                    for as_ in AS {
                        let others = vec![(vec![0, 0], Place::Outside)];
                        let trig = Trig::MoveKills(y, false, as_);
                        go(cx, &Cfg { t0: t0.clone(), others, actor: 0, acts: vec![], token: Token::None, trig });
                    }
                }
                // Acting on another tree, which may be as large.
                let trigs = [
                    Trig::Last(Own::Node, n - 1),
                    Trig::Last(Own::Tree, 0),
                    Trig::DetachKills(n - 1, false),
                    Trig::ReplaceKills(1, true),
                    Trig::Assign,
                ];
                if n > cx.pick(20, 65) {
                    continue;
                }
                for t1 in [vec![0, 0, 1], t0.clone()] {
                    for place in [Place::Outside, Place::InActor(Own::Node, 1), Place::InActor(Own::Tree, 0), Place::InActor(Own::Hot, 1)] {
                        for a in acts() {
                            for trig in trigs {
                                let others = vec![(t1.clone(), place)];
                                go(cx, &Cfg { t0: t0.clone(), others, actor, acts: vec![a], token: Token::None, trig });
                            }
                        }
                    }
                }
            }
        }
    }
}
