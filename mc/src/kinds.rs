//! The data-type dimension: the same histories over node data of every representation that code
//! may tell apart (zero-sized, without destructor, one byte, large and aligned, owning).
//! Everything is generic; the model is the same reference model.

use std::cell::Cell;

use dendron::serial::Event;
use dendron::{FrozenNode, HierarchyError, HotNode, Node, NodeWeak, Tree, TreeWeak};

use crate::model::{Exp, Model};
use crate::ops::{adopt, apply_simple, err, insert, ops_on, Op};
use crate::shape::{self, Shape};
use crate::sup::{catch, Cx, Res, Run};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BAD: Cell<bool> = const { Cell::new(false) };
}

fn born() {
    LIVE.with(|l| l.set(l.get() + 1));
}

/// Node data of one representation.
pub trait Kind: Clone + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const COUNTED: bool = true;
    fn make(val: u32) -> Self;
    fn is(&self, val: u32) -> bool;
    /// Whether values made from these are equal.
    fn same(a: u32, b: u32) -> bool;
}

macro_rules! counted {
    ($t:ident) => {
        impl Drop for $t {
            fn drop(&mut self) {
                LIVE.with(|l| {
                    if l.get() <= 0 {
                        BAD.with(|b| b.set(true));
                    }
                    l.set(l.get() - 1)
                });
            }
        }
    };
}

impl Kind for () {
    const NAME: &'static str = "()";
    const COUNTED: bool = false;
    fn make(_: u32) {}
    fn is(&self, _: u32) -> bool {
        true
    }
    fn same(_: u32, _: u32) -> bool {
        true
    }
}

impl Kind for u8 {
    const NAME: &'static str = "u8";
    const COUNTED: bool = false;
    fn make(v: u32) -> u8 {
        v as u8
    }
    fn is(&self, v: u32) -> bool {
        *self == v as u8
    }
    fn same(a: u32, b: u32) -> bool {
        a as u8 == b as u8
    }
}

/// Zero-sized with a destructor.
#[derive(PartialEq, Debug)]
pub struct Zst;
counted!(Zst);
impl Clone for Zst {
    fn clone(&self) -> Zst {
        born();
        Zst
    }
}
impl Kind for Zst {
    const NAME: &'static str = "zero-sized with destructor";
    fn make(_: u32) -> Zst {
        born();
        Zst
    }
    fn is(&self, _: u32) -> bool {
        true
    }
    fn same(_: u32, _: u32) -> bool {
        true
    }
}

/// Large and aligned.
#[derive(PartialEq, Debug)]
#[repr(align(128))]
pub struct Big([u64; 48]);
counted!(Big);
impl Clone for Big {
    fn clone(&self) -> Big {
        born();
        Big(self.0)
    }
}
impl Kind for Big {
    const NAME: &'static str = "384 bytes aligned to 128";
    fn make(v: u32) -> Big {
        born();
        Big(std::array::from_fn(|i| v as u64 * 64 + i as u64))
    }
    fn is(&self, v: u32) -> bool {
        self as *const Big as usize % 128 == 0 && (0..48).all(|i| self.0[i] == v as u64 * 64 + i as u64)
    }
    fn same(a: u32, b: u32) -> bool {
        a == b
    }
}

/// Owns heap memory.
#[derive(PartialEq, Debug)]
pub struct Own(Box<u32>);
counted!(Own);
impl Clone for Own {
    fn clone(&self) -> Own {
        born();
        Own(self.0.clone())
    }
}
impl Kind for Own {
    const NAME: &'static str = "boxed";
    fn make(v: u32) -> Own {
        born();
        Own(Box::new(v))
    }
    fn is(&self, v: u32) -> bool {
        *self.0 == v
    }
    fn same(a: u32, b: u32) -> bool {
        a == b
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    /// One edit, then the whole structure.
    Edit,
    /// One copy, then the whole structure of copy and source.
    Copy,
    /// One edit or copy, then every kind of last handle: alive while held.
    Alive,
    /// ... and released afterwards.
    Gone,
    /// ... and weak references upgrade exactly then.
    Weak,
}

pub fn reset() {
    LIVE.with(|l| l.set(0));
    BAD.with(|b| b.set(false));
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

pub fn build<K: Kind>(m: &Model) -> Vec<Node<K>> {
    let mut v: Vec<Option<Node<K>>> = vec![None; m.len()];
    for t in m.live_trees() {
        let r = m.roots[t].unwrap();
        let root = Node::new_tree(K::make(m.n[r].val));
        let g = root.tree().grant_hierarchy_edit().expect("harness");
        v[r] = Some(root);
        for x in m.preorder(r) {
            for &k in &m.n[x].kids {
                let c = v[x].as_ref().unwrap().create_as_last_child(&g, K::make(m.n[k].val));
                v[k] = Some(c);
            }
        }
    }
    v.into_iter().map(|n| n.expect("harness")).collect()
}

fn hot<K: Kind>(n: &Node<K>) -> HotNode<K> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}

fn frozen<K: Kind>(n: &Node<K>) -> FrozenNode<K> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}

pub fn exec<K: Kind>(n: &[Node<K>], m: &Model, op: Op, via_hot: bool) -> Result<Option<Node<K>>, HierarchyError> {
    let val = 100 + m.len() as u32;
    let g = |x: usize| n[x].tree().grant_hierarchy_edit().expect("harness: grantable");
    match (op, via_hot) {
        (Op::Create { x, as_ }, false) => n[x].try_create_node_as(&g(x), K::make(val), adopt(as_)).map(Some),
        (Op::Create { x, as_ }, true) => hot(&n[x]).try_create_node_as(K::make(val), adopt(as_)).map(|n| Some(n.plain())),
        (Op::IntP { x }, false) => Ok(Some(n[x].create_as_interrupting_parent(&g(x), K::make(val)))),
        (Op::IntP { x }, true) => Ok(Some(hot(&n[x]).create_as_interrupting_parent(K::make(val)).plain())),
        (Op::IntC { x }, false) => Ok(Some(n[x].create_as_interrupting_child(&g(x), K::make(val)))),
        (Op::IntC { x }, true) => Ok(Some(hot(&n[x]).create_as_interrupting_child(K::make(val)).plain())),
        (Op::Detach { x }, false) => {
            n[x].detach_subtree(&g(x));
            Ok(None)
        }
        (Op::Detach { x }, true) => {
            hot(&n[x]).detach_subtree();
            Ok(None)
        }
        (Op::Replace { x }, false) => n[x].try_replace_with_children(&g(x)).map(|()| None),
        (Op::Replace { x }, true) => hot(&n[x]).try_replace_with_children().map(|()| None),
        (Op::Move { x, as_, a }, h) => {
            let ha = hot(&n[a]);
            if h {
                hot(&n[x]).try_detach_insert_subtree(insert(as_, &ha)).map(|()| None)
            } else {
                n[x].try_detach_insert_subtree(&g(x), insert(as_, &ha)).map(|()| None)
            }
        }
        (Op::CloneIns { x, as_, a }, h) => {
            let ha = hot(&n[a]);
            if h {
                hot(&n[x]).try_clone_insert_subtree(insert(as_, &ha)).map(|n| Some(n.plain()))
            } else {
                n[x].try_clone_insert_subtree(insert(as_, &ha)).map(|n| Some(n.plain()))
            }
        }
        (Op::CloneSub { x }, false) => Ok(Some(n[x].try_clone_subtree().expect("readable"))),
        (Op::CloneSub { x }, true) => Ok(Some(frozen(&n[x]).clone_subtree())),
        (Op::CloneTree { t }, h) => {
            let tree = n[m.roots[t].expect("harness")].tree();
            Ok(Some(if h { tree.clone_tree() } else { tree.try_clone_tree().expect("readable") }.root()))
        }
    }
}

/// Applies the edit to both sides and adds the new nodes to `n`.
pub fn step<K: Kind>(n: &mut Vec<Node<K>>, m: &mut Model, op: Op, via_hot: bool) -> Res {
    let before = m.clone();
    let (exp, new) = apply_simple(m, op);
    let got = catch(|| exec(n, &before, op, via_hot)).map_err(|p| format!("panicked: {p}"))?.map_err(err);
    let kind = match &got {
        Err(e) => Some(*e),
        Ok(_) => None,
    };
    match (&exp, &got) {
        (Exp::Ok, Ok(r)) => {
            if new.is_empty() != r.is_none() {
                return Err("harness: new nodes".into());
            }
            if let Some(r) = r {
                let mut st = vec![r.clone()];
                for &y in &new {
                    let Some(c) = st.pop() else { return Err(format!("new node {y} does not exist")) };
                    if y != n.len() {
                        return Err("harness: numbering".into());
                    }
                    // A single new node may have taken over existing children.
                    if new.len() > 1 {
                        let mut k = c.last_child();
                        while let Some(d) = k {
                            k = d.prev_sibling();
                            st.push(d);
                        }
                    }
                    n.push(c);
                }
            }
        }
        (Exp::NoChange, Ok(None)) | (Exp::NoChange, Err(_)) => *m = before,
        (Exp::Err(want), Err(_)) => {
            let got = kind.unwrap();
            if !want.contains(&got) {
                return Err(format!("refused with {got:?}, expected {want:?}"));
            }
            *m = before;
        }
        _ => return Err(format!("outcome {:?}, expected {exp:?}", got.as_ref().map(|_| ()))),
    }
    Ok(())
}

/// The trees `ts` are as the model says, seen from every node.
pub fn structure<K: Kind>(n: &[Node<K>], m: &Model, ts: &[usize]) -> Res {
    let same = |got: &Option<Node<K>>, want: Option<usize>| match (got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => a.ptr_eq(&n[b]),
        _ => false,
    };
    for &t in ts {
        let root = m.roots[t].unwrap();
        let tree = n[root].tree();
        let order = m.preorder(root);
        for &x in &order {
            let y = &n[x];
            let kids = &m.n[x].kids;
            if !same(&y.parent(), m.parent(x))
                || !same(&y.first_child(), kids.first().copied())
                || !same(&y.last_child(), kids.last().copied())
                || y.num_children() != kids.len()
            {
                return Err(format!("links of node {x} are wrong"));
            }
            let mut c = y.first_child();
            let mut prev = None;
            for &k in kids {
                let Some(d) = c else { return Err(format!("children of node {x} are missing")) };
                if !d.ptr_eq(&n[k]) || !same(&d.prev_sibling(), prev) {
                    return Err(format!("child {k} of node {x} is not in its place"));
                }
                prev = Some(k);
                c = d.next_sibling();
            }
            if c.is_some() {
                return Err(format!("node {x} has surplus children"));
            }
            if !y.try_borrow_data().is_ok_and(|d| d.is(m.n[x].val)) {
                return Err(format!("data of node {x} is wrong"));
            }
            if !y.belongs_to(&tree) {
                return Err(format!("node {x} is not in its tree"));
            }
        }
        if !tree.root().ptr_eq(&n[root]) || !n[*order.last().unwrap()].root().ptr_eq(&n[root]) {
            return Err(format!("root of tree t{t} is wrong"));
        }
        let mut i = 0;
        for e in n[root].depth_first_traverse() {
            if let dendron::traverse::DftEvent::Open(y) = e {
                if i >= order.len() || !y.ptr_eq(&n[order[i]]) {
                    return Err(format!("depth-first traversal of tree t{t} differs at {i}"));
                }
                i += 1;
            }
        }
        if i != order.len() {
            return Err(format!("depth-first traversal of tree t{t} ends early"));
        }
    }
    Ok(())
}

/// The last handle to a tree.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Last {
    Plain(usize),
    Hot(usize),
    Frozen(usize),
    Tree(usize),
    Dft(usize),
    Kids(usize),
    Up(usize),
    Stable(usize),
    Breadth(usize),
}

enum Held<K: Kind> {
    Plain(Node<K>),
    Hot(HotNode<K>),
    Frozen(FrozenNode<K>),
    Tree(Tree<K>),
    #[allow(dead_code)]
    It(Box<dyn std::any::Any>),
}

fn last_handles(m: &Model, t: usize, all: bool) -> Vec<Last> {
    let o = m.preorder(m.roots[t].unwrap());
    let (r, l) = (o[0], *o.last().unwrap());
    let mut v = vec![Last::Tree(t), Last::Plain(l), Last::Hot(r), Last::Dft(l)];
    if all {
        v.extend([Last::Plain(r), Last::Frozen(l), Last::Up(l), Last::Stable(r), Last::Breadth(r)]);
        if !m.n[r].kids.is_empty() {
            v.push(Last::Kids(r));
        }
        if o.len() > 2 {
            v.push(Last::Plain(o[o.len() / 2]));
            v.push(Last::Frozen(o[o.len() / 2]));
        }
    }
    v
}

fn hold<K: Kind>(n: &[Node<K>], m: &Model, l: Last) -> Held<K> {
    match l {
        Last::Plain(x) => Held::Plain(n[x].clone()),
        Last::Hot(x) => Held::Hot(hot(&n[x])),
        Last::Frozen(x) => Held::Frozen(frozen(&n[x])),
        Last::Tree(t) => Held::Tree(n[m.roots[t].unwrap()].tree()),
        Last::Dft(x) => Held::It(Box::new(n[x].depth_first_traverse())),
        Last::Kids(x) => Held::It(Box::new(n[x].children())),
        Last::Up(x) => Held::It(Box::new(n[x].ancestors_or_self())),
        Last::Stable(x) => Held::It(Box::new(frozen(&n[x]).depth_first_traverse_stable())),
        Last::Breadth(x) => Held::It(Box::new(frozen(&n[x]).allocating_breadth_first_traverse_stable(0))),
    }
}

fn life<K: Kind>(m0: &Model, op: Option<Op>, via_hot: bool, part: Part, all: bool, run: &mut Run) -> Res {
    // How many last handles there are is known after the edit.
    let mut after = m0.clone();
    if let Some(op) = op {
        let (exp, _) = apply_simple(&mut after, op);
        if exp != Exp::Ok {
            after = m0.clone();
        }
    }
    let mut plan: Vec<Option<(usize, Last)>> = vec![None];
    for t in after.live_trees().collect::<Vec<_>>() {
        plan.extend(last_handles(&after, t, all).into_iter().map(|l| Some((t, l))));
    }
    for l in plan {
        let at = |e: String| format!("last handle {l:?}: {e}");
        reset();
        let mut m = m0.clone();
        let mut n = build::<K>(&m);
        let mut wt: Vec<Option<TreeWeak<K>>> = m.roots.iter().map(|r| r.map(|r| n[r].tree().downgrade())).collect();
        if let Some(op) = op {
            step(&mut n, &mut m, op, via_hot)?;
        }
        for t in 0..m.roots.len() {
            if t >= wt.len() {
                wt.push(m.roots[t].map(|r| n[r].tree().downgrade()));
            }
        }
        let wn: Vec<NodeWeak<K>> = n.iter().map(|n| n.downgrade()).collect();
        let held = l.map(|(_, l)| hold(&n, &m, l));
        drop(n);
        let alive: Vec<usize> = l.map(|(t, _)| t).into_iter().collect();
        let check = |alive: &[usize]| -> Res {
            let expected: usize = (0..m.len()).filter(|&x| m.n[x].alive && alive.contains(&m.n[x].tree)).count();
            if K::COUNTED {
                if part != Part::Gone && live() < expected as isize {
                    return Err(format!("{} data values are alive, expected {expected}", live()));
                }
                if part != Part::Alive && live() != expected as isize {
                    return Err(format!("{} data values are alive, expected {expected}", live()));
                }
                if BAD.with(|b| b.get()) {
                    return Err("a data value was dropped twice".into());
                }
            }
            // Weak references to trees, with no other handle around and with one to every node.
            let trees = |up: &[Option<Node<K>>]| -> Res {
                for t in 0..m.roots.len() {
                    let u = wt[t].as_ref().and_then(|w| w.upgrade());
                    let want = m.roots[t].is_some() && alive.contains(&t);
                    let bad = match part {
                        Part::Gone => u.is_some() && !want,
                        Part::Alive => false,
                        _ => u.is_some() != want,
                    };
                    if bad {
                        return Err(format!("weak reference to tree t{t} upgrades: {}", u.is_some()));
                    }
                    if let (Some(u), true, true) = (u, want, part == Part::Weak && !up.is_empty()) {
                        let r = up[m.roots[t].unwrap()].as_ref().unwrap();
                        if !u.root().ptr_eq(r) || !u.ptr_eq(&r.tree()) || !u.downgrade().upgrade().is_some_and(|v| v.ptr_eq(&u)) {
                            return Err(format!("weak reference to tree t{t} upgrades to another tree"));
                        }
                    }
                }
                Ok(())
            };
            trees(&[])?;
            let mut up: Vec<Option<Node<K>>> = vec![];
            for x in 0..m.len() {
                let u = wn[x].upgrade();
                let want = m.n[x].alive && alive.contains(&m.n[x].tree);
                let bad = match part {
                    Part::Gone => u.is_some() && !want,
                    Part::Alive => u.is_none() && want,
                    _ => u.is_some() != want,
                };
                if bad {
                    return Err(format!("weak reference to node {x} upgrades: {}", u.is_some()));
                }
                up.push(u);
            }
            trees(&up)?;
            if part != Part::Gone && !alive.is_empty() {
                // Positions of other trees are never looked at.
                let fill = up.iter().flatten().next().cloned().ok_or("nothing is alive")?;
                let n: Vec<Node<K>> = up.into_iter().map(|u| u.unwrap_or_else(|| fill.clone())).collect();
                structure(&n, &m, alive)?;
            }
            Ok(())
        };
        check(&alive).map_err(at)?;
        if let (Some((_, l)), Some(h)) = (l, &held) {
            // What the held handle itself leads to.
            let to = match (l, h) {
                (Last::Plain(x), Held::Plain(n)) => Some((x, n.clone())),
                (Last::Hot(x), Held::Hot(n)) => Some((x, n.plain())),
                (Last::Frozen(x), Held::Frozen(n)) => Some((x, n.plain())),
                (Last::Tree(t), Held::Tree(t2)) => Some((m.roots[t].unwrap(), t2.root())),
                _ => None,
            };
            if let (Some((x, n)), true) = (to, part != Part::Gone) {
                if !wn[x].upgrade().is_some_and(|w| w.ptr_eq(&n)) {
                    return Err(at(format!("it leads to another node than {x}")));
                }
            }
        }
        drop(held);
        check(&[]).map_err(|e| at(format!("released: {e}")))?;
        run.step(1);
    }
    Ok(())
}

fn case<K: Kind>(m0: &Model, op: Option<Op>, via_hot: bool, part: Part, all: bool, run: &mut Run) -> Res {
    match part {
        Part::Edit | Part::Copy => {
            reset();
            let mut m = m0.clone();
            let mut n = build::<K>(&m);
            let mut ts: Vec<usize> = m.live_trees().collect();
            structure(&n, &m, &ts).map_err(|e| format!("as built: {e}"))?;
            if let Some(op) = op {
                step(&mut n, &mut m, op, via_hot)?;
                ts = m.live_trees().collect();
                structure(&n, &m, &ts)?;
                run.step(1);
            }
            let want = m.n.iter().filter(|n| n.alive).count() as isize;
            if K::COUNTED && live() != want {
                return Err(format!("{} data values are alive, expected {want}", live()));
            }
            run.state(m.hash());
            Ok(())
        }
        _ => {
            run.state(m0.hash());
            life::<K>(m0, op, via_hot, part, all, run)
        }
    }
}

fn is_clone(op: Op) -> bool {
    matches!(op, Op::CloneSub { .. } | Op::CloneIns { .. } | Op::CloneTree { .. })
}

/// Kind number `k`, dispatched.
macro_rules! with_kind {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<Zst>($($a),*),
            1 => $f::<()>($($a),*),
            2 => $f::<u8>($($a),*),
            3 => $f::<Own>($($a),*),
            _ => $f::<Big>($($a),*),
        }
    };
}

const KINDS: [&str; 5] = [Zst::NAME, <()>::NAME, <u8>::NAME, Own::NAME, Big::NAME];

pub fn explore(cx: &mut Cx, part: Part) {
    let keep = |op: &Op| match part {
        Part::Edit => !is_clone(*op),
        Part::Copy => is_clone(*op),
        _ => true,
    };
    // Every small forest and every edit.
    for n in 1..=cx.pick(4, 5) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            let alive: Vec<usize> = m.alive().collect();
            let mut ops_: Vec<Option<Op>> = vec![None];
            ops_.extend(ops_on(&m, &alive, &alive, true).into_iter().filter(keep).map(Some));
            for op in ops_ {
                if !cx.task() {
                    continue;
                }
                for k in 0..KINDS.len() {
                    for h in [false, true] {
                        cx.case(
                            || format!("data {}: {} {op:?}{}", KINDS[k], m.show(), if h { " via hot" } else { "" }),
                            |run| with_kind!(k, case, &m, op, h, part, true, run),
                        );
                    }
                }
            }
        }
    }
    // Larger shapes, edits at extreme places.
    let mut large: Vec<(String, Shape, bool)> = vec![];
    for n in [8, 12, 20, 33, 65] {
        for (name, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            large.push((format!("{name} with {} nodes", s.len()), s, true));
        }
    }
    for (name, s) in shape::boundary(8, true) {
        if !cx.thorough() && !matches!(s.len(), 256 | 257 | 513) && (name.starts_with("chain") || name.starts_with("star with") || name.starts_with("comb")) {
            continue;
        }
        large.push((name, s, cx.thorough()));
    }
    for (name, s, all) in large {
        let n = s.len();
        let mut m = Model::default();
        m.add_tree(&s);
        m.add_tree(&vec![0, 0, 1]);
        let mut xs = vec![0, 1, n - 1];
        if all && n > 100 {
            xs.extend([2, n / 2]);
        }
        let mut dests = vec![n - 1, n];
        if all && n > 100 {
            dests.extend([0, n + 1]);
        }
        let mut ops_: Vec<Option<Op>> = vec![None];
        ops_.extend(ops_on(&m, &xs, &dests, true).into_iter().filter(keep).map(Some));
        ops_.extend(ops_on(&m, &[n], &dests[..1], true).into_iter().filter(keep).map(Some));
        for (i, op) in ops_.into_iter().enumerate() {
            if !cx.task() {
                continue;
            }
            for k in 0..KINDS.len() {
                if n > 100 && k > if all { 2 } else { 1 } {
                    continue;
                }
                cx.case(
                    || format!("data {}: {name}, and another tree of 3 from {n}: {op:?}", KINDS[k]),
                    |run| with_kind!(k, case, &m, op, i % 2 == 1, part, n < 100, run),
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Equality and serialization.

fn valued(s: &Shape, f: impl Fn(usize) -> u32) -> Model {
    let mut m = Model::from_forest(&[s.clone()]);
    for i in 0..s.len() {
        m.n[i].val = f(i);
    }
    m
}

fn model_eq<K: Kind>(a: &Model, x: usize, b: &Model, y: usize) -> bool {
    let (ea, eb) = (a.events(x), b.events(y));
    ea.len() == eb.len()
        && ea.iter().zip(&eb).all(|(p, q)| p.0 == q.0 && (!p.0 || K::same(a.n[p.1].val, b.n[q.1].val)))
}

fn compare<K: Kind>(a: &Model, x: usize, b: &Model, y: usize, run: &mut Run) -> Res {
    let (na, nb) = (build::<K>(a), build::<K>(b));
    let want = model_eq::<K>(a, x, b, y);
    let (p, q) = (&na[x], &nb[y]);
    let mut got = vec![("node", p.try_eq(q)), ("node, other way", q.try_eq(p))];
    let (fp, fq) = (frozen(p), frozen(q));
    got.push(("==", Ok(fp == fq)));
    drop((fp, fq));
    let (hp, hq) = (hot(p), hot(q));
    got.push(("hot ==", Ok(hp == hq)));
    got.push(("hot == node", Ok(hp == *q)));
    drop((hp, hq));
    if x == 0 && y == 0 {
        got.push(("tree", na[0].tree().try_eq(&nb[0].tree())));
        got.push(("tree ==", Ok(na[0].tree() == nb[0].tree())));
    }
    for (how, g) in got {
        if !matches!(g, Ok(e) if e == want) {
            return Err(format!("{how}: {g:?}, expected {want}"));
        }
        run.step(1);
    }
    Ok(())
}

pub fn equality(cx: &mut Cx) {
    crossing(cx);
    let mut small: Vec<Shape> = vec![];
    for n in 1..=cx.pick(4, 5) {
        small.extend(shape::trees(n));
    }
    for k in 0..KINDS.len() {
        for s in &small {
            if !cx.task() {
                continue;
            }
            for r in &small {
                // Data equal everywhere, or different in one node.
                let a = valued(s, |_| 1);
                for d in 0..r.len() + 1 {
                    let b = valued(r, |i| 1 + u32::from(i == d));
                    for x in 0..s.len() {
                        for y in [0, r.len() - 1] {
                            cx.case(
                                || format!("data {}: {} from {x} = {} from {y}, {d} differs", KINDS[k], shape::show(s), shape::show(r)),
                                |run| {
                                    run.state(a.hash() ^ b.hash().rotate_left(1));
                                    with_kind!(k, compare, &a, x, &b, y, run)
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    for n in [8, 20, 33, 65, 256, 257] {
        let shapes: Vec<_> = shape::families(n).into_iter().chain(shape::mixed(n)).collect();
        for (i, (name, s)) in shapes.iter().enumerate() {
            for (other, r) in &shapes[i..] {
                if !cx.task() {
                    continue;
                }
                for k in 0..KINDS.len() {
                    let (a, b) = (valued(s, |i| i as u32), valued(r, |i| i as u32));
                    cx.case(|| format!("data {}: {name} = {other} with {n} nodes", KINDS[k]), |run| with_kind!(k, compare, &a, 0, &b, 0, run));
                    for d in [0, 1, r.len() / 2, r.len() - 1] {
                        let b = valued(r, |i| i as u32 + u32::from(i == d));
                        cx.case(
                            || format!("data {}: {name} = {other} with {n} nodes, {d} differs", KINDS[k]),
                            |run| with_kind!(k, compare, &a, 0, &b, 0, run),
                        );
                    }
                }
            }
        }
    }
}

/// Data that need not be symmetric across types, nor reflexive: exactly the operands' own `==`,
/// asked in the order written, decides.
#[derive(Clone, Copy, Debug)]
pub struct Lhs(u32);
#[derive(Clone, Copy, Debug)]
pub struct Rhs(u32);
const NAN: u32 = 9;

/// `Lhs == Rhs`.
fn lr(a: u32, b: u32) -> bool {
    a <= b
}
/// `Rhs == Lhs`.
fn rl(a: u32, b: u32) -> bool {
    a + 1 == b
}
/// Both of one type.
fn own(a: u32, b: u32) -> bool {
    a == b && a != NAN
}
impl PartialEq<Rhs> for Lhs {
    fn eq(&self, o: &Rhs) -> bool {
        lr(self.0, o.0)
    }
}
impl PartialEq<Lhs> for Rhs {
    fn eq(&self, o: &Lhs) -> bool {
        rl(self.0, o.0)
    }
}
impl PartialEq for Lhs {
    fn eq(&self, o: &Lhs) -> bool {
        own(self.0, o.0)
    }
}
impl PartialEq for Rhs {
    fn eq(&self, o: &Rhs) -> bool {
        own(self.0, o.0)
    }
}

fn of<T: Clone>(m: &Model, f: impl Fn(u32) -> T) -> Vec<Node<T>> {
    let mut v: Vec<Node<T>> = vec![Node::new_tree(f(m.n[0].val))];
    let g = v[0].tree().grant_hierarchy_edit().expect("harness");
    let mut at = vec![None; m.len()];
    at[0] = Some(v[0].clone());
    for x in m.preorder(0) {
        for &k in &m.n[x].kids {
            let c = at[x].as_ref().unwrap().create_as_last_child(&g, f(m.n[k].val));
            at[k] = Some(c);
        }
    }
    v.clear();
    v.extend(at.into_iter().map(|n| n.expect("harness")));
    v
}

fn verdict(a: &Model, x: usize, b: &Model, y: usize, eq: fn(u32, u32) -> bool) -> bool {
    let (ea, eb) = (a.events(x), b.events(y));
    ea.len() == eb.len() && ea.iter().zip(&eb).all(|(p, q)| p.0 == q.0 && (!p.0 || eq(a.n[p.1].val, b.n[q.1].val)))
}

fn forms<T, U>(p: &Node<T>, q: &Node<U>, want: bool, run: &mut Run) -> Res
where
    T: PartialEq<U> + Clone + 'static,
    U: PartialEq<U> + Clone + 'static,
{
    let mut got = vec![("try_eq", p.try_eq(q)), ("==", Ok(p == q))];
    {
        let (hp, hq) = (hot_any(p), hot_any(q));
        got.push(("hot == hot", Ok(hp == hq)));
        got.push(("hot == plain", Ok(hp == *q)));
        got.push(("hot == &plain", Ok(hp == q)));
        got.push(("plain == hot", Ok(*p == hq)));
        got.push(("&plain == hot", Ok(p == hq)));
    }
    {
        let fp = p.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable");
        let fq = q.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable");
        got.push(("frozen == frozen", Ok(fp == fq)));
        got.push(("frozen == plain", Ok(fp == *q)));
        got.push(("plain == frozen", Ok(*p == fq)));
        got.push(("plain == &frozen", Ok(*p == &fq)));
        got.push(("&frozen == plain", Ok(&fp == *q)));
    }
    if p.is_root() && q.is_root() {
        got.push(("tree try_eq", p.tree().try_eq(&q.tree())));
        got.push(("tree ==", Ok(p.tree() == q.tree())));
    }
    for (how, g) in got {
        if !matches!(g, Ok(e) if e == want) {
            return Err(format!("{how}: {g:?}, expected {want}"));
        }
        run.step(1);
    }
    Ok(())
}

fn hot_any<T: Clone + 'static>(n: &Node<T>) -> HotNode<T> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}

fn crossed(a: &Model, x: usize, b: &Model, y: usize, run: &mut Run) -> Res {
    let (l, r) = (of(a, Lhs), of(b, Rhs));
    let r2 = of(b, Lhs);
    forms(&l[x], &r[y], verdict(a, x, b, y, lr), run).map_err(|e| format!("left with right type: {e}"))?;
    forms(&r[y], &l[x], verdict(b, y, a, x, rl), run).map_err(|e| format!("right with left type: {e}"))?;
    forms(&l[x], &r2[y], verdict(a, x, b, y, own), run).map_err(|e| format!("same type: {e}"))?;
    forms(&r2[y], &l[x], verdict(b, y, a, x, own), run).map_err(|e| format!("same type, other way: {e}"))
}

fn crossing(cx: &mut Cx) {
    let mut small: Vec<Shape> = vec![];
    for n in 1..=cx.pick(4, 5) {
        small.extend(shape::trees(n));
    }
    let mut pairs: Vec<(String, Shape, Shape)> = vec![];
    for s in &small {
        for r in &small {
            pairs.push((format!("{} = {}", shape::show(s), shape::show(r)), s.clone(), r.clone()));
        }
    }
    for n in [8, 20, 33, 65, 257] {
        for (name, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            pairs.push((format!("{name} with {n} nodes = its like"), s.clone(), s));
        }
    }
    // What every node has left and right, and what one node has.
    const BASE: [(u32, u32); 3] = [(1, 1), (1, 2), (2, 1)];
    const ODD: [(u32, u32); 5] = [(1, 1), (1, 2), (2, 1), (1, 3), (NAN, NAN)];
    for (name, s, r) in pairs {
        if !cx.task() {
            continue;
        }
        let n = s.len();
        let at: Vec<usize> = if n < 8 { (0..n.max(r.len())).collect() } else { vec![0, 1, n / 2, n - 1] };
        for &d in &at {
            for (bl, br) in BASE {
                for (ol, or) in ODD {
                    let a = valued(&s, |i| if i == d { ol } else { bl });
                    let b = valued(&r, |i| if i == d { or } else { br });
                    for x in if n < 8 { vec![0, n - 1] } else { vec![0] } {
                        let y = if x == 0 { 0 } else { r.len() - 1 };
                        cx.case(
                            || format!("{name} from {x} and {y}, data {bl} and {br}, node {d} {ol} and {or}"),
                            |run| {
                                run.state(a.hash() ^ b.hash().rotate_left(1));
                                crossed(&a, x, &b, y, run)
                            },
                        );
                    }
                }
            }
        }
    }
}

fn round<K: Kind>(m: &Model, x: usize, run: &mut Run) -> Res {
    reset();
    let n = build::<K>(m);
    let before = live();
    let ev: Vec<Event<K>> = n[x].to_events().collect::<Result<_, _>>().map_err(|e| format!("{e}"))?;
    let opens = ev.iter().filter(|e| matches!(e, Event::Open(_))).count();
    let order = m.preorder(x);
    if opens != order.len() {
        return Err(format!("{opens} nodes are opened, expected {}", order.len()));
    }
    // The net effect of the events.
    let (mut depth, mut i) = (0usize, 0);
    for e in &ev {
        match e {
            Event::Open(d) => {
                let y = order[i];
                if depth != m.depth(y) - m.depth(x) || !d.is(m.n[y].val) {
                    return Err(format!("opening number {i} at depth {depth} is not node {y}"));
                }
                depth += 1;
                i += 1;
            }
            Event::Close(k) => {
                depth = depth.checked_sub(*k).ok_or("more levels are closed than open")?;
            }
        }
    }
    if K::COUNTED && live() != before + opens as isize {
        return Err(format!("{} values exist besides those of the tree, expected {opens}", live() - before));
    }
    let mut mm = Model::default();
    sub(m, x, &mut mm);
    for way in 0..2 {
        let back: Node<K> = match way {
            0 => ev.iter().cloned().collect::<Result<_, _>>().map_err(|e| format!("{e}"))?,
            _ => n[x].depth_first_traverse().collect::<Result<_, _>>().map_err(|e| format!("{e}"))?,
        };
        let mut v = vec![];
        let mut st = vec![back];
        while let Some(c) = st.pop() {
            let mut k = c.last_child();
            while let Some(d) = k {
                k = d.prev_sibling();
                st.push(d);
            }
            v.push(c);
        }
        if v.len() != mm.len() {
            return Err(format!("way {way}: {} nodes are rebuilt, expected {}", v.len(), mm.len()));
        }
        structure(&v, &mm, &[0]).map_err(|e| format!("way {way}: {e}"))?;
        run.step(1);
    }
    drop(ev);
    if K::COUNTED && live() != before {
        return Err(format!("{} values are left over", live() - before));
    }
    Ok(())
}

/// The subtree of `x` as a tree of its own, numbered in preorder.
fn sub(m: &Model, x: usize, out: &mut Model) {
    let o = m.preorder(x);
    let pos = |y: usize| o.iter().position(|&z| z == y).unwrap();
    let s: Shape = o.iter().map(|&y| if y == x { 0 } else { pos(m.n[y].parent.unwrap()) }).collect();
    out.add_tree(&s);
    for (i, &y) in o.iter().enumerate() {
        out.n[i].val = m.n[y].val;
    }
}

pub fn serial(cx: &mut Cx) {
    let mut shapes: Vec<Shape> = vec![];
    for n in 1..=cx.pick(5, 6) {
        shapes.extend(shape::trees(n));
    }
    for n in [8, 12, 20, 33, 65, 256, 257] {
        shapes.extend(shape::families(n).into_iter().chain(shape::mixed(n)).map(|s| s.1));
    }
    for s in &shapes {
        if !cx.task() {
            continue;
        }
        let m = Model::from_forest(&[s.clone()]);
        let n = s.len();
        let xs: Vec<usize> = if n < 8 { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
        for x in xs {
            for k in 0..KINDS.len() {
                cx.case(
                    || format!("data {}: {} from {x}", KINDS[k], if n < 66 { shape::show(s) } else { format!("{n} nodes") }),
                    |run| {
                        run.state(m.hash());
                        with_kind!(k, round, &m, x, run)
                    },
                );
            }
        }
    }
}

/// C18 with any data: a borrow of one node's data concerns that node only.
fn borrows<K: Kind>(m: &Model, x: usize, mutable: bool, run: &mut Run) -> Res {
    let n = build::<K>(m);
    let (mut a, mut b) = (None, None);
    if mutable {
        a = Some(n[x].try_borrow_data_mut().map_err(|_| "cannot be borrowed exclusively")?);
    } else {
        b = Some(n[x].try_borrow_data().map_err(|_| "cannot be borrowed")?);
    }
    for y in 0..n.len() {
        let r = n[y].try_borrow_data().is_ok();
        let w = n[y].try_borrow_data_mut().is_ok();
        let want = (x != y || !mutable, x != y);
        if (r, w) != want {
            return Err(format!("node {y} can be borrowed: {:?}, expected {want:?}", (r, w)));
        }
    }
    if let Some(d) = &mut a {
        **d = K::make(7);
    }
    drop((a, b));
    for y in 0..n.len() {
        let v = if y == x && mutable { 7 } else { m.n[y].val };
        let same = n[y].try_borrow_data().is_ok_and(|d| d.is(v));
        if !same || n[y].try_borrow_data_mut().is_err() {
            return Err(format!("data of node {y} afterwards"));
        }
        run.step(1);
    }
    Ok(())
}

pub fn borrowing(cx: &mut Cx) {
    for n in 1..=cx.pick(4, 5) {
        for s in shape::trees(n) {
            let m = Model::from_forest(&[s.clone()]);
            if !cx.task() {
                continue;
            }
            for x in 0..n {
                for mutable in [false, true] {
                    for k in 0..KINDS.len() {
                        cx.case(
                            || format!("data {}: {} borrow of {x}{}", KINDS[k], m.show(), if mutable { " (exclusive)" } else { "" }),
                            |run| {
                                run.state(m.hash());
                                with_kind!(k, borrows, &m, x, mutable, run)
                            },
                        );
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Unreadable data of any kind.

/// One node's data on each side may be exclusively borrowed: a verdict that needs it is refused.
fn barred<K: Kind>(a: &Model, x: usize, b: &Model, y: usize, left: Option<usize>, right: Option<usize>, run: &mut Run) -> Res {
    let (na, nb) = (build::<K>(a), build::<K>(b));
    let inside = |m: &Model, z: usize, d: Option<usize>| d.is_some_and(|d| m.preorder(z).contains(&d));
    let any = inside(a, x, left) || inside(b, y, right);
    // Whether the shapes, or data that can be read on both sides, differ.
    let (ea, eb) = (a.events(x), b.events(y));
    let differ = ea.len() != eb.len()
        || ea.iter().zip(&eb).any(|(p, q)| {
            p.0 != q.0
                || p.0 && left != Some(p.1) && right != Some(q.1) && !K::same(a.n[p.1].val, b.n[q.1].val)
        });
    let check = |how: &str, got: Option<bool>| {
        let ok = match (any, differ) {
            (false, d) => got == Some(!d),
            (true, true) => got != Some(true),
            (true, false) => got.is_none(),
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{how}: {got:?}, with unreadable data: {any}, different elsewhere: {differ}"))
        }
    };
    let (p, q) = (&na[x], &nb[y]);
    let (hp, hq) = (hot(p), hot(q));
    let g = left.map(|d| na[d].borrow_data_mut());
    let h = right.map(|d| nb[d].borrow_data_mut());
    check("try_eq", p.try_eq(q).ok())?;
    check("try_eq, other way", q.try_eq(p).ok())?;
    check("==", catch(|| p == q).ok())?;
    check("hot ==", catch(|| hp == hq).ok())?;
    check("hot == plain", catch(|| hp == *q).ok())?;
    check("plain == hot", catch(|| *p == hq).ok())?;
    if x == 0 && y == 0 {
        check("tree", na[0].tree().try_eq(&nb[0].tree()).ok())?;
    }
    drop((hp, hq));
    drop((g, h));
    check_free(&na, a)?;
    check_free(&nb, b)?;
    run.step(7);
    Ok(())
}

fn check_free<K: Kind>(n: &[Node<K>], m: &Model) -> Res {
    for y in 0..n.len() {
        let same = n[y].try_borrow_data().is_ok_and(|d| d.is(m.n[y].val));
        if !same || n[y].try_borrow_data_mut().is_err() {
            return Err(format!("data of node {y} afterwards"));
        }
    }
    structure(n, m, &m.live_trees().collect::<Vec<_>>())
}

/// C17: equality of trees with unreadable data of every kind.
pub fn barred_equality(cx: &mut Cx) {
    let mut small: Vec<Shape> = vec![];
    for n in 1..=cx.pick(3, 4) {
        small.extend(shape::trees(n));
    }
    for k in 0..KINDS.len() {
        for s in &small {
            for r in &small {
                if !cx.task() {
                    continue;
                }
                let dark: Vec<(Option<usize>, Option<usize>)> = (0..=s.len())
                    .flat_map(|i| (0..=r.len()).map(move |j| (i.checked_sub(1), j.checked_sub(1))))
                    .collect();
                let a = valued(s, |_| 1);
                for odd in 0..=r.len() {
                    let b = valued(r, |i| 1 + u32::from(i == odd));
                    for x in 0..s.len() {
                        for y in 0..r.len() {
                            for &(l, d) in &dark {
                                cx.case(
                                    || format!("data {}: {} from {x} (unreadable {l:?}) = {} from {y} (unreadable {d:?}), {odd} differs", KINDS[k], shape::show(s), shape::show(r)),
                                    |run| {
                                        run.state(a.hash() ^ b.hash().rotate_left(1));
                                        with_kind!(k, barred, &a, x, &b, y, l, d, run)
                                    },
                                );
                            }
                        }
                    }
                }
            }
        }
    }
}

/// The events of `x` while the data of `d` cannot be read.
fn dark_events<K: Kind>(m: &Model, x: usize, d: usize, run: &mut Run) -> Res {
    reset();
    let n = build::<K>(m);
    let before = live();
    let order = m.preorder(x);
    let inside = order.contains(&d);
    let g = n[d].borrow_data_mut();
    // Exactly the opening of `d` fails, and the net effect of the others is that of the tree.
    let (mut depth, mut i) = (0usize, 0);
    for e in n[x].to_events() {
        let fails = match &e {
            Ok(Event::Close(k)) => {
                depth = depth.checked_sub(*k).ok_or("more levels are closed than open")?;
                continue;
            }
            Ok(Event::Open(_)) => false,
            Err(_) => true,
        };
        let y = *order.get(i).ok_or("too many nodes are opened")?;
        if fails != (y == d) {
            return Err(format!("opening of node {y}: fails: {fails}"));
        }
        if let Ok(Event::Open(v)) = &e {
            if !v.is(m.n[y].val) {
                return Err(format!("opening of node {y}: other data"));
            }
        }
        if depth != m.depth(y) - m.depth(x) {
            return Err(format!("node {y} is opened at depth {depth}"));
        }
        depth += 1;
        i += 1;
    }
    if i != order.len() || depth != 0 {
        return Err(format!("{i} nodes are opened, {depth} stay open"));
    }
    let back: Result<Node<K>, _> = n[x].depth_first_traverse().collect();
    if back.is_ok() == inside {
        return Err(format!("rebuilding from a traversal: {:?}", back.map(|_| ())));
    }
    drop(back);
    drop(g);
    if K::COUNTED && live() != before {
        return Err(format!("{} values are left over", live() - before));
    }
    check_free(&n, m)?;
    run.step(2);
    Ok(())
}

fn dark_copies<K: Kind>(m: &Model, x: usize, d: usize, run: &mut Run) -> Res {
    reset();
    let n = build::<K>(m);
    let before = live();
    let inside = m.preorder(x).contains(&d);
    let h = hot(&n[x]);
    let g = n[d].borrow_data_mut();
    for way in 0..5 {
        let fails = match way {
            0 => n[x].try_clone_subtree().is_err(),
            1 => h.try_clone_subtree().is_err(),
            2 => catch(|| n[x].clone_subtree()).is_err(),
            3 if x == 0 => n[0].tree().try_clone_tree().is_err(),
            4 if x == 0 => catch(|| n[0].tree().clone_tree()).is_err(),
            _ => continue,
        };
        if fails != inside {
            return Err(format!("copying, way {way}: fails: {fails}"));
        }
        if K::COUNTED && live() != before {
            return Err(format!("way {way}: {} values are left over", live() - before));
        }
        run.step(1);
    }
    drop(g);
    drop(h);
    check_free(&n, m)
}

/// C14 (`copies` false), C16: with one node's data unreadable.
pub fn barred_copies(cx: &mut Cx, copies: bool) {
    for n in 1..=cx.pick(5, 6) {
        for s in shape::trees(n) {
            let m = Model::from_forest(&[s.clone()]);
            if !cx.task() {
                continue;
            }
            for x in 0..n {
                for d in 0..n {
                    for k in 0..KINDS.len() {
                        cx.case(
                            || format!("data {}: {} from {x} while {d} is unreadable", KINDS[k], shape::show(&s)),
                            |run| {
                                run.state(m.hash());
                                if copies {
                                    with_kind!(k, dark_copies, &m, x, d, run)
                                } else {
                                    with_kind!(k, dark_events, &m, x, d, run)
                                }
                            },
                        );
                    }
                }
            }
        }
    }
}

/// One edit while all data, or all but one node's, are exclusively borrowed.
fn barred_edit<K: Kind>(m0: &Model, op: Op, via_hot: bool, free: Option<usize>, run: &mut Run) -> Res {
    reset();
    let mut m = m0.clone();
    let mut n = build::<K>(&m);
    let keep = n.clone();
    {
        let g: Vec<_> = keep.iter().enumerate().filter(|(i, _)| free != Some(*i)).map(|(_, n)| n.borrow_data_mut()).collect();
        step(&mut n, &mut m, op, via_hot)?;
        for (i, k) in keep.iter().enumerate() {
            if k.try_borrow_data().is_ok() != (free == Some(i)) || k.try_borrow_data_mut().is_ok() != (free == Some(i)) {
                return Err(format!("the edit changed what is borrowed at node {i}"));
            }
        }
        drop(g);
    }
    if !keep.iter().all(|k| k.try_borrow_data_mut().is_ok()) {
        return Err("data stay borrowed".into());
    }
    drop(keep);
    structure(&n, &m, &m.live_trees().collect::<Vec<_>>())?;
    run.state(m.hash());
    run.step(1);
    Ok(())
}

/// C18: no edit needs the data, of whatever kind.
pub fn barred_edits(cx: &mut Cx) {
    for n in 1..=cx.pick(4, 5) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            let alive: Vec<usize> = m.alive().collect();
            for op in ops_on(&m, &alive, &alive, true) {
                if is_clone(op) {
                    continue;
                }
                if !cx.task() {
                    continue;
                }
                for k in 0..KINDS.len() {
                    for h in [false, true] {
                        // All of them in the largest forests, all but one in the others.
                        for free in (0..=if n < 4 { n } else { 0 }).map(|i| i.checked_sub(1)) {
                            cx.case(
                                || format!("data {}: {} {op:?}{} with all data but {free:?} borrowed", KINDS[k], m.show(), if h { " via hot" } else { "" }),
                                |run| with_kind!(k, barred_edit, &m, op, h, free, run),
                            );
                        }
                    }
                }
            }
        }
    }
}
