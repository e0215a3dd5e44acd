//! C27 (costs): the work done by a call, counted as the executed regions of the instrumented code,
//! stays within the documented bounds at every size.

#![allow(deprecated, unused_must_use)]

use std::sync::OnceLock;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, InsertAs, Node};
use mc::chores::WORK;
use mc::kinds::{self, Own};
use mc::model::{Model, AS};
use mc::ops;
use mc::shape::{self, Shape};
use mc::sup::{self, Check, Cx, Fnv, Res, Run};

#[cfg(feature = "count")]
extern "C" {
    fn __llvm_profile_begin_counters() -> *const u64;
    fn __llvm_profile_end_counters() -> *const u64;
}

/// How many regions have been executed so far.
#[cfg(feature = "count")]
fn total() -> u64 {
    // SAFETY: the section of counters of this program, which only this thread changes.
    unsafe {
        let (a, b) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
        let n = (b as usize - a as usize) / 8;
        let mut sum = 0u64;
        for i in 0..n {
            sum = sum.wrapping_add(a.add(i).read_volatile());
        }
        sum
    }
}
#[cfg(not(feature = "count"))]
fn total() -> u64 {
    panic!("harness: built without counters")
}

type N = Node<u8>;

/// What the work may be proportional to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Size {
    Const,
    /// Nodes of the subtree of the first node.
    Sub,
    /// Children of the first node.
    Kids,
    /// Siblings of the first node.
    Siblings,
    /// Ancestors of the first node.
    Depth,
    /// Ancestors of the second node.
    OtherDepth,
    /// ... and nodes of the subtree of the first one.
    SubAndOtherDepth,
    /// All nodes of the tree of the first one.
    Tree,
    /// Nodes of the subtree, each indented by its depth.
    SubTimesHeight,
    /// Square of the nodes of the subtree.
    SubSquared,
}

fn depth(m: &Model, mut x: usize) -> usize {
    let mut d = 0;
    while let Some(p) = m.n[x].parent {
        x = p;
        d += 1;
    }
    d
}

fn size(m: &Model, s: Size, x: usize, y: usize) -> usize {
    1 + match s {
        Size::Const => 0,
        Size::Sub => m.preorder(x).len(),
        Size::Kids => m.n[x].kids.len(),
        Size::Siblings => m.n[x].parent.map_or(1, |p| m.n[p].kids.len()),
        Size::Depth => depth(m, x),
        Size::OtherDepth => depth(m, y),
        Size::SubAndOtherDepth => m.preorder(x).len() + depth(m, y),
        Size::Tree => m.n.iter().filter(|n| n.alive && n.tree == m.n[x].tree).count(),
        Size::SubTimesHeight => {
            // Preorder has parents first.
            let (mut d, mut sum) = (std::collections::HashMap::new(), 0);
            for y in m.preorder(x) {
                let k: usize = if y == x { 1 } else { d[&m.n[y].parent.unwrap()] + 1 };
                d.insert(y, k);
                sum += k;
            }
            sum
        }
        Size::SubSquared => m.preorder(x).len().pow(2),
    }
}

/// The part whose work counts.
fn count<R>(f: impl FnOnce() -> R) -> (R, u64) {
    // Reading the counters is counted too, with always the same number.
    static READING: OnceLock<u64> = OnceLock::new();
    let reading = *READING.get_or_init(|| {
        let a = total();
        total() - a
    });
    let a = total();
    let r = f();
    (r, total() - a - reading)
}

fn hot(n: &N) -> HotNode<u8> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}
fn frozen(n: &N) -> FrozenNode<u8> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}

/// With whom the second node is.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum With {
    /// There is none.
    None,
    /// In the same tree, not in the subtree of the first one.
    Same,
    /// In the other tree.
    Other,
}

type Do = Box<dyn Fn(&[N], usize, usize) -> Option<u64>>;
struct Act {
    name: String,
    size: Size,
    with: With,
    f: Do,
}

fn acts() -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    let mut add = |name: &str, size: Size, with: With, f: Do| v.push(Act { name: name.into(), size, with, f });
    // Getters, of every flavour.
    macro_rules! getters {
        ($size:ident: $($g:ident),*) => {$(
            add(stringify!($g), Size::$size, With::None, Box::new(|n, x, _| Some(count(|| drop(n[x].$g())).1)));
            add(concat!("hot ", stringify!($g)), Size::$size, With::None, Box::new(|n, x, _| { let h = hot(&n[x]); Some(count(|| drop(h.$g())).1) }));
            add(concat!("frozen ", stringify!($g)), Size::$size, With::None, Box::new(|n, x, _| { let h = frozen(&n[x]); Some(count(|| drop(h.$g())).1) }));
        )*};
    }
    getters!(Const: num_children, has_children, has_one_child, has_multiple_children, is_root, parent, root, tree, first_child, last_child,
        first_last_child, next_sibling, prev_sibling, has_next_sibling, has_prev_sibling, first_sibling, last_sibling, first_last_sibling,
        clone, borrow_data, borrow_data_mut, try_borrow_data);
    getters!(Kids: count_children);
    getters!(Siblings: count_preceding_siblings, count_following_siblings);
    getters!(Depth: count_ancestors);
    macro_rules! one {
        ($($name:literal $size:ident: |$x:ident| $e:expr;)*) => {$(
            add($name, Size::$size, With::None, Box::new(|n, x, _| { let $x = &n[x]; Some(count(|| drop($e)).1) }));
        )*};
    }
    one! {
        "downgrade" Const: |x| x.downgrade();
        "weak upgrade" Const: |x| x.downgrade().upgrade();
        "tree root" Const: |x| x.tree().root();
        "tree downgrade" Const: |x| x.tree().downgrade().upgrade();
        "grant" Const: |x| x.tree().grant_hierarchy_edit();
        "prohibition" Const: |x| x.tree().prohibit_hierarchy_edit();
        "hot bundle" Const: |x| { let h = hot(x); (h.extract_hierarchy_edit_grant(), h.clone()) };
        "frozen bundle" Const: |x| { let h = frozen(x); (h.extract_hierarchy_edit_prohibition(), h.clone()) };
        "children" Kids: |x| x.children().count();
        "children_reverse" Kids: |x| x.children_reverse().count();
        "siblings" Siblings: |x| x.siblings().count();
        "siblings_reverse" Siblings: |x| x.siblings_reverse().count();
        "following" Siblings: |x| x.following_siblings().count();
        "preceding" Siblings: |x| x.preceding_siblings_reverse().count();
        "ancestors" Depth: |x| x.ancestors().count();
        "stable children" Kids: |x| frozen(x).children_stable().count();
        "stable children, backwards" Kids: |x| frozen(x).children_stable().rev().count();
        "stable siblings" Siblings: |x| frozen(x).siblings_stable().count();
        "one step of children" Const: |x| x.children().next();
        "one step of stable children" Const: |x| { let h = frozen(x); let mut i = h.children_stable(); (i.next(), i.next_back()) };
        "depth first" Sub: |x| x.depth_first_traverse().count();
        "depth first in reverse" Sub: |x| x.depth_first_reverse_traverse().count();
        "stable depth first" Sub: |x| frozen(x).depth_first_traverse_stable().count();
        "stable depth first, backwards" Sub: |x| frozen(x).depth_first_traverse_stable().rev().count();
        "stable depth first, both ways" Sub: |x| {
            let h = frozen(x);
            let mut i = h.depth_first_traverse_stable();
            while i.next().is_some() && i.next_back().is_some() {}
        };
        "shallow depth first" Sub: |x| frozen(x).shallow_depth_first_traverse_stable(None).count();
        "shallow depth first of the children" Kids: |x| frozen(x).shallow_depth_first_traverse_stable(Some(1)).count();
        "two steps of depth first" Const: |x| { let mut i = x.depth_first_traverse(); (i.next(), i.next()) };
        "two steps of stable depth first" Const: |x| { let h = frozen(x); let mut i = h.depth_first_traverse_stable(); (i.next(), i.next_back()) };
        "breadth first" Sub: |x| frozen(x).allocating_breadth_first_traverse_stable(0).count();
        "non-allocating breadth first" SubSquared: |x| frozen(x).non_allocating_breadth_first_traverse_stable(0).count();
        "events" Sub: |x| x.to_events().count();
        "event after the opening" Const: |x| DftEvent::Open(x.clone()).next();
        "event after the closing" Const: |x| DftEvent::Close(x.clone()).next();
        "event before the opening" Const: |x| DftEvent::Open(x.clone()).prev();
        "event before the closing" Const: |x| DftEvent::Close(x.clone()).prev();
        "event leaving" Sub: |x| DftEvent::Open(x.clone()).close_current();
        "subtree skipped" Sub: |x| { let mut i = x.depth_first_traverse(); i.next(); i.close_current() };
        "stable subtree skipped" Sub: |x| { let mut i = frozen(x).depth_first_traverse_stable(); i.next(); i.close_current() };
        "shallow subtree skipped" Sub: |x| { let mut i = frozen(x).shallow_depth_first_traverse_stable(Some(2)); i.next(); i.close_current() };
        "size hints" Sub: |x| { let mut i = frozen(x).depth_first_traverse_stable(); while i.next().is_some() { i.size_hint(); } };
        "peeking breadth first" Sub: |x| { let mut i = frozen(x).allocating_breadth_first_traverse_stable(0); while i.next().is_some() { i.peek(); i.size_hint(); } };
        "peeking depth first" Sub: |x| { let mut i = frozen(x).depth_first_traverse_stable(); while i.next().is_some() { i.peek(); i.peek_back(); } };
        "one step of breadth first" Kids: |x| { let mut i = frozen(x).allocating_breadth_first_traverse_stable(0); i.next() };
        "one step of non-allocating breadth first" Const: |x| { let mut i = frozen(x).non_allocating_breadth_first_traverse_stable(0); i.next() };
        "breadth first below" Sub: |x| frozen(x).allocating_breadth_first_traverse_stable(3).count();
        "one event" Const: |x| { let mut i = x.to_events(); i.next() };
        "node printed" Const: |x| format!("{:?}", x.debug_print_local());
        "subtree printed prettily" SubTimesHeight: |x| format!("{:?}", x.debug_pretty_print());
        "subtree displayed" SubTimesHeight: |x| format!("{}", x.debug_pretty_print());
        "subtree printed" Sub: |x| format!("{:?}", x.debug_print_subtree());
        "data set" Const: |x| std::mem::replace(&mut *x.borrow_data_mut(), 3);
        "same node" Const: |x| (x.ptr_eq(&x.root()), x.belongs_to_same_tree(&x.root()), x.belongs_to(&x.tree()));
        "clone_subtree" Sub: |x| { let c = x.clone_subtree(); std::mem::forget(c) };
        "clone_tree" Tree: |x| { let c = x.tree().clone_tree(); std::mem::forget(c) };
        "equality with itself copied" Sub: |x| { let c = x.clone_subtree(); assert!(x.try_eq(&c).unwrap()); };
        "copy given up" Sub: |x| x.clone_subtree();
        "detach" Sub: |x| hot(x).detach_subtree();
        "events into a builder" Sub: |x| {
            let mut b: TreeBuilder<u8> = TreeBuilder::new();
            for e in x.to_events() {
                assert!(b.push_event(e.expect("readable")).is_ok());
            }
            b.finish().expect("closed")
        };
        "interrupting parent" Depth: |x| { let h = hot(x); h.create_as_interrupting_parent(9) };
        "interrupting child" Kids: |x| { let h = hot(x); h.create_as_interrupting_child(9) };
        "first child" Const: |x| { let h = hot(x); h.create_as_first_child(9) };
        "last child" Const: |x| { let h = hot(x); h.create_as_last_child(9) };
        "builder opening and closing" Const: |x| {
            let mut b = TreeBuilder::with_root(hot(x));
            assert!(b.push_event(Event::Open(9)).is_ok() && b.push_event(Event::Close(1)).is_ok());
        };
    }
    for (k, name) in ["next sibling", "previous sibling"].into_iter().enumerate() {
        add(name, Size::Const, With::None, Box::new(move |n, x, _| {
            if n[x].is_root() {
                return None;
            }
            let g = n[x].tree().grant_hierarchy_edit().expect("harness");
            Some(count(|| if k == 0 { n[x].create_as_next_sibling(&g, 9) } else { n[x].create_as_prev_sibling(&g, 9) }).1)
        }));
    }
    add("replace with children", Size::Kids, With::None, Box::new(|n, x, _| {
        let h = hot(&n[x]);
        let (r, c) = count(|| h.try_replace_with_children());
        r.ok().map(|()| c)
    }));
    for as_ in AS {
        for via_hot in [false, true] {
            let to = if via_hot { "hot, moved as" } else { "moved as" };
            for (with, size) in [(With::Same, Size::OtherDepth), (With::Other, Size::SubAndOtherDepth)] {
                add(&format!("{to} {as_:?}, {with:?} tree"), size, with, Box::new(move |n, x, y| {
                    let a = hot(&n[y]);
                    let (r, c) = if via_hot {
                        let h = hot(&n[x]);
                        count(|| h.try_detach_insert_subtree(ops::insert(as_, &a)))
                    } else {
                        let g = n[x].tree().grant_hierarchy_edit().expect("harness");
                        count(|| n[x].try_detach_insert_subtree(&g, ops::insert(as_, &a)))
                    };
                    r.ok().map(|()| c)
                }));
            }
            for with in [With::Same, With::Other] {
                add(&format!("copied {to} {as_:?}, {with:?} tree"), Size::SubAndOtherDepth, with, Box::new(move |n, x, y| {
                    let a = hot(&n[y]);
                    if n[y].is_root() && !matches!(ops::insert(as_, ()), InsertAs::FirstChildOf(()) | InsertAs::LastChildOf(())) {
                        return None;
                    }
                    Some(count(|| n[x].try_clone_insert_subtree(ops::insert(as_, &a)).map(std::mem::forget)).1)
                }));
            }
        }
    }
    v
}

fn one(m: &Model, a: &Act, x: usize, y: usize) -> Option<u64> {
    match a.with {
        With::None => {}
        With::Same => {
            // Moves into itself are refused, moves of roots do nothing.
            if m.n[x].tree != m.n[y].tree || m.preorder(x).contains(&y) {
                return None;
            }
        }
        With::Other => {
            if m.n[x].tree == m.n[y].tree {
                return None;
            }
        }
    }
    let n = kinds::build::<u8>(m);
    (a.f)(&n, x, y)
}

fn pair(s: &Shape) -> Model {
    let mut m = Model::default();
    m.add_tree(s);
    m.add_tree(&vec![0, 0, 0]);
    m
}

const SMALL: usize = 4;
const SLACK: u64 = 3;
/// For rare branches of the cheapest calls.
const EXTRA: u64 = 60;

/// The most work per size over all small trees.
fn base() -> &'static Vec<u64> {
    static BASE: OnceLock<Vec<u64>> = OnceLock::new();
    BASE.get_or_init(|| {
        let mut most = vec![];
        for a in acts() {
            let mut k = 0;
            for n in 1..=SMALL {
                for s in shape::trees(n) {
                    let m = pair(&s);
                    for x in m.alive() {
                        for y in m.alive() {
                            if a.with == With::None && y > 0 {
                                continue;
                            }
                            if let Some(c) = one(&m, &a, x, y) {
                                k = k.max(c.div_ceil(size(&m, a.size, x, y) as u64));
                            }
                        }
                    }
                }
            }
            most.push(k);
        }
        most
    })
}

fn bounded(m: &Model, i: usize, x: usize, y: usize, run: &mut Run) -> Res {
    let a = &acts()[i];
    let Some(c) = one(m, a, x, y) else { return Ok(()) };
    let k = size(m, a.size, x, y) as u64;
    let bound = SLACK * base()[i] * k + EXTRA;
    if c > bound {
        return Err(format!(
            "{} regions executed, at most {bound} expected: {EXTRA} and {SLACK} times the {} per unit of size ({:?}, here {k}) that suffice for any tree up to {SMALL} nodes",
            c, base()[i], a.size
        ));
    }
    run.step(1);
    let mut h = Fnv::new();
    h.u(m.hash()).u(i as u64).u(x as u64).u(y as u64);
    run.state(h.get());
    Ok(())
}

fn sizes(cx: &mut Cx) {
    let mut shapes: Vec<(String, Shape)> = vec![];
    for n in cx.pick(vec![40, 300, 1000], vec![40, 129, 300, 513, 1000, 3000]) {
        shapes.extend(shape::families(n).into_iter().chain(shape::mixed(n)).map(|(t, s)| (format!("{t} with {} nodes", s.len()), s)));
    }
    let acts = acts();
    for (t, s) in shapes {
        let m = pair(&s);
        let n = s.len();
        let mut xs = vec![0, 1, 2, n / 2, n - 2, n - 1];
        xs.extend((0..n).max_by_key(|&x| (m.n[x].kids.len(), x)));
        xs.sort();
        xs.dedup();
        for (i, a) in acts.iter().enumerate() {
            if !cx.task() {
                continue;
            }
            let mut pairs: Vec<(usize, usize)> = vec![];
            for &x in &xs {
                match a.with {
                    With::None => pairs.push((x, 0)),
                    With::Same => pairs.extend(xs.iter().map(|&y| (x, y))),
                    With::Other => pairs.extend([(x, n), (x, n + 1), (n, x), (n + 2, x)]),
                }
            }
            for (x, y) in pairs {
                cx.case(|| format!("{}: {t}, nodes {x} and {y}", a.name), |run| bounded(&m, i, x, y, run));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Long lives.

/// Every round of work that leaves everything as it was costs the same, and so do all other calls after it.
fn rounds(m: &Model, a: usize, x: usize, y: usize, run: &mut Run) -> Res {
    kinds::reset();
    let n = kinds::build::<Own>(m);
    let mut first = 0;
    for i in 0..300 {
        let c = count(|| WORK[a].1(&n[x], &n[y])).1;
        if i < 20 {
            first = c.max(first);
        }
        if c > 2 * first + EXTRA {
            return Err(format!("round {i} has executed {c} regions, the first ones at most {first}"));
        }
    }
    run.step(300);
    // Everything else, before and after.
    let fresh = kinds::build::<Own>(m);
    for w in WORK {
        let was = count(|| w.1(&fresh[x], &fresh[y])).1;
        let is = count(|| w.1(&n[x], &n[y])).1;
        if is > 2 * was + EXTRA {
            return Err(format!("after 300 rounds: {} has executed {is} regions, on a new tree {was}", w.0));
        }
        run.step(1);
    }
    let mut h = Fnv::new();
    h.u(m.hash()).u(a as u64).u(x as u64).u(y as u64).u(77);
    run.state(h.get());
    Ok(())
}

fn long(cx: &mut Cx) {
    for n in 1..=cx.pick(3, 4) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for a in 0..WORK.len() {
                if !cx.task() {
                    continue;
                }
                for x in 0..n {
                    for y in 0..n {
                        cx.case(|| format!("300 times {} at {x} and {y} of {}", WORK[a].0, m.show()), |run| rounds(&m, a, x, y, run));
                    }
                }
            }
        }
    }
}

/// Building node by node and giving everything up is linear.
fn growth(cx: &mut Cx) {
    for n in cx.pick(vec![500, 2000], vec![500, 2000, 8000]) {
        for (t, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            if !cx.task() {
                continue;
            }
            for last in 0..3 {
                let how = ["a node", "a tree handle", "a stable traversal"][last];
                cx.case(
                    || format!("{t} with {} nodes built, and released through {how}", s.len()),
                    |run| {
                        let go = |s: &Shape| {
                            let m = Model::from_forest(std::slice::from_ref(s));
                            let (v, built) = count(|| kinds::build::<u8>(&m));
                            let w = v[v.len() - 1].clone();
                            // Handles first, then the last one.
                            let ((), freed) = match last {
                                0 => count(|| drop((v, w))),
                                1 => {
                                    let t = w.tree();
                                    count(|| drop((v, w, t)))
                                }
                                _ => {
                                    let h = frozen(&v[0]);
                                    let i = h.depth_first_traverse_stable();
                                    drop(h);
                                    count(|| drop((v, w, i)))
                                }
                            };
                            (built, freed)
                        };
                        let (mut b, mut f) = (0, 0);
                        for k in 1..=SMALL {
                            for s in shape::trees(k) {
                                let (x, y) = go(&s);
                                b = b.max(x.div_ceil(k as u64));
                                f = f.max(y.div_ceil(k as u64));
                            }
                        }
                        let (x, y) = go(&s);
                        let k = s.len() as u64;
                        if x > SLACK * b * k + EXTRA {
                            return Err(format!("building has executed {x} regions, small trees take up to {b} per node"));
                        }
                        if y > SLACK * f * k + EXTRA {
                            return Err(format!("releasing has executed {y} regions, small trees take up to {f} per node"));
                        }
                        run.step(2);
                        let mut h = Fnv::new();
                        h.s(t).u(k).u(last as u64);
                        run.state(h.get());
                        Ok(())
                    },
                );
            }
        }
    }
}

fn c27(cx: &mut Cx) {
    sizes(cx);
    long(cx);
    growth(cx);
}

const Q: &str = "unit of work: one executed region of the instrumented crate (coverage counters, deterministic). Sizes: 210 calls (every getter of every \
flavour, lock calls, handle clones, every traversal whole and for its first steps, events, builder, creations, moves and copies as every kind of place \
within and between trees, detaching, comparing, printing) at all nodes of all trees up to 4 nodes for the reference, then at up to 7 nodes (first, last, middle, \
widest) and all pairs of them of 11 shape families with 40, 300 and 1000 nodes: at most 3 times the reference per unit of the documented size, plus 60 regions. Repetition: \
every kind of work that leaves a tree as it was, 300 times at every pair of nodes of all forests up to 3 nodes, no round dearer than twice the first ones plus \
60, and everything else afterwards at most twice as dear as on a new tree plus 60. Growth: families of 500 and 2000 nodes built node by node and released through a \
node, a tree handle or a traversal: linear";
const T: &str = "as quick, with 40, 129, 300, 513, 1000 and 3000 nodes, repetition in all forests up to 4 nodes, growth up to 8000 nodes";
const A: &[&str] = &[
    "the work of the standard library's precompiled parts (allocation, copying of memory) is not counted",
    "same-tree moves may walk the ancestors of the destination (loop check), beyond their documentation",
];

fn main() {
    sup::main(&[Check { id: "C27", f: c27, bounds_quick: Q, bounds_thorough: T, assumptions: A }]);
}
