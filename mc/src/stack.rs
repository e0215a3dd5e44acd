//! C22: every operation on degenerate trees runs in a small fixed stack.
//!
//! The enumeration is over pumped families: every tree of up to a few nodes with a marked leaf is
//! pumped into a deep tree (the leaf of each copy is replaced by the next copy), every tree is
//! pumped into a wide one (copies below one root), and deep and wide parts are combined.

use std::cell::Cell;
use std::fmt::{self, Write};
use std::rc::Rc;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node, Tree};
use mc::kinds::{self, Kind};
use mc::shape::{self, Shape};
use mc::sup::{Cx, Fnv, Res};

pub const Q: &str = "every family obtained by pumping every marked leaf of every tree of up to 4 nodes (deep), every tree of up to 3 nodes (wide), chains below the first, middle and last child of a star and stars below a chain; 20000 nodes in a 128 KiB stack (4000 nodes in 48 KiB for the operations that are quadratic by nature) times every operation of the list, each in a thread of its own; depth-limited and stable traversals in both directions; destructors run from every kind of last owner and inside unwinding; 12 ways of building, restructuring, copying and releasing with data of 5 representations (zero-sized with and without destructor, a byte, large, boxed)";
pub const T: &str = "as quick with every tree of up to 5 nodes (deep) and 4 nodes (wide), and 200000 nodes in the 128 KiB stack";
pub const A: &[&str] = &[
    "one recursion level needs at least 24 bytes of stack (48 for the quadratic operations), so recursion over the pumped dimension cannot fit",
    "recursion is observed in the two build profiles of run.sh (opt-level 1); a tail call turned into a loop there counts as constant space",
    "the subtree debug printer (nested std Debug builders) and nested ownership of trees through node data are excluded",
];

const STACK: usize = 128 << 10;
const STACK_SMALL: usize = 48 << 10;

struct V {
    id: u32,
    live: Rc<Cell<isize>>,
}
/// Id of data whose destructor panics.
const BOOM: u32 = u32::MAX - 1;
impl V {
    fn new(id: u32, live: &Rc<Cell<isize>>) -> V {
        live.set(live.get() + 1);
        V { id, live: live.clone() }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
        if self.id == BOOM && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(1u8));
        }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.id, &self.live)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.id == o.id
    }
}
impl Eq for V {}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("v")
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("w")
    }
}

struct Count {
    lines: usize,
}
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.lines += s.bytes().filter(|b| *b == b'\n').count();
        Ok(())
    }
}

#[derive(Clone)]
enum Fam {
    /// `leaf` of each copy is replaced by the next copy.
    Deep { base: Shape, leaf: usize },
    /// Copies of `base` below one root.
    Wide { base: Shape },
    /// A star with a chain below the child at `at` (0 first, 1 middle, 2 last).
    StarChain { at: usize },
    /// A chain with a star at its end.
    ChainStar,
}

impl Fam {
    fn show(&self) -> String {
        match self {
            Fam::Deep { base, leaf } => format!("deep {} at {leaf}", shape::show(base)),
            Fam::Wide { base } => format!("wide {}", shape::show(base)),
            Fam::StarChain { at } => format!("chain below child {} of a star", ["first", "middle", "last"][*at]),
            Fam::ChainStar => "star below a chain".into(),
        }
    }

    /// Parent array (parents before children, siblings in order; not necessarily preorder).
    fn parents(&self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = vec![0];
        match self {
            Fam::Deep { base, leaf } => {
                let mut top = 0; // the node playing the root of the current copy
                while p.len() + base.len() <= n {
                    let mut map = vec![top];
                    for i in 1..base.len() {
                        p.push(map[base[i]]);
                        map.push(p.len() - 1);
                    }
                    top = map[*leaf];
                }
            }
            Fam::Wide { base } => {
                while p.len() + base.len() <= n {
                    let at = p.len();
                    p.push(0);
                    for i in 1..base.len() {
                        p.push(at + base[i]);
                    }
                }
            }
            Fam::StarChain { at } => {
                let k = n / 2;
                for _ in 0..k {
                    p.push(0);
                }
                let mut cur = match at {
                    0 => 1,
                    1 => k / 2,
                    _ => k,
                };
                while p.len() < n {
                    p.push(cur);
                    cur = p.len() - 1;
                }
            }
            Fam::ChainStar => {
                while p.len() < n / 2 {
                    p.push(p.len() - 1);
                }
                let e = p.len() - 1;
                while p.len() < n {
                    p.push(e);
                }
            }
        }
        p
    }
}

fn families(deep: usize, wide: usize) -> Vec<Fam> {
    let mut v = vec![];
    for k in 2..=deep {
        for base in shape::trees(k) {
            for leaf in 1..k {
                if !base[1..].contains(&leaf) {
                    v.push(Fam::Deep { base: base.clone(), leaf });
                }
            }
        }
    }
    for k in 1..=wide {
        for base in shape::trees(k) {
            v.push(Fam::Wide { base });
        }
    }
    for at in 0..3 {
        v.push(Fam::StarChain { at });
    }
    v.push(Fam::ChainStar);
    v
}

/// A built tree with the facts needed to check results in linear time.
struct B {
    live: Rc<Cell<isize>>,
    n: usize,
    par: Vec<usize>,
    depth: Vec<usize>,
    size: Vec<usize>,
    last_kid: Vec<usize>,
    root: Node<V>,
    /// Deepest node, a node in the middle of the tree (not the root) and the last created one.
    deep: (usize, Node<V>),
    mid: (usize, Node<V>),
}

fn build(f: &Fam, n: usize) -> B {
    let par = f.parents(n);
    let n = par.len();
    let live = Rc::new(Cell::new(0));
    let mut depth = vec![0; n];
    let mut size = vec![1; n];
    let mut last_kid = vec![0; n];
    for i in 1..n {
        depth[i] = depth[par[i]] + 1;
        last_kid[par[i]] = i;
    }
    for i in (1..n).rev() {
        size[par[i]] += size[i];
    }
    let d = (0..n).max_by_key(|&i| depth[i]).unwrap();
    // Of the middle third, the one with the largest subtree.
    let md = (n / 3..2 * n / 3).max_by_key(|&i| size[i]).unwrap().max(1);
    let root = Node::new_tree(V::new(0, &live));
    let g = root.tree().grant_hierarchy_edit().expect("grant");
    let mut hs: Vec<Node<V>> = vec![root.clone()];
    for i in 1..n {
        let c = hs[par[i]].create_as_last_child(&g, V::new(i as u32, &live));
        hs.push(c);
    }
    let deep = (d, hs[d].clone());
    let mid = (md, hs[md].clone());
    B { live, n, par, depth, size, last_kid, root, deep, mid }
}

fn want<X: PartialEq + fmt::Debug>(what: &str, got: X, exp: X) -> Res {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what} is {got:?}, expected {exp:?}"))
    }
}

fn grant(n: &Node<V>) -> dendron::HierarchyEditGrant<V> {
    n.tree().grant_hierarchy_edit().expect("grantable")
}
fn hot(n: &Node<V>) -> HotNode<V> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("grantable")
}
fn frozen(n: &Node<V>) -> FrozenNode<V> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("freezable")
}

/// The tree still has its first `n` nodes (counted by a plain traversal) and is unlocked.
fn intact(root: &Node<V>, n: usize) -> Res {
    want("number of events", root.depth_first_traverse().count(), 2 * n)?;
    want("grantable", root.tree().grant_hierarchy_edit().is_ok(), true)?;
    want("freezable", root.tree().prohibit_hierarchy_edit().is_ok(), true)
}

type OpFn = fn(B) -> Res;

/// Everything of `b` is consumed by the operation; afterwards no data may be left.
const OPS: &[(&str, bool, OpFn)] = &[
    ("drop: last owner is the root handle", false, |b| {
        let r = b.root;
        drop(b.deep);
        drop(b.mid);
        drop(r);
        Ok(())
    }),
    ("drop: last owner is the deepest node", false, |b| {
        let d = b.deep;
        drop(b.root);
        drop(b.mid);
        drop(d);
        Ok(())
    }),
    ("drop: last owner is a middle node", false, |b| {
        let d = b.mid;
        drop(b.root);
        drop(b.deep);
        drop(d);
        Ok(())
    }),
    ("drop: last owner is the tree", false, |b| {
        let t = b.root.tree();
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a hot node", false, |b| {
        let t = hot(&b.mid.1);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a frozen node", false, |b| {
        let t = frozen(&b.deep.1);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a stable traversal", false, |b| {
        let f = frozen(&b.root);
        let mut t = f.depth_first_traverse_stable();
        drop(f);
        t.next();
        t.next_back();
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a breadth-first queue", false, |b| {
        let f = frozen(&b.root);
        let mut t = f.allocating_breadth_first_traverse_stable(0);
        drop(f);
        t.nth(b.n / 2);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a plain traversal", false, |b| {
        let mut t = b.root.depth_first_traverse();
        t.nth(b.n / 2);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: last owner is a serializing iterator", false, |b| {
        let mut t = b.root.to_events();
        t.nth(b.n / 2);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(t);
        Ok(())
    }),
    ("drop: handles of all nodes, first to last", false, |b| {
        let v: Vec<Node<V>> = b.root.depth_first_traverse().filter_map(|e| e.into_open()).collect();
        want("handles", v.len(), b.n)?;
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(v);
        Ok(())
    }),
    ("drop: handles of all nodes, last to first", false, |b| {
        let mut v: Vec<Node<V>> = b.root.depth_first_traverse().filter_map(|e| e.into_open()).collect();
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        while let Some(x) = v.pop() {
            drop(x);
        }
        Ok(())
    }),
    ("drop: hot handles of all nodes", false, |b| {
        let g = grant(&b.root);
        let v: Vec<HotNode<V>> = b
            .root
            .depth_first_traverse()
            .filter_map(|e| e.into_open())
            .map(|n| n.bundle_hierarchy_edit_grant(&g))
            .collect();
        drop(g);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(v);
        Ok(())
    }),
    ("drop: frozen handles of all nodes", false, |b| {
        let f = frozen(&b.root);
        let v: Vec<FrozenNode<V>> = f.depth_first_traverse_stable().filter_map(|e| e.into_open()).collect();
        drop(f);
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        drop(v);
        Ok(())
    }),
    ("drop: while a panic unwinds", false, |b| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _b = b;
            std::panic::resume_unwind(Box::new(7u8));
        }));
        want("unwound", r.is_err(), true)
    }),
    ("drop: the destructor of the deepest node panics", false, |b| {
        b.deep.1.borrow_data_mut().id = BOOM;
        let r = b.root;
        drop(b.deep);
        drop(b.mid);
        want("unwound", mc::sup::catch(move || drop(r)).is_err(), true)
    }),
    ("drop: the destructor of a middle node panics", false, |b| {
        b.mid.1.borrow_data_mut().id = BOOM;
        let r = b.root.tree();
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        want("unwound", mc::sup::catch(move || drop(r)).is_err(), true)
    }),
    ("drop: weak references only are left", false, |b| {
        let w = b.mid.1.downgrade();
        let t = b.root.tree().downgrade();
        drop(b.root);
        drop(b.deep);
        drop(b.mid);
        want("upgrades", w.upgrade().is_none() && t.upgrade().is_none(), true)
    }),
    ("plain depth-first", false, |b| {
        want("events", b.root.depth_first_traverse().count(), 2 * b.n)?;
        want("events", b.root.depth_first_reverse_traverse().count(), 2 * b.n)?;
        want("events of the middle", b.mid.1.depth_first_traverse().count(), 2 * b.size[b.mid.0])?;
        want("events of the middle", b.mid.1.depth_first_reverse_traverse().count(), 2 * b.size[b.mid.0])
    }),
    ("plain depth-first by event steps", false, |b| {
        let mut e = DftEvent::Open(b.root.clone());
        let mut k = 1;
        while let Some(f) = e.next() {
            e = f;
            k += 1;
        }
        want("events", k, 2 * b.n)?;
        while let Some(f) = e.prev() {
            e = f;
            k -= 1;
        }
        want("events left", k, 1)
    }),
    ("plain depth-first, closing every node at once", false, |b| {
        let mut t = b.root.depth_first_traverse();
        t.next();
        let mut k = 0;
        while let Some(e) = t.next() {
            if let DftEvent::Open(_) = e {
                t.close_current();
                k += 1;
            }
        }
        want("children visited", k <= b.root.num_children() + 1, true)
    }),
    ("hot depth-first", false, |b| {
        let h = hot(&b.root);
        want("events", h.depth_first_traverse().count(), 2 * b.n)?;
        want("events", h.depth_first_reverse_traverse().count(), 2 * b.n)
    }),
    ("stable depth-first", false, |b| {
        let h = frozen(&b.root);
        want("events", h.depth_first_traverse_stable().count(), 2 * b.n)?;
        want("events back", h.depth_first_traverse_stable().rev().count(), 2 * b.n)?;
        let mut t = h.depth_first_traverse_stable();
        let mut k = 0;
        while t.next().is_some() {
            k += 1;
            if t.next_back().is_some() {
                k += 1;
            }
        }
        want("events from both ends", k, 2 * b.n)
    }),
    ("stable depth-first, closing the node in the middle", false, |b| {
        let h = frozen(&b.root);
        let mut t = h.depth_first_traverse_stable();
        t.nth(b.n / 2);
        t.close_current();
        drop(h);
        let _ = t.count();
        Ok(())
    }),
    ("shallow depth-first", false, |b| {
        let h = frozen(&b.root);
        for lim in [None, Some(0), Some(1), Some(b.depth[b.deep.0] / 2), Some(b.depth[b.deep.0]), Some(usize::MAX)] {
            let exp = 2 * b.depth.iter().filter(|&&d| lim.is_none_or(|l| d <= l)).count();
            want("events", h.shallow_depth_first_traverse_stable(lim).count(), exp)?;
            want("events back", h.shallow_depth_first_traverse_stable(lim).rev().count(), exp)?;
        }
        let mut t = h.shallow_depth_first_traverse_stable(Some(b.depth[b.deep.0] / 2));
        t.nth(b.n / 3);
        t.close_current();
        let _ = t.count();
        Ok(())
    }),
    ("allocating breadth-first", false, |b| {
        let h = frozen(&b.root);
        want("nodes", h.allocating_breadth_first_traverse_stable(0).count(), b.n)?;
        let below = b.depth.iter().filter(|&&d| d >= 3).count();
        want("nodes", h.allocating_breadth_first_traverse_stable(3).count(), below)?;
        let mut t = h.allocating_breadth_first_traverse_stable(0);
        t.nth(b.n / 2 - 1);
        let u = t.clone();
        want("nodes left", t.count(), b.n - b.n / 2)?;
        want("nodes left of the clone", u.count(), b.n - b.n / 2)
    }),
    ("non-allocating breadth-first", true, |b| {
        let h = frozen(&b.root);
        want("nodes", h.non_allocating_breadth_first_traverse_stable(0).count(), b.n)
    }),
    ("siblings and ancestors", false, |b| {
        let ch = b.root.num_children();
        want("children", b.root.children().count(), ch)?;
        want("children", b.root.children_reverse().count(), ch)?;
        let (f, l) = b.root.first_last_child().ok_or("no children")?;
        want("siblings", f.siblings().count(), ch)?;
        want("siblings", l.siblings_reverse().count(), ch)?;
        want("following", f.following_siblings_or_self().count(), ch)?;
        want("following", f.following_siblings().count(), ch - 1)?;
        want("preceding", l.preceding_siblings_or_self_reverse().count(), ch)?;
        want("preceding", l.preceding_siblings_reverse().count(), ch - 1)?;
        want("counts", (l.count_preceding_siblings(), f.count_following_siblings()), (ch - 1, ch - 1))?;
        let z = frozen(&b.root);
        want("children", z.children_stable().count(), ch)?;
        want("children", z.children_stable().rev().count(), ch)?;
        let zl = z.last_child().ok_or("no child")?;
        want("siblings", zl.siblings_stable().count(), ch)?;
        want("preceding", zl.preceding_siblings_or_self_stable().rev().count(), ch)?;
        want("preceding", zl.preceding_siblings_stable().count(), ch - 1)?;
        let d = &b.deep.1;
        want("ancestors", d.ancestors().count(), b.depth[b.deep.0])?;
        want("ancestors", d.ancestors_or_self().count(), b.depth[b.deep.0] + 1)?;
        want("count", d.count_ancestors(), b.depth[b.deep.0])?;
        want("root", d.root().ptr_eq(&b.root), true)?;
        let zd = frozen(d);
        want("ancestors", zd.ancestors().count(), b.depth[b.deep.0])
    }),
    ("clone the whole and compare", false, |b| {
        let c = b.root.clone_subtree();
        intact(&c, b.n)?;
        want("equal", c == b.root, true)?;
        want("equal trees", c.tree() == b.root.tree(), true)?;
        want("try_eq", c.try_eq(&b.root).map_err(|_| "borrowed")?, true)?;
        let i = c.depth_first_traverse().filter_map(|e| e.into_open()).last().ok_or("empty")?;
        i.borrow_data_mut().id = u32::MAX;
        want("equal after a change of the last node", c == b.root, false)?;
        i.borrow_data_mut().id = b.root.depth_first_traverse().filter_map(|e| e.into_open()).last().ok_or("empty")?.borrow_data().id;
        let g = grant(&c);
        i.create_as_last_child(&g, V::new(5, &b.live));
        want("equal with one more node", c == b.root, false)?;
        want("equal with one more node", b.root == c, false)
    }),
    ("clone the tree", false, |b| {
        let c = b.root.tree().clone_tree();
        want("equal", c == b.root.tree(), true)?;
        let c2 = c.try_clone_tree().map_err(|_| "borrowed")?;
        drop(c);
        intact(&c2.root(), b.n)
    }),
    ("clone with the last node unreadable", false, |b| {
        let e = b.root.depth_first_traverse().filter_map(|e| e.into_open()).last().ok_or("empty")?;
        let c = b.root.clone_subtree();
        let d = e.borrow_data_mut();
        want("refused", b.root.try_clone_subtree().is_err(), true)?;
        want("live data", b.live.get(), 2 * b.n as isize)?;
        want("comparison refused", b.root.try_eq(&c).is_err(), true)?;
        drop(d);
        intact(&b.root, b.n)
    }),
    ("clone a frozen subtree", false, |b| {
        let f = frozen(&b.mid.1);
        let c = f.clone_subtree();
        drop(f);
        intact(&c, b.size[b.mid.0])
    }),
    ("clone and insert into itself, everywhere", false, |b| {
        let g = grant(&b.root);
        let c = b.mid.1.clone_insert_subtree(InsertAs::FirstChildOf(&b.deep.1.clone().bundle_hierarchy_edit_grant(&g)));
        drop(c);
        let s = b.size[b.mid.0];
        let h = b.mid.1.clone().bundle_hierarchy_edit_grant(&g);
        let before = b.root.depth_first_traverse().count() / 2;
        want("nodes", before, b.n + s)?;
        let d = b.deep.1.clone_insert_subtree(InsertAs::PreviousSiblingOf(&h.clone()));
        drop(d);
        drop(h);
        drop(g);
        let now = b.root.depth_first_traverse().count() / 2;
        want("nodes inserted", now > before, true)?;
        intact(&b.root, now)
    }),
    ("clone and insert into another tree, refused on unreadable data", false, |b| {
        let o = Node::new_tree(V::new(0, &b.live));
        let h = hot(&o);
        let e = b.root.depth_first_traverse().filter_map(|e| e.into_open()).last().ok_or("empty")?;
        let d = e.borrow_data_mut();
        want("refused", b.root.try_clone_insert_subtree(InsertAs::LastChildOf(&h.clone())).is_err(), true)?;
        drop(d);
        want("nodes", o.depth_first_traverse().count(), 2)?;
        let c = b.root.clone_insert_subtree(InsertAs::LastChildOf(&h.clone()));
        drop(c);
        drop(h);
        intact(&o, b.n + 1)
    }),
    ("events and rebuilding", false, |b| {
        let v: Vec<Event<V>> = b.root.to_events().collect::<Result<_, _>>().map_err(|_| "borrowed")?;
        let r: Node<V> = v.into_iter().collect::<Result<Node<V>, TreeBuildError>>().map_err(|e| format!("{e:?}"))?;
        intact(&r, b.n)?;
        want("equal", r == b.root, true)
    }),
    ("bulk event pushing", false, |b| {
        let v: Vec<Event<V>> = b.mid.1.to_events().collect::<Result<_, _>>().map_err(|_| "borrowed")?;
        let mut t = TreeBuilder::new();
        t.push_events(v).map_err(|e| format!("{e:?}"))?;
        let r = t.finish().map_err(|e| format!("{e:?}"))?;
        want("equal", r == b.mid.1, true)?;
        intact(&r, b.size[b.mid.0])?;
        let r = b.root.depth_first_traverse().collect::<Result<Node<V>, TreeBuildError>>().map_err(|e| format!("{e:?}"))?;
        intact(&r, b.n)
    }),
    ("traversal event pushing below a given root", false, |b| {
        let o = Node::new_tree(V::new(0, &b.live));
        let mut t = TreeBuilder::with_root(hot(&o));
        t.push_dft_events(b.root.depth_first_traverse()).map_err(|e| format!("{e:?}"))?;
        t.close(1).map_err(|e| format!("{e:?}"))?;
        let r = t.finish().map_err(|e| format!("{e:?}"))?;
        want("the given root", r.ptr_eq(&o), true)?;
        intact(&r, b.n + 1)
    }),
    ("abandoned and over-closed builders", false, |b| {
        let mut t = TreeBuilder::new();
        for e in b.root.to_events().take(b.n) {
            t.push_event(e.map_err(|_| "borrowed")?).map_err(|e| format!("{e:?}"))?;
        }
        drop(t);
        want("live data", b.live.get(), b.n as isize)?;
        let mut t = TreeBuilder::new();
        for i in 0..b.n {
            t.open(V::new(i as u32, &b.live)).map_err(|e| format!("{e:?}"))?;
        }
        want("over-closed", t.close(b.n + 1).is_err(), true)?;
        drop(t);
        want("live data", b.live.get(), b.n as isize)?;
        let mut t = TreeBuilder::new();
        for i in 0..b.n {
            t.open(V::new(i as u32, &b.live)).map_err(|e| format!("{e:?}"))?;
        }
        t.close(b.n).map_err(|e| format!("{e:?}"))?;
        want("one root more", t.open(V::new(0, &b.live)).is_err(), true)?;
        let r = t.finish().map_err(|e| format!("{e:?}"))?;
        intact(&r, b.n)
    }),
    ("collecting a truncated event list", false, |b| {
        let v: Vec<Event<V>> = b.root.to_events().take(b.n / 2).collect::<Result<_, _>>().map_err(|_| "borrowed")?;
        let r = v.into_iter().collect::<Result<Tree<V>, TreeBuildError>>();
        // Whether this is accepted is not the point here.
        drop(r);
        want("live data", b.live.get(), b.n as isize)
    }),
    ("detach the middle and drop it", false, |b| {
        let s = b.size[b.mid.0];
        {
            let g = grant(&b.root);
            b.mid.1.detach_subtree(&g);
        }
        intact(&b.mid.1, s)?;
        intact(&b.root, b.n - s)?;
        let inside = b.deep.1.belongs_to_same_tree(&b.mid.1);
        drop(b.mid);
        drop(b.deep);
        let left = b.live.get();
        want("live data", left, (b.n - s) as isize)?;
        let _ = inside;
        intact(&b.root, b.n - s)
    }),
    ("detach the middle and drop the rest", false, |b| {
        let s = b.size[b.mid.0];
        {
            let h = hot(&b.mid.1);
            h.detach_subtree();
        }
        drop(b.root);
        drop(b.deep);
        want("live data", b.live.get(), s as isize)?;
        intact(&b.mid.1, s)
    }),
    ("detach a child of every node", false, |b| {
        // All subtrees become trees of their own, outermost first.
        let v: Vec<Node<V>> = b.root.depth_first_traverse().filter_map(|e| e.into_open()).collect();
        let step = (b.n / 40).max(1);
        let mut i = b.n - 1;
        while i >= step {
            let g = grant(&v[i]);
            v[i].detach_subtree(&g);
            i -= step;
        }
        drop(b.mid);
        drop(b.deep);
        drop(b.root);
        drop(v);
        Ok(())
    }),
    ("move the middle away and back", false, |b| {
        let s = b.size[b.mid.0];
        let o = Node::new_tree(V::new(0, &b.live));
        {
            let g = grant(&b.root);
            b.mid.1.detach_insert_subtree(&g, InsertAs::LastChildOf(&hot(&o)));
        }
        intact(&o, s + 1)?;
        intact(&b.root, b.n - s)?;
        want("root", b.mid.1.root().ptr_eq(&o), true)?;
        {
            let g = grant(&o);
            b.mid.1.detach_insert_subtree(&g, InsertAs::FirstChildOf(&hot(&b.root)));
        }
        intact(&b.root, b.n)?;
        intact(&o, 1)?;
        want("root", b.deep.1.root().ptr_eq(&b.root), true)
    }),
    ("move within the tree in every position", false, |b| {
        let g = grant(&b.root);
        let r = b.root.clone().bundle_hierarchy_edit_grant(&g);
        for ins in [
            InsertAs::FirstChildOf(&r.clone()),
            InsertAs::LastChildOf(&r.clone()),
            InsertAs::PreviousSiblingOf(&r.first_child().ok_or("no child")?),
            InsertAs::NextSiblingOf(&r.last_child().ok_or("no child")?),
        ] {
            b.mid.1.try_detach_insert_subtree(&g, ins).map_err(|e| format!("{e:?}"))?;
        }
        want("middle below the root", b.mid.1.parent().is_some_and(|p| p.ptr_eq(&b.root)), true)?;
        drop(r);
        drop(g);
        intact(&b.root, b.n)
    }),
    ("move below a descendant is refused", false, |b| {
        let g = grant(&b.root);
        let h = b.deep.1.clone().bundle_hierarchy_edit_grant(&g);
        for ins in [
            InsertAs::FirstChildOf(&h.clone()),
            InsertAs::LastChildOf(&h.clone()),
            InsertAs::PreviousSiblingOf(&h.clone()),
            InsertAs::NextSiblingOf(&h.clone()),
        ] {
            want("refused", b.root.try_detach_insert_subtree(&g, ins).is_err(), true)?;
        }
        drop(h);
        drop(g);
        intact(&b.root, b.n)
    }),
    ("merge the whole into another tree", false, |b| {
        let o = Node::new_tree(V::new(0, &b.live));
        {
            let g = grant(&b.root);
            b.root.detach_insert_subtree(&g, InsertAs::LastChildOf(&hot(&o)));
        }
        intact(&o, b.n + 1)?;
        want("root", b.deep.1.root().ptr_eq(&o), true)?;
        want("same tree", b.deep.1.belongs_to_same_tree(&o), true)
    }),
    ("merge by a hot handle", false, |b| {
        let o = Node::new_tree(V::new(0, &b.live));
        {
            let h = hot(&b.root);
            h.detach_insert_subtree(InsertAs::LastChildOf(&hot(&o)));
        }
        intact(&o, b.n + 1)?;
        want("same tree", b.deep.1.belongs_to_same_tree(&o), true)
    }),
    ("create in every position", false, |b| {
        let g = grant(&b.root);
        let before = b.root.depth_first_traverse().count() / 2;
        for n in [&b.mid.1, &b.deep.1] {
            for a in [AdoptAs::FirstChild, AdoptAs::LastChild, AdoptAs::PreviousSibling, AdoptAs::NextSibling] {
                n.try_create_node_as(&g, V::new(1, &b.live), a).map_err(|e| format!("{e:?}"))?;
            }
        }
        want("refused", b.root.try_create_as_next_sibling(&g, V::new(1, &b.live)).is_err(), true)?;
        drop(g);
        intact(&b.root, before + 8)
    }),
    ("interrupting parent and child", false, |b| {
        let g = grant(&b.root);
        b.root.create_as_interrupting_child(&g, V::new(1, &b.live));
        let r = b.root.create_as_interrupting_parent(&g, V::new(2, &b.live));
        b.mid.1.create_as_interrupting_parent(&g, V::new(3, &b.live));
        b.mid.1.create_as_interrupting_child(&g, V::new(3, &b.live));
        drop(g);
        want("root", b.deep.1.root().ptr_eq(&r), true)?;
        intact(&r, b.n + 4)
    }),
    ("replace nodes with their children", false, |b| {
        // The inner node with the most children of the middle third, a parent and the root.
        let v: Vec<Node<V>> = b.root.depth_first_traverse().filter_map(|e| e.into_open()).collect();
        let g = grant(&b.root);
        let mut k = 0;
        for x in &v[1..] {
            if !x.is_root() && x.has_children() {
                x.replace_with_children(&g);
                k += 1;
            }
        }
        // Everything is a child of the root now.
        drop(g);
        intact(&b.root, b.n - k)?;
        want("children", b.root.num_children(), b.n - k - 1)?;
        drop(v);
        Ok(())
    }),
    ("replace the root of one child", false, |b| {
        let o = {
            let g = grant(&b.root);
            let o = b.root.create_as_interrupting_parent(&g, V::new(1, &b.live));
            o.replace_with_children(&g);
            o
        };
        intact(&o, 1)?;
        intact(&b.root, b.n)
    }),
    ("replace every node with its children from the inside", false, |b| {
        let v: Vec<Node<V>> = b.root.depth_first_traverse().filter_map(|e| e.into_close()).collect();
        let g = grant(&b.root);
        let step = (b.n / 200).max(1);
        let mut k = 0;
        for x in v.iter().take(b.n - 1).step_by(step) {
            x.try_replace_with_children(&g).map_err(|e| format!("{e:?}"))?;
            k += 1;
        }
        drop(g);
        intact(&b.root, b.n - k)
    }),
    ("accessors at the far ends", false, |b| {
        let h = hot(&b.deep.1);
        want("root", h.root().ptr_eq_plain(&b.root), true)?;
        want("depth", h.count_ancestors(), b.depth[b.deep.0])?;
        want("tree", h.tree().ptr_eq(&b.root.tree()), true)?;
        drop(h);
        let p = b.deep.1.parent().ok_or("no parent")?;
        want("last child", p.last_child().ok_or("none")?.borrow_data().id as usize, b.last_kid[b.par[b.deep.0]])?;
        let f = frozen(&b.deep.1);
        want("same tree", f.belongs_to_same_tree(&frozen(&b.root)), true)?;
        want("first", f.first_sibling().has_prev_sibling(), false)
    }),
    ("pretty print", true, |b| {
        let mut c = Count { lines: 0 };
        write!(c, "{}", b.root.debug_pretty_print()).map_err(|_| "fmt")?;
        want("lines", c.lines, b.n - 1)?;
        let mut c = Count { lines: 0 };
        write!(c, "{:?}", b.root.tree().debug_pretty_print()).map_err(|_| "fmt")?;
        want("lines", c.lines, b.n - 1)?;
        let mut c = Count { lines: 0 };
        write!(c, "{:?}", frozen(&b.mid.1).debug_pretty_print()).map_err(|_| "fmt")?;
        want("lines", c.lines, b.size[b.mid.0] - 1)?;
        let mut c = Count { lines: 0 };
        write!(c, "{}", hot(&b.mid.1).debug_pretty_print()).map_err(|_| "fmt")?;
        want("lines", c.lines, b.size[b.mid.0] - 1)
    }),
    ("local debug print", true, |b| {
        let mut c = Count { lines: 0 };
        write!(c, "{:?}{:?}{:?}", b.root, b.mid.1.debug_print_local(), b.root.tree()).map_err(|_| "fmt")?;
        write!(c, "{:?}", b.root.tree().debug_print_local()).map_err(|_| "fmt")?;
        write!(c, "{:?}", hot(&b.deep.1).debug_print_local()).map_err(|_| "fmt")?;
        write!(c, "{:?}", frozen(&b.deep.1).debug_print_local()).map_err(|_| "fmt".to_string())
    }),
];

// ---------------------------------------------------------------------------------------------
// The same for data of every representation.

/// Handles of all nodes, and the index of one in the middle with a large subtree.
type KindOp<K> = fn(Vec<Node<K>>, usize) -> Res;

fn kind_ops<K: Kind>() -> Vec<(&'static str, KindOp<K>)> {
    fn hot<K>(n: &Node<K>) -> HotNode<K> {
        n.clone().bundle_new_hierarchy_edit_grant().expect("grantable")
    }
    vec![
        ("released through the root", |mut v, _| {
            let r = v.swap_remove(0);
            drop(v);
            drop(r);
            Ok(())
        }),
        ("released through the last node", |mut v, _| {
            let r = v.pop();
            drop(v);
            drop(r);
            Ok(())
        }),
        ("released through the tree", |v, _| {
            let t = v[0].tree();
            drop(v);
            drop(t);
            Ok(())
        }),
        ("released through a hot node", |v, x| {
            let h = hot(&v[x]);
            drop(v);
            drop(h);
            Ok(())
        }),
        ("released through a breadth-first traversal", |v, _| {
            let f = v[0].clone().bundle_new_hierarchy_edit_prohibition().expect("freezable");
            let mut i = f.allocating_breadth_first_traverse_stable(0);
            drop(f);
            i.nth(v.len() / 2);
            drop(v);
            drop(i);
            Ok(())
        }),
        ("released while a panic unwinds", |v, _| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _v = v;
                std::panic::resume_unwind(Box::new(7u8));
            }));
            want("unwound", r.is_err(), true)
        }),
        ("a part detached and released after the rest", |mut v, x| {
            hot(&v[x]).detach_subtree();
            let p = v.swap_remove(x);
            drop(v);
            drop(p);
            Ok(())
        }),
        ("a part moved to another tree and released", |v, x| {
            let t = HotNode::new_tree(K::make(0));
            v[x].detach_insert_subtree(&hot(&v[x]).extract_hierarchy_edit_grant(), InsertAs::FirstChildOf(&t));
            let r = v[0].clone();
            drop(v);
            drop(t);
            drop(r);
            Ok(())
        }),
        ("replaced with its children", |v, x| {
            hot(&v[x]).try_replace_with_children().expect("has a parent");
            Ok(())
        }),
        ("copied, compared, and released", |v, x| {
            let c = v[x].clone_subtree();
            want("equal", c.try_eq(&v[x]).expect("readable"), true)?;
            let t = v[0].tree().clone_tree();
            want("equal", t.try_eq(&v[0].tree()).expect("readable"), true)?;
            drop(v);
            drop(c);
            Ok(())
        }),
        ("copied into itself", |v, x| {
            let at = hot(&v[x]);
            v[x].clone_insert_subtree(InsertAs::LastChildOf(&at));
            Ok(())
        }),
        ("written out, read back and given up half way", |v, _| {
            let mut b = TreeBuilder::new();
            for e in v[0].to_events().take(v.len()) {
                b.push_event(e.expect("readable")).expect("consistent");
            }
            drop(v);
            drop(b);
            Ok(())
        }),
    ]
}

fn kind<K: Kind>(cx: &mut Cx, fams: &[Fam], n: usize) {
    for f in fams {
        for (name, op) in kind_ops::<K>() {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("{} with {n} nodes of {}, {} KiB stack: {name}", f.show(), K::NAME, STACK >> 10),
                |run| {
                    let fam = f.clone();
                    let r = std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn(move || -> Res {
                            mc::sup::catch(|| {
                                let par = fam.parents(n);
                                let mut size = vec![1; par.len()];
                                for i in (1..par.len()).rev() {
                                    size[par[i]] += size[i];
                                }
                                let mid = (n / 3..2 * n / 3).max_by_key(|&i| size[i]).unwrap().max(1);
                                kinds::reset();
                                let root = Node::new_tree(K::make(0));
                                let g = root.tree().grant_hierarchy_edit().expect("grant");
                                let mut v = vec![root];
                                for i in 1..par.len() {
                                    let c = v[par[i]].create_as_last_child(&g, K::make(i as u32));
                                    v.push(c);
                                }
                                drop(g);
                                op(v, mid)?;
                                if K::COUNTED {
                                    want("live data at the end", kinds::live(), 0)?;
                                }
                                Ok(())
                            })
                            .unwrap_or_else(|p| Err(format!("panic: {p}")))
                        })
                        .map_err(|e| format!("harness: cannot start a thread: {e}"))?
                        .join();
                    run.step(n as u64);
                    run.state(Fnv::new().s(&f.show()).s(name).s(K::NAME).get());
                    match r {
                        Ok(r) => r,
                        Err(_) => Err("the thread panicked".into()),
                    }
                },
            );
            if cx.finished() {
                return;
            }
        }
    }
}

pub fn c22(cx: &mut Cx) {
    // The stack of a level does not depend on the shape of the rest: fewer families.
    let some: Vec<Fam> = cx.pick(families(3, 1), families(4, 2));
    let n = cx.pick(20_000, 100_000);
    kind::<()>(cx, &some, n);
    kind::<u8>(cx, &some, n);
    kind::<kinds::Zst>(cx, &some, n);
    kind::<kinds::Big>(cx, &some, n);
    kind::<kinds::Own>(cx, &some, n);
    let fams = cx.pick(families(4, 3), families(5, 4));
    let n_big = cx.pick(20_000, 200_000);
    for f in &fams {
        for (name, quadratic, op) in OPS {
            if !cx.task() {
                continue;
            }
            let n = if *quadratic { 4_000 } else { n_big };
            let stack = if *quadratic { STACK_SMALL } else { STACK };
            let op = *op;
            cx.case(
                || format!("{} with {n} nodes, {} KiB stack: {name}", f.show(), stack >> 10),
                |run| {
                    let fam = f.clone();
                    let r = std::thread::Builder::new()
                        .stack_size(stack)
                        .spawn(move || -> Res {
                            mc::sup::catch(|| {
                                let b = build(&fam, n);
                                let live = b.live.clone();
                                op(b)?;
                                want("live data at the end", live.get(), 0)
                            })
                            .unwrap_or_else(|p| Err(format!("panic: {p}")))
                        })
                        .map_err(|e| format!("harness: cannot start a thread: {e}"))?
                        .join();
                    run.step(n as u64);
                    run.state(Fnv::new().s(&f.show()).s(name).get());
                    run.outcome = Some(if *quadratic { "small".into() } else { "large".into() });
                    match r {
                        Ok(r) => r,
                        Err(_) => Err("the thread panicked".into()),
                    }
                },
            );
            if cx.finished() {
                return;
            }
        }
    }
}
