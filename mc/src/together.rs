//! Two iterators at once: what one yields does not depend on another one that runs between its steps.

use dendron::serial::Event;
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node};

use crate::data::D;
use crate::model::Model;
use crate::shape;
use crate::sup::{Cx, Fnv, Res, Run};
use crate::world::World;

/// Opening or closing, node (or value), depth or count.
type Item = (u8, usize, usize);
type It = Box<dyn FnMut(bool) -> Option<Item>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fl {
    Plain,
    Hot,
    Frozen,
}

struct Kind {
    name: &'static str,
    id: &'static str,
    fl: Fl,
    both: bool,
    mk: fn(&World, usize) -> It,
}

fn ids(w: &World) -> std::rc::Rc<Vec<dendron::NodeWeak<D>>> {
    std::rc::Rc::new(w.keep.iter().map(|n| n.downgrade()).collect())
}
fn pos(ids: &[dendron::NodeWeak<D>], n: &Node<D>) -> usize {
    ids.iter().position(|k| k.upgrade().map_or(false, |k| k.ptr_eq(n))).unwrap_or(usize::MAX)
}
fn plain(w: &World, x: usize) -> Node<D> {
    w.keep[x].clone()
}
fn hot(w: &World, x: usize) -> HotNode<D> {
    w.keep[x].clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}
fn frozen(w: &World, x: usize) -> FrozenNode<D> {
    w.keep[x].clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}
trait Nd {
    fn nd(&self) -> Node<D>;
}
impl Nd for Node<D> {
    fn nd(&self) -> Node<D> {
        self.clone()
    }
}
impl Nd for HotNode<D> {
    fn nd(&self) -> Node<D> {
        self.plain()
    }
}
impl Nd for FrozenNode<D> {
    fn nd(&self) -> Node<D> {
        self.plain()
    }
}
fn ev<N: Nd>(i: &[dendron::NodeWeak<D>], e: DftEvent<N>) -> Item {
    match e {
        DftEvent::Open(n) => (0, pos(i, &n.nd()), 0),
        DftEvent::Close(n) => (1, pos(i, &n.nd()), 0),
    }
}

macro_rules! front {
    ($v:ident, $id:literal, $fl:ident, $mk:ident, $f:ident($($arg:expr),*), $item:expr) => {
        $v.push(Kind { name: concat!(stringify!($f), " of a ", stringify!($mk), " node"), id: $id, fl: Fl::$fl, both: false, mk: |w, x| {
            let (i, mut it) = (ids(w), $mk(w, x).$f($($arg),*));
            Box::new(move |_| it.next().map(|e| $item(&i, e)))
        }});
    };
}
macro_rules! ends {
    ($v:ident, $id:literal, $f:ident($($arg:expr),*), $item:expr) => {
        $v.push(Kind { name: stringify!($f), id: $id, fl: Fl::Frozen, both: true, mk: |w, x| {
            let (i, mut it) = (ids(w), frozen(w, x).$f($($arg),*));
            Box::new(move |back| if back { it.next_back() } else { it.next() }.map(|e| $item(&i, e)))
        }});
    };
}

fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = vec![];
    macro_rules! flavour {
        ($fl:ident, $mk:ident) => {
            front!(v, "C10", $fl, $mk, depth_first_traverse(), ev);
            front!(v, "C10", $fl, $mk, depth_first_reverse_traverse(), ev);
            flavour!(@ $fl, $mk, children, children_reverse, siblings, siblings_reverse, ancestors, ancestors_or_self,
                following_siblings, following_siblings_or_self, preceding_siblings_reverse, preceding_siblings_or_self_reverse);
        };
        (@ $fl:ident, $mk:ident, $($f:ident),*) => {
            $(front!(v, "C13", $fl, $mk, $f(), |i: &[_], n: _| (0, pos(i, &Nd::nd(&n)), 0));)*
        };
    }
    flavour!(Plain, plain);
    flavour!(Hot, hot);
    macro_rules! stable {
        ($($f:ident),*) => {
            $(ends!(v, "C13", $f(), |i: &[_], n: FrozenNode<D>| (0, pos(i, &n.plain()), 0));)*
        };
    }
    stable!(children_stable, siblings_stable, following_siblings_stable, following_siblings_or_self_stable, preceding_siblings_stable, preceding_siblings_or_self_stable);
    ends!(v, "C11", depth_first_traverse_stable(), ev);
    fn sh(i: &[dendron::NodeWeak<D>], e: DftEvent<(FrozenNode<D>, usize)>) -> Item {
        match e {
            DftEvent::Open((n, d)) => (0, pos(i, &n.plain()), d),
            DftEvent::Close((n, d)) => (1, pos(i, &n.plain()), d),
        }
    }
    ends!(v, "C11", shallow_depth_first_traverse_stable(None), sh);
    ends!(v, "C11", shallow_depth_first_traverse_stable(Some(1)), sh);
    fn bf(i: &[dendron::NodeWeak<D>], e: (FrozenNode<D>, usize)) -> Item {
        (0, pos(i, &e.0.plain()), e.1)
    }
    front!(v, "C12", Frozen, frozen, allocating_breadth_first_traverse_stable(0), bf);
    front!(v, "C12", Frozen, frozen, non_allocating_breadth_first_traverse_stable(0), bf);
    front!(v, "C12", Frozen, frozen, allocating_breadth_first_traverse_stable(1), bf);
    front!(v, "C12", Frozen, frozen, non_allocating_breadth_first_traverse_stable(1), bf);
    fn se(_: &[dendron::NodeWeak<D>], e: Result<Event<D>, std::cell::BorrowError>) -> Item {
        match e {
            Ok(Event::Open(d)) => (0, d.val as usize, 0),
            Ok(Event::Close(n)) => (1, 0, n),
            Err(_) => (2, 0, 0),
        }
    }
    front!(v, "C14", Plain, plain, to_events(), se);
    front!(v, "C14", Hot, hot, to_events(), se);
    front!(v, "C14", Frozen, frozen, to_events(), se);
    v
}

/// How the two share the time.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Plan {
    /// The second one runs from its start to its end after the given number of steps of the first.
    Whole(usize),
    /// The second is made first, and they step in turns.
    Turns,
    /// The second makes two steps for every one of the first.
    Twice,
}

fn end(k: &Kind, i: usize, mirror: bool) -> bool {
    k.both && (i % 2 == 1) != mirror
}

fn alone(m: &Model, k: &Kind, x: usize, mirror: bool) -> Result<Vec<Item>, String> {
    let w = World::build(m);
    let mut it = (k.mk)(&w, x);
    let mut v = vec![];
    while let Some(e) = it(end(k, v.len(), mirror)) {
        v.push(e);
        if v.len() > 4 * m.len() + 8 {
            return Err(format!("{} at {x} does not end", k.name));
        }
    }
    Ok(v)
}

struct Two<'a> {
    a: &'a Kind,
    x: usize,
    b: &'a Kind,
    y: usize,
}

fn two(m: &Model, t: &Two, plan: Plan, mirror: bool, wa: &[Item], wb: &[Item], run: &mut Run) -> Res {
    let w = World::build(m);
    let (mut a, mut b): (It, Option<It>) = match plan {
        Plan::Whole(_) => ((t.a.mk)(&w, t.x), None),
        Plan::Turns | Plan::Twice => {
            let b = (t.b.mk)(&w, t.y);
            ((t.a.mk)(&w, t.x), Some(b))
        }
    };
    let (mut i, mut j) = (0, 0);
    let step = |it: &mut It, k: &Kind, n: &mut usize, want: &[Item], mirror: bool| -> Result<bool, String> {
        let got = it(end(k, *n, mirror));
        if got != want.get(*n).copied() {
            return Err(format!("{}, step {n} next to another: {got:?}, expected {:?}", k.name, want.get(*n)));
        }
        *n += 1;
        Ok(got.is_some())
    };
    let (mut more_a, mut more_b) = (true, true);
    while more_a {
        match plan {
            Plan::Whole(k) if k == i => {
                let mut it = (t.b.mk)(&w, t.y);
                while step(&mut it, t.b, &mut j, wb, false)? {}
            }
            Plan::Whole(_) => {}
            Plan::Turns | Plan::Twice => {
                for _ in 0..if plan == Plan::Twice { 2 } else { 1 } {
                    if let (true, Some(b)) = (more_b, &mut b) {
                        more_b = step(b, t.b, &mut j, wb, false)?;
                    }
                }
            }
        }
        more_a = step(&mut a, t.a, &mut i, wa, mirror)?;
        run.step(1);
    }
    if let Some(b) = &mut b {
        while more_b {
            more_b = step(b, t.b, &mut j, wb, false)?;
        }
    }
    let mut h = Fnv::new();
    h.u(m.hash()).s(t.a.name).u(t.x as u64).s(t.b.name).u(t.y as u64);
    run.state(h.get());
    Ok(())
}

pub fn text(thorough: bool) -> String {
    format!("every pair of an iterator of this property and any iterator, at any nodes of every forest up to {} nodes, run in turns and one within every gap of the other", if thorough { 5 } else { 4 })
}

pub fn covers(id: &str) -> bool {
    matches!(id, "C10" | "C11" | "C12" | "C13" | "C14")
}

pub fn explore(cx: &mut Cx, id: &str) {
    let kinds = kinds();
    for n in 1..=cx.pick(4, 5) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for a in kinds.iter().filter(|a| a.id == id) {
                for x in 0..n {
                    if !cx.task() {
                        continue;
                    }
                    for b in &kinds {
                        for y in 0..n {
                            let same = m.n[x].tree == m.n[y].tree;
                            let clash = matches!((a.fl, b.fl), (Fl::Hot, Fl::Frozen) | (Fl::Frozen, Fl::Hot));
                            if same && clash {
                                continue;
                            }
                            let t = Two { a, x, b, y };
                            cx.case(
                                || format!("{} at {x} with {} at {y} of {}", a.name, b.name, m.show()),
                                |run| {
                                    for mirror in [false, true] {
                                        if mirror && !a.both {
                                            continue;
                                        }
                                        let wa = alone(&m, a, x, mirror)?;
                                        let wb = alone(&m, b, y, false)?;
                                        let gaps = (0..=wa.len()).map(Plan::Whole);
                                        for plan in gaps.chain([Plan::Turns, Plan::Twice]) {
                                            two(&m, &t, plan, mirror, &wa, &wb, run).map_err(|e| format!("{plan:?}: {e}"))?;
                                        }
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                    if cx.finished() {
                        return;
                    }
                }
            }
        }
    }
}

/// Every iterator of every property, left after every number of steps, also with a companion half way.
pub fn abandoned(cx: &mut Cx) {
    let kinds = kinds();
    for n in 1..=cx.pick(5, 6) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            if !cx.task() {
                continue;
            }
            for a in &kinds {
                for x in 0..n {
                    for back in [0u32, 1, 2] {
                        if back > 0 && !a.both {
                            continue;
                        }
                        cx.case(
                            || format!("{} at {x} of {}, left after every number of steps ({back})", a.name, m.show()),
                            |run| {
                                let w = World::build(&m);
                                for k in 0.. {
                                    let mut it = (a.mk)(&w, x);
                                    let full = (0..k).all(|i| it(back == 1 || back == 2 && i % 2 == 1).is_some());
                                    run.step(1);
                                    if !full {
                                        break;
                                    }
                                }
                                run.state(m.hash());
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}
