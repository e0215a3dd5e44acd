//! C10, C11, C12, C13, C20: traversals.

use std::collections::VecDeque;
use std::fmt::Debug;

use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser, SiblingsTraverser,
    StableDepthFirstTraverser, StableShallowDepthFirstTraverser, StableSiblingsTraverser,
};
use dendron::{FrozenNode, HotNode, Node};

use mc::model::Model;
use mc::shape::{self, Shape};
use mc::sup::{self, Check, Cx, Fnv, Res, Run};

#[path = "../iters_edit.rs"]
pub mod edit;
#[path = "../iters_large.rs"]
mod large;

type N = Node<usize>;
type F = FrozenNode<usize>;
type H = HotNode<usize>;

fn id(n: &N) -> usize {
    *n.borrow_data()
}

/// A value a traversal yields: an event or node with a depth.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct V {
    kind: u8,
    node: usize,
    depth: usize,
}
impl Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.kind {
            1 => write!(f, "<{}", self.node)?,
            2 => write!(f, "{}>", self.node)?,
            _ => write!(f, "{}", self.node)?,
        }
        if self.depth > 0 {
            write!(f, "@{}", self.depth)?;
        }
        Ok(())
    }
}
fn v(node: usize) -> V {
    V { kind: 0, node, depth: 0 }
}
fn vd(node: usize, depth: usize) -> V {
    V { kind: 0, node, depth }
}
fn ev(open: bool, node: usize) -> V {
    V { kind: if open { 1 } else { 2 }, node, depth: 0 }
}

trait ToV {
    fn to_v(&self) -> V;
}
impl ToV for N {
    fn to_v(&self) -> V {
        v(id(self))
    }
}
impl ToV for F {
    fn to_v(&self) -> V {
        v(*self.borrow_data())
    }
}
impl ToV for H {
    fn to_v(&self) -> V {
        v(*self.borrow_data())
    }
}
impl<T: ToV> ToV for (T, usize) {
    fn to_v(&self) -> V {
        let mut x = self.0.to_v();
        x.depth = self.1;
        x
    }
}
impl<T: ToV> ToV for DftEvent<T> {
    fn to_v(&self) -> V {
        match self {
            DftEvent::Open(n) => V { kind: 1, ..n.to_v() },
            DftEvent::Close(n) => V { kind: 2, ..n.to_v() },
        }
    }
}

/// Uniform access to the traversals.
trait Trav: Clone {
    fn next(&mut self) -> Option<V>;
    fn hint(&self) -> (usize, Option<usize>);
    /// `None`: cannot be asked.
    fn peek(&self) -> Option<Option<V>> {
        None
    }
    fn next_back(&mut self) -> Option<V> {
        None
    }
    fn peek_back(&self) -> Option<Option<V>> {
        None
    }
    const BACK: bool = false;
    const CLOSE: bool = false;
    fn close_current(&mut self) -> Option<V> {
        None
    }
    /// Provided methods that an implementation may override.
    fn nth(self, k: usize) -> (Option<V>, Vec<V>);
    fn count(self) -> usize;
    fn last(self) -> Option<V>;
    fn fold(self) -> Vec<V>;
    fn rfold(self) -> Vec<V> {
        vec![]
    }
    /// The item and what is left after it, from the back.
    fn nth_back(self, _k: usize) -> (Option<V>, Vec<V>) {
        (None, vec![])
    }
    /// Calls that must not matter.
    fn fuss(&mut self, _k: usize) {}
    const FUSS: usize = 0;
}
macro_rules! base {
    () => {
        fn next(&mut self) -> Option<V> {
            Iterator::next(self).map(|x| x.to_v())
        }
        fn hint(&self) -> (usize, Option<usize>) {
            Iterator::size_hint(self)
        }
        fn nth(mut self, k: usize) -> (Option<V>, Vec<V>) {
            let x = Iterator::nth(&mut self, k).map(|x| x.to_v());
            let mut rest = vec![];
            while let Some(x) = Iterator::next(&mut self) {
                rest.push(x.to_v());
                if rest.len() > 10_000 {
                    break;
                }
            }
            (x, rest)
        }
        fn count(self) -> usize {
            Iterator::count(self)
        }
        fn last(self) -> Option<V> {
            Iterator::last(self).map(|x| x.to_v())
        }
        fn fold(self) -> Vec<V> {
            Iterator::fold(self, vec![], |mut a, x| {
                a.push(x.to_v());
                a
            })
        }
    };
}
macro_rules! peek {
    () => {
        fn peek(&self) -> Option<Option<V>> {
            Some(self.peek().map(|x| x.to_v()))
        }
    };
}
macro_rules! back {
    () => {
        const BACK: bool = true;
        fn next_back(&mut self) -> Option<V> {
            DoubleEndedIterator::next_back(self).map(|x| x.to_v())
        }
        fn peek_back(&self) -> Option<Option<V>> {
            Some(self.peek_back().map(|x| x.to_v()))
        }
        fn nth_back(mut self, k: usize) -> (Option<V>, Vec<V>) {
            let x = DoubleEndedIterator::nth_back(&mut self, k).map(|x| x.to_v());
            let mut rest = vec![];
            while let Some(x) = DoubleEndedIterator::next_back(&mut self) {
                rest.push(x.to_v());
                if rest.len() > 10_000 {
                    break;
                }
            }
            (x, rest)
        }
        fn rfold(self) -> Vec<V> {
            DoubleEndedIterator::rfold(self, vec![], |mut a, x| {
                a.push(x.to_v());
                a
            })
        }
    };
}
macro_rules! close {
    ($s:ident, $e:expr) => {
        const CLOSE: bool = true;
        fn close_current(&mut self) -> Option<V> {
            <$s<usize>>::close_current(self).map($e)
        }
    };
}
impl Trav for SiblingsTraverser<usize> {
    base!();
    peek!();
}
impl Trav for ReverseSiblingsTraverser<usize> {
    base!();
    peek!();
}
impl Trav for AncestorsTraverser<usize> {
    base!();
    peek!();
}
impl Trav for StableSiblingsTraverser<usize> {
    base!();
    peek!();
    back!();
}
impl Trav for DepthFirstTraverser<usize> {
    base!();
    peek!();
    close!(DepthFirstTraverser, |n| ev(false, id(&n)));
}
impl Trav for ReverseDepthFirstTraverser<usize> {
    base!();
    peek!();
}
impl Trav for StableDepthFirstTraverser<usize> {
    base!();
    peek!();
    back!();
    close!(StableDepthFirstTraverser, |n| ev(false, *n.borrow_data()));
}
impl Trav for StableShallowDepthFirstTraverser<usize> {
    base!();
    peek!();
    back!();
    close!(StableShallowDepthFirstTraverser, |(n, d)| V { kind: 2, node: *n.borrow_data(), depth: d });
}
impl Trav for NonAllocatingBreadthFirstTraverser<usize> {
    base!();
}
impl Trav for AllocatingBreadthFirstTraverser<usize> {
    base!();
    peek!();
    const FUSS: usize = 4;
    fn fuss(&mut self, k: usize) {
        match k {
            0 => self.shrink_to_fit(),
            1 => self.shrink_to(0),
            2 => self.shrink_to(self.capacity() / 2),
            _ => self.shrink_to(self.capacity()),
        }
        let _ = self.capacity();
    }
}

/// Looks at the traversal without advancing it.
fn look<T: Trav>(t: &T, rest: &VecDeque<V>) -> Res {
    if let Some(p) = t.peek() {
        if p.as_ref() != rest.front() {
            return Err(format!("peek() = {p:?}, to come: {rest:?}"));
        }
    }
    if let Some(p) = t.peek_back() {
        if p.as_ref() != rest.back() {
            return Err(format!("peek_back() = {p:?}, to come: {rest:?}"));
        }
    }
    let (lo, hi) = t.hint();
    if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
        return Err(format!("size_hint() = ({lo}, {hi:?}), to come: {} items {rest:?}", rest.len()));
    }
    Ok(())
}

fn close_model(rest: &mut VecDeque<V>) -> Option<V> {
    let mut depth = 0;
    while let Some(x) = rest.pop_front() {
        if x.kind == 1 {
            depth += 1;
        } else if depth == 0 {
            return Some(x);
        } else {
            depth -= 1;
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Step {
    Front,
    Back,
    Close,
    Fuss(usize),
}

fn step<T: Trav>(t: &mut T, s: Step, rest: &mut VecDeque<V>) -> Res {
    let before = rest.len();
    let (got, want) = match s {
        Step::Front => (t.next(), rest.pop_front()),
        Step::Back => (t.next_back(), rest.pop_back()),
        Step::Close => (t.close_current(), close_model(rest)),
        Step::Fuss(k) => {
            t.fuss(k);
            (None, None)
        }
    };
    if got != want {
        return Err(format!("{s:?} gave {got:?}, expected {want:?}; to come before: {before} items, afterwards: {rest:?}"));
    }
    Ok(())
}

/// From one position: clones drained in every direction and through the provided methods.
fn position<T: Trav>(t: &T, rest: &VecDeque<V>) -> Res {
    let e = |w: &str| format!("clone with {rest:?} to come: {w}");
    let seqs: &[&[Step]] = &[
        &[Step::Front],
        &[Step::Back],
        &[Step::Front, Step::Back],
        &[Step::Back, Step::Front],
        &[Step::Close],
        &[Step::Front, Step::Close],
        &[Step::Close, Step::Back],
    ];
    for s in seqs {
        if s.contains(&Step::Back) && !T::BACK || s.contains(&Step::Close) && !T::CLOSE {
            continue;
        }
        let mut c = t.clone();
        let mut r = rest.clone();
        for i in 0..rest.len() + 3 {
            step(&mut c, s[i % s.len()], &mut r).map_err(|x| e(&x))?;
            look(&c, &r).map_err(|x| e(&x))?;
        }
    }
    for k in 0..=rest.len() {
        let (x, more) = t.clone().nth(k);
        if x.as_ref() != rest.get(k) || !more.iter().eq(rest.iter().skip(k + 1)) {
            return Err(e(&format!("nth({k}) = {x:?}, then {more:?}")));
        }
        if T::BACK {
            let (x, more) = t.clone().nth_back(k);
            let want = rest.len().checked_sub(k + 1).map(|i| rest[i]);
            if x != want || !more.iter().eq(rest.iter().rev().skip(k + 1)) {
                return Err(e(&format!("nth_back({k}) = {x:?}, then backwards {more:?}")));
            }
        }
    }
    let c = t.clone().count();
    if c != rest.len() {
        return Err(e(&format!("count() = {c}")));
    }
    let l = t.clone().last();
    if l.as_ref() != rest.back() {
        return Err(e(&format!("last() = {l:?}")));
    }
    let f = t.clone().fold();
    if !f.iter().eq(rest.iter()) {
        return Err(e(&format!("fold yields {f:?}")));
    }
    if T::BACK {
        let f = t.clone().rfold();
        if !f.iter().eq(rest.iter().rev()) {
            return Err(e(&format!("rfold yields {f:?}")));
        }
    }
    Ok(())
}

/// Every sequence of steps until the end and twice beyond it, each executed from the start
/// without cloning; and everything clones can do at every position.
fn all<T: Trav>(run: &mut Run, make: impl Fn() -> T, want: &[V], full: usize) -> Res {
    let mut alphabet = vec![Step::Front];
    if T::BACK {
        alphabet.push(Step::Back);
    }
    if T::CLOSE {
        alphabet.push(Step::Close);
    }
    for k in 0..T::FUSS {
        alphabet.push(Step::Fuss(k));
    }
    // Depth-first enumeration of step sequences with restart.
    let mut seq: Vec<Step> = vec![];
    fn rec<T: Trav>(
        run: &mut Run,
        make: &dyn Fn() -> T,
        want: &[V],
        alphabet: &[Step],
        seq: &mut Vec<Step>,
        rest: &VecDeque<V>,
        beyond: usize,
    ) -> Res {
        if beyond == 2 {
            let mut t = make();
            let mut r: VecDeque<V> = want.iter().copied().collect();
            look(&t, &r).map_err(|e| format!("at the start: {e}"))?;
            for (i, &s) in seq.iter().enumerate() {
                step(&mut t, s, &mut r).map_err(|e| format!("after {:?}: {e}", &seq[..i]))?;
                look(&t, &r).map_err(|e| format!("after {:?}: {e}", &seq[..=i]))?;
            }
            run.step(seq.len() as u64);
            return Ok(());
        }
        for &s in alphabet {
            if matches!(s, Step::Fuss(_)) && matches!(seq.last(), Some(Step::Fuss(_))) {
                continue;
            }
            let mut r = rest.clone();
            match s {
                Step::Front => drop(r.pop_front()),
                Step::Back => drop(r.pop_back()),
                Step::Close => drop(close_model(&mut r)),
                Step::Fuss(_) => {}
            }
            let b = beyond + usize::from(rest.is_empty() && !matches!(s, Step::Fuss(_)));
            seq.push(s);
            rec(run, make, want, alphabet, seq, &r, b)?;
            seq.pop();
        }
        Ok(())
    }
    let rest: VecDeque<V> = want.iter().copied().collect();
    // Branching factor over the length decides how much of the alphabet is exhausted.
    let letters = if want.len() <= full { alphabet.len() } else { 1 };
    rec(run, &make, want, &alphabet[..letters], &mut seq, &rest, 0)?;
    if want.len() > full {
        // Longer ones: all positions of the front/back lattice, reached front first and back first.
        if T::BACK {
            for pat in [&[Step::Back][..], &[Step::Front, Step::Back], &[Step::Back, Step::Front]] {
                let mut t = make();
                let mut r = rest.clone();
                for i in 0..want.len() + 2 {
                    step(&mut t, pat[i % pat.len()], &mut r)?;
                    look(&t, &r)?;
                }
            }
        }
    }
    // Positions.
    if want.len() <= 24 {
        for i in 0..=want.len() {
            for j in 0..=if T::BACK { want.len() - i } else { 0 } {
                for back_first in [false, true] {
                    if back_first && (i == 0 || j == 0) {
                        continue;
                    }
                    let mut t = make();
                    for k in 0..i + j {
                        let back = if back_first { k < j } else { k >= i };
                        let _ = if back { t.next_back() } else { t.next() };
                    }
                    let r: VecDeque<V> = want[i..want.len() - j].iter().copied().collect();
                    position(&t, &r).map_err(|e| format!("{i} from the front, {j} from the back: {e}"))?;
                    run.step(1);
                    let mut h = Fnv::new();
                    h.s(&format!("{r:?}"));
                    run.state(h.get());
                }
            }
        }
    }
    Ok(())
}

struct T {
    m: Model,
    n: Vec<N>,
}
fn build(s: &Shape) -> T {
    let mut n: Vec<N> = vec![];
    for (i, &p) in s.iter().enumerate() {
        if i == 0 {
            n.push(Node::new_tree(0));
        } else {
            let g = n[0].tree().grant_hierarchy_edit().expect("harness");
            let c = n[p].create_as_last_child(&g, i);
            n.push(c);
        }
    }
    T { m: Model::from_forest(&[s.clone()]), n }
}
impl T {
    fn f(&self, x: usize) -> F {
        self.n[x].clone().bundle_new_hierarchy_edit_prohibition().expect("harness")
    }
    fn h(&self, x: usize) -> H {
        self.n[x].clone().bundle_new_hierarchy_edit_grant().expect("harness")
    }
    fn events(&self, x: usize) -> Vec<V> {
        self.m.events(x).into_iter().map(|(o, y)| ev(o, y)).collect()
    }
    /// Events with depths down to the limit.
    fn shallow(&self, x: usize, max: Option<usize>) -> Vec<V> {
        let d0 = self.m.depth(x);
        self.m
            .events(x)
            .into_iter()
            .map(|(o, y)| V { kind: if o { 1 } else { 2 }, node: y, depth: self.m.depth(y) - d0 })
            .filter(|e| max.is_none_or(|m| e.depth <= m))
            .collect()
    }
    fn breadth(&self, x: usize, from: usize) -> Vec<V> {
        let d0 = self.m.depth(x);
        let mut r: Vec<V> = self.m.preorder(x).into_iter().map(|y| vd(y, self.m.depth(y) - d0)).collect();
        r.sort_by_key(|e| e.depth); // stable
        r.retain(|e| e.depth >= from);
        r
    }
    fn height(&self, x: usize) -> usize {
        let d0 = self.m.depth(x);
        self.m.preorder(x).into_iter().map(|y| self.m.depth(y) - d0).max().unwrap_or(0)
    }
}

fn values(x: &[usize]) -> Vec<V> {
    x.iter().map(|&y| v(y)).collect()
}
fn rev(mut x: Vec<V>) -> Vec<V> {
    x.reverse();
    x
}

/// Calls `f` on the same method of all three kinds of handles.
macro_rules! three {
    ($t:expr, $x:expr, $run:expr, $want:expr, $full:expr, $m:ident $(, $a:expr)*) => {{
        let w: Vec<V> = $want;
        let name = stringify!($m);
        all($run, || $t.n[$x].$m($($a),*), &w, $full).map_err(|e| format!("Node::{name}: {e}"))?;
        {
            let h = $t.h($x);
            all($run, || h.$m($($a),*), &w, $full).map_err(|e| format!("HotNode::{name}: {e}"))?;
        }
        let f = $t.f($x);
        all($run, || f.$m($($a),*), &w, $full).map_err(|e| format!("FrozenNode::{name}: {e}"))?;
    }};
}

/// Steps an event by itself in all directions.
macro_rules! event_steps {
    ($t:expr, $h:expr, $name:expr, $run:expr) => {{
        let t: &T = $t;
        let all_ev = t.events(0);
        let made = |i: usize| {
            let e = all_ev[i];
            if e.kind == 1 {
                DftEvent::Open($h(e.node))
            } else {
                DftEvent::Close($h(e.node))
            }
        };
        for i in 0..all_ev.len() {
            let e = made(i);
            let got = (e.next().map(|x| x.to_v()), e.prev().map(|x| x.to_v()));
            let want = (all_ev.get(i + 1).copied(), i.checked_sub(1).map(|j| all_ev[j]));
            if got != want {
                return Err(format!("{} event {:?}: next/prev are {got:?}, expected {want:?}", $name, all_ev[i]));
            }
            let got = e.close_current().map(|x| x.to_v().node);
            let mut rest: VecDeque<V> = all_ev[i + 1..].iter().copied().collect();
            let want = close_model(&mut rest).map(|x| x.node);
            if got != want {
                return Err(format!("{} event {:?}: close_current() = {got:?}, expected {want:?}", $name, all_ev[i]));
            }
            // Accessors.
            let x = all_ev[i];
            let open = x.kind == 1;
            if e.clone().into_value().to_v().node != x.node
                || e.as_value().to_v().node != x.node
                || e.clone().as_value_mut().to_v().node != x.node
                || e.clone().into_open().map(|n| n.to_v().node) != open.then_some(x.node)
                || e.clone().into_close().map(|n| n.to_v().node) != (!open).then_some(x.node)
                || e.clone().map(|n| (n, 7)).to_v() != (V { depth: 7, ..x })
            {
                return Err(format!("{} event {x:?}: wrong accessor", $name));
            }
            $run.step(9);
        }
    }};
}

pub fn c10(cx: &mut Cx) {
    let nmax = cx.pick(8, 10);
    let full = cx.pick(14, 16);
    for n in 1..=nmax {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("events of {}", shape::show(&s)),
                |run| {
                    let t = build(&s);
                    event_steps!(&t, |x: usize| t.n[x].clone(), "Node", run);
                    event_steps!(&t, |x: usize| t.h(x), "HotNode", run);
                    event_steps!(&t, |x: usize| t.f(x), "FrozenNode", run);
                    if Iterator::next(&mut DepthFirstTraverser::<usize>::with_start(None)).is_some()
                        || Iterator::next(&mut ReverseDepthFirstTraverser::<usize>::with_start(None)).is_some()
                    {
                        return Err("a traversal without a start yields something".into());
                    }
                    Ok(())
                },
            );
            for x in 0..n {
                cx.case(
                    || format!("depth-first at {x} of {}", shape::show(&s)),
                    |run| {
                        let t = build(&s);
                        let e = t.events(x);
                        three!(t, x, run, e.clone(), full, depth_first_traverse);
                        three!(t, x, run, rev(e.clone()), full, depth_first_reverse_traverse);
                        all(run, || DepthFirstTraverser::with_start(Some(t.n[x].clone())), &e, full)
                            .map_err(|e| format!("with_start: {e}"))?;
                        all(run, || ReverseDepthFirstTraverser::with_start(Some(t.n[x].clone())), &rev(e.clone()), full)
                            .map_err(|e| format!("reverse with_start: {e}"))
                    },
                );
                cx.case(
                    || format!("resumed depth-first at {x} of {}", shape::show(&s)),
                    |run| {
                        let t = build(&s);
                        let e = t.events(x);
                        for i in 0..e.len() {
                            let at = || {
                                let n = t.n[e[i].node].clone();
                                Some(if e[i].kind == 1 { DftEvent::Open(n) } else { DftEvent::Close(n) })
                            };
                            let start = t.n[x].clone();
                            all(run, || DepthFirstTraverser::with_next_event(start.clone(), at()), &e[i..], full.min(10))
                                .map_err(|m| format!("from {:?}: {m}", e[i]))?;
                            all(run, || ReverseDepthFirstTraverser::with_next_event(start.clone(), at()), &rev(e[..=i].to_vec()), full.min(10))
                                .map_err(|m| format!("backwards from {:?}: {m}", e[i]))?;
                        }
                        // From events outside the subtree: until the start is left, or else
                        // until the tree is.
                        let w = t.events(0);
                        let first = w.iter().position(|y| *y == ev(true, x)).ok_or("harness")?;
                        let last = w.iter().position(|y| *y == ev(false, x)).ok_or("harness")?;
                        for i in (0..first).chain(last + 1..w.len()) {
                            let at = || {
                                let n = t.n[w[i].node].clone();
                                Some(if w[i].kind == 1 { DftEvent::Open(n) } else { DftEvent::Close(n) })
                            };
                            let start = t.n[x].clone();
                            let until = if i <= last { last } else { w.len() - 1 };
                            all(run, || DepthFirstTraverser::with_next_event(start.clone(), at()), &w[i..=until], 2)
                                .map_err(|m| format!("from {:?} outside: {m}", w[i]))?;
                            let until = if i >= first { first } else { 0 };
                            all(run, || ReverseDepthFirstTraverser::with_next_event(start.clone(), at()), &rev(w[until..=i].to_vec()), 2)
                                .map_err(|m| format!("backwards from {:?} outside: {m}", w[i]))?;
                        }
                        let start = t.n[x].clone();
                        all(run, || DepthFirstTraverser::with_next_event(start.clone(), None), &[], full)?;
                        all(run, || ReverseDepthFirstTraverser::with_next_event(start.clone(), None), &[], full)
                    },
                );
            }
        }
    }
    for n in [50, cx.pick(200, 2000)] {
        for (name, s) in shape::families(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("depth-first of {name} with {n} nodes"),
                |run| {
                    let t = build(&s);
                    for x in [0, n / 2, n - 1] {
                        let e = t.events(x);
                        three!(t, x, run, e.clone(), 0, depth_first_traverse);
                        three!(t, x, run, rev(e.clone()), 0, depth_first_reverse_traverse);
                    }
                    Ok(())
                },
            );
        }
    }
    large::c10(cx);
}

fn depths(h: usize) -> Vec<usize> {
    let mut d: Vec<usize> = (0..=h + 2).collect();
    d.extend([usize::MAX - 1, usize::MAX]);
    d
}

pub fn c11(cx: &mut Cx) {
    let nmax = cx.pick(7, 8);
    let full = cx.pick(10, 12);
    for n in 1..=nmax {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("no start on {}", shape::show(&s)),
                |run| {
                    all(run, || StableDepthFirstTraverser::with_toplevel(None), &[], full)?;
                    for d in [None, Some(0), Some(3)] {
                        all(run, || StableShallowDepthFirstTraverser::with_toplevel(None, d), &[], full)?;
                    }
                    Ok(())
                },
            );
            for x in 0..n {
                cx.case(
                    || format!("stable depth-first at {x} of {}", shape::show(&s)),
                    |run| {
                        let t = build(&s);
                        let e = t.events(x);
                        let f = t.f(x);
                        all(run, || f.depth_first_traverse_stable(), &e, full)?;
                        all(run, || StableDepthFirstTraverser::with_toplevel(Some(f.clone())), &e, full.min(6))
                    },
                );
                let h = build(&s).height(x);
                let mut ds = vec![None];
                ds.extend(depths(h).into_iter().map(Some));
                for d in ds {
                    cx.case(
                        || format!("shallow depth-first at {x} down to {d:?} of {}", shape::show(&s)),
                        |run| {
                            let t = build(&s);
                            let e = t.shallow(x, d);
                            let f = t.f(x);
                            let lim = f.shallow_depth_first_traverse_stable(d).max_depth();
                            if lim != d.unwrap_or(usize::MAX) {
                                return Err(format!("max_depth() = {lim}"));
                            }
                            all(run, || f.shallow_depth_first_traverse_stable(d), &e, full)?;
                            all(run, || StableShallowDepthFirstTraverser::with_toplevel(Some(f.clone()), d), &e, full.min(6))
                        },
                    );
                }
            }
            // Between any two events of the tree.
            let e = build(&s).events(0);
            if n > cx.pick(6, 7) {
                continue;
            }
            for i in 0..e.len() {
                cx.case(
                    || format!("stable depth-first from {:?} of {}", e[i], shape::show(&s)),
                    |run| {
                        let t = build(&s);
                        let at = |k: usize| {
                            let n = t.f(e[k].node);
                            if e[k].kind == 1 {
                                DftEvent::Open(n)
                            } else {
                                DftEvent::Close(n)
                            }
                        };
                        for j in i..e.len() {
                            all(run, || StableDepthFirstTraverser::with_first_last_event(at(i), at(j)), &e[i..=j], full.min(8))
                                .map_err(|m| format!("to {:?}: {m}", e[j]))?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for n in [50, cx.pick(200, 2000)] {
        for (name, s) in shape::families(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("stable depth-first of {name} with {n} nodes"),
                |run| {
                    let t = build(&s);
                    for x in [0, n / 2, n - 1] {
                        let f = t.f(x);
                        all(run, || f.depth_first_traverse_stable(), &t.events(x), 0)?;
                        for d in [None, Some(0), Some(1), Some(2), Some(n / 4), Some(usize::MAX)] {
                            all(run, || f.shallow_depth_first_traverse_stable(d), &t.shallow(x, d), 0)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    large::c11(cx);
}

pub fn c12(cx: &mut Cx) {
    let nmax = cx.pick(7, 8);
    let full = cx.pick(5, 6);
    for n in 1..=nmax {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            for x in 0..n {
                let h = build(&s).height(x);
                for d in depths(h) {
                    cx.case(
                        || format!("breadth-first at {x} from depth {d} of {}", shape::show(&s)),
                        |run| {
                            let t = build(&s);
                            let w = t.breadth(x, d);
                            let f = t.f(x);
                            all(run, || f.allocating_breadth_first_traverse_stable(d), &w, full)
                                .map_err(|e| format!("allocating: {e}"))?;
                            all(run, || AllocatingBreadthFirstTraverser::with_toplevel(f.clone(), d), &w, 3)
                                .map_err(|e| format!("allocating: {e}"))?;
                            all(run, || f.non_allocating_breadth_first_traverse_stable(d), &w, 24)
                                .map_err(|e| format!("non-allocating: {e}"))?;
                            all(run, || NonAllocatingBreadthFirstTraverser::with_toplevel(f.clone(), d), &w, 24)
                                .map_err(|e| format!("non-allocating: {e}"))
                        },
                    );
                }
            }
        }
    }
    for n in [50, cx.pick(200, 1000)] {
        for (name, s) in shape::families(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("breadth-first of {name} with {n} nodes"),
                |run| {
                    let t = build(&s);
                    for x in [0, n / 2, n - 1] {
                        let f = t.f(x);
                        for d in [0, 1, 2, n / 4, usize::MAX] {
                            let w = t.breadth(x, d);
                            all(run, || f.allocating_breadth_first_traverse_stable(d), &w, 0)?;
                            all(run, || f.non_allocating_breadth_first_traverse_stable(d), &w, 0)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    large::c12(cx);
}

pub fn c13(cx: &mut Cx) {
    let nmax = cx.pick(9, 11);
    let full = 10;
    let mut shapes: Vec<(String, Shape)> = vec![];
    for n in 1..=nmax {
        shapes.extend(shape::trees(n).into_iter().map(|s| (shape::show(&s), s)));
    }
    for n in [20, cx.pick(100,1000)] {
        shapes.extend(shape::families(n).into_iter().map(|(name, s)| (format!("{name} with {n} nodes"), s)));
    }
    for (name, s) in shapes {
        if !cx.task() {
            continue;
        }
        let n = s.len();
        for x in 0..n {
            if n > 20 && x > 3 && x + 3 < n && x % 29 != 0 {
                continue;
            }
            cx.case(
                || format!("siblings at {x} of {name}"),
                |run| {
                    let t = build(&s);
                    let kids = values(&t.m.n[x].kids);
                    let sibs = if x == 0 { vec![v(0)] } else { values(t.m.sibs(x)) };
                    let p = sibs.iter().position(|y| y.node == x).ok_or("harness")?;
                    let mut anc = vec![];
                    let mut y = t.m.parent(x);
                    while let Some(q) = y {
                        anc.push(v(q));
                        y = t.m.parent(q);
                    }
                    let mut anc_self = vec![v(x)];
                    anc_self.extend(anc.iter());
                    three!(t, x, run, kids.clone(), full, children);
                    three!(t, x, run, rev(kids.clone()), full, children_reverse);
                    three!(t, x, run, anc.clone(), full, ancestors);
                    three!(t, x, run, anc_self.clone(), full, ancestors_or_self);
                    three!(t, x, run, sibs.clone(), full, siblings);
                    three!(t, x, run, rev(sibs.clone()), full, siblings_reverse);
                    three!(t, x, run, rev(sibs[..=p].to_vec()), full, preceding_siblings_or_self_reverse);
                    three!(t, x, run, rev(sibs[..p].to_vec()), full, preceding_siblings_reverse);
                    three!(t, x, run, sibs[p..].to_vec(), full, following_siblings_or_self);
                    three!(t, x, run, sibs[p + 1..].to_vec(), full, following_siblings);
                    let f = t.f(x);
                    macro_rules! st {
                        ($m:ident, $w:expr) => {
                            all(run, || f.$m(), $w, full).map_err(|e| format!("FrozenNode::{}: {e}", stringify!($m)))?;
                        };
                    }
                    st!(children_stable, &kids);
                    st!(siblings_stable, &sibs);
                    st!(preceding_siblings_or_self_stable, &sibs[..=p]);
                    st!(preceding_siblings_stable, &sibs[..p]);
                    st!(following_siblings_or_self_stable, &sibs[p..]);
                    st!(following_siblings_stable, &sibs[p + 1..]);
                    let nx = || Some(t.n[x].clone());
                    all(run, || StableSiblingsTraverser::with_parent(Some(f.clone())), &kids, full)?;
                    all(run, || StableSiblingsTraverser::<usize>::with_parent(None), &[], full)?;
                    all(run, || SiblingsTraverser::new(nx()), &sibs[p..], full)?;
                    all(run, || SiblingsTraverser::<usize>::new(None), &[], full)?;
                    all(run, || ReverseSiblingsTraverser::new(nx()), &rev(sibs[..=p].to_vec()), full)?;
                    all(run, || ReverseSiblingsTraverser::<usize>::new(None), &[], full)?;
                    all(run, || AncestorsTraverser::new(nx()), &anc_self, full)?;
                    all(run, || AncestorsTraverser::<usize>::new(None), &[], full)
                },
            );
        }
    }
    large::c13(cx);
}

const A: &[&str] = &["sequences longer than the stated length are explored at every position from both ends, and in the alternating orders, not in all interleavings"];

fn main() {
    sup::main(&[
        Check {
            id: "C10",
            f: c10,
            bounds_quick: "every node of every tree up to 8 nodes, all three handle kinds, every resumption event within and outside the subtree in both directions; every sequence of step / close-current for up to 14 events; clones and provided iterator methods at every position; every event stepped by itself; chains, stars and combs of 50 and 200 nodes; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16",
            bounds_thorough: "as quick, trees up to 10 nodes, all sequences for up to 16 events, families of 2000 nodes; all of these families around 2^8 and around 2^16",
            assumptions: A,
        },
        Check {
            id: "C11",
            f: c11,
            bounds_quick: "every node of every tree up to 7 nodes, every depth limit from 0 beyond the height and at the integer limits, every pair of first and last event of every tree up to 6 nodes; every interleaving of front, back and close-current steps for up to 10 events; every position from both ends beyond that; families of 50 and 200 nodes; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16",
            bounds_thorough: "as quick, trees up to 8 nodes, event pairs up to 7 nodes, all interleavings for up to 12 events, families of 2000 nodes; all of these families around 2^8 and around 2^16",
            assumptions: A,
        },
        Check {
            id: "C12",
            f: c12,
            bounds_quick: "every node of every tree up to 7 nodes, every start depth from 0 beyond the height and at the integer limits; every sequence of steps and buffer shrinkings for up to 5 nodes; clones and provided methods at every position; families of 50 and 200 nodes; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16",
            bounds_thorough: "as quick, trees up to 8 nodes, all sequences for up to 6 nodes, families of 1000 nodes; all of these families around 2^8 and around 2^16",
            assumptions: A,
        },
        Check {
            id: "C13",
            f: c13,
            bounds_quick: "every iterator of every handle kind at every node of every tree up to 9 nodes; every interleaving of front and back steps for up to 10 items; families of 20 and 100 nodes; stars around 2^8 and 2^16 children",
            bounds_thorough: "as quick, trees up to 11 nodes, families of 1000 nodes",
            assumptions: A,
        },
        Check {
            id: "C20",
            f: edit::explore,
            bounds_quick: edit::Q,
            bounds_thorough: edit::T,
            assumptions: &["every edit takes a valid grant; nodes are kept alive by handles (C05 covers iterators as the only handles)"],
        },
    ]);
}
