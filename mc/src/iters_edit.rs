// C20: plain iterators with edits between their steps. Included by `bin/iters.rs`.

use dendron::traverse::{
    AncestorsTraverser, DepthFirstTraverser, DftEvent, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser,
};

use mc::data::D;
use mc::model::Model;
use mc::ops::{self, Form, Op};
use mc::shape;
use mc::sup::{Cx, Res, Run};
use mc::world::World;

pub const Q: &str = "every plain iterator at every node of every forest; every sequence of steps and edits with one edit up to 5 nodes, two edits up to 4 nodes and three edits from 1 node, then steps to the end and beyond; peek, size bounds and clones at every position; one edit at the ends, in the middle and where the iterator is, of families up to 129 nodes and around 2^8, after 0, 1, 2, half and all but 2, 1, 0 steps; serialization with one edit at every position up to 4 nodes";
pub const T: &str = "as quick, one edit up to 6 nodes, three edits up to 2 nodes; the families likewise; serialization with one edit at every position up to 5 nodes";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Children,
    ChildrenRev,
    Siblings,
    SiblingsRev,
    Preceding,
    PrecedingSelf,
    Following,
    FollowingSelf,
    Ancestors,
    AncestorsSelf,
    Dft,
    DftRev,
}
const KS: [K; 12] = [
    K::Children,
    K::ChildrenRev,
    K::Siblings,
    K::SiblingsRev,
    K::Preceding,
    K::PrecedingSelf,
    K::Following,
    K::FollowingSelf,
    K::Ancestors,
    K::AncestorsSelf,
    K::Dft,
    K::DftRev,
];

enum It {
    S(SiblingsTraverser<D>),
    R(ReverseSiblingsTraverser<D>),
    A(AncestorsTraverser<D>),
    D(DepthFirstTraverser<D>),
    E(ReverseDepthFirstTraverser<D>),
}
impl Clone for It {
    fn clone(&self) -> It {
        match self {
            It::S(i) => It::S(i.clone()),
            It::R(i) => It::R(i.clone()),
            It::A(i) => It::A(i.clone()),
            It::D(i) => It::D(i.clone()),
            It::E(i) => It::E(i.clone()),
        }
    }
}

/// Model: what is decided already. For nodes the first component is unused.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct M {
    k: K,
    start: usize,
    next: Option<(bool, usize)>,
}

impl M {
    fn new(m: &Model, k: K, x: usize) -> M {
        let n = |y: Option<usize>| y.map(|y| (true, y));
        let next = match k {
            K::Children => n(m.n[x].kids.first().copied()),
            K::ChildrenRev => n(m.n[x].kids.last().copied()),
            K::Siblings => n(Some(m.sibs(x).first().copied().unwrap_or(x))),
            K::SiblingsRev => n(Some(m.sibs(x).last().copied().unwrap_or(x))),
            K::Preceding => n(m.prev(x)),
            K::Following => n(m.next(x)),
            K::PrecedingSelf | K::FollowingSelf => n(Some(x)),
            K::Ancestors => n(m.parent(x)),
            K::AncestorsSelf => n(Some(x)),
            K::Dft => Some((true, x)),
            K::DftRev => Some((false, x)),
        };
        M { k, start: x, next }
    }
    fn step(&mut self, m: &Model) -> Option<(bool, usize)> {
        let cur = self.next?;
        let (open, y) = cur;
        let n = |y: Option<usize>| y.map(|y| (true, y));
        self.next = match self.k {
            K::Children | K::Siblings | K::Following | K::FollowingSelf => n(m.next(y)),
            K::ChildrenRev | K::SiblingsRev | K::Preceding | K::PrecedingSelf => n(m.prev(y)),
            K::Ancestors | K::AncestorsSelf => n(m.parent(y)),
            K::Dft => {
                if open {
                    match m.n[y].kids.first() {
                        Some(&c) => Some((true, c)),
                        None => Some((false, y)),
                    }
                } else if y == self.start {
                    None
                } else {
                    match m.next(y) {
                        Some(s) => Some((true, s)),
                        None => m.parent(y).map(|p| (false, p)),
                    }
                }
            }
            K::DftRev => {
                if !open {
                    match m.n[y].kids.last() {
                        Some(&c) => Some((false, c)),
                        None => Some((true, y)),
                    }
                } else if y == self.start {
                    None
                } else {
                    match m.prev(y) {
                        Some(s) => Some((false, s)),
                        None => m.parent(y).map(|p| (true, p)),
                    }
                }
            }
        };
        Some(cur)
    }
}

fn make(w: &World, k: K, x: usize) -> It {
    let n = &w.keep[x];
    match k {
        K::Children => It::S(n.children()),
        K::ChildrenRev => It::R(n.children_reverse()),
        K::Siblings => It::S(n.siblings()),
        K::SiblingsRev => It::R(n.siblings_reverse()),
        K::Preceding => It::R(n.preceding_siblings_reverse()),
        K::PrecedingSelf => It::R(n.preceding_siblings_or_self_reverse()),
        K::Following => It::S(n.following_siblings()),
        K::FollowingSelf => It::S(n.following_siblings_or_self()),
        K::Ancestors => It::A(n.ancestors()),
        K::AncestorsSelf => It::A(n.ancestors_or_self()),
        K::Dft => It::D(n.depth_first_traverse()),
        K::DftRev => It::E(n.depth_first_reverse_traverse()),
    }
}

fn idx(w: &World, e: Option<&DftEvent<dendron::Node<D>>>) -> Result<Option<(bool, usize)>, String> {
    Ok(match e {
        None => None,
        Some(DftEvent::Open(n)) => Some((true, w.idx(n)?)),
        Some(DftEvent::Close(n)) => Some((false, w.idx(n)?)),
    })
}
fn nidx(w: &World, n: Option<&dendron::Node<D>>) -> Result<Option<(bool, usize)>, String> {
    n.map(|n| w.idx(n).map(|i| (true, i))).transpose()
}

fn next(w: &World, it: &mut It) -> Result<Option<(bool, usize)>, String> {
    match it {
        It::S(i) => nidx(w, i.next().as_ref()),
        It::R(i) => nidx(w, i.next().as_ref()),
        It::A(i) => nidx(w, i.next().as_ref()),
        It::D(i) => idx(w, i.next().as_ref()),
        It::E(i) => idx(w, i.next().as_ref()),
    }
}

fn look(w: &World, m: &Model, it: &It, im: &M) -> Res {
    let (p, h) = match it {
        It::S(i) => (nidx(w, i.peek())?, i.size_hint()),
        It::R(i) => (nidx(w, i.peek())?, i.size_hint()),
        It::A(i) => (nidx(w, i.peek())?, i.size_hint()),
        It::D(i) => (idx(w, i.peek())?, i.size_hint()),
        It::E(i) => (idx(w, i.peek())?, i.size_hint()),
    };
    if p != im.next {
        return Err(format!("peek is {p:?}, expected {:?}", im.next));
    }
    let mut c = *im;
    let mut left = 0;
    while c.step(m).is_some() {
        left += 1;
    }
    if h.0 > left || h.1.is_some_and(|x| x < left) {
        return Err(format!("size_hint() = {h:?} with {left} to come if nothing changes"));
    }
    Ok(())
}

/// Steps to the end and twice beyond.
fn drain(w: &World, m: &Model, it: &mut It, im: &mut M) -> Res {
    let mut beyond = 0;
    let many = m.len() > 30;
    for i in 0..2 * m.len() + 200 {
        if !many || i < 3 || i % 61 == 0 {
            look(w, m, it, im)?;
        }
        let want = im.step(m);
        let got = next(w, it)?;
        if got != want {
            return Err(format!("item {i} of the rest is {got:?}, expected {want:?}"));
        }
        if want.is_none() {
            beyond += 1;
            if beyond == 3 {
                return Ok(());
            }
        }
    }
    Err("harness: endless traversal".into())
}

/// `steps[i]`: number of steps before edit `i`.
fn run_case(m0: &Model, k: K, x: usize, plan: &[(usize, Op, Form)], run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let mut it = make(&w, k, x);
    let mut im = M::new(&m, k, x);
    look(&w, &m, &it, &im)?;
    for &(s, op, form) in plan {
        for _ in 0..s {
            let want = im.step(&m);
            let got = next(&w, &mut it)?;
            if got != want {
                return Err(format!("step yields {got:?}, expected {want:?}"));
            }
        }
        look(&w, &m, &it, &im)?;
        let before = it.clone();
        let before_m = im;
        ops::step(&mut w, &mut m, op, form)?;
        look(&w, &m, &it, &im)?;
        // A clone made before the edit behaves like the original.
        let (mut c, mut cm) = (before, before_m);
        drain(&w, &m, &mut c, &mut cm).map_err(|e| format!("clone: {e}"))?;
        run.step(s as u64 + 1);
    }
    drain(&w, &m, &mut it, &mut im)?;
    run.state(m.hash());
    w.check_alive()
}

fn len(m: &Model, mut im: M) -> usize {
    let mut n = 0;
    while im.step(m).is_some() {
        n += 1;
    }
    n
}

fn rec(cx: &mut Cx, m0: &Model, m: &Model, k: K, x: usize, im: M, plan: &mut Vec<(usize, Op, Form)>, left: usize) {
    let ops = ops::all_ops(m, false);
    for s in 0..=len(m, im) {
        let mut im2 = im;
        for _ in 0..s {
            im2.step(m);
        }
        for &op in &ops {
            let mut m2 = m.clone();
            let (e, _) = ops::apply_simple(&mut m2, op);
            if e != mc::model::Exp::Ok {
                continue;
            }
            if cx.finished() {
                return;
            }
            // The form matters little here: alternate between plain and hot.
            let fs = ops::forms(op, m);
            let form = fs[plan.len() % 2 * (fs.len() / 2)];
            plan.push((s, op, form));
            if left == 1 {
                let p: &[(usize, Op, Form)] = plan;
                cx.case(
                    || {
                        let l: Vec<String> = p.iter().map(|(s, o, f)| format!("{s} steps, then {o:?} via {f:?}")).collect();
                        format!("{}\n{k:?} of node {x}\n{}", m0.show(), l.join("\n"))
                    },
                    |run| run_case(m0, k, x, p, run),
                );
            } else {
                rec(cx, m0, &m2, k, x, im2, plan, left - 1);
            }
            plan.pop();
        }
    }
}

/// The events of a serialization with edits between the steps: which they are is not prescribed,
/// but every step succeeds, the iteration ends for good and the closes never outnumber the opens.
fn events_case(m0: &Model, x: usize, s: usize, op: Op, form: Form, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let mut it = w.keep[x].to_events();
    let mut depth = 0usize;
    let mut ended = 0;
    for i in 0..4 * m.len() + 20 {
        if i == s {
            ops::step(&mut w, &mut m, op, form)?;
        }
        match it.next() {
            None => ended += 1,
            Some(_) if ended > 0 && i > s => return Err(format!("item {i} comes after the end")),
            Some(Err(e)) => return Err(format!("item {i}: {e}")),
            Some(Ok(dendron::serial::Event::Open(_))) => depth += 1,
            Some(Ok(dendron::serial::Event::Close(k))) => {
                if !(1..=m.len() + 1).contains(&k) {
                    return Err(format!("item {i} closes {k} levels"));
                }
                depth = depth.saturating_sub(k);
            }
        }
        run.step(1);
    }
    if ended < 5 {
        return Err(format!("no end after {} items", 4 * m.len() + 20));
    }
    drop(it);
    w.check_alive()
}

/// Shapes beyond the small ones, edits at extreme places and times.
fn large(cx: &mut Cx) {
    let mut shapes: Vec<(String, shape::Shape)> = vec![];
    for n in [6, 8, 12, 20, 33, 65, 129] {
        for (name, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            shapes.push((format!("{name} with {} nodes", s.len()), s));
        }
    }
    shapes.extend(shape::boundary(8, true));
    for (name, s) in shapes {
        let n = s.len();
        let mut m = Model::default();
        m.add_tree(&s);
        m.add_tree(&vec![0, 0, 1]);
        let big = n > cx.pick(66, 130);
        let mut xs = vec![0, 1, n / 2, n - 1];
        xs.dedup();
        let dests = if big { vec![0, n - 1] } else { vec![0, 1, n / 2, n - 1, n + 1] };
        for &x in &xs {
            for k in KS {
                if !cx.task() {
                    continue;
                }
                let mut at = xs.clone();
                if !big {
                    at.extend([2, n - 2]);
                }
                at.sort();
                at.dedup();
                let im = M::new(&m, k, x);
                let l = len(&m, im);
                let mut times = vec![0, 1, l / 2, l.saturating_sub(1), l];
                if !big {
                    times.extend([2, l.saturating_sub(2)]);
                }
                times.sort();
                times.dedup();
                times.retain(|&t| t <= l);
                for s in times {
                    // Also the place where the iterator is.
                    let mut im2 = im;
                    let mut cur = None;
                    for _ in 0..s {
                        cur = im2.step(&m);
                    }
                    let mut at = at.clone();
                    at.extend(cur.map(|c| c.1));
                    at.extend(im2.next.map(|c| c.1));
                    at.sort();
                    at.dedup();
                    for op in ops::ops_on(&m, &at, &dests, false) {
                        let mut m2 = m.clone();
                        if ops::apply_simple(&mut m2, op).0 != mc::model::Exp::Ok {
                            continue;
                        }
                        let form = ops::forms(op, &m)[0];
                        let plan = [(s, op, form)];
                        cx.case(
                            || format!("{name} and another tree of 3 from {n}: {k:?} of node {x}: {s} steps, then {op:?}"),
                            |run| run_case(&m, k, x, &plan, run),
                        );
                    }
                }
            }
        }
    }
}

fn events(cx: &mut Cx) {
    for n in 1..=cx.pick(4, 5) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for x in 0..n {
                for op in ops::all_ops(&m, false) {
                    if !cx.task() {
                        continue;
                    }
                    let mut m2 = m.clone();
                    if ops::apply_simple(&mut m2, op).0 != mc::model::Exp::Ok {
                        continue;
                    }
                    for s in 0..=2 * m.preorder(x).len() {
                        let form = ops::forms(op, &m)[0];
                        cx.case(
                            || format!("{}: events of node {x}: {s} steps, then {op:?}", m.show()),
                            |run| events_case(&m, x, s, op, form, run),
                        );
                    }
                }
            }
        }
    }
}

pub fn explore(cx: &mut Cx) {
    events(cx);
    if cx.lighter == 0 || cx.thorough() {
        large(cx);
    }
    let plan: &[(usize, usize)] = if cx.thorough() {
        &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3)]
    } else {
        &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3)]
    };
    for &(n, d) in plan {
        if n + d + cx.lighter > cx.pick(6, 7) {
            continue;
        }
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for x in 0..n {
                for k in KS {
                    if cx.task() {
                        rec(cx, &m, &m, k, x, M::new(&m, k, x), &mut vec![], d);
                    }
                }
            }
        }
    }
}
