//! C14 (serialization), C15 (tree builder), C16 (cloning), C17 (equality).

use std::cell::RefMut;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};
use mc::data::D;
use mc::model::{As, Exp, Model};
use mc::ops::Op;
use mc::obs;
use mc::shape::{self, Shape};
use mc::sup::{self, catch, Check, Cx, Fnv, Res, Run};
use mc::world::World;

#[path = "../copy.rs"]
mod copy;
#[path = "../equal.rs"]
mod equal;
#[path = "../serial_large.rs"]
mod large;

/// Exclusive borrows of the data of the nodes in `mask` (through clones that must outlive them).
pub fn exclusive<'a>(hold: &'a [Node<D>], mask: u32) -> Vec<RefMut<'a, D>> {
    (0..hold.len())
        .filter(|&i| has(mask, i))
        .map(|i| hold[i].borrow_data_mut())
        .collect()
}

pub fn mask_nodes(mask: u32, n: usize) -> Vec<usize> {
    (0..n).filter(|&i| has(mask, i)).collect()
}

/// Subsets of `n` nodes, all of them up to `all` nodes and those with at most two or all members
/// beyond.
pub fn subsets(n: usize, all: usize) -> Vec<u32> {
    (0..1u32 << n)
        .filter(|s| n <= all || s.count_ones() <= 2 || s.count_ones() as usize == n)
        .collect()
}

/// Canonical events of the subtree: `Ok(Some(node))` opens, `Ok(None)` is replaced by the count.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Open(usize),
    Close(usize),
}

pub fn has(mask: u32, x: usize) -> bool {
    x < 32 && mask >> x & 1 == 1
}

fn canonical(m: &Model, x: usize) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    for (open, y) in m.events(x) {
        match (open, v.last_mut()) {
            (true, _) => v.push(Ev::Open(y)),
            (false, Some(Ev::Close(k))) => *k += 1,
            (false, _) => v.push(Ev::Close(1)),
        }
    }
    v
}

type It = Result<Event<D>, std::cell::BorrowError>;

fn same(got: &Option<It>, want: Option<&Ev>, m: &Model, mask: u32) -> Res {
    let ok = match (got, want) {
        (None, None) => true,
        (Some(Ok(Event::Open(d))), Some(&Ev::Open(y))) => has(mask, y) == (1 == 0) && d.val == m.n[y].val,
        (Some(Err(_)), Some(&Ev::Open(y))) => has(mask, y) == (1 == 1),
        (Some(Ok(Event::Close(k))), Some(&Ev::Close(l))) => k == &l,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    let g = match got {
        None => "nothing".to_string(),
        Some(Ok(Event::Open(d))) => format!("Open({})", d.val),
        Some(Ok(Event::Close(k))) => format!("Close({k})"),
        Some(Err(_)) => "a borrow error".into(),
    };
    Err(format!("got {g}, expected {}", match want {
        None => "the end".into(),
        Some(&Ev::Open(y)) if has(mask, y) == (1 == 1) => format!("a borrow error for node {y}"),
        Some(&Ev::Open(y)) => format!("Open({})", m.n[y].val),
        Some(&Ev::Close(k)) => format!("Close({k})"),
    }))
}

/// The event iterator `mk()` against the canonical list.
fn event_list<I: Iterator<Item = It> + Clone>(mk: &dyn Fn() -> I, m: &Model, x: usize, mask: u32) -> Res {
    let want = canonical(m, x);
    let mut it = mk();
    for i in 0..want.len() + 3 {
        // A clone continues from here by itself.
        let mut c = it.clone();
        let (lo, hi) = it.size_hint();
        let left = want.len().saturating_sub(i);
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint() = ({lo}, {hi:?}) with {left} events left"));
        }
        for j in i..want.len() + 2 {
            same(&c.next(), want.get(j), m, mask).map_err(|e| format!("event {j} of a clone made at {i}: {e}"))?;
        }
        if i < want.len() {
            for k in [1, 2] {
                same(&it.clone().nth(k), want.get(i + k), m, mask).map_err(|e| format!("nth({k}) at {i}: {e}"))?;
            }
            same(&it.clone().last(), want.last(), m, mask).map_err(|e| format!("last() at {i}: {e}"))?;
            let c = it.clone().count();
            if c != left {
                return Err(format!("count() at {i} = {c}, expected {left}"));
            }
        }
        same(&it.next(), want.get(i), m, mask).map_err(|e| format!("event {i}: {e}"))?;
    }
    Ok(())
}

/// Lock state of the source while it is serialized.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Src {
    Free,
    Granted,
    Prohibited,
}

/// What is rebuilt must be a new neutral tree with the model's shape and data.
fn rebuilt(w: &mut World, m0: &Model, x: usize, src: Src, got: Node<D>, what: &str) -> Res {
    let mut m = m0.clone();
    let ids = m.clone_sub(x);
    if !got.is_root() {
        return Err(format!("{what}: the result is not a root"));
    }
    let n0 = w.keep.len();
    let t0 = w.weak.len();
    let live = w.reg.live.get();
    w.bind_nodes(&m, got, &ids).map_err(|e| format!("{what}: {e}"))?;
    w.bind_trees(&m);
    if live != m.len() {
        return Err(format!("{what}: {live} data values live for {} nodes", m.len()));
    }
    obs::nav_plain_all(w, &m).map_err(|e| format!("{what}: {e}"))?;
    obs::data_all(w, &m).map_err(|e| format!("{what}: {e}"))?;
    if src == Src::Free {
        obs::membership_all(w, &m).map_err(|e| format!("{what}: {e}"))?;
    } else {
        // The result knows nothing of the locks of the source.
        let t = w.keep[n0].tree();
        let g = t.grant_hierarchy_edit().is_ok();
        let p = t.prohibit_hierarchy_edit().is_ok();
        if !g || !p {
            return Err(format!("{what}: the result is locked"));
        }
        if t.ptr_eq(&w.keep[x].tree()) || w.keep[x].belongs_to(&t) {
            return Err(format!("{what}: the result is in the tree of the source"));
        }
    }
    // Gone again with its handles.
    w.keep.truncate(n0);
    w.tag.truncate(n0);
    w.weak.truncate(t0);
    if w.reg.live.get() != n0 {
        return Err(format!("{what}: the rebuilt tree is not released ({} values live)", w.reg.live.get()));
    }
    w.check_alive()
}

fn c14_case(m: &Model, x: usize, mask: u32, src: Src, run: &mut Run) -> Res {
    let mut w = World::build(m);
    let hold = w.keep.clone();
    let want = canonical(m, x);
    let readable = want.iter().all(|e| !matches!(e, &Ev::Open(y) if has(mask, y) == (1 == 1)));
    let tree = hold[0].tree();
    let grant = (src == Src::Granted).then(|| tree.grant_hierarchy_edit().expect("harness"));
    let prohib = (src == Src::Prohibited).then(|| tree.prohibit_hierarchy_edit().expect("harness"));
    {
        let g = exclusive(&hold, mask);
        // The user reads all the rest meanwhile.
        let reads: Vec<_> = (0..hold.len()).filter(|&x| !has(mask, x)).map(|x| hold[x].borrow_data()).collect();
        let n = &hold[x];
        event_list(&|| n.to_events(), m, x, mask).map_err(|e| format!("Node::to_events: {e}"))?;
        if src != Src::Prohibited {
            let h = n.clone().bundle_new_hierarchy_edit_grant().map_err(|_| "not grantable")?;
            event_list(&|| h.to_events(), m, x, mask).map_err(|e| format!("HotNode::to_events: {e}"))?;
            for (i, (o, y)) in m.events(x).into_iter().enumerate() {
                let hy = hold[y].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "not grantable")?;
                let e: It = if o { DftEvent::Open(hy) } else { DftEvent::Close(hy) }.try_into();
                same(&Some(e), Some(&if o { Ev::Open(y) } else { Ev::Close(1) }), m, mask)
                    .map_err(|e| format!("Event::try_from hot traversal event {i}: {e}"))?;
            }
        }
        if src != Src::Granted {
            let f = n.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "not freezable")?;
            event_list(&|| f.to_events(), m, x, mask).map_err(|e| format!("FrozenNode::to_events: {e}"))?;
            for (i, (e, (o, y))) in f.depth_first_traverse_stable().zip(m.events(x)).enumerate() {
                let e: It = e.try_into();
                same(&Some(e), Some(&if o { Ev::Open(y) } else { Ev::Close(1) }), m, mask)
                    .map_err(|e| format!("Event::try_from frozen traversal event {i}: {e}"))?;
            }
        }
        for (i, (e, (o, y))) in n.depth_first_traverse().zip(m.events(x)).enumerate() {
            let e: It = e.try_into();
            same(&Some(e), Some(&if o { Ev::Open(y) } else { Ev::Close(1) }), m, mask)
                .map_err(|e| format!("Event::try_from traversal event {i}: {e}"))?;
        }
        // Event::map keeps closes and maps opens once.
        for e in n.to_events().flatten() {
            let mut calls = 0;
            let (was, close) = match &e {
                Event::Open(d) => (Some(d.val), None),
                Event::Close(k) => (None, Some(*k)),
            };
            let f = e.map(|d| {
                calls += 1;
                d.val + 1000
            });
            if f != was.map_or_else(|| Event::Close(close.unwrap_or(0)), |v| Event::Open(v + 1000))
                || calls != u32::from(was.is_some())
            {
                return Err("Event::map does not map the value".into());
            }
        }
        run.step(6 * want.len() as u64);
        if !readable {
            // From its own traversal: refused with the borrow error, nothing else happens.
            let n0 = w.reg.live.get();
            let r: Result<Node<D>, TreeBuildError> = n.depth_first_traverse().collect();
            match r {
                Err(TreeBuildError::BorrowData(_)) => {}
                _ => return Err("collecting the traversal of unreadable data is not refused as such".into()),
            }
            drop(r);
            let mut b = TreeBuilder::new();
            if !matches!(b.push_dft_events(n.depth_first_traverse()), Err(TreeBuildError::BorrowData(_))) {
                return Err("pushing the traversal of unreadable data is not refused as such".into());
            }
            drop(b);
            if w.reg.live.get() != n0 {
                return Err("a refused rebuild leaves data behind".into());
            }
        }
        drop((g, reads));
    }
    if readable && mask == 0 {
        let evs = || -> Vec<Event<D>> { hold[x].to_events().map(|e| e.expect("readable")).collect() };
        let e = |r: Result<Node<D>, TreeBuildError>, what: &str| r.map_err(|e| format!("{what}: {e}"));

        let reg = w.reg.clone();
        let ways = std::cell::Cell::new(m.len() + x);
        let src_of = |v: Vec<Event<D>>| {
            ways.set(ways.get() + 1);
            let reg = reg.clone();
            loose(ways.get(), v.into_iter(), move || Event::Open(D::new(&reg, 999)))
        };
        let n = e(src_of(evs()).collect(), "collect Node")?;
        rebuilt(&mut w, m, x, src, n, "collect Node")?;

        let f: Result<FrozenNode<D>, TreeBuildError> = src_of(evs()).collect();
        let f = f.map_err(|e| format!("collect FrozenNode: {e}"))?;
        let n = f.plain();
        if n.tree().grant_hierarchy_edit().is_ok() {
            return Err("the collected frozen node does not prohibit edits of its tree".into());
        }
        drop(f);
        rebuilt(&mut w, m, x, src, n, "collect FrozenNode")?;

        let h: Result<HotNode<D>, TreeBuildError> = src_of(evs()).collect();
        let h = h.map_err(|e| format!("collect HotNode: {e}"))?;
        let n = h.plain();
        if n.tree().prohibit_hierarchy_edit().is_ok() {
            return Err("the collected hot node does not hold a grant of its tree".into());
        }
        drop(h);
        rebuilt(&mut w, m, x, src, n, "collect HotNode")?;

        let t: Result<Tree<D>, TreeBuildError> = src_of(evs()).collect();
        let t = t.map_err(|e| format!("collect Tree: {e}"))?;
        let n = t.root();
        if !n.tree().ptr_eq(&t) {
            return Err("the root of the collected tree is in another tree".into());
        }
        drop(t);
        rebuilt(&mut w, m, x, src, n, "collect Tree")?;

        let n = e(hold[x].depth_first_traverse().collect(), "collect traversal")?;
        rebuilt(&mut w, m, x, src, n, "collect traversal")?;

        let mut b = TreeBuilder::new();
        b.push_events(src_of(evs())).map_err(|e| format!("push_events: {e}"))?;
        let n = e(b.finish(), "push_events")?;
        rebuilt(&mut w, m, x, src, n, "push_events")?;

        let mut b = TreeBuilder::default();
        b.push_dft_events(hold[x].depth_first_traverse()).map_err(|e| format!("push_dft_events: {e}"))?;
        let n = e(b.finish(), "push_dft_events")?;
        rebuilt(&mut w, m, x, src, n, "push_dft_events")?;

        let mut b = TreeBuilder::new();
        for ev in hold[x].depth_first_traverse() {
            b.push_dft_event(ev).map_err(|e| format!("push_dft_event: {e}"))?;
        }
        let n = b.finish_opt().ok_or("push_dft_event: nothing built")?;
        rebuilt(&mut w, m, x, src, n, "push_dft_event")?;

        let mut b = TreeBuilder::new();
        for ev in evs() {
            match ev {
                Event::Open(d) => b.open(d),
                Event::Close(k) => b.close(k),
            }
            .map_err(|e| format!("open/close: {e}"))?;
        }
        let n = e(b.finish(), "open/close")?;
        // Serializing what was rebuilt gives the same list again.
        {
            let mut m2 = m.clone();
            let ids = m2.clone_sub(x);
            event_list(&|| n.to_events(), &m2, ids[0], 0).map_err(|e| format!("second generation: {e}"))?;
        }
        rebuilt(&mut w, m, x, src, n, "open/close")?;
        run.step(9);
    }
    // The source is as before, its locks included.
    let g = tree.grant_hierarchy_edit().is_ok();
    let p = tree.prohibit_hierarchy_edit().is_ok();
    if (g, p) != (src != Src::Prohibited, src != Src::Granted) {
        return Err("the locks of the source changed".into());
    }
    drop((grant, prohib));
    obs::neutral_all(&w, m)?;
    obs::nav_plain_all(&w, m)?;
    obs::data_all(&w, m)?;
    if w.reg.live.get() != m.len() {
        return Err(format!("{} values live for {} nodes", w.reg.live.get(), m.len()));
    }
    let mut h = Fnv::new();
    h.u(m.hash()).u(x as u64).u(mask as u64).u(src as u64);
    run.state(h.get());
    Ok(())
}

pub fn c14(cx: &mut Cx) {
    let nmax = cx.pick(7, 8);
    let all = cx.pick(5, 6);
    for n in 1..=nmax {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            // The nodes beside carry on: a second tree is there as well.
            let m = Model::from_forest(&[s.clone()]);
            for x in 0..n {
                for mask in subsets(n, all) {
                    let srcs: &[Src] =
                        if mask == 0 { &[Src::Free, Src::Granted, Src::Prohibited] } else { &[Src::Free] };
                    for &src in srcs {
                        cx.case(
                            || format!("serialize {x} of {} ({src:?}), unreadable: {:?}", shape::show(&s), mask_nodes(mask, n)),
                            |run| match catch(|| c14_case(&m, x, mask, src, run)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("panicked: {p}")),
                            },
                        );
                    }
                }
            }
        }
    }
    let sizes: &[usize] = cx.pick(&[9, 31, 32, 33, 64], &[9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]);
    for &n in sizes {
        for (name, s) in shape::families(n) {
            if !cx.task() {
                continue;
            }
            let m = Model::from_forest(&[s.clone()]);
            for x in [0, 1, n / 2, n - 1] {
                cx.case(
                    || format!("serialize {x} of {name} with {n} nodes"),
                    |run| c14_case(&m, x, 0, Src::Free, run),
                );
            }
        }
    }
    large::c14(cx);
    mc::kinds::serial(cx);
    mc::kinds::barred_copies(cx, false);
}

// ---------------------------------------------------------------------------------------------
// C15

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum BErr {
    NotOpened,
    Closed,
    Borrow,
}

fn berr(e: &TreeBuildError) -> BErr {
    match e {
        TreeBuildError::RootNotOpened => BErr::NotOpened,
        TreeBuildError::RootClosed => BErr::Closed,
        TreeBuildError::BorrowData(_) => BErr::Borrow,
    }
}

/// The builder's documented behaviour: path of open nodes.
struct BM {
    m: Model,
    root: Option<usize>,
    open: Vec<usize>,
    new: Vec<usize>,
}
impl BM {
    fn open(&mut self, val: u32) -> Result<(), BErr> {
        match (self.root, self.open.last()) {
            (None, _) => {
                let x = self.m.new_node(self.m.roots.len(), val);
                self.m.roots.push(Some(x));
                self.root = Some(x);
                self.open.push(x);
                self.new.push(x);
                Ok(())
            }
            (Some(_), None) => Err(BErr::Closed),
            (Some(_), Some(&c)) => {
                let x = self.m.create(c, As::Last, val).map_err(|_| BErr::Closed)?;
                self.open.push(x);
                self.new.push(x);
                Ok(())
            }
        }
    }
    fn close(&mut self, k: usize) -> Result<(), BErr> {
        if k == 0 {
            return Ok(());
        }
        if self.root.is_none() {
            return Err(BErr::NotOpened);
        }
        if k > self.open.len() {
            return Err(BErr::Closed);
        }
        self.open.truncate(self.open.len() - k);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum In {
    Open,
    Close(usize),
    DOpen(usize),
    DClose(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Feed {
    /// `push_event` / `push_dft_event` for each.
    One,
    /// `open` / `close`.
    Direct,
    /// As many as possible with `push_events` / `push_dft_events`.
    Bulk,
}

/// A source of events which is a legal iterator and promises no more than it must: it tells nothing
/// or little about its length, and goes on after having ended (nothing of that is to be used).
struct Loose<I, F> {
    it: I,
    ended: bool,
    hint: usize,
    more: F,
}

fn loose<T, I: ExactSizeIterator<Item = T>, F: Fn() -> T>(hint: usize, it: I, more: F) -> Loose<I, F> {
    Loose { it, ended: false, hint, more }
}

impl<T, I: ExactSizeIterator<Item = T>, F: Fn() -> T> Iterator for Loose<I, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return Some((self.more)());
        }
        let r = self.it.next();
        self.ended = r.is_none();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = self.it.len();
        match self.hint % 5 {
            0 => (k, Some(k)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (k, None),
            _ => (k / 2, Some(k * 2 + 7)),
        }
    }
}

fn verdict(got: Result<(), TreeBuildError>, want: Result<(), BErr>, what: &dyn Fn() -> String) -> Res {
    let g = got.as_ref().map(|_| ()).map_err(berr);
    if g != want {
        return Err(format!("{}: {g:?}, expected {want:?}", what()));
    }
    if let Err(e) = got {
        #[cfg(feature = "std")]
        {
            use std::error::Error;
            if e.source().is_some() != matches!(e, TreeBuildError::BorrowData(_)) {
                return Err(format!("{}: the error {e:?} names its cause: {:?}", what(), e.source()));
            }
        }
        if e.to_string().trim().is_empty() {
            return Err(format!("{}: the error {e:?} says nothing", what()));
        }
    }
    Ok(())
}

fn look(b: &TreeBuilder<D>, bm: &BM, what: &dyn Fn() -> String) -> Res {
    let (a, c) = (b.is_root_available(), b.is_root_closed());
    let (wa, wc) = (bm.root.is_some(), bm.root.is_some() && bm.open.is_empty());
    if (a, c) != (wa, wc) {
        return Err(format!("{}: root available/closed: {a}/{c}, expected {wa}/{wc}", what()));
    }
    Ok(())
}

/// `seed`: node of `m0` the builder is created with. `src`: index range of source nodes for
/// traversal events; `dark` is one whose data is unreadable.
fn c15_case(m0: &Model, seed: Option<usize>, seq: &[In], feed: Feed, dark: Option<usize>, opt: bool, run: &mut Run) -> Res {
    let mut w = World::build(m0);
    let hold = w.keep.clone();
    let guard = dark.map(|x| hold[x].borrow_data_mut());
    // The user reads all the rest meanwhile.
    let reads: Vec<_> = (0..hold.len()).filter(|x| Some(*x) != dark).map(|x| hold[x].borrow_data()).collect();
    let mut bm = BM { m: m0.clone(), root: seed, open: seed.into_iter().collect(), new: vec![] };
    let mut b = match seed {
        None => TreeBuilder::new(),
        Some(x) => TreeBuilder::with_root(hold[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "harness: lock")?),
    };
    look(&b, &bm, &|| "at the start".into())?;
    let val = |i: usize| 100 + i as u32;
    let model = |bm: &mut BM, i: usize| match seq[i] {
        In::Open => bm.open(val(i)),
        In::Close(k) => bm.close(k),
        In::DOpen(x) if Some(x) == dark => Err(BErr::Borrow),
        In::DOpen(x) => bm.open(m0.n[x].val),
        In::DClose(_) => bm.close(1),
    };
    let ev = |i: usize| match seq[i] {
        In::Open => Event::Open(D::new(&w.reg, val(i))),
        In::Close(k) => Event::Close(k),
        _ => unreachable!("harness"),
    };
    let dev = |i: usize| match seq[i] {
        In::DOpen(x) => DftEvent::Open(hold[x].clone()),
        In::DClose(x) => DftEvent::Close(hold[x].clone()),
        _ => unreachable!("harness"),
    };
    let dft = |i: usize| matches!(seq[i], In::DOpen(_) | In::DClose(_));
    let mut i = 0;
    while i < seq.len() {
        match feed {
            Feed::One | Feed::Direct => {
                let want = model(&mut bm, i);
                let got = match (feed, seq[i]) {
                    _ if dft(i) => b.push_dft_event(dev(i)),
                    (Feed::Direct, In::Open) => b.open(D::new(&w.reg, val(i))),
                    (Feed::Direct, In::Close(k)) => b.close(k),
                    _ => b.push_event(ev(i)),
                };
                verdict(got, want, &|| format!("event {i} {:?}", seq[i]))?;
                i += 1;
            }
            Feed::Bulk => {
                let from = i;
                let to = (from..seq.len()).find(|&k| dft(k) != dft(from)).unwrap_or(seq.len());
                let mut want = Ok(());
                while i < to && want.is_ok() {
                    want = model(&mut bm, i);
                    i += 1;
                }
                let got = if dft(from) {
                    b.push_dft_events(loose(from + seq.len(), (from..to).map(dev), || dev(from)))
                } else {
                    b.push_events(loose(from + seq.len(), (from..to).map(ev), || Event::Open(D::new(&w.reg, 999))))
                };
                verdict(got, want, &|| format!("events {from}..{to} in bulk"))?;
            }
        }
        look(&b, &bm, &|| format!("after {:?}", &seq[..i]))?;
    }
    let got = if opt { b.finish_opt().ok_or(BErr::NotOpened) } else { b.finish().map_err(|e| berr(&e)) };
    let root = match (got, bm.root) {
        (Ok(n), Some(_)) => Some(n),
        (Err(BErr::NotOpened), None) => None,
        (g, _) => return Err(format!("finish: {:?}, expected root {:?}", g.map(|_| "a node"), bm.root)),
    };
    drop((guard, reads));
    // Bind the new nodes by their position.
    if let (Some(r), Some(x)) = (&root, bm.root) {
        match seed {
            Some(x) => {
                if !r.ptr_eq(&hold[x]) {
                    return Err("finish does not return the seeded node".into());
                }
            }
            None => {
                if x != w.keep.len() {
                    return Err("harness: numbering".into());
                }
                w.keep.push(r.clone());
                w.tag.push(r.borrow_data().tag);
            }
        }
    }
    for &y in &bm.new {
        let Some(p) = bm.m.parent(y) else { continue };
        if y != w.keep.len() {
            return Err("harness: numbering".into());
        }
        let k = bm.m.pos(y).0;
        let n = w.keep[p].children().nth(k).ok_or_else(|| format!("child {k} of {p} was not built"))?;
        w.tag.push(n.borrow_data().tag);
        w.keep.push(n);
    }
    w.bind_trees(&bm.m);
    obs::nav_plain_all(&w, &bm.m)?;
    obs::data_all(&w, &bm.m)?;
    obs::membership_all(&w, &bm.m)?;
    w.check_alive()?;
    if w.reg.live.get() != bm.m.len() {
        return Err(format!("{} data values live for {} nodes", w.reg.live.get(), bm.m.len()));
    }
    run.step(seq.len() as u64);
    let mut h = Fnv::new();
    h.u(bm.m.hash()).u(bm.root.map_or(0, |r| r as u64 + 1));
    for &o in &bm.open {
        h.u(o as u64);
    }
    run.state(h.get());
    let (reg, n) = (w.reg.clone(), w.keep.len());
    drop((w, hold, root));
    if reg.live.get() != 0 {
        return Err(format!("{} of {n} values are not released at the end", reg.live.get()));
    }
    Ok(())
}

/// Every sequence over the alphabet up to the length.
fn sequences(alphabet: &[In], max: usize, f: &mut dyn FnMut(&[In], usize)) {
    fn rec(alphabet: &[In], max: usize, seq: &mut Vec<In>, f: &mut dyn FnMut(&[In], usize)) {
        f(seq, seq.len());
        if seq.len() == max {
            return;
        }
        for &a in alphabet {
            seq.push(a);
            rec(alphabet, max, seq, f);
            seq.pop();
        }
    }
    rec(alphabet, max, &mut vec![], f);
}

pub fn c15(cx: &mut Cx) {
    let plain = [In::Open, In::Close(1), In::Close(2), In::Close(0), In::Close(3), In::Close(usize::MAX)];
    let go = |cx: &mut Cx, m0: &Model, seed: Option<usize>, alphabet: &[In], max: usize, dark: Option<usize>| {
        let feeds: &[Feed] = if matches!(alphabet[0], In::DOpen(_)) { &[Feed::One, Feed::Bulk] } else { &[Feed::One, Feed::Direct, Feed::Bulk] };
        // Tasks are the sequences' first two letters.
        sequences(alphabet, max, &mut |seq, len| {
            if len == 3.min(max) {
                let mine = cx.task();
                let head: Vec<In> = seq.to_vec();
                if mine && !cx.finished() {
                    sequences(alphabet, max - len, &mut |tail, _| {
                        let mut s = head.clone();
                        s.extend_from_slice(tail);
                        for (i, &feed) in feeds.iter().enumerate() {
                            cx.case(
                                || format!("builder on {} seed {seed:?} unreadable {dark:?} {feed:?}: {s:?}", m0.show()),
                                |run| match catch(|| c15_case(m0, seed, &s, feed, dark, i % 2 == 1, run)) {
                                    Ok(r) => r,
                                    Err(p) => Err(format!("panicked: {p}")),
                                },
                            );
                        }
                    });
                }
            } else if len < 3.min(max) && cx.task() {
                for (i, &feed) in feeds.iter().enumerate() {
                    cx.case(
                        || format!("builder on {} seed {seed:?} unreadable {dark:?} {feed:?}: {seq:?}", m0.show()),
                        |run| match catch(|| c15_case(m0, seed, seq, feed, dark, i % 2 == 1, run)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panicked: {p}")),
                        },
                    );
                }
            }
        });
    };
    let none = Model::default();
    go(cx, &none, None, &plain, cx.size(8, 9), None);
    // Longer, with the essential letters.
    go(cx, &none, None, &plain[..3], cx.size(11, 13), None);
    for n in 1..=cx.pick(3, 4) {
        for f in shape::forests(n) {
            let m0 = Model::from_forest(&f);
            for seed in 0..n {
                go(cx, &m0, Some(seed), &plain, cx.pick(if n < 3 { 6 } else { 5 }, if n < 4 { 6 } else { 5 }), None);
            }
        }
    }
    // Traversal events of nodes of a source, which may also be the tree that is extended.
    for (f, letters) in [
        (vec![vec![0, 0]], vec![0, 1]),
        (vec![vec![0, 0], vec![0]], vec![0, 2]),
    ] {
        let m0 = Model::from_forest(&f);
        let mut alphabet = vec![];
        for &x in &letters {
            alphabet.push(In::DOpen(x));
            alphabet.push(In::DClose(x));
        }
        for dark in [None, Some(letters[0]), Some(letters[1])] {
            for seed in [None, Some(0), Some(1)] {
                go(cx, &m0, seed, &alphabet, cx.pick(5, 6), dark);
            }
        }
        // Mixed with plain events.
        let mix = [In::DOpen(letters[1]), In::DClose(0), In::Open, In::Close(2)];
        for seed in [None, Some(1)] {
            go(cx, &m0, seed, &mix, cx.pick(5, 7), None);
        }
    }
    // Every seed in larger trees.
    let mut seeded: Vec<(Vec<Shape>, usize)> = vec![];
    for n in cx.pick(4, 5)..=cx.pick(6, 7) {
        seeded.extend(shape::forests(n).into_iter().map(|f| (f, cx.pick(if n < 6 { 4 } else { 3 }, 4))));
    }
    for n in [8, 12, 20, 33] {
        seeded.extend(shape::families(n).into_iter().chain(shape::mixed(n)).map(|(_, s)| (vec![s], cx.pick(2, 3))));
    }
    for (f, len) in seeded {
        let m0 = Model::from_forest(&f);
        for seed in 0..m0.len() {
            go(cx, &m0, Some(seed), &plain[..3], len, None);
        }
    }
    // Closing far more levels than there are.
    for opens in 0..=4 {
        for seed in [None, Some(0), Some(2)] {
            let m0 = if seed.is_some() { Model::from_forest(&[vec![0, 0, 1]]) } else { Model::default() };
            for bit in 0..usize::BITS {
                if !cx.task() {
                    continue;
                }
                let p = 1usize << bit;
                for level in [p - 1, p, p + 1, p + 2, p + opens, p.wrapping_neg(), usize::MAX - opens] {
                    let mut s = vec![In::Open; opens];
                    s.extend([In::Close(level), In::Open, In::Close(1)]);
                    for feed in [Feed::One, Feed::Direct, Feed::Bulk] {
                        cx.case(
                            || format!("{opens} opens, Close({level}), Open, Close(1), seed {seed:?}, {feed:?}"),
                            |run| c15_case(&m0, seed, &s, feed, None, false, run),
                        );
                    }
                }
            }
        }
    }
    // Long closes over deep and wide trees.
    for n in [8, 33, cx.pick(100, 300)] {
        for k in 0..=n + 2 {
            if !cx.task() {
                continue;
            }
            let mut s = vec![In::Open; n];
            s.push(In::Close(k));
            s.push(In::Open);
            s.push(In::Close(2));
            s.push(In::Close(1));
            for feed in [Feed::One, Feed::Bulk] {
                cx.case(
                    || format!("{n} opens, Close({k}), Open, Close(2), Close(1) {feed:?}"),
                    |run| c15_case(&none, None, &s, feed, None, false, run),
                );
            }
        }
    }
    both(cx);
    large::c15(cx);
    mc::pump::builder(cx);
}

/// The user goes on editing through his own handles while a builder is at work. Edits which leave
/// the chain of open nodes as it is do not disturb the builder, nor the builder them.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Both {
    Open,
    Close(usize),
    Edit(Op),
}

fn both_model(bm: &mut BM, seed: usize, s: Both) -> Option<(Result<(), BErr>, Vec<usize>)> {
    match s {
        Both::Open => {
            let k = bm.m.len();
            let r = bm.open(100 + k as u32);
            let new = (k..bm.m.len()).collect();
            Some((r, new))
        }
        Both::Close(k) => Some((bm.close(k), vec![])),
        Both::Edit(op) => {
            let t = bm.m.n[seed].tree;
            if let Op::Move { x, .. } = op {
                // Whether the builder's hold on the tree prevents this is not the question here.
                if bm.m.roots[t] == Some(x) {
                    return None;
                }
            }
            let mut m = bm.m.clone();
            let (exp, new) = mc::ops::apply_simple(&mut m, op);
            if !matches!(exp, Exp::Ok) || !m.n[seed].alive {
                return None;
            }
            if !bm.open.is_empty() && m.n[seed].tree != t {
                return None;
            }
            if bm.open.windows(2).any(|p| m.parent(p[1]) != Some(p[0])) {
                return None;
            }
            bm.m = m;
            Some((Ok(()), new))
        }
    }
}

fn both_case(m0: &Model, seed: usize, seq: &[Both], run: &mut Run) -> Res {
    let mut w = World::build(m0);
    let mut bm = BM { m: m0.clone(), root: Some(seed), open: vec![seed], new: vec![] };
    let mut b =
        TreeBuilder::with_root(w.keep[seed].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "harness: lock")?);
    for (i, &s) in seq.iter().enumerate() {
        let at = || format!("step {i} {s:?}");
        if let Both::Edit(op) = s {
            let mut m = bm.m.clone();
            let forms: Vec<_> = mc::ops::forms(op, &m).iter().filter(|f| f.fl != mc::ops::Fl::Frozen).collect();
            mc::ops::step(&mut w, &mut m, op, *forms[(i + seq.len()) % forms.len()]).map_err(|e| format!("{}: {e}", at()))?;
            let _ = both_model(&mut bm, seed, s).ok_or("harness: not enabled")?;
        } else {
            let (want, new) = both_model(&mut bm, seed, s).ok_or("harness: not enabled")?;
            let got = match s {
                Both::Open => b.open(D::new(&w.reg, 100 + w.keep.len() as u32)),
                Both::Close(k) => b.push_event(Event::Close(k)),
                Both::Edit(_) => unreachable!(),
            };
            verdict(got, want, &at)?;
            for y in new {
                let p = bm.m.parent(y).ok_or("harness: opened node")?;
                let n = w.keep[p].last_child().ok_or_else(|| format!("{}: nothing was opened", at()))?;
                w.bind_nodes(&bm.m, n, &[y]).map_err(|e| format!("{}: {e}", at()))?;
            }
        }
        look(&b, &bm, &at)?;
        w.bind_trees(&bm.m);
        obs::nav_plain_all(&w, &bm.m).map_err(|e| format!("after {}: {e}", at()))?;
        // The builder keeps its tree for itself until the root is closed.
        for t in bm.m.live_trees() {
            let tree = w.keep[bm.m.roots[t].expect("live")].tree();
            let free = tree.prohibit_hierarchy_edit().is_ok();
            let want = bm.open.is_empty() || bm.m.n[seed].tree != t;
            if free != want {
                return Err(format!("after {}: edits of tree {t} can be prohibited: {free}", at()));
            }
        }
    }
    let got = b.finish().map_err(|e| format!("finish: {e}"))?;
    if !got.ptr_eq(&w.keep[seed]) {
        return Err("finish does not return the seeded node".into());
    }
    drop(got);
    obs::nav_plain_all(&w, &bm.m)?;
    obs::data_all(&w, &bm.m)?;
    obs::membership_all(&w, &bm.m)?;
    obs::neutral_all(&w, &bm.m)?;
    w.check_alive()?;
    run.step(seq.len() as u64);
    run.state(bm.m.hash());
    let reg = w.reg.clone();
    drop(w);
    if reg.live.get() != 0 {
        return Err(format!("{} values are not released at the end", reg.live.get()));
    }
    Ok(())
}

pub fn both(cx: &mut Cx) {
    fn rec(bm: &BM, seed: usize, len: usize, edits: usize, seq: &mut Vec<Both>, f: &mut dyn FnMut(&[Both])) {
        if seq.len() == len {
            f(seq);
            return;
        }
        let mut next = vec![Both::Open, Both::Close(1), Both::Close(2)];
        if edits > 0 {
            next.extend(mc::ops::all_ops(&bm.m, true).into_iter().map(Both::Edit));
        }
        for s in next {
            let mut c = BM { m: bm.m.clone(), root: bm.root, open: bm.open.clone(), new: vec![] };
            if both_model(&mut c, seed, s).is_some() {
                seq.push(s);
                rec(&c, seed, len, edits - usize::from(matches!(s, Both::Edit(_))), seq, f);
                seq.pop();
            }
        }
    }
    for n in 1..=3 {
        for f in shape::forests(n) {
            let m0 = Model::from_forest(&f);
            for seed in 0..n {
                let (len, edits) = match (cx.thorough(), n) {
                    (false, 3) => (4, 1),
                    (false, _) => (4, 2),
                    (true, 3) => (4, 2),
                    (true, _) => (5, 2),
                };
                let bm = BM { m: m0.clone(), root: Some(seed), open: vec![seed], new: vec![] };
                let mut heads = vec![];
                rec(&bm, seed, 2, edits, &mut vec![], &mut |s| heads.push(s.to_vec()));
                for head in heads {
                    if !cx.task() {
                        continue;
                    }
                    let mut c = BM { m: m0.clone(), root: Some(seed), open: vec![seed], new: vec![] };
                    for &s in &head {
                        both_model(&mut c, seed, s);
                    }
                    let left = edits - head.iter().filter(|s| matches!(s, Both::Edit(_))).count();
                    let mut seq = head.clone();
                    rec(&c, seed, len, left, &mut seq, &mut |s| {
                        cx.case(
                            || format!("builder on {} seed {seed}, with edits: {s:?}", m0.show()),
                            |run| match catch(|| both_case(&m0, seed, s, run)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("panicked: {p}")),
                            },
                        );
                    });
                }
            }
        }
    }
}

fn main() {
    sup::main(&[
        Check {
            id: "C14",
            f: c14,
            bounds_quick: "every node of every tree up to 7 nodes; every subset of unreadable nodes up to 5 nodes (subsets of at most 2 or all beyond); source free, granted, prohibited; degenerate trees up to 64 nodes; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; trees up to 5 nodes and families up to 257 with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); rebuilt from sources with every legal kind of size hint that do not stop after their end; trees up to 5 nodes of five kinds of data with one unreadable node",
            bounds_thorough: "every node of every tree up to 8 nodes; every subset of unreadable nodes up to 6 nodes (subsets of at most 2 or all beyond); source free, granted, prohibited; degenerate trees up to 129 nodes; all of these families around 2^8 and around 2^16; trees up to 6 nodes of five kinds of data with one unreadable node",
            assumptions: &["node data are values whose clone is equal to the original"],
        },
        Check {
            id: "C15",
            f: c15,
            bounds_quick: "every sequence of Open, Close(0,1,2,3,usize::MAX) up to length 8 and of Open, Close(1), Close(2) up to length 11 into an empty builder; up to length 5 or 6 into a builder seeded with any node of any forest up to 3 nodes; traversal events of readable and unreadable nodes up to length 5; closes by every amount over 100 open nodes; pushed one by one, by open/close and in bulk; up to length 3 or 4 seeded with any node of any forest of 4 to 6 nodes, up to length 2 with any node of 11 families of trees up to 33 nodes; closes by 2^k-1..2^k+4 and -2^k levels for every k; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; every word of up to 3 of five events repeated 520 times (short shallow ones 65540 times); every history of length 4 of builder events and up to 2 user edits that keep the open path, below every node of every forest up to 2 nodes (one edit: 3 nodes)",
            bounds_thorough: "every sequence of Open, Close(0,1,2,3,usize::MAX) up to length 9 and of Open, Close(1), Close(2) up to length 13 into an empty builder; up to length 5 or 6 into a builder seeded with any node of any forest up to 4 nodes; traversal events of readable and unreadable nodes up to length 6; closes by every amount over 300 open nodes; pushed one by one, by open/close and in bulk; up to length 4 seeded with any node of any forest of 5 to 7 nodes, up to length 3 with any node of 11 families of trees up to 33 nodes; closes by 2^k-1..2^k+4 and -2^k levels for every k; all of these families around 2^8 and around 2^16; every word of up to 3 of five events repeated 520 times (short shallow ones 65540 times); every history of length 5 (3 nodes: 4) of builder events and up to 2 user edits that keep the open path, below every node of every forest up to 3 nodes",
            assumptions: &["Close(0) closes nothing and is accepted in every state"],
        },
        Check {
            id: "C16",
            f: copy::c16,
            bounds_quick: copy::Q,
            bounds_thorough: copy::T,
            assumptions: copy::A,
        },
        Check {
            id: "C17",
            f: equal::c17,
            bounds_quick: equal::Q,
            bounds_thorough: equal::T,
            assumptions: equal::A,
        },
    ]);
}

