//! C24: user code panics at every possible place of every operation.

use std::fmt::Write;
use std::rc::Rc;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};
use mc::data::{Reg, D};
use mc::model::{As, Model};
use mc::obs;
use mc::ops::{self, Fl, Form, Got, Op};
use mc::shape;
use mc::sup::{catch, Cx, Fnv, Res, Run};
use mc::world::World;

pub const Q: &str = "every forest up to 6 nodes; every edit and copy in every API form, with every single node unreadable or none; serialization, rebuilding (per event, in bulk, by collecting, below a given root), comparison, all printers, every way of releasing a tree, and user loops under every kind of lock; a panic at every single call into user code (clone, eq, fmt, drop, source iterator, output writer); families up to 33 nodes, chains and stars of 65 and 257, with operations at extreme places and panics at the first and last calls, in the middle and around powers of two";
pub const T: &str = "as quick with every forest up to 7 nodes";
pub const A: &[&str] = &[
    "one panic per execution; destructors do not panic while another panic unwinds (Rust aborts then)",
    "an interrupted builder may have consumed any number of the events before the panic",
];

/// Runs `f` with the `k`-th call into user code panicking (0: none); the number of calls made.
fn with_fuse<R>(reg: &Rc<Reg>, k: u64, f: impl FnOnce() -> R) -> (R, u64) {
    let c0 = reg.calls.get();
    reg.drops_tick.set(true);
    reg.blown.set(None);
    reg.fuse.set(k);
    let r = f();
    reg.fuse.set(0);
    reg.drops_tick.set(false);
    (r, reg.calls.get() - c0)
}

/// The calls in which to fail: every one of not many, else those at the ends and around the middle
/// and the powers of two.
pub fn points(n: u64, nodes: usize) -> Vec<u64> {
    (1..=n).filter(|&k| nodes < 8 || n <= 48 || k <= 3 || k + 3 > n || k.abs_diff(n / 2) < 2 || (5..10).any(|b| k.abs_diff(1 << b) < 2)).collect()
}

fn next_point(k: u64, n: u64, nodes: usize) -> u64 {
    points(n, nodes).into_iter().find(|&p| p > k).unwrap_or(n + 1)
}

/// Everything is as in the model and nothing is left over.
fn sound(w: &World, m: &Model) -> Res {
    let live = w.reg.live.get();
    if live != m.len() {
        return Err(format!("{live} data values are alive, expected {}", m.len()));
    }
    obs::nav_plain_all(w, m)?;
    obs::walks(w, m)?;
    obs::neutral_all(w, m)?;
    obs::data_all(w, m)?;
    obs::membership_all(w, m)?;
    // No borrow of the data is left behind.
    for (i, n) in w.keep.iter().enumerate() {
        if n.try_borrow_data_mut().is_err() {
            return Err(format!("the data of {i} is still borrowed"));
        }
    }
    w.check_alive()
}

/// Sound, still editable, and nothing remains after everything is dropped.
fn usable(mut w: World, mut m: Model) -> Res {
    sound(&w, &m)?;
    for t in 0..m.roots.len() {
        let Some(r) = m.roots[t] else { continue };
        let f = |fl, panicking| Form { fl, panicking, specific: false };
        let last = m.n[r].kids.last().copied();
        ops::step(&mut w, &mut m, Op::Create { x: r, as_: As::Last }, f(Fl::Plain, true))?;
        ops::step(&mut w, &mut m, Op::CloneIns { x: r, as_: As::First, a: r }, f(Fl::Hot, false))?;
        if let Some(l) = last {
            ops::step(&mut w, &mut m, Op::Detach { x: l }, f(Fl::Plain, true))?;
        }
    }
    sound(&w, &m).map_err(|e| format!("after further edits: {e}"))?;
    let reg = w.reg.clone();
    drop(w);
    if reg.live.get() != 0 {
        return Err(format!("{} data values are never dropped", reg.live.get()));
    }
    let e = reg.error.borrow().clone();
    e.map_or(Ok(()), Err)
}

/// What an attempt with a fault must look like: the panic came through and it is the injected one.
fn injected<R>(r: &Result<R, String>) -> Res {
    match r {
        Err(p) if p.contains("injected fault") => Ok(()),
        Err(p) => Err(format!("another panic came out: {p}")),
        Ok(_) => Err("the panic was swallowed".into()),
    }
}

/// `act` leaves the world unchanged whatever happens in it; every fault position is tried.
fn every_fault(m: &Model, run: &mut Run, mk: &dyn Fn() -> World, act: &dyn Fn(&World) -> Result<(), String>) -> Res {
    let w = mk();
    let (r, n) = with_fuse(&w.reg, 0, || catch(|| act(&w)));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("without a fault: {e}")),
        Err(p) => return Err(format!("without a fault: panic: {p}")),
    }
    usable(w, m.clone()).map_err(|e| format!("without a fault: {e}"))?;
    for k in points(n, m.len()) {
        let w = mk();
        let (r, _) = with_fuse(&w.reg, k, || catch(|| act(&w)));
        let what = w.reg.blown.get().unwrap_or("?");
        let at = |e| format!("panic in call {k} of {n} into user code ({what}): {e}");
        injected(&r).map_err(at)?;
        drop(r);
        usable(w, m.clone()).map_err(at)?;
        run.step(1);
        run.state(Fnv::new().u(m.hash()).u(k).s(what).get());
    }
    run.outcome = Some(match n {
        0 => "no call into user code".into(),
        1..=4 => format!("{n} calls into user code"),
        _ => "5 or more calls into user code".into(),
    });
    Ok(())
}

// ---- edits and copies -------------------------------------------------------------------------

fn edit(m0: &Model, op: Op, form: Form, busy: Option<usize>, run: &mut Run) -> Res {
    // Dry run: the verdict and the number of calls.
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let (exp, new) = ops::apply(&mut m, op, &|_| false, &|x| busy == Some(x));
    let hold = w.keep.clone();
    let val = 100 + m0.len() as u32;
    let go = |w: &World, k: u64| {
        let b = busy.map(|b| hold[b].borrow_data_mut());
        let (got, n) = with_fuse(&w.reg, k, || ops::exec(w, op, form, val));
        drop(b);
        (got, n)
    };
    let (got, n) = go(&w, 0);
    let done = ops::judge(&exp, form, &got)?;
    drop(hold);
    if done {
        if let Got::Ok(Some(x)) = got {
            w.bind_nodes(&m, x, &new)?;
        }
        w.bind_trees(&m);
    } else {
        drop(got);
        m = m0.clone();
    }
    usable(w, m).map_err(|e| format!("without a fault: {e}"))?;
    for k in points(n, m0.len()) {
        let w = World::build(m0);
        let hold = w.keep.clone();
        let b = busy.map(|b| hold[b].borrow_data_mut());
        let (got, _) = with_fuse(&w.reg, k, || ops::exec(&w, op, form, val));
        drop(b);
        drop(hold);
        let what = w.reg.blown.get().unwrap_or("?");
        let at = |e| format!("panic in call {k} of {n} into user code ({what}): {e}");
        let r: Result<(), String> = match got {
            Got::Panic(p) => Err(p),
            Got::Ok(_) | Got::Err(_) => Ok(()),
        };
        injected(&r).map_err(at)?;
        usable(w, m0.clone()).map_err(at)?;
        run.step(1);
        run.state(Fnv::new().u(m0.hash()).u(k).s(what).get());
    }
    run.outcome = Some(format!("edit with {} calls into user code", n.min(5)));
    Ok(())
}

// ---- reading operations -----------------------------------------------------------------------

/// The user's writer.
struct Sink(Rc<Reg>);
impl Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.0.tick("writer");
        Ok(())
    }
}

pub type Act = fn(&World, usize) -> Result<(), String>;

pub fn hot(n: &Node<D>) -> HotNode<D> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}
pub fn frozen(n: &Node<D>) -> FrozenNode<D> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}
fn p<X>(w: &World, f: X) -> Result<(), String>
where
    X: FnOnce(&mut Sink) -> std::fmt::Result,
{
    f(&mut Sink(w.reg.clone())).map_err(|_| "formatting failed".into())
}

pub const READS: &[(&str, Act)] = &[
    ("pretty print Display", |w, x| p(w, |s| write!(s, "{}", w.keep[x].debug_pretty_print()))),
    ("pretty print Debug", |w, x| p(w, |s| write!(s, "{:?}", w.keep[x].debug_pretty_print()))),
    ("pretty print alternate Debug", |w, x| p(w, |s| write!(s, "{:#?}", w.keep[x].debug_pretty_print()))),
    ("pretty print hot", |w, x| p(w, |s| write!(s, "{}", hot(&w.keep[x]).debug_pretty_print()))),
    ("pretty print frozen", |w, x| p(w, |s| write!(s, "{:?}", frozen(&w.keep[x]).debug_pretty_print()))),
    ("pretty print tree", |w, x| p(w, |s| write!(s, "{}", w.keep[x].tree().debug_pretty_print()))),
    ("print local", |w, x| p(w, |s| write!(s, "{:?}", w.keep[x].debug_print_local()))),
    ("print local hot", |w, x| p(w, |s| write!(s, "{:#?}", hot(&w.keep[x]).debug_print_local()))),
    ("print local frozen", |w, x| p(w, |s| write!(s, "{:?}", frozen(&w.keep[x]).debug_print_local()))),
    ("print subtree", |w, x| p(w, |s| write!(s, "{:?}", w.keep[x].debug_print_subtree()))),
    ("print subtree hot", |w, x| p(w, |s| write!(s, "{:?}", hot(&w.keep[x]).debug_print_subtree()))),
    ("print subtree frozen", |w, x| p(w, |s| write!(s, "{:#?}", frozen(&w.keep[x]).debug_print_subtree()))),
    ("print tree", |w, x| p(w, |s| write!(s, "{:?}", w.keep[x].tree().debug_print()))),
    ("print tree local", |w, x| p(w, |s| write!(s, "{:?}", w.keep[x].tree().debug_print_local()))),
    ("events", |w, x| {
        for e in w.keep[x].to_events() {
            e.map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("events of a hot node", |w, x| {
        let h = hot(&w.keep[x]);
        for e in h.to_events() {
            e.map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("events of a frozen node", |w, x| {
        let h = frozen(&w.keep[x]);
        for e in h.to_events() {
            e.map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("events collected and rebuilt", |w, x| {
        let v: Vec<Event<D>> = w.keep[x].to_events().collect::<Result<_, _>>().map_err(|_| "borrowed")?;
        v.into_iter().collect::<Result<Node<D>, TreeBuildError>>().map(drop).map_err(|e| format!("{e:?}"))
    }),
    ("events collected as they come, hot", |w, x| {
        let h: Result<HotNode<D>, TreeBuildError> = w.keep[x].to_events().map(|e| e.expect("harness: readable")).collect();
        h.map(drop).map_err(|e| format!("{e:?}"))
    }),
    ("events collected as they come, frozen", |w, x| {
        let h: Result<FrozenNode<D>, TreeBuildError> = w.keep[x].to_events().map(|e| e.expect("harness: readable")).collect();
        h.map(drop).map_err(|e| format!("{e:?}"))
    }),
    ("events collected as they come, tree", |w, x| {
        let h: Result<Tree<D>, TreeBuildError> = w.keep[x].to_events().map(|e| e.expect("harness: readable")).collect();
        h.map(drop).map_err(|e| format!("{e:?}"))
    }),
    ("traversal collected", |w, x| {
        w.keep[x].depth_first_traverse().collect::<Result<Node<D>, TreeBuildError>>().map(drop).map_err(|e| format!("{e:?}"))
    }),
    ("traversal events converted, plain", |w, x| {
        for e in w.keep[x].depth_first_traverse() {
            let _e: Event<D> = e.try_into().map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("traversal events converted, hot", |w, x| {
        let h = hot(&w.keep[x]);
        for e in h.depth_first_traverse() {
            let _e: Event<D> = e.try_into().map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("traversal events converted, frozen", |w, x| {
        let h = frozen(&w.keep[x]);
        for e in h.depth_first_traverse_stable() {
            let _e: Event<D> = e.try_into().map_err(|_| "borrowed")?;
        }
        Ok(())
    }),
    ("events mapped by user code", |w, x| {
        for e in w.keep[x].to_events() {
            let _ = e.map_err(|_| "borrowed")?.map(|d| {
                d.reg.tick("map");
                d.val
            });
        }
        for e in w.keep[x].depth_first_traverse() {
            let _ = e.map(|n| {
                w.reg.tick("map");
                n.is_root()
            });
        }
        Ok(())
    }),
    ("abandoned and misused builders", |w, x| {
        let mut b = TreeBuilder::new();
        for e in w.keep[x].to_events() {
            b.push_event(e.map_err(|_| "borrowed")?).map_err(|e| format!("{e:?}"))?;
        }
        // The root is closed now.
        if b.open(D::new(&w.reg, 1)).is_ok() {
            return Err("a second root was accepted".into());
        }
        if b.push_event(Event::Open(D::new(&w.reg, 1))).is_ok() {
            return Err("a second root was accepted".into());
        }
        drop(b);
        let mut b = TreeBuilder::with_root(hot(&w.keep[x]));
        b.close(1).map_err(|e| format!("{e:?}"))?;
        if b.push_events([Event::Open(D::new(&w.reg, 1)), Event::Open(D::new(&w.reg, 2))]).is_ok() {
            return Err("an event after the end was accepted".into());
        }
        Ok(())
    }),
    ("user code under a grant", |w, x| {
        let t = w.keep[x].tree();
        let g = t.grant_hierarchy_edit().expect("harness");
        let h = w.keep[x].clone().bundle_hierarchy_edit_grant(&g);
        for e in h.depth_first_traverse() {
            if let DftEvent::Open(n) = e {
                let _c = n.clone().bundle_hierarchy_edit_grant(&g).extract_hierarchy_edit_grant();
                let _r = n.root().first_child();
                w.reg.tick("loop body");
            }
        }
        Ok(())
    }),
    ("user code under a prohibition", |w, x| {
        let t = w.keep[x].tree();
        let g = t.prohibit_hierarchy_edit().expect("harness");
        let h = w.keep[x].clone().bundle_hierarchy_edit_prohibition(&g);
        let mut a = h.depth_first_traverse_stable();
        while let Some(e) = a.next() {
            a.next_back();
            let n = e.as_value().clone();
            let _c = n.extract_hierarchy_edit_prohibition();
            let mut s = n.children_stable();
            let mut q = n.allocating_breadth_first_traverse_stable(0);
            let mut z = n.non_allocating_breadth_first_traverse_stable(0);
            let mut y = n.shallow_depth_first_traverse_stable(Some(1));
            s.next();
            q.next();
            z.next();
            y.next_back();
            w.reg.tick("loop body");
        }
        Ok(())
    }),
    ("user code while data is borrowed", |w, x| {
        for e in w.keep[x].depth_first_traverse() {
            if let DftEvent::Open(n) = e {
                let h = hot(&n);
                let mut d = h.borrow_data_mut();
                d.val = d.val.wrapping_add(0);
                w.reg.tick("loop body");
                drop(d);
                let d = n.borrow_data();
                let d2 = h.try_borrow_data().map_err(|_| "not readable")?;
                w.reg.tick("loop body");
                drop((d, d2));
            }
        }
        Ok(())
    }),
];

// ---- comparisons ------------------------------------------------------------------------------

pub type Cmp = fn(&World, usize, usize) -> Result<(), String>;
pub const CMPS: &[(&str, Cmp)] = &[
    ("node == node", |w, x, y| {
        let _ = w.keep[x] == w.keep[y];
        Ok(())
    }),
    ("try_eq", |w, x, y| w.keep[x].try_eq(&w.keep[y]).map(drop).map_err(|_| "borrowed".into())),
    ("tree == tree", |w, x, y| {
        let _ = w.keep[x].tree() == w.keep[y].tree();
        Ok(())
    }),
    ("tree try_eq", |w, x, y| w.keep[x].tree().try_eq(&w.keep[y].tree()).map(drop).map_err(|_| "borrowed".into())),
    ("frozen == frozen", |w, x, y| {
        let _ = frozen(&w.keep[x]) == frozen(&w.keep[y]);
        Ok(())
    }),
    ("hot == hot", |w, x, y| {
        let _ = hot(&w.keep[x]) == hot(&w.keep[y]);
        Ok(())
    }),
    ("hot == node", |w, x, y| {
        let _ = hot(&w.keep[x]) == w.keep[y];
        Ok(())
    }),
    ("node == frozen", |w, x, y| {
        let _ = w.keep[x] == frozen(&w.keep[y]);
        Ok(())
    }),
];

// ---- builders ---------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Feed {
    DftEvents,
    DftEvent,
    Events,
    Event,
    FrozenDft,
}
pub const FEEDS: [Feed; 5] = [Feed::DftEvents, Feed::DftEvent, Feed::Events, Feed::Event, Feed::FrozenDft];

/// The subtree at `x` is fed into a builder, below `y` if given; the `k`-th call panics.
pub fn feed(w: &World, x: usize, b: &mut TreeBuilder<D>, how: Feed, from: usize) -> Result<(), String> {
    let src = w.keep[x].clone();
    let e = |e: TreeBuildError| format!("{e:?}");
    let tick = || w.reg.tick("source iterator");
    match how {
        Feed::DftEvents => b.push_dft_events(src.depth_first_traverse().skip(from).inspect(|_| tick())).map_err(e),
        Feed::DftEvent => {
            for ev in src.depth_first_traverse().skip(from) {
                b.push_dft_event(ev).map_err(e)?;
            }
            Ok(())
        }
        Feed::Events => {
            let v: Vec<Event<D>> = src.to_events().collect::<Result<_, _>>().map_err(|_| "borrowed")?;
            b.push_events(v.into_iter().skip(from).inspect(|_| tick())).map_err(e)
        }
        Feed::Event => {
            for ev in src.to_events().skip(from) {
                b.push_event(ev.map_err(|_| "borrowed")?).map_err(e)?;
            }
            Ok(())
        }
        Feed::FrozenDft => {
            let f = frozen(&src);
            for ev in f.depth_first_traverse_stable().skip(from) {
                let ev: Event<D> = ev.try_into().map_err(|_| "borrowed")?;
                b.push_event(ev).map_err(e)?;
            }
            Ok(())
        }
    }
}

/// Adds the first `k` nodes (in document order) of the subtree at `x` to the model.
pub fn prefix(m: &mut Model, x: usize, y: Option<usize>, k: usize) -> Vec<usize> {
    let pre = m.preorder(x);
    let mut map: Vec<(usize, usize)> = vec![];
    let mut new = vec![];
    for (i, &o) in pre.iter().take(k).enumerate() {
        let val = m.n[o].val;
        let n = if i == 0 {
            match y {
                Some(y) => m.create(y, As::Last, val).expect("harness"),
                None => {
                    let t = m.add_tree(&vec![0]);
                    let r = m.roots[t].expect("harness");
                    m.n[r].val = val;
                    r
                }
            }
        } else {
            let par = m.parent(o).expect("harness");
            let p = map.iter().find(|(a, _)| *a == par).expect("harness").1;
            m.create(p, As::Last, val).expect("harness")
        };
        map.push((o, n));
        new.push(n);
    }
    new
}

fn build(m0: &Model, x: usize, y: Option<usize>, how: Feed, run: &mut Run) -> Res {
    let size = m0.preorder(x).len();
    let mut n = 0;
    let mut k = 0;
    loop {
        let mut m = m0.clone();
        let mut w = World::build(&m);
        let mut b = match y {
            Some(y) => TreeBuilder::with_root(hot(&w.keep[y])),
            None => TreeBuilder::new(),
        };
        let (r, calls) = with_fuse(&w.reg, k, || catch(|| feed(&w, x, &mut b, how, 0)));
        let what = w.reg.blown.get().unwrap_or("?");
        if k == 0 {
            n = calls;
        }
        let at = |e: String| format!("panic in call {k} of {n} into user code ({what}): {e}");
        if k == 0 {
            match &r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(format!("without a fault: {e}")),
                Err(p) => return Err(format!("without a fault: panic: {p}")),
            }
        } else {
            injected(&r).map_err(at)?;
        }
        drop(r);
        // What has been built so far is a prefix of the source in document order.
        let built = w.reg.live.get() - m0.len().min(w.reg.live.get());
        if built > size || (k == 0 && built != size) {
            return Err(at(format!("{built} nodes were built of {size}")));
        }
        let new = prefix(&mut m, x, y, built);
        match (y, b.finish_opt()) {
            (None, None) => {
                if built != 0 {
                    return Err(at(format!("{built} nodes were built but no tree came out")));
                }
            }
            (None, Some(r)) => {
                if built == 0 {
                    return Err(at("a tree came out of nothing".into()));
                }
                w.bind_nodes(&m, r, &new).map_err(at)?;
            }
            (Some(y), Some(r)) => {
                if !r.ptr_eq(&w.keep[y]) {
                    return Err(at("the result is not the given root".into()));
                }
                if built > 0 {
                    // Bind the new nodes below `y`.
                    let c = r.last_child().ok_or_else(|| at("the new nodes are not below the given root".into()))?;
                    w.bind_nodes(&m, c, &new).map_err(at)?;
                }
            }
            (Some(_), None) => return Err(at("the given root got lost".into())),
        }
        w.bind_trees(&m);
        usable(w, m).map_err(at)?;
        run.step(1);
        run.state(Fnv::new().u(m0.hash()).u(k).u(x as u64).u(built as u64).get());
        k = next_point(k, n, m0.len());
        if k > n {
            break;
        }
    }
    run.outcome = Some(format!("builder with {} calls into user code", n.min(9)));
    Ok(())
}

/// The builder can go on with the event whose data could not be cloned.
fn resume(m0: &Model, x: usize, y: Option<usize>, run: &mut Run) -> Res {
    let ev = m0.events(x);
    let size = m0.preorder(x).len();
    for k in points(size as u64, m0.len()) {
        let mut m = m0.clone();
        let mut w = World::build(&m);
        let mut b = match y {
            Some(y) => TreeBuilder::with_root(hot(&w.keep[y])),
            None => TreeBuilder::new(),
        };
        let at = |e: String| format!("panic in clone {k} of {size}: {e}");
        let (r, _) = with_fuse(&w.reg, k, || catch(|| feed(&w, x, &mut b, Feed::DftEvent, 0)));
        injected(&r).map_err(at)?;
        drop(r);
        let from = ev.iter().enumerate().filter(|(_, e)| e.0).nth(k as usize - 1).ok_or("harness")?.0;
        feed(&w, x, &mut b, Feed::DftEvent, from).map_err(at)?;
        let out = b.finish().map_err(|e| at(format!("{e:?}")))?;
        let new = prefix(&mut m, x, y, size);
        let r = match (y, out) {
            (None, out) => out,
            (Some(_), out) => out.last_child().ok_or_else(|| at("nothing was inserted".into()))?,
        };
        w.bind_nodes(&m, r, &new).map_err(at)?;
        w.bind_trees(&m);
        usable(w, m).map_err(at)?;
        run.step(1);
    }
    run.state(Fnv::new().u(m0.hash()).u(x as u64).get());
    run.outcome = Some("builder resumed".into());
    Ok(())
}

// ---- releasing --------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Own {
    Node,
    Hot,
    Frozen,
    Tree,
    Dft,
    RevDft,
    StableDft,
    Bfs,
    Events,
    Builder,
    Two,
    Granted,
}
const OWNS: [Own; 12] = [
    Own::Node,
    Own::Hot,
    Own::Frozen,
    Own::Tree,
    Own::Dft,
    Own::RevDft,
    Own::StableDft,
    Own::Bfs,
    Own::Events,
    Own::Builder,
    Own::Two,
    Own::Granted,
];

/// The whole first tree is released through its last owner `x`; the other trees stay.
fn release(m0: &Model, x: usize, own: Own, run: &mut Run) -> Res {
    let t = m0.n[x].tree;
    let mine = m0.preorder(m0.root(x));
    let mut n = 0;
    let mut k = 0;
    loop {
        let mut w = World::build(m0);
        let weaks: Vec<_> = w.keep.iter().map(|n| n.downgrade()).collect();
        let weak_tree = w.weak[t].clone().ok_or("harness")?;
        let h = w.keep[x].clone();
        let owner = |h: Node<D>| -> Box<dyn std::any::Any> { match own {
            Own::Node => Box::new(h),
            Own::Hot => Box::new(hot(&h)),
            Own::Frozen => Box::new(frozen(&h)),
            Own::Tree => Box::new(h.tree()),
            Own::Dft => Box::new(h.depth_first_traverse()),
            Own::RevDft => Box::new(h.depth_first_reverse_traverse()),
            Own::StableDft => Box::new(frozen(&h).depth_first_traverse_stable()),
            Own::Bfs => Box::new(frozen(&h).allocating_breadth_first_traverse_stable(0)),
            Own::Events => Box::new(h.to_events()),
            Own::Builder => Box::new(TreeBuilder::with_root(hot(&h))),
            Own::Two => Box::new((h.clone(), h.tree(), hot(&h))),
            Own::Granted => Box::new((h.tree().grant_hierarchy_edit().expect("harness"), hot(&h))),
        } };
        let o = owner(h);
        // `keep` must not own the tree any more; the remaining world is a smaller model.
        let mut m = Model::default();
        let mut keep = vec![];
        let mut tags = vec![];
        let mut weak = vec![];
        let mut map = vec![usize::MAX; m0.len()];
        for u in 0..m0.roots.len() {
            if u == t {
                continue;
            }
            let r = m0.roots[u].ok_or("harness")?;
            let nt = m.roots.len();
            m.roots.push(None);
            weak.push(w.weak[u].clone());
            for y in m0.preorder(r) {
                map[y] = m.n.len();
                let mut c = m0.n[y].clone();
                c.tree = nt;
                m.n.push(c);
                keep.push(w.keep[y].clone());
                tags.push(w.tag[y]);
            }
            m.roots[nt] = Some(map[r]);
        }
        for c in &mut m.n {
            c.parent = c.parent.map(|p| map[p]);
            for q in &mut c.kids {
                *q = map[*q];
            }
        }
        w.keep = keep;
        w.tag = tags;
        w.weak = weak;
        if w.reg.live.get() != m0.len() {
            return Err("harness: released too early".into());
        }
        let (r, calls) = with_fuse(&w.reg, k, || catch(|| drop(o)));
        if k == 0 {
            n = calls;
        }
        let at = |e: String| format!("panic in destructor {k} of {n}: {e}");
        if k == 0 {
            if n as usize != mine.len() {
                return Err(format!("{n} destructors ran for {} nodes", mine.len()));
            }
            r.map_err(|p| format!("releasing panicked: {p}"))?;
        } else {
            injected(&r).map_err(at)?;
        }
        for &y in &mine {
            if weaks[y].upgrade().is_some() {
                return Err(at(format!("weak reference to node {y} still upgrades")));
            }
        }
        if weak_tree.upgrade().is_some() {
            return Err(at("weak reference to the tree still upgrades".into()));
        }
        usable(w, m).map_err(at)?;
        run.step(1);
        run.state(Fnv::new().u(m0.hash()).u(k).u(x as u64).get());
        k = next_point(k, n, m0.len());
        if k > n {
            break;
        }
    }
    run.outcome = Some(format!("release with {} destructors", n.min(9)));
    Ok(())
}

// -----------------------------------------------------------------------------------------------

/// Shapes beyond the small ones, at extreme places.
fn large(cx: &mut Cx) {
    let mut shapes: Vec<(String, shape::Shape)> = vec![];
    let sizes: &[usize] = if cx.thorough() { &[8, 12, 20, 33, 65, 129] } else { &[8, 12, 33] };
    for &n in sizes {
        for (name, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            shapes.push((format!("{name} with {} nodes", s.len()), s));
        }
    }
    for n in [65, 257] {
        for (name, s) in shape::families(n) {
            if matches!(name, "chain" | "star") {
                shapes.push((format!("{name} with {n} nodes"), s));
            }
        }
    }
    for (name, s) in shapes {
        let n = s.len();
        let mut m = Model::default();
        m.add_tree(&s);
        m.add_tree(&vec![0, 0, 1]);
        // And a tree like the first, for comparisons.
        let mut twin = Model::default();
        twin.add_tree(&s);
        twin.add_tree(&s);
        for q in &mut twin.n {
            q.val = 7;
        }
        let xs = if n > 40 { vec![0, n - 1] } else { vec![0, 1, n - 1] };
        let dests = [n - 1, n, n + 2];
        for op in ops::ops_on(&m, &xs, &dests, true) {
            if !cx.task() {
                continue;
            }
            let form = ops::forms(op, &m)[0];
            cx.case(|| format!("{name} and another tree of 3 from {n}: {op:?} via {form:?}"), |run| edit(&m, op, form, None, run));
            if let Op::CloneIns { x, .. } | Op::CloneSub { x } = op {
                let o = m.preorder(x);
                for b in [o[0], o[o.len() / 2], *o.last().unwrap()] {
                    cx.case(
                        || format!("{name} and another tree of 3 from {n}: {op:?} via {form:?}, data of {b} exclusively borrowed"),
                        |run| edit(&m, op, form, Some(b), run),
                    );
                }
            }
        }
        for &x in &[0, n - 1] {
            for (what, act) in READS {
                if cx.task() {
                    cx.case(
                        || format!("{name} and another tree of 3 from {n}: {what} at node {x}"),
                        |run| every_fault(&m, run, &|| World::build(&m), &|w| act(w, x)),
                    );
                }
            }
            for (what, act) in CMPS {
                if cx.task() {
                    cx.case(
                        || format!("{name} and its twin: {what} at node {x}"),
                        |run| every_fault(&twin, run, &|| World::build(&twin), &|w| act(w, x, n + x)),
                    );
                }
            }
            for how in FEEDS {
                for y in [None, Some(n), Some(n + 2)] {
                    if cx.task() {
                        cx.case(
                            || format!("{name} and another tree of 3 from {n}: {how:?} of node {x} into a builder for {y:?}"),
                            |run| build(&m, x, y, how, run),
                        );
                    }
                }
            }
            for y in [None, Some(n)] {
                if cx.task() {
                    cx.case(|| format!("{name}: resumed builder for node {x} into {y:?} (second tree from {n})"), |run| resume(&m, x, y, run));
                }
            }
            for own in OWNS {
                if cx.task() {
                    cx.case(|| format!("{name}: release through node {x} as {own:?}"), |run| release(&m, x, own, run));
                }
            }
        }
    }
}

pub fn c24(cx: &mut Cx) {
    if cx.lighter == 0 || cx.thorough() {
        large(cx);
    }
    let max = cx.size(6, 7);
    for n in 1..=max {
        for f in shape::forests(n) {
            let m0 = Model::from_forest(&f);
            let show = m0.show();
            let name = |what: String| move || what.clone();
            for op in ops::all_ops(&m0, true) {
                if !cx.task() {
                    continue;
                }
                for &form in ops::forms(op, &m0) {
                    cx.case(name(format!("forest {show}: {op:?} via {form:?}")), |run| edit(&m0, op, form, None, run));
                    let src = match op {
                        Op::CloneIns { x, .. } | Op::CloneSub { x } => Some(x),
                        Op::CloneTree { t } => m0.roots[t],
                        _ => None,
                    };
                    for b in src.map(|s| m0.preorder(s)).unwrap_or_default() {
                        cx.case(name(format!("forest {show}: {op:?} via {form:?}, data of node {b} exclusively borrowed")), |run| {
                            edit(&m0, op, form, Some(b), run)
                        });
                    }
                }
                if cx.finished() {
                    return;
                }
            }
            for x in 0..m0.len() {
                if !cx.task() {
                    continue;
                }
                for (what, act) in READS {
                    cx.case(name(format!("forest {show}: {what} at node {x}")), |run| {
                        every_fault(&m0, run, &|| World::build(&m0), &|w| act(w, x))
                    });
                }
                for y in 0..m0.len() {
                    for (what, act) in CMPS {
                        let same = m0.n[x].tree == m0.n[y].tree;
                        if *what == "node == frozen" && x == y || what.starts_with("hot == hot") && same && x == y {
                            continue;
                        }
                        cx.case(name(format!("forest {show}: {what} for nodes {x} and {y}")), |run| {
                            // All data equal, so that the comparison goes as far as possible.
                            let mut m = m0.clone();
                            for q in &mut m.n {
                                q.val = 7;
                            }
                            every_fault(&m, run, &|| World::build(&m), &|w| act(w, x, y))
                        });
                    }
                }
                for how in FEEDS {
                    cx.case(name(format!("forest {show}: {how:?} of node {x} into a new builder")), |run| build(&m0, x, None, how, run));
                    for y in 0..m0.len() {
                        if m0.n[x].tree == m0.n[y].tree {
                            continue;
                        }
                        cx.case(name(format!("forest {show}: {how:?} of node {x} into a builder for node {y}")), |run| {
                            build(&m0, x, Some(y), how, run)
                        });
                    }
                }
                cx.case(name(format!("forest {show}: resumed builder for node {x}")), |run| resume(&m0, x, None, run));
                for y in 0..m0.len() {
                    if m0.n[x].tree != m0.n[y].tree {
                        cx.case(name(format!("forest {show}: resumed builder for node {x} into node {y}")), |run| resume(&m0, x, Some(y), run));
                    }
                }
                for own in OWNS {
                    cx.case(name(format!("forest {show}: release through node {x} as {own:?}")), |run| release(&m0, x, own, run));
                }
                if cx.finished() {
                    return;
                }
            }
        }
    }
}
