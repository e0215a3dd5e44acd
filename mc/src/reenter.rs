//! C25: code of the data (clone, comparison, formatting) and event sources that use the trees
//! while the library calls them.

use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

use dendron::serial::TreeBuilder;
use dendron::Node;
use mc::data::{Reg, D};
use mc::model::{Exp, Model};
use mc::obs;
use mc::ops::{self, Fl, Form, Got, Op};
use mc::shape;
use mc::sup::{catch, Cx, Fnv, Res, Run};
use mc::world::World;

use crate::faults::{points, feed, hot, prefix, Feed, CMPS, FEEDS, READS};

pub const Q: &str = "every forest up to 4 nodes; every copy in every API form, every serialization, comparison, printer and builder feed; inside every single call into user code: reading everything, every printer and serialization of every node, every comparison with every node, every copy, and every edit (up to 3 nodes; 4 nodes: every edit inside the first call); up to 3 nodes, one operation of each kind: an edit inside one call and a look at everything (up to 2 nodes: every second edit) inside a later call; families up to 20 nodes, chains and stars of 65 and 257, with everything read inside the first and last calls, in the middle and around powers of two, and edits at extreme places";
pub const T: &str = "as quick with every forest up to 5 nodes, every edit inside every call up to 4 nodes, second edits (moving, detaching, replacing) up to 3 nodes; families up to 65 nodes";
pub const A: &[&str] = &[
    "at most two re-entrant actions per execution",
    "whether locks can be acquired inside a call is not prescribed; edits are attempted when they can",
    "user code does not move nodes between the source and the destination of a builder that is reading (this need not end)",
    "the result of an operation whose trees are edited while it runs is not prescribed, only that everything stays consistent (the operation may panic)",
];

/// Runs `f` with `inner` inside the `k`-th call into user code; the number of calls.
fn hooked<R>(reg: &Rc<Reg>, k: u64, inner: impl FnOnce(&'static str) + 'static, f: impl FnOnce() -> R) -> (R, u64) {
    let c0 = reg.calls.get();
    if k > 0 {
        *reg.hook.borrow_mut() = Some((k, Box::new(inner)));
    }
    let r = f();
    let h = reg.hook.borrow_mut().take();
    drop(h);
    (r, reg.calls.get() - c0)
}

/// Every tree any handle is in is consistent, unlocked, and holds all living data.
fn audit(w: &World, extra: &[Node<D>], done: bool) -> Res {
    let max = w.reg.count() + 1;
    let mut seen: HashSet<u32> = HashSet::new();
    let tag = |n: &Node<D>| n.try_borrow_data().map(|d| d.tag).map_err(|_| "data of a node cannot be read".to_string());
    for h in w.keep.iter().chain(extra) {
        if seen.contains(&tag(h)?) {
            continue;
        }
        let mut r = h.clone();
        let mut up = 0;
        while let Some(p) = r.parent() {
            r = p;
            up += 1;
            if up > max {
                return Err("ancestors without an end".into());
            }
        }
        let tree = r.tree();
        if !tree.root().ptr_eq(&r) || !r.is_root() {
            return Err(format!("the root #{} is not the root of its tree", tag(&r)?));
        }
        if done && (tree.grant_hierarchy_edit().is_err() || tree.prohibit_hierarchy_edit().is_err()) {
            return Err(format!("the tree of #{} stays locked", tag(&r)?));
        }
        let mut st = vec![r];
        while let Some(n) = st.pop() {
            let t = tag(&n)?;
            if !seen.insert(t) {
                return Err(format!("#{t} is reached twice"));
            }
            if !n.belongs_to(&tree) || !n.tree().ptr_eq(&tree) {
                return Err(format!("#{t} is not in the tree it is linked into"));
            }
            let mut prev: Option<Node<D>> = None;
            let mut c = n.first_child();
            let mut k = 0;
            while let Some(x) = c {
                k += 1;
                if k > max {
                    return Err(format!("children of #{t} without an end"));
                }
                if !x.parent().is_some_and(|p| p.ptr_eq(&n)) {
                    return Err(format!("#{} has another parent than #{t}", tag(&x)?));
                }
                let back = x.prev_sibling();
                if back.is_some() != prev.is_some() || back.is_some_and(|b| !prev.is_some_and(|p| p.ptr_eq(&b))) {
                    return Err(format!("#{} has the wrong previous sibling", tag(&x)?));
                }
                prev = Some(x.clone());
                c = x.next_sibling();
                st.push(x);
            }
            let last = n.last_child();
            if n.num_children() != k || last.is_some() != prev.is_some() || last.is_some_and(|l| !prev.is_some_and(|p| p.ptr_eq(&l))) {
                return Err(format!("#{t} has the wrong number of children or last child"));
            }
        }
        if !seen.contains(&tag(h)?) {
            return Err(format!("#{} is not reachable from its root", tag(h)?));
        }
    }
    if done && w.reg.live.get() != seen.len() {
        return Err(format!("{} data values live, {} are in trees with handles", w.reg.live.get(), seen.len()));
    }
    w.check_alive()
}

fn released(w: World) -> Res {
    let reg = w.reg.clone();
    drop(w);
    if reg.live.get() != 0 {
        return Err(format!("{} data values are never dropped", reg.live.get()));
    }
    let e = reg.error.borrow().clone();
    e.map_or(Ok(()), Err)
}

/// What user code does inside a call.
#[derive(Clone, Copy, Debug)]
enum In {
    Look,
    Read(usize, usize),
    Compare(usize, usize, usize),
    Copy(Op, Form),
    Edit(Op),
}

fn inner_text(i: In) -> String {
    match i {
        In::Look => "reads everything".into(),
        In::Read(k, x) => format!("does \"{}\" at {x}", READS[k].0),
        In::Compare(k, x, y) => format!("does \"{}\" of {x} and {y}", CMPS[k].0),
        In::Copy(op, f) => format!("does {op:?} via {f:?}"),
        In::Edit(op) => format!("does {op:?}"),
    }
}

fn internal(p: &str) -> bool {
    !p.contains("[precondition]")
}

/// Runs one action inside a call; what it keeps goes to `kept`.
fn inside(w: &World, m: &Model, o: Out, i: In, kept: &mut Vec<Node<D>>) -> Res {
    match i {
        In::Look => {
            for x in m.alive() {
                let n = &w.keep[x];
                match n.try_borrow_data() {
                    Ok(d) => {
                        if d.tag != w.tag[x] || d.val != m.n[x].val {
                            return Err(format!("data of node {x} is not as before"));
                        }
                    }
                    Err(_) => return Err(format!("data of node {x} cannot be read")),
                }
            }
            if let Out::Feed(_, Some(_), _) = o {
                // The part built so far is there.
                return audit(w, &[], false);
            }
            obs::nav_plain_all(w, m)?;
            obs::walks(w, m)?;
            for x in m.alive() {
                for (t, tree) in w.weak.iter().enumerate() {
                    if let Some(tree) = tree.as_ref().and_then(|t| t.upgrade()) {
                        if w.keep[x].belongs_to(&tree) != (m.n[x].tree == t) {
                            return Err(format!("node {x}: belongs_to(t{t}) is wrong"));
                        }
                    }
                }
            }
            Ok(())
        }
        In::Read(k, x) => {
            let (name, act) = READS[k];
            let g = w.keep[x].tree().grant_hierarchy_edit().is_ok();
            let p = w.keep[x].tree().prohibit_hierarchy_edit().is_ok();
            let (wants_g, wants_p) = (name.contains("hot") || name.contains("grant") || name.contains("builder"), name.contains("frozen") || name.contains("prohibition"));
            if wants_g && !g || wants_p && !p {
                return Ok(());
            }
            act(w, x)
        }
        In::Compare(k, x, y) => {
            let (name, act) = CMPS[k];
            for z in [x, y] {
                let g = w.keep[z].tree().grant_hierarchy_edit().is_ok();
                let p = w.keep[z].tree().prohibit_hierarchy_edit().is_ok();
                if name.contains("hot") && !g || name.contains("frozen") && !p {
                    return Ok(());
                }
            }
            act(w, x, y)
        }
        In::Copy(op, f) => {
            let x = match op {
                Op::CloneSub { x } => x,
                Op::CloneTree { t } => m.roots[t].ok_or("harness")?,
                _ => return Err("harness: copy".into()),
            };
            let g = w.keep[x].tree().grant_hierarchy_edit().is_ok();
            let p = w.keep[x].tree().prohibit_hierarchy_edit().is_ok();
            if f.fl == Fl::Hot && !g || f.fl == Fl::Frozen && !p {
                return Ok(());
            }
            match ops::exec(w, op, f, 0) {
                Got::Ok(Some(_)) if matches!(o, Out::Feed(_, Some(y), _) if m.n[y].tree == m.n[x].tree) => Ok(()),
                Got::Ok(Some(n)) => {
                    mc::large::same(&n, m, x, |n| n.borrow_data().val)
                }
                Got::Ok(None) => Err("nothing is copied".into()),
                Got::Err(e) => Err(format!("refused with {e:?}")),
                Got::Panic(p) => Err(format!("panicked: {p}")),
            }
        }
        In::Edit(op) => {
            for t in m.live_trees() {
                if w.keep[m.roots[t].ok_or("harness")?].tree().grant_hierarchy_edit().is_err() {
                    return Ok(());
                }
            }
            match ops::exec(w, op, Form { fl: Fl::Plain, panicking: false, specific: false }, 99) {
                Got::Ok(Some(n)) => {
                    kept.push(n);
                    Ok(())
                }
                Got::Ok(None) | Got::Err(_) => Ok(()),
                Got::Panic(p) if internal(&p) => Err(format!("panicked: {p}")),
                Got::Panic(_) => Ok(()),
            }
        }
    }
}

/// What is called from outside.
#[derive(Clone, Copy, Debug)]
enum Out {
    Op(Op, Form),
    Read(usize, usize),
    Compare(usize, usize, usize),
    Feed(usize, Option<usize>, Feed),
}

fn out_text(o: Out) -> String {
    match o {
        Out::Op(op, f) => format!("{op:?} via {f:?}"),
        Out::Read(k, x) => format!("\"{}\" at {x}", READS[k].0),
        Out::Compare(k, x, y) => format!("\"{}\" of {x} and {y}", CMPS[k].0),
        Out::Feed(x, y, how) => format!("{how:?} of {x} into a builder for {y:?}"),
    }
}

enum Res2 {
    Op(Got),
    Text(Result<(), String>),
    Built(Result<(), String>, Option<Node<D>>),
    Panic(String),
}

fn call(w: &World, m: &Model, o: Out) -> Res2 {
    match o {
        Out::Op(op, f) => Res2::Op(ops::exec(w, op, f, 100 + m.len() as u32)),
        Out::Read(k, x) => match catch(|| READS[k].1(w, x)) {
            Ok(r) => Res2::Text(r),
            Err(p) => Res2::Panic(p),
        },
        Out::Compare(k, x, y) => match catch(|| CMPS[k].1(w, x, y)) {
            Ok(r) => Res2::Text(r),
            Err(p) => Res2::Panic(p),
        },
        Out::Feed(x, y, how) => match catch(|| {
            let mut b = match y {
                Some(y) => TreeBuilder::with_root(hot(&w.keep[y])),
                None => TreeBuilder::new(),
            };
            let r = feed(w, x, &mut b, how, 0);
            (r, b.finish_opt())
        }) {
            Ok((r, n)) => Res2::Built(r, n),
            Err(p) => Res2::Panic(p),
        },
    }
}

/// The number of calls into user code.
fn calls(m: &Model, o: Out) -> u64 {
    let w = World::build(m);
    hooked(&w.reg, 0, |_| (), || drop(call(&w, m, o))).1
}

fn one(m0: &Model, o: Out, i: In, k: u64, run: &mut Run) -> Res {
    let w = Rc::new(World::build(m0));
    let m = Rc::new(m0.clone());
    let verdict: Rc<RefCell<Option<Res>>> = Rc::default();
    let kept: Rc<RefCell<Vec<Node<D>>>> = Rc::default();
    let hook = {
        let (w, m, verdict, kept) = (w.clone(), m.clone(), verdict.clone(), kept.clone());
        move |what: &'static str| {
            let mut keep = vec![];
            let r = match catch(|| inside(&w, &m, o, i, &mut keep)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {p}")),
            };
            kept.borrow_mut().extend(keep);
            *verdict.borrow_mut() = Some(r.map_err(|e| format!("inside call {k} ({what}): {e}")));
        }
    };
    let (r, _) = hooked(&w.reg, k, hook, || call(&w, m0, o));
    let v = verdict.borrow_mut().take();
    match v {
        None => return Err("harness: the call was not made again".into()),
        Some(v) => v?,
    }
    let kept = kept.borrow_mut().drain(..).collect::<Vec<_>>();
    let mut w = Rc::try_unwrap(w).map_err(|_| "harness: shared")?;
    run.step(1);
    let after = |e: String| format!("after the action in call {k}: {e}");
    if let In::Edit(_) = i {
        let mut extra = kept;
        match r {
            Res2::Op(Got::Ok(Some(n))) => extra.push(n),
            Res2::Built(_, Some(n)) => extra.push(n),
            Res2::Op(Got::Panic(p)) | Res2::Panic(p) => {
                if p.contains("harness") {
                    return Err(p);
                }
                run.outcome = Some("the interrupted operation panics".into());
            }
            _ => {}
        }
        audit(&w, &extra, true).map_err(after)?;
        drop(extra);
        let mut h = Fnv::new();
        h.u(m0.hash()).s(&format!("{o:?}{i:?}")).u(k);
        run.state(h.get());
        return released(w).map_err(after);
    }
    // Nothing was changed: the outcome is the ordinary one.
    let mut m = m0.clone();
    match (o, r) {
        (_, Res2::Panic(p)) => return Err(after(format!("panicked: {p}"))),
        (Out::Op(op, f), Res2::Op(got)) => {
            let (exp, new) = ops::apply(&mut m, op, &|_| false, &|_| false);
            if ops::judge(&exp, f, &got).map_err(after)? {
                if let (Got::Ok(Some(n)), Exp::Ok) = (got, exp) {
                    w.bind_nodes(&m, n, &new).map_err(after)?;
                }
            } else {
                m = m0.clone();
            }
        }
        (_, Res2::Text(r)) => r.map_err(after)?,
        (Out::Feed(x, y, _), Res2::Built(r, n)) => {
            r.map_err(after)?;
            let size = m0.preorder(x).len();
            let new = prefix(&mut m, x, y, size);
            let n = n.ok_or_else(|| after("nothing was built".into()))?;
            let n = match y {
                None => n,
                Some(_) => n.last_child().ok_or_else(|| after("nothing was inserted".into()))?,
            };
            w.bind_nodes(&m, n, &new).map_err(after)?;
        }
        _ => return Err("harness: outcome".into()),
    }
    w.bind_trees(&m);
    obs::nav_plain_all(&w, &m).map_err(after)?;
    obs::data_all(&w, &m).map_err(after)?;
    audit(&w, &[], true).map_err(after)?;
    let mut h = Fnv::new();
    h.u(m.hash()).s(&format!("{o:?}{i:?}")).u(k);
    run.state(h.get());
    released(w).map_err(after)
}

/// An edit inside call `k`, and inside the `d`-th call after it a look at every tree and possibly
/// another edit.
fn two(m0: &Model, o: Out, i: In, k: u64, d: u64, j: Option<In>, run: &mut Run) -> Res {
    let w = Rc::new(World::build(m0));
    let m = Rc::new(m0.clone());
    let verdict: Rc<RefCell<Vec<String>>> = Rc::default();
    let kept: Rc<RefCell<Vec<Node<D>>>> = Rc::default();
    let act = {
        let (w, m, verdict, kept) = (w.clone(), m.clone(), verdict.clone(), kept.clone());
        Rc::new(move |i: Option<In>, at: &str| {
            let r = catch(|| {
                if let Some(i) = i {
                    let mut keep = vec![];
                    let r = inside(&w, &m, o, i, &mut keep);
                    kept.borrow_mut().extend(keep);
                    r?;
                }
                let held: Vec<Node<D>> = kept.borrow().clone();
                audit(&w, &held, false)
            });
            if let Err(e) = r.unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
                verdict.borrow_mut().push(format!("{at}: {e}"));
            }
        })
    };
    let hook = {
        let (w, act) = (w.clone(), act.clone());
        move |what: &'static str| {
            act(Some(i), &format!("inside call {k} ({what})"));
            *w.reg.hook.borrow_mut() = Some((d, Box::new(move |what: &'static str| act(j, &format!("inside the {d}. call after call {k} ({what})")))));
        }
    };
    let (r, _) = hooked(&w.reg, k, hook, || call(&w, m0, o));
    drop(act);
    if let Some(e) = verdict.borrow_mut().pop() {
        return Err(e);
    }
    let mut extra = kept.borrow_mut().drain(..).collect::<Vec<_>>();
    let w = Rc::try_unwrap(w).map_err(|_| "harness: shared")?;
    run.step(1);
    match r {
        Res2::Op(Got::Ok(Some(n))) => extra.push(n),
        Res2::Built(_, Some(n)) => extra.push(n),
        Res2::Op(Got::Panic(p)) | Res2::Panic(p) => {
            if p.contains("harness") {
                return Err(p);
            }
            run.outcome = Some("the interrupted operation panics".into());
        }
        _ => {}
    }
    let after = |e: String| format!("after the actions in call {k} and {d} calls later: {e}");
    audit(&w, &extra, true).map_err(after)?;
    drop(extra);
    let mut h = Fnv::new();
    h.u(m0.hash()).s(&format!("{o:?}{i:?}{j:?}")).u(k).u(d);
    run.state(h.get());
    released(w).map_err(after)
}

/// Every edit inside every call, and a second one inside every later call.
fn twice(cx: &mut Cx, n: usize, outs: &[Out], edits: &[In], m: &Model) {
    let endless = |o: Out, i: In| {
        let (Out::Feed(x, Some(y), _), In::Edit(Op::Move { x: b, a, .. })) = (o, i) else { return false };
        let (b, a) = (m.n[b].tree, m.n[a].tree);
        (a, b) == (m.n[x].tree, m.n[y].tree) || (b, a) == (m.n[x].tree, m.n[y].tree)
    };
    // One of each kind of operation.
    let kind = |o: Out| match o {
        Out::Op(op, f) => ops::forms(op, m)[0] == f,
        Out::Read(k, _) => ["pretty print Display", "print subtree", "events collected as they come, hot", "traversal collected"].contains(&READS[k].0),
        Out::Compare(k, ..) => ["try_eq", "tree == tree"].contains(&CMPS[k].0),
        Out::Feed(..) => true,
    };
    let light = |i: In| match i {
        In::Edit(Op::Detach { .. } | Op::Replace { .. }) => true,
        In::Edit(Op::Move { as_, .. }) => matches!(as_, mc::model::As::Last | mc::model::As::Prev),
        _ => false,
    };
    for &o in outs.iter().filter(|&&o| kind(o)) {
        if !cx.task() {
            continue;
        }
        let c = calls(m, o);
        for k in (1..c).filter(|&k| c < 8 || k <= 3 || k == c / 2) {
            for &i in edits.iter().filter(|&&i| !endless(o, i)) {
                for d in (1..=c - k).filter(|&d| c < 8 || d <= 2 || d == c - k) {
                    let second = edits.iter().filter(|&&j| (n < 3 || cx.thorough() && light(j)) && !endless(o, j)).map(|&j| Some(j));
                    for j in [None].into_iter().chain(second).collect::<Vec<_>>() {
                        cx.case(
                            || format!("forest {}: {}; call {k} {}; {d} calls later looks around{}", m.show(), out_text(o), inner_text(i), j.map_or(String::new(), |j| format!(", then {}", inner_text(j)))),
                            |run| two(m, o, i, k, d, j, run),
                        );
                    }
                }
            }
            if cx.finished() {
                return;
            }
        }
    }
}

/// Shapes beyond the small ones: everything is looked at inside calls at the ends, in the middle and
/// around powers of two, and actions at extreme places are taken inside some.
fn large(cx: &mut Cx) {
    let mut shapes: Vec<(String, shape::Shape)> = vec![];
    let sizes: &[usize] = if cx.thorough() { &[8, 12, 20, 33, 65] } else { &[8, 20] };
    for &n in sizes {
        for (name, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            shapes.push((format!("{name} with {} nodes", s.len()), s));
        }
    }
    for n in [65, 257] {
        for (name, s) in shape::families(n) {
            if matches!(name, "chain" | "star") {
                shapes.push((format!("{name} with {n} nodes"), s));
            }
        }
    }
    for (name, s) in shapes {
        let n = s.len();
        let mut m = Model::default();
        m.add_tree(&s);
        // A tree like the first, for comparisons.
        m.add_tree(&s);
        for q in &mut m.n {
            q.val = 7;
        }
        let read = |k: usize| !READS[k].0.contains("data is borrowed");
        let mut outs: Vec<Out> = vec![];
        for op in ops::ops_on(&m, &[0, n - 1], &[n - 1, n], true) {
            if matches!(op, Op::CloneIns { .. } | Op::CloneSub { .. } | Op::CloneTree { .. }) {
                outs.push(Out::Op(op, ops::forms(op, &m)[0]));
            }
        }
        for x in [0, 1] {
            outs.extend((0..READS.len()).filter(|&k| read(k)).map(|k| Out::Read(k, x)));
            outs.extend((0..CMPS.len()).map(|k| Out::Compare(k, x, n + x)));
            outs.extend(FEEDS.map(|h| Out::Feed(x, Some(n), h)));
            outs.extend(FEEDS.map(|h| Out::Feed(x, None, h)));
        }
        let mut acts: Vec<In> = vec![];
        if n < 40 {
            for x in [0, n / 2] {
                acts.extend((0..READS.len()).filter(|&k| read(k)).map(|k| In::Read(k, x)));
                acts.extend((0..CMPS.len()).map(|k| In::Compare(k, x, n + x)));
            }
            for op in ops::ops_on(&m, &[0, n - 1], &[n], true) {
                match op {
                    Op::CloneSub { .. } | Op::CloneTree { .. } => acts.push(In::Copy(op, ops::forms(op, &m)[0])),
                    Op::Move { .. } => {}
                    _ => acts.push(In::Edit(op)),
                }
            }
        }
        for o in outs {
            if !cx.task() {
                continue;
            }
            let c = calls(&m, o);
            for k in points(c, m.len()) {
                cx.case(|| format!("{name}, twice: {}; call {k} {}", out_text(o), inner_text(In::Look)), |run| one(&m, o, In::Look, k, run));
            }
            for &i in &acts {
                for k in [1, c / 2, c] {
                    if k > 0 {
                        cx.case(|| format!("{name}, twice: {}; call {k} {}", out_text(o), inner_text(i)), |run| one(&m, o, i, k, run));
                    }
                }
            }
        }
    }
}

pub fn c25(cx: &mut Cx) {
    if cx.lighter == 0 || cx.thorough() {
        large(cx);
    }
    let plain = |op: Op| matches!(op, Op::CloneSub { .. } | Op::CloneTree { .. });
    for n in 1..=cx.size(4, 5) {
        for f in shape::forests(n) {
            // All data equal, so that comparisons go on as far as possible.
            let mut m = Model::from_forest(&f);
            for q in &mut m.n {
                q.val = 7;
            }
            let mut outs: Vec<Out> = vec![];
            for op in ops::all_ops(&m, true) {
                if matches!(op, Op::CloneIns { .. } | Op::CloneSub { .. } | Op::CloneTree { .. }) {
                    outs.extend(ops::forms(op, &m).iter().map(|&f| Out::Op(op, f)));
                }
            }
            for x in 0..n {
                outs.extend((0..READS.len()).filter(|&k| !READS[k].0.contains("data is borrowed")).map(|k| Out::Read(k, x)));
                for y in 0..n {
                    outs.extend((0..CMPS.len()).filter(|&k| !CMPS[k].0.starts_with("node == frozen") || m.n[x].tree != m.n[y].tree).map(|k| Out::Compare(k, x, y)));
                    if m.n[x].tree != m.n[y].tree {
                        outs.extend(FEEDS.map(|h| Out::Feed(x, Some(y), h)));
                    }
                }
                outs.extend(FEEDS.map(|h| Out::Feed(x, None, h)));
            }
            let mut looks: Vec<In> = vec![In::Look];
            for x in 0..n {
                // The one that borrows exclusively itself cannot go on in a call.
                looks.extend((0..READS.len()).filter(|&k| !READS[k].0.contains("data is borrowed")).map(|k| In::Read(k, x)));
                for y in 0..n {
                    looks.extend((0..CMPS.len()).filter(|&k| m.n[x].tree != m.n[y].tree || !CMPS[k].0.contains("== frozen")).map(|k| In::Compare(k, x, y)));
                }
            }
            let mut edits: Vec<In> = vec![];
            for op in ops::all_ops(&m, true) {
                if plain(op) {
                    looks.extend(ops::forms(op, &m).iter().map(|&f| In::Copy(op, f)));
                } else {
                    edits.push(In::Edit(op));
                }
            }
            if n <= 3 {
                twice(cx, n, &outs, &edits, &m);
            }
            for o in outs {
                if !cx.task() {
                    continue;
                }
                let c = calls(&m, o);
                for k in 1..=c {
                    // Everything inside the first and the last call, looking around inside all.
                    for (j, &i) in looks.iter().enumerate() {
                        if j > 0 && n >= cx.size(4, 5) && k > 1 {
                            break;
                        }
                        cx.case(|| format!("forest {}: {}; call {k} {}", m.show(), out_text(o), inner_text(i)), |run| one(&m, o, i, k, run));
                    }
                    if n >= cx.size(4, 5) && k > 1 {
                        continue;
                    }
                    for &i in &edits {
                        if let (Out::Feed(x, Some(y), _), In::Edit(Op::Move { x: b, a, .. })) = (o, i) {
                            let (b, a) = (m.n[b].tree, m.n[a].tree);
                            if (a, b) == (m.n[x].tree, m.n[y].tree) || (b, a) == (m.n[x].tree, m.n[y].tree) {
                                continue;
                            }
                        }
                        cx.case(|| format!("forest {}: {}; call {k} {}", m.show(), out_text(o), inner_text(i)), |run| one(&m, o, i, k, run));
                    }
                }
                if cx.finished() {
                    return;
                }
            }
        }
    }
}
