//! C18: borrows of node data, and edits and navigation while data is borrowed.

use std::cell::{Ref, RefMut};

use dendron::{FrozenNode, HotNode, Node};
use mc::data::D;
use mc::model::{Exp, Model};
use mc::obs;
use mc::ops::{self, Form, Op};
use mc::shape;
use mc::sup::{catch, Cx, Fnv, Res, Run};
use mc::world::World;

pub const Q: &str = "every history of acquiring and releasing shared and exclusive borrows through every handle flavour and form, up to length 5 on 1 node, 4 on 2 and 3 on 3 nodes in every lock state; every edit in every API form from every forest up to 4 nodes in every assignment of no, shared and exclusive borrow to the nodes (5 nodes: at most 2 borrows or all alike), with the borrows kept across the edit; pairs of edits up to 2 nodes; one borrow of every node of every tree up to 4 nodes with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit of every forest up to 4 nodes of five kinds of data while all data are exclusively borrowed, or all but one node's (up to 3 nodes)";
pub const T: &str = "every history of acquiring and releasing shared and exclusive borrows through every handle flavour and form, up to length 6 on 1 node, 5 on 2 and 4 on 3 nodes in every lock state; every edit in every API form from every forest up to 5 nodes in every assignment of no, shared and exclusive borrow to the nodes (6 nodes: at most 2 borrows or all alike), with the borrows kept across the edit; pairs of edits up to 3 nodes; one borrow of every node of every tree up to 5 nodes with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit of every forest up to 5 nodes of five kinds of data while all data are exclusively borrowed, or all but one node's (up to 3 nodes)";
pub const A: &[&str] = &["the reference model of ordered forests in mc/src/model.rs states the documented effects"];

pub enum H {
    P(Node<D>),
    H(HotNode<D>),
    F(FrozenNode<D>),
}
macro_rules! each {
    ($s:expr, $h:ident => $e:expr) => {
        match $s {
            H::P($h) => $e,
            H::H($h) => $e,
            H::F($h) => $e,
        }
    };
}
impl H {
    fn try_s(&self) -> Option<Ref<'_, D>> {
        each!(self, h => h.try_borrow_data().ok())
    }
    fn try_x(&self) -> Option<RefMut<'_, D>> {
        each!(self, h => h.try_borrow_data_mut().ok())
    }
    fn s(&self) -> Ref<'_, D> {
        each!(self, h => h.borrow_data())
    }
    fn x(&self) -> RefMut<'_, D> {
        each!(self, h => h.borrow_data_mut())
    }
    fn name(&self) -> &'static str {
        match self {
            H::P(_) => "Node",
            H::H(_) => "HotNode",
            H::F(_) => "FrozenNode",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lock {
    No,
    Granted,
    Prohibited,
}

/// Two handles per node: the plain one, and a second that depends on the lock state (a plain one
/// reached by navigation, a hot one, a frozen one).
fn handles(m: &Model, w: &World, lock: Lock) -> Result<Vec<H>, String> {
    let mut v = vec![];
    for x in 0..m.len() {
        v.push(H::P(w.keep[x].clone()));
        v.push(match lock {
            Lock::No => {
                // From the root down.
                let mut path = vec![x];
                while let Some(p) = m.parent(path[path.len() - 1]) {
                    path.push(p);
                }
                let mut n = w.keep[x].tree().root();
                for y in path.iter().rev().skip(1) {
                    n = n.children().nth(m.pos(*y).0).ok_or("no such child")?;
                }
                H::P(n)
            }
            Lock::Granted => H::H(w.keep[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "not grantable")?),
            Lock::Prohibited => {
                H::F(w.keep[x].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "not freezable")?)
            }
        });
    }
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    /// Shared borrow through handle `h`; `p`: panicking form.
    S { h: usize, p: bool },
    X { h: usize, p: bool },
    Release(usize),
}

enum G<'a> {
    S(Ref<'a, D>),
    X(RefMut<'a, D>),
}

fn free(shared: &[u32], excl: &[bool], x: usize) -> (bool, bool) {
    (!excl[x], !excl[x] && shared[x] == 0)
}

fn probe(hs: &[H], shared: &[u32], excl: &[bool], vals: &[u32]) -> Res {
    for (i, h) in hs.iter().enumerate() {
        let x = i / 2;
        let (rs, rx) = free(shared, excl, x);
        let say = |what: &str, got: bool| {
            Err(format!("{what} of node {x} through {} {}, with {} shared and {} exclusive borrows", h.name(),
                if got { "works" } else { "fails" }, shared[x], excl[x] as u32))
        };
        let got = h.try_s();
        if got.is_some() != rs {
            return say("try_borrow_data", got.is_some());
        }
        if let Some(d) = got {
            if d.val != vals[x] {
                return Err(format!("node {x} reads {} through {}, expected {}", d.val, h.name(), vals[x]));
            }
        }
        let got = h.try_x().is_some();
        if got != rx {
            return say("try_borrow_data_mut", got);
        }
        let got = catch(|| drop(h.s())).is_ok();
        if got != rs {
            return say("borrow_data", got);
        }
        let got = catch(|| drop(h.x())).is_ok();
        if got != rx {
            return say("borrow_data_mut", got);
        }
    }
    Ok(())
}

fn history(m: &Model, lock: Lock, seq: &[St], run: &mut Run) -> Res {
    let w = World::build(m);
    let hs = handles(m, &w, lock)?;
    let n = m.len();
    let (mut shared, mut excl, mut vals) = (vec![0u32; n], vec![false; n], m.n.iter().map(|n| n.val).collect::<Vec<_>>());
    let mut guards: Vec<(usize, Option<G<'_>>)> = vec![];
    for (i, &s) in seq.iter().enumerate() {
        match s {
            St::S { h, p } => {
                let x = h / 2;
                let g = if p { catch(|| hs[h].s()).ok() } else { hs[h].try_s() };
                if g.is_some() != free(&shared, &excl, x).0 {
                    return Err(format!("step {i} {s:?}: {}", if g.is_some() { "succeeds" } else { "fails" }));
                }
                shared[x] += u32::from(g.is_some());
                guards.push((x, g.map(G::S)));
            }
            St::X { h, p } => {
                let x = h / 2;
                let g = if p { catch(|| hs[h].x()).ok() } else { hs[h].try_x() };
                if g.is_some() != free(&shared, &excl, x).1 {
                    return Err(format!("step {i} {s:?}: {}", if g.is_some() { "succeeds" } else { "fails" }));
                }
                excl[x] |= g.is_some();
                guards.push((x, g.map(G::X)));
            }
            St::Release(k) => {
                let x = guards[k].0;
                match guards[k].1.take() {
                    None => {}
                    Some(G::S(d)) => {
                        if d.val != vals[x] {
                            return Err(format!("step {i}: a shared borrow of {x} reads {}", d.val));
                        }
                        shared[x] -= 1;
                    }
                    Some(G::X(mut d)) => {
                        // What is written is seen by everyone from now on.
                        d.val = 1000 + i as u32;
                        vals[x] = d.val;
                        excl[x] = false;
                    }
                }
            }
        }
        probe(&hs, &shared, &excl, &vals).map_err(|e| format!("after {:?}: {e}", &seq[..=i]))?;
    }
    drop(guards);
    let none = (vec![0; n], vec![false; n]);
    probe(&hs, &none.0, &none.1, &vals).map_err(|e| format!("after all are released: {e}"))?;
    run.step(seq.len() as u64);
    let mut h = Fnv::new();
    h.u(m.hash());
    for x in 0..n {
        h.u(shared[x] as u64).u(excl[x] as u64);
    }
    run.state(h.get());
    drop(hs);
    obs::nav_plain_all(&w, m)
}

fn histories(cx: &mut Cx, m: &Model, lock: Lock, max: usize) {
    fn rec(cx: &mut Cx, m: &Model, lock: Lock, max: usize, seq: &mut Vec<St>, open: &mut Vec<bool>) {
        if seq.len() == 2.min(max) && !cx.task() {
            return;
        }
        if seq.len() == max {
            let s: &[St] = seq;
            cx.case(|| format!("{} {lock:?}: {s:?}", m.show()), |run| history(m, lock, s, run));
            return;
        }
        let mut next = vec![];
        for h in 0..2 * m.len() {
            for p in [false, true] {
                // The two forms of the second handle are covered by the probes after each step.
                next.push(St::S { h, p });
                next.push(St::X { h, p });
            }
        }
        for (k, o) in open.iter().enumerate() {
            if *o {
                next.push(St::Release(k));
            }
        }
        for s in next {
            seq.push(s);
            match s {
                St::Release(k) => {
                    open[k] = false;
                    rec(cx, m, lock, max, seq, open);
                    open[k] = true;
                }
                _ => {
                    open.push(true);
                    rec(cx, m, lock, max, seq, open);
                    open.pop();
                }
            }
            seq.pop();
        }
    }
    rec(cx, m, lock, max, &mut vec![], &mut vec![]);
}

/// 0: none, 1: shared, 2: exclusive, per node.
fn edit_under(m0: &Model, cfg: &[u8], seq: &[(Op, Form)], run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let hold = w.keep.clone();
    let mut guards: Vec<Option<G<'_>>> = cfg
        .iter()
        .enumerate()
        .map(|(x, c)| match c {
            0 => None,
            1 => Some(G::S(hold[x].borrow_data())),
            _ => Some(G::X(hold[x].borrow_data_mut())),
        })
        .collect();
    for &(op, form) in seq {
        let mut m2 = m.clone();
        let val = 100 + m.len() as u32;
        let (exp, new) = ops::apply(&mut m2, op, &|_| false, &|x| x < cfg.len() && cfg[x] == 2);
        let got = ops::exec(&w, op, form, val);
        let e = |e: String| format!("{op:?} via {form:?}: {e}");
        let done = ops::judge(&exp, form, &got).map_err(e)?;
        if done != (exp == Exp::Ok) {
            return Err("harness: verdict".into());
        }
        if done {
            m = m2;
            if let ops::Got::Ok(Some(n)) = got {
                w.bind_nodes(&m, n, &new).map_err(e)?;
            } else if !new.is_empty() {
                return Err(e("no node is returned".into()));
            }
        } else {
            drop(got);
        }
        w.bind_trees(&m);
        // Navigation and traversal keep their meaning now.
        obs::nav_all(&w, &m).map_err(e)?;
        obs::walks(&w, &m).map_err(e)?;
        obs::neutral_all(&w, &m).map_err(e)?;
        // The borrows are as before, everything else is free.
        for x in m.alive() {
            let c = cfg.get(x).copied().unwrap_or(0);
            if w.keep[x].try_borrow_data().is_ok() != (c < 2) || w.keep[x].try_borrow_data_mut().is_ok() != (c == 0) {
                return Err(e(format!("the borrow state of node {x} is disturbed")));
            }
        }
        w.check_alive().map_err(e)?;
        if w.reg.live.get() != m.len() {
            return Err(e(format!("{} data values live for {} nodes", w.reg.live.get(), m.len())));
        }
        run.step(1);
    }
    for (x, g) in guards.iter_mut().enumerate() {
        match g {
            None => {}
            Some(G::S(d)) => {
                if d.val != m0.n[x].val {
                    return Err(format!("the shared borrow of {x} reads {}", d.val));
                }
            }
            Some(G::X(d)) => {
                if d.val != m0.n[x].val {
                    return Err(format!("the exclusive borrow of {x} reads {}", d.val));
                }
                d.val += 5000;
                m.n[x].val += 5000;
            }
        }
    }
    drop(guards);
    obs::data_all(&w, &m)?;
    let mut h = Fnv::new();
    h.u(m.hash());
    for &c in cfg {
        h.u(c as u64);
    }
    run.state(h.get());
    Ok(())
}

fn configs(n: usize, all: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut c = vec![0u8; n];
    loop {
        let used = c.iter().filter(|x| **x > 0).count();
        if n <= all || used <= 2 || c.iter().all(|x| *x == c[0]) {
            v.push(c.clone());
        }
        let mut i = 0;
        while i < n {
            c[i] += 1;
            if c[i] < 3 {
                break;
            }
            c[i] = 0;
            i += 1;
        }
        if i == n {
            return v;
        }
    }
}

pub fn c18(cx: &mut Cx) {
    mc::kinds::borrowing(cx);
    mc::kinds::barred_edits(cx);
    for n in 1..=3usize {
        let max = cx.pick([5, 4, 3], [6, 5, 4])[n - 1];
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for lock in [Lock::No, Lock::Granted, Lock::Prohibited] {
                for len in 0..=max {
                    histories(cx, &m, lock, len);
                }
            }
        }
    }
    let all = cx.pick(4, 5);
    for n in 1..=cx.pick(5, 6) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for op in ops::all_ops(&m, true) {
                if !cx.task() {
                    continue;
                }
                if cx.finished() {
                    return;
                }
                for cfg in configs(n, all) {
                    let forms = ops::forms(op, &m);
                    let k = if n <= all { forms.len() } else { 1 };
                    for &form in &forms[..k] {
                        let s = [(op, form)];
                        cx.case(|| format!("{} borrowed {cfg:?}: {s:?}", m.show()), |run| edit_under(&m, &cfg, &s, run));
                    }
                }
                if n <= cx.pick(2, 3) {
                    for cfg in configs(n, n) {
                        let mut m2 = m.clone();
                        if ops::apply(&mut m2, op, &|_| false, &|x| cfg[x] == 2).0 != Exp::Ok {
                            continue;
                        }
                        for op2 in ops::all_ops(&m2, true) {
                            let s = [(op, ops::forms(op, &m)[0]), (op2, ops::forms(op2, &m2)[0])];
                            cx.case(|| format!("{} borrowed {cfg:?}: {s:?}", m.show()), |run| edit_under(&m, &cfg, &s, run));
                        }
                    }
                }
            }
        }
    }
}
