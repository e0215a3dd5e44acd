//! C01-C04: hierarchy edits over all small forests.

use dendron::{HotNode, Node};
use mc::large;
use mc::model::{Exp, Model};
use mc::obs;
use mc::ops::{self, Form, Op};
use mc::shape;
use mc::sup::{self, Check, Cx, Res};
use mc::world::World;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum P {
    C01,
    C02,
    C03,
    C04,
}

fn final_check(p: P, w: &World, m: &Model) -> Res {
    match p {
        P::C01 => {
            let d = obs::derive(w, m)?;
            obs::nav_all(w, &d)?;
            obs::walks(w, &d)?;
            w.check_alive()
        }
        P::C02 => {
            obs::nav_all(w, m)?;
            obs::walks(w, m)?;
            obs::data_all(w, m)
        }
        P::C03 => {
            obs::nav_all(w, m)?;
            obs::membership_all(w, m)?;
            obs::data_all(w, m)?;
            obs::neutral_all(w, m)?;
            // Nothing extra was kept: exactly the nodes of the model hold data.
            let live = w.reg.live.get();
            if live != m.len() {
                return Err(format!("{live} data values are alive, expected {}", m.len()));
            }
            Ok(())
        }
        P::C04 => obs::membership_all(w, m),
    }
}

/// Identity of trees while very many others come and go, or stay.
fn many_trees(n: usize, how: usize, keep: bool, run: &mut sup::Run) -> Res {
    let tree = |i: usize, at: &HotNode<u32>| -> Node<u32> {
        match how {
            0 => Node::new_tree(i as u32),
            1 => {
                let c = at.create_as_last_child(i as u32).plain();
                c.detach_subtree(&at.extract_hierarchy_edit_grant());
                c
            }
            2 => at.clone_subtree(),
            _ => at.tree().clone_tree().root(),
        }
    };
    let at = HotNode::new_tree(0u32);
    let a = tree(1, &at);
    let ta = a.tree();
    let wa = ta.downgrade();
    let g = ta.grant_hierarchy_edit().expect("harness: grantable");
    let p = at.tree();
    let mut kept = vec![];
    for i in 0..n {
        let b = tree(i, &at);
        let tb = b.tree();
        let e = |what: &str| Err(format!("after {i} other trees: {what}"));
        if ta.ptr_eq(&tb) || tb.ptr_eq(&ta) || p.ptr_eq(&tb) {
            return e("a new tree is taken for an old one by Tree::ptr_eq");
        }
        if a.belongs_to(&tb) || b.belongs_to(&ta) || b.belongs_to_same_tree(&a) || a.belongs_to_same_tree(&b) {
            return e("nodes of different trees are said to belong together");
        }
        if a.ptr_eq(&b) || !tb.root().ptr_eq(&b) || !b.belongs_to(&tb) || !b.is_root() {
            return e("the new tree is not that of its root");
        }
        if g.is_valid_for_node(&b) || !g.is_valid_for_node(&a) {
            return e("a grant is valid for a node of another tree or not for its own");
        }
        if keep {
            kept.push(b);
        }
        if i % 4096 == 0 || i + 1 == n {
            let same = wa.upgrade().is_some_and(|t| t.ptr_eq(&ta)) && ta.ptr_eq(&a.tree()) && a.tree().ptr_eq(&ta);
            if !same || !ta.root().ptr_eq(&a) {
                return e("the old tree is not itself any more");
            }
        }
    }
    run.step(n as u64);
    let mut h = mc::sup::Fnv::new();
    h.s("many trees").u(n as u64).u(how as u64).u(keep as u64);
    run.state(h.get());
    Ok(())
}

fn text(m: &Model, held: bool, seq: &[(Op, Form)]) -> String {
    let mut s = format!("forest {}{}", m.show(), if held { " with tree handles held" } else { "" });
    for (o, f) in seq {
        s.push_str(&format!("\n{o:?} via {}{:?}{}", if f.panicking { "panicking " } else { "" }, f.fl, if f.specific { " (specific)" } else { "" }));
    }
    s
}

fn run_seq(p: P, m0: &Model, held: bool, seq: &[(Op, Form)], run: &mut mc::sup::Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    if held {
        w.hold_trees(&m);
    }
    for &(o, f) in seq {
        ops::step(&mut w, &mut m, o, f)?;
        run.step(1);
    }
    final_check(p, &w, &m)?;
    run.state(m.hash());
    Ok(())
}

/// One edit while the user holds handles of the nodes in `kept` only; everything else is reached
/// from them afterwards.
fn run_thin(p: P, m0: &Model, op: Op, form: Form, kept: u32, run: &mut mc::sup::Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let has = |x: usize| kept >> x & 1 == 1;
    let other = |w: &World| dendron::Node::new_tree(mc::data::D::new(&w.reg, 9999));
    // Forgets a tree nobody refers to.
    let bury = |w: &mut World, m: &mut Model, t: usize| {
        m.roots[t] = None;
        for y in 0..m.len() {
            if m.n[y].alive && m.n[y].tree == t {
                m.n[y].alive = false;
                w.tag[y] = w.keep[y].borrow_data().tag;
            }
        }
    };
    for y in 0..m.len() {
        if !has(y) {
            w.keep[y] = other(&w);
        }
    }
    for t in 0..m.roots.len() {
        if !(0..m.len()).any(|y| has(y) && m.n[y].tree == t) {
            bury(&mut w, &mut m, t);
        }
    }
    let got = ops::exec(&w, op, form, 100 + m.len() as u32);
    run.step(1);
    let (exp, new) = ops::apply(&mut m, op, &|_| false, &|_| false);
    ops::judge(&exp, form, &got)?;
    while w.keep.len() < m.len() {
        w.keep.push(other(&w));
        w.tag.push(u32::MAX);
    }
    let mut known: Vec<usize> = (0..m0.len()).filter(|&y| has(y)).collect();
    if let ops::Got::Ok(Some(n)) = got {
        let Some(&y) = new.first() else { return Err("harness: result kind".into()) };
        known.push(y);
        w.keep[y] = n;
    }
    for t in 0..m.roots.len() {
        let Some(r) = m.roots[t] else { continue };
        let Some(&k) = known.iter().find(|&&k| m.n[k].tree == t) else {
            bury(&mut w, &mut m, t);
            continue;
        };
        let mut h = w.keep[k].clone();
        let mut up = k;
        while let Some(q) = m.parent(up) {
            h = h.parent().ok_or_else(|| format!("node {up} has no parent, expected {q}"))?;
            up = q;
        }
        if h.parent().is_some() {
            return Err(format!("the root {r} has a parent"));
        }
        let mut todo = vec![(r, h)];
        while let Some((y, h)) = todo.pop() {
            let tag = h.try_borrow_data().map_err(|_| format!("data of node {y} is borrowed"))?.tag;
            if w.tag[y] == u32::MAX {
                w.tag[y] = tag;
            } else if w.tag[y] != tag {
                return Err(format!("at the place of node {y} is another node"));
            }
            let mut c = h.first_child();
            for &z in &m.n[y].kids {
                let cz = c.ok_or_else(|| format!("node {y} lacks the child {z}"))?;
                c = cz.next_sibling();
                todo.push((z, cz));
            }
            if c.is_some() {
                return Err(format!("node {y} has more children than expected"));
            }
            if known.contains(&y) {
                if !w.keep[y].ptr_eq(&h) {
                    return Err(format!("at the place of node {y} is another node"));
                }
            } else {
                w.keep[y] = h;
            }
        }
    }
    w.bind_trees(&m);
    final_check(p, &w, &m)?;
    let mut h = mc::sup::Fnv::new();
    h.u(m.hash()).u(kept as u64);
    run.state(h.get());
    Ok(())
}

/// Every edit with every set of at most `extra` further handles besides those of the nodes edited.
pub fn thin(cx: &mut Cx, p: P, n: usize, extra: u32) {
    for f in shape::forests(n) {
        let m = Model::from_forest(&f);
        for op in ops::all_ops(&m, true) {
            if !cx.task() {
                continue;
            }
            let mut m2 = m.clone();
            let (exp, _) = ops::apply(&mut m2, op, &|_| false, &|_| false);
            let wanted = match p {
                P::C01 | P::C04 => true,
                P::C02 => exp == Exp::Ok,
                P::C03 => exp != Exp::Ok,
            };
            if !wanted {
                continue;
            }
            let (x, a) = match op {
                Op::Create { x, .. } | Op::IntP { x } | Op::IntC { x } | Op::Detach { x } | Op::Replace { x } | Op::CloneSub { x } => (x, x),
                Op::Move { x, a, .. } | Op::CloneIns { x, a, .. } => (x, a),
                Op::CloneTree { t } => (m.roots[t].expect("live"), m.roots[t].expect("live")),
            };
            let forms = ops::forms(op, &m);
            for set in 0..1u32 << n {
                if set >> x & 1 == 0 || set >> a & 1 == 0 || set.count_ones() > extra + 1 + u32::from(x != a) {
                    continue;
                }
                for &form in &[forms[0], forms[forms.len() - 1]] {
                    cx.case(
                        || format!("{}\nonly handles of {:?} held", text(&m, false, &[(op, form)]), (0..n).filter(|i| set >> i & 1 == 1).collect::<Vec<_>>()),
                        |run| run_thin(p, &m, op, form, set, run),
                    );
                }
            }
        }
    }
}

/// All sequences of exactly `depth` edits from `m0`.
fn sequences(cx: &mut Cx, p: P, m0: &Model, held: bool, depth: usize, last_forms: bool) {
    fn rec(
        cx: &mut Cx,
        p: P,
        m0: &Model,
        held: bool,
        m: &Model,
        seq: &mut Vec<(Op, Form)>,
        left: usize,
        last_forms: bool,
        top: bool,
    ) {
        let clones = p != P::C01 || left == 1;
        for op in ops::all_ops(m, clones) {
            if top && !cx.task() {
                continue;
            }
            if cx.finished() {
                return;
            }
            let mut m2 = m.clone();
            let (exp, _) = ops::apply(&mut m2, op, &|t| held && t < m0.roots.len(), &|_| false);
            if left > 1 {
                if exp != Exp::Ok {
                    continue;
                }
                seq.push((op, ops::forms(op, m)[0]));
                rec(cx, p, m0, held, &m2, seq, left - 1, last_forms, false);
                seq.pop();
                continue;
            }
            let wanted = match p {
                P::C01 | P::C04 => true,
                P::C02 => exp == Exp::Ok,
                P::C03 => exp != Exp::Ok,
            };
            if !wanted {
                continue;
            }
            let forms = ops::forms(op, m);
            let k = if last_forms { forms.len() } else { 1 };
            for &f in &forms[..k] {
                seq.push((op, f));
                {
                    let s: &[(Op, Form)] = seq;
                    cx.case(|| text(m0, held, s), |run| run_seq(p, m0, held, s, run));
                }
                seq.pop();
            }
        }
    }
    rec(cx, p, m0, held, m0, &mut vec![], depth, last_forms, true);
}

pub fn explore(cx: &mut Cx, p: P) {
    if p == P::C04 {
        for how in 0..4 {
            for keep in [false, true] {
                for n in cx.pick(vec![300, 65600], vec![300, 65600, 140_000]) {
                    if cx.task() {
                        let h = ["created", "detached", "copied", "copied as a whole"][how];
                        cx.case(
                            || format!("{n} trees {h}{}", if keep { ", and kept" } else { "" }),
                            |run| many_trees(n, how, keep, run),
                        );
                    }
                }
            }
        }
    }
    // Initial states themselves.
    let n0 = cx.pick(7, 8);
    for n in 1..=n0 {
        for f in shape::forests(n) {
            if cx.task() && p != P::C03 {
                let m = Model::from_forest(&f);
                cx.case(|| text(&m, false, &[]), |run| run_seq(p, &m, false, &[], run));
            }
        }
    }
    // (depth, max nodes, held, all forms for the last edit)
    let plan: &[(usize, usize, bool, bool)] = match (cx.thorough(), p) {
        (false, P::C01 | P::C02) => &[(1, 7, false, true), (2, 4, false, true), (3, 2, false, false)],
        (false, P::C03) => &[(1, 7, false, true), (2, 4, false, true), (3, 2, false, true), (1, 5, true, true), (2, 3, true, true)],
        (false, P::C04) => &[(1, 7, false, true), (2, 4, false, false), (2, 3, false, true), (3, 2, false, false), (1, 5, true, true), (2, 3, true, false)],
        (true, P::C03) => &[(1, 7, false, true), (2, 5, false, true), (3, 3, false, true), (1, 7, true, true), (2, 4, true, true)],
        (true, _) => &[(1, 7, false, true), (2, 5, false, true), (3, 3, false, false), (3, 2, false, true), (1, 6, true, true), (2, 4, true, true), (4, 1, false, false)],
    };
    for &(d, nmax, held, all) in plan {
        for n in 1..=nmax {
            for f in shape::forests(n) {
                let m = Model::from_forest(&f);
                sequences(cx, p, &m, held, d, all);
            }
        }
    }
    if p != P::C01 {
        for n in 1..=cx.pick(5, 6) {
            thin(cx, p, n, if n < 6 { cx.pick(1, 4) } else { 1 });
        }
    }
    if p == P::C03 {
        return;
    }
    // Large degenerate trees: one edit at the interesting places (plus a second small tree).
    let sizes: &[usize] = cx.pick(&[9, 16, 17, 33, 65], &[9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 257]);
    for &n in sizes {
        for (name, s) in shape::families(n) {
            let mut m = Model::default();
            m.add_tree(&s);
            m.add_tree(&vec![0, 0]);
            let mut xs = vec![0, 1, 2, n / 2, n - 2, n - 1];
            xs.dedup();
            let mut dests = xs.clone();
            dests.push(n);
            dests.push(n + 1);
            for op in ops::ops_on(&m, &dests, &dests, false) {
                if !cx.task() {
                    continue;
                }
                let forms = ops::forms(op, &m);
                for f in [forms[0], forms[forms.len() - 1]] {
                    cx.case(
                        || format!("{name} of {n} nodes plus a tree {n}({}): {op:?} via {f:?}", n + 1),
                        |run| {
                            let mut m = m.clone();
                            let mut w = World::build(&m);
                            ops::step(&mut w, &mut m, op, f)?;
                            run.step(1);
                            match p {
                                P::C01 => obs::nav_plain_all(&w, &obs::derive(&w, &m)?)?,
                                P::C02 => obs::nav_plain_all(&w, &m)?,
                                _ => {
                                    if n <= 33 {
                                        obs::membership_all(&w, &m)?
                                    } else {
                                        large::membership(&w, &m)?
                                    }
                                }
                            }
                            run.state(m.hash());
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    large_edits(cx, p);
    if p == P::C02 {
        mc::ops::anchors(cx);
        mc::kinds::explore(cx, mc::kinds::Part::Edit);
        mc::pump::edits(cx, mc::pump::Part::Edit);
    }
}

/// Trees whose depth or number of children lies around 2^8 and 2^16.
fn large_edits(cx: &mut Cx, p: P) {
    let mut shapes = shape::boundary(8, true);
    shapes.extend(shape::boundary(16, cx.pick(0, 1) == 1));
    for (name, s) in shapes {
        let n = s.len();
        let mut m = Model::default();
        m.add_tree(&s);
        m.add_tree(&shape::families(40)[if n % 2 == 0 { 0 } else { 1 }].1);
        let xs = if n < 1000 { vec![0, 1, 2, n - 2, n - 1] } else { vec![0, 1, n - 1] };
        let mut dests = if n < 1000 { vec![0, 1, n - 1] } else { vec![0, n - 1] };
        dests.push(n);
        if n < 1000 {
            dests.push(n + 39);
        }
        let mut ops_ = ops::ops_on(&m, &xs, &dests, false);
        ops_.extend(ops::ops_on(&m, &[n], &dests, false));
        for op in ops_ {
            if !cx.task() {
                continue;
            }
            let forms = ops::forms(op, &m);
            for f in [forms[0], forms[forms.len() - 1]] {
                if n > 1000 && f != forms[0] {
                    continue;
                }
                cx.case(
                    || format!("{name} plus a {} of 40 nodes from {n}: {op:?} via {f:?}", if n % 2 == 0 { "chain" } else { "star" }),
                    |run| {
                        let mut m = m.clone();
                        let mut w = World::build(&m);
                        ops::step(&mut w, &mut m, op, f)?;
                        // And an edit that leans on the count or the links just written.
                        let again = Op::Create { x: 0, as_: mc::model::As::Last };
                        let form = ops::forms(again, &m)[0];
                        ops::step(&mut w, &mut m, again, form)?;
                        run.step(2);
                        match p {
                            P::C04 => large::membership(&w, &m)?,
                            _ => large::nav(&w, &m)?,
                        }
                        run.state(m.hash());
                        Ok(())
                    },
                );
            }
        }
    }
}

const Q2: &str = "all forests up to 7 nodes (initial); every edit in every API form on every forest up to 7 nodes; every edit sequence of length 2 up to 4 nodes and of length 3 up to 2 nodes; degenerate trees up to 65 nodes with one edit at 8x8 places; two edits at the extreme places of chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; every edit from every forest up to 4 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit repeated 520 times (words of two: 262) from every forest up to 3 nodes (2), and words that restore the shape 65540 times; every edit of every forest up to 5 nodes while only the edited nodes and at most one other have handles";
const T2: &str = "all forests up to 8 nodes (initial); every edit in every API form up to 7 nodes; every edit sequence of length 2 up to 5 nodes, of length 3 up to 3 nodes, of length 4 from 1 node; degenerate trees up to 257 nodes with one edit at 8x8 places; two edits at the extreme places of all of these families around 2^8 and around 2^16; every edit from every forest up to 5 nodes, and at extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); every edit repeated 520 times and words of two edits 262 times from every forest up to 3 nodes, and words that restore the shape 65540 times; every edit of every forest up to 6 nodes while only the edited nodes and at most one other (up to 5 nodes: any others) have handles";
const Q1: &str = "all forests up to 7 nodes (initial); every edit in every API form on every forest up to 7 nodes; every edit sequence of length 2 up to 4 nodes and of length 3 up to 2 nodes; degenerate trees up to 65 nodes with one edit at 8x8 places; two edits at the extreme places of chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16";
const Q: &str = "all forests up to 7 nodes (initial); every edit in every API form on every forest up to 7 nodes; every edit sequence of length 2 up to 4 nodes and of length 3 up to 2 nodes; degenerate trees up to 65 nodes with one edit at 8x8 places; two edits at the extreme places of chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; every edit of every forest up to 5 nodes while only the edited nodes and at most one other have handles; identity of trees and nodes while 65600 other trees are created, detached or copied, and released or kept";
const T1: &str = "all forests up to 8 nodes (initial); every edit in every API form up to 7 nodes; every edit sequence of length 2 up to 5 nodes, of length 3 up to 3 nodes, of length 4 from 1 node; degenerate trees up to 257 nodes with one edit at 8x8 places; two edits at the extreme places of all of these families around 2^8 and around 2^16";
const T: &str = "all forests up to 8 nodes (initial); every edit in every API form up to 7 nodes; every edit sequence of length 2 up to 5 nodes, of length 3 up to 3 nodes, of length 4 from 1 node; degenerate trees up to 257 nodes with one edit at 8x8 places; two edits at the extreme places of all of these families around 2^8 and around 2^16; every edit of every forest up to 6 nodes while only the edited nodes and at most one other (up to 5 nodes: any others) have handles; identity of trees and nodes while 140000 other trees are created, detached or copied, and released or kept";
const A: &[&str] = &[
    "the reference model of ordered forests in mc/src/model.rs states the documented effects",
    "prefix edits of longer sequences use the plain fallible API form",
];

fn main() {
    sup::main(&[
        Check { id: "C01", f: |cx| explore(cx, P::C01), bounds_quick: Q1, bounds_thorough: T1, assumptions: A },
        Check { id: "C02", f: |cx| explore(cx, P::C02), bounds_quick: Q2, bounds_thorough: T2, assumptions: A },
        Check { id: "C03", f: |cx| explore(cx, P::C03), bounds_quick: Q, bounds_thorough: T, assumptions: A },
        Check { id: "C04", f: |cx| explore(cx, P::C04), bounds_quick: Q, bounds_thorough: T, assumptions: A },
    ]);
}
