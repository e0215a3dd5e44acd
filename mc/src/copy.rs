//! C16: copies are complete, independent and all-or-nothing.

use mc::data::D;
use mc::model::{Exp, Model};
use mc::obs;
use mc::ops::{self, Form, Op};
use mc::shape;
use mc::sup::{catch, Cx, Fnv, Res, Run};
use mc::world::World;

use super::{exclusive, mask_nodes, subsets};

pub const Q: &str = "every subtree of every forest up to 6 nodes, cloned alone and to every destination in every API form, with every subset of exclusively borrowed nodes (up to 5 nodes; at most 2 or all beyond) and with all data shared-borrowed; independence by every single edit on copy and source and by every data write; degenerate trees up to 64 nodes with each node unreadable; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; every copy of every forest up to 4 nodes, and copies of extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); trees up to 5 nodes of five kinds of data with one unreadable node";
pub const T: &str = "every subtree of every forest up to 7 nodes, cloned alone and to every destination in every API form, with every subset of exclusively borrowed nodes (up to 6 nodes; at most 2 or all beyond) and with all data shared-borrowed; independence by every single edit on copy and source and by every data write; degenerate trees up to 129 nodes with each node unreadable; all of these families around 2^8 and around 2^16; every copy of every forest up to 5 nodes, and copies of extreme places of families up to 65 and around 2^8 nodes, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128); trees up to 6 nodes of five kinds of data with one unreadable node";
pub const A: &[&str] = &["node data are values whose clone is equal to the original"];

/// Locks held on the tree of the source while it is cloned alone.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    No,
    Granted,
    Prohibited,
}

fn one(m0: &Model, op: Op, form: Form, mask: u32, shared: bool, lock: L, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let hold = w.keep.clone();
    let (exp, new) = ops::apply(&mut m, op, &|_| false, &|x| super::has(mask, x));
    let src = match op {
        Op::CloneSub { x } | Op::CloneIns { x, .. } => x,
        Op::CloneTree { t } => m0.roots[t].ok_or("harness")?,
        _ => return Err("harness".into()),
    };
    let tree = hold[src].tree();
    let grant = (lock == L::Granted).then(|| tree.grant_hierarchy_edit().expect("harness"));
    let prohib = (lock == L::Prohibited).then(|| tree.prohibit_hierarchy_edit().expect("harness"));
    let ex = exclusive(&hold, mask);
    let sh: Vec<_> = if shared { hold.iter().map(|n| n.borrow_data()).collect() } else { vec![] };
    let got = ops::exec(&w, op, form, 0);
    drop((ex, sh));
    let done = ops::judge(&exp, form, &got)?;
    let live = w.reg.live.get();
    if done != (exp == Exp::Ok) {
        return Err("harness: verdict".into());
    }
    if done {
        let root = match got {
            ops::Got::Ok(Some(n)) => n,
            _ => return Err("no node is returned".into()),
        };
        w.bind_nodes(&m, root, &new)?;
    } else {
        drop(got);
        m = m0.clone();
    }
    if live != m.len() {
        return Err(format!("{live} data values live, expected {}", m.len()));
    }
    w.bind_trees(&m);
    let g = tree.grant_hierarchy_edit().is_ok();
    let p = tree.prohibit_hierarchy_edit().is_ok();
    if (g, p) != (lock != L::Prohibited, lock != L::Granted) {
        return Err("the locks of the source changed".into());
    }
    if done && lock != L::No {
        // The copy knows nothing of the locks of the source.
        let t = w.keep[new[0]].tree();
        let g = t.grant_hierarchy_edit().is_ok();
        let p = t.prohibit_hierarchy_edit().is_ok();
        if !g || !p {
            return Err("the copy is locked with its source".into());
        }
    }
    drop((grant, prohib, tree));
    obs::neutral_all(&w, &m)?;
    obs::nav_plain_all(&w, &m)?;
    obs::data_all(&w, &m)?;
    obs::membership_all(&w, &m)?;
    w.check_alive()?;
    // Data is not shared: every single write is seen there only.
    if done && mask == 0 && !shared {
        for x in 0..m.len() {
            let old = w.keep[x].borrow_data().val;
            w.keep[x].borrow_data_mut().val = 7777;
            for y in 0..m.len() {
                if (w.keep[y].borrow_data().val == 7777) != (x == y) {
                    return Err(format!("a write to node {x} is seen at node {y}"));
                }
            }
            w.keep[x].borrow_data_mut().val = old;
        }
        run.step(m.len() as u64);
    }
    run.step(1);
    let mut h = Fnv::new();
    h.u(m.hash()).u(mask as u64);
    run.state(h.get());
    drop(hold);
    let reg = w.reg.clone();
    drop(w);
    if reg.live.get() != 0 {
        return Err(format!("{} values are not released at the end", reg.live.get()));
    }
    Ok(())
}

/// Copy, then one edit: copy and source do not follow each other.
fn then(m0: &Model, op: Op, op2: Op, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    ops::step(&mut w, &mut m, op, ops::forms(op, m0)[0])?;
    let f = ops::forms(op2, &m)[0];
    ops::step(&mut w, &mut m, op2, f)?;
    obs::nav_plain_all(&w, &m)?;
    obs::data_all(&w, &m)?;
    obs::membership_all(&w, &m)?;
    w.check_alive()?;
    run.step(2);
    run.state(m.hash());
    Ok(())
}

fn clone_ops(m: &Model) -> Vec<Op> {
    ops::all_ops(m, true)
        .into_iter()
        .filter(|o| matches!(o, Op::CloneIns { .. } | Op::CloneSub { .. } | Op::CloneTree { .. }))
        .collect()
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

pub fn c16(cx: &mut Cx) {
    let nmax = cx.pick(6, 7);
    let all = cx.pick(5, 6);
    for n in 1..=nmax {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for op in clone_ops(&m) {
                if !cx.task() {
                    continue;
                }
                if cx.finished() {
                    return;
                }
                let forms = ops::forms(op, &m);
                for mask in subsets(n, all) {
                    for (i, &form) in forms.iter().enumerate() {
                        if mask.count_ones() > 1 && n > 3 && i > 1 {
                            continue;
                        }
                        let locks: &[L] = match op {
                            Op::CloneIns { .. } => &[L::No],
                            _ if mask != 0 => &[L::No],
                            _ => match form.fl {
                                ops::Fl::Plain => &[L::No, L::Granted, L::Prohibited],
                                ops::Fl::Hot => &[L::No, L::Granted],
                                ops::Fl::Frozen => &[L::No, L::Prohibited],
                            },
                        };
                        for &lock in locks {
                            cx.case(
                                || format!("{}: {op:?} via {form:?}, unreadable {:?}, source {lock:?}", m.show(), mask_nodes(mask, n)),
                                |run| guarded(|| one(&m, op, form, mask, false, lock, run)),
                            );
                        }
                        if mask == 0 {
                            cx.case(
                                || format!("{}: {op:?} via {form:?}, all data shared-borrowed", m.show()),
                                |run| guarded(|| one(&m, op, form, 0, true, L::No, run)),
                            );
                        }
                    }
                }
                // Independence.
                if n <= cx.pick(3, 4) {
                    let mut m2 = m.clone();
                    if ops::apply_simple(&mut m2, op).0 == Exp::Ok {
                        for op2 in ops::all_ops(&m2, true) {
                            cx.case(|| format!("{}: {op:?}, then {op2:?}", m.show()), |run| guarded(|| then(&m, op, op2, run)));
                        }
                    }
                }
            }
        }
    }
    let sizes: &[usize] = cx.pick(&[9, 33, 64], &[9, 16, 17, 32, 33, 63, 64, 65, 128, 129]);
    for &n in sizes {
        for (name, s) in shape::families(n) {
            let mut m = Model::from_forest(&[s.clone()]);
            m.add_tree(&vec![0, 0]);
            let mut ops_: Vec<Op> = vec![];
            for x in [0, 1, n / 2, n - 1] {
                ops_.push(Op::CloneSub { x });
                for a in [0, n / 2, n - 1, n, n + 1] {
                    for as_ in mc::model::AS {
                        ops_.push(Op::CloneIns { x, as_, a });
                    }
                }
            }
            for op in ops_ {
                if !cx.task() {
                    continue;
                }
                for form in [ops::forms(op, &m)[0], ops::forms(op, &m)[2]] {
                    cx.case(
                        || format!("{name} of {n} nodes and a tree {n}({}): {op:?} via {form:?}", n + 1),
                        |run| guarded(|| large(&m, op, form, None, run)),
                    );
                }
                let dark: Vec<usize> = if matches!(op, Op::CloneSub { .. }) { (0..n).collect() } else { vec![0, n / 2, n - 1, n, n + 1] };
                for d in dark {
                    cx.case(
                        || format!("{name} of {n} nodes and a tree {n}({}): {op:?}, {d} is unreadable", n + 1),
                        |run| guarded(|| large(&m, op, ops::forms(op, &m)[0], Some(d), run)),
                    );
                }
            }
        }
    }
    super::large::c16(cx);
    mc::kinds::explore(cx, mc::kinds::Part::Copy);
    mc::kinds::barred_copies(cx, true);
}

fn large(m0: &Model, op: Op, form: Form, dark: Option<usize>, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let hold: Option<dendron::Node<D>> = dark.map(|d| w.keep[d].clone());
    let (exp, new) = ops::apply(&mut m, op, &|_| false, &|x| Some(x) == dark);
    let g = hold.as_ref().map(|h| h.borrow_data_mut());
    let got = ops::exec(&w, op, form, 0);
    drop(g);
    if ops::judge(&exp, form, &got)? {
        match got {
            ops::Got::Ok(Some(n)) => w.bind_nodes(&m, n, &new)?,
            _ => return Err("no node is returned".into()),
        }
    } else {
        drop(got);
        m = m0.clone();
    }
    w.bind_trees(&m);
    obs::walks(&w, &m)?;
    obs::data_all(&w, &m)?;
    if w.reg.live.get() != m.len() {
        return Err(format!("{} data values live, expected {}", w.reg.live.get(), m.len()));
    }
    run.step(1);
    run.state(m.hash() ^ dark.map_or(0, |d| d as u64 + 1));
    Ok(())
}
