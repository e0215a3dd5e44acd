//! C23: the tree macros build exactly the tree that is written.

use std::cell::RefCell;
use std::rc::Rc;

use dendron::Node;
use mc::data::{Reg, D};
use mc::model::Model;
use mc::obs;
use mc::sup::{self, catch, Check, Cx, Fnv, Res, Run};
use mc::world::World;

#[path = "../macro_cases.rs"]
mod cases;

/// The built tree against the written one.
fn compare(reg: &Rc<Reg>, log: &[u32], par: &[usize], root: Node<D>, run: &mut Run) -> Res {
    let n = par.len();
    let want: Vec<u32> = (0..n as u32).collect();
    if log != want {
        return Err(format!("the data expressions were evaluated in the order {log:?}"));
    }
    let mut m = Model::default();
    m.add_tree(&par.to_vec());
    if !root.is_root() {
        return Err("the result is not a root".into());
    }
    if reg.live.get() != n {
        return Err(format!("{} data values are alive, expected {n}", reg.live.get()));
    }
    let mut w = World::build(&Model::default());
    w.reg = reg.clone();
    w.bind_nodes(&m, root, &m.preorder(0))?;
    w.bind_trees(&m);
    obs::neutral_all(&w, &m)?;
    obs::nav_plain_all(&w, &m)?;
    obs::walks(&w, &m)?;
    obs::data_all(&w, &m)?;
    if n <= 8 {
        obs::nav_all(&w, &m)?;
        obs::membership_all(&w, &m)?;
    }
    run.step(n as u64);
    run.state(m.hash());
    drop(w);
    if reg.live.get() != 0 {
        return Err(format!("{} data values are never dropped", reg.live.get()));
    }
    let e = reg.error.borrow().clone();
    e.map_or(Ok(()), Err)
}

/// The `stop`-th data expression panics (`u32::MAX`: none does).
fn build<R>(stop: u32, f: impl FnOnce(&mut dyn FnMut(u32) -> D) -> R) -> (Rc<Reg>, Vec<u32>, Result<R, String>) {
    let reg = Reg::new();
    let log = RefCell::new(vec![]);
    let mut e = |i: u32| {
        log.borrow_mut().push(i);
        if i == stop {
            panic!("data expression {i}");
        }
        D::new(&reg, i)
    };
    let r = catch(|| f(&mut e));
    let log = log.into_inner();
    (reg, log, r)
}

fn interrupted<R>(n: usize, run: &mut Run, f: impl Fn(&mut dyn FnMut(u32) -> D) -> R) -> Res {
    for stop in 0..n as u32 {
        let (reg, log, r) = build(stop, &f);
        if r.is_ok() || log != (0..=stop).collect::<Vec<_>>() {
            return Err(format!("panic in data expression {stop}: evaluated {log:?}"));
        }
        drop(r);
        if reg.live.get() != 0 {
            return Err(format!("panic in data expression {stop}: {} data values are never dropped", reg.live.get()));
        }
        run.step(1);
    }
    Ok(())
}

fn c23(cx: &mut Cx) {
    for c in cases::NODES {
        if !cx.task() {
            continue;
        }
        cx.case(
            || format!("tree_node! {{ {} }}", c.src),
            |run| {
                let (reg, log, r) = build(u32::MAX, c.f);
                compare(&reg, &log, c.par, r?, run)?;
                run.outcome = Some("tree_node!".into());
                interrupted(c.par.len(), run, c.f)
            },
        );
    }
    for c in cases::TREES.iter().chain(cases::LARGE) {
        if !cx.task() {
            continue;
        }
        cx.case(
            || format!("tree!({})", c.src),
            |run| {
                let (reg, log, r) = build(u32::MAX, c.f);
                let t = r?;
                let g = t.grant_hierarchy_edit().is_ok();
                let p = t.prohibit_hierarchy_edit().is_ok();
                if !g || !p {
                    return Err("the tree is locked".into());
                }
                let root = t.root();
                drop(t);
                compare(&reg, &log, c.par, root, run)?;
                run.outcome = Some("tree!".into());
                interrupted(c.par.len(), run, c.f)
            },
        );
    }
    for c in cases::EXPRS {
        if !cx.task() {
            continue;
        }
        cx.case(
            || format!("{} as {}", c.kind, c.hole),
            |run| {
                let r = (c.f)(1).ok_or("nothing was built")?;
                let got: Vec<String> = r
                    .depth_first_traverse()
                    .filter_map(|e| e.into_open())
                    .map(|n| n.borrow_data().to_string())
                    .collect();
                if got.join(" ") != c.want {
                    return Err(format!("the data are {got:?}, expected {}", c.want));
                }
                let g = r.tree().grant_hierarchy_edit().is_ok();
                let p = r.tree().prohibit_hierarchy_edit().is_ok();
                if !g || !p {
                    return Err("the tree is locked".into());
                }
                run.step(1);
                run.state(Fnv::new().s(c.kind).s(c.hole).get());
                run.outcome = Some("expression".into());
                Ok(())
            },
        );
    }
}

const B: &str = "every tree up to 5 nodes in every legal spelling (leaves plain or with an empty list, every optional comma), every tree up to 6 nodes in the plainest and the fullest spelling; a panic in every data expression; 27 kinds of data expressions in 13 positions; stars up to 56 leaves, chains up to 40 nodes, mixed children and combs up to 48 nodes, in the plainest and the fullest spelling";

fn main() {
    sup::main(&[Check {
        id: "C23",
        f: c23,
        bounds_quick: B,
        bounds_thorough: B,
        assumptions: &[
            "the enumerated programs are generated by tools/gen_macros.py and expanded by the macros of the tree under test when the checker is built",
            "trees that exceed the compiler's default recursion limit are outside the macros' domain",
        ],
    }]);
}
