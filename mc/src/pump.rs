//! Long histories: every short word of operations repeated until anything counted in 8 or 16 bits
//! has gone round.

use dendron::serial::{Event, TreeBuilder};
use dendron::Node;

use crate::kinds::{self, Kind, Own};
use crate::model::{Exp, Model};
use crate::ops::{all_ops, Op};
use crate::shape;
use crate::sup::{catch, Cx, Res, Run};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    /// The structure after many edits.
    Edit,
    /// Released data after many edits.
    Gone,
    /// Weak references after many edits.
    Weak,
    /// The locks after many edits.
    Locks,
}

/// Between two rounds of work that leaves everything as it was the heap does not grow.
struct Level(Option<(i64, i64)>);
impl Level {
    fn at(&mut self, i: usize) -> Res {
        let Some(meter) = crate::sup::METER.get() else { return Ok(()) };
        // What grows by doubling has grown by the second look.
        if i == 100 {
            self.0 = Some(meter());
        }
        if let (Some(a), true) = (self.0, i == 500) {
            let b = meter();
            if b.0 > a.0 || b.1 > a.1 {
                return Err(format!("400 rounds that leave everything as it was have taken {} heap blocks of {} bytes", b.0 - a.0, b.1 - a.1));
            }
        }
        Ok(())
    }
}

fn look_at(i: usize, last: usize) -> bool {
    i < 3 || i == last || [62, 126, 254].iter().any(|&a| (a..a + 5).contains(&i))
}

fn repeat<K: Kind>(m0: &Model, word: &[Op], reps: usize, part: Part, run: &mut Run) -> Res {
    kinds::reset();
    let mut m = m0.clone();
    let mut n = kinds::build::<K>(&m);
    let weak: Vec<_> = n.iter().map(|n| n.downgrade()).collect();
    for i in 0..reps {
        for (j, &op) in word.iter().enumerate() {
            let mut tmp = m.clone();
            if crate::ops::apply_simple(&mut tmp, op).0 != Exp::Ok && i > 2 {
                // Refusals are repeated only so often.
                if i % 64 != 0 {
                    continue;
                }
            }
            kinds::step(&mut n, &mut m, op, (i + j) % 2 == 1).map_err(|e| format!("round {i}, {op:?}: {e}"))?;
            run.step(1);
        }
        if !look_at(i, reps - 1) {
            continue;
        }
        let ts: Vec<usize> = m.live_trees().collect();
        let at = |e: String| format!("after round {i}: {e}");
        match part {
            Part::Edit => kinds::structure(&n, &m, &ts).map_err(at)?,
            Part::Gone => {
                let want = m.n.iter().filter(|n| n.alive).count() as isize;
                if K::COUNTED && kinds::live() != want {
                    return Err(at(format!("{} data values are alive, expected {want}", kinds::live())));
                }
            }
            Part::Weak => {
                for (x, w) in weak.iter().enumerate() {
                    if !w.upgrade().is_some_and(|u| u.ptr_eq(&n[x])) {
                        return Err(at(format!("weak reference to node {x} does not lead to it")));
                    }
                }
            }
            Part::Locks => {
                for &t in &ts {
                    let tree = n[m.roots[t].unwrap()].tree();
                    let g = tree.grant_hierarchy_edit().is_ok();
                    let p = tree.prohibit_hierarchy_edit().is_ok();
                    if !g || !p {
                        return Err(at(format!("tree t{t} can be granted: {g}, prohibited: {p}")));
                    }
                }
            }
        }
    }
    if part == Part::Gone || part == Part::Weak {
        let weak: Vec<_> = n.iter().map(|n| n.downgrade()).collect();
        let wt: Vec<_> = n.iter().map(|n| n.tree().downgrade()).collect();
        drop(n);
        if K::COUNTED && part == Part::Gone && kinds::live() != 0 {
            return Err(format!("{} data values are left", kinds::live()));
        }
        if weak.iter().any(|w| w.upgrade().is_some()) || wt.iter().any(|w| w.upgrade().is_some()) {
            return Err("a weak reference upgrades although every handle is gone".into());
        }
    }
    run.state(m.hash());
    Ok(())
}

/// Copies that grow geometrically are not to be repeated.
fn tame(m0: &Model, word: &[Op]) -> bool {
    let mut m = m0.clone();
    for i in 0..12 {
        for &op in word {
            let mut t = m.clone();
            let before = m.len();
            if crate::ops::apply_simple(&mut t, op).0 == Exp::Ok {
                m = t;
            }
            if m.len() > before + 3 && i > 3 {
                return false;
            }
        }
    }
    true
}

pub fn edits(cx: &mut Cx, part: Part) {
    for (n, len) in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2)] {
        if len == 2 && n > cx.pick(2, 3) {
            continue;
        }
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            let all = all_ops(&m, true);
            for &a in &all {
                if !cx.task() {
                    continue;
                }
                let words: Vec<Vec<Op>> = if len == 1 { vec![vec![a]] } else { all.iter().map(|&b| vec![a, b]).collect() };
                for word in words {
                    if cx.finished() {
                        return;
                    }
                    // Identities of trees change meaning along the way.
                    if word.iter().any(|o| matches!(o, Op::CloneTree { .. })) || !tame(&m, &word) {
                        continue;
                    }
                    let reps = if len == 1 { 520 } else { 262 };
                    cx.case(
                        || format!("{reps} times from {}: {word:?}", m.show()),
                        |run| repeat::<Own>(&m, &word, reps, part, run),
                    );
                }
            }
        }
    }
    // Once around 16 bits, on trees that do not grow.
    let m = Model::from_forest(&[vec![0, 0, 0], vec![0]]);
    for word in steady(&m) {
        if !cx.task() {
            continue;
        }
        let reps = 65_540;
        cx.case(
            || format!("{reps} times from {}: {word:?}", m.show()),
            |run| steady_repeat(&m, &word, reps, part, run),
        );
    }
}

/// Words of up to two edits after which everything is as before, new nodes and tree identities aside.
fn steady(m: &Model) -> Vec<Vec<Op>> {
    let all = all_ops(m, false);
    let same = |w: &[Op]| {
        let mut k = m.clone();
        for &op in w {
            if crate::ops::apply_simple(&mut k, op).0 != Exp::Ok {
                return false;
            }
        }
        k.len() == m.len() && (0..m.len()).all(|x| k.n[x].kids == m.n[x].kids && k.n[x].parent == m.n[x].parent)
    };
    let mut v = vec![];
    for &a in &all {
        if same(&[a]) {
            v.push(vec![a]);
            continue;
        }
        for &b in &all {
            if !matches!(a, Op::Create { .. } | Op::IntP { .. } | Op::IntC { .. }) && same(&[a, b]) {
                v.push(vec![a, b]);
            }
        }
    }
    v
}

fn steady_repeat(m0: &Model, word: &[Op], reps: usize, part: Part, run: &mut Run) -> Res {
    kinds::reset();
    let n = kinds::build::<Own>(m0);
    let weak: Vec<_> = n.iter().map(|n| n.downgrade()).collect();
    let mut level = Level(None);
    for i in 0..reps {
        level.at(i)?;
        for &op in word {
            match catch(|| kinds::exec(&n, m0, op, i % 2 == 1)) {
                Ok(Ok(_)) => {}
                Ok(Err(e)) => return Err(format!("round {i}, {op:?}: {e}")),
                Err(p) => return Err(format!("round {i}, {op:?} panicked: {p}")),
            }
        }
    }
    run.step(reps as u64);
    let ts: Vec<usize> = m0.live_trees().collect();
    match part {
        Part::Edit => kinds::structure(&n, m0, &ts)?,
        Part::Locks => {
            for x in &n {
                let tree = x.tree();
                let g = tree.grant_hierarchy_edit().is_ok();
                let p = tree.prohibit_hierarchy_edit().is_ok();
                if !g || !p {
                    return Err(format!("afterwards a tree can be granted: {g}, prohibited: {p}"));
                }
            }
        }
        _ => {
            if weak.iter().zip(&n).any(|(w, x)| !w.upgrade().is_some_and(|u| u.ptr_eq(x))) {
                return Err("a weak reference does not lead to its node".into());
            }
            drop(n);
            if kinds::live() != 0 || weak.iter().any(|w| w.upgrade().is_some()) {
                return Err(format!("{} data values are left", kinds::live()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Locks.

const BASES: [&str; 5] = ["nothing", "grant", "prohibition", "hot", "frozen"];
const ROUTES: [&str; 14] = [
    "tree grant",
    "tree prohibition",
    "new hot",
    "new frozen",
    "clone of a new hot",
    "clone of a new frozen",
    "grant out of a hot",
    "prohibition out of a frozen",
    "clone of a grant",
    "clone of a prohibition",
    "stable traversal",
    "breadth-first traversal, half way",
    "hot neighbours",
    "frozen neighbours",
];

/// Acquires and releases by one route: whether it was granted.
fn route(k: usize, n: &[Node<u8>]) -> bool {
    let hot = || n[0].clone().bundle_new_hierarchy_edit_grant();
    let frozen = || n[1].clone().bundle_new_hierarchy_edit_prohibition();
    match k {
        0 => n[2].tree().grant_hierarchy_edit().is_ok(),
        1 => n[2].tree().prohibit_hierarchy_edit().is_ok(),
        2 => hot().is_ok(),
        3 => frozen().is_ok(),
        4 => hot().is_ok_and(|h| h.clone().plain().ptr_eq(&h.plain())),
        5 => frozen().is_ok_and(|h| h.clone().plain().ptr_eq(&h.plain())),
        6 => hot().is_ok_and(|h| {
            let g = h.extract_hierarchy_edit_grant();
            drop(h);
            n[1].clone().bundle_hierarchy_edit_grant(&g).is_root() == n[1].is_root()
        }),
        7 => frozen().is_ok_and(|h| {
            let g = h.extract_hierarchy_edit_prohibition();
            drop(h);
            n[0].clone().bundle_hierarchy_edit_prohibition(&g).is_root()
        }),
        8 => n[0].tree().grant_hierarchy_edit().is_ok_and(|g| g.try_clone().is_ok()),
        9 => n[0].tree().prohibit_hierarchy_edit().is_ok_and(|g| g.try_clone().is_ok()),
        10 => frozen().is_ok_and(|h| h.root().depth_first_traverse_stable().count() == 2 * n.len()),
        11 => frozen().is_ok_and(|h| {
            let mut i = h.root().allocating_breadth_first_traverse_stable(0);
            i.next();
            let j = i.clone();
            i.next();
            drop(i);
            j.count() == n.len() - 1
        }),
        12 => hot().is_ok_and(|h| h.first_child().is_some() && h.last_child().is_some() && h.root().is_root()),
        _ => frozen().is_ok_and(|h| h.parent().is_some() && h.next_sibling().is_some() && h.first_last_sibling().0.ptr_eq(&h)),
    }
}

fn is_grant(k: usize) -> bool {
    matches!(k, 0 | 2 | 4 | 6 | 8 | 12)
}

fn lock_case(base: usize, word: &[usize], reps: usize, run: &mut Run) -> Res {
    let r = Node::new_tree(0u8);
    let g = r.tree().grant_hierarchy_edit().expect("harness");
    let a = r.create_as_last_child(&g, 1);
    let b = r.create_as_last_child(&g, 2);
    drop(g);
    let n = [r, a, b];
    let tree = n[0].tree();
    let mut hold = (None, None, None, None);
    match base {
        1 => hold.0 = Some(tree.grant_hierarchy_edit().expect("harness")),
        2 => hold.1 = Some(tree.prohibit_hierarchy_edit().expect("harness")),
        3 => hold.2 = Some(n[0].clone().bundle_new_hierarchy_edit_grant().expect("harness")),
        4 => hold.3 = Some(n[0].clone().bundle_new_hierarchy_edit_prohibition().expect("harness")),
        _ => {}
    }
    let (can_g, can_p) = (!matches!(base, 2 | 4), !matches!(base, 1 | 3));
    let mut level = Level(None);
    for i in 0..reps {
        level.at(i)?;
        for &k in word {
            let got = catch(|| route(k, &n)).map_err(|p| format!("round {i}, {}: panicked: {p}", ROUTES[k]))?;
            let want = if is_grant(k) { can_g } else { can_p };
            if got != want {
                return Err(format!("round {i}, {}: acquired: {got}, expected {want}", ROUTES[k]));
            }
        }
    }
    run.step(reps as u64);
    let g = tree.grant_hierarchy_edit().is_ok();
    let p = tree.prohibit_hierarchy_edit().is_ok();
    if (g, p) != (can_g, can_p) {
        return Err(format!("afterwards the tree can be granted: {g}, prohibited: {p}"));
    }
    drop(hold);
    let g = tree.grant_hierarchy_edit().is_ok();
    let p = tree.prohibit_hierarchy_edit().is_ok();
    if !g || !p {
        return Err(format!("with nothing held the tree can be granted: {g}, prohibited: {p}"));
    }
    Ok(())
}

pub fn locks(cx: &mut Cx) {
    for base in 0..BASES.len() {
        for a in 0..ROUTES.len() {
            for b in 0..ROUTES.len() + 1 {
                if !cx.task() {
                    continue;
                }
                let word: Vec<usize> = if b == ROUTES.len() { vec![a] } else { vec![a, b] };
                let reps = if word.len() == 1 || cx.thorough() { 65_540 } else { 520 };
                cx.case(
                    || {
                        let w: Vec<&str> = word.iter().map(|&k| ROUTES[k]).collect();
                        format!("with {} held, {reps} times: {w:?}", BASES[base])
                    },
                    |run| lock_case(base, &word, reps, run),
                );
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The builder.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Open,
    Close(usize),
    /// Closing one level more than are open.
    TooMany,
}

fn builder_case(seeded: bool, word: &[B], reps: usize, run: &mut Run) -> Res {
    let seed = Node::new_tree(0u32);
    let mut b = if seeded {
        TreeBuilder::with_root(seed.clone().bundle_new_hierarchy_edit_grant().expect("harness"))
    } else {
        TreeBuilder::new()
    };
    // The model: parents of the nodes opened so far.
    let mut s: shape::Shape = if seeded { vec![0] } else { vec![] };
    let mut cur: Option<usize> = seeded.then_some(0);
    let mut depth = usize::from(seeded);
    for i in 0..reps {
        for &e in word {
            let (ev, ok) = match e {
                B::Open => (Event::Open(s.len() as u32), cur.is_some() || s.is_empty()),
                B::Close(k) => (Event::Close(k), k <= depth),
                B::TooMany => (Event::Close(depth + 1), false),
            };
            let got = b.push_event(ev);
            if got.is_ok() != ok {
                return Err(format!("round {i}, {e:?}: {got:?}, expected to be accepted: {ok}"));
            }
            match e {
                B::Open if ok => {
                    s.push(cur.unwrap_or(0));
                    cur = Some(s.len() - 1);
                    depth += 1;
                }
                B::Close(k) if ok => {
                    for _ in 0..k {
                        let c = cur.unwrap();
                        cur = (c != 0).then(|| s[c]);
                    }
                    depth -= k;
                }
                _ => {}
            }
            if b.is_root_available() == s.is_empty() || b.is_root_closed() != (!s.is_empty() && depth == 0) {
                return Err(format!("round {i}, {e:?}: root available: {}, closed: {}", b.is_root_available(), b.is_root_closed()));
            }
        }
    }
    run.step(reps as u64);
    if s.is_empty() {
        return if b.finish().is_err() { Ok(()) } else { Err("finished without any node".into()) };
    }
    if depth > 0 {
        b.push_event(Event::Close(depth)).map_err(|e| format!("closing what is open: {e}"))?;
    }
    let n = b.finish().map_err(|e| format!("finish: {e}"))?;
    let mut m = Model::from_forest(&[s.clone()]);
    for (i, x) in m.n.iter_mut().enumerate() {
        x.val = i as u32;
    }
    let m = m;
    crate::large::same(&n, &m, 0, |n| *n.borrow_data())
}

pub fn builder(cx: &mut Cx) {
    let evs = [B::Open, B::Close(0), B::Close(1), B::Close(2), B::TooMany];
    let mut words: Vec<Vec<B>> = vec![vec![]];
    for len in 1..=3 {
        let more: Vec<Vec<B>> = words
            .iter()
            .filter(|w| w.len() == len - 1)
            .flat_map(|w| {
                evs.iter().map(move |&e| {
                    let mut w = w.clone();
                    w.push(e);
                    w
                })
            })
            .collect();
        words.extend(more);
    }
    for word in &words[1..] {
        for seeded in [false, true] {
            if !cx.task() {
                continue;
            }
            // Looking at every open level is quadratic in the depth.
            let up = word.iter().filter(|e| **e == B::Open).count();
            let down: usize = word.iter().map(|e| if let B::Close(k) = e { *k } else { 0 }).sum();
            let deep = up > down;
            let reps = if word.len() < 3 && !deep { 65_540 } else { 520 };
            cx.case(
                || format!("{reps} times {word:?} into {}", if seeded { "an existing root" } else { "an empty builder" }),
                |run| builder_case(seeded, word, reps, run),
            );
        }
    }
}
