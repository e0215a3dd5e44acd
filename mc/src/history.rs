//! What is asked before an edit must not change what is answered after it: everything is asked of
//! everything (so that whatever the crate may remember is remembered), the hierarchy or the data is
//! changed, and the answers are compared with the model. Handles are held all the time.

use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HierarchyEditGrant, HotNode, Node, NodeWeak};

use crate::data::D;
use crate::model::{Exp, Model};
use crate::obs;
use crate::ops::{self, Fl, Form, Op};
use crate::shape;
use crate::sup::{catch, Cx, Fnv, Res, Run};
use crate::world::World;

/// What is judged after the changes.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum See {
    Nav,
    Effect,
    Refused,
    Member,
    Alive,
    Released,
    Locks,
    Hot,
    Tokens,
    Depth,
    Stable,
    Breadth,
    Line,
    Events,
    Copies,
    Equal,
    Data,
    Print,
    Weak,
}

/// What is judged for a property.
pub fn see(id: &str) -> Option<See> {
    Some(match id {
        "C01" => See::Nav,
        "C02" => See::Effect,
        "C03" => See::Refused,
        "C04" => See::Member,
        "C05" => See::Alive,
        "C06" => See::Released,
        "C07" => See::Locks,
        "C08" => See::Hot,
        "C09" => See::Tokens,
        "C10" => See::Depth,
        "C11" => See::Stable,
        "C12" => See::Breadth,
        "C13" => See::Line,
        "C14" => See::Events,
        "C16" => See::Copies,
        "C17" => See::Equal,
        "C18" => See::Data,
        "C19" => See::Print,
        "C21" => See::Weak,
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Edit(Op, Form),
    Write(usize),
}

/// Handles held from before the first question.
struct Held {
    hot: Vec<HotNode<D>>,
    tokens: Vec<HierarchyEditGrant<D>>,
    weak: Vec<NodeWeak<D>>,
}

fn hot(w: &World, x: usize) -> Result<HotNode<D>, String> {
    w.keep[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| format!("node {x}: edits cannot be granted"))
}
fn frozen(w: &World, x: usize) -> Result<FrozenNode<D>, String> {
    w.keep[x].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| format!("node {x}: edits cannot be prohibited"))
}
fn id(w: &World, n: &Node<D>) -> usize {
    w.idx(n).unwrap_or(usize::MAX)
}
fn ev(w: &World, e: DftEvent<Node<D>>) -> (bool, usize) {
    match e {
        DftEvent::Open(n) => (true, id(w, &n)),
        DftEvent::Close(n) => (false, id(w, &n)),
    }
}
fn evf(w: &World, e: DftEvent<FrozenNode<D>>) -> (bool, usize) {
    ev(w, e.map(|n| n.plain()))
}
fn is<T: PartialEq + std::fmt::Debug>(what: &str, x: usize, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} of node {x}: {got:?}, expected {want:?}"))
    }
}
fn some<I: Iterator>(m: &Model, it: I) -> impl Iterator<Item = I::Item> {
    it.take(4 * m.len() + 8)
}

/// A token of every tree.
fn tokens(w: &World, m: &Model) -> Result<Vec<HierarchyEditGrant<D>>, String> {
    let mut v = vec![];
    for t in m.live_trees() {
        let r = m.roots[t].ok_or("harness: root")?;
        v.push(w.keep[r].tree().grant_hierarchy_edit().map_err(|_| "edits cannot be granted")?);
    }
    Ok(v)
}

fn depth(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        let want = m.events(x);
        let mut back = want.clone();
        back.reverse();
        let n = &w.keep[x];
        is("depth_first_traverse", x, some(m, n.depth_first_traverse()).map(|e| ev(w, e)).collect(), want.clone())?;
        is("depth_first_reverse_traverse", x, some(m, n.depth_first_reverse_traverse()).map(|e| ev(w, e)).collect(), back.clone())?;
        let all = m.events(m.root(x));
        for open in [true, false] {
            let at = all.iter().position(|e| *e == (open, x)).ok_or("harness: event")?;
            let e = if open { DftEvent::Open(n.clone()) } else { DftEvent::Close(n.clone()) };
            is("next event", x, e.next().map(|e| ev(w, e)), all.get(at + 1).copied())?;
            is("previous event", x, e.prev().map(|e| ev(w, e)), at.checked_sub(1).map(|i| all[i]))?;
            let up = if open { Some(x) } else { m.parent(x) };
            is("closed by close_current", x, e.close_current().map(|n| id(w, &n)), up)?;
        }
        let h = hot(w, x)?;
        is("hot depth_first_traverse", x, some(m, h.depth_first_traverse()).map(|e| ev(w, e)).collect(), want)?;
        is("hot depth_first_reverse_traverse", x, some(m, h.depth_first_reverse_traverse()).map(|e| ev(w, e)).collect(), back)?;
    }
    Ok(())
}

fn shallow(m: &Model, x: usize, max: usize) -> Vec<(bool, usize)> {
    let d0 = m.depth(x);
    m.events(x).into_iter().filter(|e| m.depth(e.1) - d0 <= max).collect()
}

fn stable(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        let want = m.events(x);
        let f = frozen(w, x)?;
        let both = |what: &str, want: Vec<(bool, usize)>, mk: &dyn Fn() -> Box<dyn DoubleEndedIterator<Item = (bool, usize)>>| -> Res {
            let mut back = want.clone();
            back.reverse();
            is(what, x, some(m, mk()).collect(), want.clone())?;
            is(&format!("{what} backwards"), x, some(m, mk().rev()).collect(), back)?;
            // Alternating from both ends.
            let (mut it, mut got, mut k) = (mk(), std::collections::VecDeque::from(want), 0);
            loop {
                let (a, b) = if k % 2 == 0 { (it.next(), got.pop_front()) } else { (it.next_back(), got.pop_back()) };
                is(&format!("{what}, step {k} from both ends"), x, a, b)?;
                if b.is_none() {
                    return Ok(());
                }
                k += 1;
            }
        };
        // Indices are found at once, so that the boxes need not borrow the world.
        let keep: std::rc::Rc<Vec<Node<D>>> = std::rc::Rc::new(w.keep.clone());
        let pos = move |e: DftEvent<FrozenNode<D>>| {
            let (o, n) = match e {
                DftEvent::Open(n) => (true, n),
                DftEvent::Close(n) => (false, n),
            };
            (o, keep.iter().position(|k| k.ptr_eq(&n.plain())).unwrap_or(usize::MAX))
        };
        both("depth_first_traverse_stable", want.clone(), &|| {
            let pos = pos.clone();
            Box::new(f.depth_first_traverse_stable().map(move |e| pos(e)))
        })?;
        for d in [None, Some(0), Some(1), Some(2)] {
            both(&format!("shallow_depth_first_traverse_stable({d:?})"), shallow(m, x, d.unwrap_or(usize::MAX)), &|| {
                let pos = pos.clone();
                Box::new(f.shallow_depth_first_traverse_stable(d).map(move |e| pos(e.map(|v| v.0))))
            })?;
        }
        is("stepped stable event", x, DftEvent::Open(f.clone()).next().map(|e| evf(w, e)), m.events(m.root(x)).iter().skip_while(|e| **e != (true, x)).nth(1).copied())?;
    }
    Ok(())
}

fn breadth(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        let f = frozen(w, x)?;
        for d in 0..4 {
            let (mut level, mut k, mut want) = (vec![x], 0, vec![]);
            while !level.is_empty() {
                if k >= d {
                    want.extend(level.iter().map(|&y| (y, k)));
                }
                level = level.iter().flat_map(|&y| m.n[y].kids.iter().copied()).collect();
                k += 1;
            }
            is(&format!("allocating_breadth_first_traverse_stable({d})"), x, some(m, f.allocating_breadth_first_traverse_stable(d)).map(|(n, k)| (id(w, &n.plain()), k)).collect(), want.clone())?;
            is(&format!("non_allocating_breadth_first_traverse_stable({d})"), x, some(m, f.non_allocating_breadth_first_traverse_stable(d)).map(|(n, k)| (id(w, &n.plain()), k)).collect(), want)?;
        }
    }
    Ok(())
}

fn line(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        let kids = m.n[x].kids.clone();
        let sibs = if m.parent(x).is_none() { vec![x] } else { m.sibs(x).to_vec() };
        let p = sibs.iter().position(|&y| y == x).ok_or("harness: sibling")?;
        let mut up = vec![x];
        while let Some(q) = m.parent(up[up.len() - 1]) {
            up.push(q);
        }
        let rev = |v: &[usize]| v.iter().rev().copied().collect::<Vec<_>>();
        macro_rules! plain {
            ($n:expr, $fl:literal) => {{
                let n = $n;
                macro_rules! one {
                    ($f:ident, $want:expr) => {
                        is(concat!($fl, " ", stringify!($f)), x, some(m, n.$f()).map(|n| id(w, &n)).collect::<Vec<_>>(), $want.to_vec())?;
                    };
                }
                one!(children, kids);
                one!(children_reverse, rev(&kids));
                one!(ancestors, up[1..]);
                one!(ancestors_or_self, up);
                one!(siblings, sibs);
                one!(siblings_reverse, rev(&sibs));
                one!(preceding_siblings_or_self_reverse, rev(&sibs[..=p]));
                one!(preceding_siblings_reverse, rev(&sibs[..p]));
                one!(following_siblings_or_self, sibs[p..]);
                one!(following_siblings, sibs[p + 1..]);
            }};
        }
        plain!(&w.keep[x], "plain");
        plain!(hot(w, x)?, "hot");
        let f = frozen(w, x)?;
        macro_rules! one {
            ($f:ident, $want:expr) => {{
                is(stringify!($f), x, some(m, f.$f()).map(|n| id(w, &n.plain())).collect::<Vec<_>>(), $want.to_vec())?;
                is(concat!(stringify!($f), " backwards"), x, some(m, f.$f().rev()).map(|n| id(w, &n.plain())).collect::<Vec<_>>(), rev(&$want))?;
            }};
        }
        one!(children_stable, kids);
        one!(siblings_stable, sibs);
        one!(preceding_siblings_or_self_stable, sibs[..=p]);
        one!(preceding_siblings_stable, sibs[..p]);
        one!(following_siblings_or_self_stable, sibs[p..]);
        one!(following_siblings_stable, sibs[p + 1..]);
    }
    Ok(())
}

fn canonical(m: &Model, x: usize) -> Vec<Result<u32, usize>> {
    let mut v: Vec<Result<u32, usize>> = vec![];
    for (open, y) in m.events(x) {
        match (open, v.last_mut()) {
            (true, _) => v.push(Ok(m.n[y].val)),
            (false, Some(Err(k))) => *k += 1,
            (false, _) => v.push(Err(1)),
        }
    }
    v
}

fn events(w: &World, m: &Model) -> Res {
    use dendron::serial::{Event, TreeBuildError};
    type Got = Result<dendron::serial::Event<D>, std::cell::BorrowError>;
    let flat = |it: &mut dyn Iterator<Item = Got>| {
        some(m, it)
            .map(|e| match e {
                Ok(Event::Open(d)) => Ok(d.val),
                Ok(Event::Close(k)) => Err(k),
                Err(_) => Err(usize::MAX),
            })
            .collect::<Vec<_>>()
    };
    for x in m.alive() {
        let want = canonical(m, x);
        is("to_events", x, flat(&mut w.keep[x].to_events()), want.clone())?;
        is("hot to_events", x, flat(&mut hot(w, x)?.to_events()), want.clone())?;
        is("frozen to_events", x, flat(&mut frozen(w, x)?.to_events()), want)?;
        let b: Result<Node<D>, TreeBuildError> = w.keep[x].depth_first_traverse().collect();
        crate::large::same(&b.map_err(|e| format!("rebuilding {x}: {e}"))?, m, x, |n| n.borrow_data().val)?;
    }
    Ok(())
}

fn copies(w: &World, m: &Model) -> Res {
    for x in m.alive() {
        let val = |n: &Node<D>| n.borrow_data().val;
        let e = |e| format!("copying {x}: {e}");
        crate::large::same(&w.keep[x].try_clone_subtree().map_err(|_| "refused".to_string()).map_err(e)?, m, x, val).map_err(e)?;
        crate::large::same(&hot(w, x)?.clone_subtree(), m, x, val).map_err(e)?;
        crate::large::same(&frozen(w, x)?.clone_subtree(), m, x, val).map_err(e)?;
        if m.parent(x).is_none() {
            crate::large::same(&w.keep[x].tree().clone_tree().root(), m, x, val).map_err(e)?;
        }
        // A copy into a third tree.
        let d = HotNode::new_tree(D::new(&w.reg, 7));
        let c = w.keep[x].clone_insert_subtree(dendron::InsertAs::LastChildOf(&d));
        let of = |e: DftEvent<Node<D>>| match e {
            DftEvent::Open(k) => (true, val(&k)),
            DftEvent::Close(k) => (false, val(&k)),
        };
        let got: Vec<(bool, u32)> = some(m, c.plain().depth_first_traverse()).map(of).collect();
        is("inserted copy", x, got, m.events(x).into_iter().map(|(o, y)| (o, m.n[y].val)).collect())?;
        if w.keep[x].belongs_to_same_tree(&c.plain()) || !c.belongs_to_same_tree(&d) {
            return Err(format!("the copy of {x} is in the wrong tree"));
        }
    }
    Ok(())
}

fn equal(w: &World, m: &Model) -> Res {
    let form: Vec<Vec<Result<u32, usize>>> = (0..m.len()).map(|x| if m.n[x].alive { canonical(m, x) } else { vec![] }).collect();
    for x in m.alive() {
        for y in m.alive() {
            let want = x == y || form[x] == form[y];
            let (a, b) = (&w.keep[x], &w.keep[y]);
            is(&format!("try_eq to {y}"), x, a.try_eq(b).ok(), Some(want))?;
            is(&format!("== to {y}"), x, a == b, want)?;
            let h = hot(w, x)?;
            is(&format!("hot == plain {y}"), x, &h == b, want)?;
            is(&format!("hot == hot {y}"), x, h == hot(w, y)?, want)?;
            drop(h);
            let f = frozen(w, x)?;
            is(&format!("frozen == plain {y}"), x, &f == b, want)?;
            is(&format!("frozen == frozen {y}"), x, f == frozen(w, y)?, want)?;
            if m.n[x].tree != m.n[y].tree {
                is(&format!("frozen == hot {y}"), x, f == hot(w, y)?, want)?;
            }
            drop(f);
            if m.parent(x).is_none() && m.parent(y).is_none() {
                is(&format!("tree == tree of {y}"), x, a.tree() == b.tree(), want)?;
            }
        }
    }
    Ok(())
}

fn data(w: &World, m: &Model) -> Res {
    obs::data_all(w, m)?;
    for x in m.alive() {
        let h = hot(w, x)?;
        let n = &w.keep[x];
        let d = n.try_borrow_data_mut().map_err(|_| format!("data of {x} cannot be borrowed exclusively"))?;
        if h.try_borrow_data().is_ok() || h.try_borrow_data_mut().is_ok() || n.try_borrow_data().is_ok() {
            return Err(format!("data of {x} is borrowed exclusively and once more"));
        }
        for y in m.alive().filter(|&y| y != x) {
            if w.keep[y].try_borrow_data_mut().is_err() {
                return Err(format!("data of {y} cannot be borrowed while that of {x} is"));
            }
        }
        drop(d);
        let d = h.try_borrow_data().map_err(|_| format!("data of {x} cannot be borrowed"))?;
        if n.try_borrow_data().is_err() || n.try_borrow_data_mut().is_ok() {
            return Err(format!("data of {x} is borrowed: the rule for borrows is broken"));
        }
        drop(d);
    }
    Ok(())
}

fn render(m: &Model, x: usize, debug: bool) -> String {
    fn rec(m: &Model, x: usize, debug: bool, first: &str, rest: &str, out: &mut String) {
        out.push_str(&format!("{first}{}{}\n", if debug { "d" } else { "" }, m.n[x].val));
        for (i, &k) in m.n[x].kids.iter().enumerate() {
            let last = i + 1 == m.n[x].kids.len();
            rec(m, k, debug, &format!("{rest}{}", if last { "`-- " } else { "|-- " }), &format!("{rest}{}", if last { "    " } else { "|   " }), out);
        }
    }
    let mut s = String::new();
    rec(m, x, debug, "", "", &mut s);
    s.trim_end_matches('\n').into()
}

/// The data shown by a debug form, in order.
fn shown(s: &str) -> Vec<u32> {
    let b = s.as_bytes();
    let mut v = vec![];
    for i in 0..b.len() {
        if b[i] == b'd' && (i == 0 || !b[i - 1].is_ascii_alphanumeric() && b[i - 1] != b'_') {
            let t: String = s[i + 1..].chars().take_while(char::is_ascii_digit).collect();
            if let Ok(k) = t.parse() {
                v.push(k);
            }
        }
    }
    v
}

fn print(w: &World, m: &Model) -> Res {
    let t = |s: String| s.trim_end_matches('\n').to_string();
    for x in m.alive() {
        let (a, b) = (render(m, x, false), render(m, x, true));
        let n = &w.keep[x];
        is("pretty print", x, t(format!("{}", n.debug_pretty_print())), a.clone())?;
        is("debug pretty print", x, t(format!("{:?}", n.debug_pretty_print())), b.clone())?;
        let pre: Vec<u32> = m.preorder(x).into_iter().map(|y| m.n[y].val).collect();
        is("data in debug_print_subtree", x, shown(&format!("{:?}", n.debug_print_subtree())), pre.clone())?;
        is("data in debug_print_local", x, shown(&format!("{:?}", n.debug_print_local())), vec![m.n[x].val])?;
        is("hot pretty print", x, t(format!("{}", hot(w, x)?.debug_pretty_print())), a.clone())?;
        let f = frozen(w, x)?;
        is("frozen pretty print", x, t(format!("{:#?}", f.debug_pretty_print())), b.clone())?;
        is("data in frozen debug_print_subtree", x, shown(&format!("{:#?}", f.debug_print_subtree())), pre.clone())?;
        drop(f);
        if m.parent(x).is_none() {
            let tree = n.tree();
            is("tree pretty print", x, t(format!("{}", tree.debug_pretty_print())), a)?;
            is("data in tree debug_print", x, shown(&format!("{:?}", tree.debug_print())), pre)?;
        }
    }
    Ok(())
}

fn locks(w: &World, m: &Model) -> Res {
    obs::neutral_all(w, m)?;
    for x in m.alive() {
        let h = hot(w, x)?;
        for y in m.alive() {
            let same = m.n[x].tree == m.n[y].tree;
            if w.keep[y].tree().prohibit_hierarchy_edit().is_ok() == same || w.keep[y].tree().grant_hierarchy_edit().is_err() {
                return Err(format!("hot handle of {x}: locks of the tree of {y} are wrong"));
            }
        }
        drop(h);
        let f = frozen(w, x)?;
        for y in m.alive() {
            let same = m.n[x].tree == m.n[y].tree;
            if w.keep[y].tree().grant_hierarchy_edit().is_ok() == same || w.keep[y].tree().prohibit_hierarchy_edit().is_err() {
                return Err(format!("frozen handle of {x}: locks of the tree of {y} are wrong"));
            }
        }
        drop(f);
    }
    obs::neutral_all(w, m)
}

fn member(w: &World, m: &Model) -> Res {
    obs::membership_all(w, m)?;
    for (t, tree) in w.held.iter().enumerate() {
        is("root of the held tree", t, Some(id(w, &tree.root())), m.roots[t])?;
        for x in m.alive() {
            is(&format!("belongs_to held tree {t}"), x, w.keep[x].belongs_to(tree), m.n[x].tree == t)?;
        }
    }
    Ok(())
}

fn nav(w: &World, m: &Model, held: &Held) -> Res {
    if held.hot.is_empty() {
        obs::nav_all(w, m)?;
    } else {
        obs::nav_plain_all(w, m)?;
        for (x, h) in held.hot.iter().enumerate() {
            obs::nav_hot(w, m, x, h)?;
        }
    }
    obs::walks(w, m)
}

/// Asks everything; the answers are of no interest.
fn ask(w: &World, m: &Model, held: &Held) {
    let all: [&dyn Fn() -> Res; 12] = [
        &|| nav(w, m, held),
        &|| member(w, m),
        &|| depth(w, m),
        &|| stable(w, m),
        &|| breadth(w, m),
        &|| line(w, m),
        &|| events(w, m),
        &|| copies(w, m),
        &|| equal(w, m),
        &|| print(w, m),
        &|| data(w, m),
        &|| {
            for n in &held.weak {
                let _ = n.upgrade();
            }
            for t in &held.tokens {
                for x in m.alive() {
                    let _ = t.is_valid_for_node(&w.keep[x]);
                }
            }
            Ok(())
        },
    ];
    for f in all {
        let _ = catch(f);
    }
}

fn judge(see: See, w: &World, m: &Model, held: &Held) -> Res {
    match see {
        See::Nav => {
            let d = obs::derive(w, m)?;
            nav(w, &d, held)
        }
        See::Effect => {
            nav(w, m, held)?;
            obs::data_all(w, m)
        }
        See::Refused => {
            nav(w, m, held)?;
            member(w, m)?;
            obs::data_all(w, m)
        }
        See::Member => member(w, m),
        See::Locks => locks(w, m),
        See::Depth => depth(w, m),
        See::Stable => stable(w, m),
        See::Breadth => breadth(w, m),
        See::Line => line(w, m),
        See::Events => events(w, m),
        See::Copies => copies(w, m),
        See::Equal => equal(w, m),
        See::Data => data(w, m),
        See::Print => print(w, m),
        See::Tokens => {
            for (t, tok) in held.tokens.iter().enumerate() {
                for x in m.alive() {
                    is(&format!("validity of the token of tree {t}"), x, tok.is_valid_for_node(&w.keep[x]), m.n[x].tree == t)?;
                }
            }
            Ok(())
        }
        See::Hot => {
            for y in m.alive() {
                let locked = (0..held.hot.len()).any(|x| m.n[x].tree == m.n[y].tree);
                is("whether edits can be prohibited, tree", y, w.keep[y].tree().prohibit_hierarchy_edit().is_ok(), !locked)?;
            }
            for (x, h) in held.hot.iter().enumerate() {
                is("node of the hot handle", x, id(w, &h.plain()), x)?;
            }
            Ok(())
        }
        See::Alive | See::Released | See::Weak => Ok(()),
    }
}

/// Releases all handles except that of `last`, then that too.
fn release(see: See, mut w: World, m: &Model, held: Held, last: usize) -> Res {
    let t = m.n[last].tree;
    if see == See::Hot {
        // Each tree is locked until the last of its hot handles is gone.
        let mut hot: Vec<Option<HotNode<D>>> = held.hot.into_iter().map(Some).collect();
        let mut order: Vec<usize> = (0..hot.len()).filter(|&x| x != last).collect();
        order.push(last);
        for i in 0..=order.len() {
            for y in m.alive() {
                let locked = (0..hot.len()).any(|x| hot[x].is_some() && m.n[x].tree == m.n[y].tree);
                is("whether edits can be prohibited, tree", y, w.keep[y].tree().prohibit_hierarchy_edit().is_ok(), !locked)?;
            }
            if let Some(&x) = order.get(i) {
                hot[x] = None;
            }
        }
        return Ok(());
    }
    let h = w.keep[last].clone();
    let reg = w.reg.clone();
    let tags = w.tag.clone();
    w.keep.clear();
    w.held.clear();
    drop(held.hot);
    drop(held.tokens);
    // What must still be there is there.
    if see == See::Alive {
        let mut top = h.clone();
        while let Some(p) = top.parent() {
            top = p;
        }
        let got: Vec<u32> = some(m, top.depth_first_traverse()).filter_map(DftEvent::into_open).map(|n| n.borrow_data().tag).collect();
        is("the whole tree of the last handle", last, got, m.preorder(m.root(last)).into_iter().map(|y| tags[y]).collect())?;
        for y in m.alive().filter(|&y| m.n[y].tree == t) {
            if !reg.is_live(tags[y]) {
                return Err(format!("data of {y} is dropped although its tree has a handle"));
            }
        }
    }
    if see == See::Released {
        let mut want: Vec<u32> = m.alive().filter(|&y| m.n[y].tree == t).map(|y| tags[y]).collect();
        want.sort_unstable();
        let mut got = reg.live_tags();
        got.sort_unstable();
        is("data alive besides the last handle", last, got, want)?;
    }
    if see == See::Weak {
        for (y, n) in held.weak.iter().enumerate() {
            let up = n.upgrade();
            is(&format!("weak reference to {y} besides the handle"), last, up.is_some(), m.n[y].tree == t)?;
            if let Some(up) = up {
                is(&format!("data behind the weak reference to {y} besides the handle"), last, up.borrow_data().tag, tags[y])?;
            }
        }
    }
    drop(h);
    if see == See::Weak && held.weak.iter().any(|n| n.upgrade().is_some()) {
        return Err("a weak reference to a dead node can be upgraded".into());
    }
    if see == See::Released {
        is("data alive after the last handle", last, reg.live_tags(), vec![])?;
        if let Some(e) = reg.error.borrow().clone() {
            return Err(e);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum When {
    /// Everything is asked before every change.
    Each,
    /// Everything is asked before the first change.
    First,
    /// The getters of all nodes are asked before the first change, and those of one after it.
    Light(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct How {
    when: When,
    /// Hot handles of all nodes are held.
    hot: bool,
    /// Handles of all trees are held.
    trees: bool,
    /// The last handle, where it matters.
    last: usize,
}

fn one(see: See, m0: &Model, acts: &[Act], how: How, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    if how.trees {
        w.hold_trees(&m);
    }
    let mut held = Held { hot: vec![], tokens: vec![], weak: vec![] };
    if how.hot {
        for x in 0..m.len() {
            held.hot.push(hot(&w, x)?);
        }
    }
    if see == See::Weak {
        held.weak = w.keep.iter().map(|n| n.downgrade()).collect();
    }
    if see == See::Tokens {
        held.tokens = tokens(&w, &m)?;
    }
    for (i, &a) in acts.iter().enumerate() {
        match how.when {
            When::Light(_) if i == 0 => {
                let _ = obs::nav_plain_all(&w, &m);
            }
            When::Light(y) if y >= m.len() => {}
            When::Light(y) => {
                let _ = obs::nav_plain(&w, &m, y);
            }
            When::First if i > 0 => {}
            When::Each | When::First => ask(&w, &m, &held),
        }
        match a {
            Act::Edit(op, form) => ops::step(&mut w, &mut m, op, form)?,
            Act::Write(x) => {
                m.n[x].val = 50 + i as u32;
                w.keep[x].try_borrow_data_mut().map_err(|_| format!("data of {x} is borrowed"))?.val = 50 + i as u32;
            }
        }
        run.step(1);
    }
    judge(see, &w, &m, &held)?;
    let mut h = Fnv::new();
    h.u(m.hash()).u(m0.hash());
    run.state(h.get());
    if matches!(see, See::Alive | See::Released | See::Hot | See::Weak) {
        release(see, w, &m, held, how.last)?;
    }
    Ok(())
}

/// A forest dies after everything was asked of it, and another takes its place in memory.
fn reborn(see: See, m1: &Model, m2: &Model, run: &mut Run) -> Res {
    let beside = World::build(m1);
    let none = || Held { hot: vec![], tokens: vec![], weak: vec![] };
    let w1 = World::build(m1);
    let mut old = none();
    old.weak = w1.keep.iter().map(|n| n.downgrade()).collect();
    let trees: Vec<_> = m1.live_trees().into_iter().filter_map(|t| m1.roots[t]).map(|r| w1.keep[r].tree().downgrade()).collect();
    if see == See::Tokens {
        old.tokens = tokens(&w1, m1)?;
    }
    ask(&w1, m1, &old);
    if see == See::Equal {
        across(&beside, m1, &w1, m1)?;
    }
    drop(w1);
    let w2 = World::build(m2);
    match see {
        See::Tokens => {
            for tok in &old.tokens {
                for x in m2.alive() {
                    is("validity of the token of a dead tree", x, tok.is_valid_for_node(&w2.keep[x]), false)?;
                }
            }
            obs::neutral_all(&w2, m2)?;
            drop(old);
            return obs::neutral_all(&w2, m2);
        }
        See::Weak => {
            for (x, n) in old.weak.iter().enumerate() {
                is("upgraded weak reference to the dead", x, n.upgrade().is_some(), false)?;
            }
            if trees.iter().any(|t| t.upgrade().is_some()) {
                return Err("a weak reference to a dead tree can be upgraded".into());
            }
        }
        See::Equal => {
            across(&beside, m1, &w2, m2)?;
            across(&w2, m2, &beside, m1)?;
        }
        See::Hot => obs::neutral_all(&w2, m2)?,
        _ => {}
    }
    judge(see, &w2, m2, &none())?;
    run.step(1);
    let mut h = Fnv::new();
    h.u(m2.hash()).u(m1.hash());
    run.state(h.get());
    Ok(())
}

/// Equality of the nodes of two worlds.
fn across(a: &World, ma: &Model, b: &World, mb: &Model) -> Res {
    for x in ma.alive() {
        for y in mb.alive() {
            let want = canonical(ma, x) == canonical(mb, y);
            is(&format!("== to {y} of the other world"), x, a.keep[x] == b.keep[y], want)?;
        }
    }
    Ok(())
}

/// Long programs that take every node through every kind of place.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Program {
    /// Everything is taken apart, top down, made a chain, and spliced away from the top.
    Chain,
    /// Everything is taken apart, bottom up, made a star by the front, and given up from both ends.
    Star,
    /// Everything is wrapped, and what was wrapped spliced away.
    Wrap,
    /// Everything is interrupted below, moved next to the first leaf, and merged into one tree.
    Merge,
}

impl Program {
    const ALL: [Program; 4] = [Program::Chain, Program::Star, Program::Wrap, Program::Merge];
    /// The operations, given the nodes at the start; inapplicable ones are refused and change nothing.
    fn ops(self, m: &Model) -> Vec<Op> {
        use crate::model::As;
        let pre: Vec<usize> = m.live_trees().into_iter().filter_map(|t| m.roots[t]).flat_map(|r| m.preorder(r)).collect();
        let mut v = vec![];
        match self {
            Program::Chain => {
                v.extend(pre.iter().map(|&x| Op::Detach { x }));
                v.extend(pre.windows(2).map(|p| Op::Move { x: p[1], as_: As::Last, a: p[0] }));
                v.extend(pre.iter().map(|&x| Op::Replace { x }));
            }
            Program::Star => {
                v.extend(pre.iter().rev().map(|&x| Op::Detach { x }));
                v.extend(pre[1..].iter().map(|&x| Op::Move { x, as_: As::First, a: pre[0] }));
                v.extend(pre[1..].windows(2).map(|p| Op::Move { x: p[0], as_: As::Prev, a: p[1] }));
                let k = pre.len();
                v.extend((0..k).map(|i| Op::Detach { x: pre[if i % 2 == 0 { k - 1 - i / 2 } else { i / 2 }] }));
            }
            Program::Wrap => {
                v.extend(pre.iter().map(|&x| Op::IntP { x }));
                v.extend(pre.iter().rev().map(|&x| Op::Replace { x }));
            }
            Program::Merge => {
                v.extend(pre.iter().map(|&x| Op::IntC { x }));
                v.extend(pre.windows(2).map(|p| Op::Move { x: p[1], as_: As::Next, a: p[0] }));
                v.extend(pre.windows(2).map(|p| Op::Move { x: p[1], as_: As::First, a: p[0] }));
                v.extend(pre.iter().map(|&x| Op::Create { x, as_: As::Last }));
                v.extend(pre.iter().map(|&x| Op::Replace { x }));
            }
        }
        v
    }
}

/// One edit, then a long program, judged after every step.
fn aftermath(see: See, m0: &Model, op: Op, form: Form, program: Program, last: bool, run: &mut Run) -> Res {
    let mut m = m0.clone();
    let mut w = World::build(&m);
    let mut held = Held { hot: vec![], tokens: vec![], weak: vec![] };
    if see == See::Weak {
        held.weak = w.keep.iter().map(|n| n.downgrade()).collect();
    }
    if see == See::Hot {
        for x in 0..m.len() {
            held.hot.push(hot(&w, x)?);
        }
    }
    if see == See::Tokens {
        held.tokens = tokens(&w, &m)?;
    }
    ops::step(&mut w, &mut m, op, form)?;
    for (i, op) in program.ops(&m).into_iter().enumerate() {
        let forms = ops::forms(op, &m);
        // Only fallible forms report refusals.
        let forms: Vec<&Form> = forms.iter().filter(|f| !f.panicking).collect();
        let form = match forms.len() {
            0 => ops::forms(op, &m)[0],
            k => *forms[i % k],
        };
        ops::step(&mut w, &mut m, op, form).and_then(|()| judge(see, &w, &m, &held)).map_err(|e| format!("step {i} after, {op:?}: {e}"))?;
        run.step(1);
    }
    let mut h = Fnv::new();
    h.u(m.hash()).u(m0.hash());
    run.state(h.get());
    if see == See::Hot {
        let x = if last { m0.len() - 1 } else { 0 };
        return release(see, w, &m, held, x);
    }
    if matches!(see, See::Alive | See::Released | See::Weak) {
        let mut live = m.alive();
        let x = if last { live.last() } else { live.next() };
        if let Some(x) = x {
            release(see, w, &m, held, x)?;
        }
    }
    Ok(())
}

fn aftermaths(cx: &mut Cx, see: See) {
    for n in 1..=cx.pick(5, 6) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for op in ops::all_ops(&m, true) {
                if !cx.task() {
                    continue;
                }
                let forms = ops::forms(op, &m);
                let form = *forms.iter().find(|f| !f.panicking).unwrap_or(&forms[0]);
                for program in Program::ALL {
                    let ends = matches!(see, See::Alive | See::Released | See::Weak | See::Hot);
                    for last in [false, true] {
                        if last && !ends {
                            continue;
                        }
                        cx.case(
                            || format!("{op:?} on {} and then the program {program:?}{}", m.show(), if last { ", last handle last" } else { "" }),
                            |run| aftermath(see, &m, op, form, program, last, run),
                        );
                    }
                }
                if cx.finished() {
                    return;
                }
            }
        }
    }
}

/// The bounds, in words.
pub fn text(see: See, thorough: bool) -> String {
    let (a, b, c) = if thorough { (5, 3, 4) } else { (4, 2, 3) };
    let mut s = format!("with everything asked of everything before: every edit of every forest up to {a} nodes and every two up to {b} nodes, also writes to the data in between; every forest up to {c} nodes in place of every other such one, of which everything was asked");
    if matches!(see, See::Nav | See::Effect | See::Refused | See::Member) {
        s.push_str(&format!("; every two edits of every forest up to {a} nodes with the getters of every node asked before, and those of any single one in between"));
    }
    if matches!(see, See::Nav | See::Effect | See::Refused | See::Member | See::Alive | See::Released | See::Weak | See::Locks | See::Hot | See::Tokens) {
        s.push_str(&format!("; every edit of every forest up to {} nodes followed by four programs of 3n to 5n edits that take every node through every kind of place, judged after every one of them", a + 1));
    }
    s
}

pub fn explore(cx: &mut Cx, see: See) {
    let writes = matches!(see, See::Events | See::Copies | See::Equal | See::Data | See::Print);
    let ends = matches!(see, See::Alive | See::Released | See::Hot | See::Weak);
    // Frozen handles cannot exist next to hot ones and tokens.
    let hots: &[bool] = match see {
        See::Hot => &[true],
        See::Nav | See::Effect => &[false, true],
        _ => &[false],
    };
    let trees: &[bool] = if matches!(see, See::Member | See::Refused | See::Data) { &[false, true] } else { &[false] };
    if matches!(see, See::Nav | See::Effect | See::Refused | See::Member) {
        light(cx, see);
    }
    if matches!(see, See::Nav | See::Effect | See::Refused | See::Member | See::Alive | See::Released | See::Weak | See::Locks | See::Hot | See::Tokens) {
        aftermaths(cx, see);
    }
    let of = |n: usize| shape::forests(n).into_iter();
    let small: Vec<Model> = (1..=cx.pick(3, 4)).flat_map(of).map(|f| Model::from_forest(&f)).collect();
    for m1 in &small {
        for m2 in &small {
            if !cx.task() {
                continue;
            }
            for label in 0..cx.pick(2, 3) {
                let (mut m1, mut m2) = (m1.clone(), m2.clone());
                for x in 0..m1.len() {
                    m1.n[x].val = x as u32 % 2;
                }
                for x in 0..m2.len() {
                    m2.n[x].val = (x as u32 + label) % (2 + label);
                }
                cx.case(
                    || format!("{} takes the place of {}, of which everything was asked", m2.show(), m1.show()),
                    |run| reborn(see, &m1, &m2, run),
                );
            }
        }
    }
    for (k, nmax) in [(1, cx.pick(4, 5)), (2, cx.pick(2, 3))] {
        for n in 1..=nmax {
            for f in shape::forests(n) {
                let labels: &[fn(usize) -> u32] = if see == See::Equal { &[|_| 0, |x| x as u32 % 2] } else { &[|x| x as u32] };
                for lab in labels {
                    let mut m = Model::from_forest(&f);
                    for x in 0..n {
                        m.n[x].val = lab(x);
                    }
                    for &hot in hots {
                        for &trees in trees {
                            let how = How { when: When::Each, hot, trees, last: 0 };
                            sequences(cx, see, &m, k, how, writes, ends);
                            if k > 1 {
                                sequences(cx, see, &m, k, How { when: When::First, ..how }, writes, ends);
                            }
                        }
                    }
                }
            }
        }
    }
}

fn sequences(cx: &mut Cx, see: See, m0: &Model, k: usize, how: How, writes: bool, ends: bool) {
    fn acts(see: See, m: &Model, how: How, writes: bool, last: bool) -> Vec<(Act, Exp, Model)> {
        let mut v = vec![];
        let held = if how.trees { m.roots.len() } else { 0 };
        for op in ops::all_ops(m, true) {
            let mut m2 = m.clone();
            let (exp, _) = ops::apply(&mut m2, op, &|t| t < held, &|_| false);
            if last && (see == See::Refused) != (exp != Exp::Ok) || !last && exp != Exp::Ok {
                continue;
            }
            let forms = ops::forms(op, m);
            let mut some = vec![forms[0]];
            if last {
                some.extend(forms.iter().find(|f| f.fl == Fl::Hot));
            }
            for f in some {
                v.push((Act::Edit(op, f), exp.clone(), m2.clone()));
            }
        }
        if writes {
            for x in m.alive() {
                v.push((Act::Write(x), Exp::Ok, m.clone()));
            }
        }
        v
    }
    for (a, _, m1) in acts(see, m0, how, writes, k == 1) {
        if !cx.task() {
            continue;
        }
        let rest = if k == 1 { vec![(None, m1)] } else { acts(see, &m1, how, writes, true).into_iter().map(|(b, _, m2)| (Some(b), m2)).collect() };
        for (b, m2) in rest {
            let acts: Vec<Act> = [a].into_iter().chain(b).collect();
            for last in 0..if see == See::Hot { m0.len() } else if ends { m2.len() } else { 1 } {
                if !m2.n[last].alive {
                    continue;
                }
                let how = How { last, ..how };
                cx.case(
                    || {
                        let mut s = format!(
                            "forest {}{}{}, everything asked {}",
                            m0.show(),
                            if how.hot { " with hot handles" } else { "" },
                            if how.trees { " with tree handles" } else { "" },
                            match how.when {
                                When::Each => "before every change".to_string(),
                                When::First => "before the first change".to_string(),
                                When::Light(y) => format!("by getters first, then of {y} only"),
                            }
                        );
                        for a in &acts {
                            s.push_str(&format!("\n{a:?}"));
                        }
                        if ends {
                            s.push_str(&format!("\nlast handle: {last}"));
                        }
                        s
                    },
                    |run| one(see, m0, &acts, how, run),
                );
            }
            if cx.finished() {
                return;
            }
        }
    }
}

/// Two changes, the getters of a single node asked between them.
fn light(cx: &mut Cx, see: See) {
    for n in 1..=cx.pick(4, 5) {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            // The node after the last is the first new one.
            for y in 0..=n {
                let how = How { when: When::Light(y), hot: false, trees: false, last: 0 };
                sequences(cx, see, &m, 2, how, false, false);
            }
        }
    }
}
