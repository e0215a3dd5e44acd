//! Serialization, building, cloning and equality of trees whose depth or number of children lies
//! around 2^8 and 2^16.

use dendron::serial::{Event, TreeBuilder};
use dendron::Node;
use mc::large;
use mc::model::{Exp, Model};
use mc::ops::{self, Op};
use mc::shape::{self, Shape};
use mc::sup::{beat, catch, Cx, Fnv, Res, Run};
use mc::world::World;

use super::{canonical, Ev};

fn build(s: &Shape, val: impl Fn(usize) -> u32) -> Vec<Node<u32>> {
    let r = Node::new_tree(val(0));
    let g = r.tree().grant_hierarchy_edit().expect("harness");
    let mut n = vec![r];
    for i in 1..s.len() {
        let c = n[s[i]].create_as_last_child(&g, val(i));
        n.push(c);
    }
    n
}

fn id(n: &Node<u32>) -> u32 {
    *n.borrow_data()
}

fn starts(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n - 2, n - 1];
    v.dedup();
    v
}

fn each(cx: &mut Cx, what: &str, full: bool, f: impl Fn(&mut Run, &Shape) -> Res) {
    let mut shapes = shape::boundary(8, true);
    shapes.extend(shape::boundary(16, full));
    for (name, s) in shapes {
        if !cx.task() {
            continue;
        }
        cx.case(
            || format!("{what}: {name}"),
            |run| {
                match catch(|| f(run, &s)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panicked: {p}")),
                }?;
                let mut h = Fnv::new();
                h.s(&name).s(what);
                run.state(h.get());
                run.step(s.len() as u64);
                Ok(())
            },
        );
    }
}

fn event(e: &Ev) -> Event<u32> {
    match *e {
        Ev::Open(y) => Event::Open(y as u32),
        Ev::Close(k) => Event::Close(k),
    }
}

pub fn c14(cx: &mut Cx) {
    each(cx, "serialize", cx.pick(0, 1) == 1, |_, s| {
        let m = Model::from_forest(&[s.clone()]);
        let n = build(s, |i| i as u32);
        for x in starts(n.len()) {
            beat();
            let want = canonical(&m, x);
            let mut it = n[x].to_events();
            for i in 0..want.len() + 1 {
                let left = want.len() - i;
                let (lo, hi) = it.size_hint();
                if lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!("{x}: size_hint() = ({lo}, {hi:?}) with {left} events left"));
                }
                let got = it.next().transpose().map_err(|e| e.to_string())?;
                if got != want.get(i).map(event) {
                    return Err(format!("{x}: event {i} is {got:?}, expected {:?}", want.get(i)));
                }
            }
            if it.next().is_some() || n[x].to_events().count() != want.len() {
                return Err(format!("{x}: count() or the end of the events is wrong"));
            }
            let back: Node<u32> =
                n[x].to_events().map(|e| e.expect("readable")).collect::<Result<_, _>>().map_err(|e| format!("{e}"))?;
            large::same(&back, &m, x, id).map_err(|e| format!("rebuilt from the events of {x}: {e}"))?;
            let back: Node<u32> = n[x].depth_first_traverse().collect::<Result<_, _>>().map_err(|e| format!("{e}"))?;
            large::same(&back, &m, x, id).map_err(|e| format!("rebuilt from the traversal of {x}: {e}"))?;
        }
        Ok(())
    });
}

pub fn c15(cx: &mut Cx) {
    each(cx, "build", cx.pick(0, 1) == 1, |_, s| {
        let m = Model::from_forest(&[s.clone()]);
        let ev = canonical(&m, 0);
        let total: usize = ev.iter().map(|e| if let Ev::Close(k) = e { *k } else { 0 }).sum();
        if total != s.len() {
            return Err("harness: closes".into());
        }
        // Closes as one event, in two unequal parts, one level at a time, and not at all at the end.
        for split in 0..5usize {
            beat();
            let mut b = TreeBuilder::new();
            let mut depth = 0usize;
            let mut deep = 0usize;
            let last = ev.len() - 1;
            for (i, e) in ev.iter().enumerate() {
                let err = |e: dendron::serial::TreeBuildError| format!("split {split}, event {i}: {e}");
                match *e {
                    Ev::Open(y) => {
                        b.push_event(Event::Open(y as u32)).map_err(err)?;
                        depth += 1;
                    }
                    Ev::Close(k) => {
                        // A refused close looks at every open level, which is not to be done at
                        // thousands of deep places.
                        let asks = s.len() < 2000 || i < 600 || i + 600 > ev.len() || depth.abs_diff(65536) < 5;
                        let asks = asks && deep < 40;
                        deep += usize::from(asks && depth > 1000);
                        if asks
                            && (b.close(depth + 1).is_ok()
                                || b.close(depth + 255).is_ok()
                                || b.close(depth + 65536).is_ok())
                        {
                            return Err(format!("split {split}, event {i}: more levels than the {depth} open ones are closed"));
                        }
                        let parts: Vec<usize> = match split {
                            0 => vec![k],
                            1 => vec![1.min(k - 1), k - 1.min(k - 1)],
                            2 => vec![k - k / 2, k / 2],
                            3 => vec![1; k],
                            _ if i == last => vec![k - 1],
                            _ => vec![k],
                        };
                        for p in parts {
                            b.push_event(Event::Close(p)).map_err(err)?;
                            depth -= p;
                        }
                    }
                }
                if b.is_root_closed() != (depth == 0) || !b.is_root_available() {
                    return Err(format!("split {split}, event {i}: is_root_closed() = {}, {depth} open", b.is_root_closed()));
                }
            }
            if (split == 4) != b.open(7).is_ok() {
                return Err(format!("split {split}: opening at the end is not as expected"));
            }
            let mut m = m.clone();
            if split == 4 {
                m.create(0, mc::model::As::Last, 7).map_err(|_| "harness")?;
            }
            let n = b.finish().map_err(|e| format!("{e}"))?;
            large::same(&n, &m, 0, id).map_err(|e| format!("split {split}: {e}"))?;
        }
        Ok(())
    });
}

pub fn c16(cx: &mut Cx) {
    each(cx, "clone", cx.pick(0, 1) == 1, |run, s| {
        let n = s.len();
        let xs = if n < 1000 { starts(n) } else { vec![0, n - 1] };
        for x in xs {
            let mut ops_ = vec![Op::CloneSub { x }];
            for as_ in mc::model::AS {
                ops_.push(Op::CloneIns { x, as_, a: n + 1 });
                if n < 1000 {
                    ops_.push(Op::CloneIns { x, as_, a: 1 });
                    ops_.push(Op::CloneIns { x, as_, a: n - 1 });
                }
            }
            for op in ops_ {
                beat();
                let mut m = Model::from_forest(&[s.clone()]);
                m.add_tree(&vec![0, 0]);
                let w = World::build(&m);
                let (exp, new) = ops::apply(&mut m, op, &|_| false, &|_| false);
                if exp != Exp::Ok {
                    continue;
                }
                let form = ops::forms(op, &m)[0];
                let got = ops::exec(&w, op, form, 0);
                let root = match got {
                    ops::Got::Ok(Some(n)) => n.root(),
                    _ => return Err(format!("{op:?}: no node is returned")),
                };
                let val = |n: &Node<mc::data::D>| n.borrow_data().val;
                large::same(&root, &m, m.root(new[0]), val).map_err(|e| format!("{op:?}: the tree of the copy: {e}"))?;
                large::same(&w.keep[0].root(), &m, 0, val).map_err(|e| format!("{op:?}: the original: {e}"))?;
                if w.reg.live.get() != m.len() {
                    return Err(format!("{op:?}: {} data values live, expected {}", w.reg.live.get(), m.len()));
                }
                run.step(1);
            }
        }
        Ok(())
    });
}

pub fn c17(cx: &mut Cx) {
    each(cx, "compare", cx.pick(0, 1) == 1, |run, s| {
        let n = s.len();
        let a = build(s, |i| i as u32 % 3);
        let eq = |b: &[Node<u32>], want: bool, what: &str| -> Res {
            let f = |n: &Node<u32>| n.clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "harness");
            let got = [
                a[0].try_eq(&b[0]),
                b[0].try_eq(&a[0]),
                a[0].tree().try_eq(&b[0].tree()),
                Ok(f(&a[0])? == f(&b[0])?),
                Ok(f(&b[0])? == f(&a[0])?),
            ];
            if got.iter().any(|g| !matches!(g, Ok(b) if *b == want)) {
                return Err(format!("{what}: {got:?}, expected {want}"));
            }
            Ok(())
        };
        eq(&build(s, |i| i as u32 % 3), true, "equal trees")?;
        let mut at = starts(n);
        for k in [255, 256, 257, 65535, 65536, 65537] {
            if k < n {
                at.push(k);
            }
        }
        for x in at {
            beat();
            let b = build(s, |i| if i == x { 9 } else { i as u32 % 3 });
            eq(&b, false, &format!("data of {x} differs"))?;
            let b = build(s, |i| i as u32 % 3);
            let g = b[0].tree().grant_hierarchy_edit().map_err(|_| "harness")?;
            b[x].create_as_last_child(&g, 0);
            drop(g);
            eq(&b, false, &format!("a leaf more at {x}"))?;
            run.step(2);
        }
        // As many more as fit the width of a counter.
        for k in [256usize, 65536] {
            let b = build(s, |i| i as u32 % 3);
            let g = b[0].tree().grant_hierarchy_edit().map_err(|_| "harness")?;
            for i in n..n + k {
                b[0].create_as_last_child(&g, i as u32 % 3);
            }
            drop(g);
            eq(&b, false, &format!("{k} leaves more at the root"))?;
        }
        Ok(())
    });
}
