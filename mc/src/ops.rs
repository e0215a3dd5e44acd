//! Hierarchy edits: enumeration, execution on the real code, comparison with the model.

use dendron::{AdoptAs, HierarchyError, HotNode, InsertAs, Node};

use crate::data::D;
use crate::model::{As, Exp, Model, AS, E};
use crate::sup::{catch, Res};
use crate::world::World;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Create { x: usize, as_: As },
    IntP { x: usize },
    IntC { x: usize },
    Detach { x: usize },
    Replace { x: usize },
    Move { x: usize, as_: As, a: usize },
    CloneIns { x: usize, as_: As, a: usize },
    CloneSub { x: usize },
    CloneTree { t: usize },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fl {
    Plain,
    Hot,
    Frozen,
}

/// API form of an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Form {
    pub fl: Fl,
    pub panicking: bool,
    /// Uses the specific function (`create_as_first_child`) instead of the generic one.
    pub specific: bool,
}

const fn fo(fl: Fl, panicking: bool, specific: bool) -> Form {
    Form { fl, panicking, specific }
}
const F8: [Form; 8] = [
    fo(Fl::Plain, false, false),
    fo(Fl::Plain, true, false),
    fo(Fl::Plain, false, true),
    fo(Fl::Plain, true, true),
    fo(Fl::Hot, false, false),
    fo(Fl::Hot, true, false),
    fo(Fl::Hot, false, true),
    fo(Fl::Hot, true, true),
];
const F6: [Form; 6] = [
    fo(Fl::Plain, false, false),
    fo(Fl::Plain, true, false),
    fo(Fl::Plain, true, true),
    fo(Fl::Hot, false, false),
    fo(Fl::Hot, true, false),
    fo(Fl::Hot, true, true),
];
const F4: [Form; 4] = [
    fo(Fl::Plain, false, false),
    fo(Fl::Plain, true, false),
    fo(Fl::Hot, false, false),
    fo(Fl::Hot, true, false),
];
const F2: [Form; 2] = [fo(Fl::Plain, true, false), fo(Fl::Hot, true, false)];
const FC: [Form; 6] = [
    fo(Fl::Plain, false, false),
    fo(Fl::Plain, true, false),
    fo(Fl::Hot, false, false),
    fo(Fl::Hot, true, false),
    fo(Fl::Frozen, false, false),
    fo(Fl::Frozen, true, false),
];
const FCI: [Form; 5] = [
    fo(Fl::Plain, false, false),
    fo(Fl::Plain, true, false),
    fo(Fl::Hot, false, false),
    fo(Fl::Hot, true, false),
    fo(Fl::Frozen, false, false),
];

pub fn forms(op: Op, m: &Model) -> &'static [Form] {
    match op {
        Op::Create { as_: As::First | As::Last, .. } => &F6,
        Op::Create { .. } => &F8,
        Op::IntP { .. } | Op::IntC { .. } | Op::Detach { .. } => &F2,
        Op::Replace { .. } | Op::Move { .. } => &F4,
        Op::CloneIns { x, a, .. } => {
            // A frozen source must not be in the tree of the (hot) destination.
            if m.n[x].tree == m.n[a].tree {
                &FCI[..4]
            } else {
                &FCI
            }
        }
        Op::CloneSub { .. } => &FC,
        Op::CloneTree { .. } => &F4[..2],
    }
}

/// All operations applicable in a model state, simplest first. `clones`: include copying.
pub fn all_ops(m: &Model, clones: bool) -> Vec<Op> {
    let alive: Vec<usize> = m.alive().collect();
    ops_on(m, &alive, &alive, clones)
}

/// Operations with `x` in `xs` and destination in `as_nodes`.
pub fn ops_on(m: &Model, xs: &[usize], dests: &[usize], clones: bool) -> Vec<Op> {
    let mut v = vec![];
    for &x in xs {
        v.push(Op::Detach { x });
        v.push(Op::Replace { x });
        v.push(Op::IntP { x });
        v.push(Op::IntC { x });
        for as_ in AS {
            v.push(Op::Create { x, as_ });
        }
    }
    for &x in xs {
        for &a in dests {
            for as_ in AS {
                v.push(Op::Move { x, as_, a });
            }
        }
    }
    if clones {
        for &x in xs {
            v.push(Op::CloneSub { x });
            if m.n[x].parent.is_none() {
                v.push(Op::CloneTree { t: m.n[x].tree });
            }
        }
        for &x in xs {
            for &a in dests {
                for as_ in AS {
                    v.push(Op::CloneIns { x, as_, a });
                }
            }
        }
    }
    v
}

pub fn adopt(a: As) -> AdoptAs {
    match a {
        As::First => AdoptAs::FirstChild,
        As::Last => AdoptAs::LastChild,
        As::Prev => AdoptAs::PreviousSibling,
        As::Next => AdoptAs::NextSibling,
    }
}
/// The position helpers keep the relation and hand on the anchor.
pub fn anchors(cx: &mut crate::sup::Cx) {
    if !cx.task() {
        return;
    }
    for a in AS {
        cx.case(
            || format!("anchor helpers {a:?}"),
            |run| {
                let v = insert(a, String::from("x"));
                let (was, refd) = (format!("{v:?}"), v.as_ref());
                let same = matches!(
                    (a, &refd),
                    (As::First, InsertAs::FirstChildOf(_))
                        | (As::Last, InsertAs::LastChildOf(_))
                        | (As::Prev, InsertAs::PreviousSiblingOf(_))
                        | (As::Next, InsertAs::NextSiblingOf(_))
                );
                if !same || format!("{v:?}") != was {
                    return Err(format!("{v:?} by reference: {refd:?}"));
                }
                let mut calls = 0;
                let len = v.clone().map(|s| {
                    calls += 1;
                    s.len()
                });
                if len != insert(a, 1) || calls != 1 {
                    return Err(format!("{v:?} mapped to its length: {len:?} after {calls} calls"));
                }
                if v != insert(a, String::from("x")) || v.as_ref().map(|s| s.clone()) != v {
                    return Err(format!("{v:?}: anchor"));
                }
                for b in AS {
                    if (v == insert(b, String::from("x"))) != (a == b) {
                        return Err(format!("{v:?} compared with {b:?}"));
                    }
                }
                run.step(4);
                Ok(())
            },
        );
    }
}

pub fn insert<T>(a: As, v: T) -> InsertAs<T> {
    match a {
        As::First => InsertAs::FirstChildOf(v),
        As::Last => InsertAs::LastChildOf(v),
        As::Prev => InsertAs::PreviousSiblingOf(v),
        As::Next => InsertAs::NextSiblingOf(v),
    }
}
pub fn err(e: HierarchyError) -> E {
    // An error names its cause, and only then, and says something.
    #[cfg(feature = "std")]
    {
        use std::error::Error;
        if e.source().is_some() != matches!(e, HierarchyError::BorrowNodeData(_)) {
            return E::Other;
        }
    }
    if e.to_string().trim().is_empty() {
        return E::Other;
    }
    match e {
        HierarchyError::AncestorDescendantLoop => E::Loop,
        HierarchyError::EmptyTree => E::Empty,
        HierarchyError::SiblingsWithoutParent => E::Sib,
        HierarchyError::BorrowNodeData(_) => E::Borrow,
        _ => E::Other,
    }
}

/// Expected effect on the model: outcome and the new nodes (preorder of the new part).
pub fn apply(m: &mut Model, op: Op, held: &dyn Fn(usize) -> bool, borrowed: &dyn Fn(usize) -> bool) -> (Exp, Vec<usize>) {
    match op {
        Op::Create { x, as_ } => {
            let val = 100 + m.len() as u32;
            match m.create(x, as_, val) {
                Ok(y) => (Exp::Ok, vec![y]),
                Err(e) => (e, vec![]),
            }
        }
        Op::IntP { x } => {
            let val = 100 + m.len() as u32;
            (Exp::Ok, vec![m.int_parent(x, val)])
        }
        Op::IntC { x } => {
            let val = 100 + m.len() as u32;
            (Exp::Ok, vec![m.int_child(x, val)])
        }
        Op::Detach { x } => {
            m.detach(x);
            (Exp::Ok, vec![])
        }
        Op::Replace { x } => (m.replace(x), vec![]),
        Op::Move { x, as_, a } => {
            let t = m.n[x].tree;
            (m.mv(x, as_, a, held(t)), vec![])
        }
        Op::CloneIns { x, as_, a } => {
            let b = m.preorder(x).iter().any(|&y| borrowed(y));
            match m.clone_ins(x, as_, a, b) {
                Ok(v) => (Exp::Ok, v),
                Err(e) => (e, vec![]),
            }
        }
        Op::CloneSub { x } => {
            if m.preorder(x).iter().any(|&y| borrowed(y)) {
                (Exp::Err(vec![E::Borrow]), vec![])
            } else {
                (Exp::Ok, m.clone_sub(x))
            }
        }
        Op::CloneTree { t } => {
            let x = m.roots[t].expect("live tree");
            if m.preorder(x).iter().any(|&y| borrowed(y)) {
                (Exp::Err(vec![E::Borrow]), vec![])
            } else {
                (Exp::Ok, m.clone_sub(x))
            }
        }
    }
}

pub fn apply_simple(m: &mut Model, op: Op) -> (Exp, Vec<usize>) {
    apply(m, op, &|_| false, &|_| false)
}

/// What the real call did.
pub enum Got {
    Ok(Option<Node<D>>),
    Err(E),
    Panic(String),
}

fn hot(w: &World, x: usize) -> HotNode<D> {
    w.keep[x]
        .clone()
        .bundle_new_hierarchy_edit_grant()
        .expect("harness: the tree must be grantable here")
}

/// Executes the operation through the chosen API form.
pub fn exec(w: &World, op: Op, form: Form, val: u32) -> Got {
    type R = Result<Option<Node<D>>, E>;
    let data = || D::new(&w.reg, val);
    let one = |n: Node<D>| -> R { Ok(Some(n)) };
    let unit = |r: Result<(), HierarchyError>| -> R { r.map(|_| None).map_err(err) };
    let res: Result<R, String> = match op {
        Op::Create { x, as_ } => match form.fl {
            Fl::Plain | Fl::Frozen => {
                let n = &w.keep[x];
                let g = n.tree().grant_hierarchy_edit().expect("harness: grantable");
                let g = &g;
                match (form.specific, form.panicking, as_) {
                    (false, false, _) => catch(|| n.try_create_node_as(g, data(), adopt(as_)).map(Some).map_err(err)),
                    (false, true, _) => catch(|| one(n.create_node_as(g, data(), adopt(as_)))),
                    (true, _, As::First) => catch(|| one(n.create_as_first_child(g, data()))),
                    (true, _, As::Last) => catch(|| one(n.create_as_last_child(g, data()))),
                    (true, false, As::Prev) => catch(|| n.try_create_as_prev_sibling(g, data()).map(Some).map_err(err)),
                    (true, false, As::Next) => catch(|| n.try_create_as_next_sibling(g, data()).map(Some).map_err(err)),
                    (true, true, As::Prev) => catch(|| one(n.create_as_prev_sibling(g, data()))),
                    (true, true, As::Next) => catch(|| one(n.create_as_next_sibling(g, data()))),
                }
            }
            Fl::Hot => {
                let n = hot(w, x);
                let one = |n: HotNode<D>| -> R { Ok(Some(n.plain())) };
                let tr = |r: Result<HotNode<D>, HierarchyError>| -> R { r.map(|n| Some(n.plain())).map_err(err) };
                match (form.specific, form.panicking, as_) {
                    (false, false, _) => catch(|| tr(n.try_create_node_as(data(), adopt(as_)))),
                    (false, true, _) => catch(|| one(n.create_node_as(data(), adopt(as_)))),
                    (true, _, As::First) => catch(|| one(n.create_as_first_child(data()))),
                    (true, _, As::Last) => catch(|| one(n.create_as_last_child(data()))),
                    (true, false, As::Prev) => catch(|| tr(n.try_create_as_prev_sibling(data()))),
                    (true, false, As::Next) => catch(|| tr(n.try_create_as_next_sibling(data()))),
                    (true, true, As::Prev) => catch(|| one(n.create_as_prev_sibling(data()))),
                    (true, true, As::Next) => catch(|| one(n.create_as_next_sibling(data()))),
                }
            }
        },
        Op::IntP { x } => match form.fl {
            Fl::Hot => {
                let n = hot(w, x);
                catch(|| one(n.create_as_interrupting_parent(data()).plain()))
            }
            _ => {
                let g = w.keep[x].tree().grant_hierarchy_edit().expect("harness: grantable");
                catch(|| one(w.keep[x].create_as_interrupting_parent(&g, data())))
            }
        },
        Op::IntC { x } => match form.fl {
            Fl::Hot => {
                let n = hot(w, x);
                catch(|| one(n.create_as_interrupting_child(data()).plain()))
            }
            _ => {
                let g = w.keep[x].tree().grant_hierarchy_edit().expect("harness: grantable");
                catch(|| one(w.keep[x].create_as_interrupting_child(&g, data())))
            }
        },
        Op::Detach { x } => match form.fl {
            Fl::Hot => {
                let n = hot(w, x);
                catch(|| {
                    n.detach_subtree();
                    Ok(None)
                })
            }
            _ => {
                let g = w.keep[x].tree().grant_hierarchy_edit().expect("harness: grantable");
                catch(|| {
                    w.keep[x].detach_subtree(&g);
                    Ok(None)
                })
            }
        },
        Op::Replace { x } => match form.fl {
            Fl::Hot => {
                let n = hot(w, x);
                if form.panicking {
                    catch(|| {
                        n.replace_with_children();
                        Ok(None)
                    })
                } else {
                    catch(|| unit(n.try_replace_with_children()))
                }
            }
            _ => {
                let g = w.keep[x].tree().grant_hierarchy_edit().expect("harness: grantable");
                if form.panicking {
                    catch(|| {
                        w.keep[x].replace_with_children(&g);
                        Ok(None)
                    })
                } else {
                    catch(|| unit(w.keep[x].try_replace_with_children(&g)))
                }
            }
        },
        Op::Move { x, as_, a } => {
            let ha = hot(w, a);
            match form.fl {
                Fl::Hot => {
                    let n = hot(w, x);
                    if form.panicking {
                        catch(|| {
                            n.detach_insert_subtree(insert(as_, ha.clone()).as_ref());
                            Ok(None)
                        })
                    } else {
                        catch(|| unit(n.try_detach_insert_subtree(insert(as_, &ha))))
                    }
                }
                _ => {
                    let g = w.keep[x].tree().grant_hierarchy_edit().expect("harness: grantable");
                    if form.panicking {
                        catch(|| {
                            w.keep[x].detach_insert_subtree(&g, insert(as_, ()).map(|()| &ha));
                            Ok(None)
                        })
                    } else {
                        catch(|| unit(w.keep[x].try_detach_insert_subtree(&g, insert(as_, &ha))))
                    }
                }
            }
        }
        Op::CloneIns { x, as_, a } => {
            let ha = hot(w, a);
            let tr = |r: Result<HotNode<D>, HierarchyError>| -> R { r.map(|n| Some(n.plain())).map_err(err) };
            match form.fl {
                Fl::Hot => {
                    let n = hot(w, x);
                    if form.panicking {
                        catch(|| one(n.clone_insert_subtree(insert(as_, ()).map(|()| &ha)).plain()))
                    } else {
                        catch(|| tr(n.try_clone_insert_subtree(insert(as_, &ha))))
                    }
                }
                Fl::Frozen => {
                    let n = w.keep[x]
                        .clone()
                        .bundle_new_hierarchy_edit_prohibition()
                        .expect("harness: freezable");
                    catch(|| tr(n.try_clone_insert_subtree(insert(as_, &ha))))
                }
                Fl::Plain => {
                    if form.panicking {
                        catch(|| one(w.keep[x].clone_insert_subtree(insert(as_, ha.clone()).as_ref()).plain()))
                    } else {
                        catch(|| tr(w.keep[x].try_clone_insert_subtree(insert(as_, &ha))))
                    }
                }
            }
        }
        Op::CloneSub { x } => match form.fl {
            Fl::Hot => {
                let n = hot(w, x);
                if form.panicking {
                    catch(|| one(n.clone_subtree()))
                } else {
                    catch(|| n.try_clone_subtree().map(Some).map_err(|_| E::Borrow))
                }
            }
            Fl::Frozen => {
                let n = w.keep[x]
                    .clone()
                    .bundle_new_hierarchy_edit_prohibition()
                    .expect("harness: freezable");
                if form.panicking {
                    catch(|| one(n.clone_subtree()))
                } else {
                    catch(|| n.try_clone_subtree().map(Some).map_err(|_| E::Borrow))
                }
            }
            Fl::Plain => {
                if form.panicking {
                    catch(|| one(w.keep[x].clone_subtree()))
                } else {
                    catch(|| w.keep[x].try_clone_subtree().map(Some).map_err(|_| E::Borrow))
                }
            }
        },
        Op::CloneTree { t } => {
            let tree = w.weak[t]
                .as_ref()
                .and_then(|w| w.upgrade())
                .expect("harness: live tree");
            if form.panicking {
                catch(|| one(tree.clone_tree().root()))
            } else {
                catch(|| tree.try_clone_tree().map(|t| Some(t.root())).map_err(|_| E::Borrow))
            }
        }
    };
    match res {
        Ok(Ok(n)) => Got::Ok(n),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(p),
    }
}

/// Compares outcome only. `Ok(true)`: the edit took place.
pub fn judge(exp: &Exp, form: Form, got: &Got) -> Result<bool, String> {
    let unexpected_panic = |p: &str| -> bool {
        // Internal assertions are not the documented failure of a panicking form.
        p.contains("harness:")
    };
    match (exp, got) {
        (_, Got::Panic(p)) if unexpected_panic(p) => Err(p.clone()),
        (Exp::Ok, Got::Ok(_)) => Ok(true),
        (Exp::Ok, Got::Err(e)) => Err(format!("rejected with {e:?} but must succeed")),
        (Exp::Ok, Got::Panic(p)) => Err(format!("panicked but must succeed: {p}")),
        (Exp::Err(v), Got::Err(e)) => {
            if form.panicking {
                Err("harness: panicking form returned an error".into())
            } else if v.contains(e) {
                Ok(false)
            } else {
                Err(format!("rejected with {e:?}, documented {v:?}"))
            }
        }
        (Exp::Err(v), Got::Ok(_)) => Err(format!("succeeded but must be rejected with {v:?}")),
        (Exp::Err(v), Got::Panic(p)) => {
            if form.panicking {
                Ok(false)
            } else {
                Err(format!("fallible form panicked ({p}) but must be rejected with {v:?}"))
            }
        }
        (Exp::NoChange, Got::Ok(_)) | (Exp::NoChange, Got::Err(_)) => Ok(false),
        (Exp::NoChange, Got::Panic(p)) => {
            if form.panicking {
                Ok(false)
            } else {
                Err(format!("fallible form panicked: {p}"))
            }
        }
    }
}

/// Executes one operation, judges the outcome, updates and binds the model.
pub fn step(w: &mut World, m: &mut Model, op: Op, form: Form) -> Res {
    let held = w.held.len();
    let val = 100 + m.len() as u32;
    let got = exec(w, op, form, val);
    let (exp, new) = apply(m, op, &|t| t < held, &|_| false);
    judge(&exp, form, &got).map_err(|e| format!("{op:?} via {form:?}: {e}"))?;
    if let (Exp::Ok, Got::Ok(n)) = (&exp, got) {
        match (n, new.is_empty()) {
            (Some(n), false) => {
                w.bind_nodes(m, n, &new).map_err(|e| format!("{op:?} via {form:?}: {e}"))?
            }
            (None, true) => {}
            _ => return Err("harness: result kind".into()),
        }
        w.bind_trees(m);
    }
    Ok(())
}
