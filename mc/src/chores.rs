//! Work that leaves the tree as it was.

use dendron::serial::TreeBuilder;
use dendron::tree::HierarchyEditGrant;
use dendron::{FrozenNode, HotNode, InsertAs, Node};

use crate::kinds::{self, Own};
use crate::model::As;
use crate::ops;

pub type N = Node<Own>;

fn grant(n: &N) -> HierarchyEditGrant<Own> {
    n.tree().grant_hierarchy_edit().expect("harness: grantable")
}
fn hot(n: &N) -> HotNode<Own> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}
fn frozen(n: &N) -> FrozenNode<Own> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}
fn own() -> Own {
    <Own as kinds::Kind>::make(7)
}

/// Work on a node (and another one) that leaves everything as it was.
pub const WORK: &[(&str, fn(&N, &N))] = &[
    ("handles", |n, _| {
        let t = n.tree();
        drop((n.clone(), t.clone(), t.root(), n.root(), n.downgrade().upgrade(), t.downgrade().upgrade()));
    }),
    ("weak handles", |n, _| {
        let (w, t) = (n.downgrade(), n.tree().downgrade());
        drop((w.clone(), t.clone(), w, t));
    }),
    ("locks", |n, _| {
        let t = n.tree();
        let g = t.grant_hierarchy_edit().expect("harness");
        assert!(t.prohibit_hierarchy_edit().is_err());
        drop((g.try_clone(), g));
        let p = t.prohibit_hierarchy_edit().expect("harness");
        assert!(t.grant_hierarchy_edit().is_err());
        assert!(n.clone().bundle_new_hierarchy_edit_grant().is_err());
        drop((p.try_clone(), p));
    }),
    ("hot nodes", |n, _| {
        let h = hot(n);
        let g = h.extract_hierarchy_edit_grant();
        drop((h.clone(), h.first_child(), h.parent(), h.next_sibling(), h.prev_sibling(), h.last_child(), h.root(), h.plain()));
        drop((n.clone().bundle_hierarchy_edit_grant(&g), h.tree()));
    }),
    ("frozen nodes", |n, _| {
        let h = frozen(n);
        let p = h.extract_hierarchy_edit_prohibition();
        drop((h.clone(), h.first_child(), h.parent(), h.next_sibling(), h.prev_sibling(), h.last_child(), h.root(), h.plain()));
        drop((n.clone().bundle_hierarchy_edit_prohibition(&p), h.tree()));
    }),
    ("data", |n, _| {
        drop(n.borrow_data());
        assert!(n.try_borrow_data_mut().is_ok());
        let b = n.try_borrow_data();
        assert!(b.is_ok() && n.try_borrow_data_mut().is_err());
        drop(b);
        let d = n.borrow_data().clone();
        *n.borrow_data_mut() = d;
    }),
    ("neighbours", |n, _| {
        drop((n.parent(), n.first_child(), n.last_child(), n.next_sibling(), n.prev_sibling(), n.first_sibling(), n.last_sibling()));
        let _ = (n.num_children(), n.is_root(), n.count_children(), n.count_ancestors(), n.count_preceding_siblings(), n.count_following_siblings());
    }),
    ("iterators", |n, _| {
        let _ = (n.depth_first_traverse().count(), n.children().count(), n.siblings().count(), n.ancestors_or_self().count());
        let mut i = n.depth_first_traverse();
        i.next();
        drop((i.clone(), i));
    }),
    ("stable iterators", |n, _| {
        let h = frozen(n);
        let _ = (h.depth_first_traverse_stable().count(), h.children_stable().rev().count(), h.siblings_stable().count());
        let _ = (h.allocating_breadth_first_traverse_stable(0).count(), h.non_allocating_breadth_first_traverse_stable(0).count());
        let mut i = h.allocating_breadth_first_traverse_stable(0);
        i.next();
        drop((i.clone(), i));
    }),
    ("events", |n, _| {
        let _ = n.to_events().count();
        let mut i = n.to_events();
        i.next();
        drop((i.clone(), i));
    }),
    ("comparison", |n, k| {
        let _ = (n.try_eq(k), n.tree().try_eq(&k.tree()));
    }),
    ("copy", |n, _| {
        drop((n.try_clone_subtree(), n.tree().try_clone_tree()));
    }),
    ("printing", |n, _| {
        use std::fmt::Write;
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = write!(Null, "{:?} {:?} {:?}", n, n.tree(), n.downgrade());
    }),
    ("new child, detached and dropped", |n, _| {
        let g = grant(n);
        for c in [n.create_as_first_child(&g, own()), n.create_as_last_child(&g, own())] {
            c.detach_subtree(&g);
            drop(c);
        }
    }),
    ("new child, replaced with its children", |n, _| {
        let g = grant(n);
        let c = n.create_as_last_child(&g, own());
        assert!(c.try_replace_with_children(&g).is_ok());
    }),
    ("new parent and child, replaced with their children", |n, _| {
        let g = grant(n);
        let p = n.create_as_interrupting_parent(&g, own());
        assert!(p.try_replace_with_children(&g).is_ok());
        drop((p, g));
        let g = grant(n);
        let c = n.create_as_interrupting_child(&g, own());
        assert!(c.try_replace_with_children(&g).is_ok());
    }),
    ("new tree in and out", |n, _| {
        let t = Node::new_tree(own());
        let h = hot(n);
        assert!(t.try_detach_insert_subtree(&grant(&t), InsertAs::FirstChildOf(&h)).is_ok());
        let g = h.extract_hierarchy_edit_grant();
        t.detach_subtree(&g);
    }),
    ("copy of the other one in and out", |n, k| {
        let h = hot(n);
        let c = k.try_clone_insert_subtree(InsertAs::LastChildOf(&h)).expect("readable").plain();
        c.detach_subtree(&h.extract_hierarchy_edit_grant());
    }),
    ("refused edits", |n, _| {
        let g = grant(n);
        let h = hot(n);
        assert!(n.try_detach_insert_subtree(&g, InsertAs::FirstChildOf(&h)).is_err());
        assert!(n.root().try_create_node_as(&g, own(), ops::adopt(As::Next)).is_err());
    }),
    ("builder", |n, _| {
        use dendron::serial::Event;
        let mut b = TreeBuilder::with_root(hot(n));
        assert!(b.push_event(Event::Open(own())).is_ok());
        assert!(b.push_event(Event::Close(99)).is_err());
        let mut c: TreeBuilder<Own> = TreeBuilder::new();
        assert!(c.push_event(Event::Open(own())).is_ok() && c.push_event(Event::Close(1)).is_ok());
        let c = c.finish().expect("closed");
        drop((b, c));
        let made: Vec<N> = n.children().filter(|c| kinds::Kind::is(&*c.borrow_data(), 7)).collect();
        for c in made {
            c.detach_subtree(&grant(n));
        }
    }),
];
