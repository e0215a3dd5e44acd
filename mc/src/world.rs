//! The implementation side of an execution: real nodes bound to model nodes.

use std::rc::Rc;

use dendron::{HotNode, Node, Tree, TreeWeak};

use crate::data::{Reg, D};
use crate::model::Model;
use crate::sup::Res;

pub struct World {
    pub reg: Rc<Reg>,
    /// One plain handle per model node (index = model node).
    pub keep: Vec<Node<D>>,
    /// Data instance of each model node.
    pub tag: Vec<u32>,
    /// Identity of each model tree.
    pub weak: Vec<Option<TreeWeak<D>>>,
    /// Optional strong handles to the trees with the first ids.
    pub held: Vec<Tree<D>>,
}

/// Builds the subtree below `h` for model node `x`; pushes handles in model order.
fn grow(reg: &Rc<Reg>, m: &Model, x: usize, h: &HotNode<D>, out: &mut [Option<Node<D>>]) {
    // Iterative, so that large families can be built.
    let mut st: Vec<(usize, Node<D>)> = vec![(x, h.plain())];
    let grant = h.extract_hierarchy_edit_grant();
    while let Some((y, hy)) = st.pop() {
        for &k in &m.n[y].kids {
            let c = hy.create_as_last_child(&grant, D::new(reg, m.n[k].val));
            out[k] = Some(c.clone());
            st.push((k, c));
        }
    }
}

/// Builds one tree of the model and returns the handles of its nodes.
pub fn build_tree(reg: &Rc<Reg>, m: &Model, root: usize, out: &mut [Option<Node<D>>]) {
    let r = Node::new_tree(D::new(reg, m.n[root].val));
    out[root] = Some(r.clone());
    let hot = r
        .bundle_new_hierarchy_edit_grant()
        .expect("new tree can be granted");
    grow(reg, m, root, &hot, out);
}

impl World {
    /// Builds the real forest of a freshly enumerated model.
    pub fn build(m: &Model) -> World {
        let reg = Reg::new();
        let mut out: Vec<Option<Node<D>>> = (0..m.len()).map(|_| None).collect();
        for r in m.roots.iter().flatten() {
            build_tree(&reg, m, *r, &mut out);
        }
        let keep: Vec<Node<D>> = out.into_iter().map(|x| x.expect("built")).collect();
        let tag = keep.iter().map(|k| k.borrow_data().tag).collect();
        let mut w = World {
            reg,
            keep,
            tag,
            weak: vec![],
            held: vec![],
        };
        w.bind_trees(m);
        w
    }

    pub fn hold_trees(&mut self, m: &Model) {
        for t in m.live_trees() {
            self.held.push(self.keep[m.roots[t].expect("live")].tree());
        }
    }

    /// Records the identity of trees that appeared in the model.
    pub fn bind_trees(&mut self, m: &Model) {
        while self.weak.len() < m.roots.len() {
            let t = self.weak.len();
            self.weak.push(m.roots[t].map(|r| self.keep[r].tree().downgrade()));
        }
    }

    /// Binds newly created nodes: `h` is the real root of the new part, `ids` its model nodes in
    /// preorder (already numbered contiguously from `keep.len()`).
    pub fn bind_nodes(&mut self, m: &Model, h: Node<D>, ids: &[usize]) -> Res {
        if ids[0] != self.keep.len() {
            return Err("harness: binding order".into());
        }
        let base = ids[0];
        let mut got: Vec<Option<Node<D>>> = vec![None; ids.len()];
        got[0] = Some(h);
        for &i in ids {
            let hi = got[i - base].clone().ok_or("harness: preorder")?;
            let mut c = hi.first_child();
            for &k in &m.n[i].kids {
                if k < base {
                    // An older node adopted by the new one.
                    c = c.ok_or_else(|| format!("new node {i} lacks expected child {k}"))?.next_sibling();
                    continue;
                }
                let ck = c.ok_or_else(|| format!("copy lacks expected child {k} of {i}"))?;
                c = ck.next_sibling();
                got[k - base] = Some(ck);
            }
            if c.is_some() {
                return Err(format!("new node {i} has more children than expected"));
            }
        }
        for g in got {
            let g = g.ok_or("harness: bind")?;
            let tag = match g.try_borrow_data() {
                Ok(d) => d.tag,
                Err(_) => return Err("new node's data is not borrowable".into()),
            };
            if self.tag.contains(&tag) {
                return Err(format!("new node is an old node (data #{tag})"));
            }
            self.tag.push(tag);
            self.keep.push(g);
        }
        Ok(())
    }

    /// Model index of a real node.
    pub fn idx(&self, n: &Node<D>) -> Result<usize, String> {
        for (i, k) in self.keep.iter().enumerate() {
            if k.ptr_eq(n) {
                return Ok(i);
            }
        }
        Err("a node that is none of the nodes ever created".into())
    }

    pub fn name(&self, n: Option<&Node<D>>) -> String {
        match n {
            None => "None".into(),
            Some(n) => match self.idx(n) {
                Ok(i) => i.to_string(),
                Err(_) => "<foreign node>".into(),
            },
        }
    }

    /// Nothing may have been released while all nodes are kept, and nothing dropped twice.
    pub fn check_alive(&self) -> Res {
        for (i, &t) in self.tag.iter().enumerate() {
            if !self.reg.is_live(t) {
                return Err(format!("data of node {i} was dropped while a handle exists"));
            }
        }
        if let Some(e) = self.reg.error.borrow().clone() {
            return Err(e);
        }
        Ok(())
    }
}
