//! Reference model: a forest of ordered trees with identities.

use crate::shape::Shape;
use crate::sup::Fnv;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum As {
    First,
    Last,
    Prev,
    Next,
}
pub const AS: [As; 4] = [As::First, As::Last, As::Prev, As::Next];

/// Documented errors of hierarchy edits.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// Not a documented error.
    Other,
    Loop,
    Empty,
    Sib,
    Borrow,
}

#[derive(Clone, Debug)]
pub struct MN {
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub tree: usize,
    pub val: u32,
    pub alive: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub n: Vec<MN>,
    /// Root of each tree identity; `None` when the tree does not exist any more.
    pub roots: Vec<Option<usize>>,
}

/// Expected outcome of an edit.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok,
    /// Rejected with one of these errors; nothing changes.
    Err(Vec<E>),
    /// Nothing changes, whatever is reported.
    NoChange,
}

impl Model {
    pub fn from_forest(f: &[Shape]) -> Model {
        let mut m = Model::default();
        for s in f {
            m.add_tree(s);
        }
        m
    }
    pub fn add_tree(&mut self, s: &Shape) -> usize {
        let base = self.n.len();
        let t = self.roots.len();
        for (i, &p) in s.iter().enumerate() {
            self.n.push(MN {
                parent: (i > 0).then_some(base + p),
                kids: vec![],
                tree: t,
                val: (base + i) as u32,
                alive: true,
            });
            if i > 0 {
                self.n[base + p].kids.push(base + i);
            }
        }
        self.roots.push(Some(base));
        t
    }
    pub fn len(&self) -> usize {
        self.n.len()
    }
    pub fn is_empty(&self) -> bool {
        self.n.is_empty()
    }
    pub fn alive(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.n.len()).filter(move |&i| self.n[i].alive)
    }
    pub fn live_trees(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.roots.len()).filter(move |&t| self.roots[t].is_some())
    }
    pub fn parent(&self, x: usize) -> Option<usize> {
        self.n[x].parent
    }
    pub fn root(&self, x: usize) -> usize {
        let mut x = x;
        while let Some(p) = self.n[x].parent {
            x = p;
        }
        x
    }
    pub fn depth(&self, x: usize) -> usize {
        let mut d = 0;
        let mut x = x;
        while let Some(p) = self.n[x].parent {
            x = p;
            d += 1;
        }
        d
    }
    pub fn sibs(&self, x: usize) -> &[usize] {
        match self.n[x].parent {
            Some(p) => &self.n[p].kids,
            None => &[],
        }
    }
    /// Index among the siblings and their number (a root is its own only sibling).
    pub fn pos(&self, x: usize) -> (usize, usize) {
        match self.n[x].parent {
            Some(p) => {
                let k = &self.n[p].kids;
                (k.iter().position(|&c| c == x).expect("model"), k.len())
            }
            None => (0, 1),
        }
    }
    pub fn next(&self, x: usize) -> Option<usize> {
        let (i, _) = self.pos(x);
        self.sibs(x).get(i + 1).copied()
    }
    pub fn prev(&self, x: usize) -> Option<usize> {
        let (i, _) = self.pos(x);
        if i == 0 {
            None
        } else {
            Some(self.sibs(x)[i - 1])
        }
    }
    /// `a` is an ancestor of `x` or `x` itself.
    pub fn is_anc_or_self(&self, a: usize, x: usize) -> bool {
        let mut x = Some(x);
        while let Some(y) = x {
            if y == a {
                return true;
            }
            x = self.n[y].parent;
        }
        false
    }
    pub fn preorder(&self, x: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut st = vec![x];
        while let Some(y) = st.pop() {
            v.push(y);
            st.extend(self.n[y].kids.iter().rev());
        }
        v
    }
    /// Open/close events of the subtree: (is_open, node).
    pub fn events(&self, x: usize) -> Vec<(bool, usize)> {
        let mut v = vec![];
        let mut st = vec![(true, x)];
        while let Some((o, y)) = st.pop() {
            v.push((o, y));
            if o {
                st.push((false, y));
                st.extend(self.n[y].kids.iter().rev().map(|&k| (true, k)));
            }
        }
        v
    }
    pub fn new_node(&mut self, tree: usize, val: u32) -> usize {
        self.n.push(MN {
            parent: None,
            kids: vec![],
            tree,
            val,
            alive: true,
        });
        self.n.len() - 1
    }
    fn set_tree(&mut self, x: usize, t: usize) {
        for y in self.preorder(x) {
            self.n[y].tree = t;
        }
    }
    fn unlink(&mut self, x: usize) {
        if let Some(p) = self.n[x].parent.take() {
            self.n[p].kids.retain(|&k| k != x);
        }
    }
    fn link(&mut self, x: usize, r#as: As, a: usize) {
        let (p, i) = match r#as {
            As::First => (a, 0),
            As::Last => (a, self.n[a].kids.len()),
            As::Prev => (self.n[a].parent.expect("model"), self.pos(a).0),
            As::Next => (self.n[a].parent.expect("model"), self.pos(a).0 + 1),
        };
        self.n[p].kids.insert(i, x);
        self.n[x].parent = Some(p);
        let t = self.n[p].tree;
        self.set_tree(x, t);
    }
    fn sibling_of_root(&self, r#as: As, a: usize) -> bool {
        matches!(r#as, As::Prev | As::Next) && self.n[a].parent.is_none()
    }

    pub fn create(&mut self, x: usize, r#as: As, val: u32) -> Result<usize, Exp> {
        if self.sibling_of_root(r#as, x) {
            return Err(Exp::Err(vec![E::Sib]));
        }
        let t = self.n[x].tree;
        let y = self.new_node(t, val);
        self.link(y, r#as, x);
        Ok(y)
    }
    pub fn int_parent(&mut self, x: usize, val: u32) -> usize {
        let t = self.n[x].tree;
        let y = self.new_node(t, val);
        if let Some(p) = self.n[x].parent {
            let i = self.pos(x).0;
            self.n[p].kids[i] = y;
            self.n[y].parent = Some(p);
        } else {
            self.roots[t] = Some(y);
        }
        self.n[y].kids.push(x);
        self.n[x].parent = Some(y);
        y
    }
    pub fn int_child(&mut self, x: usize, val: u32) -> usize {
        let t = self.n[x].tree;
        let y = self.new_node(t, val);
        let kids = std::mem::take(&mut self.n[x].kids);
        for &k in &kids {
            self.n[k].parent = Some(y);
        }
        self.n[y].kids = kids;
        self.n[y].parent = Some(x);
        self.n[x].kids = vec![y];
        y
    }
    pub fn detach(&mut self, x: usize) {
        if self.n[x].parent.is_none() {
            return;
        }
        self.unlink(x);
        let t = self.roots.len();
        self.roots.push(Some(x));
        self.set_tree(x, t);
    }
    pub fn replace(&mut self, x: usize) -> Exp {
        match self.n[x].parent {
            Some(p) => {
                let i = self.pos(x).0;
                let kids = std::mem::take(&mut self.n[x].kids);
                for &k in &kids {
                    self.n[k].parent = Some(p);
                }
                self.n[p].kids.splice(i..=i, kids);
                self.n[x].parent = None;
            }
            None => match self.n[x].kids.len() {
                0 => return Exp::Err(vec![E::Empty]),
                1 => {
                    let k = self.n[x].kids.pop().expect("model");
                    self.n[k].parent = None;
                    let t = self.n[x].tree;
                    self.roots[t] = Some(k);
                }
                _ => return Exp::Err(vec![E::Sib]),
            },
        }
        let t = self.roots.len();
        self.roots.push(Some(x));
        self.n[x].tree = t;
        Exp::Ok
    }
    /// `src_tree_held`: a strong tree handle refers to the tree of `x`.
    pub fn mv(&mut self, x: usize, r#as: As, a: usize, src_tree_held: bool) -> Exp {
        let sib = matches!(r#as, As::Prev | As::Next);
        if sib && a == x {
            return Exp::NoChange;
        }
        let mut errs = vec![];
        if sib && self.n[a].parent.is_none() {
            errs.push(E::Sib);
        }
        let dest_parent = if sib { self.n[a].parent } else { Some(a) };
        let looped = match dest_parent {
            Some(p) => self.is_anc_or_self(x, p),
            // Beside a root: below `x` only if the root is `x` itself, which is handled above,
            // or a move of an ancestor of the root, which does not exist.
            None => false,
        };
        if looped {
            errs.push(E::Loop);
        }
        let whole = self.n[x].parent.is_none();
        let cross = self.n[x].tree != self.n[a].tree;
        if whole && cross && src_tree_held {
            errs.push(E::Empty);
        }
        if !errs.is_empty() {
            return Exp::Err(errs);
        }
        let old = self.n[x].tree;
        if whole {
            self.roots[old] = None;
        }
        self.unlink(x);
        self.link(x, r#as, a);
        Exp::Ok
    }
    /// Copies the subtree; returns the new nodes in preorder. The copy is a tree of its own.
    pub fn clone_sub(&mut self, x: usize) -> Vec<usize> {
        let t = self.roots.len();
        let pre = self.preorder(x);
        let base = self.n.len();
        let map: std::collections::HashMap<usize, usize> =
            pre.iter().enumerate().map(|(i, &y)| (y, base + i)).collect();
        for &y in &pre {
            let mut c = self.n[y].clone();
            c.tree = t;
            c.parent = if y == x { None } else { c.parent.map(|p| map[&p]) };
            c.kids = c.kids.iter().map(|k| map[k]).collect();
            self.n.push(c);
        }
        self.roots.push(Some(base));
        (base..base + pre.len()).collect()
    }
    pub fn clone_ins(&mut self, x: usize, r#as: As, a: usize, borrowed: bool) -> Result<Vec<usize>, Exp> {
        let mut errs = vec![];
        if self.sibling_of_root(r#as, a) {
            errs.push(E::Sib);
        }
        if borrowed {
            errs.push(E::Borrow);
        }
        if !errs.is_empty() {
            return Err(Exp::Err(errs));
        }
        let v = self.clone_sub(x);
        // The temporary tree never becomes visible.
        self.roots.pop();
        self.link(v[0], r#as, a);
        Ok(v)
    }
    /// Canonical hash of the forest with node and tree identities.
    pub fn hash(&self) -> u64 {
        let mut h = Fnv::new();
        for x in &self.n {
            h.u(x.alive as u64).u(x.parent.map_or(0, |p| p as u64 + 1)).u(x.tree as u64);
            h.u(x.kids.len() as u64);
            for &k in &x.kids {
                h.u(k as u64);
            }
        }
        for r in &self.roots {
            h.u(r.map_or(0, |p| p as u64 + 1));
        }
        h.get()
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        fn rec(m: &Model, i: usize, o: &mut String) {
            o.push_str(&i.to_string());
            if !m.n[i].kids.is_empty() {
                o.push('(');
                for (j, &k) in m.n[i].kids.iter().enumerate() {
                    if j > 0 {
                        o.push(' ');
                    }
                    rec(m, k, o);
                }
                o.push(')');
            }
        }
        for (t, r) in self.roots.iter().enumerate() {
            if let Some(r) = r {
                if !o.is_empty() {
                    o.push(' ');
                }
                o.push_str(&format!("t{t}:"));
                rec(self, *r, &mut o);
            }
        }
        o
    }
}
