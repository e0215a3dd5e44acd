//! C17: equality compares exactly shape and data.

use std::cell::Cell;

use dendron::{FrozenNode, HotNode, Node, Tree};
use mc::model::Model;
use mc::shape;
use mc::sup::{catch, Cx, Fnv, Res, Run};

use super::{has, mask_nodes, subsets};

pub const Q: &str = "every pair of separate trees up to 8 nodes of any shapes, with 2 values up to 5 nodes; every pair of nodes of every forest up to 6 nodes under every labelling with 2 values, in every handle combination, by value and by reference, with the same and with a different data type; every subset of unreadable nodes for constant labellings and every single unreadable node for all; degenerate trees up to 65 nodes differing in each single place; chains, stars, combs and chains ending in stars whose depth or fan-out lies around 2^8, and chains and stars around 2^16; pairs of trees up to 4 nodes and of families up to 257 nodes, alike or different in one place, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128), and with data whose equality is asymmetric across two types or not reflexive; pairs of trees up to 3 nodes of each of these kinds with one unreadable node on either or both sides";
pub const T: &str = "every pair of separate trees up to 9 nodes of any shapes, with 2 values up to 6 nodes; every pair of nodes of every forest up to 7 nodes under every labelling with 2 values, in every handle combination, by value and by reference, with the same and with a different data type; every subset of unreadable nodes for constant labellings and every single unreadable node for all; degenerate trees up to 129 nodes differing in each single place; all of these families around 2^8 and around 2^16; pairs of trees up to 5 nodes and of families up to 257 nodes, alike or different in one place, with five kinds of data (zero-sized, without destructor, one byte, boxed, 384 bytes aligned to 128), and with data whose equality is asymmetric across two types or not reflexive; pairs of trees up to 4 nodes of each of these kinds with one unreadable node on either or both sides";
pub const A: &[&str] = &[
    "a comparison of a node with itself may be decided without its data",
    "a comparison may report a difference it can establish without the unreadable data",
];

thread_local! {
    /// Guards against comparisons of the wrong data.
    static ODD: Cell<u32> = const { Cell::new(0) };
}

/// Data of the left side.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct A1(u8);
/// Data of the right side of mixed comparisons: `A1(v) == B1(w)` iff `w == 100 + v`, and the other
/// way round nothing is equal.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct B1(u8);
impl PartialEq<B1> for A1 {
    fn eq(&self, o: &B1) -> bool {
        o.0 == 100 + self.0
    }
}
impl PartialEq<A1> for B1 {
    fn eq(&self, _: &A1) -> bool {
        ODD.with(|o| o.set(o.get() + 1));
        false
    }
}

fn build<T>(m: &Model, data: impl Fn(usize) -> T) -> Vec<Node<T>> {
    let mut v: Vec<Node<T>> = vec![];
    for x in 0..m.len() {
        // Children are numbered in preorder.
        let d = data(x);
        match m.parent(x) {
            None => v.push(Node::new_tree(d)),
            Some(p) => {
                let g = v[p].tree().grant_hierarchy_edit().expect("harness: grantable");
                let c = v[p].create_as_last_child(&g, d);
                v.push(c);
            }
        }
    }
    v
}

fn subtree_eq(m: &Model, x: usize, y: usize, lab: u32) -> bool {
    (lab >> x & 1) == (lab >> y & 1)
        && m.n[x].kids.len() == m.n[y].kids.len()
        && m.n[x].kids.iter().zip(&m.n[y].kids).all(|(&a, &b)| subtree_eq(m, a, b, lab))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    Is(bool),
    /// Readable parts differ: the error or `false`.
    ErrOrFalse,
    /// Undecidable: the error.
    Err,
    /// The same node: `true` or the error.
    ErrOrTrue,
}

fn want(m: &Model, x: usize, y: usize, lab: u32, dark: u32, same_forest: bool) -> Want {
    let unreadable = |x: usize| m.preorder(x).iter().any(|&z| dark >> z & 1 == 1);
    // In the mixed comparison only the left forest has unreadable data.
    let any = unreadable(x) || same_forest && unreadable(y);
    if same_forest && x == y {
        return if any { Want::ErrOrTrue } else { Want::Is(true) };
    }
    if !any {
        return Want::Is(subtree_eq(m, x, y, lab));
    }
    // Evidence of a difference without the unreadable data.
    fn differ(m: &Model, x: usize, y: usize, lab: u32, dark: u32, both: bool) -> bool {
        let readable = dark >> x & 1 == 0 && (!both || dark >> y & 1 == 0);
        readable && (lab >> x & 1) != (lab >> y & 1)
            || m.n[x].kids.len() != m.n[y].kids.len()
            || m.n[x].kids.iter().zip(&m.n[y].kids).any(|(&a, &b)| differ(m, a, b, lab, dark, both))
    }
    if differ(m, x, y, lab, dark, same_forest) {
        Want::ErrOrFalse
    } else {
        Want::Err
    }
}

/// Result of a comparison: value or failure.
fn check(what: &str, got: Option<bool>, want: Want) -> Res {
    let ok = match want {
        Want::Is(b) => got == Some(b),
        Want::ErrOrFalse => got != Some(true),
        Want::Err => got.is_none(),
        Want::ErrOrTrue => got != Some(false),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{what}: {}, expected {want:?}", match got {
            Some(b) => b.to_string(),
            None => "fails".into(),
        }))
    }
}

macro_rules! cmp {
    ($w:expr, $($n:literal $l:expr, $r:expr;)*) => {
        $(
            check($n, catch(|| $l == $r).ok(), $w)?;
            // `!=` is its negation.
            if $w == Want::Is(true) || $w == Want::Is(false) {
                check(concat!($n, " (!=)"), catch(|| !($l != $r)).ok(), $w)?;
            }
        )*
    };
}

/// All forms for two nodes; `$sep`: they are in different trees, so one may be hot and the other
/// frozen.
#[allow(clippy::too_many_arguments)]
fn pair<T, U>(
    x: &Node<T>,
    y: &Node<U>,
    want: Want,
    tree_want: Option<Want>,
    fx: Option<&FrozenNode<T>>,
    fy: Option<&FrozenNode<U>>,
    hx: Option<&HotNode<T>>,
    hy: Option<&HotNode<U>>,
) -> Res
where
    T: PartialEq<U>,
    U: PartialEq<U>,
{
    check("Node::try_eq", x.try_eq(y).ok(), want)?;
    cmp!(want, "Node == Node" *x, *y;);
    if let Some(tw) = tree_want {
        let (tx, ty) = (x.tree(), y.tree());
        check("Tree::try_eq", tx.try_eq(&ty).ok(), tw)?;
        cmp!(tw, "Tree == Tree" tx, ty;);
    }
    if let Some(fy) = fy {
        cmp!(want, "Node == FrozenNode" *x, *fy; "Node == &FrozenNode" *x, fy; "&Node == FrozenNode" x, *fy;);
    }
    if let Some(hy) = hy {
        cmp!(want, "Node == HotNode" *x, *hy; "Node == &HotNode" *x, hy; "&Node == HotNode" x, *hy;);
    }
    if let Some(fx) = fx {
        cmp!(want, "FrozenNode == Node" *fx, *y; "FrozenNode == &Node" *fx, y; "&FrozenNode == Node" fx, *y;);
    }
    if let Some(hx) = hx {
        cmp!(want, "HotNode == Node" *hx, *y; "HotNode == &Node" *hx, y; "&HotNode == Node" hx, *y;);
    }
    if let (Some(fx), Some(fy)) = (fx, fy) {
        cmp!(want, "FrozenNode == FrozenNode" *fx, *fy;);
    }
    if let (Some(hx), Some(hy)) = (hx, hy) {
        cmp!(want, "HotNode == HotNode" *hx, *hy;);
    }
    if let (Some(fx), Some(hy)) = (fx, hy) {
        cmp!(want, "FrozenNode == HotNode" *fx, *hy; "FrozenNode == &HotNode" *fx, hy; "&FrozenNode == HotNode" fx, *hy;);
    }
    if let (Some(hx), Some(fy)) = (hx, fy) {
        cmp!(want, "HotNode == FrozenNode" *hx, *fy; "HotNode == &FrozenNode" *hx, fy; "&HotNode == FrozenNode" hx, *fy;);
    }
    Ok(())
}

fn froz<T>(n: &Node<T>) -> FrozenNode<T> {
    n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable")
}
fn hott<T>(n: &Node<T>) -> HotNode<T> {
    n.clone().bundle_new_hierarchy_edit_grant().expect("harness: grantable")
}

/// All flavour combinations of one pair.
fn flavours<T, U>(
    x: &Node<T>,
    y: &Node<U>,
    one_tree: bool,
    want: Want,
    tree_want: Option<Want>,
    full: bool,
) -> Res
where
    T: PartialEq<U>,
    U: PartialEq<U>,
{
    pair(x, y, want, tree_want, None, None, None, None)?;
    if !full {
        return Ok(());
    }
    {
        let (a, b) = (froz(x), froz(y));
        pair(x, y, want, tree_want, Some(&a), Some(&b), None, None)?;
    }
    {
        let (a, b) = (hott(x), hott(y));
        pair(x, y, want, tree_want, None, None, Some(&a), Some(&b))?;
    }
    if !one_tree {
        let (a, b) = (froz(x), hott(y));
        pair(x, y, want, tree_want, Some(&a), None, None, Some(&b))?;
        drop((a, b));
        let (a, b) = (hott(x), froz(y));
        pair(x, y, want, tree_want, None, Some(&b), Some(&a), None)?;
    }
    Ok(())
}

fn one(m: &Model, lab: u32, dark: u32, full: bool, run: &mut Run) -> Res {
    let n = build(m, |x| A1((lab >> x & 1) as u8));
    let o = build(m, |x| B1(100 + (lab >> x & 1) as u8));
    let hold = n.clone();
    let guards: Vec<_> = mask_nodes(dark, m.len()).into_iter().map(|i| hold[i].borrow_data_mut()).collect();
    // The user reads all the rest meanwhile.
    let reads: Vec<_> = (0..hold.len()).filter(|&x| !has(dark, x)).map(|x| hold[x].borrow_data()).collect();
    ODD.with(|o| o.set(0));
    for x in 0..m.len() {
        for y in 0..m.len() {
            let roots = m.parent(x).is_none() && m.parent(y).is_none();
            let same = m.n[x].tree == m.n[y].tree;
            let w = want(m, x, y, lab, dark, true);
            flavours(&n[x], &n[y], same, w, roots.then_some(w), full).map_err(|e| format!("{x} and {y}: {e}"))?;
            let w = want(m, x, y, lab, dark, false);
            flavours(&n[x], &o[y], false, w, roots.then_some(w), full)
                .map_err(|e| format!("{x} and {y} of the copy with another data type: {e}"))?;
            run.step(2);
        }
    }
    if ODD.with(|o| o.get()) != 0 {
        return Err("the sides of a mixed comparison are swapped".into());
    }
    drop((guards, reads));
    let mut h = Fnv::new();
    h.u(m.hash()).u(lab as u64).u(dark as u64);
    run.state(h.get());
    Ok(())
}

/// Pointer comparison: true exactly for the same node.
fn pointers(m: &Model, run: &mut Run) -> Res {
    let n = build(m, |_| A1(0));
    let say = |what: &str, x: usize, y: usize, got: bool, want: bool| -> Res {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} of {x} and {y} is {got}"))
        }
    };
    for x in 0..m.len() {
        for y in 0..m.len() {
            let same = x == y;
            let tree = m.n[x].tree == m.n[y].tree;
            say("Node::ptr_eq", x, y, n[x].ptr_eq(&n[y].clone()), same)?;
            // Reached in another way.
            if let Some(c) = n[y].first_child() {
                if let Some(back) = c.parent() {
                    say("Node::ptr_eq through the child", x, y, n[x].ptr_eq(&back), same)?;
                }
            }
            let (a, b) = (hott(&n[x]), hott(&n[y]));
            say("HotNode::ptr_eq", x, y, a.ptr_eq(&b), same)?;
            say("HotNode::ptr_eq_plain", x, y, a.ptr_eq_plain(&n[y]), same)?;
            drop((a, b));
            let (a, b) = (froz(&n[x]), froz(&n[y]));
            say("FrozenNode::ptr_eq", x, y, a.ptr_eq(&b), same)?;
            drop((a, b));
            let (a, b): (Tree<A1>, Tree<A1>) = (n[x].tree(), n[y].tree());
            say("Tree::ptr_eq of the trees", x, y, a.ptr_eq(&b), tree)?;
            run.step(5);
        }
    }
    run.state(m.hash());
    Ok(())
}

/// Two big trees that differ in one place.
fn big(s: &[usize], d: Option<usize>, leaf: Option<usize>, run: &mut Run) -> Res {
    let m = Model::from_forest(&[s.to_vec()]);
    let a = build(&m, |_| A1(0));
    let b = build(&m, |x| A1((Some(x) == d) as u8));
    if let Some(x) = leaf {
        let g = b[0].tree().grant_hierarchy_edit().expect("harness");
        b[x].create_as_last_child(&g, A1(0));
    }
    for x in 0..m.len() {
        let differs = [d, leaf].iter().flatten().any(|&z| m.is_anc_or_self(x, z));
        let got = a[x].try_eq(&b[x]).map_err(|e| e.to_string())?;
        if got == differs {
            return Err(format!("comparison at {x} gives {got}"));
        }
        let got = *b[x].tree().root().borrow_data() == A1(0);
        if got != (d != Some(0)) {
            return Err("harness: data".into());
        }
        if (b[x] == a[x]) == differs {
            return Err(format!("reverse comparison at {x} gives {}", differs));
        }
    }
    run.step(m.len() as u64);
    Ok(())
}

/// One separate tree against every other one, of any shape and size up to `n`, with data from `labs`
/// values.
fn against(s: &shape::Shape, lab: u32, n: usize, labelled: bool, run: &mut Run) -> Res {
    let grow = |s: &shape::Shape, lab: u32| build(&Model::from_forest(&[s.clone()]), |x| A1((lab >> x & 1) as u8)).swap_remove(0);
    let left = grow(s, lab);
    let left_tree = left.tree();
    for k in 1..=n {
        for t in shape::trees(k) {
            for l in 0..if labelled { 1u32 << k } else { 1 } {
                let right = grow(&t, l);
                let w = Want::Is(*s == t && lab == l);
                let say = || format!("against {} labelled {l:b}", shape::show(&t));
                check("Node::try_eq", left.try_eq(&right).ok(), w).map_err(|e| format!("{}: {e}", say()))?;
                check("Tree::try_eq", left_tree.try_eq(&right.tree()).ok(), w).map_err(|e| format!("{}: {e}", say()))?;
                let h = hott(&right);
                let f = froz(&left);
                cmp!(w, "FrozenNode == HotNode" f, h; "HotNode == FrozenNode" h, f;);
                drop(f);
                let g = hott(&left);
                cmp!(w, "HotNode == HotNode" g, h; "Node == Node" left, right;);
                run.step(1);
            }
        }
    }
    run.state(Fnv::new().s(&shape::show(s)).u(lab as u64).get());
    Ok(())
}

pub fn c17(cx: &mut Cx) {
    let nmax = cx.pick(6, 7);
    for n in 1..=nmax {
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            if cx.task() {
                cx.case(|| format!("pointers of {}", m.show()), |run| pointers(&m, run));
            }
            for lab in 0..1u32 << n {
                if !cx.task() {
                    continue;
                }
                // Without unreadable data, all forms.
                for dark in subsets(n, n) {
                    let constant = lab == 0 || lab == (1 << n) - 1;
                    if dark.count_ones() > 1 && !constant {
                        continue;
                    }
                    let full = n <= 4 || dark == 0;
                    cx.case(
                        || format!("{} labelled {lab:b}, unreadable {:?}", m.show(), mask_nodes(dark, n)),
                        |run| match catch(|| one(&m, lab, dark, full, run)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panicked: {p}")),
                        },
                    );
                }
            }
        }
    }
    // Two copies of each tree: every pair of labellings at each node is covered by the forests up
    // to half the size; larger trees differ in one place.
    for n in 1..=cx.pick(8, 9) {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            cx.case(
                || format!("two trees {} that differ in one place", shape::show(&s)),
                |run| {
                    big(&s, None, None, run)?;
                    for d in 0..n {
                        big(&s, Some(d), None, run).map_err(|e| format!("data of {d} differs: {e}"))?;
                        big(&s, None, Some(d), run).map_err(|e| format!("a leaf more at {d}: {e}"))?;
                    }
                    Ok(())
                },
            );
        }
    }
    for (nmax, labelled) in [(cx.pick(8, 9), false), (cx.pick(5, 6), true)] {
        for n in 1..=nmax {
            for s in shape::trees(n) {
                for lab in 0..if labelled { 1u32 << n } else { 1 } {
                    if !cx.task() {
                        continue;
                    }
                    cx.case(
                        || format!("{} labelled {lab:b} against all separate trees up to {nmax} nodes", shape::show(&s)),
                        |run| match catch(|| against(&s, lab, nmax, labelled, run)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panicked: {p}")),
                        },
                    );
                }
            }
        }
    }
    let sizes: &[usize] = cx.pick(&[16, 33, 65], &[15, 16, 17, 32, 33, 64, 65, 128, 129]);
    for &n in sizes {
        for (name, s) in shape::families(n) {
            for d in 0..n {
                if !cx.task() {
                    continue;
                }
                cx.case(
                    || format!("two trees {name} of {n} nodes that differ at {d}"),
                    |run| {
                        big(&s, Some(d), None, run)?;
                        big(&s, None, Some(d), run).map_err(|e| format!("a leaf more: {e}"))
                    },
                );
            }
        }
    }
    super::large::c17(cx);
    mc::kinds::equality(cx);
    mc::kinds::barred_equality(cx);
}
