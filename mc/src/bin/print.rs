//! C19: pretty and debug printing.

use std::cell::Cell;
use std::fmt::{self, Write as _};

use dendron::{Node, TreeWeak};
use mc::model::Model;
use mc::shape::{self, Shape};
use mc::sup::{self, catch, Check, Cx, Fnv, Res, Run};

/// What a data value prints in each of the four ways.
const TEXTS: [&str; 10] =
    ["a", "", "x\ny", "x\n", "\n", "\n\nz", "a\n\n", "|-- `-- ", "é→\u{3000} ", " \tq\r\n r \n  "];
/// Label of unreadable data.
const DARK: usize = TEXTS.len();

thread_local! {
    /// How the text of label 0.. is cut into fragments: bit i = a cut after byte i; `EMPTY` adds
    /// empty writes.
    static CUTS: Cell<u32> = const { Cell::new(0) };
    static EMPTY: Cell<bool> = const { Cell::new(false) };
}

struct Txt(usize);

/// Long texts: a character of 1 to 4 bytes (or a newline) across every position around powers of two, and many lines.
fn long() -> &'static Vec<String> {
    static LONG: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    LONG.get_or_init(|| {
        let mut v = vec![];
        for k in 4..=13 {
            for c in ["é", "→", "😀", "\n", "\n\n"] {
                for d in 0..=4 {
                    v.push(format!("{}{c}b", "a".repeat((1 << k) - d)));
                }
            }
        }
        for k in 4..=10 {
            for d in [0, 1] {
                v.push("x\n".repeat((1 << k) + d));
                v.push("\n".repeat((1 << k) + d));
                v.push("é".repeat((1 << k) + d));
                v.push(" ".repeat((1 << k) + d) + "|");
            }
        }
        v
    })
}

fn text(l: usize, debug: bool, alternate: bool) -> &'static str {
    if l > DARK {
        return &long()[l - DARK - 1];
    }
    TEXTS[(l + 2 * usize::from(debug) + usize::from(alternate)) % TEXTS.len()]
}

fn put(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let (cuts, empty) = (CUTS.with(|c| c.get()), EMPTY.with(|c| c.get()));
    if cuts == 0 && !empty {
        return f.write_str(s);
    }
    if empty {
        f.write_str("")?;
    }
    let mut from = 0;
    for i in 1..s.len().min(32) {
        if cuts >> (i - 1) & 1 == 1 && s.is_char_boundary(i) {
            // Both ways of writing.
            if i % 2 == 0 {
                f.write_str(&s[from..i])?;
            } else {
                for c in s[from..i].chars() {
                    f.write_char(c)?;
                }
            }
            if empty {
                f.write_str("")?;
            }
            from = i;
        }
    }
    f.write_str(&s[from..])?;
    if empty {
        f.write_str("")?;
    }
    Ok(())
}

impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(text(self.0, false, f.alternate()), f)
    }
}
impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(text(self.0, true, f.alternate()), f)
    }
}

/// Lines of the reference rendering, and whether they show anything of the data (if not, spaces at
/// the end are free).
fn render(m: &Model, x: usize, lab: &dyn Fn(usize) -> usize, debug: bool, alt: bool) -> Vec<(String, bool)> {
    fn lines(s: &str) -> Vec<&str> {
        // A newline at the end only ends the last line.
        s.strip_suffix('\n').unwrap_or(s).split('\n').collect()
    }
    let mut out = vec![];
    // (node, prefix of its first line, prefix of everything below)
    let mut st: Vec<(usize, String, String)> = vec![(x, String::new(), String::new())];
    while let Some((y, first, rest)) = st.pop() {
        let s = if lab(y) == DARK { "(borrowed)" } else { text(lab(y), debug, alt) };
        for (i, l) in lines(s).into_iter().enumerate() {
            out.push((format!("{}{l}", if i == 0 { &first } else { &rest }), l.trim_matches(' ') != ""));
        }
        for (i, &k) in m.n[y].kids.iter().enumerate().rev() {
            let last = i + 1 == m.n[y].kids.len();
            st.push((
                k,
                format!("{rest}{}", if last { "`-- " } else { "|-- " }),
                format!("{rest}{}", if last { "    " } else { "|   " }),
            ));
        }
    }
    out
}

/// Equal up to spaces at the end of lines without content and a newline at the very end.
fn same_lines(got: &str, want: &[(String, bool)]) -> Res {
    let g: Vec<&str> = got.strip_suffix('\n').unwrap_or(got).split('\n').collect();
    if g.len() == want.len() && g.iter().zip(want).all(|(a, (b, exact))| a == b || !exact && a.trim_end_matches(' ') == b.trim_end_matches(' ')) {
        return Ok(());
    }
    Err(format!("got {got:?}, expected {want:?}"))
}

fn build(m: &Model, lab: &dyn Fn(usize) -> usize) -> Vec<Node<Txt>> {
    let mut v: Vec<Node<Txt>> = vec![];
    for x in 0..m.len() {
        let l = lab(x);
        let d = Txt(if l == DARK { 0 } else { l });
        match m.parent(x) {
            None => v.push(Node::new_tree(d)),
            Some(p) => {
                let g = v[p].tree().grant_hierarchy_edit().expect("harness: grantable");
                let c = v[p].create_as_last_child(&g, d);
                v.push(c);
            }
        }
    }
    v
}

/// A sink that fails when its room is used up.
struct Sink {
    room: usize,
    got: String,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.got.len() + c.len_utf8() > self.room {
                return Err(fmt::Error);
            }
            self.got.push(c);
        }
        Ok(())
    }
}

fn pretty_one(m: &Model, n: &[Node<Txt>], x: usize, lab: &dyn Fn(usize) -> usize, all: bool) -> Res {
    let wants = [
        render(m, x, lab, false, false),
        render(m, x, lab, false, true),
        render(m, x, lab, true, false),
        render(m, x, lab, true, true),
    ];
    macro_rules! four {
        ($what:literal, $p:expr) => {{
            let p = $p;
            same_lines(&format!("{}", p), &wants[0]).map_err(|e| format!("{} of {x} {{}}: {e}", $what))?;
            same_lines(&format!("{:#}", p), &wants[1]).map_err(|e| format!("{} of {x} {{:#}}: {e}", $what))?;
            same_lines(&format!("{:?}", p), &wants[2]).map_err(|e| format!("{} of {x} {{:?}}: {e}", $what))?;
            same_lines(&format!("{:#?}", p), &wants[3]).map_err(|e| format!("{} of {x} {{:#?}}: {e}", $what))?;
        }};
    }
    four!("Node", n[x].debug_pretty_print());
    if all {
        {
            let h = n[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "not grantable")?;
            four!("HotNode", h.debug_pretty_print());
        }
        {
            let h = n[x].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "not freezable")?;
            four!("FrozenNode", h.debug_pretty_print());
        }
        if m.parent(x).is_none() {
            let t = n[x].tree();
            four!("Tree", t.debug_pretty_print());
        }
    }
    Ok(())
}

fn pretty(m: &Model, lab: &[usize], all: bool, run: &mut Run) -> Res {
    let n = build(m, &|x| lab[x]);
    let hold = n.clone();
    let g: Vec<_> = (0..m.len()).filter(|&x| lab[x] == DARK).map(|x| hold[x].borrow_data_mut()).collect();
    // The user reads all the rest meanwhile.
    let r: Vec<_> = (0..m.len()).filter(|&x| lab[x] != DARK).map(|x| hold[x].borrow_data()).collect();
    for x in 0..m.len() {
        pretty_one(m, &n, x, &|y| lab[y], all)?;
    }
    drop((g, r));
    run.step(4 * m.len() as u64);
    let mut h = Fnv::new();
    h.u(m.hash());
    for &l in lab {
        h.u(l as u64);
    }
    run.state(h.get());
    Ok(())
}

/// Every sink that runs full: the error is reported, what was written is a prefix.
fn sinks(m: &Model, lab: &[usize], run: &mut Run) -> Res {
    let n = build(m, &|x| lab[x]);
    let hold = n.clone();
    let g: Vec<_> = (0..m.len()).filter(|&x| lab[x] == DARK).map(|x| hold[x].borrow_data_mut()).collect();
    // The user reads all the rest meanwhile.
    let r: Vec<_> = (0..m.len()).filter(|&x| lab[x] != DARK).map(|x| hold[x].borrow_data()).collect();
    macro_rules! all {
        ($what:literal, $fmt:literal, $p:expr) => {{
            let p = $p;
            let full = format!($fmt, p);
            for room in 0..=full.len() {
                let mut s = Sink { room, got: String::new() };
                let r = write!(s, $fmt, p);
                if r.is_ok() != (room == full.len()) || !full.starts_with(&s.got) {
                    return Err(format!("{} {} into a sink of {room} of {}: {r:?} {:?}", $what, $fmt, full.len(), s.got));
                }
                run.step(1);
            }
        }};
    }
    all!("pretty", "{}", n[0].debug_pretty_print());
    all!("pretty", "{:?}", n[0].debug_pretty_print());
    all!("pretty", "{:#?}", n[0].debug_pretty_print());
    all!("subtree", "{:?}", n[0].debug_print_subtree());
    all!("subtree", "{:#?}", n[0].debug_print_subtree());
    all!("local", "{:?}", n[0].debug_print_local());
    drop((g, r));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Debug forms.

struct Raw(String);
impl fmt::Debug for Raw {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

struct Local<'a> {
    ty: &'static str,
    m: &'a Model,
    x: usize,
    dark: u32,
    tree: &'a dyn fmt::Debug,
}
fn data(m: &Model, x: usize, dark: u32) -> Box<dyn fmt::Debug> {
    if dark >> x & 1 == 1 {
        Box::new(Raw("<borrowed>".into()))
    } else {
        Box::new(Val(m.n[x].val))
    }
}
fn opt(b: bool) -> Raw {
    Raw(if b { "Some(_)" } else { "None" }.into())
}
impl fmt::Debug for Local<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (m, x) = (self.m, self.x);
        f.debug_struct(self.ty)
            .field("data", &data(m, x, self.dark))
            .field("parent", &opt(m.parent(x).is_some()))
            .field("prev_sibling", &opt(m.prev(x).is_some()))
            .field("next_sibling", &opt(m.next(x).is_some()))
            .field("first_child", &opt(!m.n[x].kids.is_empty()))
            .field("tree", self.tree)
            .finish()
    }
}
struct Sub<'a> {
    ty: &'static str,
    m: &'a Model,
    x: usize,
    dark: u32,
    tree: Option<&'a dyn fmt::Debug>,
}
impl fmt::Debug for Sub<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct(self.ty);
        if let Some(t) = self.tree {
            d.field("tree", t);
        }
        let kids: Vec<Sub<'_>> = self.m.n[self.x]
            .kids
            .iter()
            .map(|&k| Sub { ty: "Node", m: self.m, x: k, dark: self.dark, tree: None })
            .collect();
        d.field("data", &data(self.m, self.x, self.dark)).field("children", &kids).finish()
    }
}

#[derive(Clone, PartialEq)]
struct Val(u32);
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            write!(f, "V {{\n    {},\n}}", self.0)
        } else {
            write!(f, "V{{{}}}", self.0)
        }
    }
}
impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// Spacing of the output is free.
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn agree(what: &str, got: String, want: String) -> Res {
    if squeeze(&got) == squeeze(&want) {
        Ok(())
    } else {
        Err(format!("{what}: got {got}, expected {want}"))
    }
}

/// How the tree is locked while it is printed.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum L {
    Free,
    Granted(u32),
    Prohibited(u32),
}

fn debug_forms(m: &Model, dark: u32, lock: L, run: &mut Run) -> Res {
    let mut n: Vec<Node<Val>> = vec![];
    for x in 0..m.len() {
        let d = Val(m.n[x].val);
        match m.parent(x) {
            None => n.push(Node::new_tree(d)),
            Some(p) => {
                let g = n[p].tree().grant_hierarchy_edit().expect("harness: grantable");
                let c = n[p].create_as_last_child(&g, d);
                n.push(c);
            }
        }
    }
    let hold = n.clone();
    let g: Vec<_> = (0..m.len()).filter(|&x| dark >> x & 1 == 1).map(|x| hold[x].borrow_data_mut()).collect();
    // The user reads all the rest meanwhile.
    let r: Vec<_> = (0..m.len()).filter(|&x| dark >> x & 1 == 0).map(|x| hold[x].borrow_data()).collect();
    let t = n[0].tree();
    let mut grants = vec![];
    let mut prohibs = vec![];
    match lock {
        L::Free => {}
        L::Granted(k) => (0..k).for_each(|_| grants.push(t.grant_hierarchy_edit().expect("harness"))),
        L::Prohibited(k) => (0..k).for_each(|_| prohibs.push(t.prohibit_hierarchy_edit().expect("harness"))),
    }
    macro_rules! both {
        ($what:expr, $got:expr, $want:expr) => {{
            agree($what, format!("{:?}", $got), format!("{:?}", $want))?;
            agree(&format!("{} (alternate)", $what), format!("{:#?}", $got), format!("{:#?}", $want))?;
            run.step(2);
        }};
    }
    macro_rules! node {
        ($ty:literal, $h:expr, $x:expr) => {{
            let (h, x) = ($h, $x);
            let tr = h.tree();
            let w = Local { ty: $ty, m, x, dark, tree: &tr };
            both!(&format!("{} {x}", $ty), h, w);
            both!(&format!("debug_print_local of {} {x}", $ty), h.debug_print_local(), w);
            let w = Sub { ty: $ty, m, x, dark, tree: Some(&tr) };
            both!(&format!("debug_print_subtree of {} {x}", $ty), h.debug_print_subtree(), w);
        }};
    }
    for x in 0..m.len() {
        node!("Node", &n[x], x);
        if !matches!(lock, L::Prohibited(_)) {
            let h = n[x].clone().bundle_new_hierarchy_edit_grant().map_err(|_| "not grantable")?;
            node!("HotNode", &h, x);
        }
        if !matches!(lock, L::Granted(_)) {
            let h = n[x].clone().bundle_new_hierarchy_edit_prohibition().map_err(|_| "not freezable")?;
            node!("FrozenNode", &h, x);
            let _ = format!("{:?}{:?}{:?}{:?}", h.depth_first_traverse_stable(), h.children_stable(),
                h.shallow_depth_first_traverse_stable(Some(1)), h.allocating_breadth_first_traverse_stable(0));
            let _ = format!("{:?}", h.non_allocating_breadth_first_traverse_stable(0));
        }
        // A weak handle shows the same relations.
        let wk = n[x].downgrade();
        let s = format!("{wk:?}");
        let tr = n[x].tree();
        let w = format!("{:?}", Local { ty: "Node", m, x, dark, tree: &tr });
        if !squeeze(&s).contains(&squeeze(&w)) {
            return Err(format!("NodeWeak {x}: got {s}, expected {w}"));
        }
        let _ = format!("{:?}{:?}{:?}{:?}", n[x].depth_first_traverse(), n[x].children(), n[x].ancestors_or_self(), n[x].to_events());
        let _ = format!("{:?}{:?}", n[x].children_reverse(), n[x].depth_first_reverse_traverse());
    }
    // The tree and its weak handle.
    both!("Tree", t, t.debug_print_local());
    both!("TreeWeak", t.downgrade(), t.debug_print_local());
    let s = format!("{:?}", t.debug_print());
    let w = format!("{:?}", Sub { ty: "Node", m, x: 0, dark, tree: None });
    if !squeeze(&s).contains(&squeeze(&w)) {
        return Err(format!("debug_print of the tree: got {s}, expected {w}"));
    }
    let s = format!("{:#?}", t.debug_print());
    let w = format!("{:#?}", Sub { ty: "Node", m, x: 0, dark, tree: None });
    if !squeeze(&s).contains(&squeeze(&w)) {
        return Err(format!("debug_print of the tree (alternate): got {s}, expected {w}"));
    }
    // Printing took no lock and no data.
    let gr = t.grant_hierarchy_edit().is_ok();
    let pr = t.prohibit_hierarchy_edit().is_ok();
    if (gr, pr) != (!matches!(lock, L::Prohibited(_)), !matches!(lock, L::Granted(_))) {
        return Err("printing changes locks".into());
    }
    drop((g, r));
    for x in &hold {
        if x.try_borrow_data_mut().is_err() {
            return Err("printing keeps data borrowed".into());
        }
    }
    let (wn, wt) = (n[0].downgrade(), t.downgrade());
    drop((grants, prohibs, t, n, hold));
    let s = format!("{wn:?}{wt:?}{:?}", TreeWeak::clone(&wt));
    if wn.upgrade().is_some() || wt.upgrade().is_some() || s.contains("V{") {
        return Err(format!("printing keeps the tree: {s}"));
    }
    let mut h = Fnv::new();
    h.u(m.hash()).u(dark as u64).s(&format!("{lock:?}"));
    run.state(h.get());
    Ok(())
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch(f) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

fn labels(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut l = vec![0; n];
    loop {
        f(&l);
        let mut i = 0;
        while i < n {
            l[i] += 1;
            if l[i] < k {
                break;
            }
            l[i] = 0;
            i += 1;
        }
        if i == n {
            return;
        }
    }
}

fn show(s: &Shape, lab: &[usize]) -> String {
    let l: Vec<String> = lab.iter().map(|&l| if l == DARK { "unreadable".into() } else { format!("{:?}", TEXTS[l]) }).collect();
    format!("{} with {}", shape::show(s), l.join(", "))
}

pub fn c19(cx: &mut Cx) {
    // Every labelling of every tree.
    for n in 1..=cx.pick(5, 6) {
        for s in shape::trees(n) {
            let m = Model::from_forest(&[s.clone()]);
            // Fewer texts for the largest sizes; each appears in some style.
            let k = match n {
                0..=4 => DARK + 1,
                5 => cx.pick(9, DARK + 1),
                _ => 7,
            };
            let name = move |l: usize| if n == 5 && l + 1 == k { DARK } else { l };
            for first in 0..k {
                if !cx.task() {
                    continue;
                }
                labels(n - 1, k, &mut |l| {
                    let mut lab = vec![name(first)];
                    lab.extend(l.iter().map(|&l| name(l)));
                    cx.case(|| format!("pretty {}", show(&s, &lab)), |run| guarded(|| pretty(&m, &lab, n <= 4, run)));
                });
            }
        }
    }
    // Larger trees with every constant labelling and every single exception.
    for n in 6..=cx.pick(8, 9) {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            let m = Model::from_forest(&[s.clone()]);
            for base in [0, 1, 2, 3] {
                for odd in 0..n {
                    for l in [0, 1, 2, 4, 9, DARK] {
                        let mut lab = vec![base; n];
                        lab[odd] = l;
                        cx.case(|| format!("pretty {}", show(&s, &lab)), |run| guarded(|| pretty(&m, &lab, false, run)));
                    }
                }
            }
        }
    }
    // Every fragmentation.
    for n in 1..=3 {
        for s in shape::trees(n) {
            let m = Model::from_forest(&[s.clone()]);
            for cuts in 0..16u32 {
                for empty in [false, true] {
                    if !cx.task() {
                        continue;
                    }
                    labels(n, DARK + 1, &mut |lab| {
                        cx.case(
                            || format!("pretty {} written in fragments {cuts:b} (empty ones: {empty})", show(&s, lab)),
                            |run| {
                                CUTS.with(|c| c.set(cuts));
                                EMPTY.with(|c| c.set(empty));
                                let r = guarded(|| pretty(&m, lab, false, run));
                                CUTS.with(|c| c.set(0));
                                EMPTY.with(|c| c.set(false));
                                r
                            },
                        );
                    });
                }
            }
        }
    }
    // Every sink running full.
    for n in 1..=cx.pick(3, 4) {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            let m = Model::from_forest(&[s.clone()]);
            labels(n, DARK + 1, &mut |lab| {
                cx.case(|| format!("sinks for {}", show(&s, lab)), |run| guarded(|| sinks(&m, lab, run)));
            });
        }
    }
    // Degenerate trees.
    let sizes: &[usize] = cx.pick(&[17, 33], &[9, 16, 17, 33, 64, 65]);
    for &n in sizes {
        for (name, s) in shape::families(n) {
            for k in 0..=DARK {
                if !cx.task() {
                    continue;
                }
                let m = Model::from_forest(&[s.clone()]);
                for stride in 1..=3 {
                    let lab: Vec<usize> = (0..n).map(|i| (k + i * stride) % (DARK + 1)).collect();
                    cx.case(
                        || format!("pretty {name} of {n} nodes with label {k} + {stride}i"),
                        |run| guarded(|| pretty(&m, &lab, false, run)),
                    );
                }
            }
        }
    }
    // Large trees as a whole.
    let mut large: Vec<(String, Shape)> = vec![];
    for n in cx.pick(vec![130, 258, 300, 520], vec![130, 258, 300, 520, 1030]) {
        large.extend(shape::families(n).into_iter().chain(shape::mixed(n)).map(|(t, s)| (t.to_owned(), s)));
    }
    for n in [255, 256, 257, 65535, 65536, 65537] {
        large.push(("star".into(), vec![0; n + 1]));
    }
    for (t, s) in large {
        let n = s.len();
        for base in [0, 1, 2, 4, 9] {
            if !cx.task() {
                continue;
            }
            let m = Model::from_forest(&[s.clone()]);
            for (odd, l) in [(0, base), (0, 2), (n - 1, 2), (n / 2, 5), (n - 1, DARK), (n / 2, DARK)] {
                let mut lab = vec![base; n];
                lab[odd] = l;
                cx.case(
                    || format!("pretty {t} of {n} nodes with label {base} and {l} at {odd}"),
                    |run| {
                        guarded(|| {
                            let v = build(&m, &|x| lab[x]);
                            let hold = v.clone();
                            let g: Vec<_> = (0..n).filter(|&x| lab[x] == DARK).map(|x| hold[x].borrow_data_mut()).collect();
                            let r = pretty_one(&m, &v, 0, &|y| lab[y], false);
                            drop(g);
                            run.step(4 * n as u64);
                            run.state(Fnv::new().u(m.hash()).u(base as u64).u(odd as u64).u(l as u64).get());
                            r
                        })
                    },
                );
            }
        }
    }
    for n in [9, 17, 31] {
        for (t, s) in shape::families(n).into_iter().chain(shape::mixed(n)) {
            if !cx.task() || s.len() > 32 {
                continue;
            }
            let n = s.len();
            let m = Model::from_forest(&[s.clone()]);
            for dark in std::iter::once(0u32).chain((0..n).map(|i| 1 << i)) {
                cx.case(
                    || format!("debug forms of {t} of {n} nodes with unreadable {dark:b}"),
                    |run| guarded(|| debug_forms(&m, dark, L::Free, run)),
                );
            }
        }
    }
    // Long texts.
    for n in 1..=3 {
        for s in shape::trees(n) {
            let m = Model::from_forest(&[s.clone()]);
            for l in 0..long().len() {
                if !cx.task() {
                    continue;
                }
                for x in 0..n {
                    for other in [0, 2] {
                        let mut lab = vec![other; n];
                        lab[x] = DARK + 1 + l;
                        cx.case(
                            || format!("pretty {} with long text {l} ({} bytes) at {x}, all others {other}", shape::show(&s), long()[l].len()),
                            |run| guarded(|| pretty(&m, &lab, false, run)),
                        );
                    }
                }
            }
        }
    }
    // Debug forms.
    for n in 1..=cx.pick(6, 7) {
        for s in shape::trees(n) {
            if !cx.task() {
                continue;
            }
            let m = Model::from_forest(&[s.clone()]);
            for dark in 0..1u32 << n {
                let locks: &[L] = if dark == 0 {
                    &[L::Free, L::Granted(1), L::Granted(2), L::Prohibited(1), L::Prohibited(2)]
                } else {
                    &[L::Free]
                };
                for &lock in locks {
                    cx.case(
                        || format!("debug forms of {} with unreadable {dark:b}, {lock:?}", shape::show(&s)),
                        |run| guarded(|| debug_forms(&m, dark, lock, run)),
                    );
                }
            }
        }
    }
}

fn main() {
    sup::main(&[Check {
        id: "C19",
        f: c19,
        bounds_quick: "pretty print of every subtree of every tree up to 5 nodes under every labelling with 10 texts (8 at 5 nodes; one-line, empty, several lines, newlines at the ends, looking like guides, spaces, tabs and carriage returns at line ends, non-ASCII) and unreadable, in 4 styles; every tree up to 8 nodes with one exceptional node; families of 130 to 520 nodes (thorough: 1030) and stars around 2^8 and 2^16 as a whole with one odd label, debug forms of families up to 31 nodes; long texts (characters of every width and newlines across every power of two up to 8192 bytes, up to 1025 lines) at every place of every tree up to 3 nodes; every fragmentation of the writes up to 3 nodes; every point at which the sink runs full up to 3 nodes; debug forms of every handle flavour for every tree up to 6 nodes and every subset of unreadable nodes and 5 lock states",
        bounds_thorough: "pretty print of every subtree of every tree up to 6 nodes (with 7 texts at 6) under every labelling with 10 texts and unreadable, in 4 styles; every tree up to 9 nodes with one exceptional node; families of 130 to 520 nodes (thorough: 1030) and stars around 2^8 and 2^16 as a whole with one odd label, debug forms of families up to 31 nodes; long texts (characters of every width and newlines across every power of two up to 8192 bytes, up to 1025 lines) at every place of every tree up to 3 nodes; every fragmentation of the writes up to 3 nodes; every point at which the sink runs full up to 4 nodes; debug forms of every handle flavour for every tree up to 7 nodes and every subset of unreadable nodes and 5 lock states",
        assumptions: &[
            "spaces at the end of lines without content and a newline at the very end of the pretty form are not judged",
            "whitespace in the debug forms is not judged, nor how the lock state of the tree is shown",
        ],
    }]);
}
