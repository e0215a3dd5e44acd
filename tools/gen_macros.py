#!/usr/bin/env python3
"""Writes mc/src/macro_cases.rs: every legal spelling of every small tree, for C23."""
import itertools, os
out = []
def trees(n):
    """All ordered trees of n nodes as nested lists of kids."""
    if n == 1:
        return [[]]
    res = []
    def forests(k):
        if k == 0:
            yield []
            return
        for first in range(1, k + 1):
            for t in trees(first):
                for rest in forests(k - first):
                    yield [t] + rest
    return [f for f in forests(n - 1)]

def spell(t, bits, e):
    """Source of the arguments; `bits` yields the optional choices (0 = plainest)."""
    ctr = itertools.count()
    def lst(kids):
        if not kids:
            return "[]"
        s = ", ".join(node(k) for k in kids)
        return "[" + s + ("," if next(bits) else "") + "]"
    def node(k):
        d = e(next(ctr))
        if not k and not next(bits):
            return d
        return "/(" + d + ", " + lst(k) + ")"
    d = e(next(ctr))
    if not t and not next(bits):
        return d
    l = lst(t)
    return d + ", " + l + ("," if next(bits) else "")

class Bits:
    def __init__(self, pre):
        self.pre, self.used = pre, 0
    def __next__(self):
        b = self.pre[self.used] if self.used < len(self.pre) else 0
        self.used += 1
        return b
def choices(t):
    """All assignments of the optional choices."""
    stack = [[]]
    seen = []
    while stack:
        pre = stack.pop()
        b = Bits(pre)
        spell(t, b, lambda i: "")
        if b.used > len(pre):
            for v in (1, 0):
                stack.append(pre + [v])
        else:
            seen.append(pre)
    return seen
class Const:
    def __init__(self, v): self.v = v
    def __next__(self): return self.v

def par(t):
    p = []
    def rec(k, q):
        i = len(p)
        p.append(q)
        for c in k:
            rec(c, i)
    rec(t, 0)
    return p
e = lambda i: "e(%d)" % i
node_cases, tree_cases = [], []
for n in range(1, 7):
    for t in trees(n):
        if n <= 5:
            src = [spell(t, Bits(c), e) for c in choices(t)]
        else:
            src = [spell(t, Const(v), e) for v in (0, 1)]
        for k, s in enumerate(src):
            node_cases.append((par(t), s))
            if n <= 3 or k in (0, len(src) - 1):
                tree_cases.append((par(t), s))
            if n >= 4 and 0 < k < len(src) - 1 and k % 7 == 3:
                tree_cases.append((par(t), s))
w = out.append
w("// Generated by tools/gen_macros.py.")
w("")
w("use dendron::{tree, tree_node, Node, Tree};")
w("use mc::data::D;")
w("")
w("type E<'a> = &'a mut dyn FnMut(u32) -> D;")
w("pub struct NodeCase {\n    pub par: &'static [usize],\n    pub src: &'static str,\n    pub f: fn(E) -> Node<D>,\n}")
w("pub struct TreeCase {\n    pub par: &'static [usize],\n    pub src: &'static str,\n    pub f: fn(E) -> Tree<D>,\n}")
w("")
w("pub const NODES: &[NodeCase] = &[")
for p, s in node_cases:
    w("    NodeCase { par: &%s, src: %s, f: |e| tree_node! { %s } }," % (p, '"' + s + '"', s))
w("];")
w("")
w("pub const TREES: &[TreeCase] = &[")
for p, s in tree_cases:
    w("    TreeCase { par: &%s, src: %s, f: |e| tree!(%s) }," % (p, '"' + s + '"', s))
w("];")
w("")
# Expressions of every kind in every position; each evaluates to the number of its node (100 + i).
kinds = [
    ("literal", "103"), ("negated", "-(-103)"), ("quotient", "206 / 2"), ("field of a tuple", "(1, 103).1"),
    ("block", "{ let root = 100; let node = 3; root + node }"), ("if", "if one == 1 { 103 } else { 4 }"),
    ("match", "match one { 1 => 103, _ => 0 }"), ("index", "[1, 2, 103][2]"), ("struct", "S { v: 103 }.v"),
    ("generic call", "same::<i32>(103)"), ("loop", "loop { break 103 }"), ("closure call", "(|x: i32| x + 3)(100)"),
    ("cast", "103u8 as i32"), ("reference", "*&103"), ("macro", "vec![1, 103, 2][1]"),
    ("nested tree", "tree_node!(103, [4, /(5, [6])]).borrow_data().clone()"),
    ("nested tree of the tree", "*tree! { 1, [/(2, []), 103] }.root().last_child().unwrap().borrow_data()"),
    ("variable named root", "root"), ("variable named node", "node"), ("variable named parent", "parent"),
    ("variable named data", "data"), ("method chain", "Some(102).map(|x| x + 1).unwrap_or(0)"),
    ("comparison chain", "if (1 < 2) as i32 == 1 { 103 } else { 0 }"), ("parenthesised", "(103)"),
    ("shift", "(103 << 1) >> 1"), ("question mark", "Some(103)?"), ("unsafe", "unsafe { std::hint::black_box(103) }"),
]
holes = [
    ("single root", "%s", "103"),
    ("root", "%s, [1, 2]", "103 1 2"),
    ("only leaf", "0, [%s]", "0 103"),
    ("only leaf with a comma", "0, [%s,]", "0 103"),
    ("first leaf", "0, [%s, 2]", "0 103 2"),
    ("last leaf", "0, [1, %s]", "0 1 103"),
    ("leaf before an inner node", "0, [%s, /(2, [3])]", "0 103 2 3"),
    ("leaf after an inner node", "0, [/(1, [2]), %s]", "0 1 2 103"),
    ("only inner node", "0, [/(%s, [2])]", "0 103 2"),
    ("first inner node", "0, [/(%s, [2]), 3]", "0 103 2 3"),
    ("last inner node", "0, [1, /(%s, [3, 4])]", "0 1 103 3 4"),
    ("childless inner node", "0, [/(%s, []), 2]", "0 103 2"),
    ("deep leaf", "0, [/(1, [/(2, [%s])]), 4]", "0 1 2 103 4"),
]
w("pub struct S {\n    pub v: i32,\n}")
w("pub fn same<X>(x: X) -> X {\n    x\n}")
w("pub struct ExprCase {\n    pub kind: &'static str,\n    pub hole: &'static str,\n    pub want: &'static str,\n    pub f: fn(i32) -> Option<Node<i32>>,\n}")
w("#[allow(unused_variables, unused_parens, unused_unsafe, clippy::all)]")
w("pub const EXPRS: &[ExprCase] = &[")
for k, x in kinds:
    for h, tmpl, want in holes:
        src = tmpl % x
        w("    ExprCase { kind: \"%s\", hole: \"%s\", want: \"%s\", f: |one| { let (root, node, parent, data) = (103, 103, 103, 103); let r: Node<i32> = tree_node!(%s); Some(r) } }," % (k, h, want, src))
w("];")
# Large flat and deep trees within the default recursion limit.
w("")
w("pub const LARGE: &[TreeCase] = &[")
def big(name, par_, src):
    w("    TreeCase { par: &%s, src: \"%s\", f: |e| tree!(%s) }," % (par_, name, src))
def tree_big(name, t, bit):
    big(name, par(t), spell(t, Const(bit), e))
def leaves(n): return [[] for _ in range(n)]
def chain(n, end):
    for _ in range(n):
        end = [end]
    return end
def alt(n, k, first): return [leaves(k) if i % 2 == first else [] for i in range(n)]
for bit in (0, 1):
    s = " (fullest)" if bit else ""
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 56):
        tree_big("star of %d leaves%s" % (n, s), leaves(n), bit)
    for n in (8, 16, 24, 32, 40):
        tree_big("chain of %d nodes%s" % (n, s), chain(n - 1, []), bit)
        tree_big("chain of %d nodes with 3 leaves%s" % (n, s), chain(n - 1, leaves(3)), bit)
    for n in (8, 9, 16, 17, 24):
        for first in (0, 1):
            tree_big("%d children, every other one with 2 leaves, from %d%s" % (n, first, s), alt(n, 2, first), bit)
    for k in range(10):
        tree_big("9 leaves around an inner node at %d%s" % (k, s), leaves(k) + [leaves(2)] + leaves(9 - k), bit)
    t = []
    for i in range(16):
        t = [[], t, []] if i % 2 else [t, []]
    tree_big("comb of 16 levels" + s, t, bit)
w("];")
p = os.path.join(os.path.dirname(__file__), "../mc/src/macro_cases.rs")
open(p, "w").write("\n".join(out) + "\n")
print(len(node_cases), len(tree_cases), len(kinds) * len(holes))
