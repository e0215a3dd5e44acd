//! Traversals of trees whose depth or number of children lies around 2^8 and 2^16.

use mc::sup::beat;

use super::*;

struct L {
    s: Shape,
    depth: Vec<usize>,
    end: Vec<usize>,
    n: Vec<N>,
}

impl L {
    fn new(s: &Shape) -> L {
        let g0: Node<usize> = Node::new_tree(0);
        let g = g0.tree().grant_hierarchy_edit().expect("harness");
        let mut n = vec![g0];
        for i in 1..s.len() {
            let c = n[s[i]].create_as_last_child(&g, i);
            n.push(c);
        }
        L { s: s.clone(), depth: shape::depths(s), end: shape::ends(s), n }
    }
    fn f(&self, x: usize) -> F {
        self.n[x].clone().bundle_new_hierarchy_edit_prohibition().expect("harness")
    }
    fn events(&self, x: usize) -> Vec<V> {
        shape::events(&self.s, x).into_iter().map(|(o, y)| ev(o, y)).collect()
    }
    fn shallow(&self, x: usize, max: Option<usize>) -> Vec<V> {
        let d0 = self.depth[x];
        let mut e = self.events(x);
        for x in &mut e {
            x.depth = self.depth[x.node] - d0;
        }
        e.retain(|e| max.is_none_or(|m| e.depth <= m));
        e
    }
    fn breadth(&self, x: usize, from: usize) -> Vec<V> {
        let d0 = self.depth[x];
        let mut r: Vec<V> = (x..self.end[x]).map(|y| vd(y, self.depth[y] - d0)).filter(|e| e.depth >= from).collect();
        r.sort_by_key(|e| e.depth); // stable
        r
    }
    fn kids(&self, x: usize) -> Vec<V> {
        let mut v = vec![];
        let mut i = x + 1;
        while i < self.end[x] {
            v.push(vd(i, 0));
            i = self.end[i];
        }
        v
    }
}

/// Some nodes worth starting from.
fn starts(n: usize) -> Vec<usize> {
    let mut v = if n < 9_000 { vec![0, 1, n / 2, n - 2, n - 1] } else { vec![0, 1, n - 1] };
    v.dedup();
    v
}

fn short(w: &[V]) -> String {
    if w.len() <= 6 { format!("{w:?}") } else { format!("{:?}…{:?} ({})", &w[..3], &w[w.len() - 3..], w.len()) }
}

/// From both ends, alternating, and through the provided methods.
fn long<T: Trav>(run: &mut Run, make: impl Fn() -> T, want: &[V]) -> Res {
    let seqs: &[&[Step]] = &[
        &[Step::Front],
        &[Step::Back],
        &[Step::Front, Step::Back],
        &[Step::Back, Step::Back, Step::Front],
    ];
    for s in seqs {
        if s.contains(&Step::Back) && !T::BACK {
            continue;
        }
        let mut t = make();
        let (mut i, mut j) = (0, want.len());
        for k in 0..want.len() + 2 {
            let rest = &want[i..j];
            if t.peek().is_some_and(|p| p.as_ref() != rest.first()) || t.peek_back().is_some_and(|p| p.as_ref() != rest.last()) {
                return Err(format!("{s:?} {k} times: wrong peek {:?} {:?}, to come {}", t.peek(), t.peek_back(), short(rest)));
            }
            let (lo, hi) = t.hint();
            if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
                return Err(format!("{s:?} {k} times: size_hint() = ({lo}, {hi:?}), to come {}", short(rest)));
            }
            let (got, exp) = if s[k % s.len()] == Step::Front {
                (t.next(), rest.first())
            } else {
                (t.next_back(), rest.last())
            };
            if got.as_ref() != exp {
                return Err(format!("{s:?} {k} times: gave {got:?}, to come {}", short(rest)));
            }
            if i < j {
                if s[k % s.len()] == Step::Front {
                    i += 1;
                } else {
                    j -= 1;
                }
            }
        }
        run.step(want.len() as u64);
        beat();
    }
    if T::CLOSE {
        let mut at = vec![0, 1, 2, want.len() / 2, want.len().saturating_sub(2)];
        at.retain(|&k| k <= want.len());
        for k in at {
            let mut t = make();
            for _ in 0..k {
                t.next();
            }
            let mut rest: VecDeque<V> = want[k..].iter().copied().collect();
            let (got, exp) = (t.close_current(), close_model(&mut rest));
            let next = t.next();
            if got != exp || next.as_ref() != rest.front() {
                return Err(format!("close_current after {k} steps gave {got:?}, then {next:?}"));
            }
        }
    }
    let n = want.len();
    // Jumps: the item, and what follows it (as far as the harness reads).
    for k in [0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 255, 256, 257] {
        if k > n + 1 || n > 9_000 && k + 9_000 < n {
            continue;
        }
        beat();
        let (x, more) = make().nth(k);
        if x.as_ref() != want.get(k) || !more.iter().eq(want.iter().skip(k + 1)) {
            return Err(format!("nth({k}) of {n} = {x:?}, then {} items", more.len()));
        }
        if T::BACK {
            let (x, more) = make().nth_back(k);
            let w = n.checked_sub(k + 1).map(|i| want[i]);
            if x != w || !more.iter().eq(want.iter().rev().skip(k + 1)) {
                return Err(format!("nth_back({k}) of {n} = {x:?}, then {} items", more.len()));
            }
        }
    }
    // Clones, and calls that must not matter, in the middle of the way.
    for k in [0, 1, 2, 17, 33, 65, n / 4, n / 2, 129, 257, n.saturating_sub(3), n] {
        if k > n || n > 9_000 && k != n / 2 {
            continue;
        }
        beat();
        for fuss in if n > 9_000 { T::FUSS.min(3)..=T::FUSS.min(3) } else { 0..=T::FUSS } {
            for back in [false, true] {
                if back && !T::BACK {
                    continue;
                }
                let mut t = make();
                for _ in 0..k {
                    let _ = if back { t.next_back() } else { t.next() };
                }
                let rest = if back { &want[..n - k] } else { &want[k..] };
                let at = || format!("after {k} steps ({}), fuss {fuss}", if back { "back" } else { "front" });
                if fuss > 0 {
                    t.fuss(fuss - 1);
                }
                let c = t.clone();
                if t.fold() != rest {
                    return Err(format!("{}: what is left differs", at()));
                }
                if c.fold() != rest {
                    return Err(format!("{}: what is left to a clone differs", at()));
                }
            }
        }
    }
    beat();
    let c = make().count();
    if c != n {
        return Err(format!("count() = {c}, expected {n}"));
    }
    let l = make().last();
    if l.as_ref() != want.last() {
        return Err(format!("last() = {l:?}"));
    }
    if make().fold() != want {
        return Err("fold differs".into());
    }
    if T::BACK && !make().rfold().iter().eq(want.iter().rev()) {
        return Err("rfold differs".into());
    }
    let mut h = Fnv::new();
    h.u(want.len() as u64).s(&short(want)).s(std::any::type_name::<T>());
    run.state(h.get());
    Ok(())
}

fn each(cx: &mut Cx, what: &str, bits: &[(u32, bool)], f: impl Fn(&mut Run, &L, usize) -> Res) {
    for &(b, families) in bits {
        for (name, s) in shape::boundary(b, families) {
            let mut t = None;
            for i in 0..starts(s.len()).len() {
                if !cx.task() {
                    continue;
                }
                let x = starts(s.len())[i];
                let t = t.get_or_insert_with(|| L::new(&s));
                cx.case(|| format!("{what}: {name}, from node {x}"), |run| f(run, t, x).map_err(|e| format!("at {x}: {e}")));
            }
        }
    }
}

pub fn c10(cx: &mut Cx) {
    each(cx, "depth-first", &[(8, true), (16, cx.pick(0, 1) == 1)], |run, t, x| {
        let e = t.events(x);
        long(run, || t.n[x].depth_first_traverse(), &e)?;
        long(run, || t.n[x].depth_first_reverse_traverse(), &rev(e.clone()))?;
        long(run, || t.f(x).depth_first_traverse(), &e)?;
        long(run, || t.f(x).depth_first_reverse_traverse(), &rev(e))?;
        let e = DftEvent::Open(t.n[x].clone());
        if e.close_current().map(|n| id(&n)) != Some(x) {
            return Err("close_current of its open event".into());
        }
        Ok(())
    });
}

pub fn c11(cx: &mut Cx) {
    each(cx, "stable depth-first", &[(8, true), (16, cx.pick(0, 1) == 1)], |run, t, x| {
        let f = t.f(x);
        long(run, || f.depth_first_traverse_stable(), &t.events(x))?;
        let h = (x..t.end[x]).map(|y| t.depth[y] - t.depth[x]).max().unwrap();
        for d in [None, Some(0), Some(1), Some(254), Some(255), Some(256), Some(65534), Some(65535), Some(65536), Some(h.saturating_sub(1)), Some(h)] {
            long(run, || f.shallow_depth_first_traverse_stable(d), &t.shallow(x, d)).map_err(|e| format!("down to {d:?}: {e}"))?;
        }
        Ok(())
    });
}

pub fn c12(cx: &mut Cx) {
    each(cx, "breadth-first", &[(8, true), (16, cx.pick(0, 1) == 1)], |run, t, x| {
        let f = t.f(x);
        let h = (x..t.end[x]).map(|y| t.depth[y] - t.depth[x]).max().unwrap();
        for d in [0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 65537, h.saturating_sub(1), h, h + 1] {
            let w = t.breadth(x, d);
            long(run, || f.allocating_breadth_first_traverse_stable(d), &w).map_err(|e| format!("from {d}: {e}"))?;
            // One walk over the tree per level.
            if (h + 1).saturating_sub(d) * (t.end[x] - x) < 400_000 {
                long(run, || f.non_allocating_breadth_first_traverse_stable(d), &w)
                    .map_err(|e| format!("non-allocating from {d}: {e}"))?;
            }
        }
        Ok(())
    });
}

pub fn c13(cx: &mut Cx) {
    each(cx, "siblings and ancestors", &[(8, true), (16, false)], |run, t, x| {
        let node = &t.n[x];
        let f = t.f(x);
        let kids = t.kids(x);
        let sibs = if x == 0 { vec![v(0)] } else { t.kids(t.s[x]) };
        let p = sibs.iter().position(|y| y.node == x).ok_or("harness")?;
        let mut anc = vec![v(x)];
        let mut y = x;
        while y != 0 {
            y = t.s[y];
            anc.push(v(y));
        }
        long(run, || node.children(), &kids)?;
        long(run, || node.children_reverse(), &rev(kids.clone()))?;
        long(run, || node.ancestors(), &anc[1..])?;
        long(run, || node.ancestors_or_self(), &anc)?;
        long(run, || node.siblings(), &sibs)?;
        long(run, || node.siblings_reverse(), &rev(sibs.clone()))?;
        long(run, || node.preceding_siblings_or_self_reverse(), &rev(sibs[..=p].to_vec()))?;
        long(run, || node.following_siblings(), &sibs[p + 1..])?;
        long(run, || f.children_stable(), &kids)?;
        long(run, || f.siblings_stable(), &sibs)?;
        long(run, || f.preceding_siblings_or_self_stable(), &sibs[..=p])?;
        long(run, || f.following_siblings_or_self_stable(), &sibs[p..])
    });
}
