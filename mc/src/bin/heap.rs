//! C26 (heap): everything is given back, repeated work accumulates nothing, and what is documented
//! not to allocate does not.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

use mc::history::{self, See};
use mc::kinds::{self, Own, Part};
use mc::model::Model;
use mc::shape::{self, Shape};
use mc::sup::{self, catch, Check, Cx, Fnv, Res, Run};
use mc::{many, pump, together};

#[allow(dead_code)]
#[path = "edits.rs"]
mod edits;
#[allow(dead_code)]
#[path = "../faults.rs"]
mod faults;
#[allow(dead_code)]
#[path = "iters.rs"]
mod iters;
#[allow(dead_code)]
#[path = "life.rs"]
mod life;
#[allow(dead_code)]
#[path = "locks.rs"]
mod locks;
#[allow(dead_code)]
#[path = "../reenter.rs"]
mod reenter;
#[allow(dead_code)]
#[path = "serial.rs"]
mod serial;

struct Counting;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static EVER: AtomicI64 = AtomicI64::new(0);

// SAFETY: passes everything on.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i64, Relaxed);
            EVER.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i64, Relaxed);
            EVER.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            BYTES.fetch_add(new as i64 - l.size() as i64, Relaxed);
            EVER.fetch_add(1, Relaxed);
        }
        q
    }
}

#[global_allocator]
static HEAP: Counting = Counting;

fn meter() -> (i64, i64) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}

// ---------------------------------------------------------------------------------------------
// Repeated work.

use mc::chores::WORK;

const ROUNDS: [usize; 2] = [40, 160];

fn work(m: &Model, a: usize, b: Option<usize>, x: usize, y: usize, run: &mut Run) -> Res {
    kinds::reset();
    let n = kinds::build::<Own>(m);
    let mut at = [(0, 0); 2];
    for (k, rounds) in ROUNDS.into_iter().enumerate() {
        for i in 0..rounds {
            for w in [Some(a), b].into_iter().flatten() {
                catch(|| WORK[w].1(&n[x], &n[y])).map_err(|p| format!("round {i} of {}: {p}", WORK[w].0))?;
            }
        }
        at[k] = meter();
        run.step(rounds as u64);
    }
    if at[1].0 > at[0].0 || at[1].1 > at[0].1 {
        return Err(format!(
            "{} more rounds have taken {} heap blocks of {} bytes",
            ROUNDS[1],
            at[1].0 - at[0].0,
            at[1].1 - at[0].1
        ));
    }
    let ts: Vec<usize> = m.live_trees().collect();
    kinds::structure(&n, m, &ts)?;
    drop(n);
    if kinds::live() != 0 {
        return Err(format!("{} data values are left", kinds::live()));
    }
    let mut h = Fnv::new();
    h.u(m.hash()).u(a as u64).u(b.map_or(0, |b| b as u64 + 1)).u(x as u64).u(y as u64);
    run.state(h.get());
    Ok(())
}

fn repeated(cx: &mut Cx) {
    for (n, pairs) in [(1, true), (2, true), (3, false), (3, true), (4, false), (5, false)] {
        if n + usize::from(pairs) > cx.pick(4, 6) || n == 3 && pairs && !cx.thorough() {
            continue;
        }
        for f in shape::forests(n) {
            let m = Model::from_forest(&f);
            for a in 0..WORK.len() {
                if !cx.task() {
                    continue;
                }
                for b in 0..if pairs { WORK.len() } else { 1 } {
                    let b = pairs.then_some(b);
                    for x in 0..n {
                        for y in 0..n {
                            let mut text = format!("{} at {x} and {y}: {}", m.show(), WORK[a].0);
                            if let Some(b) = b {
                                text.push_str(&format!(", then {}", WORK[b].0));
                            }
                            cx.case(|| text.clone(), |run| work(&m, a, b, x, y, run));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// What does not allocate.

fn silent(s: &Shape, x: usize, start: usize, run: &mut Run) -> Res {
    let m = Model::from_forest(std::slice::from_ref(s));
    let n = kinds::build::<Own>(&m);
    let h = n[x].clone().bundle_new_hierarchy_edit_prohibition().expect("harness: freezable");
    let k = h.clone();
    let before = EVER.load(Relaxed);
    let mut it = k.non_allocating_breadth_first_traverse_stable(start);
    let mut count = 0;
    loop {
        let _ = it.size_hint();
        let mut other = it.clone();
        let b = it.next();
        let _ = other.next();
        if b.is_none() {
            break;
        }
        count += 1;
    }
    let _ = it.next();
    drop(it);
    let used = EVER.load(Relaxed) - before;
    if used != 0 {
        return Err(format!("the non-allocating breadth-first traversal of {count} nodes has allocated {used} times"));
    }
    run.step(count as u64);
    let mut f = Fnv::new();
    f.u(m.hash()).u(x as u64).u(start as u64).u(1);
    run.state(f.get());
    Ok(())
}

fn silence(cx: &mut Cx) {
    let mut shapes: Vec<(String, Shape)> = vec![];
    for n in 1..=cx.pick(7, 8) {
        shapes.extend(shape::trees(n).into_iter().map(|s| (shape::show(&s), s)));
    }
    for n in [9, 17, 33, 65] {
        shapes.extend(shape::families(n).into_iter().chain(shape::mixed(n)).map(|(t, s)| (format!("{t} with {} nodes", s.len()), s)));
    }
    for (t, s) in shapes {
        if !cx.task() {
            continue;
        }
        let xs: Vec<usize> = if s.len() < 9 { (0..s.len()).collect() } else { vec![0, 1, s.len() / 2] };
        for x in xs {
            for start in 0..=s.len().min(8) {
                cx.case(|| format!("{t}: breadth first from {x}, starting at depth {start}"), |run| silent(&s, x, start, run));
            }
        }
    }
}

fn c26(cx: &mut Cx) {
    let _ = sup::METER.set(meter);
    cx.lighter = 1;
    let only = std::env::var("HEAP_ONLY").ok();
    let legs: [(&str, fn(&mut Cx)); 16] = [
        ("repeated", repeated),
        ("silence", silence),
        ("abandoned", together::abandoned),
        ("history", |cx| history::explore(cx, See::Released)),
        ("kinds", |cx| kinds::explore(cx, Part::Gone)),
        ("steady", |cx| {
            pump::edits(cx, pump::Part::Gone);
            pump::locks(cx);
        }),
        ("life", |cx| life::explore(cx, life::Prop::C05)),
        ("dtor", |cx| life::dtor::explore(cx)),
        ("locks", |cx| locks::explore(cx, locks::Prop::C09)),
        ("events", serial::c14),
        ("edits", iters::edit::explore),
        ("thin", |cx| {
            for n in 1..=cx.size(5, 6) {
                edits::thin(cx, edits::P::C02, n, 1);
            }
        }),
        ("builder", serial::c15),
        ("faults", faults::c24),
        ("reenter", reenter::c25),
        ("many", |cx| many::explore(cx, many::Prop::C06)),
    ];
    for (name, leg) in legs {
        if only.as_deref().map_or(true, |o| o == name) {
            leg(cx);
        }
    }
}

const Q: &str = "every case below run again from start to end with the heap counted before and after: every history of handle operations and edits of length 1 from every forest up to 3 nodes, of length 2 up to 2 nodes, of length 3 from 1 node; every edit from every forest up to 4 nodes after everything was asked of everything, and four programs of 3n to 5n edits after every edit up to 5 nodes; every edit with every kind of last handle and five kinds of data up to 4 nodes and at extreme places of families up to 65 and around 2^8 nodes; every history of lock operations after every consistent set of initial locks as for C09; destructors that act, on trees up to 2 nodes next to trees up to 3, that look up to 4; every builder call sequence up to length 7 (10 with the essential letters) and as for C15 otherwise; a panic in every call of user code in every operation up to 5 nodes; every call from within user code up to 3 nodes; every iterator of every kind at every node of every forest up to 5 nodes left after every number of steps, one or two unlocked iterators with one edit up to 4 nodes, two edits up to 3; repeated work: each of 20 kinds of work that leaves everything as it was, 200 times at every two nodes of every forest up to 4 nodes, every two kinds up to 2 nodes, edits that restore the shape 65540 times and every two ways of locking 520 times next to every kind of held lock, with no growth of the heap after the first rounds; the non-allocating breadth-first traversal with clones of it at every step, from every node and 1 to 9 starting depths of every tree up to 7 nodes and at extreme places of families up to 65 nodes, allocates nothing";
const T: &str = "as quick, with one node or one step more in each";
const A: &[&str] = &[
    "memory is what goes through the global allocator",
    "what the first run of a case allocates and the second does not is allocated once and for all, and no leak",
];

fn main() {
    sup::main(&[Check { id: "C26", f: c26, bounds_quick: Q, bounds_thorough: T, assumptions: A }]);
}
