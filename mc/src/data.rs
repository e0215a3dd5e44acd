//! Instrumented node data.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Life {
    Live,
    Dropped,
}

/// Registry of all data values of one execution.
#[derive(Default)]
pub struct Reg {
    life: RefCell<Vec<Life>>,
    /// First lifetime error (double drop).
    pub error: RefCell<Option<String>>,
    /// Fault injection: the n-th next call into user code panics (0 = off).
    pub fuse: Cell<u64>,
    /// Number of calls into user code so far.
    pub calls: Cell<u64>,
    /// Number of live values.
    pub live: Cell<usize>,
    /// Whether destructors count as calls into user code.
    pub drops_tick: Cell<bool>,
    /// Runs once inside the n-th next call into user code.
    pub hook: RefCell<Option<(u64, Box<dyn FnOnce(&'static str)>)>>,
    /// Text of the call the fuse ran out in.
    pub blown: Cell<Option<&'static str>>,
}

impl Reg {
    pub fn new() -> Rc<Reg> {
        Rc::new(Reg::default())
    }
    pub fn is_live(&self, tag: u32) -> bool {
        self.life.borrow()[tag as usize] == Life::Live
    }
    pub fn count(&self) -> usize {
        self.life.borrow().len()
    }
    pub fn live_tags(&self) -> Vec<u32> {
        self.life
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, l)| **l == Life::Live)
            .map(|(i, _)| i as u32)
            .collect()
    }
    fn born(&self) -> u32 {
        let mut l = self.life.borrow_mut();
        l.push(Life::Live);
        self.live.set(self.live.get() + 1);
        (l.len() - 1) as u32
    }
    /// A call into user code; panics if the fuse runs out here.
    pub fn tick(&self, what: &'static str) {
        self.calls.set(self.calls.get() + 1);
        let due = match self.hook.borrow_mut().as_mut() {
            None => false,
            Some((n, _)) => {
                *n -= 1;
                *n == 0
            }
        };
        if due {
            let h = self.hook.borrow_mut().take();
            if let Some((_, h)) = h {
                h(what);
            }
        }
        let f = self.fuse.get();
        if f > 0 {
            self.fuse.set(f - 1);
            if f == 1 {
                self.blown.set(Some(what));
                panic!("injected fault in {what}");
            }
        }
    }
}

/// Node data: `tag` identifies the instance, `val` is the value.
pub struct D {
    pub tag: u32,
    pub val: u32,
    pub reg: Rc<Reg>,
}

impl D {
    pub fn new(reg: &Rc<Reg>, val: u32) -> D {
        D {
            tag: reg.born(),
            val,
            reg: reg.clone(),
        }
    }
}

impl Drop for D {
    fn drop(&mut self) {
        {
            let mut l = self.reg.life.borrow_mut();
            if l[self.tag as usize] == Life::Dropped {
                *self.reg.error.borrow_mut() = Some(format!("data #{} dropped twice", self.tag));
            }
            l[self.tag as usize] = Life::Dropped;
        }
        self.reg.live.set(self.reg.live.get() - 1);
        if self.reg.drops_tick.get() && !std::thread::panicking() {
            self.reg.tick("drop");
        }
    }
}

impl Clone for D {
    fn clone(&self) -> D {
        self.reg.tick("clone");
        D::new(&self.reg, self.val)
    }
}

impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.reg.tick("eq");
        self.val == o.val
    }
}
impl Eq for D {}

impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.reg.tick("fmt");
        write!(f, "d{}", self.val)
    }
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.reg.tick("fmt");
        write!(f, "{}", self.val)
    }
}
