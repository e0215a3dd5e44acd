//! C18 (data borrows), C22 (stack use), C24 (panics in user code), C25 (re-entrant user code).

use mc::sup::{self, Check};

#[path = "../borrow.rs"]
mod borrow;
#[path = "../stack.rs"]
mod stack;
#[path = "../faults.rs"]
mod faults;
#[path = "../reenter.rs"]
mod reenter;

fn main() {
    sup::main(&[
        Check { id: "C18", f: borrow::c18, bounds_quick: borrow::Q, bounds_thorough: borrow::T, assumptions: borrow::A },
        Check { id: "C22", f: stack::c22, bounds_quick: stack::Q, bounds_thorough: stack::T, assumptions: stack::A },
        Check { id: "C24", f: faults::c24, bounds_quick: faults::Q, bounds_thorough: faults::T, assumptions: faults::A },
        Check { id: "C25", f: reenter::c25, bounds_quick: reenter::Q, bounds_thorough: reenter::T, assumptions: reenter::A },
    ]);
}
