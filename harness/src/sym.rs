//! Symbolic inputs.
//!
//! Under the symbolic executor (`cfg(verif_sym)`) these functions are intercepted by name.
//! Natively they replay a recorded vector of values, one per `any_u8` call.
#[cfg(not(verif_sym))]
pub mod replay {
    use std::cell::RefCell;
    thread_local! {
        pub static VEC: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
        pub static NOTES: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    pub struct AssumeFailed;
    pub fn load(v: Vec<u8>) {
        VEC.with(|x| *x.borrow_mut() = (v, 0));
        NOTES.with(|x| x.borrow_mut().clear());
    }
    pub fn next() -> u8 {
        VEC.with(|x| {
            let mut x = x.borrow_mut();
            let i = x.1;
            x.1 += 1;
            x.0.get(i).copied().unwrap_or(0)
        })
    }
}

/// A fresh unconstrained byte.
#[inline(never)]
pub fn any_u8() -> u8 {
    #[cfg(verif_sym)]
    return 0;
    #[cfg(not(verif_sym))]
    return replay::next();
}
/// Restrict the explored inputs.
#[inline(never)]
pub fn assume(_b: bool) {
    #[cfg(not(verif_sym))]
    if !_b {
        std::panic::resume_unwind(Box::new(replay::AssumeFailed));
    }
}
/// Record an observation (compared between the symbolic and the native run).
#[inline(never)]
pub fn note_bytes(_b: &[u8]) {
    #[cfg(not(verif_sym))]
    replay::NOTES.with(|x| x.borrow_mut().push(_b.to_vec()));
}
/// Coverage label: proves that the situation is reachable (non-vacuity).
#[inline(never)]
pub fn reach(_id: u32) {}
/// Fork on every feasible value of `x`.
#[inline(never)]
pub fn concretize(x: u8) -> u8 {
    x
}

/// A symbolic choice in `0..n` (not forked until inspected).
pub fn choice(n: u8) -> u8 {
    let x = any_u8();
    assume(x < n);
    x
}
/// A forked choice in `0..n`.
pub fn pick(n: u8) -> u8 {
    if n == 1 {
        return 0;
    }
    concretize(choice(n))
}
pub fn flag() -> bool {
    pick(2) == 1
}
