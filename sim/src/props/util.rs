//! Pieces shared by the workloads.
use crate::engine::Injected;
use crate::rt;
use hnsw_rs::prelude::*;
use std::cell::Cell;

/// calls until an injected panic on this thread (0: never), and whether it went off
thread_local! {
    pub static DIST_BOMB: Cell<u64> = const { Cell::new(0) };
    pub static FILTER_BOMB: Cell<u64> = const { Cell::new(0) };
    pub static FIRED: Cell<bool> = const { Cell::new(false) };
}
pub static mut POOL_BOMB: u64 = 0;
pub static mut POOL_FIRED: u64 = 0;

fn count_down(b: &Cell<u64>) -> bool {
    let v = b.get();
    if v > 0 {
        b.set(v - 1);
    }
    v == 1
}
#[inline]
fn bomb() {
    if DIST_BOMB.with(count_down) {
        FIRED.with(|x| x.set(true));
        rt::probe(0);
        std::panic::panic_any(Injected);
    }
    if !rt::on_pool() {
        return;
    }
    let g = unsafe {
        let p = &raw mut POOL_BOMB;
        if *p > 0 {
            *p -= 1;
            *p == 0
        } else {
            false
        }
    };
    if g {
        unsafe { *(&raw mut POOL_FIRED) += 1 };
        rt::probe(0);
        std::panic::panic_any(Injected);
    }
}
pub fn filter_bomb() {
    if FILTER_BOMB.with(count_down) {
        FIRED.with(|x| x.set(true));
        rt::probe(0);
        std::panic::panic_any(Injected);
    }
}

/// L1 distance on small integer coordinates (exact in f32); a scheduling point and, when armed, a panic site
#[derive(Default, Clone, Copy)]
pub struct SimDist;
pub fn l1(a: &[f32], b: &[f32]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
}
impl Distance<f32> for SimDist {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        rt::point(rt::K_USER);
        bomb();
        l1(a, b)
    }
}

/// run one operation of a workload thread; a panic raised by the library is a violation
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                rt::harness_error("injected panic where none was expected");
            }
            crate::engine::panic_violation(what)
        }
    }
}

#[macro_export]
macro_rules! violate {
    ($cls:expr, $($a:tt)*) => { $crate::rt::fail($cls, &format!($($a)*)) };
}
