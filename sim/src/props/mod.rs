//! The properties: workload generators and oracles.
use crate::engine::{Case, Tier};
use crate::rng::Rng;
use serde_json::Value;

pub mod conc;
pub mod ffi;
pub mod io;
pub mod robust;
pub mod util;

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// fill in the workload (body), fault plan and knobs of a case
    fn gen(&self, r: &mut Rng, tier: Tier, c: &mut Case);
    /// may the minimiser use this body?
    fn valid(&self, body: &Value) -> bool;
    /// execute inside the simulation; returns when every oracle is satisfied
    fn run(&self, c: &Case);
    /// (number of runs, wall cap in seconds)
    fn budget(&self, tier: Tier) -> (u64, u64);
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the simulator explores sequentially consistent interleavings at atomic operations, futex calls, user callbacks and system calls; weak-memory reorderings are outside its reach".into(),
            "seeded search samples schedules and faults, it does not enumerate them".into(),
        ]
    }
    fn probes(&self) -> Vec<&'static str> {
        vec![]
    }
    fn uses_pool(&self) -> bool {
        true
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    let mut v: Vec<&'static dyn Prop> = vec![];
    for p in conc::PROPS.iter() {
        v.push(p);
    }
    for p in robust::PROPS.iter() {
        v.push(p);
    }
    v.push(&ffi::PROP);
    for p in io::PROPS.iter() {
        v.push(p);
    }
    v
}

pub fn find(id: &str) -> &'static dyn Prop {
    for p in all() {
        if p.id() == id {
            return p;
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
