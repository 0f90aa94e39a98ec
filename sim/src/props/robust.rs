//! Resources, panicking callbacks, flattening, recall.
use super::conc::{fv, population_of, Pt};
use super::io::{fault, Elem, GDist, GDist2, Ix};
use super::util::*;
use super::Prop;
use crate::engine::{Case, Injected, Tier};
use crate::rng::Rng;
use crate::rt;
use crate::violate;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Op {
    /// bomb: the distance panics at its n-th evaluation on this thread during the call (0: never)
    Insert { p: Pt, bomb: u64 },
    /// bomb: the distance panics at its n-th evaluation anywhere
    Par { pts: Vec<Pt>, bomb: u64 },
    Search { q: Vec<i32>, k: usize, ef: usize, bomb: u64 },
    ParSearch { qs: Vec<Vec<i32>>, k: usize, ef: usize, bomb: u64 },
    Filter { q: Vec<i32>, k: usize, ef: usize, modulus: usize, bomb: u64, fbomb: u64 },
    Iter { bombless: u8 },
    Flat,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Rob {
    pub m: usize,
    pub max_layer: usize,
    pub efc: usize,
    pub keep: bool,
    pub extend: bool,
    pub scale: u32,
    pub pre: Vec<Pt>,
    pub threads: Vec<Vec<Op>>,
    /// inserted after the concurrent phase
    #[serde(default)]
    pub post: Vec<Pt>,
    #[serde(default)]
    pub mmap: bool,
    #[serde(default)]
    pub cycles: usize,
    #[serde(default)]
    pub flavor: u32,
    #[serde(default)]
    pub dim: usize,
    #[serde(default)]
    pub queries: usize,
    #[serde(default)]
    pub dseed: u64,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Resources,
    Panics,
    Flatten,
    Recall,
    Levels,
    Memory,
}
pub struct RobProp {
    id: &'static str,
    kind: Kind,
    runs: u64,
    rule: &'static str,
    probes: &'static [&'static str],
}
pub static PROPS: [RobProp; 6] = [
    RobProp { id: "C10", kind: Kind::Resources, runs: 32000, rule: "indexes built, searched and dropped from several threads with counted elements; cycles of dump, reload (memory, mapped, graph only, refused) and drop with heap, descriptors and mappings counted.", probes: &["-", "index dropped", "cycles", "point held across the drop", "refused reload in a cycle", "cycle broken by a fault"] },
    RobProp { id: "C11", kind: Kind::Panics, runs: 48000, rule: "2-4 caller threads mix every insertion and search call while the distance or filter function panics at chosen evaluations; then the index is checked, grown, searched, dumped and reloaded.", probes: &["injected panic", "call panicked", "batch panicked", "exact search after panics", "reload after panics"] },
    RobProp { id: "C20", kind: Kind::Flatten, runs: 36000, rule: "flattening during and after concurrent construction, after a full and after a graph-only reload, and of an empty index, compared with the neighbour lists.", probes: &["-", "flattened during insertion", "flattened after reload"] },
    RobProp { id: "C23", kind: Kind::Recall, runs: 700, rule: "200 uniform points inserted one by one, by several threads or in parallel batches; recall against brute force.", probes: &["-", "recall measured"] },
    RobProp { id: "C24", kind: Kind::Levels, runs: 3500, rule: "300 points inserted one by one, by several threads or in batches, with every level scale and layer limit, then 300 more after a dump and reload; layer populations against the exponential law.", probes: &["-", "law checked", "law checked after reload"] },
    RobProp { id: "C28", kind: Kind::Memory, runs: 8000, rule: "an index announced for up to 10^7 elements is filled by several threads, searched with widths and numbers of neighbours up to the largest integer, dumped, and reloaded in memory and mapped, with vectors of up to 200000 elements; the allocator refuses what exceeds the bound of each phase.", probes: &["-", "search without bounds", "mapped reload of long vectors", "dump of long vectors"] },
];

type H = Hnsw<'static, f32, SimDist>;

fn attempt<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                return None;
            }
            crate::engine::panic_violation(what)
        }
    }
}

// ------------------------------------------------------------------------------------------- counted elements
static mut LIVE: i64 = 0;
fn live() -> i64 {
    unsafe { *(&raw const LIVE) }
}
#[derive(Serialize, Deserialize, Debug)]
struct Tk(i32);
impl Tk {
    fn mk(x: i32) -> Tk {
        unsafe { *(&raw mut LIVE) += 1 };
        Tk(x)
    }
}
impl Clone for Tk {
    fn clone(&self) -> Tk {
        Tk::mk(self.0)
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        unsafe { *(&raw mut LIVE) -= 1 };
    }
}
struct TkDist;
impl Distance<Tk> for TkDist {
    fn eval(&self, a: &[Tk], b: &[Tk]) -> f32 {
        rt::point(rt::K_USER);
        a.iter().zip(b).map(|(x, y)| (x.0 - y.0).abs() as f32).sum()
    }
}

fn open_files(dir: &str) -> (usize, usize) {
    rt::quiet(|| {
        let mut n = 0;
        for e in std::fs::read_dir("/proc/self/fd").expect("fds").flatten() {
            if let Ok(p) = std::fs::read_link(e.path()) {
                if p.to_string_lossy().contains(dir) {
                    n += 1;
                }
            }
        }
        let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
        (n, maps.lines().filter(|l| l.contains(dir)).count())
    })
}

fn flat_pts(t: &[Vec<Op>]) -> Vec<Pt> {
    let mut v = vec![];
    for o in t.iter().flatten() {
        match o {
            Op::Insert { p, .. } => v.push(p.clone()),
            Op::Par { pts, .. } => v.extend(pts.iter().cloned()),
            _ => {}
        }
    }
    v
}
fn everything(c: &Rob) -> Vec<Pt> {
    c.pre.iter().cloned().chain(flat_pts(&c.threads)).chain(c.post.iter().cloned()).collect()
}

fn resources(c: &Rob) {
    // a. counted elements
    let hold = c.flavor & 1 == 1;
    {
        let mk = |p: &Pt| -> Vec<Tk> { p.v.iter().map(|x| Tk::mk(*x)).collect() };
        let nidx = 1 + (c.flavor as usize >> 1) % 3;
        let ixs: Vec<Hnsw<'static, Tk, TkDist>> = (0..nidx)
            .map(|_| {
                let mut h = guard("new", || Hnsw::new(c.m, 16, c.max_layer, c.efc, TkDist));
                if c.keep {
                    h.set_keeping_pruned(true);
                }
                if c.extend {
                    h.set_extend_candidates(true);
                }
                if c.scale != 1000 {
                    h.modify_level_scale(c.scale as f64 / 1000.);
                }
                h
            })
            .collect();
        for h in &ixs {
            for p in &c.pre {
                guard("insert", || h.insert((&mk(p), p.id)));
            }
        }
        std::thread::scope(|s| {
            let mut js = vec![];
            for (i, ops) in c.threads.iter().enumerate() {
                let h = &ixs[i % ixs.len()];
                js.push(s.spawn(move || {
                    for o in ops {
                        match o {
                            Op::Insert { p, .. } => guard("insert", || h.insert_slice((&mk(p), p.id))),
                            Op::Par { pts, .. } => {
                                let vs: Vec<Vec<Tk>> = pts.iter().map(mk).collect();
                                let d: Vec<(&Vec<Tk>, usize)> = vs.iter().zip(pts).map(|(v, p)| (v, p.id)).collect();
                                guard("parallel_insert", || h.parallel_insert(&d));
                            }
                            Op::Search { q, k, ef, .. } => {
                                let q: Vec<Tk> = q.iter().map(|x| Tk::mk(*x)).collect();
                                guard("search", || h.search(&q, *k, *ef));
                            }
                            Op::ParSearch { qs, k, ef, .. } => {
                                let qs: Vec<Vec<Tk>> = qs.iter().map(|q| q.iter().map(|x| Tk::mk(*x)).collect()).collect();
                                guard("parallel_search", || h.parallel_search(&qs, *k, *ef));
                            }
                            Op::Filter { q, k, ef, modulus, .. } => {
                                let q: Vec<Tk> = q.iter().map(|x| Tk::mk(*x)).collect();
                                let f = |i: &usize| i % modulus == 0;
                                guard("search_filter", || h.search_filter(&q, *k, *ef, Some(&f)));
                            }
                            Op::Iter { .. } => {
                                guard("iterator", || h.get_point_indexation().into_iter().count());
                            }
                            Op::Flat => {
                                guard("flatten", || FlatNeighborhood::from(h));
                            }
                        }
                    }
                }));
            }
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("workload thread");
                }
            }
        });
        let mut want = 0i64;
        for h in &ixs {
            for p in guard("iterator", || h.get_point_indexation().into_iter()) {
                want += p.get_v().len() as i64;
            }
        }
        if live() != want {
            violate!("elements-extra", "{} elements alive, the indexes store {want}", live());
        }
        let held: Vec<Arc<Point<'static, Tk>>> = if hold { ixs.iter().filter_map(|h| h.get_point_indexation().into_iter().next()).collect() } else { vec![] };
        let nheld: i64 = held.iter().map(|p| p.get_v().len() as i64).sum();
        // dropped by several threads at once
        rt::label("drop");
        std::thread::scope(|s| {
            let js: Vec<_> = ixs.into_iter().map(|h| s.spawn(move || guard("drop", || drop(h)))).collect();
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("dropping thread");
                }
            }
        });
        rt::probe(1);
        if hold && nheld > 0 {
            rt::probe(3);
        }
        if live() != nheld {
            violate!("elements-leaked", "{} elements alive after the indexes were dropped, {nheld} of them held by the caller", live());
        }
        drop(held);
        if live() != 0 {
            violate!("elements-leaked", "{} elements alive after the last point was released", live());
        }
    }
    // b. cycles on disk
    if c.cycles == 0 || c.pre.is_empty() {
        return;
    }
    if c.flavor & 32 == 32 {
        // elements whose vectors do not lie at aligned addresses of the data file
        cycles::<u64>(c)
    } else {
        cycles::<f32>(c)
    }
}

static mut FAULTY: bool = false;
fn one_cycle<T: Elem>(c: &Rob, dir: &std::path::Path, long: &[Vec<T>], name: &str, mid: bool) {
    // with faults on the way any dump or reload may fail; what it took it gives back all the same
    let faulty = unsafe { *(&raw const FAULTY) };
    let fail = |what: &str, e: String| {
        if faulty {
            rt::probe(5);
        } else {
            violate!("cycle-failed", "{what}: {e}")
        }
    };
    {
        let h: Ix<T> = guard("new", || Hnsw::new(c.m, 16, 16, c.efc, GDist));
        if mid {
            let d: Vec<(&Vec<T>, usize)> = long.iter().zip(&c.pre).map(|(v, p)| (v, p.id)).collect();
            guard("parallel_insert", || h.parallel_insert(&d));
        } else {
            for (v, p) in long.iter().zip(&c.pre) {
                guard("insert", || h.insert((v, p.id)));
            }
        }
        if let Err(e) = guard("file_dump", || h.file_dump(dir, name).map(|_| ()).map_err(|e| e.to_string())) {
            fail("dump", e);
        }
        if mid {
            guard("parallel_search", || h.parallel_search(&long[..long.len().min(3)], 2, 5));
            guard("search_filter", || h.search_filter(&long[0], 2, 5, Some(&|i: &usize| i % 2 == 0)));
            guard("flatten", || FlatNeighborhood::from(&h));
            // a dump that cannot be made
            if guard("file_dump", || h.file_dump(&dir.join("no-such-directory"), name).is_ok()) {
                violate!("accepted", "a dump into a missing directory is reported as made");
            }
        }
        guard("drop", || drop(h));
    }
    for mmap in [0, 1, 2] {
        if mmap > 0 && !c.mmap {
            continue;
        }
        rt::label("reload cycle");
        let mut io = HnswIo::new(dir, name);
        match mmap {
            0 => {}
            1 => io.set_options(ReloadOptions::default().set_mmap(true)),
            _ => io.set_options(ReloadOptions::default().set_mmap_threshold(1 + c.pre.len() / 2)),
        }
        let pio = Box::into_raw(Box::new(io));
        let io: &'static mut HnswIo = unsafe { &mut *pio };
        match guard("reload", || io.load_hnsw::<T, GDist>().map_err(|e| e.to_string())) {
            Ok(h) => {
                guard("search", || h.search(&long[0], 3, 5));
                if mid {
                    guard("insert", || h.insert((&long[0], 424242)));
                }
                guard("drop", || drop(h));
            }
            Err(e) => fail("reload", e),
        }
        guard("drop", || drop(unsafe { Box::from_raw(pio) }));
    }
    if c.flavor & 8 == 8 {
        // graph only, and the vectors only
        let mut io = HnswIo::new(dir, name);
        match guard("reload", || io.load_hnsw::<NoData, NoDist>().map_err(|e| e.to_string())) {
            Ok(h) => drop(h),
            Err(e) => fail("graph-only reload", e),
        };
        match guard("DataMap", || hnsw_rs::datamap::DataMap::from_hnswdump::<T>(dir, name)) {
            Ok(m) => {
                for p in &c.pre {
                    guard("get_data", || m.get_data::<T>(&p.id).map(|v| v.len()));
                }
            }
            Err(e) => fail("DataMap", e),
        }
    }
    if c.flavor & 16 == 16 {
        // refused: after all points were read, in the middle, at once; wrong type or distance
        rt::probe(4);
        let other = format!("{name}t");
        let (Ok(g), Ok(d)) = rt::quiet(|| (std::fs::read(dir.join(format!("{name}.hnsw.graph"))), std::fs::read(dir.join(format!("{name}.hnsw.data"))))) else { return };
        if faulty && (g.len() < 100 || d.len() < 100) {
            return;
        }
        // the last ones: not a data file, data of another dimension, a record that is none
        for (kg, kd, bad) in [(g.len() - 3, d.len(), None), (g.len() / 2, d.len(), None), (g.len(), d.len() - 5, None), (g.len(), 7, None), (g.len(), d.len(), Some(0)), (g.len(), d.len(), Some(4)), (g.len(), d.len(), Some(12))] {
            rt::quiet(|| {
                let mut d = d[..kd].to_vec();
                if let Some(i) = bad {
                    d[i] ^= 1;
                }
                std::fs::write(dir.join(format!("{other}.hnsw.graph")), &g[..kg]).unwrap();
                std::fs::write(dir.join(format!("{other}.hnsw.data")), &d).unwrap();
            });
            let mut io = HnswIo::new(dir, &other);
            if c.mmap {
                io.set_options(ReloadOptions::default().set_mmap(true));
            }
            if guard("reload", || io.load_hnsw::<T, GDist>().is_ok()) {
                violate!("accepted", "a truncated dump was accepted");
            }
            let map = guard("DataMap", || hnsw_rs::datamap::DataMap::from_hnswdump::<T>(dir, &other).is_ok());
            if map && (kd < d.len() || bad.is_some()) {
                violate!("accepted", "a data map of a damaged data file was accepted");
            }
        }
        let mut io = HnswIo::new(dir, name);
        if c.mmap {
            io.set_options(ReloadOptions::default().set_mmap(true));
        }
        if guard("reload", || io.load_hnsw::<u8, GDist>().is_ok()) || guard("reload", || io.load_hnsw::<T, GDist2>().is_ok()) {
            violate!("accepted", "a wrong element type or distance was accepted");
        }
    }
}
fn cycles<T: Elem>(c: &Rob) {
    let sdir = rt::bstr(&rt::shared().scratch);
    let dir = PathBuf::from(&sdir);
    let long: Vec<Vec<T>> = rt::quiet(|| c.pre.iter().map(|p| p.v.iter().map(|x| T::mk(*x as u64)).cycle().take(2200).collect()).collect());
    let (f0, m0) = open_files(&sdir);
    let mut sizes = Vec::with_capacity(16);
    let (several, mid) = (c.flavor & 2 == 2, c.flavor & 4 == 4);
    for cy in 0..c.cycles + 1 {
        let armed = c.flavor & 64 == 64 && cy > 0 && cy < c.cycles;
        unsafe { *(&raw mut FAULTY) = armed };
        if armed {
            rt::disk_budget(rt::shared().disk_budget);
            rt::io_arm(true);
        }
        if several {
            std::thread::scope(|s| {
                let js: Vec<_> = (0..2).map(|i| { let (dir, long) = (&dir, &long); s.spawn(move || one_cycle(c, dir, long, &format!("r{i}"), mid)) }).collect();
                for j in js {
                    if j.join().is_err() {
                        crate::engine::panic_violation("thread repeating cycles");
                    }
                }
            });
        } else {
            one_cycle(c, &dir, &long, "r", mid);
        }
        if armed {
            rt::io_arm(false);
            rt::disk_budget(-1);
        }
        let (f, m) = open_files(&sdir);
        if (f, m) != (f0, m0) {
            violate!("descriptors-leaked", "cycle {cy}: {f} open files and {m} mappings of the dump remain ({f0} and {m0} before)");
        }
        rt::probe(2);
        sizes.push(rt::shared().live_bytes);
    }
    // the first cycle warms caches up; after that nothing may stay
    let (a, b) = (sizes[0], *sizes.last().unwrap());
    let steady = sizes.len() > 3 && sizes.windows(2).all(|w| w[1] >= w[0] + 16);
    let steady = steady && c.flavor & 64 == 0 || sizes.len() > 5 && c.flavor & 64 != 0 && sizes[1..].windows(2).all(|w| w[1] >= w[0] + 16);
    if steady || b > a + 4096 * (sizes.len() as u64 - 1) {
        violate!("memory-grows", "heap in use after each identical cycle of build, dump, reload and drop: {sizes:?} bytes");
    }
}

// ------------------------------------------------------------------------------------------- panics
struct Acc {
    acked: HashSet<usize>,
    started: HashSet<usize>,
    panics: u64,
    pool_panics: u64,
}
static mut ACC: Option<Acc> = None;
fn acc() -> &'static mut Acc {
    unsafe { (*(&raw mut ACC)).get_or_insert_with(|| Acc { acked: HashSet::new(), started: HashSet::new(), panics: 0, pool_panics: 0 }) }
}

/// run a serial call; it may panic only if the bomb went off on this very thread during the call
fn serial<R>(what: &str, bomb: u64, f: impl FnOnce() -> R) -> Option<R> {
    FIRED.with(|x| x.set(false));
    DIST_BOMB.with(|x| x.set(bomb));
    let r = attempt(what, f);
    DIST_BOMB.with(|x| x.set(0));
    FILTER_BOMB.with(|x| x.set(0));
    if r.is_none() {
        rt::probe(1);
        rt::quiet(|| acc().panics += 1);
        if !FIRED.with(|x| x.get()) {
            violate!("panic-elsewhere", "{what}: the call panicked because of a panic injected into another call");
        }
    }
    r
}
fn pooled<R>(what: &str, bomb: u64, f: impl FnOnce() -> R) -> Option<R> {
    if bomb > 0 {
        unsafe { *(&raw mut POOL_BOMB) = bomb };
    }
    let r = attempt(what, f);
    if r.is_none() {
        rt::probe(2);
        rt::quiet(|| acc().pool_panics += 1);
    }
    r
}

fn data_of(pts: &[Pt]) -> HashMap<usize, Vec<f32>> {
    pts.iter().map(|p| (p.id, fv(&p.v))).collect()
}
fn sane(what: &str, a: &[Neighbour], q: &[f32], k: usize, data: &HashMap<usize, Vec<f32>>) {
    let _q = rt::Quiet::new();
    let mut seen = HashSet::new();
    let mut prev = f32::NEG_INFINITY;
    if a.len() > k {
        violate!("answer-too-long", "{what}: {} results for k={k}", a.len());
    }
    for n in a {
        if n.distance < prev || !seen.insert(n.d_id) {
            violate!("answer-order", "{what}: {:?}", a.iter().map(|x| (x.d_id, x.distance)).collect::<Vec<_>>());
        }
        prev = n.distance;
        match data.get(&n.d_id) {
            Some(v) if l1(q, v) == n.distance => {}
            _ => violate!("answer-distance", "{what}: id {} reported at {}", n.d_id, n.distance),
        }
    }
}

fn panics(c: &Rob) {
    let all = everything(c);
    let data = Arc::new(data_of(&all));
    let mut h: H = guard("new", || Hnsw::new(c.m, 16, c.max_layer, c.efc, SimDist));
    if c.keep {
        h.set_keeping_pruned(true);
    }
    if c.extend {
        h.set_extend_candidates(true);
    }
    if c.scale != 1000 {
        h.modify_level_scale(c.scale as f64 / 1000.);
    }
    for p in &c.pre {
        guard("insert", || h.insert((&fv(&p.v), p.id)));
        rt::quiet(|| acc().acked.insert(p.id));
    }
    let h = Arc::new(h);
    // the same questions are put by every thread once all are done: what a panic left behind in a thread must not show
    let qs: Vec<Vec<f32>> = all.iter().step_by(all.len().div_ceil(4).max(1)).map(|p| fv(&p.v)).collect();
    let (k, ef) = (all.len().min(6), 1 + all.len() / 2);
    let barrier = std::sync::Barrier::new(c.threads.len() + 1);
    let dists = |a: &[Neighbour]| a.iter().map(|n| n.distance).collect::<Vec<f32>>();
    std::thread::scope(|s| {
        let mut js = vec![];
        for ops in &c.threads {
            let (h, data, barrier, qs) = (h.clone(), data.clone(), &barrier, &qs);
            js.push(s.spawn(move || {
                for o in ops {
                    rt::point(rt::K_OP);
                    match o {
                        Op::Insert { p, bomb } => {
                            rt::label("insert");
                            rt::quiet(|| acc().started.insert(p.id));
                            let v = fv(&p.v);
                            if serial("insert", *bomb, || h.insert((&v, p.id))).is_some() {
                                rt::quiet(|| acc().acked.insert(p.id));
                            }
                        }
                        Op::Par { pts, bomb } => {
                            rt::label("parallel_insert");
                            rt::quiet(|| acc().started.extend(pts.iter().map(|p| p.id)));
                            let vs: Vec<Vec<f32>> = pts.iter().map(|p| fv(&p.v)).collect();
                            let d: Vec<(&Vec<f32>, usize)> = vs.iter().zip(pts).map(|(v, p)| (v, p.id)).collect();
                            if pooled("parallel_insert", *bomb, || h.parallel_insert(&d)).is_some() {
                                rt::quiet(|| acc().acked.extend(pts.iter().map(|p| p.id)));
                            }
                        }
                        Op::Search { q, k, ef, bomb } => {
                            rt::label("search");
                            let q = fv(q);
                            if let Some(a) = serial("search", *bomb, || h.search(&q, *k, *ef)) {
                                sane("search", &a, &q, *k, &data);
                            }
                        }
                        Op::ParSearch { qs, k, ef, bomb } => {
                            rt::label("parallel_search");
                            let qs: Vec<Vec<f32>> = qs.iter().map(|q| fv(q)).collect();
                            if let Some(a) = pooled("parallel_search", *bomb, || h.parallel_search(&qs, *k, *ef)) {
                                if a.len() != qs.len() {
                                    violate!("batch-length", "{} answers for {} requests", a.len(), qs.len());
                                }
                                for (x, q) in a.iter().zip(&qs) {
                                    sane("parallel_search", x, q, *k, &data);
                                }
                            }
                        }
                        Op::Filter { q, k, ef, modulus, bomb, fbomb } => {
                            rt::label("search_filter");
                            let q = fv(q);
                            FILTER_BOMB.with(|x| x.set(*fbomb));
                            let f = |i: &usize| {
                                rt::point(rt::K_USER);
                                filter_bomb();
                                i % modulus == 0
                            };
                            if let Some(a) = serial("search_filter", *bomb, || h.search_filter(&q, *k, *ef, Some(&f))) {
                                sane("search_filter", &a, &q, *k, &data);
                                if a.iter().any(|n| n.d_id % modulus != 0) {
                                    violate!("filter-violated", "search_filter returned an id the filter rejects");
                                }
                            }
                        }
                        Op::Iter { .. } => {
                            rt::label("iterate");
                            guard("iterator", || h.get_point_indexation().into_iter().count());
                        }
                        Op::Flat => {
                            rt::label("flatten");
                            guard("flatten", || FlatNeighborhood::from(&*h));
                        }
                    }
                }
                rt::label("at rest");
                barrier.wait();
                barrier.wait();
                let r: Vec<Vec<f32>> = qs.iter().map(|q| dists(&guard("search after panics", || h.search(q, k, ef)))).collect();
                rt::label("finished");
                r
            }));
        }
        barrier.wait();
        unsafe { *(&raw mut POOL_BOMB) = 0 };
        barrier.wait();
        let want: Vec<Vec<f32>> = qs.iter().map(|q| dists(&guard("search after panics", || h.search(q, k, ef)))).collect();
        for j in js {
            match j.join() {
                Ok(r) => {
                    if r != want {
                        violate!("answers-depend-on-thread", "once every call has ended, one thread gets answers at {r:?}, another at {want:?}");
                    }
                }
                Err(_) => crate::engine::panic_violation("workload thread"),
            }
        }
        let many: Vec<Vec<f32>> = rt::quiet(|| qs.iter().cycle().take(3 * qs.len()).cloned().collect());
        let r: Vec<Vec<f32>> = guard("parallel_search after panics", || h.parallel_search(&many, k, ef)).iter().map(|a| dists(a)).collect();
        for (i, a) in r.iter().enumerate() {
            if *a != want[i % qs.len()] {
                violate!("answers-depend-on-thread", "once every call has ended, parallel_search gives answers at {a:?}, search at {:?}", want[i % qs.len()]);
            }
        }
    });
    let fired = unsafe { *(&raw const POOL_FIRED) };
    if acc().pool_panics > fired {
        violate!("panic-elsewhere", "{} batch calls panicked, {fired} panics were injected into batches", acc().pool_panics);
    }
    rt::label("after the panics");
    let check = |when: &str, extra: &[Pt]| {
        let pts: Vec<_> = guard("iterator", || h.get_point_indexation().into_iter().collect());
        let n = h.get_nb_point();
        let sum: usize = (0..c.max_layer).map(|l| h.get_point_indexation().get_layer_nb_point(l)).sum();
        let _q = rt::Quiet::new();
        if n != pts.len() || sum != n {
            violate!("count", "{when}: {n} points counted, {sum} in the layers, {} iterated", pts.len());
        }
        let mut seen: HashMap<usize, PointId> = HashMap::new();
        for p in &pts {
            if seen.insert(p.get_origin_id(), p.get_point_id()).is_some() {
                violate!("stored-twice", "{when}: id {} stored twice", p.get_origin_id());
            }
            let known = acc().acked.contains(&p.get_origin_id()) || acc().started.contains(&p.get_origin_id()) || extra.iter().any(|x| x.id == p.get_origin_id());
            if !known {
                violate!("stored-unknown", "{when}: id {} was never inserted", p.get_origin_id());
            }
            if p.get_v() != data[&p.get_origin_id()].as_slice() {
                violate!("stored-data", "{when}: id {} holds {:?}", p.get_origin_id(), p.get_v());
            }
        }
        for i in acc().acked.iter().chain(extra.iter().map(|p| &p.id)) {
            if !seen.contains_key(i) {
                violate!("stored-missing", "{when}: id {i} was inserted but is not stored");
            }
        }
        for p in &pts {
            for (li, l) in p.get_neighborhood_id().into_iter().enumerate() {
                let max = if li == 0 { 2 * c.m } else { c.m };
                if l.len() > max {
                    violate!("list-too-long", "{when}: id {} has {} neighbours in layer {li}, at most {max} are allowed", p.get_origin_id(), l.len());
                }
                if l.windows(2).any(|w| w[0].distance > w[1].distance) {
                    violate!("list-unsorted", "{when}: the neighbours of id {} in layer {li} are not sorted", p.get_origin_id());
                }
                if l.iter().any(|x| x.d_id == p.get_origin_id()) || l.iter().map(|x| x.d_id).collect::<HashSet<_>>().len() != l.len() {
                    violate!("list-repeats", "{when}: id {} lists itself or a point twice in layer {li}", p.get_origin_id());
                }
                for nb in l {
                    if seen.get(&nb.d_id) != Some(&nb.p_id) {
                        violate!("list-dangling", "{when}: id {} lists {} which is not stored there", p.get_origin_id(), nb.d_id);
                    }
                    if l1(p.get_v(), &data[&nb.d_id]) != nb.distance {
                        violate!("list-distance", "{when}: id {} lists {} at {}", p.get_origin_id(), nb.d_id, nb.distance);
                    }
                }
            }
        }
        let top = pts.iter().map(|p| p.get_point_id().0).max().unwrap_or(0);
        let _ = top;
    };
    check("after the panics", &[]);
    // the index can still be used by everybody
    std::thread::scope(|s| {
        let js: Vec<_> = (0..2)
            .map(|t| {
                let (h, post, data) = (h.clone(), &c.post, data.clone());
                s.spawn(move || {
                    for p in post.iter().skip(t).step_by(2) {
                        guard("insert after panics", || h.insert((&fv(&p.v), p.id)));
                        let a = guard("search after panics", || h.search(&fv(&p.v), 2, 8));
                        sane("search after panics", &a, &fv(&p.v), 2, &data);
                        if a.is_empty() {
                            violate!("answer-empty", "search after panics finds nothing");
                        }
                    }
                })
            })
            .collect();
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("thread after the panics");
            }
        }
    });
    check("after further insertions", &c.post);
    let acked: Vec<usize> = rt::quiet(|| acc().acked.iter().copied().chain(c.post.iter().map(|p| p.id)).collect());
    if c.max_layer == 1 && all.len() <= 2 * c.m {
        // every acknowledged point is still found
        rt::probe(3);
        for i in acked.iter() {
            let q = &data[i];
            let a = guard("search after panics", || h.search(q, all.len(), all.len()));
            let ids: HashSet<usize> = a.iter().map(|n| n.d_id).collect();
            for j in &acked {
                if !ids.contains(j) {
                    violate!("acknowledged-point-lost", "exhaustive search after panics misses id {j}");
                }
            }
        }
    }
    if c.max_layer == 16 && h.get_nb_point() > 0 {
        rt::probe(4);
        let dir = PathBuf::from(rt::bstr(&rt::shared().scratch));
        if let Err(e) = guard("file_dump", || h.file_dump(&dir, "p").map(|_| ()).map_err(|e| e.to_string())) {
            violate!("dump-failed", "dump after panics failed: {e}");
        }
        let mut io = HnswIo::new(&dir, "p");
        match guard("reload", || io.load_hnsw::<f32, SimDist>().map_err(|e| e.to_string())) {
            Ok(r) => {
                if r.get_nb_point() != h.get_nb_point() {
                    violate!("reload-count", "reload after panics has {} points instead of {}", r.get_nb_point(), h.get_nb_point());
                }
                guard("drop", || drop(r));
            }
            Err(e) => violate!("reload-failed", "reload after panics failed: {e}"),
        };
    }
    let h = Arc::try_unwrap(h).unwrap_or_else(|_| rt::harness_error("index still shared"));
    guard("drop", || drop(h));
}

// ------------------------------------------------------------------------------------------- flatten
type Key = (u32, usize, u8, i32);
fn keys(v: &[Neighbour]) -> Vec<Key> {
    let mut k: Vec<Key> = v.iter().map(|n| (n.distance.to_bits(), n.d_id, n.p_id.0, n.p_id.1)).collect();
    k.sort();
    k
}
fn sorted(what: &str, id: usize, v: &[Neighbour]) {
    if v.windows(2).any(|w| w[1].distance < w[0].distance) {
        violate!("flat-unsorted", "{what}: id {id}: distances {:?}", v.iter().map(|n| n.distance).collect::<Vec<_>>());
    }
}
fn flat_equal<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(what: &str, h: &Hnsw<'static, T, D>, want: &HashMap<usize, Vec<Key>>, absent: &[usize]) {
    rt::label("flatten");
    let f = guard("flatten", || FlatNeighborhood::from(h));
    let _q = rt::Quiet::new();
    for (id, w) in want {
        match f.get_neighbours(*id) {
            None => violate!("flat-missing", "{what}: id {id} is not in the flattened structure"),
            Some(v) => {
                sorted(what, *id, &v);
                if keys(&v) != *w {
                    violate!("flat-differs", "{what}: id {id}: flattened {:?}, lists {:?}", keys(&v), w);
                }
            }
        }
    }
    for id in absent {
        if !want.contains_key(id) && f.get_neighbours(*id).is_some() {
            violate!("flat-unknown", "{what}: neighbours given for id {id} which is not stored");
        }
    }
}
fn lists_of<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'static, T, D>) -> HashMap<usize, Vec<Key>> {
    let pts: Vec<_> = (0..16).filter(|l| *l < h.get_max_level()).flat_map(|l| guard("layer iterator", || h.get_point_indexation().get_layer_iterator(l).collect::<Vec<_>>())).collect();
    let _q = rt::Quiet::new();
    pts.iter()
        .map(|p| {
            let mut v: Vec<Key> = p.get_neighborhood_id().iter().flatten().map(|n| (n.distance.to_bits(), n.d_id, n.p_id.0, n.p_id.1)).collect();
            v.sort();
            (p.get_origin_id(), v)
        })
        .collect()
}
fn flatten(c: &Rob) {
    let all = everything(c);
    let data = Arc::new(data_of(&all));
    let mut h: H = guard("new", || Hnsw::new(c.m, 16, c.max_layer, c.efc, SimDist));
    if c.keep {
        h.set_keeping_pruned(true);
    }
    if c.extend {
        h.set_extend_candidates(true);
    }
    if c.scale != 1000 {
        h.modify_level_scale(c.scale as f64 / 1000.);
    }
    let h = Arc::new(h);
    flat_equal("empty index", &h, &HashMap::new(), &[0, 1, 7919]);
    for p in &c.pre {
        guard("insert", || h.insert((&fv(&p.v), p.id)));
        rt::quiet(|| acc().acked.insert(p.id));
    }
    std::thread::scope(|s| {
        let mut js = vec![];
        for ops in &c.threads {
            let (h, data) = (h.clone(), data.clone());
            js.push(s.spawn(move || {
                for o in ops {
                    rt::point(rt::K_OP);
                    match o {
                        Op::Insert { p, .. } => {
                            rt::label("insert");
                            guard("insert", || h.insert((&fv(&p.v), p.id)));
                            rt::quiet(|| acc().acked.insert(p.id));
                        }
                        Op::Par { pts, .. } => {
                            rt::label("parallel_insert");
                            let vs: Vec<Vec<f32>> = pts.iter().map(|p| fv(&p.v)).collect();
                            let d: Vec<(&Vec<f32>, usize)> = vs.iter().zip(pts).map(|(v, p)| (v, p.id)).collect();
                            guard("parallel_insert", || h.parallel_insert(&d));
                            rt::quiet(|| acc().acked.extend(pts.iter().map(|p| p.id)));
                        }
                        Op::Flat => {
                            rt::label("flatten");
                            let before: Vec<usize> = rt::quiet(|| acc().acked.iter().copied().collect());
                            let f = guard("flatten", || FlatNeighborhood::from(&*h));
                            rt::probe(1);
                            let _q = rt::Quiet::new();
                            for i in &before {
                                if f.get_neighbours(*i).is_none() {
                                    violate!("flat-missing", "id {i}, inserted before the flattening began, is missing");
                                }
                            }
                            for i in data.keys() {
                                if let Some(v) = f.get_neighbours(*i) {
                                    sorted("during insertion", *i, &v);
                                    for n in &v {
                                        if data.get(&n.d_id).map(|x| l1(x, &data[i])) != Some(n.distance) {
                                            violate!("flat-distance", "during insertion: id {i} lists {} at {}", n.d_id, n.distance);
                                        }
                                    }
                                }
                            }
                        }
                        Op::Search { q, k, ef, .. } => {
                            guard("search", || h.search(&fv(q), *k, *ef));
                        }
                        _ => {}
                    }
                }
            }));
        }
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("workload thread");
            }
        }
    });
    let want = lists_of(&h);
    if want.len() != all.len() {
        violate!("count", "{} ids stored, {} inserted", want.len(), all.len());
    }
    flat_equal("after construction", &h, &want, &[0, 1, usize::MAX]);
    if c.max_layer == 16 && !all.is_empty() {
        let dir = PathBuf::from(rt::bstr(&rt::shared().scratch));
        if let Err(e) = guard("file_dump", || h.file_dump(&dir, "p").map(|_| ()).map_err(|e| e.to_string())) {
            violate!("dump-failed", "{e}");
        }
        let drop_h = c.flavor & 1 == 1;
        let h = Arc::try_unwrap(h).unwrap_or_else(|_| rt::harness_error("index still shared"));
        if drop_h {
            guard("drop", || drop(h));
        } else {
            std::mem::forget(h);
        }
        rt::probe(2);
        let p1 = Box::into_raw(Box::new(HnswIo::new(&dir, "p")));
        let io: &'static mut HnswIo = unsafe { &mut *p1 };
        match guard("graph-only reload", || io.load_hnsw::<NoData, NoDist>().map_err(|e| e.to_string())) {
            Ok(r) => {
                flat_equal("after a graph-only reload", &r, &want, &[0, 1, usize::MAX]);
                guard("drop", || drop(r));
            }
            Err(e) => violate!("reload-failed", "graph-only reload: {e}"),
        }
        let p2 = Box::into_raw(Box::new(HnswIo::new(&dir, "p")));
        let io: &'static mut HnswIo = unsafe { &mut *p2 };
        if c.mmap {
            io.set_options(ReloadOptions::default().set_mmap(true));
        }
        match guard("reload", || io.load_hnsw::<f32, SimDist>().map_err(|e| e.to_string())) {
            Ok(r) => {
                flat_equal("after a reload", &r, &want, &[0, 1, usize::MAX]);
                guard("drop", || drop(r));
            }
            Err(e) => violate!("reload-failed", "reload: {e}"),
        }
        drop(unsafe { Box::from_raw(p1) });
        drop(unsafe { Box::from_raw(p2) });
    }
}

// ------------------------------------------------------------------------------------------- recall
/// uniform coordinates; no scheduling point in the distance itself, the lists and locks provide them
#[derive(Default, Clone, Copy)]
pub struct PlainL1;
impl Distance<f32> for PlainL1 {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        l1(a, b)
    }
}
/// lowest acceptable mean recall, far below what is measured (see DESIGN.md)
const RECALL: f64 = 0.95;
fn recall(c: &Rob) {
    let n = c.cycles;
    let vs: Vec<Vec<f32>> = rt::quiet(|| {
        let mut r = Rng::new(c.dseed);
        (0..n + c.queries).map(|_| (0..c.dim).map(|_| r.below(100_000) as f32 / 10.).collect()).collect()
    });
    let mut h: Hnsw<'static, f32, PlainL1> = guard("new", || Hnsw::new(c.m, n, c.max_layer, c.efc, PlainL1));
    if c.keep {
        h.set_keeping_pruned(true);
    }
    if c.extend {
        h.set_extend_candidates(true);
    }
    if c.scale != 1000 {
        h.modify_level_scale(c.scale as f64 / 1000.);
    }
    match c.flavor {
        0 => (0..n).for_each(|i| guard("insert", || h.insert((&vs[i], i)))),
        1 => std::thread::scope(|s| {
            let t = 2 + c.dseed as usize % 3;
            let js: Vec<_> = (0..t)
                .map(|k| {
                    let (h, vs) = (&h, &vs);
                    s.spawn(move || (k..n).step_by(t).for_each(|i| guard("insert", || h.insert_slice((&vs[i], i)))))
                })
                .collect();
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("inserting thread");
                }
            }
        }),
        2 => {
            let d: Vec<(&Vec<f32>, usize)> = vs[..n].iter().enumerate().map(|(i, v)| (v, i)).collect();
            guard("parallel_insert", || h.parallel_insert(&d));
        }
        _ => {
            for ch in (0..n).collect::<Vec<_>>().chunks(100) {
                let d: Vec<(&[f32], usize)> = ch.iter().map(|i| (vs[*i].as_slice(), *i)).collect();
                guard("parallel_insert_slice", || h.parallel_insert_slice(&d));
            }
        }
    }
    let reload = c.mmap && c.max_layer == 16;
    let dir = PathBuf::from(rt::bstr(&rt::shared().scratch));
    let mut p = std::ptr::null_mut();
    let h = if reload {
        if let Err(e) = guard("file_dump", || h.file_dump(&dir, "p").map(|_| ()).map_err(|e| e.to_string())) {
            violate!("dump-failed", "{e}");
        }
        guard("drop", || drop(h));
        p = Box::into_raw(Box::new(HnswIo::new(&dir, "p")));
        let io: &'static mut HnswIo = unsafe { &mut *p };
        match guard("reload", || io.load_hnsw::<f32, PlainL1>().map_err(|e| e.to_string())) {
            Ok(r) => r,
            Err(e) => violate!("reload-failed", "{e}"),
        }
    } else {
        h
    };
    let k = 10;
    let qs: Vec<Vec<f32>> = vs[n..].to_vec();
    let ans: Vec<Vec<Neighbour>> = if c.dseed % 2 == 0 { guard("parallel_search", || h.parallel_search(&qs, k, c.efc)) } else { qs.iter().map(|q| guard("search", || h.search(q, k, c.efc))).collect() };
    let mut hit = 0;
    for (q, a) in qs.iter().zip(&ans) {
        let mut d: Vec<f32> = vs[..n].iter().map(|v| l1(q, v)).collect();
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        hit += a.iter().filter(|x| x.distance <= d[k - 1]).count().min(k);
    }
    let rec = hit as f64 / (k * qs.len()) as f64;
    rt::probe(1);
    crate::engine::note(&format!("recall {rec:.4}"));
    let mut lost = 0;
    for (i, v) in vs[..n].iter().enumerate().step_by(3) {
        let a = guard("search", || h.search(v, 1, c.efc));
        if a.first().map(|x| x.d_id != i && x.distance > 0.).unwrap_or(true) {
            lost += 1;
        }
    }
    let found = 1. - lost as f64 / n.div_ceil(3) as f64;
    if rec < RECALL {
        violate!("recall", "mean recall {rec:.3} at k={k} ef={} over {} queries on {n} uniform points of dimension {} (M={}, ef construction {})", c.efc, qs.len(), c.dim, c.m, c.efc);
    }
    if found < RECALL {
        violate!("self-recall", "only {:.1}% of the stored points are found by searching for themselves", found * 100.);
    }
    guard("drop", || drop(h));
    if !p.is_null() {
        drop(unsafe { Box::from_raw(p) });
    }
}

// ------------------------------------------------------------------------------------------- layer populations
fn fill(h: &Hnsw<'static, f32, PlainL1>, vs: &[Vec<f32>], lo: usize, hi: usize, c: &Rob, flavor: u32) {
    match flavor {
        0 => (lo..hi).for_each(|i| guard("insert", || h.insert((&vs[i], i)))),
        1 => std::thread::scope(|s| {
            let t = 2 + c.dseed as usize % 3;
            let js: Vec<_> = (0..t).map(|k| s.spawn(move || (lo + k..hi).step_by(t).for_each(|i| guard("insert", || h.insert_slice((&vs[i], i)))))).collect();
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("inserting thread");
                }
            }
        }),
        2 => {
            let d: Vec<(&Vec<f32>, usize)> = (lo..hi).map(|i| (&vs[i], i)).collect();
            guard("parallel_insert", || h.parallel_insert(&d));
        }
        _ => {
            for ch in (lo..hi).collect::<Vec<_>>().chunks(60) {
                let d: Vec<(&[f32], usize)> = ch.iter().map(|i| (vs[*i].as_slice(), *i)).collect();
                guard("parallel_insert_slice", || h.parallel_insert_slice(&d));
            }
        }
    }
}
fn law(what: &str, h: &Hnsw<'static, f32, PlainL1>, c: &Rob, lo: usize, hi: usize) {
    let _q = rt::Quiet::new();
    let s = (c.scale as f64 / 1000.).clamp(0.2, 1.) / (c.m as f64).ln();
    let ml = c.max_layer as f64;
    let at = |l: usize| (-(l as f64) / s).exp();
    let mut cnt = vec![0usize; 17];
    for p in h.get_point_indexation() {
        let l = p.get_point_id().0 as usize;
        if l >= c.max_layer {
            violate!("level-out-of-range", "a point is in layer {l} of {}", c.max_layer);
        }
        if (lo..hi).contains(&p.get_origin_id()) {
            (0..=l).for_each(|k| cnt[k] += 1);
        }
    }
    let n = (hi - lo) as f64;
    if cnt[0] != hi - lo {
        violate!("count", "{what}: {} points out of {n} are stored", cnt[0]);
    }
    for l in 1..c.max_layer {
        // draws beyond the last layer are spread over all layers
        let p = at(l) - at(c.max_layer) + at(c.max_layer) * (ml - l as f64) / ml;
        let (e, w) = (n * p, 6. * (n * p * (1. - p)).sqrt() + 4.);
        if (cnt[l] as f64 - e).abs() > w {
            violate!("level-law", "{what}: {} of {n} points reach layer {l}, {e:.1} expected, allowed deviation {w:.1} (M={}, scale factor {}, {} layers)", cnt[l], c.m, c.scale as f64 / 1000., c.max_layer);
        }
    }
}
fn levels(c: &Rob) {
    let n = c.cycles;
    let vs: Vec<Vec<f32>> = rt::quiet(|| {
        let mut r = Rng::new(c.dseed);
        (0..2 * n).map(|_| vec![r.below(1_000_000) as f32]).collect()
    });
    let mut h: Hnsw<'static, f32, PlainL1> = guard("new", || Hnsw::new(c.m, n, c.max_layer, c.efc, PlainL1));
    if c.keep {
        h.set_keeping_pruned(true);
    }
    if c.scale != 1000 {
        h.modify_level_scale(c.scale as f64 / 1000.);
    }
    fill(&h, &vs, 0, n, c, c.flavor);
    law("new index", &h, c, 0, n);
    rt::probe(1);
    if c.max_layer != 16 {
        return;
    }
    let dir = PathBuf::from(rt::bstr(&rt::shared().scratch));
    if let Err(e) = guard("file_dump", || h.file_dump(&dir, "p").map(|_| ()).map_err(|e| e.to_string())) {
        violate!("dump-failed", "{e}");
    }
    guard("drop", || drop(h));
    let p = Box::into_raw(Box::new(HnswIo::new(&dir, "p")));
    let io: &'static mut HnswIo = unsafe { &mut *p };
    if c.mmap {
        io.set_options(ReloadOptions::default().set_mmap(true));
    }
    let r = if c.extend { guard("reload", || io.load_hnsw_with_dist::<f32, PlainL1>(PlainL1)) } else { guard("reload", || io.load_hnsw::<f32, PlainL1>()) };
    let h = match r {
        Ok(h) => h,
        Err(e) => violate!("reload-failed", "{e}"),
    };
    law("reloaded index", &h, c, 0, n);
    fill(&h, &vs, n, 2 * n, c, (c.flavor + 1 + c.queries as u32) % 4);
    law("points inserted after the reload", &h, c, n, 2 * n);
    rt::probe(2);
    guard("drop", || drop(h));
    drop(unsafe { Box::from_raw(p) });
}

// ------------------------------------------------------------------------------------------- memory
/// what a point may take besides its vector, what each call may take for each point, and what anything may take
const PER_POINT: usize = 6000;
const PER_CALL: usize = 2000;
const SLACK: usize = 3_000_000;
fn memory(c: &Rob) {
    let all = everything(c);
    let long = |v: &[i32]| -> Vec<f32> { v.iter().map(|x| *x as f32).cycle().take(c.dim).collect() };
    let data: HashMap<usize, Vec<f32>> = rt::quiet(|| all.iter().map(|p| (p.id, long(&p.v))).collect());
    let allow = |what: &'static str, x: usize| rt::mem_limit(what, x as i64);
    let n = all.len();
    // lists may be allocated in advance
    let per_point = PER_POINT + 400 * c.m;
    allow("a new index", SLACK + 16 * c.cycles);
    let mut h: H = guard("new", || Hnsw::new(c.m, c.cycles, c.max_layer, c.efc, SimDist));
    if c.keep {
        h.set_keeping_pruned(true);
    }
    if c.extend {
        h.set_extend_candidates(true);
    }
    if c.scale != 1000 {
        h.modify_level_scale(c.scale as f64 / 1000.);
    }
    // every call that runs may work on every point, pool workers included; copies of the vectors handed over
    let calls = c.threads.len() + 1 + 8;
    allow("insertions and searches", SLACK + (n + 40) * (per_point + 8 * c.dim) + calls * (n * PER_CALL + 16 * c.dim + 20_000));
    for p in &c.pre {
        guard("insert", || h.insert((&data[&p.id], p.id)));
    }
    let (h, data) = (Arc::new(h), Arc::new(data));
    std::thread::scope(|s| {
        let mut js = vec![];
        for ops in &c.threads {
            let (h, data, long) = (h.clone(), data.clone(), &long);
            js.push(s.spawn(move || {
                for o in ops {
                    rt::point(rt::K_OP);
                    match o {
                        Op::Insert { p, .. } => guard("insert", || h.insert((&data[&p.id], p.id))),
                        Op::Par { pts, .. } => {
                            let d: Vec<(&Vec<f32>, usize)> = pts.iter().map(|p| (&data[&p.id], p.id)).collect();
                            guard("parallel_insert", || h.parallel_insert(&d));
                        }
                        Op::Search { q, k, ef, .. } => {
                            let q = long(q);
                            sane("search", &guard("search", || h.search(&q, *k, *ef)), &q, *k, &data);
                        }
                        Op::ParSearch { qs, k, ef, .. } => {
                            let qs: Vec<Vec<f32>> = qs.iter().map(|q| long(q)).collect();
                            for (a, q) in guard("parallel_search", || h.parallel_search(&qs, *k, *ef)).iter().zip(&qs) {
                                sane("parallel_search", a, q, *k, &data);
                            }
                        }
                        Op::Filter { q, k, ef, modulus, .. } => {
                            let q = long(q);
                            let f = |i: &usize| i % modulus == 0;
                            sane("search_filter", &guard("search_filter", || h.search_filter(&q, *k, *ef, Some(&f))), &q, *k, &data);
                        }
                        Op::Iter { .. } => {
                            guard("iterator", || h.get_point_indexation().into_iter().count());
                        }
                        Op::Flat => {
                            guard("flatten", || FlatNeighborhood::from(&*h));
                        }
                    }
                }
            }));
        }
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("workload thread");
            }
        }
    });
    if n == 0 {
        return;
    }
    // an answer without bounds is the answer bounded by the number of points
    let dists = |a: Vec<Neighbour>| a.iter().map(|n| n.distance).collect::<Vec<f32>>();
    let unbounded = |what: &'static str, h: &H| {
        allow(what, SLACK + n * PER_CALL);
        for q in data.values().take(3) {
            let want = dists(guard("search", || h.search(q, n, n)));
            for (k, ef) in [(usize::MAX, n), (n, usize::MAX), (usize::MAX, usize::MAX), (n, 1 << 33)] {
                let r = dists(guard("search", || h.search(q, k, ef)));
                let f = dists(guard("search_filter", || h.search_filter(q, k, ef, Some(&|_: &usize| true))));
                if r != want || f.len() > r.len() {
                    violate!("answer-depends-on-bound", "{what} with k={k} and ef={ef} finds {} points, {} with k=ef={n}, {} with a filter that takes all", r.len(), want.len(), f.len());
                }
            }
        }
        rt::probe(1);
    };
    unbounded("searches", &h);
    if c.max_layer != 16 {
        return;
    }
    let dir = PathBuf::from(rt::bstr(&rt::shared().scratch));
    // the vectors go from the index to the file one after the other
    allow("a dump", SLACK + n * PER_CALL + 16 * c.dim);
    if let Err(e) = guard("file_dump", || h.file_dump(&dir, "p").map(|_| ()).map_err(|e| e.to_string())) {
        violate!("dump-failed", "{e}");
    }
    rt::probe(3);
    rt::mem_limit("", -1);
    guard("drop", || drop(h));
    for mmap in [false, true] {
        let p = Box::into_raw(Box::new(HnswIo::new(&dir, "p")));
        let io: &'static mut HnswIo = unsafe { &mut *p };
        if mmap {
            io.set_options(ReloadOptions::default().set_mmap(true));
            allow("a mapped reload", SLACK + n * per_point + 16 * c.dim);
            rt::probe(2);
        } else {
            allow("a reload", SLACK + n * (per_point + 4 * c.dim) + 16 * c.dim);
        }
        match guard("reload", || if mmap { io.load_hnsw::<f32, SimDist>() } else { io.load_hnsw_with_dist::<f32, SimDist>(SimDist) }) {
            Ok(h) => {
                unbounded(if mmap { "searches of a mapped index" } else { "searches of a reloaded index" }, &h);
                guard("drop", || drop(h));
            }
            Err(e) => violate!("reload-failed", "{e}"),
        }
        drop(unsafe { Box::from_raw(p) });
    }
    allow("a data map", SLACK + n * PER_CALL + 16 * c.dim);
    match guard("DataMap", || hnsw_rs::datamap::DataMap::from_hnswdump::<f32>(&dir, "p")) {
        Ok(m) => {
            for p in &all {
                guard("get_data", || m.get_data::<f32>(&p.id).map(|v| v.len()));
            }
        }
        Err(e) => violate!("reload-failed", "data map: {e}"),
    }
}

// ------------------------------------------------------------------------------------------- generation
impl Prop for RobProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng, tier: Tier, c: &mut Case) {
        let k = self.kind;
        let big = tier == Tier::Thorough && r.chance(1, 4) || r.chance(1, 15);
        let dim = r.pick(&[1usize, 2, 3]);
        let span = r.pick(&[4u64, 20, 1000]);
        let salt = r.pick(&[0usize, 1000, 1 << 40]);
        let mut id = 0;
        let special = r.chance(1, 5);
        let mut pt = |r: &mut Rng| {
            id += 1;
            if let Some(i) = super::conc::special_id(special, id) {
                return Pt { id: i, v: (0..dim).map(|_| r.below(span) as i32).collect() };
            }
            Pt { id: salt + (id * 7919) % 100003, v: (0..dim).map(|_| r.below(span) as i32).collect() }
        };
        let vec = |r: &mut Rng| -> Vec<i32> { (0..dim).map(|_| r.below(span) as i32).collect() };
        let mut b = Rob {
            m: r.pick(&[2usize, 2, 3, 4, 8]),
            max_layer: r.pick(&[1usize, 2, 4, 16, 16, 16]),
            efc: r.pick(&[1usize, 4, 10, 40]),
            keep: r.chance(1, 4),
            extend: r.chance(1, 4),
            scale: r.pick(&[1000u32, 1000, 500, 200]),
            pre: vec![],
            threads: vec![],
            post: vec![],
            mmap: r.chance(1, 2),
            cycles: 0,
            flavor: r.below(64) as u32,
            dim,
            queries: 0,
            dseed: r.next() >> 16,
        };
        if k == Kind::Recall {
            b.m = r.pick(&[8usize, 16, 24]);
            b.max_layer = 16;
            b.efc = 100;
            b.cycles = 200;
            b.queries = 20;
            b.dim = 8;
            b.flavor = r.pick(&[0u32, 1, 1, 2, 2, 3]);
            b.scale = 1000;
            b.keep = r.chance(1, 5);
            b.extend = r.chance(1, 8);
            b.mmap = r.chance(1, 4);
            c.body = serde_json::to_value(&b).unwrap();
            return;
        }
        if k == Kind::Levels {
            b.m = r.pick(&[2usize, 2, 2, 3, 3, 4, 4, 8, 8, 16, 16, 1]);
            b.max_layer = r.pick(&[1usize, 2, 3, 5, 16, 16, 16]);
            b.efc = r.pick(&[1usize, 3]);
            b.cycles = if tier == Tier::Thorough && r.chance(1, 4) { 1000 } else { 300 };
            b.flavor = r.below(4) as u32;
            b.queries = r.range(0, 3);
            b.scale = r.pick(&[1000u32, 1000, 800, 500, 200, 2000, 50]);
            if r.chance(1, 12) {
                // enough draws beyond the last layer to tell how they are spread
                b.m = r.pick(&[2usize, 2, 3]);
                b.max_layer = r.pick(&[2usize, 3]);
                b.efc = 1;
                b.cycles = 2500;
                b.scale = 1000;
            }
            c.body = serde_json::to_value(&b).unwrap();
            return;
        }
        let npre = if r.chance(1, 4) { 0 } else { r.range(1, if big { 30 } else { 8 }) };
        b.pre = (0..npre).map(|_| pt(r)).collect();
        let bomb = |r: &mut Rng| {
            let reach = r.pick(&[2u64, 10, 60]);
            if k == Kind::Panics && r.chance(1, 3) { 1 + r.below(reach) } else { 0 }
        };
        let w: &[(u64, u8)] = match k {
            Kind::Resources => &[(40, 0), (20, 1), (10, 2), (10, 3), (10, 4), (5, 5), (5, 6)],
            Kind::Panics => &[(45, 0), (15, 1), (12, 2), (8, 3), (10, 4), (3, 5), (3, 6)],
            Kind::Memory => &[(35, 0), (15, 1), (20, 2), (8, 3), (10, 4), (3, 5), (3, 6)],
            _ => &[(45, 0), (15, 1), (5, 2), (35, 6)],
        };
        let tot: u64 = w.iter().map(|x| x.0).sum();
        for _ in 0..r.range(2, 4) {
            let mut ops = vec![];
            for _ in 0..r.range(1, if big { 9 } else { 4 }) {
                let mut x = r.below(tot);
                let mut o = 0;
                for (ww, i) in w {
                    if x < *ww {
                        o = *i;
                        break;
                    }
                    x -= ww;
                }
                let (mut kk, mut ef) = (r.pick(&[1usize, 3, 10]), r.pick(&[1usize, 4, 30]));
                if k == Kind::Memory {
                    kk = r.pick(&[1usize, 3, 10, 1000, 1 << 24, 1 << 40, usize::MAX / 2, usize::MAX]);
                    ef = r.pick(&[1usize, 4, 30, 1000, 1 << 24, 1 << 40, usize::MAX / 2, usize::MAX]);
                }
                ops.push(match o {
                    0 => Op::Insert { p: pt(r), bomb: bomb(r) },
                    1 => Op::Par { pts: (0..r.range(1, 5)).map(|_| pt(r)).collect(), bomb: bomb(r) },
                    2 => Op::Search { q: vec(r), k: kk, ef, bomb: bomb(r) },
                    3 => Op::ParSearch { qs: (0..r.range(0, 5)).map(|_| vec(r)).collect(), k: kk, ef, bomb: bomb(r) },
                    4 => Op::Filter { q: vec(r), k: kk, ef, modulus: r.pick(&[1usize, 2, 5]), bomb: bomb(r), fbomb: bomb(r) },
                    5 => Op::Iter { bombless: 0 },
                    _ => Op::Flat,
                });
            }
            b.threads.push(ops);
        }
        if k == Kind::Panics {
            b.post = (0..r.range(1, 5)).map(|_| pt(r)).collect();
        }
        if k == Kind::Resources {
            b.cycles = if r.chance(1, 4) { r.pick(&[1usize, 3, 3, 5]) } else { 0 };
            b.pre.truncate(12);
            if b.cycles > 1 && !b.pre.is_empty() && r.chance(1, 2) {
                b.flavor |= 64;
                let size = b.pre.len() as u64 * 2200 * if b.flavor & 32 == 32 { 8 } else { 4 } + 2000;
                let ops = size / 8192 + 4;
                for _ in 0..r.range(1, 4) {
                    let mut f = match r.below(12) {
                        0..=2 => fault("read", "errno", 1 + r.below(3 * ops), r.pick(&[libc::EIO, libc::EINTR]) as i64),
                        3 => fault("read", "short", 1 + r.below(3 * ops), 1 + r.below(8000) as i64),
                        4 | 5 => fault("open", "errno", 1 + r.below(14), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT]) as i64),
                        6 => fault("mmap", "errno", 1 + r.below(3), libc::ENOMEM as i64),
                        7 | 8 => fault("write", "errno", 1 + r.below(2 * ops), r.pick(&[libc::EIO, libc::ENOSPC]) as i64),
                        9 => fault("stat", "errno", 1 + r.below(6), libc::EIO as i64),
                        10 => fault("rename", "errno", 1 + r.below(2), libc::EIO as i64),
                        _ => {
                            c.disk_budget = r.below(2 * size) as i64;
                            continue;
                        }
                    };
                    f.persistent = f.arg != libc::EINTR as i64 && f.action == "errno" && r.chance(1, 4);
                    c.faults.push(f);
                }
            }
        }
        if k == Kind::Memory {
            b.efc = r.pick(&[1usize, 4, 10, 40, 1 << 24, usize::MAX]);
            b.cycles = r.pick(&[0usize, 1, 10, 1000, 100_000, 1_000_000, 10_000_000]);
            b.dim = if r.chance(1, 12) { 200_000 } else { r.pick(&[1usize, 3, 100, 3000]) };
            b.max_layer = r.pick(&[16usize, 16, 16, 16, 1, 4]);
        }
        if k != Kind::Panics && r.chance(1, 10) {
            // levels are then drawn evenly among all layers
            b.m = 1;
        }
        if b.max_layer == 1 && k == Kind::Panics && r.chance(2, 3) {
            b.m = b.m.max(everything(&b).len().div_ceil(2));
        }
        c.body = serde_json::to_value(&b).unwrap();
    }
    fn valid(&self, body: &Value) -> bool {
        let Ok(c) = serde_json::from_value::<Rob>(body.clone()) else { return false };
        if c.m < (if matches!(self.kind, Kind::Resources | Kind::Flatten | Kind::Levels | Kind::Memory) { 1 } else { 2 }) || c.m > 200 || c.max_layer < 1 || c.max_layer > 16 || c.efc < 1 || c.scale < 200 || c.scale > 1000 || c.cycles > if self.kind == Kind::Memory { 10_000_000 } else { 1000 } {
            return false;
        }
        if self.kind == Kind::Memory && !(1..=200_000).contains(&c.dim) {
            return false;
        }
        if self.kind == Kind::Recall {
            return c.cycles == 200 && c.queries == 20 && c.dim == 8 && c.m >= 8 && c.efc == 100 && c.max_layer == 16 && c.scale == 1000;
        }
        if self.kind == Kind::Levels {
            return c.cycles >= 300 && c.flavor < 4;
        }
        let all = everything(&c);
        if population_of(&all).len() != all.len() {
            return false;
        }
        let mut dims: HashSet<usize> = all.iter().map(|p| p.v.len()).collect();
        for o in c.threads.iter().flatten() {
            match o {
                Op::Search { q, k, ef, .. } => {
                    dims.insert(q.len());
                    if *k < 1 || *ef < 1 {
                        return false;
                    }
                }
                Op::Filter { q, k, ef, modulus, .. } => {
                    dims.insert(q.len());
                    if *k < 1 || *ef < 1 || *modulus < 1 {
                        return false;
                    }
                }
                Op::ParSearch { qs, k, ef, .. } => {
                    dims.extend(qs.iter().map(|q| q.len()));
                    if *k < 1 || *ef < 1 {
                        return false;
                    }
                }
                _ => {}
            }
        }
        !(dims.len() > 1 || dims.contains(&0))
    }
    fn run(&self, case: &Case) {
        let c: Rob = serde_json::from_value(case.body.clone()).expect("body");
        match self.kind {
            Kind::Resources => resources(&c),
            Kind::Panics => panics(&c),
            Kind::Flatten => flatten(&c),
            Kind::Recall => recall(&c),
            Kind::Levels => levels(&c),
            Kind::Memory => memory(&c),
        }
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (self.runs, 300),
            Tier::Thorough => (self.runs * 40, 3600),
        }
    }
    fn rule(&self) -> String {
        self.rule.to_string()
    }
    fn probes(&self) -> Vec<&'static str> {
        self.probes.to_vec()
    }
}
