//! Concurrent construction and search: one workload shape, several properties.
use super::util::*;
use super::Prop;
use crate::engine::{note, Case, Tier};
use crate::rng::Rng;
use crate::rt;
use crate::violate;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pt {
    pub id: usize,
    pub v: Vec<i32>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Op {
    Insert { p: Pt, slice: bool },
    Par { pts: Vec<Pt>, slice: bool },
    Search { q: Vec<i32>, k: usize, ef: usize },
    ParSearch { qs: Vec<Vec<i32>>, k: usize, ef: usize },
    /// keep: ids satisfying id % modulus == rest; or a sorted id list when `list`
    Filter { q: Vec<i32>, k: usize, ef: usize, modulus: usize, rest: usize, list: bool },
    Count,
    Iter,
    IterLayer { layer: usize },
    Level,
    Layers,
    Audit,
    /// the calls that print
    Info,
    /// identifiers taken from answers, looked up
    Lookup { q: Vec<i32> },
    Flat,
    Dump { name: usize },
    /// the calls are made by tasks on the work-stealing pool itself
    Pool { ops: Vec<Op> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Conc {
    pub m: usize,
    pub max_layer: usize,
    pub efc: usize,
    pub cap: usize,
    pub keep: bool,
    pub extend: bool,
    /// level scale in thousandths, 1000 = untouched
    pub scale: u32,
    pub pre: Vec<Pt>,
    pub threads: Vec<Vec<Op>>,
    /// use the equivalent calls of the trait for other languages, and `search_possible_filter`
    #[serde(default)]
    pub api: bool,
}

/// all calls of a workload, those nested in pool tasks included
fn all_ops(c: &Conc) -> Vec<&Op> {
    let mut v = vec![];
    for o in c.threads.iter().flatten() {
        match o {
            Op::Pool { ops } => v.extend(ops.iter()),
            _ => v.push(o),
        }
    }
    v
}
fn layers_of(c: &Conc) -> usize {
    c.max_layer.min(16)
}

pub fn fv(v: &[i32]) -> Vec<f32> {
    v.iter().map(|&x| x as f32).collect()
}

pub struct ConcProp {
    id: &'static str,
    kind: Kind,
    runs: u64,
    rule: &'static str,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Progress,
    Storage,
    Lists,
    Top,
    Exact,
    Sound,
    ParSearch,
    Filter,
    Iter,
}

pub static PROPS: [ConcProp; 9] = [
    ConcProp { id: "C01", kind: Kind::Progress, runs: 72000, rule: "2-4 caller threads issue random mixes of every insert, search and inspection call on one index." },
    ConcProp { id: "C02", kind: Kind::Storage, runs: 72000, rule: "2-4 caller threads insert disjoint ids through all four insertion calls while others read counts; the stored population is compared with the insertion history." },
    ConcProp { id: "C03", kind: Kind::Lists, runs: 72000, rule: "concurrent insertions with auditors reading neighbour lists of stored points during and after the run." },
    ConcProp { id: "C04", kind: Kind::Top, runs: 72000, rule: "concurrent insertions into indexes with small level budgets and many levels; top level observed during and after the run." },
    ConcProp { id: "C05", kind: Kind::Exact, runs: 96000, rule: "single-layer indexes holding at most 2M points; searches wide enough to be exhaustive, during and after concurrent insertion, against brute force." },
    ConcProp { id: "C06", kind: Kind::Sound, runs: 72000, rule: "searches racing insertions, each answer checked against the history stamped with global event numbers." },
    ConcProp { id: "C07", kind: Kind::ParSearch, runs: 32000, rule: "batches of searches on the work-stealing pool, from one or several threads, compared with one-by-one searches." },
    ConcProp { id: "C08", kind: Kind::Filter, runs: 72000, rule: "filtered searches racing insertions and afterwards, soundness always, exactness on small single-layer indexes." },
    ConcProp { id: "C09", kind: Kind::Iter, runs: 72000, rule: "iterators and population queries racing insertions, snapshots checked against the history." },
];

fn gen_pt(r: &mut Rng, id: usize, dim: usize, span: u64) -> Pt {
    Pt { id, v: (0..dim).map(|_| r.below(span) as i32).collect() }
}
/// now and then some of the ids are at the ends of their range
pub fn special_id(on: bool, nth: usize) -> Option<usize> {
    match nth {
        2 if on => Some(0),
        3 if on => Some(usize::MAX),
        5 if on => Some(u32::MAX as usize),
        6 if on => Some(1 << 63),
        _ => None,
    }
}
fn gen_vec(r: &mut Rng, dim: usize, span: u64) -> Vec<i32> {
    (0..dim).map(|_| r.below(span) as i32).collect()
}

impl ConcProp {
    fn gen_body(&self, r: &mut Rng, tier: Tier) -> Conc {
        let k = self.kind;
        let big = if tier == Tier::Thorough { r.chance(1, 4) } else { r.chance(1, 20) };
        let huge = r.chance(1, 160);
        let single = match k {
            Kind::Exact => r.chance(2, 3),
            Kind::Filter => r.chance(1, 2),
            _ => r.chance(1, 8),
        };
        let mut m = if huge { r.pick(&[2usize, 4, 12, 16, 32, 100]) } else { r.pick(&[2usize, 2, 2, 3, 4, 6, 8]) };
        let max_layer = if single { 1 } else { r.pick(&[2usize, 3, 4, 8, 16, 16, 20]) };
        let dim = if huge { r.pick(&[2usize, 5, 9]) } else { r.pick(&[1usize, 2, 2, 3]) };
        let span = r.pick(&[4u64, 10, 100, 1000]);
        let nthreads = r.pick(&[2usize, 2, 3, 3, 4]);
        let npre = match r.below(4) {
            0 => 0,
            1 => r.range(1, 2),
            _ if huge => r.range(30, 160),
            _ => r.range(1, if big { 24 } else { 8 }),
        };
        let nops = if huge { r.range(1, 2) } else { r.range(1, if big { 10 } else { 4 }) };
        let mut id = 0usize;
        // ids are unique but neither dense nor ordered
        let salt = r.pick(&[0usize, 0, 1000, 1 << 40]);
        let special = r.chance(1, 5);
        let mut newpt = |r: &mut Rng| {
            id += 1;
            gen_pt(r, special_id(special, id).unwrap_or(salt + ((id * 7919) % 100003)), dim, span)
        };
        let pre: Vec<Pt> = (0..npre).map(|_| newpt(r)).collect();
        let mut w: Vec<(u64, u8)> = match k {
            Kind::Progress => vec![(40, 0), (15, 1), (15, 2), (8, 3), (6, 4), (4, 5), (5, 6), (3, 7), (3, 8), (2, 9), (3, 10), (2, 11), (2, 12), (2, 13), (2, 14)],
            Kind::Storage => vec![(60, 0), (20, 1), (5, 2), (15, 5)],
            Kind::Lists => vec![(60, 0), (15, 1), (5, 2), (20, 10)],
            Kind::Top => vec![(60, 0), (12, 1), (4, 2), (16, 8), (8, 9)],
            Kind::Exact => vec![(50, 0), (10, 1), (40, 2)],
            Kind::Sound => vec![(45, 0), (10, 1), (40, 2), (5, 3)],
            Kind::ParSearch => vec![(100, 3)],
            Kind::Filter => vec![(50, 0), (10, 1), (40, 4)],
            Kind::Iter => vec![(50, 0), (10, 1), (20, 6), (8, 7), (8, 5), (4, 9)],
        };
        if r.chance(1, 2) {
            // swarm: drop one kind of operation
            let i = r.range(1, w.len()).min(w.len() - 1);
            if i > 0 {
                w.remove(i);
            }
        }
        let tot: u64 = w.iter().map(|x| x.0).sum();
        let mut threads = vec![];
        for _ in 0..nthreads {
            let mut ops = vec![];
            for _ in 0..nops {
                let mut x = r.below(tot);
                let mut op = 0;
                for (ww, o) in &w {
                    if x < *ww {
                        op = *o;
                        break;
                    }
                    x -= ww;
                }
                let kk = if r.chance(1, 40) { r.pick(&[0usize, 1000]) } else if huge { r.pick(&[1usize, 10, 33, 70, 300]) } else { r.pick(&[1usize, 2, 5, 10]) };
                let ef = if huge { r.pick(&[1usize, 30, 100, 200]) } else { r.pick(&[1usize, 2, 5, 20, 64]) };
                let nb = |r: &mut Rng, n: usize| if huge { r.range(1, 40) } else { r.range(0, n) };
                ops.push(match op {
                    0 => Op::Insert { p: newpt(r), slice: r.chance(1, 2) },
                    1 => Op::Par { pts: (0..nb(r, 5).max(1)).map(|_| newpt(r)).collect(), slice: r.chance(1, 2) },
                    2 => Op::Search { q: gen_vec(r, dim, span), k: kk, ef },
                    3 => Op::ParSearch { qs: (0..nb(r, 9)).map(|_| gen_vec(r, dim, span)).collect(), k: kk, ef },
                    4 => {
                        let modulus = r.pick(&[1usize, 2, 3, 7, 1000]);
                        Op::Filter { q: gen_vec(r, dim, span), k: kk, ef, modulus, rest: r.below(modulus as u64) as usize, list: r.chance(1, 3) }
                    }
                    5 => Op::Count,
                    6 => Op::Iter,
                    7 => Op::IterLayer { layer: r.below(max_layer.min(16) as u64) as usize },
                    8 => Op::Level,
                    9 => Op::Layers,
                    10 => Op::Audit,
                    11 => Op::Info,
                    12 => Op::Lookup { q: gen_vec(r, dim, span) },
                    13 => Op::Flat,
                    _ => Op::Dump { name: threads.len() * 100 + ops.len() },
                });
            }
            if ops.len() > 1 && r.chance(1, 8) {
                let n = r.range(1, ops.len() - 1);
                let rest = ops.split_off(n);
                ops.push(Op::Pool { ops: rest });
            }
            threads.push(ops);
        }
        if r.chance(1, 300) {
            // one large batch
            let n = r.pick(&[70usize, 130, 260, 520, 1100, 2100, 4200]);
            match k {
                Kind::ParSearch | Kind::Sound | Kind::Progress if k == Kind::ParSearch || r.chance(1, 2) => {
                    threads[0].push(Op::ParSearch { qs: (0..n).map(|_| gen_vec(r, dim, span)).collect(), k: 2, ef: 3 })
                }
                Kind::Storage | Kind::Sound | Kind::Progress | Kind::Top | Kind::Iter => {
                    threads[0].push(Op::Par { pts: (0..n / 2).map(|_| newpt(r)).collect(), slice: r.chance(1, 2) })
                }
                _ => {}
            }
        }
        let mut c = Conc {
            m,
            max_layer,
            efc: if huge { r.pick(&[8usize, 40, 90]) } else { r.pick(&[1usize, 3, 10, 40]) },
            cap: r.pick(&[0usize, 1, 16, 100]),
            keep: r.chance(1, 3),
            extend: r.chance(1, 3),
            scale: r.pick(&[1000u32, 1000, 1000, 500, 200]),
            pre,
            threads,
            api: r.chance(1, 4),
        };
        if k != Kind::Top && k != Kind::ParSearch && !huge && r.chance(1, 4) {
            // few short threads from the start: races for the first points and the first layers
            c.pre.truncate(r.range(0, 3));
            for t in c.threads.iter_mut() {
                t.truncate(r.range(1, 2));
            }
        }
        if k == Kind::Top && !huge && r.chance(1, 2) {
            // many levels, few cheap insertions: the races for the entry point come first
            c.m = 2;
            c.max_layer = r.pick(&[4usize, 8, 16]);
            c.scale = 1000;
            c.efc = r.pick(&[1usize, 3]);
            c.keep = false;
            c.extend = false;
            c.pre.truncate(r.range(0, 3));
            while c.threads.len() < 4 {
                c.threads.push(vec![]);
            }
            for t in c.threads.iter_mut() {
                t.truncate(3);
                if t.is_empty() || r.chance(1, 2) {
                    t.push(Op::Insert { p: newpt(r), slice: r.chance(1, 2) });
                }
            }
        }
        if matches!(k, Kind::Progress | Kind::Storage | Kind::Lists | Kind::Sound | Kind::Top | Kind::Iter) && r.chance(1, 25) {
            c.m = 1;
        }
        if matches!(k, Kind::Exact | Kind::Filter) && r.chance(1, 250) {
            // long answers
            c.max_layer = 1;
            c.efc = r.pick(&[1usize, 3]);
            let n = r.range(250, 300);
            c.threads.truncate(1);
            c.threads[0].truncate(1);
            c.pre.truncate(4);
            c.threads[0].push(Op::Par { pts: (0..n).map(|_| newpt(r)).collect(), slice: r.chance(1, 2) });
            let kk = r.pick(&[255usize, 256, 257, 290, 400]);
            c.threads[0].push(if k == Kind::Exact { Op::Search { q: gen_vec(r, dim, span), k: kk, ef: 1 } } else { Op::Filter { q: gen_vec(r, dim, span), k: kk, ef: 1, modulus: 1, rest: 0, list: r.chance(1, 2) } });
        }
        if k == Kind::ParSearch {
            // population first; then only batches
            c.pre = (0..r.range(0, if huge { 250 } else if big { 60 } else { 20 })).map(|_| newpt(r)).collect();
            if r.chance(2, 3) {
                c.threads.truncate(1);
            }
        }
        if (single || k == Kind::Exact || r.chance(1, 2)) && matches!(k, Kind::Exact | Kind::Filter) {
            let n = population(&c).len();
            if n > 240 {
                c.max_layer = 1;
            }
            m = m.max(if c.max_layer == 1 { n.div_ceil(2) } else { n }).max(2);
            // sometimes exactly at the bound, sometimes with slack
            c.m = if r.chance(1, 2) || m > 240 { m } else { m + r.range(0, 8) };
            for t in c.threads.iter_mut() {
                let mut set = |o: &mut Op| match o {
                    // a width below the number of neighbours asked counts as that number
                    Op::Search { k, ef, .. } | Op::Filter { k, ef, .. } => if r.chance(1, 6) {
                        *k = n.max(1) + r.below(3) as usize;
                        *ef = 1 + r.below(n as u64 + 1) as usize;
                    } else {
                        *ef = n.max(1) + r.below(3) as usize;
                    },
                    _ => {}
                };
                for o in t.iter_mut() {
                    match o {
                        Op::Pool { ops } => ops.iter_mut().for_each(&mut set),
                        _ => set(o),
                    }
                }
            }
        }
        c
    }
}

pub fn population(c: &Conc) -> HashMap<usize, Vec<i32>> {
    let mut h = HashMap::new();
    let mut add = |p: &Pt| {
        h.insert(p.id, p.v.clone());
    };
    c.pre.iter().for_each(&mut add);
    for o in all_ops(c) {
        match o {
            Op::Insert { p, .. } => add(p),
            Op::Par { pts, .. } => pts.iter().for_each(&mut add),
            _ => {}
        }
    }
    h
}
pub fn population_of(p: &[Pt]) -> HashMap<usize, Vec<i32>> {
    p.iter().map(|p| (p.id, p.v.clone())).collect()
}
/// no list can overflow: the search layer is connected once insertions have returned
fn exact_regime(c: &Conc, n: usize) -> bool {
    n <= if c.max_layer == 1 { 2 * c.m } else { c.m }
}
fn total_points(c: &Conc) -> usize {
    c.pre.len()
        + all_ops(c).iter().map(|o| match o { Op::Insert { .. } => 1, Op::Par { pts, .. } => pts.len(), _ => 0 }).sum::<usize>()
}

/// (start, end) event numbers of every insertion; end = u64::MAX while in flight
#[derive(Default)]
struct Hist {
    start: HashMap<usize, u64>,
    end: HashMap<usize, u64>,
}
static mut HIST: Option<Hist> = None;
fn hist() -> &'static mut Hist {
    // only one simulated thread executes at any time, and accesses contain no scheduling point
    unsafe { (*(&raw mut HIST)).get_or_insert_with(Hist::default) }
}

type H = Hnsw<'static, f32, SimDist>;

fn bound(c: &Conc, layer: usize) -> usize {
    if layer == 0 {
        2 * c.m
    } else {
        c.m
    }
}

pub fn check_lists(pts: &[Arc<Point<'static, f32>>], m: usize, data: &HashMap<usize, Vec<i32>>, when: &str) {
    let lists: Vec<_> = pts.iter().map(|p| (p.get_point_id(), p.get_origin_id(), p.get_neighborhood_id())).collect();
    let _q = rt::Quiet::new();
    for (pid, oid, nb) in &lists {
        let me = fv(&data[oid]);
        for (l, list) in nb.iter().enumerate() {
            let b = if l == 0 { 2 * m } else { m };
            if list.len() > b {
                violate!("list-too-long", "{when}: point {oid} {pid:?} has {} neighbours in layer {l}, allowed {b}", list.len());
            }
            let mut seen = HashSet::new();
            let mut prev = f32::NEG_INFINITY;
            for n in list {
                if n.p_id == *pid {
                    violate!("list-self", "{when}: point {oid} lists itself in layer {l}");
                }
                if !seen.insert(n.p_id) {
                    violate!("list-duplicate", "{when}: point {oid} lists {} twice in layer {l}", n.d_id);
                }
                if n.distance < prev {
                    violate!("list-unsorted", "{when}: point {oid} layer {l}: distances {:?}", list.iter().map(|x| x.distance).collect::<Vec<_>>());
                }
                prev = n.distance;
                match data.get(&n.d_id) {
                    None => violate!("list-unknown", "{when}: point {oid} lists unknown id {} in layer {l}", n.d_id),
                    Some(v) => {
                        let d = l1(&me, &fv(v));
                        if d != n.distance {
                            violate!("list-distance", "{when}: point {oid} layer {l}: neighbour {} recorded at {} but is at {d}", n.d_id, n.distance);
                        }
                    }
                }
            }
        }
    }
}

fn brute(c: &HashMap<usize, Vec<i32>>, q: &[f32], keep: &dyn Fn(usize) -> bool) -> Vec<(f32, usize)> {
    let mut v: Vec<(f32, usize)> = c.iter().filter(|x| keep(*x.0)).map(|(i, p)| (l1(q, &fv(p)), *i)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

/// soundness of one answer; `t0..t1` is the event interval of the search
#[allow(clippy::too_many_arguments)]
fn check_answer(what: &str, ans: &[Neighbour], q: &[f32], k: usize, data: &HashMap<usize, Vec<i32>>, t0: u64, t1: u64, keep: Option<&dyn Fn(usize) -> bool>, nonempty: bool) {
    let _q = rt::Quiet::new();
    let h = hist();
    if ans.len() > k {
        violate!("answer-too-long", "{what}: {} results for k={k}", ans.len());
    }
    let mut seen = HashSet::new();
    let mut prev = f32::NEG_INFINITY;
    for n in ans {
        if n.distance < prev {
            violate!("answer-unsorted", "{what}: distances {:?}", ans.iter().map(|x| x.distance).collect::<Vec<_>>());
        }
        prev = n.distance;
        if !seen.insert(n.d_id) {
            violate!("answer-duplicate", "{what}: id {} returned twice", n.d_id);
        }
        match data.get(&n.d_id) {
            None => violate!("answer-unknown", "{what}: id {} was never inserted", n.d_id),
            Some(v) => {
                let d = l1(q, &fv(v));
                if d != n.distance {
                    violate!("answer-distance", "{what}: id {} reported at {} but is at {d}", n.d_id, n.distance);
                }
            }
        }
        match h.start.get(&n.d_id) {
            Some(s) if *s <= t1 => {}
            _ => violate!("answer-from-future", "{what}: id {} returned before its insertion began", n.d_id),
        }
        if let Some(f) = keep {
            if !f(n.d_id) {
                violate!("filter-violated", "{what}: id {} does not satisfy the filter", n.d_id);
            }
        }
    }
    if nonempty && k > 0 && ans.is_empty() {
        if let Some((i, e)) = h.end.iter().find(|x| *x.1 < t0) {
            violate!("answer-empty", "{what}: nothing found although insertion of {i} had completed at {e} (search began at {t0})");
        }
    }
}

fn ins(h: &H, p: &Pt, slice: bool) {
    let v = fv(&p.v);
    rt::quiet(|| {
        let s = rt::step();
        hist().start.insert(p.id, s);
    });
    guard("insert", || if slice { h.insert_slice((&v, p.id)) } else { h.insert((&v, p.id)) });
    rt::quiet(|| {
        let s = rt::step();
        hist().end.insert(p.id, s);
    });
}
fn par(h: &H, pts: &[Pt], slice: bool) {
    let vs: Vec<Vec<f32>> = pts.iter().map(|p| fv(&p.v)).collect();
    rt::quiet(|| {
        for p in pts {
            hist().start.insert(p.id, rt::step());
        }
    });
    if slice {
        // equal vectors are given as the same slice
        let d: Vec<(&[f32], usize)> = (0..pts.len()).map(|i| (vs[vs.iter().take(50).position(|v| *v == vs[i]).unwrap_or(i)].as_slice(), pts[i].id)).collect();
        guard("parallel_insert_slice", || h.parallel_insert_slice(&d));
    } else {
        let d: Vec<(&Vec<f32>, usize)> = (0..pts.len()).map(|i| (&vs[vs.iter().take(50).position(|v| *v == vs[i]).unwrap_or(i)], pts[i].id)).collect();
        guard("parallel_insert", || h.parallel_insert(&d));
    }
    rt::quiet(|| {
        for p in pts {
            hist().end.insert(p.id, rt::step());
        }
    });
}

fn collect(h: &H) -> Vec<Arc<Point<'static, f32>>> {
    h.get_point_indexation().into_iter().collect()
}
fn collect_layers(h: &H, nl: usize) -> Vec<Vec<Arc<Point<'static, f32>>>> {
    (0..nl).map(|l| h.get_point_indexation().get_layer_iterator(l).collect()).collect()
}

impl ConcProp {
    fn op(&self, h: &H, c: &Conc, data: &HashMap<usize, Vec<i32>>, o: &Op, st: &mut (usize, u8)) {
        let k = self.kind;
        rt::point(rt::K_OP);
        match o {
            Op::Insert { p, slice } => {
                rt::label("insert");
                ins(h, p, *slice);
                if k == Kind::Top {
                    // the level this point was given must be covered by the reported top level
                    let lv = collect_layers(h, layers_of(c)).iter().position(|l| l.iter().any(|x| x.get_origin_id() == p.id));
                    match lv {
                        None => violate!("stored-point-missing", "point {} is in no layer after its insertion returned", p.id),
                        Some(l) => {
                            let top = h.get_max_level_observed() as usize;
                            if top < l {
                                violate!("top-level-low", "point {} of level {l} is inserted but the reported top level is {top}", p.id);
                            }
                        }
                    }
                }
            }
            Op::Par { pts, slice } => {
                rt::label("parallel_insert");
                par(h, pts, *slice);
            }
            Op::Search { q, k: kn, ef } => {
                rt::label("search");
                let q = fv(q);
                let t0 = rt::step();
                let a = guard("search", || if c.api { if (q.len() + ef) % 2 == 0 { h.search_neighbours(&q, *kn, *ef) } else { h.search_possible_filter(&q, *kn, *ef, None) } } else { h.search(&q, *kn, *ef) });
                let t1 = rt::step();
                if matches!(k, Kind::Sound | Kind::Exact) {
                    check_answer("search", &a, &q, *kn, data, t0, t1, None, true);
                }
                if k == Kind::Exact && c.max_layer == 1 {
                    self.exact_inflight("search", &a, &q, *kn, data, t0, t1, &|_| true);
                }
            }
            Op::ParSearch { qs, k: kn, ef } => {
                rt::label("parallel_search");
                let qs: Vec<Vec<f32>> = qs.iter().map(|q| fv(q)).collect();
                let t0 = rt::step();
                let a = guard("parallel_search", || if c.api { h.parallel_search_neighbours(&qs, *kn, *ef) } else { h.parallel_search(&qs, *kn, *ef) });
                let t1 = rt::step();
                if a.len() != qs.len() {
                    violate!("batch-length", "{} answers for {} requests", a.len(), qs.len());
                }
                if k == Kind::Sound {
                    for (q, x) in qs.iter().zip(&a) {
                        check_answer("parallel_search", x, q, *kn, data, t0, t1, None, true);
                    }
                }
                if k == Kind::ParSearch {
                    for (i, (q, x)) in qs.iter().zip(&a).enumerate() {
                        let one = guard("search", || h.search(q, *kn, *ef));
                        let f = |v: &[Neighbour]| v.iter().map(|n| (n.d_id, n.distance.to_bits(), n.p_id)).collect::<Vec<_>>();
                        if f(&one) != f(x) {
                            violate!("batch-differs", "request {i} of {}: batch answered {:?}, alone {:?}", qs.len(), f(x), f(&one));
                        }
                    }
                }
            }
            Op::Filter { q, k: kn, ef, modulus, rest, list } => {
                rt::label("search_filter");
                let q = fv(q);
                let keep = |i: usize| i % modulus == *rest;
                let t0 = rt::step();
                let a = if *list {
                    let mut ids: Vec<usize> = data.keys().copied().filter(|i| keep(*i)).collect();
                    ids.sort();
                    guard("search_filter", || if c.api { h.search_possible_filter(&q, *kn, *ef, Some(&ids)) } else { h.search_filter(&q, *kn, *ef, Some(&ids)) })
                } else {
                    let f = |i: &usize| {
                        rt::point(rt::K_USER);
                        keep(*i)
                    };
                    guard("search_filter", || if c.api { h.search_possible_filter(&q, *kn, *ef, Some(&f)) } else { h.search_filter(&q, *kn, *ef, Some(&f)) })
                };
                let t1 = rt::step();
                if k == Kind::Filter {
                    check_answer("search_filter", &a, &q, *kn, data, t0, t1, Some(&keep), false);
                    if c.max_layer == 1 && exact_regime(c, data.len()) && *ef.max(kn) >= data.len() {
                        self.exact_inflight("search_filter", &a, &q, *kn, data, t0, t1, &keep);
                    }
                }
            }
            Op::Count => {
                rt::label("count");
                let (lo, _) = rt::quiet(|| (hist().end.len(), 0));
                let n = h.get_nb_point();
                let hi = rt::quiet(|| hist().start.len());
                if matches!(k, Kind::Storage | Kind::Iter) {
                    if n < lo || n > hi {
                        violate!("count-out-of-range", "get_nb_point() = {n} with {lo} insertions completed before and {hi} started");
                    }
                    if n < st.0 {
                        violate!("count-went-back", "get_nb_point() went from {} to {n}", st.0);
                    }
                }
                st.0 = n;
            }
            Op::Iter => {
                rt::label("iterate");
                let before: HashSet<usize> = rt::quiet(|| hist().end.keys().copied().collect());
                let mut it = h.get_point_indexation().into_iter();
                let mut pts = vec![];
                while let Some(p) = guard("iterator", || it.next()) {
                    pts.push(p);
                    if pts.len() > data.len() {
                        violate!("iter-too-many", "the iterator yields more points than were ever inserted");
                    }
                }
                drop(it);
                if k == Kind::Iter {
                    let _q = rt::Quiet::new();
                    let mut seen = HashSet::new();
                    let mut last = PointId(0, -1);
                    for p in &pts {
                        let (id, pid) = (p.get_origin_id(), p.get_point_id());
                        if !seen.insert(id) {
                            violate!("iter-duplicate", "iteration yields {id} twice");
                        }
                        if pid <= last {
                            violate!("iter-order", "iteration yields {pid:?} after {last:?}");
                        }
                        last = pid;
                        if !hist().start.contains_key(&id) {
                            violate!("iter-unknown", "iteration yields {id} which no insertion has started");
                        }
                        if p.get_v() != fv(&data[&id]).as_slice() {
                            violate!("iter-data", "iteration yields {id} with vector {:?}", p.get_v());
                        }
                    }
                    if let Some(m) = before.iter().find(|i| !seen.contains(i)) {
                        violate!("iter-misses", "iteration misses {m}, inserted before it began");
                    }
                }
            }
            Op::IterLayer { layer } => {
                rt::label("iterate layer");
                let before = rt::quiet(|| hist().start.clone_keys());
                let _ = before;
                let a = h.get_point_indexation().get_layer_nb_point(*layer);
                let v: Vec<_> = guard("layer iterator", || h.get_point_indexation().get_layer_iterator(*layer).collect());
                let b = h.get_point_indexation().get_layer_nb_point(*layer);
                if k == Kind::Iter {
                    if v.len() < a || v.len() > b {
                        violate!("layer-count", "layer {layer}: {} points iterated, {a} reported before and {b} after", v.len());
                    }
                    for (i, p) in v.iter().enumerate() {
                        if p.get_point_id() != PointId(*layer as u8, i as i32) {
                            violate!("layer-rank", "layer {layer} rank {i} holds a point that calls itself {:?}", p.get_point_id());
                        }
                    }
                }
            }
            Op::Level => {
                rt::label("top level");
                let l = h.get_max_level_observed();
                if k == Kind::Top {
                    if l < st.1 {
                        violate!("top-level-went-back", "reported top level went from {} to {l}", st.1);
                    }
                    if l > 0 && h.get_point_indexation().get_layer_nb_point(l as usize) == 0 {
                        violate!("top-level-empty", "reported top level {l} holds no point");
                    }
                    if l as usize >= layers_of(c) {
                        violate!("level-out-of-range", "reported top level {l} in an index of {} layers", c.max_layer);
                    }
                }
                st.1 = l;
            }
            Op::Layers => {
                rt::label("layer counts");
                let lo = rt::quiet(|| hist().end.len());
                let mut n = 0;
                for l in 0..layers_of(c) {
                    n += h.get_point_indexation().get_layer_nb_point(l);
                }
                let hi = rt::quiet(|| hist().start.len());
                if matches!(k, Kind::Iter | Kind::Storage | Kind::Top) && (n < lo || n > hi) {
                    violate!("layer-sum", "layer populations sum to {n}; {lo} insertions had completed and {hi} started");
                }
            }
            Op::Pool { ops } => {
                rt::label("tasks on the pool");
                rayon::scope(|s| {
                    for o in ops {
                        s.spawn(move |_| {
                            let mut st = (0usize, 0u8);
                            self.op(h, c, data, o, &mut st);
                        });
                    }
                });
            }
            Op::Lookup { q } => {
                rt::label("look up");
                for n in guard("search", || h.search(&fv(q), 3, 5)) {
                    match guard("get_point_data", || h.get_point_indexation().get_point_data(&n.p_id)) {
                        Some(v) if Some(&v) != data.get(&n.d_id).map(|x| fv(x)).as_ref() => violate!("lookup-wrong", "looking up {:?}, found for id {}, gives {v:?}", n.p_id, n.d_id),
                        _ => {}
                    }
                }
                guard("get_point_data", || h.get_point_indexation().get_point_data(&PointId(3, 1 << 20)));
            }
            Op::Flat => {
                rt::label("flatten");
                let f = guard("flatten", || FlatNeighborhood::from(h));
                guard("drop", || drop(f));
            }
            Op::Dump { name } => {
                rt::label("dump");
                let d = super::io::base_dir(false);
                let _ = guard("file_dump", || h.file_dump(&d, &format!("d{name}")));
            }
            Op::Info => {
                rt::label("print");
                guard("dump_layer_info", || h.dump_layer_info());
                let p = guard("iterator", || h.get_point_indexation().into_iter().last());
                if let Some(p) = p {
                    guard("debug_dump", || p.debug_dump());
                }
                let _ = (h.get_distance_name(), h.get_distance(), h.get_point_indexation().get_data_dimension(), h.get_point_indexation().get_level_scale());
            }
            Op::Audit => {
                rt::label("audit");
                let pts = guard("iterator", || collect(h));
                if k == Kind::Lists {
                    check_lists(&pts, c.m, data, "during construction");
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn exact_inflight(&self, what: &str, a: &[Neighbour], q: &[f32], kn: usize, data: &HashMap<usize, Vec<i32>>, t0: u64, _t1: u64, keep: &dyn Fn(usize) -> bool) {
        let _q = rt::Quiet::new();
        let h = hist();
        // every point acknowledged before the search began is among the answers unless k points at least as near are
        let done: HashMap<usize, Vec<i32>> = data.iter().filter(|x| keep(*x.0) && h.end.get(x.0).map(|e| *e <= t0).unwrap_or(false)).map(|(i, v)| (*i, v.clone())).collect();
        let b = brute(&done, q, &|_| true);
        let ids: HashSet<usize> = a.iter().map(|n| n.d_id).collect();
        for (d, i) in &b {
            if ids.contains(i) {
                continue;
            }
            let nearer = a.iter().filter(|n| n.distance <= *d).count();
            if nearer < kn {
                violate!("acknowledged-point-lost", "{what} (k={kn}): point {i} at distance {d}, inserted before the search began, is missing; answer {:?}", a.iter().map(|n| (n.d_id, n.distance)).collect::<Vec<_>>());
            }
        }
    }

    /// everything the public interface shows of the index
    fn picture(&self, h: &H, c: &Conc) -> Vec<(PointId, usize, Vec<Vec<(usize, PointId, u32)>>)> {
        collect_layers(h, layers_of(c))
            .into_iter()
            .flatten()
            .map(|p| (p.get_point_id(), p.get_origin_id(), p.get_neighborhood_id().iter().map(|l| l.iter().map(|n| (n.d_id, n.p_id, n.distance.to_bits())).collect()).collect()))
            .collect()
    }

    fn quiescent(&self, h: &H, c: &Conc, data: &HashMap<usize, Vec<i32>>) {
        let n = total_points(c);
        rt::label("final checks");
        match self.kind {
            Kind::Progress => {
                // the index is still usable
                let p = Pt { id: usize::MAX - 5, v: vec![1; c.pre.first().map(|p| p.v.len()).unwrap_or(1)] };
                if n == 0 || !c.pre.is_empty() {
                    ins(h, &p, true);
                    guard("search", || h.search(&fv(&p.v), 3, 10));
                }
            }
            Kind::Storage => {
                let cnt = h.get_nb_point();
                if cnt != n {
                    violate!("count-wrong", "{n} points inserted, get_nb_point() = {cnt}");
                }
                let pi = h.get_point_indexation();
                let sum: usize = (0..layers_of(c)).map(|l| pi.get_layer_nb_point(l)).sum();
                if sum != n {
                    violate!("layer-sum", "{n} points inserted, layer populations sum to {sum}");
                }
                let pts = guard("iterator", || collect(h));
                let mut seen: HashMap<usize, PointId> = HashMap::new();
                for p in &pts {
                    let id = p.get_origin_id();
                    if seen.insert(id, p.get_point_id()).is_some() {
                        violate!("stored-twice", "point {id} is stored twice");
                    }
                    match data.get(&id) {
                        None => violate!("stored-unknown", "id {id} is stored but was never inserted"),
                        Some(v) if fv(v).as_slice() != p.get_v() => violate!("stored-data", "id {id} is stored with vector {:?} instead of {v:?}", p.get_v()),
                        _ => {}
                    }
                }
                for id in data.keys() {
                    if !seen.contains_key(id) {
                        violate!("stored-missing", "point {id} was inserted but iteration does not yield it");
                    }
                }
                let uniq: HashSet<PointId> = seen.values().copied().collect();
                if uniq.len() != seen.len() {
                    violate!("rank-shared", "two points share a (level, rank)");
                }
                for (id, pid) in &seen {
                    match guard("get_point_data", || pi.get_point_data(pid)) {
                        Some(v) if v == fv(&data[id]) => {}
                        x => violate!("lookup-wrong", "lookup of {pid:?} (id {id}) gives {x:?}"),
                    }
                }
                for l in 0..layers_of(c) {
                    let lv = collect_layers(h, layers_of(c));
                    for (i, p) in lv[l].iter().enumerate() {
                        if p.get_point_id() != PointId(l as u8, i as i32) {
                            violate!("layer-rank", "layer {l} rank {i} holds a point that calls itself {:?}", p.get_point_id());
                        }
                    }
                    // beyond the population: no data
                    if pi.get_point_data(&PointId(l as u8, lv[l].len() as i32)).is_some() {
                        violate!("lookup-wrong", "lookup beyond the population of layer {l} finds data");
                    }
                }
                if n > 0 {
                    let dim = data.values().next().unwrap().len();
                    if pi.get_data_dimension() != dim {
                        violate!("dimension", "get_data_dimension() = {} for {dim}-vectors", pi.get_data_dimension());
                    }
                }
            }
            Kind::Lists => {
                let pts: Vec<_> = collect_layers(h, layers_of(c)).into_iter().flatten().collect();
                check_lists(&pts, c.m, data, "after construction");
                let by: HashMap<PointId, usize> = pts.iter().map(|p| (p.get_point_id(), p.get_origin_id())).collect();
                for p in &pts {
                    for list in p.get_neighborhood_id() {
                        for nb in list {
                            if by.get(&nb.p_id) != Some(&nb.d_id) {
                                violate!("list-dangling", "point {} lists {:?} as id {}, stored there: {:?}", p.get_origin_id(), nb.p_id, nb.d_id, by.get(&nb.p_id));
                            }
                        }
                    }
                }
                let _ = bound(c, 0);
            }
            Kind::Top => {
                let layers = collect_layers(h, layers_of(c));
                let top = layers.iter().rposition(|l| !l.is_empty()).unwrap_or(0);
                let obs = h.get_max_level_observed() as usize;
                if obs != top {
                    violate!("top-level-wrong", "highest occupied layer is {top}, reported top level {obs}");
                }
                let n1: usize = layers.iter().map(|l| l.len()).sum();
                if n1 != n {
                    violate!("layer-sum", "{n} points inserted, layers hold {n1}");
                }
                let it = guard("iterator", || collect(h));
                if it.len() != n {
                    violate!("iter-incomplete", "{n} points inserted, iteration yields {}", it.len());
                }
                for (l, v) in layers.iter().enumerate() {
                    for p in v {
                        if p.get_point_id().0 as usize != l {
                            violate!("level-mismatch", "a point calling itself {:?} is in layer {l}", p.get_point_id());
                        }
                    }
                }
            }
            Kind::Exact | Kind::Filter => {
                if !exact_regime(c, n) {
                    return;
                }
                let mut qs: Vec<Vec<i32>> = data.values().cloned().collect();
                qs.sort();
                qs.truncate(6);
                if let Some(v) = qs.first().cloned() {
                    qs.push(v.iter().map(|x| x + 3).collect());
                }
                for q in qs {
                    let q = fv(&q);
                    for (kn, w) in [(1usize, n.max(1)), (3, n.max(1)), (n.max(1), n.max(1)), (n.max(1), 1), (n + 5, 2)] {
                        if self.kind == Kind::Exact {
                            let a = guard("search", || if c.api && kn > 1 { h.search_neighbours(&q, kn, w) } else { h.search(&q, kn, w) });
                            let b = brute(data, &q, &|_| true);
                            self.same("final search", &a, &b, kn);
                        } else {
                            for (mo, re) in [(2usize, 0usize), (3, 1), (1, 0), (1000003, 999999)] {
                                let keep = |i: usize| i % mo == re;
                                let f = |i: &usize| keep(*i);
                                let a = guard("search_filter", || h.search_filter(&q, kn, w, Some(&f)));
                                let b = brute(data, &q, &keep);
                                check_answer("final search_filter", &a, &q, kn, data, rt::step(), u64::MAX, Some(&keep), false);
                                self.same("final search_filter", &a, &b, kn);
                            }
                        }
                    }
                }
            }
            Kind::Sound => {
                let mut qs: Vec<Vec<i32>> = data.values().cloned().collect();
                qs.sort();
                qs.truncate(3);
                let by: HashMap<PointId, usize> = collect_layers(h, layers_of(c)).into_iter().flatten().map(|p| (p.get_point_id(), p.get_origin_id())).collect();
                for q in qs {
                    let q = fv(&q);
                    let t = rt::step();
                    let a = guard("search", || h.search(&q, 5, 10));
                    check_answer("final search", &a, &q, 5, data, t, u64::MAX, None, true);
                    for nb in &a {
                        if by.get(&nb.p_id) != Some(&nb.d_id) {
                            violate!("answer-point-id", "answer names {:?} as id {}, stored there: {:?}", nb.p_id, nb.d_id, by.get(&nb.p_id));
                        }
                    }
                }
            }
            Kind::ParSearch | Kind::Iter => {}
        }
    }

    fn same(&self, what: &str, a: &[Neighbour], b: &[(f32, usize)], kn: usize) {
        let _q = rt::Quiet::new();
        let want = kn.min(b.len());
        let da: Vec<f32> = a.iter().map(|n| n.distance).collect();
        let db: Vec<f32> = b[..want].iter().map(|x| x.0).collect();
        if da != db {
            violate!("not-exact", "{what} k={kn}: answer {:?}, brute force {:?}", a.iter().map(|n| (n.d_id, n.distance)).collect::<Vec<_>>(), &b[..want]);
        }
        let mut s = HashSet::new();
        for n in a {
            if !s.insert(n.d_id) {
                violate!("answer-duplicate", "{what}: id {} returned twice", n.d_id);
            }
            if !b.iter().any(|x| x.1 == n.d_id && x.0 == n.distance) {
                violate!("answer-distance", "{what}: id {} at {} is not a stored pair", n.d_id, n.distance);
            }
        }
    }
}

trait CloneKeys {
    fn clone_keys(&self) -> HashSet<usize>;
}
impl CloneKeys for HashMap<usize, u64> {
    fn clone_keys(&self) -> HashSet<usize> {
        self.keys().copied().collect()
    }
}

impl Prop for ConcProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng, tier: Tier, c: &mut Case) {
        let b = self.gen_body(r, tier);
        if total_points(&b) > 100 || all_ops(&b).iter().any(|o| matches!(o, Op::ParSearch { qs, .. } if qs.len() > 100)) {
            c.max_steps = 60_000_000;
        }
        c.body = serde_json::to_value(&b).unwrap();
    }
    fn valid(&self, body: &Value) -> bool {
        let Ok(c) = serde_json::from_value::<Conc>(body.clone()) else { return false };
        if c.m < 1 || c.m > 255 || (c.m < 2 && matches!(self.kind, Kind::Exact | Kind::Filter)) || c.max_layer < 1 || c.max_layer > 20 || c.efc < 1 || c.scale < 200 || c.scale > 1000 {
            return false;
        }
        let n = total_points(&c);
        let pop = population(&c);
        if pop.len() != n {
            return false;
        }
        let mut dims: HashSet<usize> = pop.values().map(|v| v.len()).collect();
        if c.threads.iter().flatten().any(|o| matches!(o, Op::Pool { ops } if ops.iter().any(|o| matches!(o, Op::Pool { .. })))) {
            return false;
        }
        for o in all_ops(&c) {
            match o {
                Op::Lookup { q } => {
                    dims.insert(q.len());
                }
                Op::Search { q, k, ef } | Op::Filter { q, k, ef, .. } => {
                    dims.insert(q.len());
                    if *k > 5000 || *ef < 1 {
                        return false;
                    }
                    if matches!(self.kind, Kind::Exact | Kind::Filter) && exact_regime(&c, n) && *ef.max(k) < n {
                        return false;
                    }
                }
                Op::ParSearch { qs, k, ef } => {
                    dims.extend(qs.iter().map(|q| q.len()));
                    if *k > 5000 || *ef < 1 {
                        return false;
                    }
                }
                Op::IterLayer { layer } if *layer >= layers_of(&c) => return false,
                _ => {}
            }
            if let Op::Filter { modulus, .. } = o {
                if *modulus < 1 {
                    return false;
                }
            }
        }
        if dims.len() > 1 || dims.contains(&0) {
            return false;
        }
        if self.kind == Kind::Exact && !exact_regime(&c, n) {
            return false;
        }
        true
    }
    fn run(&self, case: &Case) {
        let c: Conc = serde_json::from_value(case.body.clone()).expect("body");
        let data = population(&c);
        let mut h: H = guard("new", || Hnsw::new(c.m, c.cap, c.max_layer, c.efc, SimDist));
        if c.keep {
            h.set_keeping_pruned(true);
        }
        if c.extend {
            h.set_extend_candidates(true);
        }
        if c.scale != 1000 {
            h.modify_level_scale(c.scale as f64 / 1000.);
        }
        if c.api {
            // half of the first points through the trait
            let n = c.pre.len() / 2;
            let vs: Vec<Vec<f32>> = c.pre[..n].iter().map(|p| fv(&p.v)).collect();
            rt::quiet(|| c.pre[..n].iter().for_each(|p| { hist().start.insert(p.id, rt::step()); }));
            if n > 2 {
                let d: Vec<(&Vec<f32>, usize)> = vs.iter().zip(&c.pre).map(|(v, p)| (v, p.id)).collect();
                guard("parallel_insert_data", || h.parallel_insert_data(&d));
            } else {
                for (v, p) in vs.iter().zip(&c.pre) {
                    guard("insert_data", || h.insert_data(v, p.id));
                }
            }
            rt::quiet(|| c.pre[..n].iter().for_each(|p| { hist().end.insert(p.id, rt::step()); }));
        }
        let h = Arc::new(h);
        for p in c.pre.iter().skip(if c.api { c.pre.len() / 2 } else { 0 }) {
            ins(&h, p, true);
        }
        let data = Arc::new(data);
        let before = (self.kind == Kind::ParSearch).then(|| self.picture(&h, &c));
        std::thread::scope(|s| {
            let mut js = vec![];
            for ops in &c.threads {
                let (h, data, c) = (h.clone(), data.clone(), &c);
                js.push(s.spawn(move || {
                    let mut st = (0usize, 0u8);
                    for o in ops {
                        self.op(&h, c, &data, o, &mut st);
                    }
                    rt::label("finished");
                }));
            }
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("workload thread");
                }
            }
        });
        if let Some(b) = before {
            if self.picture(&h, &c) != b || h.get_nb_point() != total_points(&c) {
                violate!("search-changes-index", "the index is not the same after searches");
            }
        }
        self.quiescent(&h, &c, &data);
        rt::label("drop");
        let h = Arc::try_unwrap(h).unwrap_or_else(|_| rt::harness_error("index still shared"));
        guard("drop", || drop(h));
        let _ = note;
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (self.runs, 300),
            Tier::Thorough => (self.runs * 40, 3600),
        }
    }
    fn rule(&self) -> String {
        self.rule.to_string()
    }
}
