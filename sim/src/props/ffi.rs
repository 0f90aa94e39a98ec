//! The C interface (src/libext.rs), driven as a C caller drives it: raw pointers, lengths, status codes.
use super::io::{diff, expect_same, files, snap, Snap};
use super::util::*;
use super::Prop;
use crate::engine::{Case, Fault, Tier};
use crate::rng::Rng;
use crate::rt;
use crate::violate;
use hnsw_rs::libext::*;
use hnsw_rs::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::ffi::c_ulonglong;
use std::path::Path;

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op", rename_all = "snake_case")]
pub enum Step {
    Ins { n: usize },
    Par { n: usize },
    /// searches from several threads at once: (vector seed, k, ef); batch = through parallel_search_neighbours
    Search { threads: Vec<Vec<(u64, usize, usize)>>, batch: bool },
    /// name, and whether faults may fire
    Dump { name: String, faulty: bool },
    /// reload the last dump through the C functions
    Load { faulty: bool },
    /// reload the last dump with another type or distance
    Wrong { which: usize },
    Describe { faulty: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct One {
    pub ty: String,
    pub dist: String,
    pub m: usize,
    pub efc: usize,
    /// new_hnsw_* with this many layers when not 0, init_hnsw_* otherwise
    pub layers: usize,
    pub dim: usize,
    pub span: u64,
    pub seed: u64,
    pub steps: Vec<Step>,
    /// build, search and drop again this many times
    #[serde(default)]
    pub cycles: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ffi {
    /// each one used by its own caller thread
    pub ixs: Vec<One>,
    /// unknown distance names to try
    #[serde(default)]
    pub bogus: Vec<String>,
}

/// the layout of Vec_api, as a C caller declares it
#[repr(C)]
struct VecC {
    len: i64,
    ptr: *const Neighbourhood_api,
}

pub trait CTy: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static + Serialize + serde::de::DeserializeOwned {
    fn mk(x: u64) -> Self;
    fn f(self) -> f64;
    fn init(m: usize, efc: usize, name: &str) -> usize;
    fn sized(m: usize, efc: usize, name: &str, n: usize, layers: usize) -> Option<usize>;
    fn ptrdist(m: usize, efc: usize) -> usize;
    unsafe fn ins(h: usize, v: &[Self], id: usize);
    unsafe fn par(h: usize, n: usize, len: usize, datas: *mut *const Self, ids: *const usize);
    unsafe fn search(h: usize, q: &[Self], k: usize, ef: usize) -> *const Neighbourhood_api;
    unsafe fn psearch(h: usize, n: usize, len: i64, qs: *mut *const Self, k: usize, ef: usize) -> usize;
    unsafe fn dump(h: usize, name: &str) -> i64;
    unsafe fn free(h: usize) -> bool;
    /// through the C loader for that distance, when there is one
    unsafe fn cload(dist: &str, io: *mut HnswIo) -> Option<usize>;
    fn dists() -> &'static [&'static str];
    fn eval(dist: &str, a: &[Self], b: &[Self]) -> f32;
    fn rust_load(dist: &str, dir: &Path, name: &str) -> Result<Snap, String>;
}

extern "C" fn cdist<T: CTy>(a: *const T, b: *const T, n: c_ulonglong) -> f32 {
    rt::point(rt::K_USER);
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
    raw_l1(a, b)
}
fn raw_l1<T: CTy>(a: &[T], b: &[T]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x.f() - y.f()).abs() as f32).sum()
}
fn rl<T: CTy, D: Distance<T> + Default + Send + Sync>(dir: &Path, name: &str) -> Result<Snap, String> {
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(dir, name)));
    match guard("reload", || io.load_hnsw::<T, D>()) {
        Ok(h) => Ok(snap(&h)),
        Err(e) => Err(e.to_string()),
    }
}
fn rl_ptr<T: CTy>(dir: &Path, name: &str) -> Result<Snap, String> {
    let io: &'static HnswIo = Box::leak(Box::new(HnswIo::new(dir, name)));
    match guard("reload", || io.load_hnsw_with_dist::<T, _>(DistCFFI::<T>::new(cdist::<T>))) {
        Ok(h) => Ok(snap(&h)),
        Err(e) => Err(e.to_string()),
    }
}

macro_rules! cty {
    ($t:ty, $api:ty, $mk:expr, $init:ident, $ptr:ident, $ins:ident, $par:ident, $search:ident, $psearch:ident, $dump:ident,
     sized: $sized:expr, free: $free:expr, dists: [$($d:ident),*], loads: [$($l:ident = $lf:ident),*]) => {
        impl CTy for $t {
            fn mk(x: u64) -> Self { ($mk)(x) }
            fn f(self) -> f64 { self as f64 }
            fn init(m: usize, efc: usize, name: &str) -> usize { unsafe { $init(m, efc, name.len(), name.as_ptr()) as usize } }
            fn sized(m: usize, efc: usize, name: &str, n: usize, layers: usize) -> Option<usize> { ($sized)(m, efc, name, n, layers) }
            fn ptrdist(m: usize, efc: usize) -> usize { $ptr(m, efc, cdist::<$t>) as usize }
            unsafe fn ins(h: usize, v: &[Self], id: usize) { $ins(h as *mut $api, v.len(), v.as_ptr(), id) }
            unsafe fn par(h: usize, n: usize, len: usize, datas: *mut *const Self, ids: *const usize) { $par(h as *mut $api, n, len, datas, ids) }
            unsafe fn search(h: usize, q: &[Self], k: usize, ef: usize) -> *const Neighbourhood_api { $search(h as *const $api, q.len(), q.as_ptr(), k, ef) }
            unsafe fn psearch(h: usize, n: usize, len: i64, qs: *mut *const Self, k: usize, ef: usize) -> usize { $psearch(h as *const $api, n, len, qs, k, ef) as usize }
            unsafe fn dump(h: usize, name: &str) -> i64 { $dump(h as *const $api, name.len(), name.as_ptr()) }
            unsafe fn free(h: usize) -> bool { ($free)(h) }
            unsafe fn cload(dist: &str, io: *mut HnswIo) -> Option<usize> {
                match dist { $(stringify!($l) => Some($lf(io) as usize),)* _ => None }
            }
            fn dists() -> &'static [&'static str] { &[$(stringify!($d)),*] }
            fn eval(dist: &str, a: &[Self], b: &[Self]) -> f32 {
                match dist { $(stringify!($d) => $d {}.eval(a, b),)* _ => raw_l1(a, b) }
            }
            fn rust_load(dist: &str, dir: &Path, name: &str) -> Result<Snap, String> {
                match dist { $(stringify!($d) => rl::<$t, $d>(dir, name),)* _ => rl_ptr::<$t>(dir, name) }
            }
        }
    };
}
fn no_sized(_: usize, _: usize, _: &str, _: usize, _: usize) -> Option<usize> {
    None
}
cty!(f32, HnswApif32, |x| x as f32, init_hnsw_f32, init_hnsw_ptrdist_f32, insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32, file_dump_f32,
    sized: |m, efc, d: &str, n, l| Some(unsafe { new_hnsw_f32(m, efc, d.len(), d.as_ptr(), n, l) } as usize), free: |h| { drop_hnsw_f32(h as *const HnswApif32); true },
    dists: [DistL1, DistL2, DistDot, DistHellinger, DistJeffreys, DistJensenShannon],
    loads: [DistL1 = load_hnswdump_f32_DistL1, DistL2 = load_hnswdump_f32_DistL2, DistCosine = load_hnswdump_f32_DistCosine, DistDot = load_hnswdump_f32_DistDot, DistJensenShannon = load_hnswdump_f32_DistJensenShannon, DistJeffreys = load_hnswdump_f32_DistJeffreys]);
cty!(i32, HnswApii32, |x| x as i32 - 7, init_hnsw_i32, init_hnsw_ptrdist_i32, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32, file_dump_i32,
    sized: no_sized, free: |_| false, dists: [DistL1, DistL2, DistHamming],
    loads: [DistL1 = load_hnswdump_i32_DistL1, DistL2 = load_hnswdump_i32_DistL2, DistHamming = load_hnswdump_i32_DistHamming]);
cty!(u32, HnswApiu32, |x| x as u32, init_hnsw_u32, init_hnsw_ptrdist_u32, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32, file_dump_u32,
    sized: no_sized, free: |_| false, dists: [DistL1, DistL2, DistHamming, DistJaccard],
    loads: [DistL1 = load_hnswdump_u32_DistL1, DistL2 = load_hnswdump_u32_DistL2, DistHamming = load_hnswdump_u32_DistHamming, DistJaccard = load_hnswdump_u32_DistJaccard]);
cty!(u16, HnswApiu16, |x| x as u16, init_hnsw_u16, init_hnsw_ptrdist_u16, insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16, file_dump_u16,
    sized: |m, efc, d: &str, n, l| Some(unsafe { new_hnsw_u16(m, efc, d.len(), d.as_ptr(), n, l) } as usize), free: |h| { drop_hnsw_u16(h as *const HnswApiu16); true },
    dists: [DistL1, DistL2, DistHamming, DistJaccard, DistLevenshtein],
    loads: [DistL1 = load_hnswdump_u16_DistL1, DistL2 = load_hnswdump_u16_DistL2, DistHamming = load_hnswdump_u16_DistHamming, DistLevenshtein = load_hnswdump_u16_DistLevenshtein]);
cty!(u8, HnswApiu8, |x| x as u8, init_hnsw_u8, init_hnsw_ptrdist_u8, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8, file_dump_u8,
    sized: no_sized, free: |_| false, dists: [DistL1, DistL2, DistHamming, DistJaccard],
    loads: [DistL1 = load_hnswdump_u8_DistL1, DistL2 = load_hnswdump_u8_DistL2, DistHamming = load_hnswdump_u8_DistHamming, DistJaccard = load_hnswdump_u8_DistJaccard]);

macro_rules! by_type {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            "f32" => $f::<f32>($($a),*),
            "i32" => $f::<i32>($($a),*),
            "u32" => $f::<u32>($($a),*),
            "u16" => $f::<u16>($($a),*),
            "u8" => $f::<u8>($($a),*),
            _ => rt::harness_error("unknown element type"),
        }
    };
}

fn vect<T: CTy>(o: &One, seed: u64) -> Vec<T> {
    let _q = rt::Quiet::new();
    let mut r = Rng::new(seed ^ o.seed);
    // DistJensenShannon of anndists is the root of a difference: for vectors that nearly agree rounding makes it NaN
    let span = if o.dist == "DistJensenShannon" { o.span.min(5) } else { o.span };
    let mut v: Vec<f64> = (0..o.dim).map(|_| (1 + r.below(span)) as f64).collect();
    match o.dist.as_str() {
        "DistDot" => {
            let n = v.iter().map(|x| x * x).sum::<f64>().sqrt() * 1.0001;
            v.iter_mut().for_each(|x| *x /= n);
        }
        "DistHellinger" | "DistJeffreys" | "DistJensenShannon" => {
            let n = v.iter().sum::<f64>() * 1.0001;
            v.iter_mut().for_each(|x| *x = (*x / n * 1048576.).round() / 1048576.);
        }
        _ => return v.iter().map(|x| T::mk(*x as u64)).collect(),
    }
    v.iter().map(|x| *unsafe { &std::mem::transmute_copy::<f32, [T; 1]>(&(*x as f32)) }.first().unwrap()).collect()
}
fn id_of(o: &One, i: usize) -> usize {
    let salt = [0usize, 0, 1000, 1 << 40, usize::MAX - 1_000_000][(o.seed % 5) as usize];
    salt + (i * 7919 + 13) % 100003
}
fn close(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-5 * (1. + a.abs().max(b.abs()))
}
fn create<T: CTy>(o: &One) -> usize {
    if o.dist == "ptr" {
        return T::ptrdist(o.m, o.efc);
    }
    if o.layers > 0 {
        if let Some(h) = T::sized(o.m, o.efc, &o.dist, 16, o.layers) {
            return h;
        }
    }
    T::init(o.m, o.efc, &o.dist)
}
fn max_layers<T: CTy>(o: &One) -> usize {
    if o.dist != "ptr" && o.layers > 0 && (o.ty == "f32" || o.ty == "u16") {
        o.layers
    } else {
        16
    }
}
fn answer(p: *const Neighbourhood_api) -> Vec<(usize, f32)> {
    let _q = rt::Quiet::new();
    if p.is_null() {
        violate!("null-answer", "a search returned a null pointer");
    }
    let a = unsafe { &*p };
    if a.nbgh < 0 || a.nbgh > 100_000 || (a.nbgh > 0 && a.neighbours.is_null()) {
        violate!("answer-length", "a search announces {} neighbours at {:?}", a.nbgh, a.neighbours);
    }
    if a.nbgh == 0 {
        return vec![];
    }
    unsafe { std::slice::from_raw_parts(a.neighbours, a.nbgh as usize) }.iter().map(|n| (n.id, n.d)).collect()
}
#[allow(clippy::too_many_arguments)]
fn judge<T: CTy>(what: &str, o: &One, data: &HashMap<usize, Vec<T>>, q: &[T], k: usize, ef: usize, a: &[(usize, f32)]) {
    let _q = rt::Quiet::new();
    let n = data.len();
    if a.len() > k || (a.is_empty() && n > 0) || (n == 0 && !a.is_empty()) {
        violate!("answer-length", "{what}: {} neighbours for k={k}, ef={ef} among {n} points", a.len());
    }
    let mut seen = HashSet::new();
    let mut prev = f32::NEG_INFINITY;
    for (id, d) in a {
        if !seen.insert(*id) || *d < prev {
            violate!("answer-order", "{what}: {a:?}");
        }
        prev = *d;
        match data.get(id) {
            None => violate!("answer-unknown", "{what}: id {id} was never inserted"),
            Some(v) if !close(T::eval(&o.dist, q, v), *d) => violate!("answer-distance", "{what}: id {id} at {d}, its distance is {}", T::eval(&o.dist, q, v)),
            _ => {}
        }
    }
    let bound = if max_layers::<T>(o) == 1 { 2 * o.m } else { o.m };
    if n <= bound && ef.max(k) >= n {
        rt::probe(2);
        let mut b: Vec<f32> = data.values().map(|v| T::eval(&o.dist, q, v)).collect();
        b.sort_by(|x, y| x.total_cmp(y));
        b.truncate(k);
        if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !close(x.1, *y)) {
            violate!("answer-not-exact", "{what}: k={k} ef={ef} n={n}: {a:?}, nearest distances are {b:?}");
        }
    }
}
fn queries<T: CTy>(o: &One, what: &str, h: usize, data: &HashMap<usize, Vec<T>>, qs: &[(u64, usize, usize)], batch: bool) {
    if !batch {
        for (s, k, ef) in qs {
            let q = vect::<T>(o, *s);
            let a = answer(unsafe { T::search(h, &q, *k, *ef) });
            judge(what, o, data, &q, *k, *ef, &a);
        }
        return;
    }
    let (k, ef) = qs.first().map(|x| (x.1, x.2)).unwrap_or((1, 1));
    let v: Vec<Vec<T>> = qs.iter().map(|q| vect(o, q.0)).collect();
    let mut p: Vec<*const T> = v.iter().map(|v| v.as_ptr()).collect();
    let r = unsafe { T::psearch(h, v.len(), o.dim as i64, p.as_mut_ptr(), k, ef) } as *const VecC;
    if r.is_null() {
        violate!("null-answer", "{what}: a batch search returned a null pointer");
    }
    let r = unsafe { &*r };
    if r.len != v.len() as i64 {
        violate!("batch-length", "{what}: {} answers for {} queries", r.len, v.len());
    }
    for (i, q) in v.iter().enumerate() {
        let a = answer(unsafe { r.ptr.add(i) });
        judge(&format!("{what}, query {i} of a batch"), o, data, q, k, ef, &a);
    }
}
fn insert<T: CTy>(o: &One, h: usize, data: &mut HashMap<usize, Vec<T>>, n: usize, par: bool) {
    let vs: Vec<(Vec<T>, usize)> = rt::quiet(|| (0..n).map(|j| (vect::<T>(o, 1000 + (data.len() + j) as u64), id_of(o, data.len() + j))).collect());
    if par {
        let mut p: Vec<*const T> = vs.iter().map(|v| v.0.as_ptr()).collect();
        let ids: Vec<usize> = vs.iter().map(|v| v.1).collect();
        unsafe { T::par(h, n, o.dim, p.as_mut_ptr(), ids.as_ptr()) };
    } else {
        for (v, id) in &vs {
            unsafe { T::ins(h, v, *id) };
        }
    }
    // what the caller does with its buffers afterwards is its own business
    for (mut v, id) in vs {
        data.insert(id, v.clone());
        let z = T::mk(9);
        v.iter_mut().for_each(|x| *x = z);
    }
}
fn hard() -> bool {
    let g = rt::shared();
    g.full_hits > 0
        || (0..g.nfault as usize).any(|i| {
            let f = &g.fault[i];
            let transparent = match rt::ACTS[f.action as usize] {
                "short" => true,
                "errno" => f.arg == libc::EINTR as i64 && matches!(rt::IOCLS[f.cls as usize], "read" | "write" | "open"),
                _ => false,
            };
            f.fired > 0 && !transparent
        })
}
fn stored<T: CTy>(what: &str, o: &One, s: &Snap, data: &HashMap<usize, Vec<T>>) {
    let _q = rt::Quiet::new();
    if s.n != data.len() || s.layers.iter().map(|l| l.len()).sum::<usize>() != data.len() {
        violate!("dump-count", "{what}: {} points, {} were inserted", s.n, data.len());
    }
    for p in s.layers.iter().flatten() {
        match data.get(&p.id) {
            Some(v) if super::io::raw(v) == p.bytes => {}
            Some(_) => violate!("dump-vector", "{what}: the vector of id {} differs", p.id),
            None => violate!("dump-identity", "{what}: id {} was never inserted", p.id),
        }
    }
    if s.m as usize != o.m || s.efc != o.efc || s.dim != o.dim {
        violate!("dump-parameters", "{what}: (M, ef construction, dimension) = {:?} instead of {:?}", (s.m, s.efc, s.dim), (o.m, o.efc, o.dim));
    }
}

fn session<T: CTy>(o: &One, which: usize, multi: bool) {
    let mut h = create::<T>(o);
    if h == 0 {
        violate!("not-created", "{} index with distance {} could not be created", o.ty, o.dist);
    }
    let mut data: HashMap<usize, Vec<T>> = HashMap::new();
    // last dump: name, content, whether the dump had to succeed
    let mut last: Option<(String, HashMap<usize, Vec<T>>)> = None;
    let here = Path::new(".");
    for st in &o.steps {
        match st {
            Step::Ins { n } => insert(o, h, &mut data, *n, false),
            Step::Par { n } => insert(o, h, &mut data, *n, true),
            Step::Search { threads, batch } => {
                let (d, t) = (&data, threads);
                std::thread::scope(|s| {
                    let js: Vec<_> = t.iter().skip(1).map(|qs| s.spawn(move || queries(o, "search", h, d, qs, *batch))).collect();
                    if let Some(qs) = t.first() {
                        queries(o, "search", h, d, qs, *batch);
                    }
                    for j in js {
                        if j.join().is_err() {
                            crate::engine::panic_violation("searching thread");
                        }
                    }
                });
            }
            Step::Dump { name, faulty } => {
                if data.is_empty() {
                    continue;
                }
                let name = format!("{name}{which}");
                rt::label("file_dump");
                rt::io_arm(*faulty && !multi);
                let r = unsafe { T::dump(h, &name) };
                rt::io_arm(false);
                rt::probe(3);
                let can = max_layers::<T>(o) == 16;
                match r {
                    1 if !can => violate!("dump-layers", "a dump with {} layers reported success", max_layers::<T>(o)),
                    1 => {
                        let s = match T::rust_load(&o.dist, here, &name) {
                            Ok(s) => s,
                            Err(e) => violate!("dump-unreadable", "file_dump returned 1 but the dump does not reload: {e}"),
                        };
                        stored("dump", o, &s, &data);
                        last = Some((name, data.clone()));
                    }
                    -1 => {
                        if can && !hard() {
                            violate!("dump-failed", "file_dump returned -1 although nothing was injected");
                        }
                        rt::probe(4);
                        last = None;
                    }
                    x => violate!("dump-status", "file_dump returned {x}"),
                }
                // the index is unharmed
                queries(o, "search after a dump", h, &data, &[(1000, 3, data.len() + 2)], false);
            }
            Step::Load { faulty } => {
                let Some((name, d)) = &last else { continue };
                let io = unsafe { get_hnswio(name.len() as u64, name.as_ptr()) } as *mut HnswIo;
                if io.is_null() {
                    violate!("null-reloader", "get_hnswio returned null");
                }
                rt::label("load_hnswdump");
                rt::io_arm(*faulty && !multi);
                let r = unsafe { T::cload(&o.dist, io) };
                rt::io_arm(false);
                let Some(nh) = r else { continue };
                if nh == 0 {
                    if !hard() {
                        violate!("reload-failed", "reload of {name} with its own type and distance returned null");
                    }
                    rt::probe(5);
                    // without faults the same reloader works
                    continue;
                }
                rt::probe(6);
                let qs: Vec<(u64, usize, usize)> = (0..3).map(|i| (1000 + i * 5, 1 + i as usize * 3, d.len() + 2)).collect();
                queries(o, "search in the reloaded index", nh, d, &qs, false);
                // dumped again it is the same index
                if d.len() == data.len() {
                    let again = format!("again{which}");
                    if unsafe { T::dump(nh, &again) } != 1 {
                        violate!("dump-failed", "the reloaded index does not dump");
                    }
                    match (T::rust_load(&o.dist, here, name), T::rust_load(&o.dist, here, &again)) {
                        (Ok(a), Ok(b)) => expect_same("dump of the reloaded index", &a, &b, true),
                        (a, b) => violate!("reload-failed", "{:?} {:?}", a.err(), b.err()),
                    }
                }
                // the caller goes on with the reloaded index
                unsafe { T::free(h) };
                h = nh;
                data = d.clone();
            }
            Step::Wrong { which: w } => {
                let Some((name, d)) = &last else { continue };
                rt::probe(7);
                let io = unsafe { get_hnswio(name.len() as u64, name.as_ptr()) } as *mut HnswIo;
                let (t, r) = wrong(&o.ty, &o.dist, *w, io);
                if r != 0 {
                    violate!("wrong-type-accepted", "a dump of {} with {} was reloaded by {t}", o.ty, o.dist);
                }
                let no = unsafe { get_hnswio(7, b"missing".as_ptr()) } as *mut HnswIo;
                for x in T::dists() {
                    if unsafe { T::cload(x, no) }.unwrap_or(0) != 0 {
                        violate!("missing-accepted", "a missing dump was reloaded");
                    }
                }
                let g = unsafe { load_hnswdump_NoData_DistNoDist(io) };
                if g.is_null() {
                    violate!("graph-refused", "the graph-only reload of {name} returned null");
                }
                let _ = d;
            }
            Step::Describe { faulty } => {
                let Some((name, d)) = &last else { continue };
                let f = format!("{name}.hnsw.graph");
                rt::io_arm(*faulty && !multi);
                let p = unsafe { load_hnsw_description(f.len(), f.as_ptr()) };
                rt::io_arm(false);
                if p.is_null() {
                    if !hard() {
                        violate!("description-refused", "the description of {f} could not be read");
                    }
                    rt::probe(5);
                    continue;
                }
                let x = unsafe { &*p };
                let s = |p: *const u8, n: usize| if n > 1000 || p.is_null() { violate!("description", "name of {n} bytes at {p:?}") } else { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() };
                let (dn, tn) = (s(x.distname, x.distname_len), s(x.t_name, x.t_name_len));
                let short = if o.dist == "ptr" { "DistCFFI" } else { o.dist.as_str() };
                if x.dumpmode != 1 || x.max_nb_connection as usize != o.m || x.nb_layer != 16 || x.ef != o.efc || x.nb_point != d.len() || x.data_dimension != o.dim || !dn.contains(short) || tn != o.ty {
                    violate!("description", "described as mode {} M {} layers {} ef {} points {} dimension {} {dn} {tn}", x.dumpmode, x.max_nb_connection, x.nb_layer, x.ef, x.nb_point, x.data_dimension);
                }
                let f = format!("{name}.hnsw.grap");
                if !unsafe { load_hnsw_description(f.len(), f.as_ptr()) }.is_null() {
                    violate!("missing-accepted", "a missing file was described");
                }
                let f = format!("{name}.hnsw.data");
                if !unsafe { load_hnsw_description(f.len(), f.as_ptr()) }.is_null() {
                    violate!("foreign-accepted", "a data file was described");
                }
            }
        }
    }
    let _ = diff;
    let mut sizes = vec![];
    if o.cycles > 0 && unsafe { T::free(h) } {
        for _ in 0..o.cycles + 1 {
            let h = create::<T>(o);
            let mut d: HashMap<usize, Vec<T>> = HashMap::new();
            insert(o, h, &mut d, 12, false);
            unsafe { T::free(h) };
            drop(d);
            sizes.push(rt::shared().live_bytes);
        }
        rt::probe(8);
        if !multi && *sizes.last().unwrap() > sizes[0] + 2048 * (sizes.len() as u64 - 1) {
            violate!("memory-grows", "heap in use after each cycle of creation, insertion and drop: {sizes:?}");
        }
    }
}
/// a loader for another type or another distance
fn wrong(ty: &str, dist: &str, w: usize, io: *mut HnswIo) -> (String, usize) {
    let all: Vec<(&str, &str)> = ["f32", "i32", "u32", "u16", "u8"]
        .iter()
        .flat_map(|t| ["DistL1", "DistL2", "DistHamming", "DistJaccard", "DistDot", "DistCosine", "DistJeffreys", "DistJensenShannon", "DistLevenshtein"].iter().map(move |d| (*t, *d)))
        .filter(|x| *x != (ty, dist))
        .collect();
    for i in 0..all.len() {
        let (t, d) = all[(w + i) % all.len()];
        let r = unsafe {
            match t {
                "f32" => f32::cload(d, io),
                "i32" => i32::cload(d, io),
                "u32" => u32::cload(d, io),
                "u16" => u16::cload(d, io),
                _ => u8::cload(d, io),
            }
        };
        if let Some(r) = r {
            return (format!("{t} {d}"), r);
        }
    }
    rt::harness_error("no other loader");
}
fn bogus<T: CTy>(name: &str) {
    if !T::dists().contains(&name) {
        if T::init(8, 20, name) != 0 || T::sized(8, 20, name, 10, 16).unwrap_or(0) != 0 {
            violate!("unknown-distance", "an index was created for the distance {name:?}");
        }
    }
}

pub struct FfiProp;
pub static PROP: FfiProp = FfiProp;
impl Prop for FfiProp {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn gen(&self, r: &mut Rng, tier: Tier, c: &mut Case) {
        let nix = if r.chance(1, 4) { 2 } else { 1 };
        let mut f = Ffi { ixs: vec![], bogus: vec![] };
        if r.chance(1, 4) {
            f.bogus = ["DistL3", "", "distl1", "DistL1 ", "DistL", "DistL11", "DistCosine", "DistJaccar", "\u{fffd}", "DistNoDist", "DistHellinger", "DistHamming"].iter().map(|s| s.to_string()).filter(|_| r.chance(1, 3)).collect();
        }
        for _ in 0..nix {
            let ty = r.pick(&["f32", "f32", "i32", "u32", "u16", "u16", "u8"]);
            fn d<T: CTy>() -> &'static [&'static str] {
                T::dists()
            }
            let ds = by_type!(ty, d());
            let dist = if r.chance(1, 3) { "ptr" } else { r.pick(ds) }.to_string();
            let exact = r.chance(1, 2);
            let big = tier == Tier::Thorough && r.chance(1, 4);
            let layers = if r.chance(1, 3) { r.pick(&[1usize, 1, 2, 16]) } else { 0 };
            let mut o = One { ty: ty.into(), dist, m: r.pick(&[2usize, 4, 8, 16, 24]), efc: r.pick(&[1usize, 4, 12, 40]), layers, dim: r.pick(&[1usize, 2, 3, 8, 33]), span: r.pick(&[2u64, 5, 20, 100]), seed: r.next() >> 20, steps: vec![], cycles: 0 };
            let mut n = 0;
            let cap = if exact { o.m } else if big { 120 } else { 40 };
            // now and then long vectors, or many points, queries and neighbours
            let wide = r.chance(1, 25) && (o.dist == "ptr" || ["DistL1", "DistL2", "DistHamming"].contains(&o.dist.as_str()));
            let many = !wide && r.chance(1, 25);
            if wide {
                o.dim = r.pick(&[127usize, 128, 255, 256, 257, 300, 1025, 32768, 65535, 65536, 70000]);
            }
            let cap = if wide { 6 } else if many { 340 } else { cap };
            if many {
                o.m = r.pick(&[4usize, 8, 150]);
                o.dim = r.pick(&[2usize, 8, 256]);
                if o.dist != "ptr" && !["DistL1", "DistL2", "DistHamming"].contains(&o.dist.as_str()) {
                    o.dim = 2;
                }
                let k = r.pick(&[130usize, 200, 256, 257, 300, 330]);
                n += k;
                o.steps.push(Step::Par { n: k });
                let nq = r.pick(&[3usize, 130, 257, 300]);
                let k = r.pick(&[2usize, 5, 130, 260, 300]);
                o.steps.push(Step::Search { threads: vec![(0..if k > 5 { nq.min(40) } else { nq }).map(|_| (1000 + r.below(n as u64), k, k.max(8))).collect()], batch: k <= 5 || r.chance(1, 2) });
            }
            for i in 0..r.range(3, if big { 14 } else { 9 }) {
                let left = cap.saturating_sub(n);
                let s = match r.below(if i == 0 { 4 } else { 16 }) {
                    0 | 1 if left > 0 => { let k = r.range(1, left.min(12)); n += k; Step::Ins { n: k } }
                    2 | 3 if left > 0 => { let k = r.range(1, left.min(16)); n += k; Step::Par { n: k } }
                    4..=8 => {
                        let batch = r.chance(1, 2);
                        Step::Search { threads: (0..r.range(1, 3)).map(|_| { let (k, ef) = (if r.chance(1, 6) { n + r.range(1, 4) } else { r.range(1, 6) }, r.pick(&[1usize, 8, 60])); (0..r.range(1, 5)).map(|_| (if r.chance(1, 2) { 1000 + r.below(n as u64 + 1) } else { r.below(900) }, k, ef)).collect() }).collect(), batch }
                    }
                    9..=11 => Step::Dump { name: r.pick(&["dump", "dump", "dump", "other", "other", "a.b", "with space", "LONG"]).replace("LONG", &"n".repeat(r.range(60, 235))), faulty: r.chance(1, 2) },
                    12 | 13 => Step::Load { faulty: r.chance(1, 2) },
                    14 => Step::Wrong { which: r.range(0, 60) },
                    _ => Step::Describe { faulty: r.chance(1, 2) },
                };
                let dumped = matches!(s, Step::Dump { .. });
                o.steps.push(s);
                if dumped && r.chance(3, 4) {
                    o.steps.push(match r.below(4) { 0 => Step::Describe { faulty: r.chance(1, 2) }, 1 => Step::Wrong { which: r.range(0, 60) }, _ => Step::Load { faulty: r.chance(1, 2) } });
                }
            }
            if r.chance(1, 6) {
                o.cycles = r.range(2, 5);
            }
            f.ixs.push(o);
        }
        if nix == 1 && r.chance(1, 2) {
            for _ in 0..r.range(1, 2) {
                let (cl, ac, nth, arg): (&str, &str, u64, i64) = match r.below(12) {
                    0..=2 => ("write", "errno", 1 + r.below(6), r.pick(&[libc::EIO, libc::ENOSPC, libc::EINTR]) as i64),
                    3 => ("write", "short", 1 + r.below(6), 1 + r.below(3000) as i64),
                    4 | 5 => ("open", "errno", 1 + r.below(6), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EINTR]) as i64),
                    6 | 7 => ("read", "errno", 1 + r.below(6), r.pick(&[libc::EIO, libc::EINTR]) as i64),
                    8 => ("read", "short", 1 + r.below(6), 1 + r.below(3000) as i64),
                    9 => ("stat", "errno", 1 + r.below(3), libc::EACCES as i64),
                    10 => ("rename", "errno", 1 + r.below(2), libc::EIO as i64),
                    _ => { c.disk_budget = r.below(4000) as i64; continue }
                };
                c.faults.push(Fault { class: cl.into(), action: ac.into(), nth, arg, persistent: arg != libc::EINTR as i64 && r.chance(1, 8) });
            }
        }
        c.body = serde_json::to_value(&f).unwrap();
    }
    fn valid(&self, body: &Value) -> bool {
        let Ok(f) = serde_json::from_value::<Ffi>(body.clone()) else { return false };
        f.ixs.len() <= 3
            && f.ixs.iter().all(|o| {
                o.m >= 2 && o.m < 200 && o.efc >= 1 && o.dim >= 1 && o.dim < 100_000 && o.span >= 1 && o.span < 200 && o.layers <= 16 && o.cycles < 10
                    && o.steps.iter().all(|s| match s { Step::Ins { n } | Step::Par { n } => *n >= 1, Step::Search { threads, .. } => threads.iter().flatten().all(|q| q.1 >= 1 && q.2 >= 1), _ => true })
                    && ["f32", "i32", "u32", "u16", "u8"].contains(&o.ty.as_str())
                    && { fn d<T: CTy>() -> &'static [&'static str] { T::dists() } o.dist == "ptr" || by_type!(o.ty.as_str(), d()).contains(&o.dist.as_str()) }
            })
    }
    fn run(&self, c: &Case) {
        let f: Ffi = serde_json::from_value(c.body.clone()).expect("body");
        rt::enter_scratch();
        for n in &f.bogus {
            rt::probe(1);
            for t in ["f32", "i32", "u32", "u16", "u8"] {
                by_type!(t, bogus(n));
            }
        }
        let multi = f.ixs.len() > 1;
        std::thread::scope(|s| {
            let js: Vec<_> = f.ixs.iter().enumerate().skip(1).map(|(i, o)| s.spawn(move || by_type!(o.ty.as_str(), session(o, i, multi)))).collect();
            if let Some(o) = f.ixs.first() {
                by_type!(o.ty.as_str(), session(o, 0, multi));
            }
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("caller thread");
                }
            }
        });
        let _ = files;
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (8000, 300),
            Tier::Thorough => (8000 * 40, 3600),
        }
    }
    fn rule(&self) -> String {
        "one or two C callers create indexes of every element type and distance (also a C callback), insert, batch-insert, search from several threads, dump, describe and reload through the exported functions, under injected file errors, and pass unknown names, wrong loaders and missing files.".into()
    }
    fn probes(&self) -> Vec<&'static str> {
        vec!["-", "unknown distance", "exact answer", "dump", "dump refused", "reload refused", "reloaded", "wrong loader", "create and drop cycles"]
    }
}
