//! Dump, reload, memory mapping: crash, disk-fault and mismatch properties.
use super::util::*;
use super::Prop;
use crate::engine::{Case, Fault, Tier};
use crate::rng::Rng;
use crate::rt;
use crate::violate;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------- element types
pub trait Elem: 'static + Serialize + DeserializeOwned + Clone + Copy + Send + Sync + Debug + PartialEq {
    fn mk(x: u64) -> Self;
    fn val(&self) -> f32;
}
macro_rules! num {
    ($($t:ty),*) => { $(impl Elem for $t { fn mk(x: u64) -> Self { x as $t } fn val(&self) -> f32 { *self as f32 } })* };
}
num!(f32, u8, i8, u16, u32, u64, i64);
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Pair {
    a: u32,
    b: u32,
}
impl Elem for Pair {
    fn mk(x: u64) -> Self {
        Pair { a: x as u32, b: (x * 3) as u32 }
    }
    fn val(&self) -> f32 {
        self.a as f32 + if self.b == self.a * 3 { 0. } else { 1000. }
    }
}
/// another type of the same module
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Duo {
    a: u32,
    b: u32,
}
impl Elem for Duo {
    fn mk(x: u64) -> Self {
        Duo { a: x as u32, b: (x * 5) as u32 }
    }
    fn val(&self) -> f32 {
        self.a as f32
    }
}
/// same short name, same layout, another type
mod alt {
    #[derive(serde::Serialize, serde::Deserialize, Clone, Copy, Debug, PartialEq)]
    #[repr(C)]
    pub struct Pair {
        a: u32,
        b: u32,
    }
    impl super::Elem for Pair {
        fn mk(x: u64) -> Self {
            Pair { a: x as u32, b: (x * 7) as u32 }
        }
        fn val(&self) -> f32 {
            self.b as f32
        }
    }
}
/// element types with long names
mod module_whose_name_is_rather_long_because_names_of_types_are_written_into_the_description_of_a_dump {
    use serde::{Deserialize, Serialize};
    use std::marker::PhantomData;
    #[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
    #[repr(C)]
    #[serde(bound = "")]
    pub struct Pad<A> {
        a: u32,
        b: u32,
        #[serde(skip)]
        p: PhantomData<A>,
    }
    impl<A: 'static + Clone + Copy + Send + Sync + std::fmt::Debug + PartialEq> super::Elem for Pad<A> {
        fn mk(x: u64) -> Self {
            Pad { a: x as u32, b: (x * 3) as u32, p: PhantomData }
        }
        fn val(&self) -> f32 {
            self.a as f32 + if self.b == self.a * 3 { 0. } else { 1000. }
        }
    }
}
use module_whose_name_is_rather_long_because_names_of_types_are_written_into_the_description_of_a_dump::Pad;
/// names of about 120, 240, 480 and 1400 characters
type Name2 = Pad<u8>;
type Name9 = Pad<Name2>;
type Name17 = Pad<Pad<Name9>>;
type Name68 = Pad<Pad<Pad<Pad<Pad<Pad<Pad<Pad<Name17>>>>>>>>;
pub fn with_type<R>(name: &str, f: impl TypeFn<R>) -> R {
    match name {
        "f32" => f.call::<f32, u32>(),
        "u8" => f.call::<u8, i8>(),
        "u16" => f.call::<u16, f32>(),
        "u64" => f.call::<u64, i64>(),
        "pair" => f.call::<Pair, u64>(),
        "pair-duo" => f.call::<Pair, Duo>(),
        "pair-alt" => f.call::<Pair, alt::Pair>(),
        "name2" => f.call::<Name2, Pad<i8>>(),
        "name9" => f.call::<Name9, Name2>(),
        "name17" => f.call::<Name17, Name68>(),
        "name68" => f.call::<Name68, Name17>(),
        _ => rt::harness_error("unknown element type"),
    }
}
pub trait TypeFn<R> {
    fn call<T: Elem, U: Elem>(self) -> R;
}

pub fn gdist<T: Elem>(a: &[T], b: &[T]) -> f32 {
    a.iter().zip(b).map(|(x, y)| (x.val() - y.val()).abs()).sum::<f32>() + 7. * (a.len() as f32 - b.len() as f32).abs()
}
#[derive(Default, Clone, Copy)]
pub struct GDist;
impl<T: Elem> Distance<T> for GDist {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        rt::point(rt::K_USER);
        gdist(a, b)
    }
}
/// different distances (only their name matters)
macro_rules! others {
    ($($d:ident),*) => {$(
        #[derive(Default, Clone, Copy)]
        pub struct $d;
        impl<T: Elem> Distance<T> for $d {
            fn eval(&self, a: &[T], b: &[T]) -> f32 {
                2. * gdist(a, b)
            }
        }
    )*};
}
others!(GDist2, Dist, GDis, GDisT);
/// generic distances: the whole name counts, not its last segment
macro_rules! generics {
    ($($d:ident),*) => {$(
        pub struct $d<A>(PhantomData<A>);
        impl<A> Default for $d<A> {
            fn default() -> Self {
                $d(PhantomData)
            }
        }
        impl<A: Send + Sync, T: Elem> Distance<T> for $d<A> {
            fn eval(&self, a: &[T], b: &[T]) -> f32 {
                rt::point(rt::K_USER);
                gdist(a, b)
            }
        }
    )*};
}
generics!(Over, Under);

// ------------------------------------------------------------------------------------------- bodies
/// id, seed of the vector, length of the vector
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct P(pub usize, pub u64, pub u32);
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Bld {
    pub m: usize,
    pub efc: usize,
    pub keep: bool,
    pub extend: bool,
    pub scale: u32,
    pub pre: Vec<P>,
    pub thr: Vec<Vec<P>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Io {
    pub ty: String,
    pub span: u64,
    pub a: Bld,
    #[serde(default)]
    pub b: Bld,
    #[serde(default)]
    pub rel: bool,
    #[serde(default)]
    pub mmap: bool,
    #[serde(default)]
    pub thr: usize,
    #[serde(default)]
    pub dist: bool,
    #[serde(default)]
    pub again: bool,
    #[serde(default)]
    pub flavor: u32,
    #[serde(default)]
    pub dumpers: usize,
    #[serde(default)]
    pub searchers: usize,
    #[serde(default)]
    pub cut: [u64; 2],
    /// base name of the dump, "dump" when empty
    #[serde(default)]
    pub name: String,
    /// which generic distance, 0 for GDist
    #[serde(default)]
    pub named: u32,
    /// per cycle, per thread
    #[serde(default)]
    pub grow: Vec<Vec<Vec<P>>>,
    /// phases of simultaneous operations: (operation, name)
    #[serde(default)]
    pub ops: Vec<Vec<(u32, usize)>>,
    /// reloaders are made by `default` and `set_values`
    #[serde(default)]
    pub late: bool,
}
static LATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn vec_of<T: Elem>(p: &P, span: u64) -> Vec<T> {
    let mut r = Rng::new(p.1);
    (0..p.2).map(|_| T::mk(r.below(span))).collect()
}
fn pts(b: &Bld) -> Vec<P> {
    b.pre.iter().chain(b.thr.iter().flatten()).cloned().collect()
}
fn esize(ty: &str) -> usize {
    match ty {
        "u8" => 1,
        "u16" => 2,
        "f32" => 4,
        _ => 8,
    }
}
fn dump_bytes(ty: &str, b: &Bld) -> u64 {
    pts(b).iter().map(|p| p.2 as u64 * esize(ty) as u64 + 20 + 145 + 17 * b.m as u64 * 2).sum::<u64>() + 200
}

pub struct IoGen {
    id: usize,
    salt: usize,
    special: bool,
}
impl IoGen {
    pub fn new(r: &mut Rng) -> IoGen {
        IoGen { id: 0, salt: r.pick(&[0usize, 0, 1000, 1 << 40, usize::MAX - 1_000_000]), special: r.chance(1, 5) }
    }
    pub fn pt(&mut self, r: &mut Rng, len: u32) -> P {
        self.id += 1;
        if let Some(i) = super::conc::special_id(self.special, self.id) {
            return P(i, r.next() >> 12, len);
        }
        P(self.salt + (self.id * 7919) % 100003, r.next() >> 12, len)
    }
    pub fn bld(&mut self, r: &mut Rng, n: usize, lens: &[u32]) -> Bld {
        let mut pre: Vec<P> = vec![];
        let mut thr = vec![];
        let conc = if r.chance(1, 3) && n >= 4 { r.range(2, 3) } else { 0 };
        let nc = if conc > 0 { n.min(3 * conc) } else { 0 };
        for _ in 0..n - nc {
            let l = r.pick(lens);
            pre.push(self.pt(r, l));
        }
        for i in 0..conc {
            let k = nc / conc + if i < nc % conc { 1 } else { 0 };
            thr.push((0..k).map(|_| { let l = r.pick(lens); self.pt(r, l) }).collect());
        }
        Bld {
            // with 1, levels are drawn evenly among all layers
            m: if r.chance(1, 20) { 1 } else { r.pick(&[2usize, 3, 4, 8, 24]) },
            efc: r.pick(&[1usize, 4, 10, 30]),
            keep: r.chance(1, 4),
            extend: r.chance(1, 4),
            scale: r.pick(&[1000u32, 1000, 500, 200, 730]),
            pre,
            thr,
        }
    }
}
/// vector lengths: one common length, or several (vectors of different lengths are allowed)
pub fn lens(r: &mut Rng, var: bool, big: bool) -> Vec<u32> {
    let one = |r: &mut Rng| r.pick(if big { &[3u32, 17, 100, 700, 2100] } else { &[1u32, 2, 3, 5, 17, 40] });
    if var {
        (0..3).map(|_| one(r)).collect()
    } else {
        vec![one(r)]
    }
}

// ------------------------------------------------------------------------------------------- index building
pub type Ix<T> = Hnsw<'static, T, GDist>;
pub fn put<T: Elem>(h: &Ix<T>, p: &P, span: u64) {
    let v: Vec<T> = rt::quiet(|| vec_of(p, span));
    guard("insert", || h.insert((&v, p.0)));
}
pub fn put_all<T: Elem>(h: &Ix<T>, thr: &[Vec<P>], span: u64) {
    std::thread::scope(|s| {
        let js: Vec<_> = thr.iter().map(|ps| s.spawn(move || ps.iter().for_each(|p| put(h, p, span)))).collect();
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("inserting thread");
            }
        }
    });
}
/// one of the two batch insertions
pub fn put_batch<T: Elem>(h: &Ix<T>, ps: &[P], span: u64) {
    let vs: Vec<Vec<T>> = rt::quiet(|| ps.iter().map(|p| vec_of(p, span)).collect());
    if ps.len() % 2 == 0 {
        let d: Vec<(&Vec<T>, usize)> = vs.iter().zip(ps).map(|(v, p)| (v, p.0)).collect();
        guard("parallel_insert", || h.parallel_insert(&d));
    } else {
        let d: Vec<(&[T], usize)> = vs.iter().zip(ps).map(|(v, p)| (v.as_slice(), p.0)).collect();
        guard("parallel_insert_slice", || h.parallel_insert_slice(&d));
    }
}
pub fn build<T: Elem>(b: &Bld, span: u64) -> Ix<T> {
    let mut h: Ix<T> = guard("new", || Hnsw::new(b.m, 16, 16, b.efc, GDist));
    if b.keep {
        h.set_keeping_pruned(true);
    }
    if b.extend {
        h.set_extend_candidates(true);
    }
    if b.scale != 1000 {
        h.modify_level_scale(b.scale as f64 / 1000.);
    }
    for p in &b.pre {
        put(&h, p, span);
    }
    if !b.thr.is_empty() {
        put_all(&h, &b.thr, span);
    }
    h
}

// ------------------------------------------------------------------------------------------- observable state of an index
#[derive(Clone, Debug, PartialEq)]
pub struct PS {
    pub id: usize,
    pub pid: (u8, i32),
    pub bytes: Vec<u8>,
    /// per layer, (distance bits, id, layer, rank), in stored order
    pub nb: Vec<Vec<(u32, usize, u8, i32)>>,
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub n: usize,
    pub top: u8,
    pub m: u8,
    pub efc: usize,
    pub maxl: usize,
    pub scale: f64,
    pub dist: String,
    pub dim: usize,
    pub layers: Vec<Vec<PS>>,
}
pub fn raw<T>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}
/// only while nothing else uses the index
pub fn snap<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'static, T, D>) -> Snap {
    guard("inspecting the index", || {
        let _q = rt::Quiet::new();
        let pi = h.get_point_indexation();
        let layers = (0..16)
            .map(|l| {
                if l >= h.get_max_level() {
                    return vec![];
                }
                pi.get_layer_iterator(l)
                    .map(|p| {
                        let pid = p.get_point_id();
                        let nb = p.get_neighborhood_id().iter().map(|x| x.iter().map(|n| (n.distance.to_bits(), n.d_id, n.p_id.0, n.p_id.1)).collect()).collect();
                        PS { id: p.get_origin_id(), pid: (pid.0, pid.1), bytes: raw(p.get_v()), nb }
                    })
                    .collect()
            })
            .collect();
        Snap {
            n: h.get_nb_point(),
            top: h.get_max_level_observed(),
            m: h.get_max_nb_connection(),
            efc: h.get_ef_construction(),
            maxl: h.get_max_level(),
            scale: pi.get_level_scale(),
            dist: h.get_distance_name(),
            dim: pi.get_data_dimension(),
            layers,
        }
    })
}
/// None when the two states are observably the same
pub fn diff(a: &Snap, b: &Snap, data: bool) -> Option<(&'static str, String)> {
    if a.n != b.n {
        return Some(("count", format!("{} points instead of {}", b.n, a.n)));
    }
    if a.top != b.top {
        return Some(("top-level", format!("top level {} instead of {}", b.top, a.top)));
    }
    if a.m != b.m || a.efc != b.efc || a.maxl != b.maxl {
        return Some(("parameters", format!("(M, ef construction, layers) = {:?} instead of {:?}", (b.m, b.efc, b.maxl), (a.m, a.efc, a.maxl))));
    }
    if (a.scale - b.scale).abs() > 1e-9 * a.scale.abs() {
        return Some(("level-scale", format!("level scale {} instead of {}", b.scale, a.scale)));
    }
    if data && a.dist != b.dist {
        return Some(("distance", format!("distance {} instead of {}", b.dist, a.dist)));
    }
    if data && a.dim != b.dim {
        return Some(("dimension", format!("dimension {} instead of {}", b.dim, a.dim)));
    }
    for (l, (x, y)) in a.layers.iter().zip(&b.layers).enumerate() {
        if x.len() != y.len() {
            return Some(("layer-size", format!("layer {l} holds {} points instead of {}", y.len(), x.len())));
        }
        for (p, q) in x.iter().zip(y) {
            if p.id != q.id || p.pid != q.pid {
                return Some(("identity", format!("{:?} id {} instead of {:?} id {}", q.pid, q.id, p.pid, p.id)));
            }
            if data && p.bytes != q.bytes {
                return Some(("vector", format!("id {}: vector bytes {:?} instead of {:?}", p.id, &q.bytes[..q.bytes.len().min(24)], &p.bytes[..p.bytes.len().min(24)])));
            }
            for k in 0..p.nb.len().max(q.nb.len()) {
                let e = vec![];
                let (mut u, mut v) = (p.nb.get(k).unwrap_or(&e).clone(), q.nb.get(k).unwrap_or(&e).clone());
                u.sort();
                v.sort();
                if u != v {
                    return Some(("neighbours", format!("id {} layer {k}: neighbours {:?} instead of {:?}", p.id, v, u)));
                }
                let w = q.nb.get(k).unwrap_or(&e);
                if w.windows(2).any(|z| f32::from_bits(z[0].0) > f32::from_bits(z[1].0)) {
                    return Some(("unsorted", format!("id {} layer {k}: neighbours not sorted by distance", p.id)));
                }
            }
        }
    }
    None
}
fn same_order(a: &Snap, b: &Snap) -> bool {
    a.layers.iter().zip(&b.layers).all(|(x, y)| x.iter().zip(y).all(|(p, q)| p.nb == q.nb))
}
pub fn expect_same(what: &str, a: &Snap, b: &Snap, data: bool) {
    if let Some((c, m)) = diff(a, b, data) {
        violate!(&format!("differs:{c}"), "{what}: {m}");
    }
}
pub type Ans = Vec<(usize, u32, u8, i32)>;
pub fn ask<T: Elem>(h: &Ix<T>, q: &[T], k: usize, ef: usize) -> Ans {
    guard("search", || h.search(q, k, ef)).iter().map(|n| (n.d_id, n.distance.to_bits(), n.p_id.0, n.p_id.1)).collect()
}
/// structural soundness of a single answer, judged against the stored population
fn sound<T: Elem>(what: &str, h: &Ix<T>, by: &HashMap<usize, Vec<T>>, q: &[T], k: usize, ef: usize) {
    let a = ask(h, q, k, ef);
    let _q = rt::Quiet::new();
    if a.len() > k || (a.is_empty() && !by.is_empty()) {
        violate!("search-length", "{what}: {} results for k={k} among {} points", a.len(), by.len());
    }
    let mut prev = f32::NEG_INFINITY;
    let mut seen = HashSet::new();
    for n in &a {
        let d = f32::from_bits(n.1);
        if d < prev || !seen.insert(n.0) {
            violate!("search-order", "{what}: answer {a:?}");
        }
        prev = d;
        match by.get(&n.0) {
            Some(v) if gdist(q, v) == d => {}
            _ => violate!("search-distance", "{what}: id {} reported at distance {d}", n.0),
        }
    }
}
fn table<T: Elem>(all: &[P], span: u64) -> HashMap<usize, Vec<T>> {
    rt::quiet(|| all.iter().map(|p| (p.0, vec_of(p, span))).collect())
}
fn queries<T: Elem>(all: &[P], span: u64, n: usize) -> Vec<Vec<T>> {
    let _q = rt::Quiet::new();
    let mut v: Vec<Vec<T>> = all.iter().take(n).map(|p| vec_of(p, span)).collect();
    if let Some(p) = all.last() {
        v.push(vec_of(&P(0, p.1 ^ 99, p.2), span));
    }
    v
}
/// the reloaded index answers like the original one
fn same_answers<T: Elem>(what: &str, a: &Ix<T>, b: &Ix<T>, sa: &Snap, sb: &Snap, all: &[P], span: u64) {
    let by = table::<T>(all, span);
    let exact = same_order(sa, sb);
    for q in queries::<T>(all, span, 2) {
        for (k, ef) in [(1, 3), (5, 12)] {
            sound(what, b, &by, &q, k, ef);
            if exact {
                let (x, y) = (ask(a, &q, k, ef), ask(b, &q, k, ef));
                if x != y {
                    violate!("answer-differs", "{what}: search gives {y:?} instead of {x:?}");
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- dump and reload
pub fn dump<T: Elem>(h: &Ix<T>, dir: &Path, name: &str) -> Result<String, String> {
    rt::label("file_dump");
    guard("file_dump", || h.file_dump(dir, name).map_err(|e| e.to_string()))
}
pub fn must_dump<T: Elem>(h: &Ix<T>, dir: &Path, name: &str) -> String {
    match dump(h, dir, name) {
        Ok(n) => n,
        Err(e) => violate!("dump-failed", "file_dump of {name} failed although nothing was injected: {e}"),
    }
}
#[derive(Clone, Copy, Debug)]
pub struct How {
    pub mmap: bool,
    pub thr: usize,
    pub dist: bool,
}
/// a reloader and the index it feeds; the index goes first
pub struct Loaded<T: Elem> {
    pub h: Option<Ix<T>>,
    io: *mut HnswIo,
}
unsafe impl<T: Elem> Send for Loaded<T> {}
unsafe impl<T: Elem> Sync for Loaded<T> {}
impl<T: Elem> Loaded<T> {
    pub fn ix(&self) -> &Ix<T> {
        self.h.as_ref().unwrap()
    }
    pub fn open(dir: &Path, name: &str, how: How) -> Loaded<T> {
        let late = rt::quiet(|| LATE.load(std::sync::atomic::Ordering::Relaxed));
        if late {
            let mut io = Box::new(HnswIo::default());
            let mut o = ReloadOptions::new(how.mmap);
            if how.mmap && how.thr > 0 {
                o = o.set_mmap(false).set_mmap_threshold(how.thr);
            }
            if let Err(e) = io.set_values(dir, name.to_string(), o) {
                violate!("set-values", "set_values on a reloader made by default() fails: {e}");
            }
            if io.set_values(Path::new("elsewhere"), "other".to_string(), o).is_ok() || io.get_basename() != name {
                violate!("set-values", "set_values on an initialized reloader is accepted, or changes it");
            }
            return Loaded { h: None, io: Box::into_raw(io) };
        }
        let mut io = Box::new(HnswIo::new(dir, name));
        if how.mmap {
            let o = if how.thr > 0 { ReloadOptions::default().set_mmap_threshold(how.thr) } else { ReloadOptions::default().set_mmap(true) };
            io.set_options(o);
        }
        Loaded { h: None, io: Box::into_raw(io) }
    }
    pub fn load(&mut self, how: How) -> Result<(), String> {
        rt::label(if how.dist { "load_hnsw_with_dist" } else { "load_hnsw" });
        self.h = None;
        let io: &'static mut HnswIo = unsafe { &mut *self.io };
        let r = guard("reload", || if how.dist { io.load_hnsw_with_dist::<T, GDist>(GDist) } else { io.load_hnsw::<T, GDist>() });
        match r {
            Ok(h) => {
                self.h = Some(h);
                Ok(())
            }
            Err(e) => Err(format!("{e:#}")),
        }
    }
}
impl<T: Elem> Drop for Loaded<T> {
    fn drop(&mut self) {
        if let Some(h) = self.h.take() {
            guard("drop of a reloaded index", || drop(h));
        }
        guard("drop of a reloader", || drop(unsafe { Box::from_raw(self.io) }));
    }
}
pub fn load<T: Elem>(dir: &Path, name: &str, how: How) -> Result<Loaded<T>, String> {
    let mut l = Loaded::open(dir, name, how);
    l.load(how)?;
    Ok(l)
}
pub fn must_load<T: Elem>(dir: &Path, name: &str, how: How, what: &str) -> Loaded<T> {
    match load(dir, name, how) {
        Ok(l) => l,
        Err(e) => violate!("reload-failed", "{what}: reload of {name} with {how:?} failed: {e}"),
    }
}
/// graph-only reload; Err or the state
fn load_graph(dir: &Path, name: &str) -> Result<Snap, String> {
    rt::label("load_hnsw (graph only)");
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(dir, name)));
    let p = io as *mut HnswIo;
    let r: Result<Hnsw<'static, NoData, NoDist>, _> = guard("graph-only reload", || io.load_hnsw());
    let out = match r {
        Ok(h) => {
            let s = snap(&h);
            guard("drop of a reloaded graph", || drop(h));
            Ok(s)
        }
        Err(e) => Err(e.to_string()),
    };
    drop(unsafe { Box::from_raw(p) });
    out
}
/// the header of a dump: (M, construction width, points, dimension, layers, scale, distance, element type)
type Head = (u8, usize, usize, usize, u8, f64, String, String);
fn load_head(dir: &Path, name: &str) -> Result<Head, String> {
    rt::label("load_description");
    guard("load_description", || {
        let f = std::fs::File::open(gpath(dir, name)).map_err(|e| e.to_string())?;
        let mut r = std::io::BufReader::new(f);
        let d = load_description(&mut r).map_err(|e| e.to_string())?;
        Ok((d.max_nb_connection, d.ef, d.nb_point, d.get_dimension(), d.nb_layer, d.level_scale, d.distname.clone(), d.get_typename()))
    })
}
fn head_of<T>(s: &Snap) -> Head {
    (s.m, s.efc, s.n, s.dim, s.maxl as u8, s.scale, s.dist.clone(), std::any::type_name::<T>().to_string())
}
/// DataMap contents: Err or (id, bytes) in file order
fn load_map<T: Elem>(dir: &Path, name: &str) -> Result<Vec<(usize, Vec<u8>)>, String> {
    rt::label("DataMap::from_hnswdump");
    guard("DataMap", || {
        let m = DataMap::from_hnswdump::<T>(dir, name)?;
        let ids: Vec<usize> = m.get_dataid_iter().copied().collect();
        Ok(ids.into_iter().map(|i| (i, m.get_data::<T>(&i).map(raw).unwrap_or_default())).collect())
    })
}
fn map_of(s: &Snap) -> Vec<(usize, Vec<u8>)> {
    s.layers.iter().flatten().map(|p| (p.id, p.bytes.clone())).collect()
}

pub fn base_dir(rel: bool) -> PathBuf {
    let d = PathBuf::from(rt::bstr(&rt::shared().scratch));
    if rel {
        rt::enter_scratch();
        rt::quiet(|| std::fs::create_dir_all(d.join("sub")).unwrap());
        PathBuf::from("sub")
    } else {
        d
    }
}
pub fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    rt::quiet(|| {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(dir).expect("list scratch").flatten() {
            if e.path().is_file() {
                m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).expect("read scratch"));
            }
        }
        m
    })
}
fn gpath(dir: &Path, n: &str) -> PathBuf {
    dir.join(format!("{n}.hnsw.graph"))
}
fn dpath(dir: &Path, n: &str) -> PathBuf {
    dir.join(format!("{n}.hnsw.data"))
}

/// did an injected fault fire that the library may not hide?
fn hard_fault() -> bool {
    hard_fault_but("")
}
/// the same, for an operation that can do without `soft`
fn hard_fault_but(soft: &str) -> bool {
    rt::shared().full_hits > 0 || hard_fault_but_any(&[soft])
}
/// the same for an operation that never writes, when `softs` holds every kind of fault of writing
fn hard_fault_but_any(softs: &[&str]) -> bool {
    let g = rt::shared();
    (0..g.nfault as usize).any(|i| {
        let f = &g.fault[i];
        let transparent = match rt::ACTS[f.action as usize] {
            "short" => true,
            "errno" => f.arg == libc::EINTR as i64 && matches!(rt::IOCLS[f.cls as usize], "read" | "write" | "open"),
            _ => false,
        } || softs.contains(&rt::IOCLS[f.cls as usize]);
        f.fired > 0 && !transparent
    })
}
fn any_fault() -> bool {
    let g = rt::shared();
    g.full_hits > 0 || (0..g.nfault as usize).any(|i| g.fault[i].fired > 0)
}

// ------------------------------------------------------------------------------------------- the properties
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Round,
    Disk,
    Crash,
    Reload,
    NoClobber,
    Mapped,
    Grow,
    Mismatch,
    Clock,
    Live,
    Old,
    Tidy,
}
pub struct IoProp {
    id: &'static str,
    kind: Kind,
    runs: u64,
    rule: &'static str,
    probes: &'static [&'static str],
}
pub static PROPS: [IoProp; 12] = [
    IoProp { id: "C12", kind: Kind::Round, runs: 24000, rule: "an index of one of five element types, built sequentially or concurrently, dumped by 1-3 concurrent dumpers while searchers run, reloaded in every way and compared with the original.", probes: &["-", "compared reloads"] },
    IoProp { id: "C13", kind: Kind::Disk, runs: 24000, rule: "a dump under an injected write/open/stat error, short write or full disk, next to another dump; outcome, index, other dump and a later dump checked.", probes: &["-", "dump reported an error", "dump succeeded despite a fault", "failed dump left loadable files"] },
    IoProp { id: "C14", kind: Kind::Crash, runs: 24000, rule: "a process crash at a chosen file operation of a dump (torn last write) or a power loss truncating the unsynced files, optionally over an older dump of the same name, then every kind of reload.", probes: &["-", "crash fired", "power loss", "reload refused", "reload gave the new state", "reload gave the old state"] },
    IoProp { id: "C15", kind: Kind::Reload, runs: 24000, rule: "a reload under injected open/read/stat/mmap errors and short reads, then a retry without faults.", probes: &["-", "reload reported an error", "reload succeeded despite a fault", "DataMap reported an error"] },
    IoProp { id: "C16", kind: Kind::NoClobber, runs: 20000, rule: "one or two memory-mapped indexes grown and dumped concurrently under the basename of existing dumps, with colliding random names and injected open/stat errors.", probes: &["-", "concurrent dumps", "orphan file present", "dump failed under a fault", "all short names taken"] },
    IoProp { id: "C17", kind: Kind::Mapped, runs: 24000, rule: "memory-mapped reload with every threshold compared with a reload into memory; DataMap compared with the dumped vectors, from several threads.", probes: &["-", "points read from the map"] },
    IoProp { id: "C18", kind: Kind::Grow, runs: 14000, rule: "1-3 cycles of reload, concurrent insertion and dump.", probes: &["-", "cycles", "exact search of a small grown index"] },
    IoProp { id: "C19", kind: Kind::Mismatch, runs: 24000, rule: "reloads with another element type or distance, with missing, foreign, swapped, truncated or mixed files.", probes: &["-", "refused"] },
    IoProp { id: "C22", kind: Kind::Clock, runs: 20000, rule: "build, search, dump, reload and drop while the wall clock jumps forward and backward.", probes: &["-", "jumps"] },
    IoProp { id: "C25", kind: Kind::Live, runs: 20000, rule: "one or two threads dump an index again and again while others insert and search; every dump that reports success is reloaded in several ways and compared with the insertions known before and during it.", probes: &["-", "dumps taken during insertions", "dump lacks unfinished points", "exact search of a reloaded dump", "dump of an empty index"] },
    IoProp { id: "C26", kind: Kind::Old, runs: 20000, rule: "a dump rewritten into format 2 or 3 is reloaded in every way under injected read, open and mmap errors, compared with the original, grown, dumped and reloaded again.", probes: &["-", "format 2", "format 3", "reload reported an error", "grown and dumped again"] },
    IoProp { id: "C27", kind: Kind::Tidy, runs: 20000, rule: "phases of simultaneous dumps and reloads of every kind in a directory tree that also holds files and directories of similar names, under injected faults, a full disk or a medium that cannot be written; the whole tree is compared before and after each phase.", probes: &["-", "dumps compared", "reads compared", "refused reads", "failed dumps", "reads from a medium that cannot be written"] },
];

struct RunFn<'a>(&'a IoProp, &'a Io, &'a Case);
impl TypeFn<()> for RunFn<'_> {
    fn call<T: Elem, U: Elem>(self) {
        let (p, b) = (self.0, self.1);
        rt::quiet(|| LATE.store(b.late, std::sync::atomic::Ordering::Relaxed));
        match p.kind {
            Kind::Round => round::<T>(b),
            Kind::Disk => disk::<T>(b),
            Kind::Crash => crash::<T>(b),
            Kind::Reload => reload::<T>(b),
            Kind::NoClobber => noclobber::<T>(b),
            Kind::Mapped => mapped::<T, U>(b),
            Kind::Grow => grow::<T>(b),
            Kind::Mismatch => mismatch::<T, U>(b),
            Kind::Clock => clock::<T>(b),
            Kind::Live => live::<T>(b),
            Kind::Old => old::<T>(b),
            Kind::Tidy => tidy::<T, U>(b),
        }
    }
}

fn all_hows(b: &Io) -> Vec<How> {
    let mut v = vec![How { mmap: b.mmap, thr: b.thr, dist: b.dist }];
    if b.mmap {
        v.push(How { mmap: false, thr: 0, dist: !b.dist });
    }
    v
}

/// search from other threads until the dumps are done
fn searchers<'s, T: Elem>(s: &'s std::thread::Scope<'s, '_>, h: &'s Ix<T>, n: usize, all: &'s [P], span: u64) -> Vec<std::thread::ScopedJoinHandle<'s, ()>> {
    (0..n)
        .map(|i| {
            s.spawn(move || {
                let by = table::<T>(all, span);
                for q in queries::<T>(all, span, 3).iter().skip(i % 2) {
                    sound("search during the dump", h, &by, q, 3, 8);
                }
            })
        })
        .collect()
}

// C12
fn round<T: Elem>(b: &Io) {
    if b.named > 0 {
        return round_named::<T>(b);
    }
    let dir = base_dir(b.rel);
    let base = if b.name.is_empty() { "dump" } else { b.name.as_str() };
    let h: Ix<T> = build(&b.a, b.span);
    let all = pts(&b.a);
    let s0 = snap(&h);
    if b.again {
        // an older dump of another index under the same name is replaced entirely
        let o: Ix<T> = build(&b.b, b.span);
        must_dump(&o, &dir, base);
        guard("drop", || drop(o));
    }
    let names: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        let js = searchers(s, &h, b.searchers, &all, b.span);
        let mut ds = vec![];
        for i in 1..b.dumpers.max(1) {
            let (h, dir, names) = (&h, &dir, &names);
            ds.push(s.spawn(move || {
                let n = must_dump(h, dir, &format!("{base}{i}"));
                names.lock().unwrap().push((i, n));
            }));
        }
        let n = must_dump(&h, &dir, base);
        names.lock().unwrap().push((0, n));
        for j in js.into_iter().chain(ds) {
            if j.join().is_err() {
                crate::engine::panic_violation("dump or search thread");
            }
        }
    });
    let names = names.into_inner().unwrap();
    for (i, n) in &names {
        let want = if *i == 0 { base.to_string() } else { format!("{base}{i}") };
        if *n != want {
            violate!("name-changed", "dump of {want} reports the name {n}");
        }
    }
    expect_same("index after its dump", &s0, &snap(&h), true);
    for (i, n) in &names {
        for how in if *i == 0 { all_hows(b) } else { vec![How { mmap: false, thr: 0, dist: b.dist }] } {
            let l: Loaded<T> = must_load(&dir, n, how, "round trip");
            let s1 = snap(l.ix());
            expect_same(&format!("reload of {n} with {how:?}"), &s0, &s1, true);
            same_answers("reloaded index", &h, l.ix(), &s0, &s1, &all, b.span);
            rt::probe(1);
        }
    }
    match load_graph(&dir, base) {
        Ok(s) => expect_same("graph-only reload", &s0, &s, false),
        Err(e) => violate!("reload-failed", "graph-only reload failed: {e}"),
    }
    if b.dumpers > 1 || b.searchers > 0 {
        // one reloader used by several threads at once, next to another one for the same dump
        let io: *mut HnswIo = Box::into_raw(Box::new(HnswIo::new(&dir, base)));
        let shared: &'static HnswIo = unsafe { &*io };
        std::thread::scope(|s| {
            let mut js: Vec<_> = (0..2)
                .map(|_| {
                    let s0 = &s0;
                    s.spawn(move || {
                        rt::label("load_hnsw_with_dist");
                        match guard("reload", || shared.load_hnsw_with_dist::<T, GDist>(GDist)) {
                            Ok(l) => {
                                expect_same("reload by several threads at once", s0, &snap(&l), true);
                                guard("drop", || drop(l));
                            }
                            Err(e) => violate!("reload-failed", "reload by several threads at once failed: {e:#}"),
                        }
                    })
                })
                .collect();
            let (s0, dir) = (&s0, &dir);
            js.push(s.spawn(move || {
                let l: Loaded<T> = must_load(dir, base, all_hows(b)[0], "reload next to other reloads");
                expect_same("reload next to other reloads", s0, &snap(l.ix()), true);
            }));
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("reloading thread");
                }
            }
        });
        drop(unsafe { Box::from_raw(io) });
    }
    for (_, n) in &names {
        match load_head(&dir, n) {
            Ok(d) if d == head_of::<T>(&s0) => {}
            Ok(d) => violate!("description-differs", "load_description of {n} gives {d:?}, the dumped index is {:?}", head_of::<T>(&s0)),
            Err(e) => violate!("description-failed", "load_description of {n} failed: {e}"),
        }
    }
    guard("drop", || drop(h));
}

/// the same round trip with a distance whose name is generic and possibly long
fn round_named<T: Elem>(b: &Io) {
    match b.named {
        1 => round_dist::<T, Over<GDist>>(b),
        2 => round_dist::<T, Over<Name9>>(b),
        3 => round_dist::<T, Over<Name17>>(b),
        _ => round_dist::<T, Under<Name68>>(b),
    }
}
fn insert_dist<T: Elem, D: Distance<T> + Default + Send + Sync>(b: &Bld, span: u64) -> Hnsw<'static, T, D> {
    let h: Hnsw<'static, T, D> = guard("new", || Hnsw::new(b.m, 16, 16, b.efc, D::default()));
    for p in pts(b) {
        let v: Vec<T> = rt::quiet(|| vec_of(&p, span));
        guard("insert", || h.insert((&v, p.0)));
    }
    h
}
fn dump_dist<T: Elem, D: Distance<T> + Send + Sync>(h: &Hnsw<'static, T, D>, dir: &Path, name: &str) {
    match guard("file_dump", || h.file_dump(dir, name)) {
        Ok(n) if n == name => {}
        x => violate!("dump-failed", "file_dump of {name} gives {:?} although nothing was injected", x.map_err(|e| e.to_string())),
    }
}
fn round_dist<T: Elem, D: Distance<T> + Default + Send + Sync>(b: &Io) {
    let dir = base_dir(b.rel);
    let base = if b.name.is_empty() { "dump" } else { b.name.as_str() };
    let h = insert_dist::<T, D>(&b.a, b.span);
    let s0 = snap(&h);
    dump_dist(&h, &dir, base);
    expect_same("index after its dump", &s0, &snap(&h), true);
    for how in all_hows(b) {
        let mut io = HnswIo::new(&dir, base);
        if how.mmap {
            io.set_options(ReloadOptions::default().set_mmap(true));
        }
        let p = Box::into_raw(Box::new(io));
        let r: Result<Hnsw<'static, T, D>, _> = guard("reload", || {
            let io: &'static mut HnswIo = unsafe { &mut *p };
            if how.dist { io.load_hnsw_with_dist::<T, D>(D::default()) } else { io.load_hnsw::<T, D>() }
        });
        match r {
            Ok(l) => {
                expect_same(&format!("reload with {how:?}"), &s0, &snap(&l), true);
                guard("drop", || drop(l));
            }
            Err(e) => violate!("reload-failed", "reload of {base} with {how:?} and distance {} failed: {e}", s0.dist),
        }
        drop(unsafe { Box::from_raw(p) });
        rt::probe(1);
    }
    match load_graph(&dir, base) {
        Ok(s) => expect_same("graph-only reload", &s0, &s, false),
        Err(e) => violate!("reload-failed", "graph-only reload failed: {e}"),
    }
    match guard("DataMap", || DataMap::from_hnswdump::<T>(&dir, base)) {
        Ok(m) => {
            if m.get_distname() != s0.dist || m.get_data_typename() != std::any::type_name::<T>() {
                violate!("map-type", "DataMap reports {} / {}", m.get_data_typename(), m.get_distname());
            }
        }
        Err(e) => violate!("map-failed", "DataMap on a valid dump: {e}"),
    }
    guard("drop", || drop(h));
}

// C13
fn disk<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let other: Ix<T> = build(&b.b, b.span);
    let so = snap(&other);
    rt::disk_budget(-1);
    must_dump(&other, &dir, "other");
    let before = files(&dir);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    let all = pts(&b.a);
    let target = match b.flavor {
        1 => dir.join("missing"),
        2 => {
            rt::quiet(|| std::fs::write(dir.join("plainfile"), b"x").unwrap());
            dir.join("plainfile")
        }
        3 => {
            // a directory sits where one of the two files should go
            rt::quiet(|| std::fs::create_dir(if b.again { gpath(&dir, "dump") } else { dpath(&dir, "dump") }).unwrap());
            dir.clone()
        }
        _ => dir.clone(),
    };
    rt::disk_budget(rt::shared().disk_budget);
    rt::io_arm(true);
    let mut res = Err(String::new());
    std::thread::scope(|s| {
        let js = searchers(s, &h, b.searchers, &all, b.span);
        res = dump(&h, &target, "dump");
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("search thread");
            }
        }
    });
    rt::io_arm(false);
    let hard = hard_fault() || (1..=3).contains(&b.flavor);
    match &res {
        Ok(n) => {
            if (1..=3).contains(&b.flavor) {
                violate!("dump-impossible", "dump into an impossible place reports success");
            }
            if any_fault() {
                rt::probe(2);
            }
            for how in all_hows(b) {
                let l: Loaded<T> = must_load(&target, n, how, "a dump that reported success under injected faults");
                expect_same("dump that reported success under injected faults", &s0, &snap(l.ix()), true);
            }
        }
        Err(e) => {
            rt::probe(1);
            if !hard {
                violate!("dump-failed", "dump failed although the only faults were interruptions or short writes: {e}");
            }
            if b.flavor == 0 {
                // whatever it left behind must not be taken for another index
                for how in all_hows(b) {
                    if let Ok(l) = load::<T>(&target, "dump", how) {
                        rt::probe(3);
                        expect_same("files left by a failed dump", &s0, &snap(l.ix()), true);
                    }
                }
            }
        }
    }
    expect_same("index after a dump under faults", &s0, &snap(&h), true);
    let after = files(&dir);
    for (n, c) in &before {
        if after.get(n) != Some(c) {
            violate!("other-dump-damaged", "file {n} of another dump changed");
        }
    }
    let l: Loaded<T> = must_load(&dir, "other", How { mmap: b.mmap, thr: b.thr, dist: b.dist }, "another dump after the failed one");
    expect_same("another dump after the failed one", &so, &snap(l.ix()), true);
    drop(l);
    // the device works again
    let n = must_dump(&h, &dir, if b.flavor == 3 || !b.again { "later" } else { "dump" });
    let l: Loaded<T> = must_load(&dir, &n, How { mmap: b.mmap, thr: b.thr, dist: b.dist }, "later dump");
    expect_same("later dump", &s0, &snap(l.ix()), true);
    drop(l);
    guard("drop", || drop((h, other)));
}

// C14
fn crash<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let new = snap(&h);
    let mut old = None;
    if b.again {
        let o: Ix<T> = build(&b.b, b.span);
        old = Some(snap(&o));
        must_dump(&o, &dir, "dump");
        guard("drop", || drop(o));
    }
    rt::io_arm(true);
    let res = dump(&h, &dir, "dump");
    rt::io_arm(false);
    let crashed = rt::crashed();
    if crashed {
        rt::probe(1);
    }
    // the process is gone; what reached the files is all that is left
    rt::crashed_reset();
    let synced = rt::shared().ioc[rt::IOCLS.iter().position(|x| *x == "sync").unwrap()] > 0;
    let power = b.flavor == 1 && !synced;
    let mut certain = !crashed && res.is_ok();
    if power {
        rt::probe(2);
        rt::quiet(|| {
            for (p, permille) in [(gpath(&dir, "dump"), b.cut[0]), (dpath(&dir, "dump"), b.cut[1])] {
                if let Ok(c) = std::fs::read(&p) {
                    // an exact prefix of what was written survives
                    let keep = if permille >= 1_000_000 { c.len() } else { (c.len() as u128 * permille as u128 / 1_000_000) as usize };
                    if keep < c.len() {
                        certain = false;
                        std::fs::write(&p, &c[..keep]).unwrap();
                    }
                }
            }
        });
    }
    if !crashed {
        if let Err(e) = &res {
            violate!("dump-failed", "dump failed without a fault: {e}");
        }
    }
    let mut hows = all_hows(b);
    hows.push(How { mmap: true, thr: 0, dist: false });
    let judge = |s: &Snap, what: &str, data: bool| {
        if diff(&new, s, data).is_none() {
            rt::probe(4);
            return;
        }
        if let Some(o) = &old {
            if diff(o, s, data).is_none() {
                if certain {
                    violate!("dump-lost", "{what}: the older dump came back although the newer one had completed");
                }
                rt::probe(5);
                return;
            }
        }
        let (c, m) = diff(&new, s, data).unwrap();
        violate!(&format!("half-dump:{c}"), "{what}: reload succeeded but gives neither the dumped index nor the older one: {m}");
    };
    for how in hows {
        match load::<T>(&dir, "dump", how) {
            Ok(l) => judge(&snap(l.ix()), &format!("reload {how:?} after the crash"), true),
            Err(e) => {
                rt::probe(3);
                if certain {
                    violate!("dump-lost", "the dump had completed but reload fails: {e}");
                }
            }
        }
    }
    match load_graph(&dir, "dump") {
        Ok(s) => judge(&s, "graph-only reload after the crash", false),
        Err(e) if certain => violate!("dump-lost", "the dump had completed but graph-only reload fails: {e}"),
        _ => {}
    }
    match load_map::<T>(&dir, "dump") {
        Ok(m) => {
            if m != map_of(&new) && old.as_ref().map(|o| m != map_of(o)).unwrap_or(true) {
                violate!("half-dump:map", "DataMap after the crash opened {} vectors that are neither the dumped ones nor the older ones", m.len());
            }
        }
        Err(e) if certain => violate!("dump-lost", "the dump had completed but DataMap fails: {e}"),
        _ => {}
    }
    // the restarted process can dump again under the same name
    let n = must_dump(&h, &dir, "dump");
    let l: Loaded<T> = must_load(&dir, &n, How { mmap: b.mmap, thr: b.thr, dist: b.dist }, "dump after the restart");
    expect_same("dump after the restart", &new, &snap(l.ix()), true);
    drop(l);
    guard("drop", || drop(h));
}

// C15
fn reload<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    let n = must_dump(&h, &dir, "dump");
    let before = files(&dir);
    let how = How { mmap: b.mmap, thr: b.thr, dist: b.dist };
    let mut l: Loaded<T> = Loaded::open(&dir, &n, how);
    if b.flavor == 1 {
        rt::io_arm(true);
        let r = load_map::<T>(&dir, &n);
        rt::io_arm(false);
        match r {
            Ok(m) if m != map_of(&s0) => violate!("map-differs", "DataMap opened under injected faults holds other vectors"),
            Ok(_) => {}
            Err(e) => {
                rt::probe(3);
                if !hard_fault() {
                    violate!("map-failed", "DataMap failed although the only faults were interruptions or short reads: {e}");
                }
            }
        }
    } else {
        rt::io_arm(true);
        let r = l.load(how);
        rt::io_arm(false);
        match r {
            Ok(()) => {
                if any_fault() {
                    rt::probe(2);
                }
                expect_same("reload under injected faults", &s0, &snap(l.ix()), true);
            }
            Err(e) => {
                rt::probe(1);
                // without a mapping the vectors are read into memory
                if !hard_fault_but("mmap") {
                    violate!("reload-failed", "reload failed although the only faults were interruptions, short reads or a refused mapping: {e}");
                }
            }
        }
    }
    if files(&dir) != before {
        violate!("files-changed", "a reload modified the dump");
    }
    // the device works again: the same reloader succeeds
    if let Err(e) = l.load(how) {
        violate!("retry-failed", "the same reloader fails once the faults have stopped: {e}");
    }
    let s1 = snap(l.ix());
    expect_same("reload after the faults", &s0, &s1, true);
    same_answers("reload after the faults", &h, l.ix(), &s0, &s1, &pts(&b.a), b.span);
    drop(l);
    match load_map::<T>(&dir, &n) {
        Ok(m) if m == map_of(&s0) => {}
        x => violate!("map-differs", "DataMap after the faults: {:?}", x.map(|v| v.len())),
    }
    guard("drop", || drop(h));
}

// C16
fn noclobber<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    must_dump(&h, &dir, "d");
    if b.again {
        let o: Ix<T> = build(&b.b, b.span);
        must_dump(&o, &dir, "d-77");
        guard("drop", || drop(o));
    }
    // load_hnsw_with_dist never maps the file
    let how = How { mmap: true, thr: b.thr, dist: false };
    let mut ls: Vec<Loaded<T>> = vec![must_load(&dir, "d", how, "mapped reload")];
    if b.flavor & 1 == 1 {
        ls.push(must_load(&dir, "d", How { thr: 0, ..how }, "second mapped reload"));
    }
    let modes = b.flavor >> 3;
    for l in ls.iter_mut() {
        let h = l.h.as_mut().unwrap();
        // none of these settings changes where the vectors are
        if modes & 1 == 1 {
            h.set_searching_mode(true);
        }
        if modes & 2 == 2 {
            h.set_extend_candidates(modes & 4 == 4);
            h.set_keeping_pruned(true);
        }
        if modes & 8 == 8 {
            h.set_searching_mode(false);
        }
    }
    for (l, g) in ls.iter().zip(&b.grow) {
        put_all(l.ix(), g, b.span);
    }
    let snaps: Vec<Snap> = ls.iter().map(|l| snap(l.ix())).collect();
    if b.flavor & 2 == 2 {
        // only one file of a pair exists under the wanted name
        rt::probe(2);
        rt::quiet(|| std::fs::write(if b.flavor & 4 == 4 { gpath(&dir, "o") } else { dpath(&dir, "o") }, b"precious").unwrap());
    }
    let base = if b.flavor & 2 == 2 { "o" } else { "d" };
    if b.flavor & 256 == 256 {
        // years of dumps under one name: every number below 10000 is taken
        rt::probe(4);
        rt::quiet(|| {
            for i in 0..10000 {
                let n = format!("{base}-{i}");
                let p = if b.flavor & 512 == 512 { gpath(&dir, &n) } else { dpath(&dir, &n) };
                if !p.exists() {
                    std::fs::write(p, b"").unwrap();
                }
            }
        });
    }
    let before = files(&dir);
    let out: Mutex<Vec<(usize, Result<String, String>)>> = Mutex::new(vec![]);
    let all = pts(&b.a);
    rt::io_arm(true);
    std::thread::scope(|s| {
        let mut js = vec![];
        for i in 0..b.dumpers.max(1) {
            let (ls, out, dir) = (&ls, &out, &dir);
            js.push(s.spawn(move || {
                let k = i % ls.len();
                let r = dump(ls[k].ix(), dir, base);
                out.lock().unwrap().push((k, r));
            }));
        }
        if b.grow.is_empty() {
            js.extend(searchers(s, ls[0].ix(), b.searchers, &all, b.span));
        }
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("dumping thread");
            }
        }
    });
    rt::io_arm(false);
    let out = out.into_inner().unwrap();
    if out.len() > 1 {
        rt::probe(1);
    }
    let after = files(&dir);
    for (n, c) in &before {
        if after.get(n) != Some(c) {
            violate!("clobbered", "a dump from a memory-mapped index modified the existing file {n}");
        }
    }
    let mut names = HashSet::new();
    for (k, r) in &out {
        match r {
            Ok(n) => {
                if !names.insert(n.clone()) {
                    violate!("name-shared", "two concurrent dumps both report the name {n}");
                }
                for f in [format!("{n}.hnsw.graph"), format!("{n}.hnsw.data")] {
                    if before.contains_key(&f) {
                        violate!("clobbered", "a dump reports the name {n} of existing files");
                    }
                }
                let l: Loaded<T> = must_load(&dir, n, How { mmap: b.mmap, thr: 0, dist: b.dist }, "dump of a mapped index");
                expect_same("dump of a mapped index", &snaps[*k], &snap(l.ix()), true);
            }
            Err(e) => {
                rt::probe(3);
                if !hard_fault() {
                    violate!("dump-failed", "dump of a mapped index failed without a fault: {e}");
                }
            }
        }
    }
    for (l, s) in ls.iter().zip(&snaps) {
        expect_same("mapped index after the dumps", s, &snap(l.ix()), true);
    }
    // a name nobody uses is used as it is
    let n = must_dump(ls[0].ix(), &dir, "unused");
    if n != "unused" {
        violate!("name-changed", "a mapped index dumped under the free name \"unused\" reports {n}");
    }
    let l: Loaded<T> = must_load(&dir, &n, How { mmap: false, thr: 0, dist: b.dist }, "dump under a free name");
    expect_same("dump under a free name", &snaps[0], &snap(l.ix()), true);
    drop(l);
    drop(ls);
    let l: Loaded<T> = must_load(&dir, "d", How { mmap: false, thr: 0, dist: b.dist }, "original dump");
    expect_same("original dump", &s0, &snap(l.ix()), true);
    drop(l);
    guard("drop", || drop(h));
}

// C17
fn mapped<T: Elem, U: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    let all = pts(&b.a);
    let n = must_dump(&h, &dir, "dump");
    guard("drop", || drop(h));
    let mem: Loaded<T> = must_load(&dir, &n, How { mmap: false, thr: 0, dist: b.dist }, "memory reload");
    let s1 = snap(mem.ix());
    let how = How { mmap: true, thr: b.thr, dist: b.dist };
    let map: Loaded<T> = must_load(&dir, &n, how, "mapped reload");
    let s2 = snap(map.ix());
    expect_same(&format!("mapped reload {how:?} against memory reload"), &s1, &s2, true);
    expect_same("mapped reload against the original", &s0, &s2, true);
    let want = map_of(&s0);
    let dm = match guard("DataMap", || DataMap::from_hnswdump::<T>(&dir, &n)) {
        Ok(m) => m,
        Err(e) => violate!("map-failed", "DataMap on a valid dump: {e}"),
    };
    // several readers of the map and of the mapped index
    std::thread::scope(|s| {
        let mut js = vec![];
        for t in 0..b.dumpers.max(1) {
            let (dm, want, map, mem, s1, s2, all) = (&dm, &want, &map, &mem, &s1, &s2, &all);
            js.push(s.spawn(move || {
                if t % 2 == 0 {
                    same_answers("mapped index", mem.ix(), map.ix(), s1, s2, all, b.span);
                }
                for (id, bytes) in want {
                    rt::point(rt::K_USER);
                    match guard("get_data", || dm.get_data::<T>(id)) {
                        Some(v) if raw(v) == *bytes => rt::probe(1),
                        Some(v) => violate!("map-vector", "DataMap gives {} elements {:?} for id {id}, dumped {} bytes {:?}", v.len(), &v[..v.len().min(6)], bytes.len(), &bytes[..bytes.len().min(24)]),
                        None => violate!("map-missing", "DataMap has no vector for id {id}"),
                    }
                }
            }));
        }
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("mapped reader");
            }
        }
    });
    if dm.get_nb_data() != want.len() {
        violate!("map-count", "DataMap counts {} vectors, dumped {}", dm.get_nb_data(), want.len());
    }
    let ids: Vec<usize> = dm.get_dataid_iter().copied().collect();
    if ids != want.iter().map(|x| x.0).collect::<Vec<_>>() {
        violate!("map-order", "DataMap enumerates {ids:?}");
    }
    let known: HashSet<usize> = ids.into_iter().collect();
    for id in [0usize, 1, 77_777_777, usize::MAX] {
        if !known.contains(&id) && guard("get_data", || dm.get_data::<T>(&id)).is_some() {
            violate!("map-unknown", "DataMap gives data for the unknown id {id}");
        }
    }
    let short = |s: &'static str| s.rsplit("::").next();
    let twin = short(std::any::type_name::<T>()) == short(std::any::type_name::<U>());
    if !dm.check_data_type::<T>() || (!twin && dm.check_data_type::<U>()) {
        violate!("map-type", "DataMap type check is wrong");
    }
    if dm.get_data_typename() != std::any::type_name::<T>() || dm.get_distname() != std::any::type_name::<GDist>() {
        violate!("map-type", "DataMap reports {} / {}", dm.get_data_typename(), dm.get_distname());
    }
}

fn check_grown<T: Elem>(what: &str, s: &Snap, all: &[P], m: usize, span: u64) {
    let _q = rt::Quiet::new();
    let by = table::<T>(all, span);
    if s.n != all.len() {
        violate!("count", "{what}: {} points counted, {} inserted", s.n, all.len());
    }
    let mut seen: HashMap<usize, (u8, i32)> = HashMap::new();
    let mut byp: HashMap<(u8, i32), usize> = HashMap::new();
    for (l, v) in s.layers.iter().enumerate() {
        for (i, p) in v.iter().enumerate() {
            if p.pid != (l as u8, i as i32) {
                violate!("rank", "{what}: layer {l} rank {i} holds {:?}", p.pid);
            }
            if seen.insert(p.id, p.pid).is_some() {
                violate!("stored-twice", "{what}: id {} stored twice", p.id);
            }
            byp.insert(p.pid, p.id);
            match by.get(&p.id) {
                Some(x) if raw(x) == p.bytes => {}
                _ => violate!("stored-data", "{what}: id {} holds another vector", p.id),
            }
        }
    }
    if seen.len() != all.len() {
        violate!("stored-missing", "{what}: {} of {} points stored", seen.len(), all.len());
    }
    let top = s.layers.iter().rposition(|l| !l.is_empty()).unwrap_or(0);
    if s.top as usize != top {
        violate!("top-level", "{what}: highest occupied layer {top}, reported {}", s.top);
    }
    for p in s.layers.iter().flatten() {
        for (l, list) in p.nb.iter().enumerate() {
            if list.len() > if l == 0 { 2 * m } else { m } {
                violate!("list-too-long", "{what}: id {} has {} neighbours in layer {l}, M={m}", p.id, list.len());
            }
            let mut u = HashSet::new();
            let mut prev = f32::NEG_INFINITY;
            for n in list {
                let d = f32::from_bits(n.0);
                if n.1 == p.id || !u.insert(n.1) || d < prev {
                    violate!("list", "{what}: id {} layer {l}: list {list:?}", p.id);
                }
                prev = d;
                if byp.get(&(n.2, n.3)) != Some(&n.1) {
                    violate!("list-dangling", "{what}: id {} lists {:?} as id {}", p.id, (n.2, n.3), n.1);
                }
                if gdist(&by[&p.id], &by[&n.1]) != d {
                    violate!("list-distance", "{what}: id {} lists {} at {d}", p.id, n.1);
                }
            }
        }
    }
}

// C18
fn grow<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let mut all = pts(&b.a);
    let mut prev = snap(&h);
    let scale = prev.scale;
    let mut name = must_dump(&h, &dir, "g");
    guard("drop", || drop(h));
    for (i, g) in b.grow.iter().enumerate() {
        rt::probe(1);
        let how = How { mmap: b.mmap ^ (i % 2 == 1), thr: b.thr, dist: b.dist };
        let l: Loaded<T> = must_load(&dir, &name, how, "cycle");
        expect_same(&format!("cycle {i}: reload {how:?}"), &prev, &snap(l.ix()), true);
        let old = all.clone();
        std::thread::scope(|s| {
            let mut js = vec![];
            for (t, ps) in g.iter().enumerate() {
                let h = l.ix();
                if b.again && t == 0 {
                    js.push(s.spawn(move || put_batch(h, ps, b.span)));
                    continue;
                }
                js.push(s.spawn(move || ps.iter().for_each(|p| put(h, p, b.span))));
            }
            for _ in 0..b.searchers {
                let (h, old, by) = (l.ix(), &old, table::<T>(&old.iter().cloned().chain(g.iter().flatten().cloned()).collect::<Vec<_>>(), b.span));
                js.push(s.spawn(move || {
                    for q in queries::<T>(old, b.span, 2) {
                        sound("search while a reloaded index grows", h, &by, &q, 3, 8);
                    }
                }));
            }
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("growing thread");
                }
            }
        });
        all.extend(g.iter().flatten().cloned());
        let s = snap(l.ix());
        check_grown::<T>(&format!("cycle {i} after growing"), &s, &all, b.a.m, b.span);
        if (s.scale - scale).abs() > 1e-9 * scale {
            violate!("level-scale", "cycle {i}: level scale went from {scale} to {}", s.scale);
        }
        // what was stored before is still there, unmoved
        for p in prev.layers.iter().flatten() {
            if s.layers[p.pid.0 as usize].get(p.pid.1 as usize).map(|x| x.id) != Some(p.id) {
                violate!("moved", "cycle {i}: id {} is no longer {:?}", p.id, p.pid);
            }
        }
        let by = table::<T>(&all, b.span);
        for q in queries::<T>(&all, b.span, 2) {
            sound("grown index", l.ix(), &by, &q, 4, 10);
        }
        if all.len() <= b.a.m {
            // no list can overflow: every point is reachable
            rt::probe(2);
            for q in queries::<T>(&all, b.span, all.len()) {
                let k = all.len().min(3);
                let got: Vec<u32> = ask(l.ix(), &q, k, all.len()).iter().map(|n| n.1).collect();
                let _q = rt::Quiet::new();
                let mut want: Vec<f32> = by.values().map(|v| gdist(&q, v)).collect();
                want.sort_by(f32::total_cmp);
                if got != want[..k].iter().map(|d| d.to_bits()).collect::<Vec<_>>() {
                    violate!("not-exact", "cycle {i}: search gives distances {:?}, the nearest are at {:?}", got.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>(), &want[..k]);
                }
            }
        }
        name = must_dump(l.ix(), &dir, "g");
        let back: Loaded<T> = must_load(&dir, &name, How { mmap: false, thr: 0, dist: b.dist }, "dump of a grown index");
        expect_same(&format!("cycle {i}: dump of the grown index"), &s, &snap(back.ix()), true);
        prev = s;
    }
}

// C19
fn other<T: Elem, D: Distance<T> + Default + Send + Sync>(io: &mut HnswIo, with_dist: bool) -> Result<(), String> {
    guard("reload", || {
        if with_dist {
            io.load_hnsw_with_dist::<T, D>(D::default()).map(|_| ()).map_err(|e| e.to_string())
        } else {
            io.load_hnsw::<T, D>().map(|_| ()).map_err(|e| e.to_string())
        }
    })
}
fn mismatch<T: Elem, U: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    must_dump(&h, &dir, "dump");
    guard("drop", || drop(h));
    let how = How { mmap: b.mmap, thr: b.thr, dist: b.dist };
    let mut name = "dump".to_string();
    let (g, d) = (gpath(&dir, "dump"), dpath(&dir, "dump"));
    let refuse = |what: &str, r: Result<(), String>| match r {
        Err(_) => rt::probe(1),
        Ok(()) => violate!("accepted", "{what}: reload succeeded"),
    };
    let opts = if b.mmap { ReloadOptions::default().set_mmap(true) } else { ReloadOptions::default() };
    let mut map_must = true; // DataMap must refuse too
    match b.flavor {
        0 => {
            refuse("other element type", load::<U>(&dir, &name, how).map(|_| ()));
            match load_map::<U>(&dir, &name) {
                Err(_) => rt::probe(1),
                Ok(_) => violate!("accepted", "DataMap with another element type succeeded"),
            }
        }
        1 if b.named > 0 => {
            let h = insert_dist::<T, Over<GDist>>(&b.a, b.span);
            dump_dist(&h, &dir, "generic");
            guard("drop", || drop(h));
            let mut io = HnswIo::new_with_options(&dir, "generic", opts);
            let r = match b.named {
                1 => other::<T, Under<GDist>>(&mut io, b.dist),
                2 => other::<T, Over<GDist2>>(&mut io, b.dist),
                3 => other::<T, Over<Over<GDist>>>(&mut io, b.dist),
                _ => other::<T, GDist>(&mut io, b.dist),
            };
            refuse("other generic distance", r);
        }
        1 => {
            let mut io = HnswIo::new_with_options(&dir, &name, opts);
            let r = match b.cut[0] % 4 {
                0 => other::<T, GDist2>(&mut io, b.dist),
                1 => other::<T, Dist>(&mut io, b.dist),
                2 => other::<T, GDis>(&mut io, b.dist),
                _ => other::<T, GDisT>(&mut io, b.dist),
            };
            refuse("other distance", r);
        }
        2 => {
            // the graph of one dump with the data of another one holding other points
            let o: Ix<T> = build(&b.b, b.span);
            must_dump(&o, &dir, "b");
            guard("drop", || drop(o));
            rt::quiet(|| {
                std::fs::copy(if b.again { gpath(&dir, "b") } else { g.clone() }, gpath(&dir, "mix")).unwrap();
                std::fs::copy(if b.again { d.clone() } else { dpath(&dir, "b") }, dpath(&dir, "mix")).unwrap();
            });
            name = "mix".into();
            refuse("graph and data of different dumps", load::<T>(&dir, &name, how).map(|_| ()));
        }
        3 => {
            rt::quiet(|| match b.cut[0] % 4 {
                0 => std::fs::remove_file(&g).unwrap(),
                1 => std::fs::remove_file(&d).unwrap(),
                2 => {
                    std::fs::remove_file(&g).unwrap();
                    std::fs::create_dir(&g).unwrap()
                }
                _ => {
                    std::fs::remove_file(&d).unwrap();
                    std::fs::create_dir(&d).unwrap()
                }
            });
            refuse("a file of the dump is missing or a directory", load::<T>(&dir, &name, how).map(|_| ()));
            map_must = true;
        }
        4 => {
            // one of the files is not what it should be
            rt::quiet(|| {
                let (gc, dc) = (std::fs::read(&g).unwrap(), std::fs::read(&d).unwrap());
                let junk: Vec<u8> = match b.cut[1] % 4 {
                    0 => vec![],
                    1 => b"this is not a dump, just a text file that happens to have the right name\n".to_vec(),
                    2 => if b.cut[0] % 2 == 0 { dc } else { gc },
                    _ => { let mut r = Rng::new(b.cut[1]); (0..5000).map(|_| r.below(256) as u8).collect() }
                };
                std::fs::write(if b.cut[0] % 2 == 0 { &g } else { &d }, junk).unwrap();
            });
            refuse("a file that is not a dump", load::<T>(&dir, &name, how).map(|_| ()));
        }
        _ => {
            // a truncated file
            let graph = b.cut[0] % 2 == 0;
            rt::quiet(|| {
                let p = if graph { &g } else { &d };
                let c = std::fs::read(p).unwrap();
                let keep = (b.cut[1] % c.len() as u64) as usize;
                std::fs::write(p, &c[..keep]).unwrap();
            });
            refuse("a truncated file", load::<T>(&dir, &name, how).map(|_| ()));
            match load_graph(&dir, &name) {
                Err(_) => rt::probe(1),
                Ok(_) => violate!("accepted", "graph-only reload of a truncated dump succeeded"),
            }
            if let Ok(d) = load_head(&dir, &name) {
                if d != head_of::<T>(&s0) {
                    violate!("description-differs", "load_description of a truncated graph file gives {d:?}, the dumped index was {:?}", head_of::<T>(&s0));
                }
            }
            // the map reads only the header of the graph file
            map_must = !graph;
            if graph {
                if let Ok(m) = load_map::<T>(&dir, &name) {
                    if m != map_of(&s0) {
                        violate!("map-differs", "DataMap over an intact data file holds other vectors");
                    }
                }
            }
        }
    }
    if (b.flavor == 3 || b.flavor == 4 || b.flavor >= 5) && map_must {
        match load_map::<T>(&dir, &name) {
            Err(_) => rt::probe(1),
            Ok(m) => violate!("accepted", "DataMap succeeded with {} vectors", m.len()),
        }
    }
    // the refusals left nothing behind that would disturb a valid reload
    if b.flavor <= 2 {
        let l: Loaded<T> = must_load(&dir, "dump", how, "valid dump after refusals");
        expect_same("valid dump after refusals", &s0, &snap(l.ix()), true);
    }
}

// C22
fn clock<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    rt::io_arm(true);
    let h: Ix<T> = if b.again && b.a.thr.len() > 1 {
        // concurrent batches instead of concurrent single insertions
        let h: Ix<T> = build(&Bld { thr: vec![], ..b.a.clone() }, b.span);
        std::thread::scope(|s| {
            let js: Vec<_> = b.a.thr.iter().map(|ps| s.spawn(|| put_batch(&h, ps, b.span))).collect();
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("inserting thread");
                }
            }
        });
        h
    } else {
        build(&b.a, b.span)
    };
    let all = pts(&b.a);
    let by = table::<T>(&all, b.span);
    for q in queries::<T>(&all, b.span, 2) {
        sound("search under clock jumps", &h, &by, &q, 3, 8);
        let r = guard("parallel_search", || h.parallel_search(&[q.clone(), q.clone()], 3, 8));
        if r.len() != 2 {
            violate!("batch-length", "2 requests, {} answers", r.len());
        }
    }
    let s0 = snap(&h);
    check_grown::<T>("build under clock jumps", &s0, &all, b.a.m, b.span);
    let n = must_dump(&h, &dir, "dump");
    for how in all_hows(b) {
        let l: Loaded<T> = must_load(&dir, &n, how, "reload under clock jumps");
        expect_same("reload under clock jumps", &s0, &snap(l.ix()), true);
        let by = table::<T>(&all.iter().chain(b.grow.iter().flatten().flatten()).cloned().collect::<Vec<_>>(), b.span);
        for g in &b.grow {
            for ps in g {
                if b.again {
                    put_batch(l.ix(), ps, b.span);
                } else {
                    put_all(l.ix(), &[ps.clone()], b.span);
                }
            }
        }
        for q in queries::<T>(&all, b.span, 2) {
            sound("search of a grown index under clock jumps", l.ix(), &by, &q, 3, 8);
            let f = |i: &usize| i % 2 == 0;
            if guard("search_filter", || l.ix().search_filter(&q, 3, 8, Some(&f))).iter().any(|n| n.d_id % 2 == 1) {
                violate!("filter", "search_filter returned a rejected id under clock jumps");
            }
        }
        guard("flatten", || FlatNeighborhood::from(l.ix()));
    }
    match load_graph(&dir, &n) {
        Ok(s) => expect_same("graph-only reload under clock jumps", &s0, &s, false),
        Err(e) => violate!("reload-failed", "graph-only reload under clock jumps: {e}"),
    }
    match load_map::<T>(&dir, &n) {
        Ok(m) if m == map_of(&s0) => {}
        _ => violate!("map-differs", "DataMap under clock jumps"),
    }
    guard("drop under clock jumps", || drop(h));
    rt::io_arm(false);
    if rt::shared().clock_jumps > 0 {
        rt::probe(1);
    }
}

// C25
fn live<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&Bld { thr: vec![], pre: if b.again { vec![] } else { b.a.pre.clone() }, ..b.a.clone() }, b.span);
    let mut ins: Vec<Vec<P>> = b.grow.iter().flatten().cloned().collect();
    let all: Vec<P> = b.a.pre.iter().chain(ins.iter().flatten()).cloned().collect();
    if b.again {
        ins.push(b.a.pre.clone());
    }
    let by = table::<T>(&all, b.span);
    let acked: Mutex<HashSet<usize>> = Mutex::new(if b.again { HashSet::new() } else { b.a.pre.iter().map(|p| p.0).collect() });
    let started: Mutex<HashSet<usize>> = Mutex::new(acked.lock().unwrap().clone());
    type Taken = (String, HashSet<usize>, HashSet<usize>);
    let dumps: Mutex<Vec<Taken>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        let mut js = vec![];
        let (h, acked, started, dumps, dir, all) = (&h, &acked, &started, &dumps, &dir, &all);
        for ps in ins.iter() {
            js.push(s.spawn(move || {
                // one by one, or in batches
                if b.flavor & 1 == 1 {
                    for c in ps.chunks(3) {
                        rt::quiet(|| started.lock().unwrap().extend(c.iter().map(|p| p.0)));
                        put_batch(h, c, b.span);
                        rt::quiet(|| acked.lock().unwrap().extend(c.iter().map(|p| p.0)));
                    }
                } else {
                    for p in ps {
                        rt::quiet(|| started.lock().unwrap().insert(p.0));
                        put(h, p, b.span);
                        rt::quiet(|| acked.lock().unwrap().insert(p.0));
                    }
                }
            }));
        }
        for d in 0..b.dumpers.max(1) {
            js.push(s.spawn(move || {
                for i in 0..1 + (b.cut[0] as usize >> d) % 3 {
                    let before = rt::quiet(|| acked.lock().unwrap().clone());
                    let r = dump(h, dir, &format!("d{d}{i}"));
                    let after = rt::quiet(|| started.lock().unwrap().clone());
                    match r {
                        Ok(n) => rt::quiet(|| dumps.lock().unwrap().push((n, before, after))),
                        Err(_) if before.is_empty() => rt::probe(4),
                        Err(e) => violate!("dump-failed", "a dump during insertions failed although the index held points: {e}"),
                    }
                }
            }));
        }
        js.extend(searchers(s, h, if b.again { 0 } else { b.searchers }, all, b.span));
        for j in js {
            if j.join().is_err() {
                crate::engine::panic_violation("dumping, inserting or searching thread");
            }
        }
    });
    check_grown::<T>("after the insertions", &snap(&h), &all, b.a.m, b.span);
    let end = acked.into_inner().unwrap();
    for (n, must, may) in dumps.into_inner().unwrap() {
        if must.len() < end.len() {
            rt::probe(1);
        }
        let mut first: Option<Snap> = None;
        for how in all_hows(b) {
            let l: Loaded<T> = must_load(&dir, &n, how, "a dump taken while points were inserted");
            let s = snap(l.ix());
            {
                let _q = rt::Quiet::new();
                let ids: Vec<usize> = s.layers.iter().flatten().map(|p| p.id).collect();
                let set: HashSet<usize> = ids.iter().copied().collect();
                if let Some(i) = must.iter().find(|i| !set.contains(i)) {
                    violate!("point-lost", "id {i}, inserted before the dump {n} began, is not in it");
                }
                if let Some(i) = set.iter().find(|i| !may.contains(i)) {
                    violate!("point-unknown", "id {i} is in the dump {n} but its insertion began after it");
                }
                if set.len() < may.len() {
                    rt::probe(2);
                }
                let here: Vec<P> = all.iter().filter(|p| set.contains(&p.0)).cloned().collect();
                let mut t = s.clone();
                // the point that opens a new layer may be unfinished, and then it is not yet the entry point
                t.top = t.layers.iter().rposition(|l| !l.is_empty()).unwrap_or(0) as u8;
                if s.top > t.top {
                    violate!("top-level", "dump {n}: top layer {} but the highest occupied layer is {}", s.top, t.top);
                }
                check_grown::<T>(&format!("dump {n} taken while points were inserted"), &t, &here, b.a.m, b.span);
                if let Some(f) = &first {
                    expect_same("two reloads of one dump", f, &s, true);
                }
            }
            let exact = s.n <= b.a.m && s.layers[1..].iter().all(|l| l.is_empty());
            for q in queries::<T>(&all, b.span, 3) {
                if s.n > 0 {
                    sound("reloaded dump", l.ix(), &by, &q, 3, 8);
                }
                if exact && s.n > 0 {
                    // nothing inserted before the dump is missing in favour of a farther point
                    rt::probe(3);
                    let k = must.len().clamp(1, 3);
                    let a = ask(l.ix(), &q, k, s.n + 2);
                    let _q = rt::Quiet::new();
                    let ids: HashSet<usize> = a.iter().map(|x| x.0).collect();
                    let worst = if a.len() < k { f32::INFINITY } else { f32::from_bits(a[a.len() - 1].1) };
                    if let Some(i) = must.iter().find(|i| !ids.contains(i) && gdist(&q, &by[i]) < worst) {
                        violate!("not-exact", "reloaded dump {n}: id {i} at {} is missing from {a:?}", gdist(&q, &by[i]));
                    }
                }
            }
            // it can be grown
            let ids: HashSet<usize> = s.layers.iter().flatten().map(|p| p.id).collect();
            for p in all.iter().filter(|p| !ids.contains(&p.0)) {
                put(l.ix(), p, b.span);
            }
            let g = snap(l.ix());
            check_grown::<T>("grown reload of a dump", &Snap { top: g.layers.iter().rposition(|l| !l.is_empty()).unwrap_or(0) as u8, ..g.clone() }, &all, b.a.m, b.span);
            first = Some(s);
        }
        match load_graph(&dir, &n) {
            Ok(s) => expect_same("graph-only reload of a dump taken during insertions", first.as_ref().unwrap(), &s, false),
            Err(e) => violate!("reload-failed", "graph-only reload of a dump taken during insertions: {e}"),
        }
        match load_map::<T>(&dir, &n) {
            Ok(m) if m == map_of(first.as_ref().unwrap()) => {}
            x => violate!("map-differs", "DataMap on a dump taken during insertions: {:?}", x.map(|v| v.len())),
        }
    }
    guard("drop", || drop(h));
}

// C26
/// rewrite a dump into what releases before 0.1.20 (format 2) or 0.3 (format 3) wrote
fn downgrade<T: Elem>(dir: &Path, from: &str, to: &str, version: u32, s: &Snap) {
    let _q = rt::Quiet::new();
    let mut g = std::fs::read(gpath(dir, from)).unwrap();
    let d = std::fs::read(dpath(dir, from)).unwrap();
    // magic (4), mode (1), M (1), level scale (8, since format 4)
    g[..4].copy_from_slice(&(if version == 2 { 0x002a677fu32 } else { 0x002a6771 }).to_ne_bytes());
    g.drain(6..14);
    std::fs::write(gpath(dir, to), g).unwrap();
    let d = if version == 3 {
        d
    } else {
        // every vector in the encoding of bincode: number of elements, elements
        let mut o = d[..12].to_vec();
        for p in s.layers.iter().flatten() {
            o.extend_from_slice(&d[..4]);
            o.extend_from_slice(&(p.id as u64).to_ne_bytes());
            o.extend_from_slice(&(8 + p.bytes.len() as u64).to_ne_bytes());
            o.extend_from_slice(&((p.bytes.len() / std::mem::size_of::<T>()) as u64).to_le_bytes());
            o.extend_from_slice(&p.bytes);
        }
        o
    };
    std::fs::write(dpath(dir, to), d).unwrap();
}
fn old<T: Elem>(b: &Io) {
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let mut s0 = snap(&h);
    let version = if b.flavor & 1 == 1 { 2 } else { 3 };
    rt::probe(if version == 2 { 1 } else { 2 });
    must_dump(&h, &dir, "new");
    downgrade::<T>(&dir, "new", "old", version, &s0);
    // these formats do not have the scale, it was always the default
    s0.scale = 1. / (b.a.m as f64).ln();
    let before = files(&dir);
    let how = How { mmap: b.mmap, thr: b.thr, dist: b.dist };
    let mut l: Loaded<T> = Loaded::open(&dir, "old", how);
    rt::io_arm(true);
    let r = l.load(how);
    rt::io_arm(false);
    match r {
        Ok(()) => expect_same("reload of an old dump under faults", &s0, &snap(l.ix()), true),
        Err(e) => {
            rt::probe(3);
            if !hard_fault_but("mmap") {
                violate!("reload-failed", "reload of a dump of format {version} failed although the only faults were interruptions, short reads or a refused mapping: {e}");
            }
        }
    }
    drop(l);
    for how in all_hows(b).into_iter().chain([How { mmap: true, thr: 0, dist: false }]) {
        let l: Loaded<T> = must_load(&dir, "old", how, "dump of an old format");
        let s1 = snap(l.ix());
        expect_same(&format!("reload {how:?} of a dump of format {version}"), &s0, &s1, true);
        same_answers("reloaded old index", &h, l.ix(), &s0, &s1, &pts(&b.a), b.span);
    }
    match load_graph(&dir, "old") {
        Ok(s) => expect_same("graph-only reload of an old dump", &s0, &s, false),
        Err(e) => violate!("reload-failed", "graph-only reload of a dump of format {version}: {e}"),
    }
    match load_map::<T>(&dir, "old") {
        Ok(m) if version == 3 && m == map_of(&s0) => {}
        Err(_) if version == 2 => {}
        x => violate!("map-differs", "DataMap on a dump of format {version}: {:?}", x.map(|v| v.len())),
    }
    if files(&dir) != before {
        violate!("files-changed", "a reload modified the dump");
    }
    // it goes on like any other index
    let l: Loaded<T> = must_load(&dir, "old", how, "dump of an old format");
    let mut all = pts(&b.a);
    for g in &b.grow {
        put_all(l.ix(), g, b.span);
        all.extend(g.iter().flatten().cloned());
    }
    let s = snap(l.ix());
    check_grown::<T>("grown old index", &s, &all, b.a.m, b.span);
    let n = must_dump(l.ix(), &dir, "old");
    let back: Loaded<T> = must_load(&dir, &n, How { mmap: b.again, thr: 0, dist: b.dist }, "new dump of an old index");
    expect_same("new dump of an old index", &s, &snap(back.ix()), true);
    rt::probe(4);
    drop((l, back));
    guard("drop", || drop(h));
}

// C27
pub const NAMES: [&str; 9] = ["d", "d-1", "e", "d.hnsw", "d.hnsw.graph", "nobody", "nowhere/d", "sub/d", "d "];
const FOREIGN: [&str; 14] = [
    "d.hnsw", "d.graph", "d.data", "d.hnsw.graph.tmp", "d.hnsw.data~", ".d.hnsw.graph", "d-1.hnsw.data", "d-2.hnsw.graph", "e.hnsw.graph", "dd.hnsw.graph", "tmp", "notes.txt", "sub/d.hnsw.graph", "sub/x.hnsw.data",
];
/// every file and directory under `dir`
fn tree(dir: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn walk(d: &Path, pre: &str, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).expect("list scratch").flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                walk(&e.path(), &format!("{n}/"), m);
                m.insert(n, None);
            } else {
                m.insert(n, Some(std::fs::read(e.path()).expect("read scratch")));
            }
        }
    }
    rt::quiet(|| {
        let mut m = BTreeMap::new();
        walk(dir, "", &mut m);
        m
    })
}
fn place(dir: &Path, name: &str) -> (PathBuf, String) {
    match name.rsplit_once('/') {
        Some((d, n)) => (dir.join(d), n.to_string()),
        None => (dir.to_path_buf(), name.to_string()),
    }
}
/// what one operation of a phase did
enum Did<T: Elem> {
    Dump { mapped: bool, name: usize, r: Result<String, String> },
    Load(Result<Loaded<T>, String>),
    Graph(Result<Snap, String>),
    Map(Result<Vec<(usize, Vec<u8>)>, String>),
    /// accepted?
    Other(bool),
}
fn tidy<T: Elem, U: Elem>(b: &Io) {
    let root = PathBuf::from(rt::bstr(&rt::shared().scratch));
    let dir = base_dir(b.rel);
    let h: Ix<T> = build(&b.a, b.span);
    let s0 = snap(&h);
    rt::disk_budget(-1);
    must_dump(&h, &dir, "d");
    let mut valid: HashSet<usize> = [0].into();
    rt::quiet(|| {
        std::fs::create_dir(dir.join("sub")).unwrap();
        std::fs::create_dir(dir.join("d-2.hnsw.data")).unwrap();
        let img = std::fs::read(gpath(&dir, "d")).unwrap();
        for (i, f) in FOREIGN.iter().enumerate() {
            if b.flavor >> i & 1 == 1 {
                let cut = img.len() * (i * 37 % 101) / 100;
                std::fs::write(dir.join(f), if i % 3 == 0 { f.as_bytes() } else { &img[..cut] }).unwrap();
            }
        }
    });
    if b.again {
        must_dump(&h, &dir, "e");
        valid.insert(2);
    }
    let m: Loaded<T> = must_load(&dir, "d", How { mmap: true, thr: 0, dist: false }, "mapped reload");
    let dumps = |o: u32| o < 2;
    rt::disk_budget(rt::shared().disk_budget);
    for phase in &b.ops {
        // a name is written by one operation of a phase at most, and read only when none writes it;
        // the dump that is mapped is never overwritten
        let mut written: HashSet<usize> = HashSet::new();
        let mut todo: Vec<(u32, usize)> = vec![];
        for &(o, n) in phase {
            if dumps(o) && !(o == 0 && n == 0) && written.insert(n) {
                todo.push((o, n));
            }
        }
        for &(o, n) in phase {
            if !dumps(o) && !written.contains(&n) {
                todo.push((o, n));
            }
        }
        let before = tree(&root);
        let out: Mutex<Vec<(u32, usize, Did<T>)>> = Mutex::new(vec![]);
        rt::io_arm(true);
        std::thread::scope(|s| {
            let js: Vec<_> = todo
                .iter()
                .map(|&(o, n)| {
                    let (h, m, out, dir) = (&h, &m, &out, &dir);
                    s.spawn(move || {
                        let (d, name) = place(dir, NAMES[n]);
                        let how = How { mmap: o == 4 || o == 7, thr: if o == 7 { b.thr } else { 0 }, dist: o == 3 };
                        let did: Did<T> = match o {
                            0 => Did::Dump { mapped: false, name: n, r: dump(h, &d, &name) },
                            1 => Did::Dump { mapped: true, name: n, r: dump(m.ix(), &d, &name) },
                            2 | 3 | 4 | 7 => Did::Load(load(&d, &name, how)),
                            5 => Did::Graph(load_graph(&d, &name)),
                            6 => Did::Map(load_map::<T>(&d, &name)),
                            8 => Did::Other(load::<U>(&d, &name, how).is_ok()),
                            9 => Did::Other(load_map::<U>(&d, &name).is_ok()),
                            10 => {
                                let mut io = HnswIo::new(&d, &name);
                                Did::Other(other::<T, GDist2>(&mut io, b.dist).is_ok())
                            }
                            _ => {
                                let f = gpath(&d, &name).to_string_lossy().into_owned();
                                rt::label("load_hnsw_description");
                                let x = guard("load_hnsw_description", || unsafe { hnsw_rs::libext::load_hnsw_description(f.len(), f.as_ptr()) });
                                if !x.is_null() {
                                    drop(unsafe { Box::from_raw(x as *mut hnsw_rs::libext::DescriptionFFI) });
                                }
                                Did::Other(false)
                            }
                        };
                        rt::quiet(|| out.lock().unwrap().push((o, n, did)));
                    })
                })
                .collect();
            for j in js {
                if j.join().is_err() {
                    crate::engine::panic_violation("dumping or reading thread");
                }
            }
        });
        rt::io_arm(false);
        let after = tree(&root);
        let pre = if b.rel { "sub/" } else { "" };
        let gd = |n: &str| [format!("{pre}{n}.hnsw.graph"), format!("{pre}{n}.hnsw.data")];
        let mut may_change: HashSet<String> = HashSet::new();
        let mut may_appear: Vec<String> = vec![];
        for (o, n, did) in out.lock().unwrap().iter() {
            match did {
                Did::Dump { mapped, name, r } => {
                    rt::probe(1);
                    let full = NAMES[*name];
                    let parent = full.rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
                    if !mapped {
                        may_change.extend(gd(full));
                    }
                    match r {
                        Ok(got) => {
                            if *name == 6 {
                                violate!("dump-impossible", "a dump into a directory that does not exist reports success");
                            }
                            let got = format!("{parent}{got}");
                            if !mapped && got != full {
                                violate!("name-changed", "a dump under {full} reports {got}");
                            }
                            for f in gd(&got) {
                                if *mapped && before.contains_key(&f) {
                                    violate!("clobbered", "a dump of a mapped index reports the name {got} of existing files");
                                }
                                if !matches!(after.get(&f), Some(Some(_))) {
                                    violate!("file-missing", "a dump reports success under {got} but there is no file {f}");
                                }
                                may_change.insert(f);
                            }
                            if let Some(i) = NAMES.iter().position(|x| *x == got) {
                                valid.insert(i);
                            }
                        }
                        Err(e) => {
                            rt::probe(4);
                            if !mapped {
                                valid.remove(name);
                            }
                            let occupied = |f: &String| matches!(before.get(f), Some(None));
                            if !hard_fault() && *name != 6 && !(!mapped && gd(full).iter().any(occupied)) {
                                violate!("dump-failed", "dump under {full} failed although nothing prevented it: {e}");
                            }
                        }
                    }
                    // a name that was given up again may stay reserved when the file cannot be removed
                    if *mapped && hard_fault() {
                        may_appear.push(format!("{pre}{full}"));
                    }
                }
                _ => {
                    let good = valid.contains(n);
                    let hard = hard_fault_but_any(&["write", "write-open", "mmap", "sync", "rename"]) || matches!(did, Did::Map(_)) && hard_fault_but_any(&["write", "write-open", "sync", "rename"]);
                    let e = match did {
                        Did::Load(Ok(l)) => {
                            if good {
                                expect_same("reload next to other operations", &s0, &snap(l.ix()), true);
                            }
                            None
                        }
                        Did::Graph(Ok(s)) => {
                            if good {
                                expect_same("graph-only reload next to other operations", &s0, s, false);
                            }
                            None
                        }
                        Did::Map(Ok(v)) => {
                            if good && *v != map_of(&s0) {
                                violate!("map-differs", "a data map opened next to other operations differs from the dump");
                            }
                            None
                        }
                        Did::Other(ok) => {
                            if *ok {
                                violate!("accepted", "a reload with another type or distance (operation {o}) was accepted");
                            }
                            None
                        }
                        Did::Load(Err(e)) | Did::Graph(Err(e)) | Did::Map(Err(e)) => Some(e),
                        Did::Dump { .. } => None,
                    };
                    rt::probe(if e.is_some() { 3 } else { 2 });
                    if rt::shared().fault[..rt::shared().nfault as usize].iter().any(|f| f.persistent > 0 && rt::IOCLS[f.cls as usize] == "write-open") {
                        rt::probe(5);
                    }
                    if let (Some(e), true, false) = (e, good, hard) {
                        violate!("reload-failed", "operation {o} on {} failed although no read failed: {e}", NAMES[*n]);
                    }
                }
            }
        }
        for (n, c) in &before {
            match after.get(n) {
                Some(x) if x == c => {}
                Some(Some(_)) if c.is_some() && may_change.contains(n) => {}
                Some(_) => violate!("file-changed", "operations {todo:?}: {n} changed, which is not a file of a dump they made"),
                None => violate!("file-removed", "operations {todo:?}: {n} disappeared"),
            }
        }
        for (n, c) in &after {
            let reserved = |p: &String| n.starts_with(p.as_str()) && (n.ends_with(".hnsw.graph") || n.ends_with(".hnsw.data"));
            if !before.contains_key(n) && !(c.is_some() && (may_change.contains(n) || may_appear.iter().any(reserved))) {
                violate!("file-left", "operations {todo:?}: {n} appeared, which is not a file of a dump they made");
            }
        }
        if rt::shared().elsewhere > 0 {
            violate!("writes-elsewhere", "operations {todo:?} opened a file for writing outside the given directory");
        }
    }
    expect_same("index after the operations", &s0, &snap(&h), true);
    expect_same("mapped index after the operations", &s0, &snap(m.ix()), true);
    for n in valid {
        let (d, name) = place(&dir, NAMES[n]);
        let l: Loaded<T> = must_load(&d, &name, How { mmap: b.mmap, thr: 0, dist: b.dist }, "dump at the end");
        expect_same("dump at the end", &s0, &snap(l.ix()), true);
    }
    drop(m);
    guard("drop", || drop(h));
}

// ------------------------------------------------------------------------------------------- generation
pub fn fault(class: &str, action: &str, nth: u64, arg: i64) -> Fault {
    Fault { class: class.into(), action: action.into(), nth, arg, persistent: false }
}
impl Prop for IoProp {
    fn id(&self) -> &'static str {
        self.id
    }
    fn gen(&self, r: &mut Rng, tier: Tier, c: &mut Case) {
        let k = self.kind;
        let mut g = IoGen::new(r);
        let ty = r.pick(&["f32", "f32", "u8", "u16", "u64", "pair", "pair-duo", "pair-alt"]).to_string();
        let ty = if r.chance(1, 16) { r.pick(&["name2", "name9", "name17", "name68"]).to_string() } else { ty };
        let var = r.chance(1, 4);
        let big = r.chance(1, 3);
        let ls = lens(r, var, big);
        // now and then vectors of unusual lengths, or many points
        let wide = r.chance(1, 25);
        let many = !wide && r.chance(1, 20);
        let ls = if wide { (0..r.range(1, 2)).map(|_| r.pick(&[128u32, 255, 256, 257, 300, 1025, 5000, 32768, 65535, 65536, 70000])).collect() } else { ls };
        let nmax = if tier == Tier::Thorough && r.chance(1, 5) { 90 } else if big { 12 } else { 28 };
        let n = if wide { r.range(1, 4) } else if many { r.range(40, 300) } else if r.chance(1, 5) { r.range(1, 3) } else { r.range(1, nmax) };
        let ls = if many { ls.iter().map(|l| (*l).min(20)).collect() } else { ls };
        let mut b = Io { ty, span: r.pick(&[3u64, 20, 200]), a: g.bld(r, n, &ls), ..Default::default() };
        if many && r.chance(1, 6) {
            // long neighbour lists
            b.a.m = r.pick(&[130usize, 199]);
            b.a.efc = 300;
            c.max_steps = 60_000_000;
        }
        b.rel = r.chance(1, 6);
        b.late = r.chance(1, 6);
        b.mmap = r.chance(1, 2);
        b.thr = if r.chance(1, 2) { 0 } else { r.range(1, n + 2) };
        b.dist = r.chance(1, 2);
        b.again = r.chance(1, 2);
        b.searchers = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
        let ops = dump_bytes(&b.ty, &b.a) / 8192 + 4;
        let small = |g: &mut IoGen, r: &mut Rng, ls: &[u32]| {
            let n = r.range(1, 8);
            g.bld(r, n, ls)
        };
        match k {
            Kind::Round => {
                b.dumpers = if r.chance(1, 3) { r.range(2, 3) } else { 1 };
                if r.chance(1, 4) {
                    b.name = r.pick(&["a.b.c", "dump.hnsw", "dump.hnsw.graph", "dump.hnsw.data", "with space", "\u{e9}t\u{e9} \u{7d22}\u{5f15}", "-x", "0", ".hidden", "LONG", "a\tb\n", "tmp", "hnsw"]).replace("LONG", &"n".repeat(r.range(100, 240)));
                }
                if r.chance(1, 12) {
                    b.named = r.range(1, 4) as u32;
                }
                if b.again {
                    let m = r.range(1, 40);
                    b.b = g.bld(r, m, &ls);
                }
            }
            Kind::Disk => {
                b.b = small(&mut g, r, &ls);
                b.flavor = if r.chance(1, 12) { r.range(1, 3) as u32 } else { 0 };
                let io_bytes = dump_bytes(&b.ty, &b.a);
                if b.flavor == 0 {
                    for _ in 0..r.pick(&[1usize, 1, 1, 2, 3]) {
                        match r.below(20) {
                            0..=4 => c.faults.push(fault("write", "errno", 1 + r.below(ops), r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EIO]) as i64)),
                            5 => { let mut f = fault("write", "errno", 1 + r.below(ops), libc::EIO as i64); f.persistent = true; c.faults.push(f) }
                            6..=8 => c.faults.push(fault("write", "short", 1 + r.below(ops), 1 + r.below(8000) as i64)),
                            9 => c.faults.push(fault("write", "errno", 1 + r.below(ops), libc::EINTR as i64)),
                            10..=12 => c.faults.push(fault("open", "errno", 1 + r.below(3), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::ENOENT, libc::EINTR]) as i64)),
                            13 => c.faults.push(fault("stat", "errno", 1, r.pick(&[libc::EIO, libc::EACCES]) as i64)),
                            14 => c.faults.push(fault("sync", "errno", 1 + r.below(2), libc::EIO as i64)),
                            15 => c.faults.push(fault("rename", "errno", 1 + r.below(2), libc::EIO as i64)),
                            _ => c.disk_budget = r.below(io_bytes) as i64,
                        }
                    }
                }
            }
            Kind::Crash => {
                if b.again {
                    let m = r.range(1, 40);
                    b.b = g.bld(r, m, &ls);
                }
                b.searchers = 0;
                b.flavor = r.chance(1, 2) as u32;
                if b.flavor == 0 || r.chance(1, 2) {
                    match r.below(8) {
                        0 => c.faults.push(fault("open", "crash", 1 + r.below(3), 0)),
                        1 => c.faults.push(fault("rename", "crash", 1 + r.below(2), 0)),
                        _ => c.faults.push(fault("write", "crash", 1 + r.below(ops), r.pick(&[0i64, 1, 4000, 1 << 30]).min(r.below(9000) as i64))),
                    }
                }
                let cut = |r: &mut Rng| r.pick(&[1_000_000u64, 999_999, 0, 500_000]).min(r.below(1_000_001) + r.pick(&[0u64, 1_000_000]));
                b.cut = [cut(r), cut(r)];
            }
            Kind::Reload => {
                b.flavor = r.chance(1, 4) as u32;
                for _ in 0..r.pick(&[1usize, 1, 1, 2, 3]) {
                    c.faults.push(match r.below(16) {
                        0..=3 => fault("read", "errno", 1 + r.below(ops + 2), r.pick(&[libc::EIO, libc::EACCES]) as i64),
                        4..=6 => fault("read", "short", 1 + r.below(ops + 2), 1 + r.below(8000) as i64),
                        7 => fault("read", "errno", 1 + r.below(ops + 2), libc::EINTR as i64),
                        8..=10 => fault("open", "errno", 1 + r.below(4), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EINTR]) as i64),
                        11..=12 => fault("mmap", "errno", 1, r.pick(&[libc::ENOMEM, libc::EACCES]) as i64),
                        13 => fault("stat", "errno", 1 + r.below(2), r.pick(&[libc::EIO, libc::EACCES]) as i64),
                        14 => fault("seek", "errno", 1, libc::EIO as i64),
                        _ => { let mut f = fault("read", "errno", 1 + r.below(ops + 2), libc::EIO as i64); f.persistent = true; f }
                    });
                }
            }
            Kind::NoClobber => {
                b.flavor = r.below(8) as u32 | (r.below(16) as u32) << 3;
                b.dumpers = r.range(1, 4);
                if r.chance(1, 150) {
                    b.flavor |= 256 | (r.below(2) as u32) << 9;
                    c.max_steps = 2_000_000;
                }
                if b.again {
                    b.b = small(&mut g, r, &ls);
                }
                if r.chance(1, 2) {
                    b.grow = (0..2).map(|_| (0..2).map(|_| (0..r.range(1, 3)).map(|_| { let l = r.pick(&ls); g.pt(r, l) }).collect()).collect()).collect();
                }
                c.entropy_same = r.chance(2, 3);
                if r.chance(1, 3) {
                    c.faults.push(match r.below(4) {
                        0 => fault("open", "errno", 1 + r.below(8), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT]) as i64),
                        1 => fault("write", "errno", 1 + r.below(ops), libc::ENOSPC as i64),
                        _ => fault("stat", "errno", 1 + r.below(4), r.pick(&[libc::EIO, libc::EACCES]) as i64),
                    });
                }
            }
            Kind::Mapped => {
                b.mmap = true;
                b.dumpers = r.range(1, 3);
            }
            Kind::Live => {
                let n = if r.chance(1, 2) { r.range(1, 6) } else { n.min(40) };
                let ls = if wide { vec![3] } else { ls.clone() };
                b.a = g.bld(r, n, &ls);
                b.a.pre = pts(&b.a);
                b.a.thr = vec![];
                b.again = r.chance(1, 6);
                if r.chance(1, 2) {
                    b.a.m = 24;
                    b.a.scale = 200;
                }
                b.grow = vec![(0..r.range(1, 3)).map(|_| (0..r.range(1, 7)).map(|_| { let l = r.pick(&ls); g.pt(r, l) }).collect()).collect()];
                b.dumpers = r.pick(&[1usize, 1, 2]);
                b.flavor = r.chance(1, 4) as u32;
                b.cut[0] = r.below(16);
            }
            Kind::Old => {
                b.flavor = r.below(2) as u32;
                b.grow = (0..r.range(0, 2)).map(|_| (0..r.range(1, 2)).map(|_| (0..r.range(1, 4)).map(|_| { let l = r.pick(&ls); g.pt(r, l) }).collect()).collect()).collect();
                if r.chance(1, 2) {
                    c.faults.push(match r.below(8) {
                        0 | 1 => fault("read", "errno", 1 + r.below(ops + 2), r.pick(&[libc::EIO, libc::EINTR]) as i64),
                        2..=4 => fault("read", "short", 1 + r.below(ops + 2), 1 + r.below(8000) as i64),
                        5 => fault("open", "errno", 1 + r.below(4), r.pick(&[libc::EACCES, libc::EINTR]) as i64),
                        6 => fault("mmap", "errno", 1, libc::ENOMEM as i64),
                        _ => fault("stat", "errno", 1, libc::EIO as i64),
                    });
                }
            }
            Kind::Tidy => {
                let n = r.range(1, 20);
                let ls = if wide { vec![300] } else { ls.clone() };
                b.a = g.bld(r, n, &ls);
                b.flavor = (r.next() >> 20) as u32 & if r.chance(1, 2) { 0x3fff } else { (r.next() >> 20) as u32 & 0x3fff };
                for _ in 0..r.range(1, 4) {
                    b.ops.push((0..r.range(1, 4)).map(|_| (if r.chance(1, 3) { r.below(2) as u32 } else { r.below(12) as u32 }, if r.chance(1, 3) { 0 } else { r.below(NAMES.len() as u64) as usize })).collect());
                }
                let ops = dump_bytes(&b.ty, &b.a) / 8192 + 4;
                match r.below(8) {
                    0 | 1 => { let mut f = fault("write-open", "errno", 1, r.pick(&[libc::EROFS, libc::EACCES]) as i64); f.persistent = true; c.faults.push(f) }
                    2 => c.disk_budget = r.below(3 * dump_bytes(&b.ty, &b.a)) as i64,
                    3 => {}
                    _ => for _ in 0..r.range(1, 3) {
                        c.faults.push(match r.below(8) {
                            0 => fault("read", "errno", 1 + r.below(2 * ops + 2), r.pick(&[libc::EIO, libc::EINTR]) as i64),
                            1 => fault("read", "short", 1 + r.below(2 * ops + 2), 1 + r.below(8000) as i64),
                            2 => fault("open", "errno", 1 + r.below(8), r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOENT, libc::EINTR]) as i64),
                            3 => fault("mmap", "errno", 1, libc::ENOMEM as i64),
                            4 => fault("stat", "errno", 1 + r.below(4), libc::EIO as i64),
                            5 => fault("write-open", "errno", 1 + r.below(4), r.pick(&[libc::EROFS, libc::ENOSPC]) as i64),
                            6 => fault("rename", "errno", 1 + r.below(2), libc::EIO as i64),
                            _ => fault("write", "errno", 1 + r.below(2 * ops), r.pick(&[libc::ENOSPC, libc::EIO]) as i64),
                        });
                    },
                }
            }
            Kind::Grow => {
                if r.chance(1, 3) {
                    let n = r.range(1, 12);
                    b.a = g.bld(r, n, &ls);
                    b.a.m = 24;
                }
                b.grow = (0..r.range(1, 3)).map(|_| (0..r.range(1, 3)).map(|_| (0..r.range(1, 5)).map(|_| { let l = r.pick(&ls); g.pt(r, l) }).collect()).collect()).collect();
            }
            Kind::Mismatch => {
                b.flavor = r.pick(&[0u32, 1, 2, 3, 4, 5, 5, 5]);
                b.cut = [r.below(1 << 30), r.below(1 << 30)];
                if b.flavor == 1 && r.chance(1, 3) {
                    b.named = r.range(1, 4) as u32;
                }
                if b.flavor == 2 {
                    let m = if r.chance(1, 2) { n } else { r.range(1, 20) };
                    b.b = g.bld(r, m, &ls);
                    if r.chance(1, 3) {
                        // the same ids with vectors of another dimension, all layers alike when there are few points
                        let n = r.range(1, 4);
                        let la = r.range(1, 9) as u32;
                        b.a = g.bld(r, n, &[la]);
                        b.a.m = 24;
                        b.b = b.a.clone();
                        let lb = la + r.range(1, 5) as u32;
                        b.b.pre.iter_mut().chain(b.b.thr.iter_mut().flatten()).for_each(|p| p.2 = lb);
                        if r.chance(1, 2) {
                            std::mem::swap(&mut b.a, &mut b.b);
                        }
                    }
                }
            }
            Kind::Clock => {
                for _ in 0..r.range(1, 4) {
                    let hours = r.pick(&[1i64, 24, 24 * 365, 24 * 365 * 20, 0]);
                    let amount = hours * 3600 * 1_000_000_000 + r.below(2_000_000_000) as i64;
                    c.faults.push(fault("clock", "jump", 1 + r.below(16), if r.chance(3, 4) { -amount } else { amount }));
                }
                b.grow = vec![vec![(0..2).map(|_| { let l = r.pick(&ls); g.pt(r, l) }).collect()]];
            }
        }
        c.body = serde_json::to_value(&b).unwrap();
    }
    fn valid(&self, body: &Value) -> bool {
        let Ok(b) = serde_json::from_value::<Io>(body.clone()) else { return false };
        let need_b = match self.kind {
            Kind::Disk => true,
            Kind::Mismatch => b.flavor == 2,
            Kind::Round | Kind::Crash | Kind::NoClobber => b.again,
            _ => false,
        };
        let okb = |x: &Bld| x.m >= 1 && x.m < 200 && x.efc >= 1 && x.scale >= 200 && x.scale <= 1000 && !pts(x).is_empty();
        if !okb(&b.a) || (need_b && !okb(&b.b)) || b.span < 1 || b.span > 300 || b.dumpers > 6 || b.searchers > 4 || b.name.len() > 240 || b.name.contains('/') || b.named > 4 || b.ops.iter().flatten().any(|o| o.0 > 11 || o.1 >= NAMES.len()) {
            return false;
        }
        let mut all = pts(&b.a);
        all.extend(pts(&b.b));
        all.extend(b.grow.iter().flatten().flatten().cloned());
        let ids: HashSet<usize> = all.iter().map(|p| p.0).collect();
        let (pa, pb) = (pts(&b.a), pts(&b.b));
        let other_dim = self.kind == Kind::Mismatch && pa.len() == pb.len() && pa.iter().zip(&pb).all(|(x, y)| x.0 == y.0 && x.2 == pa[0].2 && y.2 == pb[0].2 && x.2 != y.2);
        if other_dim {
            let ids: HashSet<usize> = pa.iter().map(|p| p.0).collect();
            return ids.len() == pa.len() && pa.iter().chain(&pb).all(|p| p.2 >= 1);
        }
        if ids.len() != all.len() || all.iter().any(|p| p.2 < 1) {
            return false;
        }
        true
    }
    fn run(&self, c: &Case) {
        let b: Io = serde_json::from_value(c.body.clone()).expect("body");
        with_type(&b.ty.clone(), RunFn(self, &b, c));
    }
    fn budget(&self, tier: Tier) -> (u64, u64) {
        match tier {
            Tier::Quick => (self.runs, 300),
            Tier::Thorough => (self.runs * 40, 3600),
        }
    }
    fn rule(&self) -> String {
        self.rule.to_string()
    }
    fn probes(&self) -> Vec<&'static str> {
        self.probes.to_vec()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "after a crash each file holds a prefix of what was written to it, in the order of the writes; blocks are not reordered inside a file and directory operations are durable in order".into(),
            "seeded search samples schedules, faults and crash points, it does not enumerate them".into(),
            "interleavings are sequentially consistent".into(),
        ]
    }
}
