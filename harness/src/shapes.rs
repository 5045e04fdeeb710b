//! Keys and values of unusual types: zero-sized, small, large, over-aligned, owning memory.
use crate::alloc::{self, scope};
use crate::rng::{mix, Rng};
use crate::sched;
use crate::types::{reset, violation};
use crate::CaseOut;
use papaya::{Compute, HashMap, HashSet, Operation, ResizeMode};
use serde_json::json;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// Living instances of the types that count themselves.
static COUNTED: AtomicI64 = AtomicI64::new(0);
static ALIGN_CHECKS: AtomicU64 = AtomicU64::new(0);

/// A type of keys or values with `domain` distinguishable instances.
trait Shape: Clone + Eq + Hash + Debug + Send + Sync + 'static {
    const DOMAIN: u64;
    fn make(i: u64) -> Self;
    fn index(&self) -> u64;
}

macro_rules! int {
    ($($t:ty),*) => {$(impl Shape for $t {
        const DOMAIN: u64 = if std::mem::size_of::<$t>() == 1 { 256 } else { 1 << 16 };
        fn make(i: u64) -> $t { i as $t }
        fn index(&self) -> u64 { *self as u64 }
    })*};
}
int!(u8, u16, u32, u64, u128);

impl Shape for () {
    const DOMAIN: u64 = 1;
    fn make(_: u64) {}
    fn index(&self) -> u64 {
        0
    }
}
impl Shape for bool {
    const DOMAIN: u64 = 2;
    fn make(i: u64) -> bool {
        i == 1
    }
    fn index(&self) -> u64 {
        *self as u64
    }
}
impl Shape for [u8; 3] {
    const DOMAIN: u64 = 1 << 16;
    fn make(i: u64) -> [u8; 3] {
        [i as u8, (i >> 8) as u8, !(i as u8)]
    }
    fn index(&self) -> u64 {
        if self[2] != !self[0] {
            violation("TYPE", "an array of bytes changed".into());
        }
        self[0] as u64 | (self[1] as u64) << 8
    }
}
impl Shape for String {
    const DOMAIN: u64 = 1 << 16;
    fn make(i: u64) -> String {
        format!("{i}")
    }
    fn index(&self) -> u64 {
        self.parse().unwrap_or_else(|_| {
            violation("TYPE", "a string changed".into());
            0
        })
    }
}
impl Shape for Box<u8> {
    const DOMAIN: u64 = 256;
    fn make(i: u64) -> Box<u8> {
        Box::new(i as u8)
    }
    fn index(&self) -> u64 {
        **self as u64
    }
}
impl Shape for Option<Box<u16>> {
    const DOMAIN: u64 = 1 << 16;
    fn make(i: u64) -> Self {
        (i > 0).then(|| Box::new(i as u16))
    }
    fn index(&self) -> u64 {
        self.as_ref().map_or(0, |x| **x as u64)
    }
}
impl Shape for &'static str {
    const DOMAIN: u64 = 4;
    fn make(i: u64) -> &'static str {
        ["", "a", "bb", "a longer one"][i as usize]
    }
    fn index(&self) -> u64 {
        ["", "a", "bb", "a longer one"].iter().position(|x| x == self).unwrap() as u64
    }
}

/// Aligned to more than any allocator does by itself.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(64))]
struct Wide(u32);
impl Shape for Wide {
    const DOMAIN: u64 = 1 << 16;
    fn make(i: u64) -> Wide {
        Wide(i as u32)
    }
    fn index(&self) -> u64 {
        self.0 as u64
    }
}
/// A zero-sized type with a large alignment.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[repr(align(32))]
struct WideUnit;
impl Shape for WideUnit {
    const DOMAIN: u64 = 1;
    fn make(_: u64) -> WideUnit {
        WideUnit
    }
    fn index(&self) -> u64 {
        0
    }
}
/// Large.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Huge([u64; 300]);
impl Hash for Huge {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0[0])
    }
}
impl Shape for Huge {
    const DOMAIN: u64 = 1 << 16;
    fn make(i: u64) -> Huge {
        let mut a = [mix(i); 300];
        a[0] = i;
        Huge(a)
    }
    fn index(&self) -> u64 {
        if self.0[1..].iter().any(|x| *x != mix(self.0[0])) {
            violation("TYPE", "a large object changed".into());
        }
        self.0[0]
    }
}
/// Counts its instances, whatever its size.
#[derive(PartialEq, Eq, Hash, Debug)]
struct Count<T>(T);
impl<T: Clone> Clone for Count<T> {
    fn clone(&self) -> Self {
        COUNTED.fetch_add(1, Relaxed);
        Count(self.0.clone())
    }
}
impl<T> Drop for Count<T> {
    fn drop(&mut self) {
        COUNTED.fetch_sub(1, Relaxed);
    }
}
impl<T: Shape> Shape for Count<T> {
    const DOMAIN: u64 = T::DOMAIN;
    fn make(i: u64) -> Self {
        COUNTED.fetch_add(1, Relaxed);
        Count(T::make(i))
    }
    fn index(&self) -> u64 {
        self.0.index()
    }
}

#[derive(Clone, Copy)]
struct Hm(u64, u8);
struct Hs(u64, u8);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        match self.1 {
            0 => self.0,
            // Few probe sequences.
            1 => self.0 & 0xfe00_0000_0000_0007,
            // One metadata byte.
            _ => self.0 & 0xffff,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
}
impl BuildHasher for Hm {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(self.0, self.1)
    }
}

fn aligned<T>(x: &T) {
    ALIGN_CHECKS.fetch_add(1, Relaxed);
    if (x as *const T as usize) % std::mem::align_of::<T>() != 0 {
        violation("TYPE", format!("a reference to {} is not aligned", std::any::type_name::<T>()));
    }
}

fn build<K: Shape, V: Shape>(rng: &mut Rng) -> (HashMap<K, V, Hm>, String) {
    let mode = rng.pick(&[0usize, 0, 1, 2, 7, 64, 1 << 20, 1 << 63]);
    let cap = rng.pick(&[0, 0, 0, 1, 3, 6, 12, 25, 100]);
    let bad = if K::DOMAIN > 16 { rng.pick(&[0, 0, 2]) } else { rng.below(3) as u8 };
    let m = HashMap::builder()
        .capacity(cap)
        .collector(seize::Collector::new().batch_size(rng.pick(&[1, 2, 32])))
        .hasher(Hm(rng.next(), bad))
        .resize_mode(if mode == 0 { ResizeMode::Blocking } else { ResizeMode::Incremental(mode) })
        .build();
    (m, format!("mode {mode} capacity {cap} hasher {bad}"))
}

fn names<K, V>() -> String {
    format!("{} to {}", std::any::type_name::<K>(), std::any::type_name::<V>())
}

fn bad<K, V>(msg: String) {
    violation("TYPE", format!("map of {}: {msg}", names::<K, V>()));
}

/// One operation; returns the results as text, from the map and from the model.
fn step<K: Shape, V: Shape>(
    m: &HashMap<K, V, Hm>,
    model: &mut BTreeMap<u64, u64>,
    rng: &mut Rng,
    keys: u64,
) -> (&'static str, String, String) {
    let (k, v) = (rng.below(keys as usize) as u64, rng.below(V::DOMAIN.min(1000) as usize) as u64);
    let nv = |x: u64| (x + 1) % V::DOMAIN;
    let p = m.pin();
    let see = |r: Option<&V>| {
        format!(
            "{:?}",
            r.map(|r| {
                aligned(r);
                r.index()
            })
        )
    };
    let old = model.get(&k).copied();
    let o = format!("{old:?}");
    match rng.below(16) {
        0 | 1 => ("get", see(p.get(&K::make(k))), o),
        2 => {
            let r = p.get_key_value(&K::make(k)).map(|(a, b)| {
                aligned(a);
                aligned(b);
                (a.index(), b.index())
            });
            ("get_key_value", format!("{r:?}"), format!("{:?}", old.map(|v| (k, v))))
        }
        3 | 4 | 5 => {
            model.insert(k, v);
            ("insert", see(p.insert(K::make(k), V::make(v))), o)
        }
        6 => {
            let r = match p.try_insert(K::make(k), V::make(v)) {
                Ok(x) => Ok(x.index()),
                Err(e) => Err((e.current.index(), e.not_inserted.index())),
            };
            let want = match old {
                None => {
                    model.insert(k, v);
                    Ok(v)
                }
                Some(c) => Err((c, v)),
            };
            ("try_insert", format!("{r:?}"), format!("{want:?}"))
        }
        7 => {
            let r = p.get_or_insert_with(K::make(k), || V::make(v));
            ("get_or_insert_with", see(Some(r)), format!("{:?}", Some(*model.entry(k).or_insert(v))))
        }
        8 => {
            let r = p.update(K::make(k), |x| V::make(nv(x.index())));
            if let Some(c) = old {
                model.insert(k, nv(c));
            }
            ("update", see(r), format!("{:?}", model.get(&k)))
        }
        9 => {
            let r = p.update_or_insert(K::make(k), |x| V::make(nv(x.index())), V::make(v));
            let c = old.map_or(v, nv);
            model.insert(k, c);
            ("update_or_insert", see(Some(r)), format!("{:?}", Some(c)))
        }
        10 | 11 => {
            let want = rng.below(3);
            let r = match p.compute(K::make(k), |e| match (e, want) {
                (_, 0) => Operation::Abort(()),
                (Some(_), 1) => Operation::Remove,
                (None, 1) => Operation::Abort(()),
                (Some((_, x)), _) => Operation::Insert(V::make(nv(x.index()))),
                (None, _) => Operation::Insert(V::make(v)),
            }) {
                Compute::Inserted(_, x) => (1, Some(x.index())),
                Compute::Updated { old: (_, x), new: (_, y) } => (2 + y.index(), Some(x.index())),
                Compute::Removed(_, x) => (0, Some(x.index())),
                Compute::Aborted(()) => (u64::MAX, None),
            };
            let w = match (old, want) {
                (_, 0) | (None, 1) => (u64::MAX, None),
                (Some(c), 1) => {
                    model.remove(&k);
                    (0, Some(c))
                }
                (Some(c), _) => {
                    model.insert(k, nv(c));
                    (2 + nv(c), Some(c))
                }
                (None, _) => {
                    model.insert(k, v);
                    (1, Some(v))
                }
            };
            ("compute", format!("{r:?}"), format!("{w:?}"))
        }
        12 | 13 => {
            model.remove(&k);
            ("remove", see(p.remove(&K::make(k))), o)
        }
        14 => {
            let r = p.remove_if(&K::make(k), |_, x| x.index() % 2 == 0).map(|r| r.map(|x| (x.0.index(), x.1.index()))).map_err(|x| (x.0.index(), x.1.index()));
            let want = match old {
                None => Ok(None),
                Some(c) if c % 2 == 0 => {
                    model.remove(&k);
                    Ok(Some((k, c)))
                }
                Some(c) => Err((k, c)),
            };
            ("remove_if", format!("{r:?}"), format!("{want:?}"))
        }
        _ => match rng.below(24) {
            0 => {
                p.clear();
                model.clear();
                ("clear", String::new(), String::new())
            }
            1 => {
                m.pin().retain(|k, _| k.index() % 3 != 0);
                model.retain(|k, _| k % 3 != 0);
                ("retain", String::new(), String::new())
            }
            2 => {
                p.reserve(rng.pick(&[1, 10, 100]));
                ("reserve", String::new(), String::new())
            }
            _ => ("len", format!("{}", p.len()), format!("{}", model.len())),
        },
    }
}

fn contents<K: Shape, V: Shape>(m: &HashMap<K, V, Hm>) -> Vec<(u64, u64)> {
    let mut v: Vec<_> = m
        .pin()
        .iter()
        .map(|(k, v)| {
            aligned(k);
            aligned(v);
            (k.index(), v.index())
        })
        .collect();
    v.sort();
    v
}

fn finish<K, V>(before: i64) {
    let left = COUNTED.load(Relaxed) - before;
    if left != 0 {
        violation("LEAK", format!("{left} keys or values more were created than dropped although the map of {} is gone", names::<K, V>()));
    }
    let rep = alloc::stop();
    rep.judge();
    if !rep.overflow && rep.live > 0 {
        violation("LEAK", format!("{} blocks remain although the map of {} is gone, sizes {:?}", rep.live, names::<K, V>(), rep.sizes));
    }
}

fn alone<K: Shape, V: Shape>(rng: &mut Rng) -> Out {
    let before = COUNTED.load(Relaxed);
    alloc::start(rng.chance(1, 2));
    let mut out = Out::default();
    scope(|| {
        let (m, cfg) = build::<K, V>(rng);
        let mut model = BTreeMap::new();
        let keys = K::DOMAIN.min(rng.pick(&[1, 2, 5, 20, 60, 200]));
        let n = rng.pick(&[10, 60, 300, 800]);
        for i in 0..n {
            let (op, got, want) = step(&m, &mut model, rng, keys);
            out.ops += 1;
            if got != want {
                bad::<K, V>(format!("operation {i}, {op} returned {got}, expected {want} ({cfg})"));
                break;
            }
        }
        let c = contents(&m);
        let want: Vec<_> = model.iter().map(|(k, v)| (*k, *v)).collect();
        if c != want || m.len() != want.len() {
            bad::<K, V>(format!("iteration yields {c:?}, len is {}, expected {want:?} ({cfg})", m.len()));
        }
        let copy = m.clone();
        if contents(&copy) != want || copy != m {
            bad::<K, V>("the clone differs".into());
        }
        let s: HashSet<K> = want.iter().map(|x| K::make(x.0)).collect();
        if s.len() != want.len() || want.iter().any(|x| !s.pin().contains(&K::make(x.0))) {
            bad::<K, V>("a set of the keys has other elements".into());
        }
        for x in &want {
            if !s.pin().remove(&K::make(x.0)) {
                bad::<K, V>("an element of a set was not removed".into());
            }
        }
        if !s.is_empty() {
            bad::<K, V>("a set is not empty after its elements were removed".into());
        }
        alloc::unscoped(|| out.text = cfg.clone());
        out.entries = want.len() as u64;
    });
    finish::<K, V>(before);
    out
}

/// Several threads insert and remove; what they report must add up.
fn together<K: Shape, V: Shape>(rng: &mut Rng) -> Out {
    let before = COUNTED.load(Relaxed);
    alloc::start(rng.chance(1, 2));
    let n = rng.range(2, 4);
    let keys = K::DOMAIN.min(rng.pick(&[1, 2, 3, 24])) as usize;
    let per = rng.range(4, 20);
    let mut plan = sched::Plan::random(rng, n, (n * per * 30) as u64);
    plan.spurious_park = false;
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let balance: Vec<Mutex<Vec<i64>>> = (0..n).map(|_| Mutex::new(vec![0; keys])).collect();
    let mut out = Out::default();
    let mut verdict = None;
    scope(|| {
        let (m, cfg) = build::<K, V>(rng);
        let job = |t: usize| {
            scope(|| {
                let mut r = Rng::new(seeds[t]);
                let mut mine = vec![0i64; keys];
                for _ in 0..per {
                    let k = r.below(keys);
                    let v = r.below(V::DOMAIN.min(1000) as usize) as u64;
                    let p = m.pin();
                    match r.below(9) {
                        0 | 1 | 2 => {
                            if p.insert(K::make(k as u64), V::make(v)).is_none() {
                                mine[k] += 1;
                            }
                        }
                        3 => {
                            if p.try_insert(K::make(k as u64), V::make(v)).is_ok() {
                                mine[k] += 1;
                            }
                        }
                        4 | 5 => {
                            if let Some(x) = p.remove(&K::make(k as u64)) {
                                aligned(x);
                                x.index();
                                mine[k] -= 1;
                            }
                        }
                        6 => {
                            let (ins, del) = match p.compute(K::make(k as u64), |e| match e {
                                Some(_) => Operation::Remove,
                                None if v % 2 == 0 => Operation::Insert(V::make(v)),
                                None => Operation::Abort(()),
                            }) {
                                Compute::Inserted(..) => (1, 0),
                                Compute::Removed(..) => (0, 1),
                                _ => (0, 0),
                            };
                            mine[k] += ins - del;
                        }
                        7 => {
                            p.update(K::make(k as u64), |x| V::make((x.index() + 1) % V::DOMAIN));
                        }
                        _ => {
                            if let Some((a, b)) = p.get_key_value(&K::make(k as u64)) {
                                aligned(a);
                                aligned(b);
                                if a.index() != k as u64 {
                                    bad::<K, V>("a lookup found another key".into());
                                }
                                b.index();
                            }
                        }
                    }
                }
                alloc::unscoped(|| *balance[t].lock().unwrap() = mine);
            })
        };
        let (stats, v) = alloc::unscoped(|| sched::run(n, plan, &job));
        verdict = v;
        out.steps = stats.steps;
        out.switches = stats.switches;
        out.resizes = stats.events[0];
        out.trace = stats.trace_hash;
        let c = contents(&m);
        let mut want = vec![];
        for k in 0..keys {
            let sum: i64 = balance.iter().map(|b| b.lock().unwrap()[k]).sum();
            let found = m.pin().contains_key(&K::make(k as u64)) as i64;
            if sum != found {
                bad::<K, V>(format!(
                    "key {k} was added {sum} times more than it was removed, but lookups find it {found} times ({cfg})"
                ));
            }
            if found > 0 {
                want.push(k as u64);
            }
        }
        if c.iter().map(|x| x.0).collect::<Vec<_>>() != want || m.len() != want.len() {
            bad::<K, V>(format!("iteration yields {c:?}, len is {}, lookups find {want:?} ({cfg})", m.len()));
        }
        out.ops = (n * per) as u64;
        out.entries = want.len() as u64;
        alloc::unscoped(|| out.text = cfg.clone());
    });
    drop(balance);
    if let Some((t, m)) = verdict {
        violation(t, m);
    }
    finish::<K, V>(before);
    out
}

#[derive(Default)]
struct Out {
    ops: u64,
    steps: u64,
    switches: u64,
    resizes: u64,
    entries: u64,
    trace: u64,
    text: String,
}

type F = fn(&mut Rng) -> Out;

fn both<K: Shape, V: Shape>() -> (F, F, String) {
    let name = |s: &str| s.replace("pvharness::shapes::", "").replace("alloc::", "").replace("core::option::", "");
    (
        alone::<K, V>,
        together::<K, V>,
        format!("{} -> {}", name(std::any::type_name::<K>()), name(std::any::type_name::<V>())),
    )
}

pub fn run(seed: u64) -> CaseOut {
    let all: [fn() -> (F, F, String); 26] = [
        both::<(), ()>,
        both::<(), u8>,
        both::<(), Huge>,
        both::<Count<()>, Count<()>>,
        both::<bool, ()>,
        both::<bool, Count<()>>,
        both::<u8, ()>,
        both::<u8, u8>,
        both::<u16, u8>,
        both::<u16, Count<()>>,
        both::<[u8; 3], ()>,
        both::<[u8; 3], u16>,
        both::<u32, ()>,
        both::<u32, u32>,
        both::<u64, u8>,
        both::<u128, u8>,
        both::<Wide, u8>,
        both::<u8, Wide>,
        both::<WideUnit, ()>,
        both::<u8, WideUnit>,
        both::<Huge, u8>,
        both::<u8, Count<Huge>>,
        both::<Count<String>, Count<Box<u8>>>,
        both::<Count<u8>, Count<String>>,
        both::<&'static str, Option<Box<u16>>>,
        both::<Count<Box<u8>>, Wide>,
    ];
    let mut rng = Rng::new(seed);
    reset();
    let before = ALIGN_CHECKS.load(Relaxed);
    let (seq, par, name) = all[rng.below(all.len())]();
    let conc = rng.chance(1, 2);
    let o = if conc {
        sched::solo(0);
        par(&mut rng)
    } else {
        seq(&mut rng)
    };
    CaseOut {
        hash: seed ^ o.trace,
        nontrivial: o.ops > 20 && (!conc || o.switches > 2),
        sample: Some(json!({"types": name, "threads": if conc {"several"} else {"one"}, "operations": o.ops,
                            "final_entries": o.entries, "configuration": o.text})),
        counters: vec![
            ("operations", o.ops),
            ("scheduling_points", o.steps),
            ("switches", o.switches),
            ("resizes_started_by_concurrent_runs", o.resizes),
            ("references_checked", ALIGN_CHECKS.load(Relaxed) - before),
        ],
    }
}
