//! Memory held by a map under heavy turnover, measured at quiescent points.
use crate::alloc;
use crate::conc::CHUNK0;
use crate::rng::{mix, Rng};
use crate::types::*;
use crate::CaseOut;
use papaya::{Compute, Guard, HashMap, HashSet, Operation, ResizeMode};
use serde_json::json;
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::Barrier;

/// Operations completed, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
static VALUES: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy)]
struct H {
    salt: u64,
}
struct Hh(u64);
impl Hasher for Hh {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x);
    }
}
impl BuildHasher for H {
    type Hasher = Hh;
    fn build_hasher(&self) -> Hh {
        Hh(self.salt)
    }
}

/// A type of values.
trait Val: Clone + Send + Sync + 'static {
    fn new(x: u64) -> Self;
    fn get(&self) -> u64;
    const NAME: &'static str;
}

/// A value that owns memory.
struct V(Box<[u64; 4]>);
impl Val for V {
    fn new(x: u64) -> V {
        VALUES.fetch_add(1, Relaxed);
        V(Box::new([x; 4]))
    }
    fn get(&self) -> u64 {
        self.0[0]
    }
    const NAME: &'static str = "boxed";
}
/// A value without a destructor.
impl Val for u64 {
    fn new(x: u64) -> u64 {
        x
    }
    fn get(&self) -> u64 {
        *self
    }
    const NAME: &'static str = "plain";
}
impl Val for [u64; 9] {
    fn new(x: u64) -> [u64; 9] {
        [x; 9]
    }
    fn get(&self) -> u64 {
        self[0]
    }
    const NAME: &'static str = "array";
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.0[0])
    }
}
impl Drop for V {
    fn drop(&mut self) {
        VALUES.fetch_sub(1, Relaxed);
    }
}

/// Kinds of workload. Each uses few kinds of operations, so that an operation that does not do
/// its share of reclaiming or copying is not hidden by others that do.
const WORK: [&str; 22] = [
    "insert and remove",
    "replace",
    "compute: insert, replace, remove",
    "update",
    "update_or_insert and remove_if",
    "insert and clear",
    "insert and retain",
    "sliding window",
    "sliding window with compute only",
    "try_insert and remove_entry",
    "get_or_insert_with and remove",
    "iterate while inserting and removing",
    "everything",
    "sliding window with update_or_insert_with and compute",
    "reserve and clear",
    "set: insert and remove",
    "set: sliding window",
    "set: insert and retain",
    "set: insert and clear",
    "clone and drop",
    "compute: replace only",
    "insert, grow, remove all",
];

struct Cfg {
    work: usize,
    threads: usize,
    keys: u64,
    mode: u64,
    batch: usize,
    cap: usize,
    /// 0 pin, 1 guard for many operations, 2 refreshed guard, 3 owned guards.
    guards: usize,
    respawn: bool,
    salt: u64,
    phases: usize,
    ops: u64,
}

/// Slots of the tables that hold this many entries.
fn slots(entries: u64, cap: usize) -> u64 {
    (entries * 4).next_power_of_two().max((cap as u64 * 8 / 6).next_power_of_two()).max(32)
}

/// Whether chunks of this size keep up with the writes that a resize has to outrun: when all
/// writes go to one key, a table is full for it after about 5 log2(slots) insertions, and the
/// copying of the previous one takes slots / chunk writes. Smaller chunks accumulate tables (a
/// known finding, which has a probe of its own).
fn keeps_up(chunk: u64, slots: u64) -> bool {
    chunk * 4 * slots.ilog2() as u64 >= slots
}

fn gen(rng: &mut Rng, threads: usize) -> Cfg {
    let work = rng.below(WORK.len());
    let keys = rng.pick(&[1, 3, 10, 30, 60, 100, 200]);
    let batch = rng.pick(&[1, 2, 4, 8, 32]);
    let phases = rng.range(3, 8);
    let cap = rng.pick(&[0, 0, 0, 10, 50, 200]);
    let mut mode = rng.pick(&[0, 0, 1, 2, 4, 16, 64, 64, CHUNK0]);
    while mode != 0 && !keeps_up(if mode == CHUNK0 { 1 } else { mode }, slots(keys + 2 * threads as u64, cap)) {
        mode = if mode == CHUNK0 { 2 } else { mode * 2 };
    }
    Cfg {
        work,
        threads,
        keys,
        mode,
        batch,
        cap,
        guards: rng.below(4),
        respawn: rng.chance(1, 3),
        salt: rng.next(),
        phases,
        ops: rng.pick(&[4_000, 12_000, 40_000]),
    }
}

/// Bytes that a correct map can hold at a quiescent point.
fn bound(c: &Cfg) -> i64 {
    let t = c.threads as i64;
    let entry = 160i64;
    // Retired objects of each thread that do not fill a batch. A batch is also kept while it
    // holds fewer objects than there are threads.
    let retired = t * (2 * c.batch as i64 + 2 * t + 16);
    let most = c.keys.max(c.cap as u64) * 2 + t as u64 * 2 + 16;
    let slots = 2 * slots(c.keys + 2 * t as u64, c.cap) as i64;
    let table = slots * 9 + 256;
    // The tables a resize involves, and the retired ones.
    let tables = 8 + t * (2 * c.batch as i64 + 2 * t + 16) / 4;
    most as i64 * 4 * entry + retired * entry + tables * table + (64 << 10) + t * (16 << 10)
}

type M<W> = HashMap<u64, W, H>;
type S = HashSet<String, H>;

struct St {
    rng: Rng,
    i: u64,
    t: u64,
}

#[inline]
fn window(_c: &Cfg, st: &St, k: u64) -> u64 {
    // Threads use keys of their own.
    (st.t << 40) + 1000 + k % (1 << 40)
}

fn op<W: Val, G: Guard>(m: &M<W>, c: &Cfg, st: &mut St, g: &G) {
    let r = st.rng.next();
    let k = (r >> 32) % c.keys;
    st.i += 1;
    let i = st.i;
    let w = (c.keys / c.threads as u64).max(1);
    let coin = r & 1 == 0;
    match c.work {
        0 => {
            if coin {
                m.insert(k, W::new(i), g);
            } else {
                m.remove(&k, g);
            }
        }
        1 => {
            m.insert(k, W::new(i), g);
        }
        2 => {
            let op = r % 3;
            let _: Compute<'_, u64, W, ()> = m.compute(
                k,
                |e| match (e, op) {
                    (Some(_), 0) => Operation::Remove,
                    (None, 1) => Operation::Abort(()),
                    _ => Operation::Insert(W::new(i)),
                },
                g,
            );
        }
        3 => {
            if i < c.keys * 2 {
                m.insert(k, W::new(i), g);
            }
            m.update(k, |v| W::new(v.get() + 1), g);
        }
        4 => {
            if coin {
                m.update_or_insert(k, |v| W::new(v.get() + 1), W::new(1), g);
            } else {
                let _ = m.remove_if(&k, |_, v| v.get() & 2 == 0, g);
            }
        }
        5 => {
            if i % (c.keys + 1) == 0 {
                m.clear(g);
            } else {
                m.insert(k, W::new(i), g);
            }
        }
        6 => {
            if i % (c.keys + 1) == 0 {
                m.retain(|k, _| k & 1 == i & 1, g);
            } else {
                m.insert(k, W::new(i), g);
            }
        }
        7 => {
            m.insert(window(c, st, i), W::new(i), g);
            if i > w {
                m.remove(&window(c, st, i - w), g);
            }
        }
        8 => {
            let _: Compute<'_, u64, W, ()> = m.compute(window(c, st, i), |_| Operation::Insert(W::new(i)), g);
            if i > w {
                let _: Compute<'_, u64, W, ()> = m.compute(
                    window(c, st, i - w),
                    |e| if e.is_some() { Operation::Remove } else { Operation::Abort(()) },
                    g,
                );
            }
        }
        9 => {
            if coin {
                let _ = m.try_insert(k, W::new(i), g);
            } else {
                m.remove_entry(&k, g);
            }
        }
        10 => {
            if coin {
                m.get_or_insert_with(k, || W::new(i), g);
            } else {
                m.remove(&k, g);
            }
        }
        11 => {
            if i % 16 == 0 {
                std::hint::black_box(m.iter(g).map(|(k, v)| k ^ v.get()).fold(0, |a, b| a ^ b));
            } else if coin {
                m.insert(k, W::new(i), g);
            } else {
                m.remove(&k, g);
            }
        }
        12 => match r % 16 {
            0 | 1 => {
                m.insert(k, W::new(i), g);
            }
            2 => {
                let _ = m.try_insert(k, W::new(i), g);
            }
            3 => {
                let _ = m.try_insert_with(k, || W::new(i), g);
            }
            4 => {
                m.get_or_insert(k, W::new(i), g);
            }
            5 => {
                m.update(k, |_| W::new(i), g);
            }
            6 => {
                m.update_or_insert_with(k, |_| W::new(i), || W::new(i), g);
            }
            7..=10 => {
                m.remove(&k, g);
            }
            11 => {
                let _ = m.remove_if(&k, |_, _| false, g);
            }
            12 => {
                m.get(&k, g);
            }
            13 if i % 64 == 0 => m.clear(g),
            14 if i % 64 == 0 => m.retain(|_, v| v.get() & 1 == 0, g),
            15 if i % 64 == 0 => m.reserve(c.keys as usize, g),
            _ => {
                m.contains_key(&k, g);
            }
        },
        13 => {
            m.update_or_insert_with(window(c, st, i), |_| W::new(i), || W::new(i), g);
            if i > w {
                let _: Compute<'_, u64, W, ()> = m.compute(
                    window(c, st, i - w),
                    |e| if e.is_some() { Operation::Remove } else { Operation::Abort(()) },
                    g,
                );
            }
        }
        14 => {
            if i % (c.keys + 1) == 0 {
                m.clear(g);
                m.reserve((r >> 8) as usize % (c.keys as usize + 1), g);
            } else {
                m.insert(k, W::new(i), g);
            }
        }
        20 => {
            let _: Compute<'_, u64, W, ()> = m.compute(k, |_| Operation::Insert(W::new(i)), g);
        }
        21 => {
            // The table grows, and shrinks again.
            let n = w * 2;
            let p = i % (2 * n);
            if p < n {
                m.insert(window(c, st, p), W::new(i), g);
            } else {
                m.remove(&window(c, st, p - n), g);
            }
        }
        _ => unreachable!(),
    }
}

fn set_op<G: Guard>(m: &S, c: &Cfg, st: &mut St, g: &G) {
    let r = st.rng.next();
    let k = (r >> 32) % c.keys;
    st.i += 1;
    let i = st.i;
    let w = (c.keys / c.threads as u64).max(1);
    let name = |x: u64| format!("element {x:020}");
    match c.work {
        15 => {
            if r & 1 == 0 {
                m.insert(name(k), g);
            } else {
                m.remove(&name(k), g);
            }
        }
        16 => {
            m.insert(name(window(c, st, i)), g);
            if i > w {
                m.remove(&name(window(c, st, i - w)), g);
            }
        }
        17 => {
            if i % (c.keys + 1) == 0 {
                m.retain(|k| k.len() == 0, g);
            } else {
                m.insert(name(k), g);
            }
        }
        _ => {
            if i % (c.keys + 1) == 0 {
                m.clear(g);
            } else {
                m.insert(name(k), g);
            }
        }
    }
}

macro_rules! phase {
    ($m:expr, $c:expr, $st:expr, $ops:expr, $op:ident) => {{
        let (m, c, st) = ($m, $c, $st);
        let mut left = $ops;
        match c.guards {
            0 => {
                for _ in 0..left {
                    let g = m.guard();
                    $op(m, c, st, &g);
                    PROGRESS.fetch_add(1, Relaxed);
                }
            }
            1 | 3 => {
                while left > 0 {
                    let n = (1 + st.rng.below(64) as u64).min(left);
                    left -= n;
                    if c.guards == 1 {
                        let g = m.guard();
                        for _ in 0..n {
                            $op(m, c, st, &g);
                        }
                    } else {
                        let g = m.owned_guard();
                        for _ in 0..n {
                            $op(m, c, st, &g);
                        }
                    }
                    PROGRESS.fetch_add(n, Relaxed);
                }
            }
            _ => {
                let mut g = m.guard();
                for n in 0..left {
                    $op(m, c, st, &g);
                    if n % 16 == 0 {
                        g.refresh();
                        PROGRESS.fetch_add(16, Relaxed);
                    }
                }
            }
        }
    }};
}

pub fn run(seed: u64, threads: Option<usize>) -> CaseOut {
    match mix(seed ^ 77) % 4 {
        0 => run_with::<u64>(seed, threads),
        1 => run_with::<[u64; 9]>(seed, threads),
        _ => run_with::<V>(seed, threads),
    }
}

fn run_with<W: Val>(seed: u64, threads: Option<usize>) -> CaseOut {
    let mut rng = Rng::new(seed);
    let threads = threads.unwrap_or_else(|| rng.range(2, 8));
    let mut c = gen(&mut rng, threads);
    if c.work == 19 {
        c.ops /= 40;
    }
    let limit = bound(&c);
    let ev0: Vec<u32> = EVENTS.iter().map(|e| e.load(Relaxed)).collect();
    VALUES.store(0, SeqCst);
    alloc::LIVE.store(0, SeqCst);
    alloc::COUNT_ON.store(true, SeqCst);
    let mode = || match c.mode {
        0 => ResizeMode::Blocking,
        CHUNK0 => ResizeMode::Incremental(0),
        n => ResizeMode::Incremental(n as usize),
    };
    let map: M<W> = HashMap::builder()
        .capacity(c.cap)
        .hasher(H { salt: c.salt })
        .resize_mode(mode())
        .collector(seize::Collector::new().batch_size(c.batch))
        .build();
    let set: S = HashSet::builder()
        .capacity(c.cap)
        .hasher(H { salt: c.salt })
        .resize_mode(mode())
        .collector(seize::Collector::new().batch_size(c.batch))
        .build();
    let is_set = (15..=18).contains(&c.work);
    let work = |st: &mut St, ops: u64| {
        if c.work == 19 {
            for _ in 0..ops {
                let k = st.rng.next() % c.keys;
                map.pin().insert(k, W::new(k));
                drop(map.clone());
                drop(map.clone().into_iter_count());
                PROGRESS.fetch_add(1, Relaxed);
            }
        } else if is_set {
            phase!(&set, &c, st, ops, set_op)
        } else {
            phase!(&map, &c, st, ops, op)
        }
    };
    let mut seen: Vec<(i64, i64)> = vec![];
    let mut drains = 0u64;
    let mut check = |seen: &mut Vec<(i64, i64)>| {
        let (mut b, mut v) = (alloc::LIVE.load(SeqCst) as i64, VALUES.load(SeqCst));
        // A thread that was suspended in the middle of copying made the others leave work behind.
        // More of the same operations get it done, unless nothing reclaims.
        for i in 0..5u32 {
            if b <= limit {
                break;
            }
            drains += 1;
            let ops = 2000 * 4u64.pow(i);
            std::thread::scope(|s| {
                s.spawn(|| {
                    let mut st = St { rng: Rng::new(mix(seed ^ drains << 40)), i: 1 << 30, t: 63 };
                    work(&mut st, ops);
                });
            });
            (b, v) = (alloc::LIVE.load(SeqCst) as i64, VALUES.load(SeqCst));
        }
        seen.push((b, v));
        let n = if is_set { set.len() } else { map.len() } as i64;
        if b > limit {
            violation(
                "MEM",
                format!(
                    "{} bytes are held after {} operations of \"{}\" by {} threads ({} entries, {} values alive, {}), bound {}; \
                     keys {}, mode {}, batch {}, capacity {}, history {:?}",
                    b,
                    seen.len() as u64 * c.ops * c.threads as u64,
                    WORK[c.work], c.threads, n, v, W::NAME, limit, c.keys, c.mode, c.batch, c.cap, seen
                ),
            );
        }
    };
    let mk = |t: usize, p: usize| St {
        rng: Rng::new(mix(seed ^ (t as u64) << 8 ^ p as u64)),
        i: if c.respawn { p as u64 * c.ops } else { 0 },
        t: t as u64,
    };
    if c.threads == 1 {
        let mut st = mk(0, 0);
        for _ in 0..c.phases {
            work(&mut st, c.ops);
            check(&mut seen);
        }
    } else if c.respawn {
        for p in 0..c.phases {
            std::thread::scope(|s| {
                for t in 0..c.threads {
                    let (work, mk, c) = (&work, &mk, &c);
                    s.spawn(move || work(&mut mk(t, p), c.ops));
                }
            });
            check(&mut seen);
        }
    } else {
        let bar = Barrier::new(c.threads + 1);
        std::thread::scope(|s| {
            for t in 0..c.threads {
                let (work, mk, bar, c) = (&work, &mk, &bar, &c);
                s.spawn(move || {
                    let mut st = mk(t, 0);
                    for _ in 0..c.phases {
                        work(&mut st, c.ops);
                        bar.wait();
                        bar.wait();
                    }
                });
            }
            for _ in 0..c.phases {
                bar.wait();
                check(&mut seen);
                bar.wait();
            }
        });
    }
    let total = c.phases as u64 * c.ops * c.threads as u64;
    drop(map);
    drop(set);
    if VALUES.load(SeqCst) != 0 {
        violation("LEAK", format!("{} values are alive although the map is gone", VALUES.load(SeqCst)));
    }
    alloc::COUNT_ON.store(false, SeqCst);
    let ev: Vec<u64> = (0..5).map(|i| (EVENTS[i].load(Relaxed) - ev0[i]) as u64).collect();
    let max = seen.iter().map(|x| x.0).max().unwrap_or(0);
    CaseOut {
        hash: seed,
        // The operations could have accumulated far more than the bound.
        nontrivial: total as i64 * 9 > limit,
        sample: Some(json!({
            "seed": seed, "workload": WORK[c.work], "values": W::NAME, "threads": c.threads, "operations": total, "keys": c.keys,
            "bytes_at_barriers": seen.iter().map(|x| x.0).collect::<Vec<_>>(), "bound": limit, "resizes": ev[0],
        })),
        counters: vec![
            ("operations", total),
            ("measurements", seen.len() as u64),
            ("measurements_repeated_after_more_operations", drains),
            ("max_bytes_held", max.max(0) as u64),
            ("max_permille_of_bound", (max.max(0) * 1000 / limit) as u64),
            ("resizes_started", ev[0]),
            ("promoted", ev[1]),
            ("deferred_retire", ev[4]),
            ("max_threads", c.threads as u64),
        ],
    }
}

trait CountAll {
    fn into_iter_count(self) -> usize;
}
impl<W: Val> CountAll for M<W> {
    fn into_iter_count(self) -> usize {
        self.pin().iter().count()
    }
}

/// Insert and remove one key of a large map, in the default configuration.
pub fn hot_key() -> CaseOut {
    alloc::LIVE.store(0, SeqCst);
    alloc::COUNT_ON.store(true, SeqCst);
    let n = 20_000u64;
    let m: HashMap<u64, u64, H> = HashMap::builder().capacity(n as usize).hasher(H { salt: 1 }).build();
    for i in 0..n * 3 / 4 {
        m.pin().insert(i + 10, i);
    }
    let start = alloc::LIVE.load(SeqCst);
    let toggles = 12_000u64;
    for i in 0..toggles {
        let g = m.guard();
        m.insert(1, i, &g);
        m.remove(&1, &g);
        PROGRESS.fetch_add(1, Relaxed);
    }
    let end = alloc::LIVE.load(SeqCst);
    // The tables of one resize, and retired ones.
    let bound = start + 12 * 32768 * 9;
    if end > bound {
        violation(
            "MEM",
            format!("inserting and removing one key of a map with {n} slots in use accumulates tables: {start} bytes grew to {end}"),
        );
    }
    drop(m);
    alloc::COUNT_ON.store(false, SeqCst);
    CaseOut {
        hash: 1,
        nontrivial: true,
        sample: Some(json!({"toggles_of_one_key": toggles, "bytes_before": start, "bytes_after": end})),
        counters: vec![("operations", toggles * 2)],
    }
}
