//! Controlled concurrent executions with every behavioural monitor attached.
use crate::alloc::{self, scope, unscoped};
use crate::api::*;
use crate::hist::{self, *};
use crate::rng::Rng;
use crate::sched::{self, tick};
use crate::types::*;
use papaya::{Compute, Guard, Operation, ResizeMode};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap as StdMap, HashSet as StdSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum K {
    Get,
    GetByKey,
    GetKv,
    Contains,
    Insert,
    TryInsert,
    TryInsertWith,
    GetOrInsert,
    GetOrInsertWith,
    Update,
    UpdateOrInsert,
    UpdateOrInsertWith,
    Compute,
    Remove,
    RemoveEntry,
    RemoveIf,
    Clear,
    Retain,
    Reserve,
    Iter,
    Len,
    Sub,
}
pub const NK: usize = 22;
pub const KINDS: [K; NK] = [
    K::Get,
    K::GetByKey,
    K::GetKv,
    K::Contains,
    K::Insert,
    K::TryInsert,
    K::TryInsertWith,
    K::GetOrInsert,
    K::GetOrInsertWith,
    K::Update,
    K::UpdateOrInsert,
    K::UpdateOrInsertWith,
    K::Compute,
    K::Remove,
    K::RemoveEntry,
    K::RemoveIf,
    K::Clear,
    K::Retain,
    K::Reserve,
    K::Iter,
    K::Len,
    K::Sub,
];

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: K,
    pub key: u32,
    pub arg: u64,
    pub nest: Option<Box<Op>>,
    pub panic: u32,
    pub sub: Option<Box<Session>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fl {
    Pin,
    Guard,
    PinOwned,
    OwnedGuard,
    Shared,
}

#[derive(Clone, Debug)]
pub struct Session {
    pub fl: Fl,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub mode: u64, // 0 blocking, else incremental chunk
    pub cap: usize,
    pub hb: Hb,
    pub batch: usize,
    pub one_shard: bool,
    pub yield_user: bool,
    pub early_drop: bool,
    pub set: bool,
    pub quarantine: bool,
}

/// What to generate for a property.
#[derive(Clone)]
pub struct Prof {
    pub name: &'static str,
    pub set: bool,
    pub w: [u32; NK],
    pub shared: usize,
    pub nest: usize,
    pub panic: usize,
    pub hb: bool,
    pub freeze: bool,
    pub fresh: usize,
    pub max_threads: usize,
    pub hot: usize,
    pub big: usize,
    /// Cases in which writers of few keys meet copies that are stalled half way.
    pub gather: usize,
    pub abort: usize,
    pub quarantine: usize,
    pub early: usize,
    /// Threads run freely in parallel.
    pub free: bool,
    /// Iterate by way of conversions.
    pub conv: bool,
    /// Count the entries moved by every operation.
    pub work: bool,
}

fn base() -> [u32; NK] {
    let mut w = [0; NK];
    for (k, x) in [
        (K::Get, 8),
        (K::GetByKey, 2),
        (K::GetKv, 3),
        (K::Contains, 3),
        (K::Insert, 10),
        (K::TryInsert, 4),
        (K::TryInsertWith, 2),
        (K::GetOrInsert, 2),
        (K::GetOrInsertWith, 3),
        (K::Update, 5),
        (K::UpdateOrInsert, 3),
        (K::UpdateOrInsertWith, 3),
        (K::Compute, 8),
        (K::Remove, 7),
        (K::RemoveEntry, 2),
        (K::RemoveIf, 3),
        (K::Len, 1),
        (K::Reserve, 1),
        (K::Sub, 1),
    ] {
        w[k as usize] = x;
    }
    w
}

pub fn profile(prop: &str) -> Prof {
    let mut p = Prof {
        name: "map",
        set: false,
        w: base(),
        shared: 6,
        nest: 3,
        panic: 0,
        hb: false,
        freeze: false,
        fresh: 35,
        max_threads: 5,
        hot: 3,
        big: 12,
        gather: 30,
        abort: 30,
        quarantine: 50,
        early: 30,
        free: false,
        conv: false,
        work: false,
    };
    let mut set = |p: &mut Prof, xs: &[(K, u32)]| {
        for (k, x) in xs {
            p.w[*k as usize] = *x;
        }
    };
    match prop {
        "C01" => set(&mut p, &[(K::Iter, 1), (K::Clear, 0), (K::Retain, 0)]),
        "C03" => {
            p.name = "rmw";
            p.hot = 2;
            p.fresh = 25;
            set(
                &mut p,
                &[
                    (K::Update, 14),
                    (K::UpdateOrInsert, 8),
                    (K::UpdateOrInsertWith, 8),
                    (K::Compute, 22),
                    (K::Remove, 8),
                ],
            );
        }
        "C04" => {
            p.name = "held";
            p.quarantine = 100;
            set(&mut p, &[(K::Get, 14), (K::Iter, 5), (K::Clear, 1), (K::Retain, 1), (K::Sub, 3)]);
        }
        "C23" => {
            p.name = "lies";
            p.quarantine = 100;
            p.early = 30;
            p.abort = 60;
            set(&mut p, &[(K::Get, 8), (K::Iter, 3), (K::Clear, 1), (K::Retain, 2), (K::Sub, 2), (K::TryInsert, 6)]);
        }
        "C05" => {
            p.name = "drops";
            p.early = 60;
            p.abort = 60;
            set(&mut p, &[(K::Iter, 1), (K::Clear, 2), (K::Retain, 2), (K::TryInsert, 6)]);
        }
        "C06" => {
            p.name = "hb";
            p.hb = true;
            set(&mut p, &[(K::Iter, 3), (K::Get, 14)]);
        }
        "C07" => {
            p.name = "iter";
            set(&mut p, &[(K::Iter, 22), (K::Clear, 1), (K::Get, 3)]);
        }
        "C08" => {
            p.name = "sweep";
            set(&mut p, &[(K::Clear, 10), (K::Retain, 14), (K::Iter, 2)]);
        }
        "C09" => {
            p.name = "len";
            p.fresh = 45;
            set(
                &mut p,
                &[(K::Len, 6), (K::Clear, 3), (K::Retain, 3), (K::Remove, 14), (K::Compute, 14), (K::RemoveIf, 5)],
            );
        }
        "C10" => {
            p.name = "resize";
            p.fresh = 65;
            p.big = 30;
            p.abort = 100;
            set(&mut p, &[(K::Get, 20), (K::Reserve, 6), (K::Remove, 12), (K::Iter, 2)]);
        }
        "C11" => {
            p.name = "progress";
            p.fresh = 60;
            p.nest = 12;
            p.max_threads = 6;
            p.big = 24;
            p.gather = 150;
            p.abort = 150;
            set(&mut p, &[(K::Reserve, 5), (K::Iter, 3), (K::Clear, 2), (K::Retain, 2), (K::Sub, 4)]);
        }
        "C13" => {
            p.name = "panic";
            p.panic = 30;
            set(&mut p, &[(K::Retain, 5), (K::RemoveIf, 8), (K::Update, 10), (K::Compute, 14)]);
        }
        "C14" => {
            p.name = "conv";
            p.conv = true;
            p.fresh = 45;
            set(&mut p, &[(K::Iter, 22), (K::Clear, 1), (K::Get, 2)]);
        }
        "C17" => {
            p.name = "work";
            p.nest = 0;
            p.fresh = 60;
            p.work = true;
            p.abort = 0;
            set(&mut p, &[(K::Reserve, 4), (K::Get, 6)]);
        }
        "C18" => {
            p.name = "set";
            p.set = true;
            p.w = [0; NK];
            set(
                &mut p,
                &[
                    (K::Get, 10),
                    (K::Contains, 8),
                    (K::Insert, 24),
                    (K::Remove, 18),
                    (K::Iter, 4),
                    (K::Clear, 1),
                    (K::Retain, 2),
                    (K::Reserve, 2),
                    (K::Len, 2),
                ],
            );
        }
        "C19" => {
            p.name = "shared";
            p.shared = 100;
            set(&mut p, &[(K::Iter, 3), (K::Retain, 1), (K::Clear, 1)]);
        }
        "C20" => {
            p.name = "freeze";
            p.freeze = true;
            p.big = 0;
            p.hot = 3;
            set(&mut p, &[(K::Get, 0), (K::GetByKey, 0), (K::GetKv, 0), (K::Contains, 0), (K::Sub, 0), (K::Iter, 1), (K::Clear, 1)]);
        }
        _ => {}
    }
    // For trying things out.
    if let Some(n) = std::env::var("PV_BIG").ok().and_then(|n| n.parse().ok()) {
        p.big = n;
    }
    if let Some(n) = std::env::var("PV_ABORT").ok().and_then(|n| n.parse().ok()) {
        p.abort = n;
    }
    p
}

/// Which monitors decide a property.
pub fn relevant(prop: &str, tag: &str) -> bool {
    static ANY: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    // For trying out all monitors at once.
    if prop != "C23" && *ANY.get_or_init(|| std::env::var("PV_ANY").is_ok()) {
        return true;
    }
    if prop == "C23" {
        return matches!(tag, "CRASH" | "C04" | "C05" | "LEAK");
    }
    if matches!(tag, "HANG" | "PANIC" | "CRASH") {
        return true;
    }
    match prop {
        "C01" => matches!(tag, "LIN" | "RES" | "CHAIN" | "FINAL"),
        "C02" => matches!(tag, "LIN" | "RES" | "LEN" | "ITER" | "SWEEP" | "FINAL" | "KEY"),
        "C03" => matches!(tag, "CHAIN" | "RES" | "LIN"),
        "C04" => matches!(tag, "C04"),
        "C05" => matches!(tag, "C05" | "LEAK"),
        "C06" => matches!(tag, "C06"),
        "C07" => matches!(tag, "ITER" | "FINAL"),
        "C08" => matches!(tag, "SWEEP" | "LIN" | "FINAL"),
        "C09" => matches!(tag, "LEN"),
        "C10" => matches!(tag, "LIN" | "FINAL" | "RES"),
        "C11" => false,
        "C12" => matches!(tag, "GUARD" | "LEAK" | "C04" | "C05"),
        "C14" => matches!(tag, "CONV" | "LEAK" | "C04" | "C05" | "ITER"),
        "C13" => !matches!(tag, "C06" | "C20"),
        "C15" => matches!(tag, "CAP" | "LIN" | "LEN" | "FINAL" | "RES"),
        "C16" => matches!(tag, "MEM" | "LEAK"),
        "C17" => matches!(tag, "WORK"),
        "C18" => matches!(tag, "LIN" | "RES" | "LEN" | "ITER" | "SWEEP" | "FINAL"),
        "C19" => matches!(tag, "LIN" | "FINAL" | "RES" | "LEN" | "C04" | "C05" | "LEAK" | "CHAIN"),
        "C20" => matches!(tag, "C20" | "LIN" | "RES"),
        "C22" => matches!(tag, "TYPE" | "C04" | "C05" | "LEAK"),
        _ => true,
    }
}

// ---------------------------------------------------------------- generation

pub struct Case {
    pub cfg: Config,
    pub prefill: Vec<(u32, bool)>,
    pub reserve0: usize,
    pub gather: bool,
    pub scripts: Vec<Vec<Session>>,
    pub readers: u32,
    pub nops: usize,
    pub keys: u32,
}

struct Gen<'a> {
    rng: Rng,
    p: &'a Prof,
    hot: Vec<u32>,
    cold: Vec<u32>,
    next_fresh: u32,
    fresh_left: usize,
    nops: usize,
    fresh_made: Vec<u32>,
    reserve_max: usize,
}

impl Gen<'_> {
    fn op(&mut self, depth: u32, reader: bool) -> Op {
        self.nops += 1;
        let kind = if reader {
            if self.p.set {
                self.rng.pick(&[K::Get, K::Contains])
            } else {
                self.rng.pick(&[K::Get, K::GetByKey, K::GetKv, K::Contains])
            }
        } else {
            loop {
                let k = KINDS[self.rng.weighted(&self.p.w)];
                if depth > 0 && matches!(k, K::Sub) {
                    continue;
                }
                break k;
            }
        };
        let inserting = matches!(
            kind,
            K::Insert
                | K::TryInsert
                | K::TryInsertWith
                | K::GetOrInsert
                | K::GetOrInsertWith
                | K::UpdateOrInsert
                | K::UpdateOrInsertWith
                | K::Compute
        );
        let key = if inserting && self.fresh_left > 0 && self.rng.chance(self.p.fresh, 100) {
            self.fresh_left -= 1;
            self.next_fresh += 1;
            let k = self.next_fresh - 1;
            self.fresh_made.push(k);
            k
        } else if !self.cold.is_empty() && self.rng.chance(1, 8) {
            self.rng.pick(&self.cold.clone())
        } else if !self.fresh_made.is_empty() && self.rng.chance(1, 8) {
            self.rng.pick(&self.fresh_made.clone())
        } else {
            self.rng.pick(&self.hot.clone())
        };
        let mut arg = self.rng.next();
        if self.p.conv && kind == K::Iter {
            arg |= 1 << 63;
        } else {
            arg &= !(1 << 63);
        }
        if kind == K::Reserve {
            arg = self.rng.range(1, self.reserve_max) as u64;
        }
        let user = matches!(
            kind,
            K::TryInsertWith
                | K::GetOrInsertWith
                | K::Update
                | K::UpdateOrInsert
                | K::UpdateOrInsertWith
                | K::Compute
                | K::RemoveIf
                | K::Retain
                | K::Iter
        );
        let nest = if user && depth == 0 && self.rng.chance(self.p.nest, 100) {
            Some(Box::new(self.op(1, false)))
        } else {
            None
        };
        let panic = if self.p.panic > 0
            && !matches!(kind, K::Reserve | K::Iter | K::Len | K::Sub | K::Clear)
            && self.rng.chance(self.p.panic, 100)
        {
            self.rng.pick(&[1, 1, 2, 2, 3, 4, 5, 7])
        } else {
            0
        };
        let sub = if kind == K::Sub {
            let n = self.rng.range(1, 3);
            Some(Box::new(Session {
                fl: self.rng.pick(&[Fl::Pin, Fl::Guard, Fl::PinOwned, Fl::OwnedGuard]),
                ops: (0..n).map(|_| self.op(1, false)).collect(),
            }))
        } else {
            None
        };
        Op {
            kind,
            key,
            arg,
            nest,
            panic,
            sub,
        }
    }
}

/// Stands for `Incremental(0)`.
pub const CHUNK0: u64 = u64::MAX;

pub fn resize_mode(m: u64) -> ResizeMode {
    match m {
        0 => ResizeMode::Blocking,
        CHUNK0 => ResizeMode::Incremental(0),
        n => ResizeMode::Incremental(n as usize),
    }
}

pub fn build_map(cfg: &Config) -> Map {
    let b = papaya::HashMap::<Key, Val>::builder()
        .hasher(cfg.hb)
        .resize_mode(resize_mode(cfg.mode))
        .capacity(cfg.cap)
        .collector(seize::Collector::new().batch_size(cfg.batch));
    b.build()
}

pub fn build_set(cfg: &Config) -> Set {
    papaya::HashSet::<Key>::builder()
        .hasher(cfg.hb)
        .resize_mode(resize_mode(cfg.mode))
        .capacity(cfg.cap)
        .collector(seize::Collector::new().batch_size(cfg.batch))
        .build()
}

/// Where do tables get allocated during the prefill?
fn probe_prefill(cfg: &Config, prefill: &[(u32, bool)]) -> Vec<usize> {
    let m: papaya::HashMap<u32, u32, Pb> = papaya::HashMap::<u32, u32>::builder()
        .hasher(Pb(cfg.hb))
        .resize_mode(resize_mode(cfg.mode))
        .capacity(cfg.cap)
        .build();
    let g = m.guard();
    let mut at = vec![];
    let mut seen = 0;
    for (i, &(k, ins)) in prefill.iter().enumerate() {
        let before = EVENTS[0].load(Relaxed);
        if ins {
            m.insert(k, 0, &g);
        } else {
            m.remove(&k, &g);
        }
        if EVENTS[0].load(Relaxed) != before {
            at.push(i);
            seen += 1;
            if seen > 8 {
                break;
            }
        }
    }
    at
}

#[derive(Clone, Copy, Default)]
pub struct Pb(pub Hb);
pub struct Ph(Hb, u32);
impl std::hash::Hasher for Ph {
    fn finish(&self) -> u64 {
        self.0.hash(self.1)
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u32(&mut self, x: u32) {
        self.1 = x
    }
}
impl std::hash::BuildHasher for Pb {
    type Hasher = Ph;
    fn build_hasher(&self) -> Ph {
        Ph(self.0, 0)
    }
}

/// A resize into a smaller table that other threads' insertions make too small: one probe
/// sequence of the table is full of tombstones, few entries are live, and while one thread
/// begins to shrink the table another one inserts more. Either they fill a table of 32 slots, or
/// (easier to reach) they fill one probe sequence of a table of 64, but not of a larger one.
fn generate_abort(p: &Prof, mut rng: Rng) -> Case {
    let full = rng.chance(1, 6);
    let cfg = Config {
        mode: if rng.chance(3, 4) { 0 } else { rng.pick(&[1, 4, 64]) },
        cap: 0,
        hb: Hb { mode: if full { 9 } else { 11 }, salt: 0 },
        batch: rng.pick(&[1, 1, 4, 32]),
        one_shard: rng.chance(1, 2),
        yield_user: rng.chance(1, 4),
        early_drop: rng.chance(p.early, 100),
        set: p.set,
        quarantine: rng.chance(p.quarantine, 100),
    };
    let mut prefill: Vec<(u32, bool)> = vec![];
    let (next, hot);
    if full {
        for k in 0..rng.range(0, 8) as u32 {
            prefill.push((64 + 31 + 2 * k, true));
        }
        next = 64 + 31 + 16;
        hot = vec![64 + 31, 40, 64 + 33];
    } else {
        // The two scattered keys stay: with them, the entries that overflow the table of 64 slots
        // are enough for a table of 128 to be next.
        prefill.push((64, true));
        prefill.push((65, true));
        let live = rng.range(8, 14) as u32;
        for k in 0..live {
            prefill.push((96 + k, true));
        }
        next = 96 + live;
        hot = vec![96, 97, 40, next];
    }
    // As many as there is room for in the sequence.
    let mask = if full { 63 } else { 127 };
    let mut used = [false; 128];
    let mut place = |k: u32| {
        let mut i = cfg.hb.hash(k) as usize & mask;
        for len in 1..=if full { 31 } else { 36 } {
            if !used[i] {
                used[i] = true;
                return true;
            }
            i = (i + len) & mask;
        }
        false
    };
    for (k, _) in &prefill {
        place(*k);
    }
    let room = (0..).take_while(|k| place(*k)).count() as u32;
    for k in 0..room - rng.pick(&[0, 0, 0, 0, 1, 2]) {
        prefill.push((k, true));
        prefill.push((k, false));
    }
    let n = rng.range(2, p.max_threads.clamp(3, 5));
    let mut g = Gen {
        p,
        hot,
        cold: vec![],
        next_fresh: next,
        // More, or more of one parity, would overflow the table of 128 slots, which is then replaced by
        // one of the same size for ever (see the findings of C11).
        fresh_left: if full { 60 } else { 0 },
        nops: 0,
        fresh_made: vec![],
        reserve_max: 20,
        rng,
    };
    let mut scripts = vec![];
    let filler = g.rng.below(n);
    let mut crowd = 32;
    let mut readers = 0;
    for t in 0..n {
        let fl = g.rng.pick(&[Fl::Pin, Fl::Guard, Fl::PinOwned, Fl::OwnedGuard]);
        let mut ops = vec![];
        let reader = p.freeze && t == 0 && filler != 0;
        if reader {
            readers = 1;
        }
        if t == filler {
            let left = std::mem::take(&mut g.fresh_left);
            let fill = if full { g.rng.range(20, 34) } else if g.rng.chance(1, 2) {
                (96 + 32 - next.min(96 + 32)) as usize + g.rng.below(2)
            } else {
                g.rng.range(17, 27)
            };
            for _ in 0..fill {
                let mut o = g.op(1, false);
                o.kind = K::Insert;
                o.key = g.next_fresh;
                o.panic = 0;
                g.next_fresh += 1;
                ops.push(o);
            }
            g.fresh_left = left;
            ops.push(g.op(1, false));
        } else {
            if t == (filler + 1) % n && !full {
                g.fresh_left = 3;
            }
            for _ in 0..g.rng.range(1, 4) {
                let mut o = g.op(1, reader);
                if !reader && g.rng.chance(2, 3) {
                    // Hits the crowded sequence.
                    o.kind = K::Insert;
                    o.key = crowd;
                    o.panic = 0;
                    crowd += 1;
                }
                ops.push(o);
            }
        }
        scripts.push(vec![Session { fl, ops }]);
    }
    let nops = scripts.iter().map(|s| s[0].ops.len()).sum();
    Case {
        cfg,
        prefill,
        reserve0: if full { 40 } else { 80 },
        gather: false,
        scripts,
        readers,
        nops,
        keys: g.next_fresh,
    }
}

/// The same property of sets.
fn of_sets(p: &Prof) -> Prof {
    let mut q = p.clone();
    let w = |ks: &[K]| ks.iter().map(|k| p.w[*k as usize]).sum::<u32>();
    q.set = true;
    q.w = [0; NK];
    for (k, x) in [
        (K::Get, w(&[K::Get, K::GetByKey, K::GetKv])),
        (K::Contains, w(&[K::Contains])),
        (
            K::Insert,
            w(&[K::Insert, K::TryInsert, K::TryInsertWith, K::GetOrInsert, K::GetOrInsertWith, K::UpdateOrInsert, K::Compute]),
        ),
        (K::Remove, w(&[K::Remove, K::RemoveEntry, K::RemoveIf, K::Compute])),
        (K::Iter, w(&[K::Iter])),
        (K::Clear, w(&[K::Clear])),
        (K::Retain, w(&[K::Retain])),
        (K::Reserve, w(&[K::Reserve])),
        (K::Len, w(&[K::Len])),
    ] {
        q.w[k as usize] = x;
    }
    q
}

pub fn generate(p: &Prof, seed: u64) -> Case {
    let mut rng = Rng::new(seed);
    let sets;
    let p = if !p.set && !matches!(p.name, "map" | "rmw" | "conv" | "work") && rng.chance(1, 8) {
        sets = of_sets(p);
        &sets
    } else {
        p
    };
    if !p.free && rng.chance(p.abort, 1000) {
        return generate_abort(p, rng);
    }
    let big = rng.chance(p.big, 1000);
    let gather = !big && !p.free && !p.freeze && rng.chance(p.gather, 1000);
    let narrow;
    let p = if gather {
        narrow = Prof { fresh: rng.pick(&[15, 30, 50]), hot: 2, shared: 0, ..p.clone() };
        &narrow
    } else {
        p
    };
    let mode = if gather {
        rng.pick(&[1, 4, 8, 16, 64, 64])
    } else if rng.chance(2, 5) {
        0
    } else if big {
        rng.pick(&[64, 1000, 4096, 5000, 1 << 20, 1 << 62])
    } else {
        let huge = 1 << rng.pick(&[62, 63]);
        rng.pick(&[1, 1, 2, 3, 4, 8, 16, 64, 1 << 20, huge])
    };
    let hmode = if big {
        0
    } else if rng.chance(1, 2) {
        rng.pick(&[0, 8])
    } else {
        rng.below(HASHERS as usize) as u8
    };
    let hb = Hb {
        mode: hmode,
        salt: rng.next(),
    };
    let hostile = hb.hostile();
    let cfg = Config {
        mode,
        cap: if big {
            rng.pick(&[3100, 4000, 5000])
        } else {
            rng.pick(&[0, 0, 1, 1, 2, 3, 4, 6, 6, 8, 12, 14, 24])
        },
        hb,
        batch: rng.pick(&[1, 1, 2, 4, 32]),
        one_shard: rng.chance(1, 2),
        yield_user: rng.chance(1, 3),
        early_drop: rng.chance(p.early, 100),
        set: p.set,
        quarantine: rng.chance(p.quarantine, 100),
    };
    let nthreads = match rng.below(10) {
        _ if gather => rng.range(3, p.max_threads.max(4)),
        0..=3 => 2,
        4..=7 => 3,
        _ => rng.range(2, p.max_threads.max(2)),
    };

    // Prefill.
    let budget = if hostile {
        rng.range(0, 12)
    } else if big {
        rng.pick(&[10, 60, 200])
    } else {
        rng.pick(&[0, 3, 6, 9, 14, 18, 28, 40])
    };
    let mut prefill: Vec<(u32, bool)> = vec![];
    let mut live: Vec<u32> = vec![];
    let mut next = 0u32;
    let pins = rng.pick(&[100, 80, 65, 55]);
    let mut step = |rng: &mut Rng, prefill: &mut Vec<(u32, bool)>| {
        if live.is_empty() || rng.chance(pins, 100) {
            // Re-insert a dead key now and then.
            let k = if next > 0 && rng.chance(1, 8) {
                rng.below(next as usize) as u32
            } else {
                next += 1;
                next - 1
            };
            if !live.contains(&k) {
                live.push(k);
            }
            prefill.push((k, true));
        } else {
            let i = rng.below(live.len());
            let k = live.swap_remove(i);
            prefill.push((k, false));
        }
    };
    for _ in 0..budget {
        step(&mut rng, &mut prefill);
    }
    if !big && rng.chance(5, 6) {
        // Stop shortly before (or after) a point at which a resize begins.
        let mut at = probe_prefill(&cfg, &prefill);
        let max = if hostile { 14 } else { 70 };
        while at.is_empty() && prefill.len() < max {
            for _ in 0..4 {
                step(&mut rng, &mut prefill);
            }
            at = probe_prefill(&cfg, &prefill);
        }
        if !at.is_empty() {
            let at = rng.pick(&at);
            let stop = match rng.below(8) {
                0..=3 => at,
                4..=5 => at.saturating_sub(rng.range(1, 2)),
                _ => at + rng.range(1, 3),
            };
            prefill.truncate(stop);
        }
    }
    let mut live: StdSet<u32> = StdSet::new();
    let mut dead: StdSet<u32> = StdSet::new();
    for &(k, ins) in &prefill {
        if ins {
            live.insert(k);
            dead.remove(&k);
        } else {
            live.remove(&k);
            dead.insert(k);
        }
    }
    let mut live: Vec<u32> = live.into_iter().collect();
    let mut dead: Vec<u32> = dead.into_iter().collect();
    live.sort();
    dead.sort();
    let mut next = prefill.iter().map(|x| x.0 + 1).max().unwrap_or(0);

    // Hot keys.
    let nhot = rng.range(1, p.hot) + if p.free { 3 } else { 0 };
    let mut hot = vec![];
    for _ in 0..nhot {
        let k = match rng.below(4) {
            0 | 1 if !live.is_empty() => live.swap_remove(rng.below(live.len())),
            2 if !dead.is_empty() => dead.swap_remove(rng.below(dead.len())),
            _ => {
                next += 1;
                next - 1
            }
        };
        hot.push(k);
    }
    let mut g = Gen {
        p,
        hot,
        cold: live,
        next_fresh: next,
        fresh_left: if hostile {
            8
        } else if p.free {
            400
        } else {
            40
        },
        nops: 0,
        fresh_made: vec![],
        reserve_max: if big {
            rng.pick(&[30, 5000])
        } else {
            rng.pick(&[4, 12, 30, 60])
        },
        rng,
    };
    let per = match g.rng.below(10) {
        _ if p.free => g.rng.range(8, 40),
        _ if gather => g.rng.range(3, 7),
        0..=3 => g.rng.range(2, 4),
        4..=8 => g.rng.range(3, 8),
        _ => g.rng.range(8, 16),
    };
    let shared = g.rng.chance(p.shared, 100);
    let mut scripts = vec![];
    let mut readers = 0;
    for t in 0..nthreads {
        let reader = p.freeze && t == 0;
        if reader {
            readers |= 1 << t;
        }
        let mut left = if reader { per + 2 } else { g.rng.range(1, per) };
        let mut ss = vec![];
        while left > 0 {
            let n = g.rng.range(1, left);
            left -= n;
            let fl = if shared && g.rng.chance(7, 8) {
                Fl::Shared
            } else {
                g.rng.pick(&[Fl::Pin, Fl::Pin, Fl::Guard, Fl::Guard, Fl::PinOwned, Fl::OwnedGuard])
            };
            let ops = (0..n).map(|_| g.op(0, reader)).collect();
            ss.push(Session { fl, ops });
        }
        if big && !reader && g.rng.chance(2, 3) {
            // Resizes the table, which is copied in several chunks.
            let s = g.rng.below(ss.len());
            let mut o = g.op(1, false);
            o.kind = K::Reserve;
            o.arg = g.rng.range(6200, 9000) as u64;
            o.panic = 0;
            let at = g.rng.below(ss[s].ops.len() + 1);
            ss[s].ops.insert(at, o);
        }
        scripts.push(ss);
    }
    Case {
        cfg,
        prefill,
        reserve0: 0,
        gather,
        scripts,
        readers,
        nops: g.nops,
        keys: g.next_fresh,
    }
}

// ---------------------------------------------------------------- execution

pub struct Env<'m> {
    pub map: Option<&'m Map>,
    pub set: Option<&'m Set>,
    pub yield_user: bool,
    pub reader: bool,
    /// Record the length after every operation.
    pub lens: bool,
    /// Limit of entries that an operation may move (0: do not measure).
    pub chunk: usize,
}

/// Per thread state; closures share it.
pub struct Tc<'e> {
    thr: u8,
    env: &'e Env<'e>,
    pub log: RefCell<Log>,
    pub dead: Cell<bool>,
    depth: Cell<u32>,
    nested: Cell<u32>,
    made: RefCell<Vec<u64>>,
    pub may_leak: RefCell<Vec<u64>>,
    rng: RefCell<Rng>,
}

impl<'e> Tc<'e> {
    pub fn new(thr: u8, env: &'e Env<'e>, seed: u64) -> Tc<'e> {
        Tc {
            thr,
            env,
            log: RefCell::new(Log::default()),
            dead: Cell::new(false),
            depth: Cell::new(0),
            nested: Cell::new(0),
            made: RefCell::new(Vec::with_capacity(64)),
            may_leak: RefCell::new(vec![]),
            rng: RefCell::new(Rng::new(seed)),
        }
    }
}

/// References kept until the guard is released.
struct Held<'a> {
    v: RefCell<Vec<(&'a Val, u64)>>,
    k: RefCell<Vec<(&'a Key, u64)>>,
}

impl<'a> Held<'a> {
    fn new() -> Self {
        Held {
            v: RefCell::new(Vec::with_capacity(64)),
            k: RefCell::new(Vec::with_capacity(64)),
        }
    }
    fn recheck(&self) -> u64 {
        let v = self.v.borrow();
        for (v, u) in v.iter() {
            if v.uid() != *u {
                violation("C04", format!("held reference to value {u} now shows {}", v.uid()));
            }
        }
        let k = self.k.borrow();
        for (k, u) in k.iter() {
            if k.uid() != *u {
                violation("C04", format!("held reference to key object {u} now shows {}", k.uid()));
            }
        }
        (v.len() + k.len()) as u64
    }
}

impl<'e> Tc<'e> {
    fn key(&self, id: u32) -> Key {
        let k = Key::new(id);
        self.made.borrow_mut().push(k.uid());
        k
    }
    fn val(&self, key: u32, parent: u64) -> Val {
        let v = Val::new(key, parent);
        self.made.borrow_mut().push(v.uid());
        v
    }
    fn rec(&self, op: &Op, call: u32, exp: Exp, next: Next) {
        self.log.borrow_mut().recs.push(Rec {
            thr: self.thr,
            key: op.key,
            kind: kname(op.kind),
            call,
            ret: tick(),
            exp,
            next,
            optional: false,
        });
    }
    fn res(&self, op: &Op, msg: String) {
        violation("RES", format!("T{} {}(k{}): {msg}", self.thr, kname(op.kind), op.key));
    }
    /// Entry into a user closure.
    fn enter<'a, A: Api>(&self, a: &'a A, op: &Op, h: &Held<'a>) {
        unscoped(|| {
            if self.env.yield_user {
                sched::yield_point();
            }
            user_call();
            if let Some(n) = &op.nest {
                // A few times only: a closure that changes its own key on every call is
                // retried forever, and rightly so.
                if self.depth.get() == 0 && self.nested.get() < 2 {
                    self.nested.set(self.nested.get() + 1);
                    self.depth.set(1);
                    exec(a, n, self, h);
                    self.depth.set(0);
                }
            }
        })
    }
}

pub fn kname(k: K) -> &'static str {
    match k {
        K::Get => "get",
        K::GetByKey => "get(&K)",
        K::GetKv => "get_key_value",
        K::Contains => "contains",
        K::Insert => "insert",
        K::TryInsert => "try_insert",
        K::TryInsertWith => "try_insert_with",
        K::GetOrInsert => "get_or_insert",
        K::GetOrInsertWith => "get_or_insert_with",
        K::Update => "update",
        K::UpdateOrInsert => "update_or_insert",
        K::UpdateOrInsertWith => "update_or_insert_with",
        K::Compute => "compute",
        K::Remove => "remove",
        K::RemoveEntry => "remove_entry",
        K::RemoveIf => "remove_if",
        K::Clear => "clear",
        K::Retain => "retain",
        K::Reserve => "reserve",
        K::Iter => "iter",
        K::Len => "len",
        K::Sub => "sub",
    }
}

pub fn pred(p: u8, uid: u64) -> bool {
    match p & 3 {
        0 => uid & 1 == 0,
        1 => uid % 3 != 0,
        2 => false,
        _ => uid & 4 == 0,
    }
}

/// What the predicates of retain answer. They keep two keys in all cases: tables that are made too
/// small (see `generate_abort`) rely on those.
pub fn keeps(p: u8, uid: u64, id: u32) -> bool {
    id == 64 || id == 65 || pred(p, uid)
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "opaque panic".into()
    }
}

fn exec<'a, A: Api>(a: &'a A, op: &Op, tc: &Tc<'_>, h: &Held<'a>) {
    if tc.dead.get() {
        return;
    }
    tc.log.borrow_mut().ops += 1;
    let base = tc.made.borrow().len();
    if tc.depth.get() == 0 {
        tc.nested.set(0);
        if base > 512 {
            tc.made.borrow_mut().clear();
        }
    }
    let base = tc.made.borrow().len();
    if op.panic > 0 {
        panic_in(op.panic);
        operand(if op.kind == K::Retain { u32::MAX - 1 } else { op.key });
    }
    let look = tc.env.reader;
    if look {
        sched::lookup(true);
    }
    let sw = tc.log.borrow().sweeps.len();
    let work = tc.env.chunk > 0 && tc.depth.get() == 0 && !matches!(op.kind, K::Sub);
    let failed = sched::failed_cas();
    if work {
        record_hashes(true);
    }
    let r = catch_unwind(AssertUnwindSafe(|| exec_inner(a, op, tc, h)));
    if work {
        let moved = record_hashes(false).iter().filter(|k| **k != op.key).count();
        let all = matches!(op.kind, K::Clear | K::Retain | K::Reserve | K::Iter);
        let max = match op.kind {
            _ if all => usize::MAX,
            K::Get | K::GetByKey | K::GetKv | K::Contains | K::Len => 0,
            // A thread that loses a race for a slot also hashes the key that won.
            _ => match (failed, sched::failed_cas()) {
                (Some(a), Some(b)) => tc.env.chunk + (b - a) as usize,
                _ => tc.env.chunk * 4 + 16,
            },
        };
        let mut l = tc.log.borrow_mut();
        l.measured += !all as u64;
        if !all {
            l.max_moved = l.max_moved.max(moved as u64);
            l.moved += moved as u64;
        }
        if moved > max {
            violation(
                "WORK",
                format!("T{} {}(k{}) moved {moved} entries, its chunk size is {}", tc.thr, kname(op.kind), op.key, tc.env.chunk),
            );
        }
    }
    if look {
        sched::lookup(false);
    }
    if op.panic > 0 {
        panic_in(0);
        operand(u32::MAX);
    }
    if let Err(e) = r {
        if e.is::<Injected>() {
            tc.depth.set(0);
            let mut l = tc.log.borrow_mut();
            l.panics += 1;
            // A sweep that panicked.
            for s in &mut l.sweeps[sw..] {
                if s.ret == u32::MAX {
                    s.ret = tick();
                }
            }
            drop(l);
            let m = tc.made.borrow();
            tc.may_leak.borrow_mut().extend_from_slice(&m[base..]);
        } else {
            violation(
                "PANIC",
                format!("T{} {}(k{}) panicked: {}", tc.thr, kname(op.kind), op.key, panic_text(&*e)),
            );
            tc.dead.set(true);
        }
    }
}

/// Check an observed value and return its uid.
fn obs(tc: &Tc<'_>, op: &Op, v: &Val) -> u64 {
    if v.key != op.key {
        tc.res(op, format!("returned the value of key {}", v.key));
    }
    v.uid()
}

fn exec_inner<'a, A: Api>(a: &'a A, op: &Op, tc: &Tc<'_>, h: &Held<'a>) {
    let q = Q(op.key);
    let keep = |v: &'a Val| -> u64 {
        let u = obs(tc, op, v);
        let mut hv = h.v.borrow_mut();
        if hv.len() < 64 {
            hv.push((v, u));
        }
        u
    };
    let keep_k = |k: &'a Key| {
        if k.get() != op.key {
            tc.res(op, format!("returned key {}", k.get()));
        }
        let mut hk = h.k.borrow_mut();
        if hk.len() < 64 {
            hk.push((k, k.uid()));
        }
    };
    let call = tick();
    match op.kind {
        K::Get => {
            let r = scope(|| a.get(q)).map(keep);
            tc.rec(op, call, Exp::Is(r), Next::Same);
        }
        K::GetByKey => {
            let k = Key::new(op.key);
            let r = scope(|| a.get_by_key(&k)).map(keep);
            tc.rec(op, call, Exp::Is(r), Next::Same);
        }
        K::GetKv => {
            let r = scope(|| a.get_kv(q)).map(|(k, v)| {
                keep_k(k);
                keep(v)
            });
            tc.rec(op, call, Exp::Is(r), Next::Same);
        }
        K::Contains => {
            let r = scope(|| a.contains(q));
            tc.rec(op, call, if r { Exp::Present } else { Exp::Is(None) }, Next::Same);
        }
        K::Insert => {
            let (k, v) = (tc.key(op.key), tc.val(op.key, 0));
            let u = v.uid();
            let r = scope(|| a.insert(k, v)).map(keep);
            tc.rec(op, call, Exp::Is(r), Next::To(Some(u)));
        }
        K::TryInsert => {
            let (k, v) = (tc.key(op.key), tc.val(op.key, 0));
            let u = v.uid();
            match scope(|| a.try_insert(k, v)) {
                Ok(v) => {
                    let x = keep(v);
                    if x != u {
                        tc.res(op, format!("inserted v{u} but returned v{x}"));
                    }
                    tc.rec(op, call, Exp::Is(None), Next::To(Some(u)));
                }
                Err((cur, mine)) => {
                    if mine.uid() != u {
                        tc.res(op, format!("handed back v{} instead of v{u}", mine.uid()));
                    }
                    let x = keep(cur);
                    tc.rec(op, call, Exp::Is(Some(x)), Next::Same);
                }
            }
        }
        K::TryInsertWith => {
            let k = tc.key(op.key);
            let made = Cell::new(0);
            let r = scope(|| {
                a.try_insert_with(k, || {
                    tc.enter(a, op, h);
                    let v = unscoped(|| tc.val(op.key, 0));
                    made.set(v.uid());
                    v
                })
            });
            match r {
                Ok(v) => {
                    let x = keep(v);
                    if x != made.get() {
                        tc.res(op, format!("Ok(v{x}) is not the value the closure made"));
                    }
                    tc.rec(op, call, Exp::Is(None), Next::To(Some(x)));
                }
                Err(v) => {
                    let x = keep(v);
                    tc.rec(op, call, Exp::Is(Some(x)), Next::Same);
                }
            }
        }
        K::GetOrInsert | K::GetOrInsertWith => {
            let k = tc.key(op.key);
            let made = Cell::new(0);
            let r = if op.kind == K::GetOrInsert {
                let v = tc.val(op.key, 0);
                made.set(v.uid());
                scope(|| a.get_or_insert(k, v))
            } else {
                scope(|| {
                    a.get_or_insert_with(k, || {
                        tc.enter(a, op, h);
                        let v = unscoped(|| tc.val(op.key, 0));
                        made.set(v.uid());
                        v
                    })
                })
            };
            let x = keep(r);
            if x == made.get() {
                tc.rec(op, call, Exp::Is(None), Next::To(Some(x)));
            } else {
                tc.rec(op, call, Exp::Is(Some(x)), Next::Same);
            }
        }
        K::Update => {
            let k = tc.key(op.key);
            let last = Cell::new((0, 0));
            let r = scope(|| {
                a.update(k, |v| {
                    let p = obs(tc, op, v);
                    tc.enter(a, op, h);
                    let n = unscoped(|| tc.val(op.key, p));
                    last.set((p, n.uid()));
                    n
                })
            });
            match r {
                None => tc.rec(op, call, Exp::Is(None), Next::Same),
                Some(v) => {
                    let x = keep(v);
                    if !tc.made.borrow().contains(&x) {
                        tc.res(op, format!("returned v{x}, which its closure did not make"));
                    }
                    tc.rec(op, call, Exp::Is(Some(v.parent())), Next::To(Some(x)));
                }
            }
        }
        K::UpdateOrInsert | K::UpdateOrInsertWith => {
            let k = tc.key(op.key);
            let made = Cell::new(0);
            let upd = |v: &Val| {
                let p = obs(tc, op, v);
                tc.enter(a, op, h);
                unscoped(|| tc.val(op.key, p))
            };
            let r = if op.kind == K::UpdateOrInsert {
                let v = tc.val(op.key, 0);
                made.set(v.uid());
                scope(|| a.update_or_insert(k, upd, v))
            } else {
                scope(|| {
                    a.update_or_insert_with(k, upd, || {
                        tc.enter(a, op, h);
                        let v = unscoped(|| tc.val(op.key, 0));
                        made.set(v.uid());
                        v
                    })
                })
            };
            let x = keep(r);
            if !tc.made.borrow().contains(&x) {
                tc.res(op, format!("returned v{x}, which it did not make"));
            }
            if x == made.get() {
                tc.rec(op, call, Exp::Is(None), Next::To(Some(x)));
            } else {
                tc.rec(op, call, Exp::Is(Some(r.parent())), Next::To(Some(x)));
            }
        }
        K::Compute => {
            let k = tc.key(op.key);
            // What to do with absent / present entries.
            let on_none = op.arg & 3; // 0: abort, else insert
            // 0,1 update 2,3 remove 4 abort, half of the time depending on the value.
            let decide = |v: u64| ((op.arg >> 2) + if op.arg & 1 << 40 != 0 { v } else { 0 }) % 5;
            let last = Cell::new((None::<u64>, 0u64));
            let asked = RefCell::new(Vec::with_capacity(8));
            let r = scope(|| {
                a.compute(k, |e| {
                    let e = e.map(|(k, v)| {
                        if k.get() != op.key {
                            tc.res(op, format!("closure was given key {}", k.get()));
                        }
                        obs(tc, op, v)
                    });
                    tc.enter(a, op, h);
                    last.set((e, 0));
                    unscoped(|| asked.borrow_mut().extend(e));
                    unscoped(|| match e {
                        None if on_none == 0 => Operation::Abort(0),
                        None => {
                            let v = tc.val(op.key, 0);
                            last.set((None, v.uid()));
                            Operation::Insert(v)
                        }
                        Some(p) => match decide(p) {
                            0 | 1 => {
                                let v = tc.val(op.key, p);
                                last.set((Some(p), v.uid()));
                                Operation::Insert(v)
                            }
                            2 | 3 => Operation::Remove,
                            _ => Operation::Abort(p),
                        },
                    })
                })
            });
            let (e, _) = last.get();
            match r {
                Compute::Inserted(k, v) => {
                    keep_k(k);
                    let x = keep(v);
                    if v.parent() != 0 {
                        tc.res(op, format!("Inserted(v{x}) was computed from v{}", v.parent()));
                    }
                    if !tc.made.borrow().contains(&x) {
                        tc.res(op, format!("Inserted(v{x}) is not a value its closure made"));
                    }
                    tc.rec(op, call, Exp::Is(None), Next::To(Some(x)));
                }
                Compute::Updated { old: (ok, ov), new: (nk, nv) } => {
                    keep_k(ok);
                    keep_k(nk);
                    let (o, n) = (keep(ov), keep(nv));
                    if nv.parent() != o {
                        tc.res(op, format!("Updated v{o} to v{n}, but v{n} was computed from v{}", nv.parent()));
                    }
                    if !tc.made.borrow().contains(&n) {
                        tc.res(op, format!("Updated(v{n}) is not a value its closure made"));
                    }
                    tc.rec(op, call, Exp::Is(Some(o)), Next::To(Some(n)));
                }
                Compute::Removed(k, v) => {
                    keep_k(k);
                    let x = keep(v);
                    if !asked.borrow().contains(&x) || !matches!(decide(x), 2 | 3) {
                        tc.res(op, format!("removed v{x}, but the closure never asked for it"));
                    }
                    tc.rec(op, call, Exp::Is(Some(x)), Next::To(None));
                }
                Compute::Aborted(x) => {
                    let want = e.unwrap_or(0);
                    if x != want {
                        tc.res(op, format!("Aborted({x}) but the closure last aborted on {want}"));
                    }
                    tc.rec(op, call, Exp::Is(if x == 0 { None } else { Some(x) }), Next::Same);
                }
            }
        }
        K::Remove => {
            let r = scope(|| a.remove(q)).map(keep);
            tc.rec(op, call, Exp::Is(r), if r.is_some() { Next::To(None) } else { Next::Same });
        }
        K::RemoveEntry => {
            let r = scope(|| a.remove_entry(q)).map(|(k, v)| {
                keep_k(k);
                keep(v)
            });
            tc.rec(op, call, Exp::Is(r), if r.is_some() { Next::To(None) } else { Next::Same });
        }
        K::RemoveIf => {
            let p = op.arg as u8 & 3;
            let last = Cell::new(0);
            let r = scope(|| {
                a.remove_if(q, |k, v| {
                    if k.get() != op.key {
                        tc.res(op, format!("predicate was given key {}", k.get()));
                    }
                    let u = obs(tc, op, v);
                    tc.enter(a, op, h);
                    last.set(u);
                    pred(p, u)
                })
            });
            match r {
                Ok(None) => tc.rec(op, call, Exp::Is(None), Next::Same),
                Ok(Some((k, v))) => {
                    keep_k(k);
                    let x = keep(v);
                    if !pred(p, x) {
                        tc.res(op, format!("removed v{x}, which the predicate refused"));
                    }
                    tc.rec(op, call, Exp::Is(Some(x)), Next::To(None));
                }
                Err((k, v)) => {
                    keep_k(k);
                    let x = keep(v);
                    if pred(p, x) {
                        tc.res(op, format!("did not remove v{x}, which the predicate accepted"));
                    }
                    tc.rec(op, call, Exp::Is(Some(x)), Next::Same);
                }
            }
        }
        K::Clear => {
            scope(|| a.clear());
            tc.log.borrow_mut().sweeps.push(SweepRec {
                thr: tc.thr,
                call,
                ret: tick(),
                clear: true,
                complete: true,
                ..Default::default()
            });
        }
        K::Retain => {
            let p = op.arg as u8 & 3;
            let idx = {
                let mut l = tc.log.borrow_mut();
                l.sweeps.push(SweepRec {
                    thr: tc.thr,
                    call,
                    ret: u32::MAX,
                    clear: false,
                    pred: p,
                    complete: false,
                    verdicts: Vec::new(),
                });
                l.sweeps.len() - 1
            };
            scope(|| {
                a.retain(|k, v| {
                    let id = k.get();
                    if v.key != id {
                        tc.res(op, format!("predicate was given k{id} with the value of k{}", v.key));
                    }
                    let u = v.uid();
                    tc.enter(a, op, h);
                    let keep = keeps(p, u, id);
                    unscoped(|| tc.log.borrow_mut().sweeps[idx].verdicts.push((id, u, keep)));
                    keep
                })
            });
            let mut l = tc.log.borrow_mut();
            l.sweeps[idx].ret = tick();
            l.sweeps[idx].complete = true;
        }
        K::Reserve => scope(|| a.reserve(op.arg as usize)),
        K::Iter if op.arg >> 63 == 1 && tc.env.map.is_some() => {
            let m = tc.env.map.unwrap();
            let mut rec = IterRec { thr: tc.thr, call, ..Default::default() };
            let mut pairs: Vec<(u32, u64)> = vec![];
            let bad = |t: &str| violation("CONV", format!("malformed output {t}"));
            match op.arg & 7 {
                0..=3 => {
                    rec.kind = "clone";
                    let c = scope(|| m.clone());
                    let g = scope(|| c.guard());
                    scope(|| {
                        c.iter(&g).for_each(|(k, v)| {
                            if k.get() != v.key {
                                violation("CONV", format!("clone paired k{} with the value of k{}", k.get(), v.key));
                            }
                            unscoped(|| pairs.push((v.key, v.parent())))
                        })
                    });
                    if c.len() != pairs.len() {
                        violation("CONV", format!("a clone says len() = {} but yields {} entries", c.len(), pairs.len()));
                    }
                    scope(|| drop(g));
                    scope(|| drop(c));
                }
                4 | 5 => {
                    rec.kind = "debug";
                    let t = scope(|| format!("{m:?}"));
                    for e in t.trim_matches(['{', '}']).split(", ").filter(|e| !e.is_empty()) {
                        let p = e.split_once(": ").and_then(|(a, b)| {
                            Some((a.strip_prefix('k')?.parse().ok()?, b.strip_prefix('v')?.parse().ok()?))
                        });
                        match p {
                            Some(p) => pairs.push(p),
                            None => bad(&t),
                        }
                    }
                    scope(|| drop(t));
                }
                _ => {
                    rec.kind = "serialize";
                    let t = scope(|| serde_json::to_string(m).unwrap());
                    for e in t.trim_matches(['{', '}']).split(',').filter(|e| !e.is_empty()) {
                        let p = e
                            .split_once(':')
                            .and_then(|(a, b)| Some((a.trim_matches('"').parse().ok()?, b.parse().ok()?)));
                        match p {
                            Some(p) => pairs.push(p),
                            None => bad(&t),
                        }
                    }
                    scope(|| drop(t));
                }
            }
            rec.ret = tick();
            rec.yields = pairs.into_iter().map(|(k, v)| (k, v, rec.ret)).collect();
            tc.log.borrow_mut().iters.push(rec);
        }
        K::Iter => {
            let w = match op.arg & 7 {
                0 => Walk::Keys,
                1 => Walk::Values,
                2 => Walk::IntoIter,
                _ => Walk::Iter,
            };
            let rec = RefCell::new(IterRec {
                thr: tc.thr,
                kind: match w {
                    Walk::Iter => "iter",
                    Walk::Keys => "keys",
                    Walk::Values => "values",
                    Walk::IntoIter => "into_iter",
                },
                call,
                ..Default::default()
            });
            let h2 = h;
            scope(|| {
                a.walk(
                    w,
                    &mut || rec.borrow_mut().created = tick(),
                    &mut |k, v| {
                        unscoped(|| {
                            let id = k.map(|k| k.get());
                            let vu = v.map_or(0, |v| v.uid());
                            let vk = v.map(|v| v.key);
                            if let (Some(i), Some(j)) = (id, vk) {
                                if i != j {
                                    violation("ITER", format!("iteration paired k{i} with the value of k{j}"));
                                }
                            }
                            let id = id.or(vk).unwrap();
                            rec.borrow_mut().yields.push((id, vu, tick()));
                            if let Some(v) = v {
                                let mut hv = h2.v.borrow_mut();
                                if hv.len() < 64 {
                                    hv.push((v, vu));
                                }
                            }
                            if let Some(k) = k {
                                let mut hk = h2.k.borrow_mut();
                                if hk.len() < 64 {
                                    hk.push((k, k.uid()));
                                }
                            }
                        });
                        tc.enter(a, op, h);
                    },
                )
            });
            let mut rec = rec.into_inner();
            rec.ret = tick();
            tc.log.borrow_mut().iters.push(rec);
        }
        K::Len => {
            let len = scope(|| a.len());
            let empty = scope(|| a.is_empty());
            let ret = tick();
            tc.log.borrow_mut().lens.push(LenRec { call, ret, len, empty });
        }
        K::Sub => {
            if let Some(m) = tc.env.map {
                session(m, op.sub.as_ref().unwrap(), tc, None);
            }
        }
    }
}

fn run_ops<'a, A: Api>(a: &'a A, ops: &[Op], tc: &Tc<'_>) {
    let h = Held::new();
    for op in ops {
        exec(a, op, tc, &h);
        if tc.env.lens {
            let call = tick();
            let (len, empty) = (scope(|| a.len()), scope(|| a.is_empty()));
            tc.log.borrow_mut().lens.push(LenRec { call, ret: tick(), len, empty });
        }
        if tc.rng.borrow_mut().chance(1, 4) {
            let n = h.recheck();
            tc.log.borrow_mut().rechecks += n;
        }
    }
    let n = h.recheck();
    tc.log.borrow_mut().rechecks += n;
}

pub type SharedPin<'m> = ByRef<'m, papaya::OwnedGuard<'m>>;

pub fn session<'m>(m: &'m Map, s: &Session, tc: &Tc<'_>, shared: Option<&'m SharedPin<'m>>) {
    fn end<T>(x: T) {
        sched::quiet(|| scope(|| drop(x)));
    }
    match (s.fl, shared) {
        (Fl::Shared, Some(p)) => run_ops(p, &s.ops, tc),
        (Fl::Pin | Fl::Shared, _) => {
            let r = ByRef(scope(|| m.pin()));
            run_ops(&r, &s.ops, tc);
            end(r);
        }
        (Fl::Guard, _) => {
            let r = ByGuard { m, g: scope(|| m.guard()) };
            run_ops(&r, &s.ops, tc);
            end(r);
        }
        (Fl::PinOwned, _) => {
            let r = ByRef(scope(|| m.pin_owned()));
            run_ops(&r, &s.ops, tc);
            end(r);
        }
        (Fl::OwnedGuard, _) => {
            let r = ByGuard { m, g: scope(|| m.owned_guard()) };
            run_ops(&r, &s.ops, tc);
            end(r);
        }
    }
}

// ---- sets ----

pub trait SetApi {
    fn get(&self, q: Q) -> Option<&Key>;
    fn contains(&self, q: Q) -> bool;
    fn insert(&self, k: Key) -> bool;
    fn remove(&self, q: Q) -> bool;
    fn clear(&self);
    fn retain(&self, f: &mut dyn FnMut(&Key) -> bool);
    fn reserve(&self, n: usize);
    fn walk<'a>(&'a self, into: bool, created: &mut dyn FnMut(), f: &mut dyn FnMut(&'a Key));
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

pub struct SRef<'m, G>(pub papaya::HashSetRef<'m, Key, Hb, G>);
pub struct SGuard<'m, G>(pub &'m Set, pub G);

impl<G: Guard> SetApi for SRef<'_, G> {
    fn get(&self, q: Q) -> Option<&Key> {
        self.0.get(&q)
    }
    fn contains(&self, q: Q) -> bool {
        self.0.contains(&q)
    }
    fn insert(&self, k: Key) -> bool {
        self.0.insert(k)
    }
    fn remove(&self, q: Q) -> bool {
        self.0.remove(&q)
    }
    fn clear(&self) {
        self.0.clear()
    }
    fn retain(&self, f: &mut dyn FnMut(&Key) -> bool) {
        self.0.set().pin().retain(f)
    }
    fn reserve(&self, n: usize) {
        self.0.reserve(n)
    }
    fn walk<'a>(&'a self, into: bool, created: &mut dyn FnMut(), f: &mut dyn FnMut(&'a Key)) {
        let it = if into { (&self.0).into_iter() } else { self.0.iter() };
        created();
        it.for_each(f)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

impl<G: Guard> SetApi for SGuard<'_, G> {
    fn get(&self, q: Q) -> Option<&Key> {
        self.0.get(&q, &self.1)
    }
    fn contains(&self, q: Q) -> bool {
        self.0.contains(&q, &self.1)
    }
    fn insert(&self, k: Key) -> bool {
        self.0.insert(k, &self.1)
    }
    fn remove(&self, q: Q) -> bool {
        self.0.remove(&q, &self.1)
    }
    fn clear(&self) {
        self.0.clear(&self.1)
    }
    fn retain(&self, f: &mut dyn FnMut(&Key) -> bool) {
        self.0.retain(f, &self.1)
    }
    fn reserve(&self, n: usize) {
        self.0.reserve(n, &self.1)
    }
    fn walk<'a>(&'a self, _: bool, created: &mut dyn FnMut(), f: &mut dyn FnMut(&'a Key)) {
        let it = self.0.iter(&self.1);
        created();
        it.for_each(f)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

fn exec_set<'a, A: SetApi>(a: &'a A, op: &Op, tc: &Tc<'_>, h: &Held<'a>) {
    if tc.dead.get() {
        return;
    }
    tc.log.borrow_mut().ops += 1;
    let look = tc.env.reader;
    if tc.made.borrow().len() > 512 {
        tc.made.borrow_mut().clear();
    }
    let made = tc.made.borrow().len();
    let sw = tc.log.borrow().sweeps.len();
    if op.panic > 0 {
        panic_in(op.panic);
        operand(if op.kind == K::Retain { u32::MAX - 1 } else { op.key });
    }
    if look {
        sched::lookup(true);
    }
    let r = catch_unwind(AssertUnwindSafe(|| set_inner(a, op, tc, h)));
    if look {
        sched::lookup(false);
    }
    if op.panic > 0 {
        panic_in(0);
        operand(u32::MAX);
    }
    if let Err(e) = r {
        if e.is::<Injected>() {
            let mut l = tc.log.borrow_mut();
            l.panics += 1;
            for s in &mut l.sweeps[sw..] {
                if s.ret == u32::MAX {
                    s.ret = tick();
                }
            }
            tc.may_leak.borrow_mut().extend_from_slice(&tc.made.borrow()[made..]);
            return;
        }
        violation(
            "PANIC",
            format!("T{} set {}(k{}) panicked: {}", tc.thr, kname(op.kind), op.key, panic_text(&*e)),
        );
        tc.dead.set(true);
    }
}

fn set_inner<'a, A: SetApi>(a: &'a A, op: &Op, tc: &Tc<'_>, h: &Held<'a>) {
    let q = Q(op.key);
    let call = tick();
    let keep = |k: &'a Key, hk: &mut Vec<(&'a Key, u64)>| {
        let u = k.uid();
        if hk.len() < 64 {
            hk.push((k, u));
        }
        u
    };
    match op.kind {
        K::Get => {
            let r = scope(|| a.get(q)).map(|k| {
                if k.get() != op.key {
                    tc.res(op, format!("returned key {}", k.get()));
                }
                keep(k, &mut h.k.borrow_mut())
            });
            tc.rec(op, call, Exp::Is(r), Next::Same);
        }
        K::Contains => {
            let r = scope(|| a.contains(q));
            tc.rec(op, call, if r { Exp::Present } else { Exp::Is(None) }, Next::Same);
        }
        K::Insert => {
            let k = tc.key(op.key);
            let u = k.uid();
            if scope(|| a.insert(k)) {
                tc.rec(op, call, Exp::Is(None), Next::To(Some(u)));
            } else {
                tc.rec(op, call, Exp::Present, Next::Same);
            }
        }
        K::Remove => {
            if scope(|| a.remove(q)) {
                tc.rec(op, call, Exp::Present, Next::To(None));
            } else {
                tc.rec(op, call, Exp::Is(None), Next::Same);
            }
        }
        K::Clear => {
            scope(|| a.clear());
            tc.log.borrow_mut().sweeps.push(SweepRec {
                thr: tc.thr,
                call,
                ret: tick(),
                clear: true,
                complete: true,
                ..Default::default()
            });
        }
        K::Retain => {
            let p = op.arg as u8 & 3;
            let idx = {
                let mut l = tc.log.borrow_mut();
                l.sweeps.push(SweepRec {
                    thr: tc.thr,
                    call,
                    ret: u32::MAX,
                    clear: false,
                    pred: p,
                    complete: false,
                    verdicts: Vec::new(),
                });
                l.sweeps.len() - 1
            };
            scope(|| {
                a.retain(&mut |k| {
                    unscoped(|| {
                        let u = k.uid();
                        if tc.env.yield_user {
                            sched::yield_point();
                        }
                        user_call();
                        let keep = keeps(p, u, k.get());
                        tc.log.borrow_mut().sweeps[idx].verdicts.push((k.get(), u, keep));
                        keep
                    })
                })
            });
            let mut l = tc.log.borrow_mut();
            l.sweeps[idx].ret = tick();
            l.sweeps[idx].complete = true;
        }
        K::Reserve => scope(|| a.reserve(op.arg as usize)),
        K::Iter => {
            let rec = RefCell::new(IterRec {
                thr: tc.thr,
                kind: "iter",
                call,
                ..Default::default()
            });
            scope(|| {
                a.walk(
                    op.arg & 1 == 0,
                    &mut || rec.borrow_mut().created = tick(),
                    &mut |k| {
                        unscoped(|| {
                            let u = keep(k, &mut h.k.borrow_mut());
                            rec.borrow_mut().yields.push((k.get(), u, tick()));
                            if tc.env.yield_user {
                                sched::yield_point();
                            }
                        })
                    },
                )
            });
            let mut rec = rec.into_inner();
            rec.ret = tick();
            tc.log.borrow_mut().iters.push(rec);
        }
        _ => {
            let len = scope(|| a.len());
            let empty = scope(|| a.is_empty());
            let ret = tick();
            tc.log.borrow_mut().lens.push(LenRec { call, ret, len, empty });
        }
    }
}

fn run_set<'a, A: SetApi>(a: &'a A, ops: &[Op], tc: &Tc<'_>) {
    let h = Held::new();
    for op in ops {
        exec_set(a, op, tc, &h);
        if tc.env.lens {
            let call = tick();
            let (len, empty) = (scope(|| a.len()), scope(|| a.is_empty()));
            tc.log.borrow_mut().lens.push(LenRec { call, ret: tick(), len, empty });
        }
        if tc.rng.borrow_mut().chance(1, 4) {
            let n = h.recheck();
            tc.log.borrow_mut().rechecks += n;
        }
    }
    let n = h.recheck();
    tc.log.borrow_mut().rechecks += n;
}

pub type SharedSet<'m> = SRef<'m, papaya::OwnedGuard<'m>>;

pub fn set_session<'m>(m: &'m Set, s: &Session, tc: &Tc<'_>, shared: Option<&'m SharedSet<'m>>) {
    fn end<T>(x: T) {
        sched::quiet(|| scope(|| drop(x)));
    }
    match (s.fl, shared) {
        (Fl::Shared, Some(p)) => run_set(p, &s.ops, tc),
        (Fl::Pin | Fl::Shared, _) => {
            let r = SRef(scope(|| m.pin()));
            run_set(&r, &s.ops, tc);
            end(r);
        }
        (Fl::Guard, _) => {
            let r = SGuard(m, scope(|| m.guard()));
            run_set(&r, &s.ops, tc);
            end(r);
        }
        (Fl::PinOwned, _) => {
            let r = SRef(scope(|| m.pin_owned()));
            run_set(&r, &s.ops, tc);
            end(r);
        }
        (Fl::OwnedGuard, _) => {
            let r = SGuard(m, scope(|| m.owned_guard()));
            run_set(&r, &s.ops, tc);
            end(r);
        }
    }
}

// ---------------------------------------------------------------- one execution

#[derive(Default, Clone, Debug)]
pub struct Out {
    pub stats: sched::Stats,
    pub ops: u64,
    pub recs: u64,
    pub iters: u64,
    pub yields: u64,
    pub sweeps: u64,
    pub verdicts: u64,
    pub lens: u64,
    pub panics: u64,
    pub rechecks: u64,
    pub wgl_keys: u64,
    pub wgl_unknown: u64,
    pub objects: u64,
    pub blocks: u64,
    pub must_yield: u64,
    pub overlaps: u64,
    pub versions: u64,
    pub mid_resize_drop: u64,
    pub tables_end: u64,
    pub measured: u64,
    pub moved: u64,
    pub max_moved: u64,
}

pub fn plan_for(p: &Prof, case: &Case, rng: &mut Rng) -> sched::Plan {
    let n = case.scripts.len();
    let est = 20 + case.nops as u64 * 22;
    let mut plan = sched::Plan::random(rng, n, est);
    plan.hb = p.hb;
    plan.uaf = case.cfg.quarantine && !p.hb;
    if case.cfg.cap > 1000 {
        plan.soft = 3_000_000;
        plan.hard = 40_000_000;
        plan.strat = match rng.below(3) {
            0 => sched::Strat::Serial,
            1 => sched::Strat::Burst(2000),
            _ => sched::Strat::Walk(1),
        };
        plan.est = 40_000;
        for s in &mut plan.stalls {
            s.at = rng.below(30_000) as u64;
            s.len = rng.pick(&[2000, 20_000, 1 << 40]);
        }
    }
    if case.reserve0 > 0 && rng.chance(4, 5) {
        // Let somebody begin to shrink and then fall behind.
        plan.strat = match rng.below(4) {
            0 => sched::Strat::Serial,
            1 => sched::Strat::Burst(rng.pick(&[10, 40, 100])),
            _ => sched::Strat::Walk(rng.pick(&[3, 10, 30, 80])),
        };
        plan.event_stall = Some((0, 1024, rng.pick(&[250, 500, 1000, 1500, 2000, 3000, 1 << 40])));
        let filler = (0..n).max_by_key(|t| case.scripts[*t][0].ops.len()).unwrap();
        if rng.chance(1, 2) {
            // The insertion that makes the table too small is not counted when the next is chosen.
            // An insertion changes the slot and the counter.
            let fill = case.scripts[filler][0].ops.len() as u32 - 1;
            plan.rmw_at = (filler, 2 * fill - 1 - 2 * rng.pick(&[0, 0, 0, 1, 2]), rng.pick(&[1500, 3000, 6000]));
        } else if rng.chance(1, 2) {
            plan.rmw_stall = (rng.pick(&[20, 60, 150]), rng.pick(&[200, 1000, 3000]));
        }
    }
    if case.gather {
        plan.strat = match rng.below(3) {
            0 => sched::Strat::Pos,
            1 => sched::Strat::Burst(rng.pick(&[4, 10, 30])),
            _ => sched::Strat::Walk(rng.pick(&[60, 150, 300])),
        };
        plan.rmw_stall = (rng.pick(&[100, 250, 500]), rng.pick(&[60, 150, 400]));
    }
    if p.freeze {
        plan.freeze = Some(sched::Freeze {
            at: rng.below(est as usize) as u64,
            readers: case.readers,
            bound: 2000,
        });
    }
    plan
}

pub fn run_one(p: &Prof, seed: u64, cores: &[usize], core: usize, dump: bool) -> Out {
    let case = generate(p, seed);
    let mut rng = Rng::new(seed ^ 0xABCD_EF01);
    let plan = plan_for(p, &case, &mut rng);
    if dump {
        eprintln!("{:?}\nprefill {:?}\nplan {:?}", case.cfg, case.prefill, plan);
        for (t, s) in case.scripts.iter().enumerate() {
            eprintln!("T{t}:");
            for s in s {
                eprintln!("  {:?}", s.fl);
                for o in &s.ops {
                    eprintln!(
                        "    {}(k{}) arg {:x} panic {} nest {:?}",
                        kname(o.kind),
                        o.key,
                        o.arg,
                        o.panic,
                        o.nest.as_ref().map(|n| (kname(n.kind), n.key))
                    );
                }
            }
        }
    }
    let cfg = case.cfg.clone();
    reset();
    sched::CLOCK.store(1, SeqCst);
    YIELD_USER.store(cfg.yield_user, Relaxed);
    sched::BATCH.store(cfg.batch, Relaxed);
    if !p.free {
        alloc::start(cfg.quarantine);
        crate::affinity::set(if cfg.one_shard { std::slice::from_ref(&core) } else { cores });
    }
    let ev0: Vec<u32> = EVENTS.iter().map(|e| e.load(Relaxed)).collect();

    let mut init: BTreeMap<u32, Option<u64>> = BTreeMap::new();
    let n = case.scripts.len();
    let mut out = Out::default();
    let logs: Vec<std::sync::Mutex<Option<(Log, Vec<u64>)>>> = (0..n).map(|_| Default::default()).collect();
    let final_state: BTreeMap<u32, Option<u64>>;
    let fin_call;

    macro_rules! body {
        ($build:ident, $ins:expr, $rem:expr, $pin:expr, $shared:ty, $sess:ident, $env:expr, $fget:expr, $fiter:expr) => {{
            let map = scope(|| $build(&cfg));
            if !p.free {
                crate::affinity::set(&[core]);
            }
            if case.reserve0 > 0 {
                scope(|| {
                    map.pin().reserve(case.reserve0);
                });
            }
            for &(k, ins) in &case.prefill {
                if ins {
                    init.insert(k, Some($ins(&map, k)));
                } else {
                    scope(|| $rem(&map, k));
                    init.insert(k, None);
                }
            }
            {
                let any = case.scripts.iter().flatten().any(|s| s.fl == Fl::Shared);
                let shared = any.then(|| $pin(&map));
                let job = |t: usize| {
                    let mut env: Env<'_> = $env(&map, cfg.yield_user, case.readers >> t & 1 == 1);
                    if p.work && cfg.mode != 0 {
                        env.chunk = cfg.mode as usize;
                    }
                    let tc = Tc::new(t as u8, &env, seed ^ (t as u64) << 8);
                    for s in &case.scripts[t] {
                        $sess(&map, s, &tc, shared.as_ref());
                    }
                    *logs[t].lock().unwrap() = Some((tc.log.into_inner(), tc.may_leak.into_inner()));
                };
                let (stats, verdict) = if p.free {
                    sched::run_free(n, seed, &job);
                    let mut s = sched::Stats::default();
                    for (i, e) in EVENTS.iter().enumerate() {
                        s.events[i] = (e.load(Relaxed) - ev0[i]) as u64;
                    }
                    (s, None)
                } else {
                    sched::run(n, plan, &job)
                };
                if let Some((p, m)) = verdict {
                    violation(p, m);
                }
                out.stats = stats;
                scope(|| drop(shared));
            }
            fin_call = tick();
            // Quiescent: the contents according to lookups.
            let mut st = BTreeMap::new();
            for k in 0..case.keys {
                st.insert(k, $fget(&map, k));
            }
            let present = st.values().filter(|v| v.is_some()).count();
            let (len, empty) = (map.len(), map.is_empty());
            if len != present || empty != (present == 0) {
                violation(
                    "LEN",
                    format!("quiescent: len() = {len}, is_empty() = {empty}, but {present} keys are present"),
                );
            }
            if cfg.early_drop {
                out.mid_resize_drop += 1;
            } else {
                let mut it: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
                scope(|| $fiter(&map, &mut |k: u32, u: u64| unscoped(|| it.entry(k).or_default().push(u))));
                for (k, us) in &it {
                    if us.len() > 1 {
                        violation("FINAL", format!("quiescent iteration yields k{k} {} times: {us:?}", us.len()));
                    } else if st.get(k).copied().flatten() != Some(us[0]) {
                        violation(
                            "FINAL",
                            format!("quiescent iteration yields k{k} = v{}, but get returns {:?}", us[0], st.get(k)),
                        );
                    }
                }
                for (k, u) in &st {
                    if u.is_some() && !it.contains_key(k) {
                        violation("FINAL", format!("quiescent iteration skips k{k}, which get finds"));
                    }
                }
                // Lookups again: iterating may have completed a resize.
                for (k, u) in &st {
                    let again = $fget(&map, *k);
                    if again != *u {
                        violation(
                            "FINAL",
                            format!("quiescent: k{k} was {u:?} and is {again:?} after the resize was completed"),
                        );
                    }
                }
            }
            out.tables_end = alloc::tables().1 as u64;
            final_state = st;
            scope(|| drop(map));
        }};
    }

    if cfg.set {
        body!(
            build_set,
            |m: &Set, k: u32| {
                let key = Key::new(k);
                let u = key.uid();
                let g = scope(|| m.guard());
                scope(|| m.insert(key, &g));
                // A set may keep the key it had.
                let u = m.get(&Q(k), &g).map_or(u, |k| k.uid());
                scope(|| drop(g));
                u
            },
            |m: &Set, k: u32| m.pin().remove(&Q(k)),
            |m| SRef(scope(|| Set::pin_owned(m))),
            SharedSet<'_>,
            set_session,
            |m, y, r| Env { map: None, set: Some(m), yield_user: y, reader: r, lens: false, chunk: 0 },
            |m: &Set, k: u32| scope(|| m.pin().get(&Q(k)).map(|k| k.uid())),
            |m: &Set, f: &mut dyn FnMut(u32, u64)| m.pin().iter().for_each(|k| f(k.get(), k.uid()))
        );
    } else {
        body!(
            build_map,
            |m: &Map, k: u32| {
                let (key, v) = (Key::new(k), Val::new(k, 0));
                let u = v.uid();
                scope(|| {
                    m.pin().insert(key, v);
                });
                u
            },
            |m: &Map, k: u32| {
                m.pin().remove(&Q(k));
            },
            |m| ByRef(scope(|| Map::pin_owned(m))),
            SharedPin<'_>,
            session,
            |m, y, r| Env { map: Some(m), set: None, yield_user: y, reader: r, lens: false, chunk: 0 },
            |m: &Map, k: u32| scope(|| m.pin().get(&Q(k)).map(|v| v.uid())),
            |m: &Map, f: &mut dyn FnMut(u32, u64)| m.pin().iter().for_each(|(k, v)| f(k.get(), v.uid()))
        );
    }

    // Everything must be gone now.
    let leaked = leaked();
    out.objects = created();
    let mut logs: Vec<(Log, Vec<u64>)> = logs.into_iter().map(|l| l.into_inner().unwrap().unwrap()).collect();
    let may: StdSet<u64> = logs.iter().flat_map(|l| l.1.iter().copied()).collect();
    let panics: u32 = logs.iter().map(|l| l.0.panics).sum();
    let real: Vec<u64> = leaked.into_iter().filter(|u| !may.contains(u)).collect();
    if !real.is_empty() {
        violation(
            "LEAK",
            format!("{} keys/values were never dropped although the map is gone, e.g. object {}", real.len(), real[0]),
        );
    }
    let rep = alloc::stop();
    out.blocks = rep.total;
    rep.judge();
    if !rep.overflow && rep.live > panics as usize * 2 {
        violation(
            "LEAK",
            format!("{} blocks ({} bytes) remain after the map was dropped; sizes {:?}", rep.live, rep.live_bytes, rep.sizes),
        );
    }

    // Merge the logs and run the offline oracles.
    let mut recs: Vec<Rec> = vec![];
    let mut iters: Vec<IterRec> = vec![];
    let mut sweeps: Vec<SweepRec> = vec![];
    for (l, _) in &mut logs {
        out.ops += l.ops as u64;
        out.panics += l.panics as u64;
        out.rechecks += l.rechecks;
        out.measured += l.measured;
        out.moved += l.moved;
        out.max_moved = out.max_moved.max(l.max_moved);
        out.lens += l.lens.len() as u64;
        for x in &l.lens {
            if x.len > 1 << 20 {
                violation("LEN", format!("len() returned {} while operations were in progress", x.len));
            }
        }
        recs.append(&mut l.recs);
        iters.append(&mut l.iters);
        sweeps.append(&mut l.sweeps);
    }
    out.recs = recs.len() as u64;
    out.sweeps = sweeps.len() as u64;
    out.iters = iters.len() as u64;
    for s in &sweeps {
        out.verdicts += s.verdicts.len() as u64;
    }
    if dump {
        let mut r = recs.clone();
        r.sort_by_key(|r| r.call);
        for r in r {
            eprintln!("{r}");
        }
        for s in &sweeps {
            eprintln!("{s:?}");
        }
        for i in &iters {
            eprintln!("{i:?}");
        }
        eprintln!("final {final_state:?}");
    }
    offline(&case, &init, recs, &iters, &sweeps, &final_state, fin_call, &mut out);
    out
}

#[allow(clippy::too_many_arguments)]
fn offline(
    case: &Case,
    init: &BTreeMap<u32, Option<u64>>,
    recs: Vec<Rec>,
    iters: &[IterRec],
    sweeps: &[SweepRec],
    fin: &BTreeMap<u32, Option<u64>>,
    fin_call: u32,
    out: &mut Out,
) {
    let set = case.cfg.set;
    let mut by: BTreeMap<u32, Vec<Rec>> = BTreeMap::new();
    for (&k, &v) in fin {
        by.entry(k).or_default().push(Rec {
            thr: 99,
            key: k,
            kind: "final get",
            call: fin_call,
            ret: fin_call,
            exp: Exp::Is(v),
            next: Next::Same,
            optional: false,
        });
    }
    for r in recs {
        by.entry(r.key).or_default().push(r);
    }
    // Version stores: uid -> (key, call, ret).
    let mut store: StdMap<u64, (u32, u32, u32)> = StdMap::new();
    for (&k, &v) in init {
        if let Some(v) = v {
            store.insert(v, (k, 0, 0));
        }
    }
    for r in by.values().flatten() {
        match r.next {
            Next::To(Some(v)) | Next::Maybe(v) => {
                if store.insert(v, (r.key, r.call, r.ret)).is_some() {
                    violation("CHAIN", format!("version v{v} was stored twice: {r}"));
                }
            }
            _ => {}
        }
    }

    for (&k, rs) in &by {
        let i = init.get(&k).copied().flatten();
        let mut over = false;
        for (x, a) in rs.iter().enumerate() {
            for b in &rs[x + 1..] {
                if a.call < b.ret && b.call < a.ret && (a.next != Next::Same || b.next != Next::Same) {
                    over = true;
                }
            }
        }
        out.overlaps += over as u64;
        // Sweeps as optional removals of single versions.
        let mut all = rs.clone();
        for s in sweeps {
            let mut kill = |v: u64| {
                all.push(Rec {
                    thr: s.thr,
                    key: k,
                    kind: if s.clear { "clear" } else { "retain" },
                    call: s.call,
                    ret: s.ret,
                    exp: Exp::Is(Some(v)),
                    next: Next::To(None),
                    optional: true,
                })
            };
            if s.clear {
                for (&v, &(vk, c, _)) in &store {
                    if vk == k && c < s.ret {
                        kill(v);
                    }
                }
            } else {
                let mut vs: Vec<u64> = s.verdicts.iter().filter(|x| x.0 == k && !x.2).map(|x| x.1).collect();
                vs.sort();
                vs.dedup();
                vs.into_iter().for_each(&mut kill);
            }
        }
        let mut budget = 60_000;
        out.wgl_keys += 1;
        match hist::check(i, &all, &mut budget) {
            Verdict::Ok => {}
            Verdict::Unknown => out.wgl_unknown += 1,
            Verdict::Bad(m) => violation("LIN", format!("key {k}: {m}")),
        }

        // Version chain.
        if !set && sweeps.is_empty() {
            let mut sup: StdMap<u64, u32> = StdMap::new();
            for r in rs {
                if let (Exp::Is(Some(v)), Next::To(_)) = (r.exp, r.next) {
                    let c = sup.entry(v).or_default();
                    *c += 1;
                    if *c == 2 {
                        violation("CHAIN", format!("key {k}: version v{v} was superseded twice, the second time by {r}"));
                    }
                    match store.get(&v) {
                        Some(&(vk, ..)) if vk == k => {}
                        _ => violation("CHAIN", format!("key {k}: {r} superseded a version that was never stored")),
                    }
                }
            }
            let f = fin.get(&k).copied().flatten();
            for (&v, &(vk, ..)) in &store {
                if vk != k {
                    continue;
                }
                out.versions += 1;
                let s = sup.get(&v).copied().unwrap_or(0);
                if Some(v) == f && s > 0 {
                    violation("CHAIN", format!("key {k}: version v{v} was superseded but is the final one"));
                } else if Some(v) != f && s == 0 {
                    violation("CHAIN", format!("key {k}: version v{v} vanished; no operation reported superseding it"));
                }
            }
            if let Some(f) = f {
                if !store.contains_key(&f) {
                    violation("CHAIN", format!("key {k}: final version v{f} was never stored"));
                }
            }
        }

        // Entries that must not survive a sweep.
        for s in sweeps.iter().filter(|s| s.complete) {
            for r in rs {
                let Exp::Is(Some(v)) = r.exp else { continue };
                if r.call <= s.ret {
                    continue;
                }
                let Some(&(_, _, sret)) = store.get(&v) else { continue };
                if sret >= s.call {
                    continue;
                }
                if s.clear || !keeps(s.pred, v, k) {
                    violation(
                        "SWEEP",
                        format!(
                            "key {k}: v{v} was in the map when {} [{}..{}] was called{}, and is still there afterwards: {r}",
                            if s.clear { "clear" } else { "retain" },
                            s.call,
                            s.ret,
                            if s.clear { "" } else { " and is rejected by its predicate" },
                        ),
                    );
                }
            }
        }
    }
    // Retain must not judge what was never there, and gives one verdict per version at most.
    for s in sweeps.iter().filter(|s| !s.clear) {
        for &(k, v, _) in &s.verdicts {
            match store.get(&v) {
                Some(&(vk, c, _)) if vk == k && c < s.ret => {}
                _ => violation("SWEEP", format!("retain's predicate was called with k{k} = v{v}, which was never stored")),
            }
        }
    }

    // Iterations.
    for it in iters {
        out.yields += it.yields.len() as u64;
        let mut seen: StdMap<u32, u32> = StdMap::new();
        for &(k, v, t) in &it.yields {
            *seen.entry(k).or_default() += 1;
            // An entry that is removed and inserted again during the iteration may show twice.
            let removed = by.get(&k).is_some_and(|rs| {
                rs.iter().any(|r| r.next == Next::To(None) && r.ret > it.call && r.call < t)
            }) || sweeps.iter().any(|s| {
                s.ret > it.call && s.call < t && (s.clear || s.verdicts.iter().any(|x| x.0 == k && !x.2))
            });
            if seen[&k] == 2 && !removed {
                violation("ITER", format!("{} [{}..{}] yielded k{k} twice: {:?}", it.kind, it.call, it.ret, it.yields));
            }
            let Some(rs) = by.get(&k) else {
                violation("ITER", format!("{} yielded unknown key {k}", it.kind));
                continue;
            };
            if v != 0 {
                match store.get(&v) {
                    Some(&(vk, c, _)) if vk == k && c < t => {}
                    _ => violation("ITER", format!("{} yielded k{k} = v{v}, which had not been stored", it.kind)),
                }
                for r in rs {
                    let supersedes = matches!((r.exp, r.next), (Exp::Is(Some(x)), Next::To(_)) if x == v);
                    if supersedes && r.ret < it.call {
                        violation(
                            "ITER",
                            format!("{} [{}..{}] yielded k{k} = v{v}, which was superseded before it began: {r}", it.kind, it.call, it.ret),
                        );
                    }
                }
            }
            // Definitely absent throughout?
            let init_absent = init.get(&k).copied().flatten().is_none();
            let stores: Vec<&Rec> = rs
                .iter()
                .filter(|r| matches!(r.next, Next::To(Some(_)) | Next::Maybe(_)))
                .collect();
            let absent_from = |c: u32, rr: u32| {
                // Everything stored is ordered before [c..rr] or after the yield.
                rr < it.call && stores.iter().all(|s| s.ret < c || s.call > t)
            };
            let absent = (init_absent && stores.iter().all(|s| s.call > t))
                || rs.iter().any(|r| {
                    (r.next == Next::To(None) || (r.exp == Exp::Is(None) && r.next == Next::Same))
                        && absent_from(r.call, r.ret)
                });
            if absent {
                violation(
                    "ITER",
                    format!("{} [{}..{}] yielded k{k} although it was absent throughout", it.kind, it.call, it.ret),
                );
            }
        }
        // Keys that must be yielded.
        for (&k, rs) in &by {
            let removals: Vec<(u32, u32)> = rs
                .iter()
                .filter(|r| r.next == Next::To(None))
                .map(|r| (r.call, r.ret))
                .chain(
                    sweeps
                        .iter()
                        .filter(|s| s.clear || s.verdicts.iter().any(|x| x.0 == k && !x.2))
                        .map(|s| (s.call, s.ret)),
                )
                .collect();
            let certain = |c: u32, r: u32| {
                r < it.call && removals.iter().all(|&(rc, rr)| rr < c || rc > it.ret)
            };
            let must = (init.get(&k).copied().flatten().is_some()
                && removals.iter().all(|&(rc, _)| rc > it.ret))
                || rs
                    .iter()
                    .any(|r| matches!(r.next, Next::To(Some(_))) && certain(r.call, r.ret))
                || rs
                    .iter()
                    .any(|r| matches!(r.exp, Exp::Is(Some(_)) | Exp::Present) && r.next == Next::Same && certain(r.call, r.ret));
            if must {
                out.must_yield += 1;
                if !seen.contains_key(&k) {
                    violation(
                        "ITER",
                        format!(
                            "{} [{}..{}] skipped k{k}, which was present throughout; yielded {:?}",
                            it.kind, it.call, it.ret, it.yields
                        ),
                    );
                }
            }
        }
    }
}
