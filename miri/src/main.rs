//! Small random programs for Miri, which watches for undefined behaviour, data races, leaks and
//! deadlocks. The interpreter's seed decides both the program and the schedule.
use papaya::{Compute, Guard, HashMap, HashSet, Operation, ResizeMode};
use std::collections::HashMap as StdMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 32) * n >> 32
    }
}

#[derive(Clone, Copy)]
struct H(u8);
struct Hh(u8, u64);
impl Hasher for Hh {
    fn finish(&self) -> u64 {
        let x = self.1;
        match self.0 {
            // Spread, identity, one probe sequence, two sequences.
            0 => Rng(x).next(),
            1 => x,
            2 => Rng(x).next() << 57,
            _ => x & 1 | (x & 0x7f) << 57,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = self.1.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
}
impl BuildHasher for H {
    type Hasher = Hh;
    fn build_hasher(&self) -> Hh {
        Hh(self.0, 0)
    }
}

static READS: AtomicUsize = AtomicUsize::new(0);
static OPS: AtomicUsize = AtomicUsize::new(0);

/// A key with memory of its own, written without synchronisation before it is inserted.
#[derive(Clone, PartialEq, Eq)]
struct Key(Box<u32>);
impl Hash for Key {
    fn hash<S: Hasher>(&self, s: &mut S) {
        self.0.hash(s)
    }
}
fn key(k: u32) -> Key {
    Key(Box::new(k))
}

/// Two copies of a number in memory of its own.
struct Val(Box<[u32; 2]>);
impl Clone for Val {
    fn clone(&self) -> Val {
        val(read(self))
    }
}
fn val(x: u32) -> Val {
    Val(Box::new([x, !x]))
}
fn read(v: &Val) -> u32 {
    READS.fetch_add(1, Relaxed);
    assert_eq!(v.0[0], !v.0[1], "VALUE: a torn or stale value was read");
    v.0[0]
}

type M = HashMap<Key, Val, H>;
type S = HashSet<Key, H>;

fn op<G: Guard>(m: &M, r: &mut Rng, keys: u64, g: &G) {
    OPS.fetch_add(1, Relaxed);
    let k = r.below(keys) as u32;
    let x = r.below(1000) as u32;
    let mut out = None;
    match r.below(21) {
        0..=2 => {
            out = m.insert(key(k), val(x), g);
        }
        3 => match m.try_insert(key(k), val(x), g) {
            Ok(v) => out = Some(v),
            Err(e) => {
                read(&e.not_inserted);
                read(e.current);
            }
        },
        4 => out = Some(m.get_or_insert_with(key(k), || val(x), g)),
        5 => out = m.update(key(k), |v| val(read(v) + 1), g),
        6 => out = Some(m.update_or_insert(key(k), |v| val(read(v) + 1), val(x), g)),
        7 | 8 => {
            let what = r.below(3);
            match m.compute(
                key(k),
                |e| match (e, what) {
                    (Some((_, v)), 0) => {
                        read(v);
                        Operation::Remove
                    }
                    (None, 0) => Operation::Abort(1),
                    (Some((_, v)), 1) => Operation::Insert(val(read(v) + 1)),
                    (None, 1) => Operation::Insert(val(x)),
                    (e, _) => Operation::Abort(e.map_or(0, |e| read(e.1))),
                },
                g,
            ) {
                Compute::Inserted(_, v) | Compute::Removed(_, v) => out = Some(v),
                Compute::Updated { old, new } => {
                    read(old.1);
                    read(new.1);
                }
                Compute::Aborted(_) => {}
            }
        }
        9..=11 => out = m.remove(&key(k), g),
        12 => {
            if let Ok(Some((_, v))) | Err((_, v)) = m.remove_if(&key(k), |_, v| read(v) & 1 == 0, g) {
                out = Some(v);
            }
        }
        13..=16 => {
            if let Some((q, v)) = m.get_key_value(&key(k), g) {
                assert_eq!(*q.0, k, "VALUE: another key was found");
                out = Some(v);
            }
        }
        17 => {
            for (k, v) in m.iter(g) {
                std::hint::black_box(*k.0);
                read(v);
            }
        }
        18 if r.below(3) == 0 => m.clear(g),
        19 => m.retain(|_, v| read(v) & 3 != 0, g),
        20 if r.below(2) == 0 => m.reserve(r.below(12) as usize, g),
        _ => {
            std::hint::black_box(m.len());
        }
    }
    if let Some(v) = out {
        read(v);
    }
}

fn set_op<G: Guard>(s: &S, r: &mut Rng, keys: u64, g: &G) {
    OPS.fetch_add(1, Relaxed);
    let k = key(r.below(keys) as u32);
    match r.below(8) {
        0..=2 => {
            s.insert(k, g);
        }
        3 | 4 => {
            s.remove(&k, g);
        }
        5 => {
            for k in s.iter(g) {
                READS.fetch_add(1 + (*k.0 > 1 << 30) as usize, Relaxed);
            }
        }
        6 => {
            s.retain(|k| *k.0 & 1 == 0, g);
        }
        _ => {
            if let Some(k) = s.get(&k, g) {
                READS.fetch_add(1 + (*k.0 > 1 << 30) as usize, Relaxed);
            }
        }
    }
}

fn mode(r: &mut Rng) -> ResizeMode {
    match r.below(5) {
        0 | 1 => ResizeMode::Blocking,
        2 => ResizeMode::Incremental(1),
        3 => ResizeMode::Incremental(3),
        _ => ResizeMode::Incremental(64),
    }
}

fn main() {
    // Randomness from the interpreter.
    let seed = std::collections::hash_map::RandomState::new().hash_one(1u8);
    let mut r = Rng(seed);
    let threads = 2 + r.below(2);
    let nops = 10 + r.below(14);
    let keys = [3, 6, 12, 20][r.below(4) as usize];
    let cap = [0, 1, 1, 5][r.below(4) as usize];
    let h = H(r.below(4) as u8);
    let batch = [1, 2, 32][r.below(3) as usize];
    let kind = r.below(8);
    let mut finals = StdMap::new();
    if kind == 0 {
        let s: Arc<S> = Arc::new(
            HashSet::builder()
                .capacity(cap)
                .hasher(h)
                .resize_mode(mode(&mut r))
                .collector(seize::Collector::new().batch_size(batch))
                .build(),
        );
        let ts: Vec<_> = (0..threads)
            .map(|t| {
                let s = s.clone();
                std::thread::spawn(move || {
                    let mut r = Rng(seed ^ (t + 1) << 50);
                    let mut left = nops * 2;
                    while left > 0 {
                        let g = s.guard();
                        for _ in 0..(1 + r.below(3)).min(left) {
                            set_op(&s, &mut r, keys, &g);
                            left -= 1;
                        }
                    }
                })
            })
            .collect();
        for t in ts {
            t.join().unwrap();
        }
        let p = s.pin();
        assert_eq!(p.iter().count(), p.len(), "LEN: len differs from the elements found");
    } else {
        let m: M = HashMap::builder()
            .capacity(cap)
            .hasher(h)
            .resize_mode(mode(&mut r))
            .collector(seize::Collector::new().batch_size(batch))
            .build();
        for k in 0..r.below(8) as u32 {
            m.pin().insert(key(k), val(k));
        }
        if kind == 1 {
            // One owned guard for all threads.
            let g = m.owned_guard();
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (m, g) = (&m, &g);
                    s.spawn(move || {
                        let mut r = Rng(seed ^ (t + 1) << 50);
                        for _ in 0..nops {
                            op(m, &mut r, keys, g);
                        }
                    });
                }
            });
        } else {
            let m = Arc::new(m);
            let ts: Vec<_> = (0..threads)
                .map(|t| {
                    let m = m.clone();
                    std::thread::spawn(move || {
                        let mut r = Rng(seed ^ (t + 1) << 50);
                        let mut left = nops;
                        while left > 0 {
                            let n = (1 + r.below(5)).min(left);
                            left -= n;
                            if r.below(4) == 0 {
                                let g = m.owned_guard();
                                for _ in 0..n {
                                    op(&m, &mut r, keys, &g);
                                }
                            } else {
                                let g = m.guard();
                                let held = m.get(&key(0), &g);
                                for _ in 0..n {
                                    op(&m, &mut r, keys, &g);
                                }
                                held.map(read);
                            }
                        }
                    })
                })
                .collect();
            if kind == 2 {
                // The last thread drops the map.
                drop(m);
                for t in ts {
                    t.join().unwrap();
                }
            } else {
                for t in ts {
                    t.join().unwrap();
                }
                for (k, v) in &m.pin() {
                    assert!(finals.insert(*k.0, read(v)).is_none(), "ITER: a key was yielded twice");
                }
                assert_eq!(finals.len(), m.len(), "LEN: len differs from the entries found");
                for k in 0..keys as u32 {
                    let x = m.pin().get(&key(k)).map(read);
                    assert_eq!(x, finals.get(&k).copied(), "LIN: lookups and iteration disagree about k{k}");
                }
                if kind == 3 {
                    let c: M = (*m).clone();
                    drop(m);
                    assert_eq!(c.len(), finals.len(), "CONV: the clone differs");
                }
            }
        }
    }
    println!("ran ops={} reads={} threads={threads} kind={kind} final={}", OPS.load(Relaxed), READS.load(Relaxed), finals.len());
}
