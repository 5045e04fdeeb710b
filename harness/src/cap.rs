//! Requested capacities (one thread).
use crate::alloc::{self, scope};
use crate::conc::*;
use crate::rng::Rng;
use crate::types::*;
use crate::CaseOut;
use papaya::{Compute, Operation};
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

fn ev(i: usize) -> u32 {
    EVENTS[i].load(Relaxed)
}

fn capacity(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.range(1, 16),
        1 => rng.range(1, 300),
        // Around the points where the table size changes.
        2 | 3 => {
            let p = 1usize << rng.range(3, 13);
            let base = rng.pick(&[p, p * 3 / 4, p / 2]);
            (base + 2).saturating_sub(rng.below(5)).max(1)
        }
        4 => rng.pick(&[1, 2, 3, 6, 7, 12, 13, 24, 25, 48, 49, 96, 97]),
        _ => rng.range(1, 6000),
    }
}

fn mode(rng: &mut Rng) -> u64 {
    rng.pick(&[0, 0, 1, 2, 7, 64, 64, 4096, CHUNK0])
}

fn config(rng: &mut Rng, hash: u8, cap: usize, set: bool) -> Config {
    Config {
        mode: mode(rng),
        cap,
        hb: Hb { mode: hash, salt: rng.next() },
        batch: rng.pick(&[1, 4, 32]),
        one_shard: false,
        yield_user: false,
        early_drop: false,
        set,
        quarantine: false,
    }
}

/// Insert a new key in some way.
fn insert(m: &crate::api::Map, how: usize, k: u32) {
    let g = m.guard();
    match how % 6 {
        0 => {
            m.insert(Key::new(k), Val::new(k, 0), &g);
        }
        1 => {
            let _ = m.try_insert(Key::new(k), Val::new(k, 0), &g);
        }
        2 => {
            m.get_or_insert_with(Key::new(k), || Val::new(k, 0), &g);
        }
        3 => {
            let _: Compute<'_, Key, Val, ()> = m.compute(Key::new(k), |_| Operation::Insert(Val::new(k, 0)), &g);
        }
        4 => {
            m.update_or_insert_with(Key::new(k), |_| Val::new(k, 0), || Val::new(k, 0), &g);
        }
        _ => {
            m.get_or_insert(Key::new(k), Val::new(k, 0), &g);
        }
    }
}

/// A map that was asked for room for n keys takes n new keys without resizing.
fn perfect(rng: &mut Rng) -> CaseOut {
    let n = capacity(rng);
    let set = rng.chance(1, 4);
    // 0: initial capacity. 1: reserve on a new map. 2: reserve on a map with entries. 3: both.
    let how = rng.below(4);
    let hash = rng.pick(&[8, 8, 1]);
    let cap = match how {
        0 => n,
        1 => 0,
        2 => rng.pick(&[0, 1, 10]),
        _ => capacity(rng) % 500,
    };
    let cfg = config(rng, hash, cap, set);
    let base = rng.below(1 << 20) as u32;
    let stride = (rng.below(8) * 2 + 1) as u32;
    let extra = if how >= 2 { rng.below(600) } else { 0 };
    let key = |i: usize| base + stride * i as u32;
    let way = rng.below(12);
    let before;
    let mut resized_at = None;
    let mut count = 0;
    macro_rules! go {
        ($m:ident, $ins:expr) => {{
            for i in 0..extra {
                $ins(i);
            }
            if how > 0 {
                $m.pin().reserve(n);
            }
            before = ev(0);
            for i in extra..extra + n {
                $ins(i);
                count += 1;
                if ev(0) != before {
                    resized_at = Some(i - extra + 1);
                    break;
                }
            }
            let len = $m.len();
            if len != extra + count {
                violation("LEN", format!("len() = {len} after {} insertions", extra + count));
            }
        }};
    }
    if set {
        let m = match rng.below(3) {
            0 => papaya::HashSet::with_capacity_and_hasher(cfg.cap, cfg.hb),
            1 => papaya::HashSet::builder().capacity(cfg.cap).hasher(cfg.hb).resize_mode(resize_mode(cfg.mode)).build(),
            _ => build_set(&cfg),
        };
        go!(m, |i: usize| {
            m.pin().insert(Key::new(key(i)));
        });
    } else {
        let m = match rng.below(3) {
            0 => papaya::HashMap::with_capacity_and_hasher(cfg.cap, cfg.hb),
            1 => papaya::HashMap::builder().capacity(cfg.cap).hasher(cfg.hb).resize_mode(resize_mode(cfg.mode)).build(),
            _ => build_map(&cfg),
        };
        go!(m, |i: usize| insert(&m, if way < 6 { way } else { i }, key(i)));
    }
    if let Some(i) = resized_at {
        let what = match how {
            0 => format!("capacity {n}"),
            1 => format!("reserve({n})"),
            _ => format!("reserve({n}) with {extra} entries and initial capacity {}", cfg.cap),
        };
        violation(
            "CAP",
            format!(
                "a new table was allocated by the insertion of new key {i} of {n} into a {} with {what}, although the \
                 hashes are distinct slots; mode {}",
                if set { "set" } else { "map" },
                cfg.mode
            ),
        );
    }
    CaseOut {
        hash: (n as u64) << 32 | (how as u64) << 20 | extra as u64,
        nontrivial: n > 1,
        sample: Some(json!({"requested": n, "how": how, "mode": cfg.mode, "inserted_without_resize": count})),
        counters: vec![("capacities_requested", 1), ("insertions_without_resize", count as u64), ("max_capacity", n as u64)],
    }
}

/// The table never gets smaller than the initial one.
fn floor(rng: &mut Rng) -> CaseOut {
    let n = capacity(rng) % 1500 + 1;
    let cfg = config(rng, 8, n, false);
    alloc::start(false);
    let m = scope(|| build_map(&cfg));
    let (sizes, k) = alloc::tables();
    let initial = if k == 1 { sizes[0] } else { 0 };
    let mut next = rng.below(1 << 20) as u32;
    let mut live: std::collections::VecDeque<u32> = Default::default();
    let mut shrinks = 0u64;
    let mut tests = 0u64;
    let grow = n * rng.pick(&[2, 4, 9]);
    let keep = rng.below(n / 8 + 1);
    let mut model = BTreeMap::new();
    let check = |when: &str, shrinks: &mut u64, last: &mut usize| {
        let (sizes, k) = alloc::tables();
        for &s in &sizes[..k] {
            // Only tables are allocated zeroed.
            if s < initial && s > 100 {
                violation(
                    "CAP",
                    format!("a table of {s} bytes is in use {when}, the initial table for capacity {n} has {initial}"),
                );
            }
        }
        let max = sizes[..k].iter().copied().max().unwrap_or(0);
        if k == 1 && max < *last {
            *shrinks += 1;
        }
        if k == 1 {
            *last = max;
        }
    };
    let mut last = initial;
    let style = rng.below(3);
    for round in 0..rng.range(1, 2) {
        for _ in 0..grow {
            scope(|| insert(&m, 0, next));
            model.insert(next, ());
            live.push_back(next);
            next += 1;
        }
        check("after growing", &mut shrinks, &mut last);
        if style == 0 && round == 0 {
            scope(|| m.pin().clear());
            live.clear();
            model.clear();
        } else if style == 1 {
            let lim = next - keep as u32;
            scope(|| m.pin_owned().retain(|k, _| k.get() >= lim));
            while live.len() > keep {
                model.remove(&live.pop_front().unwrap());
            }
        } else {
            while live.len() > keep {
                let k = live.pop_front().unwrap();
                model.remove(&k);
                scope(|| m.pin().remove(&Q(k)).is_some());
            }
        }
        check("after removing", &mut shrinks, &mut last);
        // Turn keys over until tombstones force resizes, which shrink the table.
        let turns = grow * 6 + 200;
        let mut promoted = ev(1);
        for _ in 0..turns {
            let k = next;
            next += 1;
            scope(|| insert(&m, k as usize, k));
            model.insert(k, ());
            live.push_back(k);
            if ev(1) != promoted {
                promoted = ev(1);
                check("after a resize", &mut shrinks, &mut last);
                if cfg.mode == 0 && rng.chance(1, 3) && live.len() < n {
                    // A fresh table: it has room for the initial capacity.
                    let before = ev(0);
                    tests += 1;
                    for i in live.len()..n {
                        let k = next;
                        next += 1;
                        scope(|| insert(&m, 0, k));
                        model.insert(k, ());
                        live.push_back(k);
                        if ev(0) != before {
                            violation(
                                "CAP",
                                format!(
                                    "a new table was allocated with {i} entries in a map of capacity {n}, which had just been resized"
                                ),
                            );
                            break;
                        }
                    }
                }
            }
            while live.len() > keep {
                let k = live.pop_front().unwrap();
                model.remove(&k);
                scope(|| m.pin().remove(&Q(k)).is_some());
            }
        }
        check("after turnover", &mut shrinks, &mut last);
    }
    if m.len() != model.len() || model.keys().any(|k| !m.pin().contains_key(&Q(*k))) {
        violation("LIN", format!("the map holds {} entries, the model {}", m.len(), model.len()));
    }
    scope(|| drop(m));
    alloc::stop();
    CaseOut {
        hash: (n as u64) << 32 | cfg.mode << 16 | grow as u64,
        nontrivial: shrinks > 0,
        sample: Some(json!({"capacity": n, "grown_to": grow, "initial_table_bytes": initial, "shrinks_seen": shrinks})),
        counters: vec![("floors_checked", 1), ("shrinks_seen", shrinks), ("refills_after_a_resize", tests)],
    }
}

/// A map of capacity 0 has no table until something is inserted.
fn lazy(rng: &mut Rng) -> CaseOut {
    let set = rng.chance(1, 3);
    let cfg = config(rng, 0, 0, set);
    alloc::start(false);
    let mut done = vec![];
    let mut table = false;
    macro_rules! steps {
        ($m:ident, [$($e:expr),*]) => {{
            let fs: Vec<(&str, Box<dyn Fn() + '_>)> = vec![$((stringify!($e), Box::new(|| { let _ = $e; }))),*];
            let m0 = alloc::tables().1;
            let b0 = alloc::BIG_COUNT.load(SeqCst);
            for _ in 0..rng.range(1, 12) {
                let (name, f) = &fs[rng.below(fs.len())];
                scope(|| f());
                done.push(*name);
                if alloc::tables().1 > m0 || alloc::BIG_COUNT.load(SeqCst) > b0 {
                    table = true;
                    violation("CAP", format!("a table was allocated by {name} on a map of capacity 0 without insertions ({done:?})"));
                    break;
                }
            }
        }};
    }
    let b = alloc::BIG_COUNT.load(SeqCst);
    if cfg.set {
        let m = scope(|| if rng.chance(1, 2) { build_set(&cfg) } else { papaya::HashSet::with_hasher(cfg.hb) });
        if alloc::BIG_COUNT.load(SeqCst) > b {
            violation("CAP", "creating a set of capacity 0 allocates a table".into());
        }
        steps!(m, [
            m.pin().get(&Q(1)).is_some(),
            m.pin().contains(&Q(1)),
            m.pin().remove(&Q(1)),
            m.pin().iter().count(),
            m.pin().clear(),
            m.pin_owned().retain(|_| true),
            m.len(),
            m.is_empty(),
            m.clone().len(),
            m == m.clone(),
            format!("{m:?}").len()
        ]);
        drop(m);
    } else {
        let m = scope(|| if rng.chance(1, 2) { build_map(&cfg) } else { papaya::HashMap::with_hasher(cfg.hb) });
        if alloc::BIG_COUNT.load(SeqCst) > b {
            violation("CAP", "creating a map of capacity 0 allocates a table".into());
        }
        steps!(m, [
            m.pin().get(&Q(1)).is_some(),
            m.pin().get_key_value(&Key::new(3)).is_some(),
            m.pin().contains_key(&Q(1)),
            m.pin().remove(&Q(1)).is_some(),
            m.pin().remove_entry(&Q(1)).is_some(),
            m.pin().remove_if(&Q(1), |_, _| true).is_ok(),
            m.pin().update(Key::new(5), |v| Val::new(5, v.uid())).is_some(),
            {
                let g = m.guard();
                let r: Compute<'_, Key, Val, u8> = m.compute(Key::new(5), |_| Operation::Abort(1), &g);
                matches!(r, Compute::Aborted(1))
            },
            m.pin().iter().count(),
            m.pin().keys().count(),
            m.pin().values().count(),
            m.pin().clear(),
            m.pin_owned().retain(|_, _| true),
            m.len(),
            m.is_empty(),
            m.clone().len(),
            format!("{m:?}").len()
        ]);
        drop(m);
    }
    alloc::stop();
    CaseOut {
        hash: done.iter().fold(0, |h, d| crate::rng::mix(h ^ d.len() as u64 * 31 ^ d.as_bytes().iter().map(|b| *b as u64).sum::<u64>())),
        nontrivial: done.len() > 1 && !table,
        sample: Some(json!({"operations_without_a_table": done})),
        counters: vec![("operations_on_unallocated_maps", done.len() as u64)],
    }
}

/// Maps and sets with the standard hasher. A table has at least a pointer and a byte for every slot.
fn standard(rng: &mut Rng) -> CaseOut {
    let n = capacity(rng);
    let how = rng.below(9);
    let mut bytes = 0;
    macro_rules! go {
        ($m:expr, $n:expr, $m2:ident, $ins:expr, $gone:expr) => {{
            alloc::start(false);
            let b = alloc::BIG_COUNT.load(SeqCst);
            let $m2 = scope(|| $m);
            if $n == 0 && (alloc::tables().1 > 0 || alloc::BIG_COUNT.load(SeqCst) > b) {
                violation("CAP", format!("a new collection without a capacity has a table (constructor {how})"));
            }
            scope(|| $ins(7));
            if alloc::BIG_COUNT.load(SeqCst) == b {
                let (sizes, k) = alloc::tables();
                bytes = sizes[..k].iter().copied().max().unwrap_or(0);
                if bytes < $n * 9 {
                    violation("CAP", format!("a collection created with capacity {} has a table of {bytes} bytes (constructor {how})", $n));
                }
            }
            for i in 0..($n + 40).min(3000) {
                scope(|| $ins(i as u32));
            }
            if $m2.len() != ($n + 40).min(3000) || !$gone {
                violation("LIN", format!("a collection made by constructor {how} with capacity {} loses entries", $n));
            }
            scope(|| drop($m2));
            alloc::stop();
        }};
    }
    type M = papaya::HashMap<u32, u32>;
    type S = papaya::HashSet<u32>;
    macro_rules! map {
        ($m:expr, $n:expr) => {
            go!($m, $n, m, |k: u32| m.pin().insert(k, k).is_some(), (0..40).all(|k| m.pin().get(&k) == Some(&k)))
        };
    }
    macro_rules! set {
        ($m:expr, $n:expr) => {
            go!($m, $n, m, |k: u32| m.pin().insert(k), (0..40).all(|k| m.pin().contains(&k)))
        };
    }
    match how {
        0 => map!(M::new(), 0),
        1 => map!(M::default(), 0),
        2 => map!(M::with_capacity(n), n),
        3 => map!(M::builder().capacity(n).build(), n),
        4 => set!(S::new(), 0),
        5 => set!(S::default(), 0),
        6 => set!(S::with_capacity(n), n),
        7 => set!(S::builder().capacity(n).build(), n),
        _ => {
            let n = impossible(rng);
            let made = match rng.below(4) {
                0 => catch_unwind(|| drop(M::with_capacity(n))),
                1 => catch_unwind(|| drop(S::with_capacity(n))),
                2 => catch_unwind(|| drop(M::builder().capacity(n).build())),
                _ => catch_unwind(|| drop(S::builder().capacity(n).build())),
            };
            if made.is_ok() {
                violation("CAP", format!("a collection was created with capacity {n}"));
            }
        }
    }
    CaseOut {
        hash: (n as u64) << 8 | how as u64,
        nontrivial: matches!(how, 2 | 3 | 6 | 7) && bytes > 0,
        sample: Some(json!({"capacity": n, "constructor": how, "table_bytes": bytes})),
        counters: vec![("standard_collections_created", 1)],
    }
}

/// Amounts whose table would be larger than any allocation can be.
fn impossible(rng: &mut Rng) -> usize {
    match rng.below(3) {
        0 => 1usize << rng.range(59, 63),
        1 => usize::MAX - rng.below(1000),
        _ => (3 << 57) + 1 + (rng.next() >> 1) as usize,
    }
}

/// Any capacity and any reserve amount works through growth and shrinking.
fn any(rng: &mut Rng) -> CaseOut {
    let cap = match rng.below(5) {
        0 => rng.below(40),
        1 => capacity(rng),
        2 => rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 1 << 14, 100_000]),
        _ => rng.below(300),
    };
    let hash = rng.pick(&[0, 0, 8, 1, 5, 7]);
    let cfg = config(rng, hash, cap, false);
    reset();
    let m = build_map(&cfg);
    let mut model: BTreeMap<u32, u64> = BTreeMap::new();
    let (r0, p0) = (ev(0), ev(1));
    let size = rng.pick(&[5, 20, 60, 200, 500, 1000]);
    let mut ops = 0u64;
    let mut reserves = 0;
    let mut refused = 0u64;
    for _ in 0..rng.range(1, 6) {
        let lo = rng.below(3000) as u32;
        match rng.below(7) {
            6 => {
                // No table of this size can exist: a panic, and everything goes on as before.
                let n = impossible(rng);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if rng.chance(1, 2) {
                        m.pin().reserve(n)
                    } else {
                        m.reserve(n, &m.owned_guard())
                    }
                }));
                if r.is_ok() {
                    violation("CAP", format!("reserve({n}) returned, with room for {} entries taken", m.len()));
                }
                refused += 1;
            }
            0 | 1 => {
                for k in lo..lo + rng.below(size) as u32 {
                    let v = Val::new(k, 0);
                    let u = v.uid();
                    let r = m.pin().insert(Key::new(k), v).map(|v| v.uid());
                    if r != model.insert(k, u) {
                        violation("LIN", format!("insert(k{k}) = {r:?}"));
                    }
                    ops += 1;
                }
            }
            2 => {
                for k in lo..lo + rng.below(size) as u32 {
                    let r = m.pin().remove(&Q(k)).map(|v| v.uid());
                    if r != model.remove(&k) {
                        violation("LIN", format!("remove(k{k}) = {r:?}"));
                    }
                    ops += 1;
                }
            }
            3 => {
                let n = match rng.below(4) {
                    0 => rng.below(10),
                    1 => capacity(rng),
                    2 => 20_000,
                    _ => rng.below(500),
                };
                m.pin().reserve(n);
                reserves += 1;
            }
            4 => {
                m.pin().clear();
                model.clear();
            }
            _ => {
                // Turnover forces resizes that keep the size or shrink.
                for i in 0..rng.below(size * 3) as u32 {
                    let k = 100_000 + lo + i;
                    insert(&m, i as usize, k);
                    m.pin().remove(&Q(k));
                    ops += 2;
                }
            }
        }
        if m.len() != model.len() {
            violation("LEN", format!("len() = {}, the model has {}", m.len(), model.len()));
        }
        let seen: BTreeMap<u32, u64> = m.pin().iter().map(|(k, v)| (k.get(), v.uid())).collect();
        if seen != model {
            violation("LIN", format!("the map holds {} entries that differ from the model's {}", seen.len(), model.len()));
        }
        for (k, v) in &model {
            if m.pin().get(&Q(*k)).map(|v| v.uid()) != Some(*v) {
                violation("LIN", format!("get(k{k}) does not find v{v}"));
            }
        }
    }
    drop(m);
    CaseOut {
        hash: crate::rng::mix(ops << 20 ^ cap as u64 ^ (ev(1) - p0) as u64) ^ model.len() as u64,
        nontrivial: ev(0) > r0,
        sample: Some(json!({
            "capacity": cap, "operations": ops, "reserves": reserves, "resizes": ev(0) - r0, "final_entries": model.len(),
        })),
        counters: vec![
            ("operations", ops),
            ("reserves", reserves),
            ("impossible_reserves", refused),
            ("resizes_started", (ev(0) - r0) as u64),
            ("promoted", (ev(1) - p0) as u64),
        ],
    }
}

pub fn run(seed: u64) -> CaseOut {
    let mut rng = Rng::new(seed);
    match rng.below(9) {
        8 => standard(&mut rng),
        0 | 1 | 2 => perfect(&mut rng),
        3 => floor(&mut rng),
        4 => lazy(&mut rng),
        _ => any(&mut rng),
    }
}
