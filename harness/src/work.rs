//! Work done by single operations while a table is incrementally resized (one thread).
use crate::api::Map;
use crate::conc::*;
use crate::rng::Rng;
use crate::types::*;
use crate::CaseOut;
use papaya::{Compute, Operation};
use serde_json::json;
use std::sync::atomic::Ordering::*;

const WRITES: [K; 9] = [
    K::Remove,
    K::RemoveIf,
    K::RemoveEntry,
    K::Update,
    K::Compute,
    K::Insert,
    K::TryInsert,
    K::GetOrInsertWith,
    K::UpdateOrInsertWith,
];

fn ev(i: usize) -> u32 {
    EVENTS[i].load(Relaxed)
}

/// One write to a key. Keys that it adds are removed by the caller.
fn write(m: &Map, kind: K, key: u32) -> bool {
    let g = m.guard();
    match kind {
        K::Remove => m.remove(&Q(key), &g).is_none(),
        K::RemoveEntry => m.remove_entry(&Q(key), &g).is_none(),
        K::RemoveIf => !matches!(m.remove_if(&Q(key), |_, _| true, &g), Ok(Some(_))),
        K::Update => m.update(Key::new(key), |v| Val::new(key, v.uid()), &g).is_none(),
        K::Compute => {
            let r: Compute<'_, Key, Val, u64> = m.compute(
                Key::new(key),
                |e| match e {
                    Some(_) => Operation::Remove,
                    None => Operation::Abort(7),
                },
                &g,
            );
            matches!(r, Compute::Aborted(7))
        }
        K::Insert => {
            m.insert(Key::new(key), Val::new(key, 0), &g);
            false
        }
        K::TryInsert => {
            let _ = m.try_insert(Key::new(key), Val::new(key, 0), &g);
            false
        }
        K::GetOrInsertWith => {
            m.get_or_insert_with(Key::new(key), || Val::new(key, 0), &g);
            false
        }
        _ => {
            m.update_or_insert_with(Key::new(key), |v| Val::new(key, v.uid()), || Val::new(key, 0), &g);
            false
        }
    }
}

pub fn run(seed: u64, dump: bool) -> CaseOut {
    let mut rng = Rng::new(seed);
    reset();
    let chunk = rng.pick(&[1, 1, 2, 3, 5, 8, 16, 33, 64, 64, 64, 100, 500, 100_000, 1 << 63, CHUNK0]);
    let n = if chunk == CHUNK0 { 1 } else { chunk as usize };
    let cfg = Config {
        mode: chunk,
        cap: rng.pick(&[0, 6, 20, 40, 90, 190, 380, 700, 1500]),
        hb: Hb { mode: 10, salt: 0 },
        batch: rng.pick(&[1, 8, 32]),
        one_shard: false,
        yield_user: false,
        early_drop: false,
        set: false,
        quarantine: false,
    };
    // 64 is also what maps use that were not asked for a chunk size.
    let m: Map = match rng.below(6) {
        0 if chunk == 64 && cfg.cap == 0 => papaya::HashMap::with_hasher(cfg.hb),
        0 | 1 if chunk == 64 => papaya::HashMap::with_capacity_and_hasher(cfg.cap, cfg.hb),
        2 if chunk == 64 => papaya::HashMap::builder().capacity(cfg.cap).hasher(cfg.hb).build(),
        _ => build_map(&cfg),
    };
    let slots = if cfg.cap == 0 { 32 } else { (cfg.cap * 8 / 6).next_power_of_two().max(8) };
    let kind = WRITES[rng.below(WRITES.len())];
    let lookups = rng.chance(1, 2);
    let mut checked = 0u64;
    let (mut moved, mut most) = (0u64, 0u64);
    let mut spread = 4096u32;
    let mut crowd = 0u32;
    let mut measured = 0u64;
    let mut longest = 0u64;
    let last = std::cell::Cell::new(None);

    // Run an operation and check what it moved.
    let mut op = |what: &str, key: u32, max: usize, f: &mut dyn FnMut() -> bool| -> bool {
        record_hashes(true);
        let r = f();
        let h: Vec<u32> = record_hashes(false).into_iter().filter(|k| *k != key).collect();
        last.set(h.first().copied());
        let h = h.len();
        if h > max {
            violation("WORK", format!("{what}(k{key}) moved {h} entries, its chunk size is {n}, it may move {max}"));
        }
        checked += 1;
        moved += h as u64;
        most = most.max(h as u64);
        r
    };

    for round in 0..rng.range(1, 4) {
        // Fill more than half of the table evenly, away from the crowded probe sequence.
        let table = slots << round;
        let have = m.len();
        let want = table / 2 + rng.below(table / 8 + 1);
        let (start, done) = (ev(0), ev(1));
        if have < want {
            spread = spread.max(4096 + (table / 2) as u32);
            for _ in have..want {
                let k = spread;
                spread += 1;
                op("insert", k, n, &mut || write(&m, K::Insert, k));
            }
        }
        // Crowd one probe sequence until that starts a resize.
        let mut tries = 0;
        while ev(0) == start && tries < 200 {
            let k = crowd;
            crowd += 1;
            tries += 1;
            op("insert", k, n, &mut || write(&m, K::Insert, k));
        }
        if ev(0) == start {
            break;
        }
        // Writes to keys that are not in the old table, or not any more, meet the resize.
        let starts = ev(0);
        let need = (table as u64 * 2).div_ceil(n as u64) + 4;
        // Either many keys, each taken out again, or one that stays in the new table, or one that
        // was moved already.
        //
        // Not a key of an earlier round, which may have stayed.
        let some_key = |rng: &mut Rng| (3000 + 250 * round + rng.below(250)) as u32;
        let same = match rng.below(4) {
            0 if last.get().is_some() && !matches!(kind, K::Remove | K::RemoveIf | K::RemoveEntry | K::Compute) => last.get(),
            1 | 2 => Some(some_key(&mut rng)),
            _ => None,
        };
        let mut writes = 0;
        while ev(1) == done && ev(0) == starts {
            if writes > need {
                violation(
                    "WORK",
                    format!(
                        "{} was called {writes} times on keys that are not in the old table of at most {} slots (or were \
                         moved out of it), which a resize with chunk size {n} is replacing, and the resize is not complete",
                        kname(kind),
                        table * 2
                    ),
                );
                break;
            }
            let k = same.unwrap_or_else(|| some_key(&mut rng));
            let absent = op(kname(kind), k, n, &mut || write(&m, kind, k));
            writes += 1;
            if !absent && same.is_none() {
                // Leave the key out again, with an operation that does its own share.
                op("remove", k, n, &mut || write(&m, K::Remove, k));
            }
            if lookups {
                let q = rng.below(crowd as usize + 1) as u32;
                op("get", q, 0, &mut || m.pin().get(&Q(q)).is_some());
                op("contains_key", k, 0, &mut || m.pin().contains_key(&Q(k)));
            }
        }
        if writes > 0 && ev(1) != done && ev(0) == starts {
            measured += 1;
            longest = longest.max(writes);
        }
        if dump {
            eprintln!("round {round}: {} slots, {writes} x {}, need {need}", table, kname(kind));
        }
        // Nothing was lost.
        for k in 0..crowd {
            if !m.pin().contains_key(&Q(k)) {
                violation("LIN", format!("k{k} is missing after a resize"));
            }
        }
        if ev(0) > starts {
            break;
        }
    }
    drop(m);
    CaseOut {
        hash: seed,
        nontrivial: measured > 0,
        sample: Some(json!({
            "seed": seed, "chunk": n, "operation": kname(kind), "initial_slots": slots,
            "resizes_measured": measured, "writes_to_complete_the_longest": longest, "entries_moved": moved,
        })),
        counters: vec![
            ("operations_whose_work_was_measured", checked),
            ("resizes_measured_to_completion", measured),
            ("max_writes_to_complete_a_resize", longest),
            ("entries_moved", moved),
            ("max_entries_moved_by_one_operation", most),
        ],
    }
}
