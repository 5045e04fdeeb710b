//! Deterministic cases for findings that random workloads avoid.
use crate::conc::*;
use crate::types::*;
use crate::CaseOut;
use serde_json::json;

fn config(mode: u64, hash: u8, set: bool) -> Config {
    Config {
        mode,
        cap: 0,
        hb: Hb { mode: hash, salt: 0 },
        batch: 32,
        one_shard: false,
        yield_user: false,
        early_drop: false,
        set,
        quarantine: false,
    }
}

/// Is the stored key kept when a value is inserted over it, as documented?
pub fn keys(i: u64) -> CaseOut {
    let mode = [0, 64][i as usize & 1];
    reset();
    let m = build_map(&config(mode, 0, false));
    let how = ["HashMapRef::insert", "HashMap::insert"][(i >> 1) as usize & 1];
    let mut kept = 0;
    for k in 0..20 {
        m.pin().insert(Key::new(k), Val::new(k, 0));
        let first = m.pin().get_key_value(&Q(k)).unwrap().0.uid();
        if (i >> 1) & 1 == 0 {
            m.pin().insert(Key::new(k), Val::new(k, 0));
        } else {
            m.insert(Key::new(k), Val::new(k, 0), &m.guard());
        }
        let now = m.pin().get_key_value(&Q(k)).unwrap().0.uid();
        if now != first {
            violation("KEY", format!("{how} over an existing key replaced the stored key"));
            break;
        }
        kept += 1;
    }
    let s = build_set(&config(mode, 0, true));
    for k in 0..20 {
        s.pin().insert(Key::new(k));
        let first = s.pin().get(&Q(k)).unwrap().uid();
        s.pin().insert(Key::new(k));
        if s.pin().get(&Q(k)).unwrap().uid() != first {
            violation("RES", "inserting an element that a set has replaced the stored element".into());
            break;
        }
        kept += 1;
    }
    CaseOut {
        hash: i,
        nontrivial: true,
        sample: Some(json!({"insert over existing keys": how, "mode": mode, "keys_kept": kept})),
        counters: vec![("keys_reinserted", 40)],
    }
}

/// Insert keys that all have the same hash, and from case 6 on also iterate after every insertion.
pub fn collide(i: u64) -> CaseOut {
    let iterate = i >= 6;
    let mode = if iterate { [64, 1][i as usize % 2] } else { [0, 64, 1][i as usize % 3] };
    let hash = if iterate { [2, 3][(i / 2) as usize % 2] } else { [2, 3][(i / 3) as usize % 2] };
    reset();
    let m = build_map(&config(mode, hash, false));
    let n = 40;
    for k in 0..n {
        crate::note(format!("inserting fully colliding key number {} into a map", k + 1));
        m.pin().insert(Key::new(k), Val::new(k, 0));
        for q in 0..=k {
            if !m.pin().contains_key(&Q(q)) {
                violation("LIN", format!("k{q} is missing after the insertion of k{k}, all keys collide"));
            }
        }
        if iterate {
            crate::note(format!("iterating over a map of {} fully colliding keys", k + 1));
            let found = m.pin().iter().count();
            if found != k as usize + 1 {
                violation("ITER", format!("{found} of {} entries found, all keys collide", k + 1));
            }
        }
    }
    crate::note(String::new());
    CaseOut {
        hash: i,
        nontrivial: true,
        sample: Some(json!({"fully_colliding_keys": n, "mode": mode, "iterated": iterate})),
        counters: vec![("colliding_keys", n as u64)],
    }
}
