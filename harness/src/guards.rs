//! Guards of other maps are rejected by every operation, whatever the state of the map.
use crate::alloc::{self, scope};
use crate::api::*;
use crate::conc::*;
use crate::rng::Rng;
use crate::types::*;
use crate::CaseOut;
use papaya::{Guard, Operation};
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State {
    Empty,
    Prealloc,
    One,
    Filled,
    MidResize,
    Cleared,
}
const STATES: [State; 6] =
    [State::Empty, State::Prealloc, State::One, State::Filled, State::MidResize, State::Cleared];

const MAP_OPS: usize = 20;
const SET_OPS: usize = 8;

/// Call one operation with the guard. `called` counts calls of closures.
fn map_op<G: Guard>(i: usize, m: &Map, g: &G, key: u32, called: &std::cell::Cell<u32>) -> &'static str {
    let c = || called.set(called.get() + 1);
    let nk = || Key::new(key);
    let nv = || Val::new(key, 0);
    match i {
        0 => (m.get(&Q(key), g).map(|v| v.uid()), "get").1,
        1 => (m.get_key_value(&Q(key), g).map(|(k, v)| (k.uid(), v.uid())), "get_key_value").1,
        2 => (m.contains_key(&Q(key), g), "contains_key").1,
        3 => (m.insert(nk(), nv(), g).map(|v| v.uid()), "insert").1,
        4 => (m.try_insert(nk(), nv(), g).map(|v| v.uid()).is_ok(), "try_insert").1,
        5 => {
            let r = m.try_insert_with(
                nk(),
                || {
                    c();
                    nv()
                },
                g,
            );
            (r.is_ok(), "try_insert_with").1
        }
        6 => (m.get_or_insert(nk(), nv(), g).uid(), "get_or_insert").1,
        7 => {
            let r = m.get_or_insert_with(
                nk(),
                || {
                    c();
                    nv()
                },
                g,
            );
            (r.uid(), "get_or_insert_with").1
        }
        8 => {
            let r = m.update(
                nk(),
                |v| {
                    c();
                    Val::new(key, v.uid())
                },
                g,
            );
            (r.is_some(), "update").1
        }
        9 => {
            let r = m.update_or_insert(
                nk(),
                |v| {
                    c();
                    Val::new(key, v.uid())
                },
                nv(),
                g,
            );
            (r.uid(), "update_or_insert").1
        }
        10 => {
            let r = m.update_or_insert_with(
                nk(),
                |v| {
                    c();
                    Val::new(key, v.uid())
                },
                || {
                    c();
                    nv()
                },
                g,
            );
            (r.uid(), "update_or_insert_with").1
        }
        11 => {
            m.compute(
                nk(),
                |e| {
                    c();
                    match e {
                        Some(_) => Operation::Remove,
                        None => Operation::<Val, ()>::Insert(nv()),
                    }
                },
                g,
            );
            "compute"
        }
        12 => (m.remove(&Q(key), g).map(|v| v.uid()), "remove").1,
        13 => (m.remove_entry(&Q(key), g).map(|v| v.1.uid()), "remove_entry").1,
        14 => {
            let r = m.remove_if(
                &Q(key),
                |_, _| {
                    c();
                    true
                },
                g,
            );
            (r.is_ok(), "remove_if").1
        }
        15 => (m.clear(g), "clear").1,
        16 => {
            m.retain(
                |_, _| {
                    c();
                    false
                },
                g,
            );
            "retain"
        }
        17 => (m.reserve(100, g), "reserve").1,
        18 => {
            // Creating the iterator must fail already.
            let it = m.iter(g);
            called.set(called.get() + 100);
            it.for_each(|(k, v)| {
                k.uid();
                v.uid();
            });
            "iter"
        }
        _ => {
            if key & 1 == 0 {
                m.keys(g).for_each(|k| {
                    k.uid();
                });
            } else {
                m.values(g).for_each(|v| {
                    v.uid();
                });
            }
            "keys/values"
        }
    }
}

fn set_op<G: Guard>(i: usize, m: &Set, g: &G, key: u32, called: &std::cell::Cell<u32>) -> &'static str {
    match i {
        0 => (m.get(&Q(key), g).map(|k| k.uid()), "get").1,
        1 => (m.contains(&Q(key), g), "contains").1,
        2 => (m.insert(Key::new(key), g), "insert").1,
        3 => (m.remove(&Q(key), g), "remove").1,
        4 => (m.clear(g), "clear").1,
        5 => {
            m.retain(
                |_| {
                    called.set(called.get() + 1);
                    false
                },
                g,
            );
            "retain"
        }
        6 => (m.reserve(100, g), "reserve").1,
        _ => {
            m.iter(g).for_each(|k| {
                k.uid();
            });
            "iter"
        }
    }
}

fn snapshot(m: &Map, keys: u32) -> (BTreeMap<u32, u64>, usize) {
    let g = m.guard();
    ((0..keys).filter_map(|k| m.get(&Q(k), &g).map(|v| (k, v.uid()))).collect(), m.len())
}
fn snapshot_set(m: &Set, keys: u32) -> (BTreeMap<u32, u64>, usize) {
    let g = m.guard();
    ((0..keys).filter_map(|k| m.get(&Q(k), &g).map(|v| (k, v.uid()))).collect(), m.len())
}

const KEYS: u32 = 120;

pub fn run(seed: u64, dump: bool) -> CaseOut {
    let mut rng = Rng::new(seed);
    reset();
    YIELD_USER.store(false, Relaxed);
    alloc::start(rng.chance(1, 2));
    let state = rng.pick(&STATES);
    let cfg = Config {
        mode: if state == State::MidResize { rng.pick(&[1, 1, 2, 4]) } else { rng.pick(&[0, 1, 64]) },
        cap: if state == State::Prealloc { rng.range(1, 100) } else { 0 },
        hb: Hb { mode: rng.pick(&[0, 1, 8]), salt: rng.next() },
        batch: rng.pick(&[1, 4, 32]),
        one_shard: false,
        yield_user: false,
        early_drop: false,
        set: rng.chance(1, 3),
        quarantine: false,
    };
    let ocfg = Config { cap: rng.pick(&[0, 0, 10]), ..cfg.clone() };
    let (mut matrix, mut accepted, mut resizing, mut rejected) = (0u64, 0u64, 0u64, 0u64);
    if dump {
        eprintln!("{state:?} {cfg:?}");
    }

    macro_rules! body {
        ($build:ident, $ops:expr, $op:ident, $snap:ident, $put:expr, $del:expr) => {{
            let mut make = |state: State, rng: &mut Rng| {
                let m = scope(|| $build(&cfg));
                let mut live = vec![];
                match state {
                    State::Empty | State::Prealloc => {}
                    State::One => {
                        $put(&m, 5);
                        live.push(5);
                    }
                    State::Filled | State::Cleared => {
                        let n = rng.range(2, 60) as u32;
                        for k in 0..n {
                            $put(&m, k);
                            live.push(k);
                        }
                        for k in 0..rng.below(5) as u32 {
                            $del(&m, k);
                            live.retain(|x| *x != k);
                        }
                        if state == State::Cleared {
                            m.pin().clear();
                            live.clear();
                        }
                    }
                    State::MidResize => {
                        let (a, b) = (EVENTS[0].load(Relaxed), EVENTS[1].load(Relaxed));
                        let mut k = 0;
                        while EVENTS[0].load(Relaxed) == a && k < 100 {
                            $put(&m, k);
                            live.push(k);
                            k += 1;
                        }
                        if EVENTS[1].load(Relaxed) == b && EVENTS[0].load(Relaxed) > a {
                            resizing += 1;
                        }
                    }
                }
                (m, live)
            };
            // Another map, sometimes living where a previous one was.
            if rng.chance(1, 2) {
                let old = scope(|| $build(&ocfg));
                $put(&old, 1);
                drop(old.guard());
                scope(|| drop(old));
            }
            let other = scope(|| $build(&ocfg));
            if rng.chance(1, 2) {
                $put(&other, 1);
                $put(&other, 7);
            }
            for op in 0..$ops {
                for owned in [false, true] {
                    for present in [false, true] {
                        let (m, live) = make(state, &mut rng);
                        let key = if present && !live.is_empty() { rng.pick(&live) } else { 110 };
                        let called = std::cell::Cell::new(0);
                        let before = $snap(&m, KEYS);
                        let obefore = $snap(&other, KEYS);
                        // Guards of the map may be held at the same time.
                        let own = rng.chance(1, 3).then(|| m.guard());
                        let r = if owned {
                            let g = other.owned_guard();
                            catch_unwind(AssertUnwindSafe(|| scope(|| $op(op, &m, &g, key, &called))))
                        } else {
                            let g = other.guard();
                            catch_unwind(AssertUnwindSafe(|| scope(|| $op(op, &m, &g, key, &called))))
                        };
                        drop(own);
                        matrix += 1;
                        let who = format!(
                            "{} {} #{op} on {state:?} with a foreign {} guard",
                            stringify!($op),
                            r.as_ref().ok().copied().unwrap_or(""),
                            if owned { "owned" } else { "local" }
                        );
                        if r.is_ok() {
                            violation("GUARD", format!("{who} was accepted"));
                        } else {
                            rejected += 1;
                        }
                        if called.get() > 0 {
                            violation("GUARD", format!("{who} called its closure or made an iterator"));
                        }
                        if $snap(&m, KEYS) != before {
                            violation("GUARD", format!("{who} changed the map"));
                        }
                        if $snap(&other, KEYS) != obefore {
                            violation("GUARD", format!("{who} changed the other map"));
                        }
                        // Its own guards are fine, also while a foreign one is held.
                        called.set(0);
                        let held = other.guard();
                        let r = if owned {
                            let g = m.owned_guard();
                            catch_unwind(AssertUnwindSafe(|| scope(|| $op(op, &m, &g, key, &called))))
                        } else {
                            let g = m.guard();
                            catch_unwind(AssertUnwindSafe(|| scope(|| $op(op, &m, &g, key, &called))))
                        };
                        drop(held);
                        match r {
                            Ok(_) => accepted += 1,
                            Err(e) => violation(
                                "GUARD",
                                format!("#{op} on {state:?} panicked with the map's own guard: {}", panic_text(&*e)),
                            ),
                        }
                        scope(|| drop(m));
                    }
                }
            }
            scope(|| drop(other));
        }};
    }
    if cfg.set {
        body!(
            build_set,
            SET_OPS,
            set_op,
            snapshot_set,
            |m: &Set, k: u32| scope(|| m.pin().insert(Key::new(k))),
            |m: &Set, k: u32| scope(|| m.pin().remove(&Q(k)))
        );
    } else {
        body!(
            build_map,
            MAP_OPS,
            map_op,
            snapshot,
            |m: &Map, k: u32| scope(|| {
                m.pin().insert(Key::new(k), Val::new(k, 0));
            }),
            |m: &Map, k: u32| scope(|| {
                m.pin().remove(&Q(k));
            })
        );
    }
    let l = leaked().len();
    if l > 0 {
        violation("LEAK", format!("{l} keys/values were never dropped"));
    }
    let rep = alloc::stop();
    rep.judge();
    if !rep.overflow && rep.live > 0 {
        violation("LEAK", format!("{} blocks remain: {:?}", rep.live, rep.sizes));
    }
    CaseOut {
        hash: seed,
        nontrivial: state != State::Empty,
        sample: Some(json!({"seed": seed, "state": format!("{state:?}"), "set": cfg.set, "calls_rejected": rejected})),
        counters: vec![
            ("foreign_guard_calls", matrix),
            ("rejected", rejected),
            ("own_guard_calls_accepted", accepted),
            ("maps_in_the_middle_of_a_resize", resizing),
            ("map_states_empty", (state == State::Empty) as u64),
            ("map_states_preallocated", (state == State::Prealloc) as u64),
            ("map_states_filled", (state == State::Filled) as u64),
        ],
    }
}
