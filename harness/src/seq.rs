//! Long sequences of operations by one thread against an exact model.
use crate::alloc::{self, scope};
use crate::api::*;
use crate::conc::*;
use crate::hist::*;
use crate::rng::{mix, Rng};
use crate::sched;
use crate::types::*;
use crate::CaseOut;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;

/// Relative weights of the phases a sequence consists of.
fn weights(phase: usize, set: bool) -> [u32; NK] {
    let mut w = [0; NK];
    let (ins, del) = match phase {
        0 => (6, 1),
        1 => (2, 5),
        2 => (4, 4),
        _ => (1, 1),
    };
    let table: &[(K, u32)] = if set {
        &[(K::Get, 10), (K::Contains, 10), (K::Insert, 14 * ins), (K::Remove, 14 * del)]
    } else {
        &[
            (K::Get, 6),
            (K::GetByKey, 2),
            (K::GetKv, 4),
            (K::Contains, 4),
            (K::Insert, 6 * ins),
            (K::TryInsert, 3 * ins),
            (K::TryInsertWith, 2 * ins),
            (K::GetOrInsert, 2 * ins),
            (K::GetOrInsertWith, 2 * ins),
            (K::Update, 8),
            (K::UpdateOrInsert, 2 * ins),
            (K::UpdateOrInsertWith, 2 * ins),
            (K::Compute, 4 * (ins + del)),
            (K::Remove, 7 * del),
            (K::RemoveEntry, 4 * del),
            (K::RemoveIf, 5 * del),
        ]
    };
    for &(k, x) in table {
        w[k as usize] = x;
    }
    w
}

pub struct Seq {
    cfg: Config,
    sessions: Vec<Session>,
    keys: usize,
    spurious: bool,
    nops: usize,
}

fn generate(prop: &str, seed: u64) -> Seq {
    let mut rng = Rng::new(seed);
    let set = prop == "C18" || !matches!(prop, "C02") && rng.chance(1, 6);
    let hb = Hb {
        mode: if prop == "C23" {
            rng.pick(&[0, 1, 7, 8])
        } else if rng.chance(1, 2) { rng.pick(&[0, 8]) } else { rng.below(HASHERS as usize) as u8 },
        salt: rng.next(),
    };
    let keys = if hb.hostile() {
        rng.range(1, 16)
    } else {
        rng.pick(&[2, 5, 12, 30, 30, 60, 60, 150, 400, 1000, 3000])
    };
    let cfg = Config {
        mode: rng.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 7, 16, 64, 64, 1 << 20, 1 << 63, CHUNK0]),
        cap: rng.pick(&[0, 0, 0, 0, 1, 2, 3, 5, 6, 7, 12, 13, 24, 25, 48, 60, 100, 333, 1000, 3100]),
        hb,
        batch: rng.pick(&[1, 1, 2, 4, 32, 64]),
        one_shard: false,
        yield_user: false,
        early_drop: rng.chance(1, 3),
        set,
        quarantine: rng.chance(1, 2),
    };
    let nops = match keys {
        0..=30 => rng.pick(&[15, 40, 120, 300]),
        31..=150 => rng.pick(&[60, 200, 500, 900]),
        _ => rng.pick(&[500, 1500, 3000, 6000]),
    };
    let panics = prop == "C13";
    let mut sessions = vec![];
    let mut left = nops;
    let mut recent: Vec<u32> = vec![0; 4];
    let mut next = 0u32;
    // Expensive operations are rare in long sequences.
    let rare = (nops / 12).max(20);
    let mut w = weights(0, set);
    let mut phase_left = 0;
    let style = rng.below(3);
    while left > 0 {
        let n = rng.range(1, left.min(nops / 4 + 1));
        left -= n;
        let mut ops = vec![];
        for _ in 0..n {
            if phase_left == 0 {
                phase_left = rng.range(4, nops / 2 + 5);
                w = weights(rng.below(4), set);
            }
            phase_left -= 1;
            let key = match rng.below(6) {
                0 => rng.pick(&recent.clone()),
                1 | 2 | 3 if style == 0 => {
                    next = (next + 1) % keys as u32;
                    next
                }
                _ => rng.below(keys) as u32,
            };
            let slot = rng.below(recent.len());
            recent[slot] = key;
            let kind = if rng.chance(1, rare) {
                *[K::Iter, K::Iter, K::Iter, K::Retain, K::Retain, K::Clear, K::Reserve, K::Sub]
                    .get(rng.below(if set { 7 } else { 8 }))
                    .unwrap()
            } else {
                KINDS[rng.weighted(&w)]
            };
            let mut op = Op {
                kind,
                key,
                arg: rng.next(),
                nest: None,
                panic: 0,
                sub: None,
            };
            match kind {
                K::Reserve => op.arg = rng.pick(&[1, 2, 5, 10, 40, 200, 1000]),
                K::Sub => {
                    let m = rng.range(1, 4);
                    op.sub = Some(Box::new(Session {
                        fl: rng.pick(&[Fl::Pin, Fl::Guard, Fl::PinOwned, Fl::OwnedGuard]),
                        ops: (0..m)
                            .map(|_| Op {
                                kind: KINDS[rng.weighted(&w)],
                                key: rng.below(keys) as u32,
                                arg: rng.next(),
                                nest: None,
                                panic: 0,
                                sub: None,
                            })
                            .collect(),
                    }));
                }
                K::Iter | K::Clear => {}
                _ if panics && rng.chance(1, 4) => op.panic = rng.pick(&[1, 1, 1, 2, 2, 3, 4, 6]),
                _ => {}
            }
            ops.push(op);
        }
        sessions.push(Session {
            fl: rng.pick(&[Fl::Pin, Fl::Guard, Fl::PinOwned, Fl::OwnedGuard]),
            ops,
        });
    }
    Seq {
        cfg,
        sessions,
        keys,
        spurious: rng.chance(1, 3),
        nops,
    }
}

enum Ev {
    Op(Rec),
    Iter(IterRec),
    Sweep(SweepRec),
    Len(LenRec),
}

/// The exact sequential oracle. Returns the final contents.
pub fn judge(log: &mut Log, start: &BTreeMap<u32, u64>) -> BTreeMap<u32, u64> {
    let mut model = start.clone();
    let mut evs: Vec<(u32, Ev)> = vec![];
    evs.extend(log.recs.drain(..).map(|r| (r.ret, Ev::Op(r))));
    evs.extend(log.iters.drain(..).map(|r| (r.ret, Ev::Iter(r))));
    evs.extend(log.sweeps.drain(..).map(|r| (r.ret, Ev::Sweep(r))));
    evs.extend(log.lens.drain(..).map(|r| (r.ret, Ev::Len(r))));
    evs.sort_by_key(|e| e.0);
    for (_, e) in evs {
        match e {
            Ev::Op(r) => {
                let cur = model.get(&r.key).copied();
                let ok = match r.exp {
                    Exp::Any => true,
                    Exp::Is(v) => v == cur,
                    Exp::Present => cur.is_some(),
                };
                if !ok {
                    violation("LIN", format!("{r}, but the model holds {cur:?}"));
                }
                match r.next {
                    Next::Same | Next::Maybe(_) => {}
                    Next::To(Some(v)) => {
                        model.insert(r.key, v);
                    }
                    Next::To(None) => {
                        model.remove(&r.key);
                    }
                }
            }
            Ev::Iter(it) => {
                let mut seen = BTreeMap::new();
                for &(k, v, _) in &it.yields {
                    if seen.insert(k, v).is_some() {
                        violation("ITER", format!("{} yielded k{k} twice", it.kind));
                    }
                    match model.get(&k) {
                        None => violation("ITER", format!("{} yielded k{k}, which is absent", it.kind)),
                        Some(&m) if v != 0 && m != v => {
                            violation("ITER", format!("{} yielded k{k} = v{v}, but it holds v{m}", it.kind))
                        }
                        _ => {}
                    }
                }
                for k in model.keys() {
                    if !seen.contains_key(k) {
                        violation("ITER", format!("{} skipped k{k}", it.kind));
                    }
                }
            }
            Ev::Sweep(s) => {
                if s.clear {
                    model.clear();
                    continue;
                }
                let mut judged = BTreeMap::new();
                for &(k, v, keep) in &s.verdicts {
                    if judged.insert(k, v).is_some() {
                        violation("SWEEP", format!("retain judged k{k} twice"));
                    }
                    if model.get(&k) != Some(&v) {
                        violation("SWEEP", format!("retain judged k{k} = v{v}, but the model holds {:?}", model.get(&k)));
                    }
                    if !keep {
                        model.remove(&k);
                    }
                }
                if s.complete {
                    for k in model.keys() {
                        if !judged.contains_key(k) {
                            violation("SWEEP", format!("retain did not judge k{k}"));
                        }
                    }
                }
            }
            Ev::Len(l) => {
                if l.len != model.len() || l.empty != model.is_empty() {
                    violation(
                        "LEN",
                        format!("len() = {}, is_empty() = {}, but there are {} entries", l.len, l.empty, model.len()),
                    );
                }
            }
        }
    }
    model
}

pub fn run(prop: &str, seed: u64, dump: bool) -> CaseOut {
    let case = generate(prop, seed);
    let cfg = &case.cfg;
    if dump {
        eprintln!("{cfg:?} keys {}", case.keys);
        for s in &case.sessions {
            eprintln!(" {:?}", s.fl);
            for o in &s.ops {
                eprintln!("    {}(k{}) arg {:x} panic {}", kname(o.kind), o.key, o.arg, o.panic);
            }
        }
    }
    reset();
    sched::CLOCK.store(1, SeqCst);
    seq_spurious_seed(if case.spurious { mix(seed) | 1 } else { 0 });
    YIELD_USER.store(false, Relaxed);
    let ev0: Vec<u32> = EVENTS.iter().map(|e| e.load(Relaxed)).collect();
    alloc::start(cfg.quarantine);
    let mut log;
    let may_leak;
    let mut fin: BTreeMap<u32, u64> = BTreeMap::new();
    let mut fin_it: BTreeMap<u32, u64> = BTreeMap::new();
    macro_rules! body {
        ($build:ident, $sess:ident, $env:expr, $get:expr, $iter:expr) => {{
            let map = scope(|| $build(cfg));
            {
                let env: Env<'_> = $env(&map);
                let tc = Tc::new(0, &env, seed);
                for s in &case.sessions {
                    $sess(&map, s, &tc, None);
                }
                if tc.dead.get() {
                    // A panic was reported, the rest of the sequence did not run.
                }
                log = tc.log.into_inner();
                may_leak = tc.may_leak.into_inner();
            }
            for k in 0..case.keys as u32 + 2 {
                if let Some(u) = $get(&map, k) {
                    fin.insert(k, u);
                }
            }
            let call = sched::tick();
            let (len, empty) = (map.len(), map.is_empty());
            log.lens.push(LenRec { call, ret: sched::tick(), len, empty });
            if !cfg.early_drop {
                scope(|| $iter(&map, &mut |k: u32, u: u64| {
                    alloc::unscoped(|| {
                        if fin_it.insert(k, u).is_some() {
                            violation("FINAL", format!("final iteration yields k{k} twice"));
                        }
                    })
                }));
                if fin_it != fin {
                    violation("FINAL", format!("final iteration yields {fin_it:?}, lookups find {fin:?}"));
                }
            }
            scope(|| drop(map));
        }};
    }
    if cfg.set {
        body!(
            build_set,
            set_session,
            |m| Env { map: None, set: Some(m), yield_user: false, reader: false, lens: true, chunk: 0 },
            |m: &Set, k: u32| scope(|| m.pin().get(&Q(k)).map(|k| k.uid())),
            |m: &Set, f: &mut dyn FnMut(u32, u64)| m.pin().iter().for_each(|k| f(k.get(), k.uid()))
        );
    } else {
        body!(
            build_map,
            session,
            |m| Env { map: Some(m), set: None, yield_user: false, reader: false, lens: true, chunk: 0 },
            |m: &Map, k: u32| scope(|| m.pin().get(&Q(k)).map(|v| v.uid())),
            |m: &Map, f: &mut dyn FnMut(u32, u64)| m.pin().iter().for_each(|(k, v)| f(k.get(), v.uid()))
        );
    }
    seq_spurious_seed(0);
    let leaked: Vec<u64> = if uncounted() { vec![] } else { leaked() };
    let real = leaked.iter().filter(|u| !may_leak.contains(u)).count();
    if real > 0 {
        violation("LEAK", format!("{real} keys/values were never dropped although the map is gone"));
    }
    let rep = alloc::stop();
    rep.judge();
    if !rep.overflow && rep.live > log.panics as usize * 2 {
        violation("LEAK", format!("{} blocks ({} bytes) remain, sizes {:?}", rep.live, rep.live_bytes, rep.sizes));
    }
    if dump {
        for r in &log.recs {
            eprintln!("{r}");
        }
    }
    let (ops, panics, recs, iters, sweeps, lens) = (
        log.ops,
        log.panics,
        log.recs.len(),
        log.iters.len(),
        log.sweeps.len(),
        log.lens.len(),
    );
    let model = judge(&mut log, &BTreeMap::new());
    if model != fin {
        violation("LIN", format!("finally lookups find {fin:?}, but the model holds {model:?}"));
    }
    let ev: Vec<u64> = (0..5).map(|i| (EVENTS[i].load(Relaxed) - ev0[i]) as u64).collect();
    CaseOut {
        hash: seed,
        nontrivial: recs >= 10 && ev[0] > 0,
        sample: Some(json!({
            "seed": seed, "operations": ops, "keys": case.keys, "final_entries": fin.len(), "resizes": ev[0],
            "mode": cfg.mode, "capacity": cfg.cap, "hasher": cfg.hb.mode,
        })),
        counters: vec![
            ("operations", ops as u64),
            ("results_checked", recs as u64),
            ("lengths_checked", lens as u64),
            ("iterations_checked", iters as u64),
            ("sweeps_checked", sweeps as u64),
            ("injected_panics", panics as u64),
            ("resizes_started", ev[0]),
            ("promoted", ev[1]),
            ("aborted", ev[2]),
            ("objects_tracked", created()),
            ("max_operations_in_one_sequence", case.nops as u64),
        ],
    }
}
