#![recursion_limit = "512"]
mod affinity;
mod alloc;
mod api;
mod cap;
mod churn;
mod conc;
mod conv;
mod guards;
mod hist;
mod probe;
mod rng;
mod seq;
mod sched;
mod shapes;
mod types;
mod watch;
mod work;

use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static A: alloc::Alloc = alloc::Alloc;

static CURRENT: AtomicU64 = AtomicU64::new(0);
static PROP: Mutex<String> = Mutex::new(String::new());
static MODE: Mutex<String> = Mutex::new(String::new());
static NOTE: Mutex<String> = Mutex::new(String::new());
static DONE: AtomicU64 = AtomicU64::new(0);

/// Remember which case is running, in case the process dies.
fn current(seed: u64) {
    CURRENT.store(seed, Relaxed);
    if let Ok(p) = std::env::var("PV_STATE") {
        use std::os::unix::fs::FileExt;
        thread_local!(static F: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) });
        F.with(|f| {
            let mut f = f.borrow_mut();
            let f = f.get_or_insert_with(|| std::fs::File::create(p).unwrap());
            let _ = f.write_all_at(format!("{seed:020}").as_bytes(), 0);
        });
    }
}

/// What is happening, for reports of hangs.
pub fn note(s: String) {
    *NOTE.lock().unwrap() = s;
}

fn report(v: &[(&str, String)]) {
    let prop = PROP.lock().unwrap().clone();
    let list: Vec<Value> = v.iter().map(|(t, m)| json!({"tag": t, "msg": m})).collect();
    println!(
        "{}",
        json!({
            "violation": true,
            "prop": prop,
            "mode": *MODE.lock().unwrap(),
            "seed": CURRENT.load(Relaxed),
            "violations": list,
            "evaluations": DONE.load(Relaxed),
        })
    );
}

/// Operations on keys that lie need not end; that says nothing about memory.
fn abandon() {
    if *PROP.lock().unwrap() == "C23" {
        println!("{}", json!({"done": true, "evaluations": DONE.load(Relaxed), "abandoned_executions": 1}));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(0) }
    }
}

fn fatal(o: sched::Outcome) -> ! {
    abandon();
    alloc::LEDGER_ON.store(false, Relaxed);
    let mut v = types::take_violations();
    v.push(("HANG", format!("{o:?}: {} {}", sched::dump(), NOTE.lock().unwrap())));
    report(&v);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

fn stuck(m: String) -> ! {
    abandon();
    report(&[("HANG", format!("{m} {}", NOTE.lock().unwrap()))]);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}

extern "C" {
    fn _exit(c: i32) -> !;
}

struct Opts {
    prop: String,
    seed: u64,
    count: u64,
    secs: f64,
    one: Option<u64>,
    dump: bool,
    core: usize,
    index: usize,
}

/// What one execution did.
#[derive(Default)]
pub struct CaseOut {
    /// Identifies the case or schedule.
    pub hash: u64,
    pub nontrivial: bool,
    pub counters: Vec<(&'static str, u64)>,
    pub sample: Option<Value>,
}

/// Run cases until the time is over, and report.
fn drive(o: &Opts, mut case: impl FnMut(u64) -> CaseOut) -> i32 {
    let t0 = Instant::now();
    watch::start(|| DONE.load(Relaxed), stuck);
    let mut n = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut ignored: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples: Vec<Value> = vec![];
    let mut total: std::collections::BTreeMap<&'static str, u64> = Default::default();
    loop {
        let seed = match o.one {
            Some(s) => s,
            None => rng::mix(o.seed.wrapping_mul(0x1000_0000_01b3) ^ n),
        };
        current(seed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(seed)));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let mut v = types::take_violations();
                v.push(("PANIC", format!("panicked: {}", conc::panic_text(&*e))));
                report(&v);
                return 1;
            }
        };
        n += 1;
        DONE.store(n, Relaxed);
        let v = types::take_violations();
        if !v.is_empty() {
            let rel: Vec<_> = v.iter().filter(|x| conc::relevant(&o.prop, x.0)).cloned().collect();
            for x in &v {
                if !conc::relevant(&o.prop, x.0) {
                    *ignored.entry(x.0.into()).or_default() += 1;
                    if std::env::var("PV_ALL").is_ok() {
                        eprintln!("seed {seed}: {} {}", x.0, x.1);
                    }
                }
            }
            if !rel.is_empty() {
                report(&rel);
                if std::env::var("PV_KEEP").is_err() {
                    return 1;
                }
            }
        }
        let fresh = hashes.insert(r.hash);
        if fresh && r.nontrivial {
            nontrivial += 1;
            if samples.len() < 2 {
                if let Some(s) = r.sample {
                    samples.push(s);
                }
            }
        }
        for (k, x) in r.counters {
            let e = total.entry(k).or_default();
            *e = if k.starts_with("max_") { (*e).max(x) } else { *e + x };
        }
        if o.one.is_some() || n >= o.count || t0.elapsed().as_secs_f64() > o.secs {
            break;
        }
    }
    let mut out = json!({
        "done": true, "evaluations": n, "distinct_nontrivial": nontrivial,
        "distinct": hashes.len(), "wall_s": t0.elapsed().as_secs_f64(),
        "value_checks": types::CHECKS.load(Relaxed),
        "other_monitors": ignored, "samples": samples,
    });
    for (k, x) in total {
        out[k] = json!(x);
    }
    println!("{out}");
    0
}

fn conc(o: &Opts, free: bool) -> i32 {
    let cores = affinity::get();
    let core = cores[o.core % cores.len()];
    if free {
        sched::init(fatal, None);
        watch::start(|| (sched::CLOCK.load(Relaxed) as u64) << 32 ^ DONE.load(Relaxed), stuck);
    } else {
        affinity::set(&[core]);
        sched::init(fatal, Some(core));
        warm(core);
    }
    let mut p = conc::profile(&o.prop);
    p.free = free;
    drive(o, |seed| {
        sched::solo(50_000_000);
        dishonest(o, seed);
        let lies = types::LIES.load(Relaxed);
        let r = conc::run_one(&p, seed, &cores, core, o.dump);
        sched::solo(0);
        let (s, ev) = (&r.stats, r.stats.events.iter().sum::<u64>());
        // Non-trivial: threads were really interleaved, and conflicting operations overlapped
        // or the table was being resized.
        let nontrivial = (free || s.preempt > 0) && (r.overlaps > 0 || ev > 0);
        CaseOut {
            hash: if free { seed } else { s.trace_hash ^ rng::mix(seed >> 60) },
            nontrivial,
            sample: (r.overlaps > 0 && ev > 0).then(|| {
                json!({
                    "seed": seed, "operations": r.ops, "scheduling_points": s.steps,
                    "switches": s.switches, "resizes_started": s.events[0],
                    "promoted": s.events[1], "aborted": s.events[2],
                    "waited_for_copy": s.events[3], "deferred_retire": s.events[4],
                    "parks": s.parks, "linearized_keys": r.wgl_keys,
                })
            }),
            counters: vec![
                ("operations", r.ops),
                ("history_records", r.recs),
                ("scheduling_points", s.steps),
                ("switches", s.switches),
                ("preemptions", s.preempt),
                ("parks", s.parks),
                ("lock_waits", s.lock_waits),
                ("resizes_started", s.events[0]),
                ("promoted", s.events[1]),
                ("aborted", s.events[2]),
                ("runs_with_several_aborts", (s.events[2] > 1) as u64),
                ("waited_for_copy", s.events[3]),
                ("deferred_retire", s.events[4]),
                ("runs_with_resize", (s.events[0] > 0) as u64),
                ("runs_with_several_resizes", (s.events[0] > 1) as u64),
                ("iterations", r.iters),
                ("yields", r.yields),
                ("must_yield_checks", r.must_yield),
                ("sweeps", r.sweeps),
                ("predicate_verdicts", r.verdicts),
                ("len_reads", r.lens),
                ("injected_panics", r.panics),
                ("held_reference_rechecks", r.rechecks),
                ("linearized_keys", r.wgl_keys),
                ("linearization_inconclusive", r.wgl_unknown),
                ("keys_with_overlapping_writes", r.overlaps),
                ("versions_chained", r.versions),
                ("objects_tracked", r.objects),
                ("blocks_tracked", r.blocks),
                ("dropped_without_finishing_resize", r.mid_resize_drop),
                ("frozen_runs", (s.frozen_ops > 0) as u64),
                ("frozen_lookups", s.frozen_ops),
                ("max_lookup_steps_while_frozen", s.max_reader_steps),
                ("delayed_store_runs", (s.delayed_stores > 0) as u64),
                ("delayed_stores", s.delayed_stores),
                ("happens_before_checks", s.hb_checks),
                ("operations_whose_work_was_measured", r.measured),
                ("entries_moved", r.moved),
                ("wrong_answers_of_keys", types::LIES.load(Relaxed) - lies),
                ("max_entries_moved_by_one_operation", r.max_moved),
            ],
        }
    })
}

/// Cases that need one thread only.
fn solo(o: &Opts, mut f: impl FnMut(u64) -> CaseOut) -> i32 {
    sched::init_hooks(fatal);
    {
        // Per-thread state of the reclamation scheme.
        let m: papaya::HashMap<u32, u32> = papaya::HashMap::new();
        m.pin().insert(1, 1);
        drop((0..4).map(|_| m.owned_guard()).collect::<Vec<_>>());
    }
    drive(o, |seed| {
        sched::solo(200_000_000);
        let r = f(seed);
        sched::solo(0);
        r
    })
}

/// Keys that answer wrongly, for the property about them.
fn dishonest(o: &Opts, seed: u64) {
    if o.prop == "C23" {
        let mut r = rng::Rng::new(rng::mix(seed ^ 0x11e5));
        types::lie(r.pick(&[3, 30, 100, 300, 512]), r.next());
    }
}

fn shapes(o: &Opts) -> i32 {
    let cores = affinity::get();
    let core = cores[o.core % cores.len()];
    affinity::set(&[core]);
    sched::init(fatal, Some(core));
    warm(core);
    drive(o, |seed| {
        sched::solo(50_000_000);
        let r = shapes::run(seed);
        sched::solo(0);
        r
    })
}

/// Let seize and std allocate their per-thread state outside of any execution.
fn warm(_core: usize) {
    let m: papaya::HashMap<u32, u32> = papaya::HashMap::new();
    let gs: Vec<_> = (0..64).map(|_| m.owned_guard()).collect();
    drop(gs);
    m.pin().insert(1, 1);
    let job = |_t: usize| {
        m.pin().get(&1);
    };
    let mut r = rng::Rng::new(1);
    let plan = sched::Plan::random(&mut r, sched::MAXT, 100);
    sched::run(sched::MAXT, plan, &job);
    types::take_violations();
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var("PV_PANIC").is_ok() {
            eprintln!("{info}");
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        prop: "C01".into(),
        seed: 1,
        count: u64::MAX,
        secs: 5.0,
        one: None,
        dump: false,
        core: 0,
        index: 0,
    };
    let mode = args.get(1).cloned().unwrap_or_default();
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--count" => o.count = v.parse().unwrap(),
            "--secs" => o.secs = v.parse().unwrap(),
            "--one" => o.one = Some(v.parse().unwrap()),
            "--core" => o.core = v.parse().unwrap(),
            "--index" => o.index = v.parse().unwrap(),
            "--dump" => {
                o.dump = true;
                i += 1;
                continue;
            }
            x => panic!("unknown option {x}"),
        }
        i += 2;
    }
    *PROP.lock().unwrap() = o.prop.clone();
    if matches!(o.prop.as_str(), "C09" | "C13" | "C15" | "C19") {
        sched::STRIDE.store(64, Relaxed);
    }
    *MODE.lock().unwrap() = mode.clone();
    let code = match mode.as_str() {
        "conc" => conc(&o, false),
        "free" => conc(&o, true),
        "hotkey" => {
            watch::start(|| churn::PROGRESS.load(Relaxed), stuck);
            solo(&o, |_| {
                sched::solo(0);
                churn::hot_key()
            })
        }
        "churn" => {
            watch::start(|| churn::PROGRESS.load(Relaxed), stuck);
            solo(&o, |seed| {
                sched::solo(0);
                churn::run(seed, (o.index >= 2).then_some(1))
            })
        }
        "capacity" => solo(&o, cap::run),
        "work" => solo(&o, |seed| work::run(seed, o.dump)),
        "keys" => solo(&o, |_| {
            let i = o.one.unwrap_or(DONE.load(Relaxed));
            current(i);
            probe::keys(i)
        }),
        "collide" => solo(&o, |_| {
            let i = o.one.unwrap_or(o.index as u64);
            current(i);
            sched::solo(3_000_000);
            probe::collide(i)
        }),
        "guards" => solo(&o, |seed| guards::run(seed, o.dump)),
        "conv" => solo(&o, conv::run),
        "shapes" => shapes(&o),
        "seq" => solo(&o, |seed| {
            dishonest(&o, seed);
            seq::run(&o.prop, seed, o.dump)
        }),
        m => {
            eprintln!("unknown mode {m}");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
