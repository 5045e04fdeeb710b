//! Controlled scheduler: real OS threads, exactly one of which runs between two
//! scheduling points. Every source of blocking is modelled.
use crate::rng::Rng;
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::thread::Thread;

pub const MAXT: usize = 6;
const CTRL: usize = 100;
const SOLO_ID: usize = 1000;
const NONE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static SOLO: Cell<bool> = const { Cell::new(false) };
    static SOLO_LEFT: Cell<u64> = const { Cell::new(0) };
    static SOLO_TOKEN: Cell<bool> = const { Cell::new(false) };
    static CHAOS: Cell<u64> = const { Cell::new(0) };
    static BUF: std::cell::RefCell<Vec<(usize, usize, u64)>> = const { std::cell::RefCell::new(Vec::new()) };
    static NBUF: Cell<usize> = const { Cell::new(0) };
    static RETIRED: Cell<usize> = const { Cell::new(0) };
}

/// Number of objects that a thread can retire in an execution before any of them is freed.
pub static BATCH: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Access {
    Load,
    Store,
    Rmw,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Parked,
    Lock(usize),
    Done,
}

#[derive(Clone, Debug)]
pub enum Strat {
    /// Switch with probability p/1024 at every point.
    Walk(usize),
    /// Run for a geometric length of the given mean.
    Burst(usize),
    /// Priorities with the given number of change points.
    Pct(usize),
    /// Partial order sampling.
    Pos,
    /// Only switch when a thread blocks or finishes (plus stalls).
    Serial,
}

#[derive(Clone, Debug, Default)]
pub struct Stall {
    pub thread: usize,
    pub at: u64,
    pub len: u64,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub strat: Strat,
    pub stalls: Vec<Stall>,
    /// Stall a thread right after it reports the event, with a probability in 1024.
    pub event_stall: Option<(usize, usize, u64)>,
    /// Stall a thread right after it changed a shared location, with a probability in 1024.
    pub rmw_stall: (usize, u64),
    /// Stall a thread right after the n-th change it makes: (thread, n, length).
    pub rmw_at: (usize, u32, u64),
    pub spurious_park: bool,
    pub spurious_cas: usize,
    pub tso: usize,
    pub hb: bool,
    pub uaf: bool,
    pub est: u64,
    pub soft: u64,
    pub hard: u64,
    /// Freeze every thread not in `readers` forever at this step.
    pub freeze: Option<Freeze>,
}

#[derive(Clone, Debug)]
pub struct Freeze {
    pub at: u64,
    pub readers: u32,
    pub bound: u64,
}

impl Plan {
    pub fn random(rng: &mut Rng, n: usize, est: u64) -> Plan {
        let strat = match rng.below(20) {
            0..=4 => Strat::Walk(rng.pick(&[20, 60, 150, 300, 512])),
            5..=8 => Strat::Burst(rng.pick(&[2, 4, 8, 20, 50, 120])),
            9..=12 => Strat::Pct(rng.range(1, 5)),
            13..=16 => Strat::Pos,
            _ => Strat::Serial,
        };
        let per = (est / n.max(1) as u64).max(8);
        let nst = match strat {
            Strat::Serial => rng.range(1, 4),
            _ => rng.pick(&[0, 0, 0, 1, 1, 2]),
        };
        let stalls = (0..nst)
            .map(|_| Stall {
                thread: rng.below(n),
                at: rng.below(per as usize + per as usize / 4) as u64,
                len: rng.pick(&[20, 80, 300, 1000, 1 << 40]),
            })
            .collect();
        Plan {
            seed: rng.next(),
            strat,
            stalls,
            event_stall: rng.chance(1, 4).then(|| {
                (
                    rng.pick(&[0, 0, 1, 2, 3, 4]),
                    rng.pick(&[300, 1024]),
                    rng.pick(&[15, 60, 250, 1000, 1 << 40]),
                )
            }),
            rmw_stall: if rng.chance(1, 5) { (rng.pick(&[10, 40, 120]), rng.pick(&[30, 100, 400, 1 << 40])) } else { (0, 0) },
            rmw_at: (0, 0, 0),
            spurious_park: rng.chance(1, 3),
            spurious_cas: if rng.chance(1, 5) { rng.pick(&[20, 100, 300]) } else { 0 },
            tso: if rng.chance(1, 4) { rng.pick(&[30, 100, 400]) } else { 0 },
            hb: false,
            uaf: false,
            est,
            soft: 40_000,
            hard: 1_500_000,
            freeze: None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    Ok,
    Deadlock,
    Livelock,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempt: u64,
    pub parks: u64,
    pub lock_waits: u64,
    pub events: [u64; 5],
    pub trace_hash: u64,
    pub frozen_ops: u64,
    pub max_reader_steps: u64,
    pub delayed_stores: u64,
    pub hb_checks: u64,
}

type VC = [u32; MAXT + 1];

#[derive(Default)]
struct Hb {
    vc: [VC; MAXT + 1],
    acq: [VC; MAXT + 1],
    rel: [VC; MAXT + 1],
    loc: HashMap<usize, VC>,
    tokens: [VC; MAXT + 1],
}

pub struct Inner {
    n: usize,
    st: [St; MAXT],
    token: [bool; MAXT],
    pend: [(usize, Access); MAXT],
    prio: [u64; MAXT],
    tsteps: [u64; MAXT],
    stalled_until: [u64; MAXT],
    stall_in: [(u32, u64); MAXT],
    last: [(usize, Access); MAXT],
    left: u64,
    change: Vec<u64>,
    rng: Rng,
    plan: Plan,
    pub stats: Stats,
    hb: Hb,
    frozen: bool,
    // reader op accounting under freeze: steps since freeze
    in_lookup: [bool; MAXT],
    lookup_steps: [u64; MAXT],
    lookup_frozen: [bool; MAXT],
    pub verdict: Option<(&'static str, String)>,
    fair: bool,
}

struct Global(UnsafeCell<Option<Inner>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));
static CUR: AtomicUsize = AtomicUsize::new(CTRL);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static HANDLES: [OnceLock<Thread>; MAXT] = [const { OnceLock::new() }; MAXT];
static CTRL_HANDLE: OnceLock<Thread> = OnceLock::new();
static mut JOB: Option<*const (dyn Fn(usize) + Sync)> = None;
pub static CLOCK: AtomicU32 = AtomicU32::new(0);
static FATAL: OnceLock<fn(Outcome) -> !> = OnceLock::new();

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut Inner {
    unsafe { (*G.0.get()).as_mut().unwrap() }
}

pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    if m == NONE || !ACTIVE.load(Relaxed) {
        None
    } else {
        Some(m)
    }
}

/// Thread index and clock for attributing objects (controller is `MAXT`).
pub fn now() -> (u8, u32) {
    if !ACTIVE.load(Relaxed) {
        return (MAXT as u8, 0);
    }
    match me() {
        Some(m) => (m as u8, g().hb.vc[m][m]),
        None => (MAXT as u8, 0),
    }
}

/// Next tick of the global event clock. Others may learn of it, so that earlier stores are visible to them.
#[inline]
pub fn tick() -> u32 {
    flush();
    CLOCK.fetch_add(1, SeqCst)
}

/// Run without scheduling points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct D;
    impl Drop for D {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _d = D;
    f()
}

fn controlled() -> Option<usize> {
    if QUIET.with(|q| q.get()) > 0 {
        return None;
    }
    me()
}

fn wait_turn(me: usize) {
    while CUR.load(Acquire) != me {
        std::thread::park();
    }
}

fn hand(to: usize) {
    CUR.store(to, Release);
    if to == CTRL {
        CTRL_HANDLE.get().unwrap().unpark();
    } else {
        HANDLES[to].get().unwrap().unpark();
    }
}

fn switch_to(from: usize, to: usize) {
    if from == to {
        return;
    }
    let i = g();
    i.stats.switches += 1;
    i.stats.trace_hash = (i.stats.trace_hash ^ (to as u64 + 1 + i.stats.steps * 8))
        .wrapping_mul(0x100000001b3);
    hand(to);
    wait_turn(from);
}

impl Inner {
    fn runnable(&self, t: usize) -> bool {
        self.st[t] == St::Run
            && !(self.frozen
                && self
                    .plan
                    .freeze
                    .as_ref()
                    .is_some_and(|f| f.readers >> t & 1 == 0))
    }

    /// Choose the next thread to run, `None` if no thread can.
    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        let mut cand = [0usize; MAXT];
        let mut n = 0;
        let now = self.stats.steps;
        for t in 0..self.n {
            if self.runnable(t) && self.stalled_until[t] <= now {
                cand[n] = t;
                n += 1;
            }
        }
        if n == 0 {
            for t in 0..self.n {
                if self.runnable(t) {
                    self.stalled_until[t] = 0;
                    cand[n] = t;
                    n += 1;
                }
            }
        }
        if n == 0 {
            return None;
        }
        let cand = &cand[..n];
        let stay = me.filter(|m| cand.contains(m));
        if self.fair {
            // Round robin with a quantum.
            if let Some(m) = stay {
                if self.left > 0 {
                    self.left -= 1;
                    return Some(m);
                }
            }
            self.left = 40;
            let from = me.map_or(0, |m| m + 1);
            return (0..MAXT)
                .map(|k| (from + k) % MAXT)
                .find(|t| cand.contains(t));
        }
        Some(match self.plan.strat {
            Strat::Walk(p) => match stay {
                Some(m) if !self.rng.chance(p, 1024) => m,
                _ => cand[self.rng.below(n)],
            },
            Strat::Burst(mean) => match stay {
                Some(m) if self.left > 0 => {
                    self.left -= 1;
                    m
                }
                _ => {
                    self.left = 0;
                    while !self.rng.chance(1, mean) && self.left < 4000 {
                        self.left += 1;
                    }
                    cand[self.rng.below(n)]
                }
            },
            Strat::Pct(_) | Strat::Pos => *cand.iter().max_by_key(|t| self.prio[**t]).unwrap(),
            Strat::Serial => match stay {
                Some(m) => m,
                None => cand[self.rng.below(n)],
            },
        })
    }

    fn thaw(&mut self) {
        self.frozen = false;
    }
}

/// A scheduling point of thread `m` before the given access.
fn point(m: usize, addr: usize, access: Access) {
    let i = g();
    i.stats.steps += 1;
    i.tsteps[m] += 1;
    let now = i.stats.steps;
    if i.in_lookup[m] && i.frozen {
        i.lookup_steps[m] += 1;
        let s = i.lookup_steps[m];
        if s > i.stats.max_reader_steps {
            i.stats.max_reader_steps = s;
        }
        let f = i.plan.freeze.as_ref().unwrap();
        if s > f.bound && i.verdict.is_none() {
            i.verdict = Some((
                "C20",
                format!("a lookup took more than {} steps while all other threads were suspended", f.bound),
            ));
            i.thaw();
        }
    }
    if now > i.plan.soft && !i.fair {
        i.fair = true;
        i.left = 0;
        i.frozen = false;
        i.plan.freeze = None;
        i.stalled_until = [0; MAXT];
        i.plan.stalls.clear();
        i.plan.event_stall = None;
        i.plan.rmw_stall = (0, 0);
        i.stall_in = [(0, 0); MAXT];
    }
    if now > i.plan.hard {
        FATAL.get().unwrap()(Outcome::Livelock);
    }
    if !i.fair {
        let ts = i.tsteps[m];
        for s in &i.plan.stalls {
            if s.thread == m && s.at == ts {
                i.stalled_until[m] = now + s.len;
            }
        }
        if i.stall_in[m].0 > 0 {
            i.stall_in[m].0 -= 1;
            if i.stall_in[m].0 == 0 {
                i.stalled_until[m] = now + i.stall_in[m].1;
            }
        }
        if let Some(f) = &i.plan.freeze {
            if now == f.at {
                i.frozen = true;
                for t in 0..i.n {
                    if i.in_lookup[t] {
                        i.lookup_frozen[t] = true;
                        i.lookup_steps[t] = 0;
                    }
                }
            }
        }
        match i.plan.strat {
            Strat::Pct(_) => {
                if i.change.contains(&now) {
                    i.prio[m] = 1_000_000 - now;
                }
            }
            Strat::Pos => {
                // New priorities for the thread that just executed and those that raced with it.
                let (a, acc) = i.last[m];
                for t in 0..i.n {
                    if t == m
                        || (i.pend[t].0 == a
                            && (acc != Access::Load || i.pend[t].1 != Access::Load))
                    {
                        i.prio[t] = i.rng.next();
                    }
                }
            }
            _ => {}
        }
        if i.plan.spurious_park && i.rng.chance(1, 64) {
            for t in 0..i.n {
                if i.st[t] == St::Parked {
                    i.st[t] = St::Run;
                    break;
                }
            }
        }
    }
    i.pend[m] = (addr, access);
    if i.plan.tso > 0 && NBUF.with(|n| n.get()) > 0 && i.rng.chance(64, 1024) {
        flush_one();
    }
    if let Some(next) = i.pick(Some(m)) {
        if next != m {
            i.stats.preempt += 1;
            switch_to(m, next);
        }
    }
    g().last[m] = (addr, access);
}

/// An extra scheduling point for user code.
pub fn yield_point() {
    if let Some(m) = controlled() {
        point(m, 0, Access::Load);
    }
}

/// Thread `m` cannot continue: run others until it is runnable again.
fn block(m: usize) {
    let i = g();
    match i.pick(None) {
        Some(next) => {
            if next != m {
                switch_to(m, next);
            }
        }
        None => {
            if i.frozen {
                // Readers are blocked while all others are suspended.
                if i.in_lookup[m] && i.lookup_frozen[m] && i.verdict.is_none() {
                    i.verdict = Some((
                        "C20",
                        "a lookup blocked while all other threads were suspended".into(),
                    ));
                }
                i.thaw();
                return block(m);
            }
            FATAL.get().unwrap()(Outcome::Deadlock);
        }
    }
}

fn finish(m: usize) {
    let i = g();
    i.st[m] = St::Done;
    loop {
        if (0..i.n).all(|t| i.st[t] == St::Done) {
            hand(CTRL);
            return;
        }
        match i.pick(None) {
            Some(next) => {
                i.stats.switches += 1;
                i.stats.trace_hash =
                    (i.stats.trace_hash ^ (next as u64 + 17)).wrapping_mul(0x100000001b3);
                hand(next);
                return;
            }
            None => {
                if i.frozen {
                    i.thaw();
                    continue;
                }
                FATAL.get().unwrap()(Outcome::Deadlock);
            }
        }
    }
}

/// Mark the beginning and end of a lookup for the freeze monitor.
pub fn lookup(begin: bool) {
    if let Some(m) = me() {
        let i = g();
        if begin {
            i.in_lookup[m] = true;
            i.lookup_frozen[m] = i.frozen;
            i.lookup_steps[m] = 0;
        } else {
            if i.lookup_frozen[m] && i.frozen {
                i.stats.frozen_ops += 1;
            }
            i.in_lookup[m] = false;
            i.lookup_frozen[m] = false;
        }
    }
}

pub fn is_frozen() -> bool {
    me().is_some() && g().frozen
}

/// Thread `m` reached an operation that may wait legitimately: end the freeze.
pub fn unfreeze() {
    if me().is_some() {
        let i = g();
        if i.frozen {
            i.thaw();
        }
    }
}

// ---- delayed stores (total store order) ----

fn flush_one() {
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        if !b.is_empty() {
            let (addr, size, value) = b.remove(0);
            NBUF.with(|n| n.set(b.len()));
            unsafe {
                match size {
                    1 => (*(addr as *const std::sync::atomic::AtomicU8)).store(value as u8, SeqCst),
                    4 => (*(addr as *const std::sync::atomic::AtomicU32)).store(value as u32, SeqCst),
                    _ => (*(addr as *const std::sync::atomic::AtomicU64)).store(value, SeqCst),
                }
            }
        }
    });
}

pub fn flush() {
    while NBUF.with(|n| n.get()) > 0 {
        flush_one();
    }
}

// ---- happens-before monitor ----

fn join(a: &mut VC, b: &VC) {
    for k in 0..a.len() {
        if b[k] > a[k] {
            a[k] = b[k];
        }
    }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

impl Hb {
    fn load(&mut self, m: usize, addr: usize, o: Ordering) {
        if let Some(l) = self.loc.get(&addr) {
            let l = *l;
            join(&mut self.acq[m], &l);
            if acquires(o) {
                join(&mut self.vc[m], &l);
            }
        }
    }
    fn store(&mut self, m: usize, addr: usize, o: Ordering, rmw: bool) {
        let pubc = if releases(o) { self.vc[m] } else { self.rel[m] };
        crate::alloc::unscoped(|| {
            if rmw {
                let e = self.loc.entry(addr).or_default();
                join(e, &pubc);
            } else {
                self.loc.insert(addr, pubc);
            }
        });
        self.vc[m][m] += 1;
    }
}

/// Does the event of thread `t` at its clock `c` happen before now in thread `m`?
pub fn hb_ordered(t: u8, c: u32) -> bool {
    match me() {
        Some(m) if g().plan.hb => {
            g().stats.hb_checks += 1;
            t as usize == MAXT || t as usize == m || g().hb.vc[m][t as usize] >= c
        }
        _ => true,
    }
}

pub fn hb_on() -> bool {
    me().is_some() && g().plan.hb
}

fn after(m: usize, addr: usize, eff: Access, o: Ordering) {
    let i = g();
    if eff == Access::Rmw && i.plan.rmw_stall.0 > 0 && i.rng.chance(i.plan.rmw_stall.0, 1024) {
        i.stalled_until[m] = i.stats.steps + i.plan.rmw_stall.1;
    }
    if eff == Access::Rmw && i.plan.rmw_at.0 == m && i.plan.rmw_at.1 > 0 {
        i.plan.rmw_at.1 -= 1;
        if i.plan.rmw_at.1 == 0 && !i.fair {
            i.stalled_until[m] = i.stats.steps + i.plan.rmw_at.2;
        }
    }
    if i.plan.hb {
        match eff {
            Access::Load => i.hb.load(m, addr, o),
            Access::Store => i.hb.store(m, addr, o, false),
            Access::Rmw => {
                i.hb.load(m, addr, o);
                i.hb.store(m, addr, o, true);
            }
        }
        if let Some((t, c)) = crate::alloc::table_of(addr) {
            if !hb_ordered(t, c) {
                crate::types::violation(
                    "C06",
                    format!("thread {m} accesses a table allocated by thread {t} without synchronisation"),
                );
            }
        }
    }
    if i.plan.uaf && crate::alloc::is_freed(addr) {
        crate::types::violation("C04", format!("thread {m} accesses a table that was freed"));
    }
}

// ---- a thread that runs alone ----

/// Nobody else can help this thread: waiting is a deadlock, and an operation that takes more
/// than so many steps never ends.
pub fn solo(budget: u64) {
    SOLO.with(|s| s.set(budget > 0));
    SOLO_LEFT.with(|s| s.set(budget));
}

fn is_solo() -> bool {
    SOLO.with(|s| s.get())
}

#[inline]
fn solo_point() {
    if is_solo() && QUIET.with(|q| q.get()) == 0 {
        SOLO_LEFT.with(|s| {
            let n = s.get();
            if n <= 1 {
                FATAL.get().unwrap()(Outcome::Livelock);
            }
            s.set(n - 1);
        });
    }
}

// ---- chaos for free running threads ----

pub fn chaos(seed: u64) {
    CHAOS.with(|c| c.set(seed));
}

#[inline]
fn chaos_point() {
    CHAOS.with(|c| {
        let s = c.get();
        if s == 0 {
            return;
        }
        let s = s ^ (s << 13);
        let s = s ^ (s >> 7);
        let s = s ^ (s << 17);
        c.set(s);
        if s & 0x1ff == 0 {
            match s >> 9 & 0xf {
                0 => std::thread::sleep(std::time::Duration::from_micros(s >> 13 & 0x3f)),
                1..=3 => std::thread::yield_now(),
                _ => {
                    for _ in 0..(s >> 13 & 0x3ff) {
                        std::hint::spin_loop();
                    }
                }
            }
        }
    });
}

thread_local! {
    static FAILED: Cell<(bool, u32)> = const { Cell::new((false, 0)) };
}

/// Compare-exchanges of this thread that failed so far, if that is known.
pub fn failed_cas() -> Option<u32> {
    if cfg!(papaya_verif) {
        Some(FAILED.with(|f| f.get().1))
    } else {
        None
    }
}

fn chaos_on() -> bool {
    CHAOS.with(|c| c.get()) != 0
}

// ---- hooks ----

#[cfg(papaya_verif)]
mod hooks {
    use super::*;
    use papaya::verif::{Effect, Event, Hooks};

    pub struct H;

    fn acc(e: Effect) -> Access {
        match e {
            Effect::Load => Access::Load,
            Effect::Store => Access::Store,
            Effect::Rmw => Access::Rmw,
        }
    }

    impl Hooks for H {
        #[inline]
        fn before(&self, addr: usize, access: Effect) {
            FAILED.with(|f| f.set((access == Effect::Rmw, f.get().1)));
            if let Some(m) = controlled() {
                point(m, addr, acc(access));
                if access == Effect::Rmw {
                    flush();
                }
            } else {
                solo_point();
                chaos_point();
            }
        }
        #[inline]
        fn after(&self, addr: usize, effect: Effect, order: Ordering) {
            if effect == Effect::Load {
                FAILED.with(|f| {
                    let (rmw, n) = f.get();
                    if rmw {
                        f.set((false, n + 1));
                    }
                });
            }
            if let Some(m) = me() {
                after(m, addr, acc(effect), order);
            }
        }
        fn fence(&self, order: Ordering) -> bool {
            if let Some(m) = me() {
                flush();
                let h = &mut g().hb;
                if acquires(order) {
                    let a = h.acq[m];
                    join(&mut h.vc[m], &a);
                }
                if releases(order) {
                    h.rel[m] = h.vc[m];
                    h.vc[m][m] += 1;
                }
            }
            false
        }
        fn delay(&self, addr: usize, size: usize, value: u64, order: Ordering) -> bool {
            let Some(m) = controlled() else { return false };
            if order == SeqCst {
                flush();
                return false;
            }
            let i = g();
            if i.plan.tso == 0 || !matches!(size, 1 | 4 | 8) {
                return false;
            }
            if NBUF.with(|n| n.get()) == 0 && !i.rng.chance(i.plan.tso, 1024) {
                return false;
            }
            i.stats.delayed_stores += 1;
            if !i.fair && i.stall_in[m].0 == 0 && i.rng.chance(1, 6) {
                // Leave the store in the buffer for long, while this thread has run ahead a little.
                i.stall_in[m] = (1 + i.rng.below(4) as u32, i.rng.pick(&[20, 60, 250]));
            }
            BUF.with(|b| {
                let mut b = b.borrow_mut();
                b.push((addr, size, value));
                NBUF.with(|n| n.set(b.len()));
            });
            true
        }
        fn forward(&self, addr: usize) -> Option<u64> {
            if NBUF.with(|n| n.get()) == 0 {
                return None;
            }
            BUF.with(|b| {
                b.borrow()
                    .iter()
                    .rev()
                    .find(|x| x.0 == addr)
                    .map(|x| x.2)
            })
        }
        fn spurious(&self) -> bool {
            if controlled().is_some() {
                let i = g();
                !i.fair && i.plan.spurious_cas > 0 && i.rng.chance(i.plan.spurious_cas, 1024)
            } else if chaos_on() {
                CHAOS.with(|c| c.get() & 0x3ff == 7)
            } else {
                crate::types::seq_spurious()
            }
        }
        fn lock(&self, addr: usize) {
            if let Some(m) = controlled() {
                point(m, addr, Access::Rmw);
                flush();
            } else {
                chaos_point();
            }
        }
        fn locked(&self, addr: usize) {
            if let Some(m) = me() {
                if g().plan.hb {
                    g().hb.load(m, addr, Acquire);
                }
            }
        }
        fn lock_wait(&self, addr: usize) -> bool {
            let Some(m) = controlled() else {
                if is_solo() {
                    FATAL.get().unwrap()(Outcome::Deadlock);
                }
                return false;
            };
            let i = g();
            i.stats.lock_waits += 1;
            i.st[m] = St::Lock(addr);
            block(m);
            true
        }
        fn unlocked(&self, addr: usize) {
            if let Some(m) = me() {
                flush();
                let i = g();
                if i.plan.hb {
                    i.hb.store(m, addr, Release, false);
                }
                for t in 0..i.n {
                    if i.st[t] == St::Lock(addr) {
                        i.st[t] = St::Run;
                    }
                }
            }
        }
        fn thread_id(&self) -> usize {
            match me() {
                Some(m) => m + 1,
                None if is_solo() => SOLO_ID,
                None => 0,
            }
        }
        fn park(&self) {
            let Some(m) = me() else {
                if !SOLO_TOKEN.with(|t| t.replace(false)) {
                    FATAL.get().unwrap()(Outcome::Deadlock);
                }
                return;
            };
            flush();
            let i = g();
            i.stats.parks += 1;
            if controlled().is_some() {
                point(m, 0, Access::Load);
            }
            if i.token[m] {
                i.token[m] = false;
            } else {
                i.st[m] = St::Parked;
                block(m);
                // Woken by an unpark (which left its token) or spuriously.
                i.token[m] = false;
            }
            if i.plan.hb {
                let t = i.hb.tokens[m];
                join(&mut i.hb.vc[m], &t);
            }
        }
        fn unpark(&self, id: usize) {
            if id == SOLO_ID {
                SOLO_TOKEN.with(|t| t.set(true));
                return;
            }
            let t = id - 1;
            if let Some(m) = me() {
                flush();
                let i = g();
                if i.plan.hb {
                    let v = i.hb.vc[m];
                    join(&mut i.hb.tokens[t], &v);
                    i.hb.vc[m][m] += 1;
                }
                i.token[t] = true;
                if i.st[t] == St::Parked {
                    i.st[t] = St::Run;
                }
            }
        }
        fn spin(&self) -> bool {
            match controlled() {
                Some(m) => {
                    // A spinning thread gives way.
                    let i = g();
                    if !i.fair {
                        if let Strat::Pct(_) = i.plan.strat {
                            i.prio[m] = 1_000_000u64.saturating_sub(i.stats.steps);
                        } else if let Strat::Serial = i.plan.strat {
                            i.stalled_until[m] = i.stats.steps + 50;
                        }
                    } else {
                        i.left = 0;
                    }
                    point(m, 0, Access::Load);
                    true
                }
                None => {
                    solo_point();
                    chaos_point();
                    false
                }
            }
        }
        fn reclaim(&self, begin: bool) {
            if begin {
                // A retirement only makes earlier stores visible when a batch is complete.
                let n = RETIRED.with(|r| {
                    r.set(r.get() + 1);
                    r.get()
                });
                if n >= BATCH.load(Relaxed) {
                    flush();
                }
            }
            QUIET.with(|q| {
                q.set(if begin {
                    q.get() + 1
                } else {
                    q.get() - 1
                })
            });
        }
        fn event(&self, event: Event) {
            if let Some(m) = me() {
                let i = g();
                i.stats.events[event as usize] += 1;
                if let (Some((e, p, len)), false) = (i.plan.event_stall, i.fair) {
                    if e == event as usize && i.rng.chance(p, 1024) {
                        i.stalled_until[m] = i.stats.steps + len;
                    }
                }
            }
            crate::types::EVENTS[event as usize].fetch_add(1, Relaxed);
        }
    }
}

/// Distance between the thread identifiers that the reclamation scheme gives to our threads. With
/// a large power of two they all count in the same shard of a map's length.
pub static STRIDE: AtomicUsize = AtomicUsize::new(1);

/// Take an identifier for the current thread, and leave some out.
pub fn take_id() {
    static TURN: Mutex<Option<&'static seize::Collector>> = Mutex::new(None);
    let n = STRIDE.load(Relaxed);
    if n > 1 {
        let mut turn = TURN.lock().unwrap();
        let c = turn.get_or_insert_with(|| Box::leak(Box::new(seize::Collector::new())));
        drop(c.enter());
        for _ in 1..n {
            std::mem::forget(c.enter_owned());
        }
    }
}

pub fn init_hooks(fatal: fn(Outcome) -> !) {
    #[cfg(papaya_verif)]
    papaya::verif::install(&hooks::H);
    let _ = FATAL.set(fatal);
}

pub fn init(fatal: fn(Outcome) -> !, core: Option<usize>) {
    init_hooks(fatal);
    let _ = CTRL_HANDLE.set(std::thread::current());
    CUR.store(CTRL, SeqCst);
    let ready = std::sync::Arc::new(std::sync::Barrier::new(MAXT + 1));
    for t in 0..MAXT {
        let ready = ready.clone();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let _ = HANDLES[t].set(std::thread::current());
                if let Some(c) = core {
                    crate::affinity::set(&[c]);
                }
                ME.with(|m| m.set(t));
                take_id();
                BUF.with(|b| b.borrow_mut().reserve(64));
                ready.wait();
                loop {
                    wait_turn(t);
                    RETIRED.with(|r| r.set(0));
                    let job = unsafe { &*JOB.unwrap() };
                    job(t);
                    flush();
                    finish(t);
                }
            })
            .unwrap();
    }
    ready.wait();
}

/// Run `job(t)` for every `t < n` under the plan.
pub fn run(n: usize, plan: Plan, job: &(dyn Fn(usize) + Sync)) -> (Stats, Option<(&'static str, String)>) {
    let mut rng = Rng::new(plan.seed);
    let mut prio = [0; MAXT];
    for p in &mut prio {
        *p = 1_000_000_000 + rng.next() % 1_000_000_000;
    }
    let change = match plan.strat {
        Strat::Pct(d) => (0..d).map(|_| 1 + rng.below(plan.est.max(8) as usize) as u64).collect(),
        _ => vec![],
    };
    let mut hb = Hb::default();
    for t in 0..MAXT {
        hb.vc[t][t] = 1;
    }
    unsafe {
        *G.0.get() = Some(Inner {
            n,
            st: [St::Run; MAXT],
            token: [false; MAXT],
            pend: [(0, Access::Load); MAXT],
            prio,
            tsteps: [0; MAXT],
            stalled_until: [0; MAXT],
            stall_in: [(0, 0); MAXT],
            last: [(0, Access::Load); MAXT],
            left: 0,
            change,
            rng,
            plan,
            stats: Stats {
                trace_hash: 0xcbf29ce484222325,
                ..Default::default()
            },
            hb,
            frozen: false,
            in_lookup: [false; MAXT],
            lookup_steps: [0; MAXT],
            lookup_frozen: [false; MAXT],
            verdict: None,
            fair: false,
        });
        JOB = Some(std::mem::transmute::<
            *const (dyn Fn(usize) + Sync + '_),
            *const (dyn Fn(usize) + Sync + 'static),
        >(job));
    }
    ACTIVE.store(true, SeqCst);
    let first = g().pick(None).unwrap();
    hand(first);
    while CUR.load(Acquire) != CTRL {
        std::thread::park();
    }
    ACTIVE.store(false, SeqCst);
    let i = g();
    (i.stats.clone(), i.verdict.take())
}

// ---- free running threads ----

struct Pool {
    tx: Vec<std::sync::mpsc::Sender<(usize, u64)>>,
    rx: std::sync::mpsc::Receiver<()>,
}
thread_local!(static POOL: std::cell::RefCell<Option<Pool>> = const { std::cell::RefCell::new(None) });
static GATE: AtomicUsize = AtomicUsize::new(0);

/// Run `job(t)` for every `t < n` truly in parallel, with random delays.
pub fn run_free(n: usize, seed: u64, job: &(dyn Fn(usize) + Sync)) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(|| {
            let (done, rx) = std::sync::mpsc::channel();
            let tx = (0..MAXT)
                .map(|t| {
                    let (tx, jobs) = std::sync::mpsc::channel::<(usize, u64)>();
                    let done = done.clone();
                    std::thread::spawn(move || {
                        take_id();
                        for (n, seed) in jobs {
                            GATE.fetch_add(1, SeqCst);
                            let mut k = 0;
                            while GATE.load(SeqCst) < n {
                                k += 1;
                                if k > 2000 {
                                    std::thread::yield_now();
                                } else {
                                    std::hint::spin_loop();
                                }
                            }
                            chaos(seed);
                            unsafe { (*JOB.unwrap())(t) };
                            chaos(0);
                            done.send(()).unwrap();
                        }
                    });
                    tx
                })
                .collect();
            Pool { tx, rx }
        });
        unsafe {
            JOB = Some(std::mem::transmute::<
                *const (dyn Fn(usize) + Sync + '_),
                *const (dyn Fn(usize) + Sync + 'static),
            >(job));
        }
        GATE.store(0, SeqCst);
        for t in 0..n {
            p.tx[t].send((n, crate::rng::mix(seed ^ t as u64) | 1)).unwrap();
        }
        for _ in 0..n {
            p.rx.recv().unwrap();
        }
    });
}

pub fn dump() -> String {
    if !ACTIVE.load(Relaxed) {
        return "inactive".into();
    }
    let i = g();
    format!(
        "steps={} states={:?} fair={} plan={:?}",
        i.stats.steps, &i.st[..i.n], i.fair, i.plan
    )
}
