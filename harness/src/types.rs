//! Instrumented keys and values, and the sink for violations.
use crate::rng::mix;
use crate::sched;
use papaya::Equivalent;
use std::cell::{Cell, RefCell};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Mutex;

const CAP: usize = 1 << 20;
const LIVE: u64 = 0x11FE_C0DE_5EED_0001;
const DEAD: u64 = 0xDEAD_BEEF_0BAD_CAFE;

static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static CREATOR: [AtomicU64; CAP] = [const { AtomicU64::new(0) }; CAP];
static NEXT: AtomicU64 = AtomicU64::new(1);
pub static CREATED: AtomicU64 = AtomicU64::new(0);
pub static DROPPED: AtomicU64 = AtomicU64::new(0);
pub static CHECKS: AtomicU64 = AtomicU64::new(0);
pub static EVENTS: [AtomicU32; 5] = [const { AtomicU32::new(0) }; 5];
pub static YIELD_USER: AtomicBool = AtomicBool::new(false);
static VIOL: Mutex<Vec<(&'static str, String)>> = Mutex::new(Vec::new());
static NVIOL: AtomicU32 = AtomicU32::new(0);

/// Record a violation of a property.
pub fn violation(prop: &'static str, msg: String) {
    if LIE.load(Relaxed) > 0 && !matches!(prop, "C04" | "C05" | "LEAK") {
        return;
    }
    NVIOL.fetch_add(1, SeqCst);
    crate::alloc::unscoped(|| {
        let mut v = VIOL.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 50 {
            v.push((prop, msg));
        }
    })
}

pub fn take_violations() -> Vec<(&'static str, String)> {
    if NVIOL.swap(0, SeqCst) == 0 {
        return Vec::new();
    }
    std::mem::take(&mut *VIOL.lock().unwrap_or_else(|e| e.into_inner()))
}

/// How often of 1024 times keys lie about their hash and about equality.
static LIE: AtomicU32 = AtomicU32::new(0);
static LIE_SEED: AtomicU64 = AtomicU64::new(0);
pub static LIES: AtomicU64 = AtomicU64::new(0);

/// Make keys lie from now on. Violations other than those of memory safety are then ignored.
pub fn lie(rate: u32, seed: u64) {
    LIE_SEED.store(seed, Relaxed);
    LIE.store(rate, Relaxed);
}

fn lies() -> Option<u64> {
    let r = LIE.load(Relaxed);
    if r == 0 {
        return None;
    }
    let x = mix(LIE_SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed));
    (x % 1024 < r as u64).then(|| {
        LIES.fetch_add(1, Relaxed);
        x >> 10
    })
}

/// Start a new execution: forget all objects.
pub fn reset() {
    let n = NEXT.swap(1, SeqCst) as usize;
    for i in 0..n.min(CAP) {
        STATE[i].store(0, Relaxed);
    }
    CREATED.store(0, Relaxed);
    DROPPED.store(0, Relaxed);
}

pub fn created() -> u64 {
    NEXT.load(Relaxed)
}

/// Objects that have not been dropped.
pub fn leaked() -> Vec<u64> {
    let n = (NEXT.load(SeqCst) as usize).min(CAP);
    (1..n)
        .filter(|&i| STATE[i].load(Relaxed) == 1)
        .map(|i| i as u64)
        .collect()
}

pub fn uncounted() -> bool {
    NEXT.load(SeqCst) as usize >= CAP
}

/// A tracked object embedded in keys and values.
struct Obj {
    magic: u64,
    uid: u64,
}

impl Obj {
    fn new() -> Obj {
        let uid = NEXT.fetch_add(1, Relaxed);
        if (uid as usize) < CAP {
            STATE[uid as usize].store(1, Relaxed);
            let (t, c) = sched::now();
            CREATOR[uid as usize].store((t as u64) << 32 | c as u64, Relaxed);
        }
        Obj {
            magic: LIVE ^ uid,
            uid,
        }
    }

    #[inline]
    fn ok(&self) -> bool {
        let (m, u) = unsafe {
            (
                std::ptr::read_volatile(&self.magic),
                std::ptr::read_volatile(&self.uid),
            )
        };
        m == LIVE ^ u && (u as usize >= CAP || STATE[u as usize].load(Relaxed) == 1)
    }

    #[inline]
    fn check(&self, what: &str) {
        if !self.ok() {
            let m = self.magic;
            violation(
                "C04",
                format!(
                    "{what} {:#x} read {}",
                    self.uid,
                    if m == DEAD ^ self.uid {
                        "after it was dropped"
                    } else if m == LIVE ^ self.uid {
                        "after it was dropped (stale copy)"
                    } else {
                        "but the memory does not hold an object (freed or never initialised)"
                    }
                ),
            );
        } else if sched::hb_on() && (self.uid as usize) < CAP {
            let c = CREATOR[self.uid as usize].load(Relaxed);
            if !sched::hb_ordered((c >> 32) as u8, c as u32) {
                violation(
                    "C06",
                    format!(
                        "{what} {} created by thread {} is read by thread {:?} without a happens-before edge",
                        self.uid,
                        c >> 32,
                        sched::me()
                    ),
                );
            }
        }
    }
}

impl Drop for Obj {
    fn drop(&mut self) {
        if !self.ok() {
            violation(
                "C05",
                format!(
                    "object {:#x} dropped {}",
                    self.uid,
                    if self.magic == DEAD ^ self.uid || self.magic == LIVE ^ self.uid {
                        "twice"
                    } else {
                        "but it was never initialised or its memory was freed"
                    }
                ),
            );
            return;
        }
        if (self.uid as usize) < CAP {
            STATE[self.uid as usize].store(2, Relaxed);
        }
        DROPPED.fetch_add(1, Relaxed);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD ^ self.uid) };
    }
}

// ---- injected panics and user call accounting ----

thread_local! {
    static PANIC_IN: Cell<u32> = const { Cell::new(0) };
    static USER_CALLS: Cell<u32> = const { Cell::new(0) };
    static HASHED: RefCell<Option<Vec<u32>>> = const { RefCell::new(None) };
    static SPUR: Cell<u64> = const { Cell::new(0) };
    static OPERAND: Cell<u32> = const { Cell::new(u32::MAX) };
}

pub struct Injected;

/// Panic at the n-th user call from now on (0: never).
pub fn panic_in(n: u32) {
    PANIC_IN.with(|p| p.set(n));
    USER_CALLS.with(|p| p.set(0));
}

pub fn user_calls() -> u32 {
    USER_CALLS.with(|p| p.get())
}

/// Restrict hash panics to the hashing of this key (others are being copied).
pub fn operand(k: u32) {
    OPERAND.with(|p| p.set(k));
}

pub fn user_call() {
    USER_CALLS.with(|p| p.set(p.get() + 1));
    let n = PANIC_IN.with(|p| p.get());
    if n > 0 && !std::thread::panicking() {
        PANIC_IN.with(|p| p.set(n - 1));
        if n == 1 {
            crate::alloc::unscoped(|| std::panic::panic_any(Injected));
        }
    }
}

pub fn record_hashes(on: bool) -> Vec<u32> {
    HASHED.with(|h| {
        let mut h = h.borrow_mut();
        let old = h.take().unwrap_or_default();
        if on {
            *h = Some(Vec::with_capacity(4096));
        }
        old
    })
}

pub fn seq_spurious_seed(s: u64) {
    SPUR.with(|c| c.set(s));
}

pub fn seq_spurious() -> bool {
    SPUR.with(|c| {
        let s = c.get();
        if s == 0 {
            return false;
        }
        let s = s ^ (s << 13);
        let s = s ^ (s >> 7);
        let s = s ^ (s << 17);
        c.set(s);
        s & 7 == 0
    })
}

// ---- keys ----

#[repr(C)]
pub struct Key {
    obj: Obj,
    pub id: u32,
}

impl Key {
    pub fn new(id: u32) -> Key {
        Key {
            obj: Obj::new(),
            id,
        }
    }
    pub fn uid(&self) -> u64 {
        self.obj.check("key");
        self.obj.uid
    }
    /// The id, checked.
    pub fn get(&self) -> u32 {
        self.obj.check("key");
        self.id
    }
}

impl Clone for Key {
    fn clone(&self) -> Key {
        Key::new(self.get())
    }
}

impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        if YIELD_USER.load(Relaxed) {
            sched::yield_point();
        }
        user_call();
        (self.get() == o.get()) ^ lies().is_some()
    }
}
impl Eq for Key {}

fn hash_id<H: Hasher>(id: u32, h: &mut H) {
    HASHED.with(|x| {
        if let Ok(mut x) = x.try_borrow_mut() {
            if let Some(v) = x.as_mut() {
                v.push(id);
            }
        }
    });
    let op = OPERAND.with(|p| p.get());
    if op == u32::MAX {
        user_call();
    } else if op == id {
        // Only the operation's own hashing of its operand, not a later copy of an equal key.
        OPERAND.with(|p| p.set(u32::MAX - 1));
        user_call();
    }
    h.write_u32(match lies() {
        Some(x) => id ^ (x as u32 & 0xff),
        None => id,
    });
}

impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if YIELD_USER.load(Relaxed) {
            sched::yield_point();
        }
        hash_id(self.get(), h)
    }
}

impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.get())
    }
}

/// Borrowed form of a key.
#[derive(Clone, Copy)]
pub struct Q(pub u32);

impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        hash_id(self.0, h)
    }
}

impl Equivalent<Key> for Q {
    fn equivalent(&self, k: &Key) -> bool {
        if YIELD_USER.load(Relaxed) {
            sched::yield_point();
        }
        user_call();
        (self.0 == k.get()) ^ lies().is_some()
    }
}

// ---- values ----

#[repr(C)]
pub struct Val {
    obj: Obj,
    pub key: u32,
    parent: u64,
    payload: u64,
}

impl Val {
    pub fn new(key: u32, parent: u64) -> Val {
        let obj = Obj::new();
        let payload = mix(obj.uid ^ parent << 20 ^ key as u64);
        Val {
            obj,
            key,
            parent,
            payload,
        }
    }
    fn check(&self) {
        CHECKS.fetch_add(1, Relaxed);
        self.obj.check("value");
        if self.payload != mix(self.obj.uid ^ self.parent << 20 ^ self.key as u64) {
            violation("C04", format!("value {:#x} changed under a reference", self.obj.uid));
        }
    }
    pub fn uid(&self) -> u64 {
        self.check();
        self.obj.uid
    }
    pub fn parent(&self) -> u64 {
        self.check();
        self.parent
    }
}

impl Clone for Val {
    fn clone(&self) -> Val {
        self.check();
        Val::new(self.key, self.obj.uid)
    }
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.uid())
    }
}

impl serde::Serialize for Key {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.get())
    }
}

impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.uid())
    }
}

// ---- hashers ----

#[derive(Clone, Copy, Debug, Default)]
pub struct Hb {
    pub mode: u8,
    pub salt: u64,
}

pub const HASHERS: u8 = 9;

impl Hb {
    pub fn hash(&self, id: u32) -> u64 {
        let id = id as u64;
        match self.mode {
            // Well distributed.
            0 => mix(id ^ self.salt),
            // Identity: every h2 is equal.
            1 => id,
            // All keys collide.
            2 => self.salt,
            // Same probe sequence, different h2.
            3 => mix(id ^ self.salt) & !0xffff_ffff,
            // A few probe sequences, same h2.
            4 => (id & 3) * 5,
            // High bits all set (h2 next to the special values).
            5 => u64::MAX - id,
            // Only the low bit of h2 differs.
            6 => (id & 1) << 57 | (mix(id) & 7),
            // Multiples of a large power of two.
            7 => id << 4 | (id & 0x7f) << 57,
            // One crowded probe sequence, everything else spread evenly.
            9 => {
                if id < 64 {
                    mix(id) << 57
                } else {
                    (id - 64) | (mix(id) & 0x7f) << 57
                }
            }
            // The same with a larger crowd.
            10 => {
                if id < 4096 {
                    mix(id) << 57
                } else {
                    (id - 4096) | (mix(id) & 0x7f) << 57
                }
            }
            // One crowded probe sequence, a few scattered keys, and two groups of keys that share a
            // sequence only in tables of at most 64 slots.
            11 => {
                (match id {
                    0..=63 => 0,
                    64..=95 => [21, 24][(id & 1) as usize],
                    _ => 17 + 64 * (id & 1),
                }) | mix(id) << 57
            }
            // Perfect: consecutive slots, h2 spread.
            _ => id | (mix(id) & 0x7f) << 57,
        }
    }
    /// Keys that may share one probe sequence; tables cannot hold many of those.
    pub fn hostile(&self) -> bool {
        matches!(self.mode, 2 | 3 | 4 | 6)
    }
}

pub struct Hs(Hb, u32);

impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0.hash(self.1)
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u32(&mut self, x: u32) {
        self.1 = x;
    }
}

impl BuildHasher for Hb {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(*self, 0)
    }
}
