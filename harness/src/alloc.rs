//! Global allocator with a ledger of the blocks allocated on behalf of the map.
//!
//! Inside a "scope" (a call into papaya) every block is entered in the ledger. While
//! `QUARANTINE` is set, ledger blocks that are freed are poisoned and kept until the end of
//! the execution, so that a stale pointer reads poison and not a new object.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU32, AtomicUsize, Ordering::*};

pub struct Alloc;

thread_local! {
    static SCOPE: Cell<u32> = const { Cell::new(0) };
}

pub static LEDGER_ON: AtomicBool = AtomicBool::new(false);
pub static QUARANTINE: AtomicBool = AtomicBool::new(false);
/// Live bytes over the whole process.
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static COUNT_ON: AtomicBool = AtomicBool::new(false);
/// Size of the last blocks allocated in a scope that were larger than a threshold.
pub static BIG_COUNT: AtomicUsize = AtomicUsize::new(0);
pub static DOUBLE_FREE: AtomicUsize = AtomicUsize::new(0);
/// Blocks freed with another size or alignment than they were allocated with.
pub static BAD_LAYOUT: AtomicUsize = AtomicUsize::new(0);

const CAP: usize = 1 << 16;
const EMPTY: usize = 0;
const GONE: usize = 1;

#[derive(Clone, Copy)]
struct Slot {
    addr: usize,
    size: u32,
    align: u32,
    /// 1 live, 2 quarantined
    state: u8,
    thread: u8,
    zeroed: bool,
    clock: u32,
}

struct Ledger {
    lock: AtomicU32,
    data: UnsafeCell<Data>,
}
struct Data {
    slots: [Slot; CAP],
    used: [u32; CAP],
    n_used: usize,
    live: usize,
    live_bytes: usize,
    overflow: bool,
    total: u64,
    // recently freed large blocks
    freed: [(usize, usize); 64],
    n_freed: usize,
}
unsafe impl Sync for Ledger {}

static LEDGER: Ledger = Ledger {
    lock: AtomicU32::new(0),
    data: UnsafeCell::new(Data {
        slots: [Slot {
            addr: 0,
            size: 0,
            align: 0,
            state: 0,
            thread: 0,
            zeroed: false,
            clock: 0,
        }; CAP],
        used: [0; CAP],
        n_used: 0,
        live: 0,
        live_bytes: 0,
        overflow: false,
        total: 0,
        freed: [(0, 0); 64],
        n_freed: 0,
    }),
};

fn with<R>(f: impl FnOnce(&mut Data) -> R) -> R {
    while LEDGER
        .lock
        .compare_exchange_weak(0, 1, Acquire, Relaxed)
        .is_err()
    {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *LEDGER.data.get() });
    LEDGER.lock.store(0, Release);
    r
}

fn hash(addr: usize) -> usize {
    (addr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40
}

impl Data {
    fn find(&mut self, addr: usize) -> Option<usize> {
        let mut i = hash(addr) & (CAP - 1);
        loop {
            match self.slots[i].addr {
                EMPTY => return None,
                a if a == addr => return Some(i),
                _ => i = (i + 1) & (CAP - 1),
            }
        }
    }
    fn insert(&mut self, addr: usize, size: usize, align: usize, zeroed: bool) {
        if self.n_used > CAP / 2 {
            self.overflow = true;
            return;
        }
        let mut i = hash(addr) & (CAP - 1);
        loop {
            let a = self.slots[i].addr;
            if a == EMPTY || a == GONE || a == addr {
                if a == EMPTY {
                    self.used[self.n_used] = i as u32;
                    self.n_used += 1;
                }
                let (thread, clock) = crate::sched::now();
                self.slots[i] = Slot {
                    addr,
                    size: size as u32,
                    align: align as u32,
                    state: 1,
                    thread,
                    zeroed,
                    clock,
                };
                self.live += 1;
                self.live_bytes += size;
                self.total += 1;
                return;
            }
            i = (i + 1) & (CAP - 1);
        }
    }
}

/// Blocks are aligned exactly as asked for and no better.
const EXACT: bool = !cfg!(pv_asan);
const BEST: usize = 16;

#[inline]
unsafe fn sys_alloc(l: Layout, zeroed: bool) -> *mut u8 {
    let shift = if EXACT && l.align() < BEST { l.align() } else { 0 };
    let l = if shift > 0 { Layout::from_size_align_unchecked(l.size() + shift, BEST) } else { l };
    let p = if zeroed { System.alloc_zeroed(l) } else { System.alloc(l) };
    if p.is_null() {
        p
    } else {
        p.add(shift)
    }
}

#[inline]
unsafe fn sys_free(p: *mut u8, l: Layout) {
    let shift = if EXACT { p as usize % BEST } else { 0 };
    let l = if shift > 0 { Layout::from_size_align_unchecked(l.size() + shift, BEST) } else { l };
    System.dealloc(p.sub(shift), l)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = sys_alloc(l, false);
        note_alloc(p, l, false);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = sys_alloc(l, true);
        note_alloc(p, l, true);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNT_ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as isize, Relaxed);
        }
        if LEDGER_ON.load(Relaxed) {
            let keep = with(|d| {
                let Some(i) = d.find(p as usize) else {
                    return false;
                };
                if d.slots[i].state == 2 {
                    DOUBLE_FREE.fetch_add(1, Relaxed);
                    return true;
                }
                if d.slots[i].size as usize != l.size() || d.slots[i].align as usize != l.align() {
                    BAD_LAYOUT.fetch_add(1, Relaxed);
                }
                d.live -= 1;
                d.live_bytes -= d.slots[i].size as usize;
                if d.slots[i].zeroed {
                    d.freed[d.n_freed % 64] = (p as usize, d.slots[i].size as usize);
                    d.n_freed += 1;
                }
                if QUARANTINE.load(Relaxed) {
                    d.slots[i].state = 2;
                    d.slots[i].size = l.size() as u32;
                    true
                } else {
                    d.slots[i].addr = GONE;
                    d.slots[i].state = 0;
                    false
                }
            });
            if keep {
                std::ptr::write_bytes(p, 0xDE, l.size());
                return;
            }
        }
        sys_free(p, l)
    }
}

#[inline]
fn note_alloc(p: *mut u8, l: Layout, zeroed: bool) {
    if p.is_null() {
        return;
    }
    if COUNT_ON.load(Relaxed) {
        LIVE.fetch_add(l.size() as isize, Relaxed);
    }
    if LEDGER_ON.load(Relaxed) && SCOPE.with(|s| s.get()) > 0 {
        with(|d| d.insert(p as usize, l.size(), l.align(), zeroed));
        if l.size() > 200 && zeroed {
            BIG_COUNT.fetch_add(1, Relaxed);
        }
    }
}

/// Run `f` with allocations entered in the ledger.
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            SCOPE.with(|s| s.set(self.0));
        }
    }
    let _g = G(SCOPE.with(|s| s.replace(s.get() + 1)));
    f()
}

/// Run `f` (user code called by the map) outside of any scope.
pub fn unscoped<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            SCOPE.with(|s| s.set(self.0));
        }
    }
    let _g = G(SCOPE.with(|s| s.replace(0)));
    f()
}

pub fn start(quarantine: bool) {
    QUARANTINE.store(quarantine, Relaxed);
    LEDGER_ON.store(true, Relaxed);
    DOUBLE_FREE.store(0, Relaxed);
    BAD_LAYOUT.store(0, Relaxed);
}

pub struct Report {
    pub live: usize,
    pub live_bytes: usize,
    pub total: u64,
    pub overflow: bool,
    pub double_free: usize,
    pub bad_layout: usize,
    pub sizes: Vec<u32>,
}

impl Report {
    pub fn judge(&self) {
        if self.double_free > 0 {
            crate::types::violation("C05", format!("{} blocks were freed twice", self.double_free));
        }
        if self.bad_layout > 0 {
            crate::types::violation("C05", format!("{} blocks were freed with another layout than they were allocated with", self.bad_layout));
        }
    }
}

/// Live blocks now.
pub fn live() -> (usize, usize) {
    with(|d| (d.live, d.live_bytes))
}

/// Sizes of the live zeroed (table) blocks.
pub fn tables() -> ([usize; 32], usize) {
    let mut out = [0; 32];
    let mut n = 0;
    with(|d| {
        for &i in &d.used[..d.n_used] {
            let s = d.slots[i as usize];
            if s.state == 1 && s.zeroed && n < 32 {
                out[n] = s.size as usize;
                n += 1;
            }
        }
    });
    (out, n)
}

/// The live table block containing an address: (thread, clock) of its allocation.
pub fn table_of(addr: usize) -> Option<(u8, u32)> {
    with(|d| {
        for &i in &d.used[..d.n_used] {
            let s = d.slots[i as usize];
            if s.zeroed && s.state == 1 && addr >= s.addr && addr < s.addr + s.size as usize {
                return Some((s.thread, s.clock));
            }
        }
        None
    })
}

/// Whether the address is in a block that was freed.
pub fn is_freed(addr: usize) -> bool {
    if !QUARANTINE.load(Relaxed) {
        return false;
    }
    with(|d| {
        let n = d.n_freed.min(64);
        d.freed[..n].iter().any(|&(a, s)| addr >= a && addr < a + s)
    })
}

/// Stop tracking, free the quarantine and report what is left.
pub fn stop() -> Report {
    LEDGER_ON.store(false, Relaxed);
    let mut free: Vec<(usize, u32, u32)> = Vec::with_capacity(with(|d| d.n_used));
    let mut sizes: Vec<u32> = Vec::with_capacity(64);
    let mut r = with(|d| {
        for k in 0..d.n_used {
            let i = d.used[k] as usize;
            let s = &mut d.slots[i];
            if s.state == 2 {
                free.push((s.addr, s.size, s.align));
            } else if s.state == 1 && sizes.len() < 64 {
                sizes.push(s.size);
            }
            s.addr = EMPTY;
            s.state = 0;
        }
        let r = Report {
            live: d.live,
            live_bytes: d.live_bytes,
            total: d.total,
            overflow: d.overflow,
            double_free: DOUBLE_FREE.load(Relaxed),
            bad_layout: BAD_LAYOUT.load(Relaxed),
            sizes: Vec::new(),
        };
        d.n_used = 0;
        d.live = 0;
        d.live_bytes = 0;
        d.overflow = false;
        d.total = 0;
        d.n_freed = 0;
        r
    });
    r.sizes = sizes;
    for (a, s, al) in free {
        unsafe { sys_free(a as *mut u8, Layout::from_size_align_unchecked(s as usize, al as usize)) };
    }
    r
}
