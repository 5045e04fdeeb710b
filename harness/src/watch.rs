//! Notices that freely running threads are stuck, from what they do and not from elapsed time:
//! every thread asleep for good, or a lot of processor time spent without completing anything.
use std::sync::atomic::{AtomicBool, Ordering::*};

/// Processor seconds without a completed operation.
const SPENT: f64 = 60.0;
/// Consecutive observations, a second apart, of all threads asleep.
const ASLEEP: u32 = 20;

/// (all other threads sleep, processor time used)
fn look() -> Option<(bool, f64)> {
    let own = std::fs::read_link("/proc/thread-self").ok()?;
    let own = own.file_name()?.to_owned();
    let mut asleep = true;
    let mut ticks = 0u64;
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let t = t.ok()?;
        let stat = std::fs::read_to_string(t.path().join("stat")).ok()?;
        let rest: Vec<&str> = stat[stat.rfind(')')? + 1..].split_whitespace().collect();
        ticks += rest[11].parse::<u64>().ok()? + rest[12].parse::<u64>().ok()?;
        if t.file_name() != own && rest[0] != "S" {
            asleep = false;
        }
    }
    Some((asleep, ticks as f64 / 100.0))
}

pub fn start(progress: fn() -> u64, stuck: fn(String) -> !) {
    static ON: AtomicBool = AtomicBool::new(false);
    if ON.swap(true, SeqCst) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = progress();
        let mut cpu = look().map_or(0.0, |x| x.1);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = progress();
            let Some((asleep, used)) = look() else { continue };
            if p != last {
                (last, cpu, still) = (p, used, 0);
                continue;
            }
            still = if asleep { still + 1 } else { 0 };
            if still >= ASLEEP {
                stuck("every thread sleeps in an operation that nothing will wake".into());
            }
            if used - cpu > SPENT {
                stuck(format!("threads ran for {:.0} s of processor time without completing an operation", used - cpu));
            }
        }
    });
}
