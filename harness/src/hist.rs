//! Histories and the per-key linearizability search.
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exp {
    Any,
    Is(Option<u64>),
    Present,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Next {
    Same,
    To(Option<u64>),
    /// Either unchanged or replaced.
    Maybe(u64),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub thr: u8,
    pub key: u32,
    pub kind: &'static str,
    pub call: u32,
    pub ret: u32,
    pub exp: Exp,
    pub next: Next,
    pub optional: bool,
}

impl std::fmt::Display for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}..{}] T{} {}(k{})", self.call, self.ret, self.thr, self.kind, self.key)?;
        match self.exp {
            Exp::Any => {}
            Exp::Is(None) => write!(f, " saw absent")?,
            Exp::Is(Some(v)) => write!(f, " saw v{v}")?,
            Exp::Present => write!(f, " saw present")?,
        }
        match self.next {
            Next::Same => Ok(()),
            Next::To(None) => write!(f, " -> removed"),
            Next::To(Some(v)) => write!(f, " -> v{v}"),
            Next::Maybe(v) => write!(f, " -> same or v{v}"),
        }
    }
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Ok,
    Bad(String),
    Unknown,
}

/// Is there an order of the operations, consistent with real time, that explains every result?
pub fn check(init: Option<u64>, recs: &[Rec], budget: &mut u64) -> Verdict {
    let mut r: Vec<&Rec> = recs.iter().collect();
    r.sort_by_key(|x| x.call);
    let n = r.len();
    if n > 128 {
        return Verdict::Unknown;
    }
    let mandatory: u128 = r
        .iter()
        .enumerate()
        .filter(|(_, x)| !x.optional)
        .fold(0, |m, (i, _)| m | 1 << i);
    let mut seen: HashSet<(u128, Option<u64>)> = HashSet::new();
    let mut stack: Vec<(u128, Option<u64>)> = vec![(0, init)];
    let mut best = (0, 0u128, init);
    while let Some((mask, st)) = stack.pop() {
        if mask & mandatory == mandatory {
            return Verdict::Ok;
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        if *budget == 0 {
            return Verdict::Unknown;
        }
        *budget -= 1;
        let done = (mask & mandatory).count_ones();
        if done > best.0 {
            best = (done, mask, st);
        }
        let mut minret = u32::MAX;
        let mut maxcall = 0;
        for (i, x) in r.iter().enumerate() {
            if mask >> i & 1 == 0 {
                if !x.optional {
                    minret = minret.min(x.ret);
                }
            } else {
                maxcall = maxcall.max(x.call);
            }
        }
        for (i, x) in r.iter().enumerate().rev() {
            if mask >> i & 1 == 1 || x.call > minret || (x.optional && x.ret < maxcall) {
                continue;
            }
            let ok = match x.exp {
                Exp::Any => true,
                Exp::Is(e) => e == st,
                Exp::Present => st.is_some(),
            };
            if !ok {
                continue;
            }
            let m = mask | 1 << i;
            match x.next {
                Next::Same => stack.push((m, st)),
                Next::To(v) => stack.push((m, v)),
                Next::Maybe(v) => {
                    stack.push((m, st));
                    stack.push((m, Some(v)));
                }
            }
        }
    }
    let mut s = format!("no linearization (initially {init:?}):\n");
    for x in &r {
        s += &format!("    {x}{}\n", if x.optional { " (optional)" } else { "" });
    }
    s += &format!("    longest prefix explains {} of {} operations\n", best.0, mandatory.count_ones());
    Verdict::Bad(s)
}

/// A completed iteration.
#[derive(Clone, Debug, Default)]
pub struct IterRec {
    pub thr: u8,
    pub kind: &'static str,
    pub call: u32,
    pub created: u32,
    pub ret: u32,
    /// key, value (0 if not observed), time
    pub yields: Vec<(u32, u64, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct SweepRec {
    pub thr: u8,
    pub call: u32,
    pub ret: u32,
    pub clear: bool,
    /// predicate verdicts: key, value, keep
    pub verdicts: Vec<(u32, u64, bool)>,
    /// The parameter of the predicate.
    pub pred: u8,
    /// Returned normally.
    pub complete: bool,
}

#[derive(Clone, Debug)]
pub struct LenRec {
    pub call: u32,
    pub ret: u32,
    pub len: usize,
    pub empty: bool,
}

#[derive(Default)]
pub struct Log {
    pub recs: Vec<Rec>,
    pub iters: Vec<IterRec>,
    pub sweeps: Vec<SweepRec>,
    pub lens: Vec<LenRec>,
    pub panics: u32,
    pub ops: u32,
    pub viol: Vec<(&'static str, String)>,
    pub rechecks: u64,
    pub measured: u64,
    pub moved: u64,
    pub max_moved: u64,
}
