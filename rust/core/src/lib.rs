//! Property-based testing driver: generates tapes with proptest, decodes them into cases, runs
//! the cases on a fixed number of threads, shrinks failures and writes replay and evidence files.

mod crash;
mod driver;
mod miri;
mod shrink;
mod tape;

pub use crash::{allocated, cpu_time, grant_seconds, live, set_alloc_budget, set_tick_budget, tick};
pub use driver::{main_with, run_tape};
pub use tape::Tape;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

/// A broken property: `sig` classifies the failure, `msg` describes it.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}

pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::Fail::new($sig, format!($($fmt)*)));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($left:expr, $right:expr, $sig:expr, $($fmt:tt)*) => {
        match (&$left, &$right) {
            (l, r) => {
                if !(*l == *r) {
                    return Err($crate::Fail::new(
                        $sig,
                        format!("{}: got {:?}, expected {:?}", format!($($fmt)*), l, r),
                    ));
                }
            }
        }
    };
}

/// Collects what a case was.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    /// Whether a written-out sample of the case is wanted.
    pub want_sample: bool,
}

impl Ctx {
    pub fn label(&mut self, name: &'static str) {
        *self.labels.entry(name).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.label(name);
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.labels.entry(name).or_insert(0) += n;
    }
    /// Identifies the case (for counting distinct ones).
    pub fn case(&mut self, key: &impl Hash) {
        let mut hasher = std::collections::hash_map::DefaultHasher::new();
        self.key.hash(&mut hasher);
        key.hash(&mut hasher);
        self.key = hasher.finish();
    }
    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let _ = write!(self.sample, "{}", f());
        }
    }
}

pub type RunFn = fn(&mut Tape<'_>, &mut Ctx) -> CaseResult;

/// One generated check of a property.
pub struct Arm {
    pub name: &'static str,
    /// Numbers of cases.
    pub quick: u32,
    pub thorough: u32,
    /// Range of tape lengths.
    pub tape: (usize, usize),
    pub run: RunFn,
}

/// A specific input that is known to break the property on the unchanged tree.
pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> CaseResult,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Arm>,
    pub probes: Vec<Probe>,
}
