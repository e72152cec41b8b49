//! One case of a workload, what the monitors saw in it, and the workloads' description.
use crate::dict::Dict;
use crate::rng::{hash_bytes, mix, Rng};
use crate::sut::{Fail, Res};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub size: usize,
    pub index: usize,
    pub dict: &'a Dict,
    pub st: &'a mut Stats,
    pub tier: Tier,
    /// the input being processed, for reports
    pub input: String,
    /// failures listed as known findings
    pub known: &'a [String],
    /// keep samples and statistics
    pub quiet: bool,
}

pub struct Load {
    pub name: &'static str,
    /// cases in the quick and the thorough tier
    pub cases: (usize, usize),
    /// largest size in the quick and the thorough tier
    pub size: (usize, usize),
    pub run: fn(&mut Case) -> Res,
}

pub const fn load(
    name: &'static str,
    cases: (usize, usize),
    size: (usize, usize),
    run: fn(&mut Case) -> Res,
) -> Load {
    Load {
        name,
        cases,
        size,
        run,
    }
}

/// The loads of a quick check are so many times as long as they say (they were written when a check
/// was to take a second or two)
static FACTOR: AtomicUsize = AtomicUsize::new(1);

/// How many seconds a property's loads take differs; this brings a quick check to about twenty
pub fn set_factor(id: &str) {
    let f = match id {
        "C05" => 16,
        "C06" | "C07" => 10,
        "C02" | "C04" | "C25" => 7,
        "C12" => 6,
        "C03" | "C11" | "C24" => 5,
        "C08" | "C09" | "C10" | "C16" | "C27" | "C28" => 4,
        "C13" | "C17" | "C23" => 3,
        "C14" | "C15" | "C19" | "C26" => 2,
        _ => 1,
    };
    FACTOR.store(f, Relaxed);
}

impl Load {
    pub fn count(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            (self.cases.0 * FACTOR.load(Relaxed)).min(self.cases.1.max(self.cases.0))
        } else {
            self.cases.1
        }
    }
    pub fn max_size(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.size.0
        } else {
            self.size.1
        }
    }
}

impl<'a> Case<'a> {
    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if self.quiet {
            return;
        }
        match self.st.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.st.counters.insert(what.to_string(), n);
            }
        }
    }
    /// Notes the input, for reports. Call before the code under test runs.
    pub fn note(&mut self, input: &str) {
        self.input.clear();
        self.input.push_str(input);
        trace(&self.input);
    }
    /// The monitors evaluated this input; `nontrivial` by the check's own rule
    pub fn seen(&mut self, input: &str, nontrivial: bool) {
        if self.quiet {
            return;
        }
        self.st.evals += 1;
        if nontrivial {
            if self.st.distinct.len() < 3_000_000 {
                self.st.distinct.insert(hash_bytes(input.as_bytes()));
            }
            if self.st.samples.len() < 400 && input.len() < 400 && self.st.evals % 97 == 1 {
                self.st.samples.push(input.to_string());
            }
        }
    }
    /// Lets a failure that is listed as known pass
    pub fn unless_known(&mut self, r: Res) -> Res {
        match r {
            Err(f) if self.known.contains(&f.what) => {
                *self.st.known.entry(f.what).or_insert(0) += 1;
                Ok(())
            }
            r => r,
        }
    }
    pub fn sub(&mut self) -> Rng {
        Rng::new(self.rng.u64())
    }
}

static TRACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn set_trace(path: &str) {
    let _ = TRACE.set(path.to_string());
}
/// When a crash is being attributed: leaves the input where it survives the crash
fn trace(input: &str) {
    if let Some(p) = TRACE.get() {
        let _ = std::fs::write(p, input);
    }
}

pub fn case_seed(seed: u64, prop: &str, load: &str, index: usize) -> u64 {
    mix(seed ^ mix(hash_bytes(prop.as_bytes()) ^ mix(hash_bytes(load.as_bytes()))) ^ mix(index as u64 + 1))
}

/// Small sizes first and most often, the largest now and then
pub fn case_size(rng: &mut Rng, max: usize) -> usize {
    let r = rng.below(1000);
    let f = (r * r) as f64 / 1e6;
    1 + (f * max as f64) as usize
}

/// Runs one case
pub fn run_case(
    prop: &str,
    l: &Load,
    index: usize,
    seed: u64,
    tier: Tier,
    size: Option<usize>,
    dict: &Dict,
    st: &mut Stats,
    known: &[String],
    quiet: bool,
) -> Result<(), (Fail, String, usize)> {
    let mut rng = Rng::new(case_seed(seed, prop, l.name, index));
    let drawn = case_size(&mut rng, l.max_size(tier));
    let size = size.unwrap_or(drawn);
    let mut c = Case {
        rng,
        size,
        index,
        dict,
        st,
        tier,
        input: String::new(),
        known,
        quiet,
    };
    let r = (l.run)(&mut c);
    let r = c.unless_known(r);
    r.map_err(|f| (f, c.input.clone(), size))
}
