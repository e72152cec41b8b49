//! Runs the workloads of a property in worker processes, watches over them, and reports.
use crate::alloc;
use crate::case::{case_seed, run_case, set_trace, Load, Stats, Tier};
use crate::dict::{mine, Dict};
use crate::rng::{hash_bytes, Rng};
use crate::sut::{self, Fail};
use crate::{cmpc, lexc, metac, parsec, sysc};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

/// Every load of a property, and what makes one of its cases count as non-trivial
pub fn property(id: &str) -> Option<(&'static [Load], &'static str)> {
    crate::case::set_factor(id);
    Some(match id {
        "C01" => (sysc::C01, "texts (programs, damaged programs, soups of lexemes and characters, all short texts) and token lists no text has; non-trivial: at least two tokens or an error"),
        "C02" => (lexc::C02, "texts of every kind, all short texts over an alphabet, all short sequences of lexical pieces, large texts; non-trivial: at least two tokens"),
        "C03" => (lexc::C03, "the texts of C02, and positions advanced over texts at once and piecewise; non-trivial: at least two tokens over more than one line, or a position advanced over some text"),
        "C04" => (lexc::C04, "names: keywords and literal words extended on either side, random words, in contexts known by construction; non-trivial: every text holding such a name"),
        "C05" => (lexc::C05, "every keyword, in every context and next to every other; non-trivial: every text holding a keyword"),
        "C06" => (lexc::C06, "number spellings and string bodies with known values, in contexts known by construction; non-trivial: every text holding such a literal"),
        "C07" => (lexc::C07, "comments with known bodies, in contexts known by construction; all short sequences of openers, closers and quotes; non-trivial: at least one comment"),
        "C08" => (parsec::C08, "programs, damaged programs and soups, written with and without comments; non-trivial: the two texts differ"),
        "C09" => (parsec::C09, "programs, damaged programs and soups, written with two sorts of blanks; non-trivial: the two texts differ"),
        "C10" => (parsec::C10, "programs, damaged programs and soups, written with two sorts of separators and continuations; non-trivial: the two texts differ"),
        "C11" => (parsec::C11, "expressions with their tree known by construction, in every statement that takes one; non-trivial: every expression of more than one token"),
        "C12" => (parsec::C12, "simple statements with their node known by construction; non-trivial: every statement"),
        "C13" => (parsec::C13, "block statements with their node known by construction, nested, empty, with and without optional clauses; non-trivial: every block"),
        "C14" => (parsec::C14, "pairs of texts, the first free of errors; non-trivial: both have entries"),
        "C15" => (parsec::C15, "error-free programs with simple statements made malformed; non-trivial: at least one was"),
        "C16" => (parsec::C16, "statement forms cut short, with tokens replaced or appended, their diagnosis known by construction; non-trivial: every mistake"),
        "C17" => (parsec::C17, "token lists, from texts and given directly; non-trivial: more than one token"),
        "C18" => (parsec::C18, "expressions and assignments in the trees of texts and token lists; non-trivial: more than one token"),
        "C19" => (parsec::C19, "programs with errors at known places in nested blocks, texts and token lists of every kind; non-trivial: the program has errors, or more than one token"),
        "C20" => (sysc::C20, "pools of texts processed again, in other orders, after one another, in threads at the same time, and in fresh processes; non-trivial: every text compared with its first result"),
        "C21" => (sysc::C21, "texts scaled up in one dimension at a time; non-trivial: every scaled text"),
        "C22" => (sysc::C22, "texts and token lists processed, walked, copied, compared and dropped under a counting allocator; non-trivial: at least two tokens"),
        "C23" => (parsec::C23, "all short lists of the tokens the grammar tells apart, random lists, texts of every kind; non-trivial: more than one token"),
        "C24" => (lexc::C24, "texts of every kind, all short texts, every character; non-trivial: at least two tokens"),
        "C25" => (lexc::C25, "pairs of texts, apart and together; non-trivial: both have tokens"),
        "C26" => (cmpc::C26, "tokens, positions, ranges, errors, trees compared with others that differ in nothing or in one thing; trees copied, taken apart and rebuilt; non-trivial: more than one token"),
        "C27" => (metac::C27, "token lists and the same with other names, values and places; non-trivial: more than one token"),
        "C28" => (metac::C28, "texts by themselves and as the body of a block of every kind, up to six deep; non-trivial: at least one entry"),
        _ => return None,
    })
}

const WORKERS: usize = 8;
/// CPU seconds one case may take before it is looked at alone, and there
const CASE_CPU: f64 = 45.0;
const ALONE_CPU: f64 = 130.0;

fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick {
        "quick"
    } else {
        "thorough"
    }
}

fn budget(t: Tier) -> Duration {
    let s = std::env::var("LCMON_BUDGET").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(if t == Tier::Quick { 150 } else { 500 }))
}

fn dict() -> Dict {
    let repo = PathBuf::from(std::env::var("LCMON_REPO").unwrap_or("/repo".into()));
    let mut d = mine(&repo.join("src"));
    let e = mine(&repo.join("lolcode-ast-derive/src"));
    d.ints.extend(e.ints);
    d.strings.extend(e.strings);
    d.floats.extend(e.floats);
    d.words.extend(e.words);
    d
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("LCMON_ROOT").unwrap_or("/verif".into()))
}

/// Failures listed as known: `known: property=<id> <what>`
fn known(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} ")))
        .map(|s| s.to_string())
        .collect()
}

pub fn main(args: &[&str]) -> i32 {
    sut::install_hook();
    match args {
        ["check", id, rest @ ..] => check(id, rest),
        ["work", id, tier, seed, me, n, dir] => on_big_stack({
            let (id, tier, dir) = (id.to_string(), tier.to_string(), dir.to_string());
            let (seed, me, n) = (seed.parse().unwrap(), me.parse().unwrap(), n.parse().unwrap());
            move || work(&id, parse_tier(&tier), seed, me, n, Path::new(&dir))
        }),
        ["one", id, load, index, seed, tier, size, out] => on_big_stack({
            let v: Vec<String> = [id, load, index, seed, tier, size, out].iter().map(|s| s.to_string()).collect();
            move || one(&v[0], &v[1], v[2].parse().unwrap(), v[3].parse().unwrap(), parse_tier(&v[4]), v[5].parse().ok(), Path::new(&v[6]))
        }),
        ["replay", file] => replay(Path::new(file)),
        ["loads", id] => {
            for l in property(id).map(|p| p.0).unwrap_or(&[]) {
                println!("{:>9} {:>9}  {}", l.cases.0, l.cases.1, l.name);
            }
            0
        }
        [sub, rest @ ..] => match sysc::command(sub, rest) {
            Some(code) => code,
            None => usage(),
        },
        _ => usage(),
    }
}

fn usage() -> i32 {
    eprintln!("lcmon check <property> [--tier quick|thorough] [--seed n] | replay <file> | loads <property>");
    2
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    match std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join() {
        Ok(c) => c,
        Err(_) => 101,
    }
}

// ---------------------------------------------------------------- worker

struct Progress {
    file: std::fs::File,
}

impl Progress {
    fn set(&self, load: usize, index: usize) {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(load as u64).to_le_bytes());
        b[8..].copy_from_slice(&(index as u64).to_le_bytes());
        let _ = self.file.write_at(&b, 0);
    }
    fn get(path: &Path) -> Option<(usize, usize)> {
        let b = std::fs::read(path).ok()?;
        if b.len() < 16 {
            return None;
        }
        let l = u64::from_le_bytes(b[..8].try_into().ok()?);
        let i = u64::from_le_bytes(b[8..16].try_into().ok()?);
        if l == u64::MAX {
            return None;
        }
        Some((l as usize, i as usize))
    }
}

/// A failing case as it is written to files
#[derive(Clone)]
struct Failure {
    load: String,
    index: usize,
    size: usize,
    fail: Fail,
    input: String,
}

fn write_failure(path: &Path, id: &str, seed: u64, tier: Tier, f: &Failure) {
    let mut s = String::new();
    let _ = writeln!(s, "property: {id}");
    let _ = writeln!(s, "load: {}", f.load);
    let _ = writeln!(s, "index: {}", f.index);
    let _ = writeln!(s, "seed: {seed}");
    let _ = writeln!(s, "tier: {}", tier_name(tier));
    let _ = writeln!(s, "size: {}", f.size);
    let _ = writeln!(s, "what: {}", f.fail.what.replace('\n', "\n  "));
    if !f.fail.detail.is_empty() {
        let _ = writeln!(s, "--- detail\n{}", f.fail.detail);
    }
    let _ = writeln!(s, "--- input\n{}", f.input);
    let _ = std::fs::write(path, s);
}

fn field(text: &str, name: &str) -> String {
    text.lines()
        .find_map(|l| l.strip_prefix(&format!("{name}: ")))
        .unwrap_or("")
        .to_string()
}

fn work(id: &str, tier: Tier, seed: u64, me: usize, n: usize, dir: &Path) -> i32 {
    let (loads, _) = property(id).unwrap();
    let dict = dict();
    let known = known(id);
    alloc::ROOM.store(3 << 30, Relaxed);
    let deadline = Instant::now() + budget(tier);
    let progress = Progress {
        file: std::fs::File::create(dir.join(format!("progress{me}"))).unwrap(),
    };
    let mut st = Stats::default();
    let mut done = vec![0u64; loads.len()];
    let mut longest = vec![(0u64, 0usize); loads.len()];
    let mut out_of_time = false;
    const ROUNDS: usize = 40;
    let skip: HashSet<(usize, usize)> = std::fs::read_to_string(dir.join("skip"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(' ')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        })
        .collect();
    'all: for round in 0..ROUNDS {
        for (li, l) in loads.iter().enumerate() {
            let total = l.count(tier);
            // this worker's share of the load, cut into rounds
            let mine = (total + n - 1 - me) / n;
            let (from, to) = (mine * round / ROUNDS, mine * (round + 1) / ROUNDS);
            for k in from..to {
                let index = k * n + me;
                if skip.contains(&(li, index)) {
                    continue;
                }
                if Instant::now() > deadline {
                    out_of_time = true;
                    break 'all;
                }
                progress.set(li, index);
                let t0 = crate::sysc::thread_cpu();
                let r = run_case(id, l, index, seed, tier, None, &dict, &mut st, &known, false);
                let ms = ((crate::sysc::thread_cpu() - t0) * 1e3) as u64;
                if ms > longest[li].0 {
                    longest[li] = (ms, index);
                }
                done[li] += 1;
                if let Err((fail, input, size)) = r {
                    let mut f = Failure {
                        load: l.name.into(),
                        index,
                        size,
                        fail,
                        input,
                    };
                    let path = dir.join(format!("fail{me}"));
                    write_failure(&path, id, seed, tier, &f);
                    progress.set(usize::MAX, 0);
                    if let Some(g) = smaller(id, l, &f, seed, tier, &dict, &known) {
                        f = g;
                        write_failure(&path, id, seed, tier, &f);
                    }
                    write_stats(dir, me, loads, &st, &done, out_of_time);
                    return 1;
                }
            }
        }
    }
    progress.set(usize::MAX, 0);
    if std::env::var("LCMON_TIMES").is_ok() {
        for (l, (ms, i)) in loads.iter().zip(&longest) {
            eprintln!("{id}: worker {me}: the longest case is {i} of {:?}: {ms} ms", l.name);
        }
    }
    write_stats(dir, me, loads, &st, &done, out_of_time);
    0
}

/// Looks for a smaller case of the same load that fails
fn smaller(id: &str, l: &Load, f: &Failure, seed: u64, tier: Tier, dict: &Dict, known: &[String]) -> Option<Failure> {
    let until = Instant::now() + Duration::from_secs(4);
    let mut st = Stats::default();
    let mut size = 1;
    while size < f.size {
        for k in 0..300 {
            if Instant::now() > until {
                return None;
            }
            let index = if k == 0 { f.index } else { f.index + 8 * k };
            if index >= l.count(tier) && k > 0 {
                break;
            }
            if let Err((fail, input, size)) = run_case(id, l, index, seed, tier, Some(size), dict, &mut st, known, true) {
                return Some(Failure {
                    load: l.name.into(),
                    index,
                    size,
                    fail,
                    input,
                });
            }
        }
        size = (size * 3 / 2).max(size + 1);
    }
    None
}

fn write_stats(dir: &Path, me: usize, loads: &[Load], st: &Stats, done: &[u64], out_of_time: bool) {
    let mut s = String::new();
    let _ = writeln!(s, "evals {}", st.evals);
    let _ = writeln!(s, "time {}", out_of_time as u8);
    for (l, d) in loads.iter().zip(done) {
        let _ = writeln!(s, "load {d} {}", l.name);
    }
    for (k, v) in &st.counters {
        let _ = writeln!(s, "count {v} {k}");
    }
    for (k, v) in &st.known {
        let _ = writeln!(s, "known {v} {k}");
    }
    for x in st.samples.iter().take(40) {
        let _ = writeln!(s, "sample {}", json(x));
    }
    let h: Vec<u8> = st.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    let _ = std::fs::write(dir.join(format!("hashes{me}")), h);
    let _ = std::fs::write(dir.join(format!("stats{me}")), s);
}

fn one(id: &str, load: &str, index: usize, seed: u64, tier: Tier, size: Option<usize>, out: &Path) -> i32 {
    let (loads, _) = property(id).unwrap();
    let Some(l) = loads.iter().find(|l| l.name == load) else {
        eprintln!("no load named {load}");
        return 2;
    };
    let dict = dict();
    let known = known(id);
    alloc::ROOM.store(3 << 30, Relaxed);
    set_trace(&out.with_extension("input").to_string_lossy());
    let mut st = Stats::default();
    match run_case(id, l, index, seed, tier, size, &dict, &mut st, &known, true) {
        Ok(()) => 0,
        Err((fail, input, size)) => {
            let f = Failure {
                load: load.into(),
                index,
                size,
                fail,
                input,
            };
            write_failure(out, id, seed, tier, &f);
            1
        }
    }
}

// ---------------------------------------------------------------- parent

pub struct Merged {
    pub evals: u64,
    pub loads: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub distinct: HashSet<u64>,
    pub out_of_time: bool,
}

fn merge(dir: &Path) -> Merged {
    let mut m = Merged {
        evals: 0,
        loads: BTreeMap::new(),
        counters: BTreeMap::new(),
        known: BTreeMap::new(),
        samples: Vec::new(),
        distinct: HashSet::new(),
        out_of_time: false,
    };
    for w in 0..WORKERS {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("stats{w}"))) else {
            continue;
        };
        let mut taken = 0;
        for l in s.lines() {
            let Some((k, rest)) = l.split_once(' ') else {
                continue;
            };
            let pair = || {
                rest.split_once(' ')
                    .map(|(n, s)| (s.to_string(), n.parse::<u64>().unwrap_or(0)))
                    .unwrap_or_default()
            };
            match k {
                "evals" => m.evals += rest.parse::<u64>().unwrap_or(0),
                "time" => m.out_of_time |= rest == "1",
                "load" => {
                    let (s, n) = pair();
                    *m.loads.entry(s).or_insert(0) += n;
                }
                "count" => {
                    let (s, n) = pair();
                    *m.counters.entry(s).or_insert(0) += n;
                }
                "known" => {
                    let (s, n) = pair();
                    *m.known.entry(s).or_insert(0) += n;
                }
                "sample" if taken < 2 => {
                    taken += 1;
                    m.samples.push(rest.to_string());
                }
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(dir.join(format!("hashes{w}"))) {
            for c in h.chunks_exact(8) {
                m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    m
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// CPU seconds used by a process so far
fn cpu(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let s = s.rsplit_once(')')?.1;
    let f: Vec<&str> = s.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

struct Worker {
    child: Child,
    me: usize,
    at: Option<(usize, usize)>,
    cpu_at: f64,
    ended: bool,
}

enum Alone {
    Passed,
    Failed(Failure),
    Crashed(String, String),
    Hung(String),
    Broken(String),
}

fn me_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// One case by itself, in a process of its own
fn alone(id: &str, load: &str, index: usize, seed: u64, tier: Tier, size: Option<usize>, dir: &Path, limit: f64) -> Alone {
    let out = dir.join("alone.txt");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(out.with_extension("input"));
    let size_s = size.map_or("-".to_string(), |s| s.to_string());
    let mut child = match Command::new(me_exe())
        .args(["one", id, load, &index.to_string(), &seed.to_string(), tier_name(tier), &size_s])
        .arg(&out)
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Alone::Broken(e.to_string()),
    };
    let start = Instant::now();
    let input = || std::fs::read_to_string(out.with_extension("input")).unwrap_or_default();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                if st.success() {
                    return Alone::Passed;
                }
                if st.code() == Some(1) {
                    let text = std::fs::read_to_string(&out).unwrap_or_default();
                    return Alone::Failed(Failure {
                        load: load.into(),
                        index,
                        size: field(&text, "size").parse().unwrap_or(0),
                        fail: Fail::new(field(&text, "what")),
                        input: text,
                    });
                }
                let mut err = String::new();
                if let Some(mut e) = child.stderr.take() {
                    let mut b = Vec::new();
                    let _ = std::io::Read::read_to_end(&mut e, &mut b);
                    err = String::from_utf8_lossy(&b).chars().take(600).collect();
                }
                return match st.signal() {
                    // killed from outside (out of memory, say) is not an answer
                    Some(9) | Some(15) | Some(2) => Alone::Broken(format!("ended by signal {:?}", st.signal())),
                    Some(s) => Alone::Crashed(format!("the process was ended by signal {s}: {}", err.trim().replace('\n', " ")), input()),
                    None => Alone::Broken(format!("ended with code {:?}: {err}", st.code())),
                };
            }
            Ok(None) => {}
            Err(e) => return Alone::Broken(e.to_string()),
        }
        if cpu(child.id()).unwrap_or(0.0) > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Alone::Hung(input());
        }
        if start.elapsed().as_secs_f64() > limit * 4.0 {
            let _ = child.kill();
            let _ = child.wait();
            return Alone::Broken("starved".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// A scratch directory that goes away
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("lcmon-{name}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn check(id: &str, rest: &[&str]) -> i32 {
    let begin = Instant::now();
    let mut tier = parse_tier(&std::env::var("VERIF_TIER").unwrap_or_default());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut i = 0;
    while i < rest.len() {
        match rest[i] {
            "--tier" => {
                tier = parse_tier(rest.get(i + 1).unwrap_or(&""));
                i += 1;
            }
            "--seed" => {
                seed = rest.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(seed);
                i += 1;
            }
            _ => return usage(),
        }
        i += 1;
    }
    let Some((loads, rule)) = property(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let scratch = Scratch::new(id);
    let dir = scratch.0.clone();
    let mut skip: Vec<(usize, usize)> = Vec::new();
    let mut violation: Option<Failure> = None;
    let mut broken: Option<String> = None;
    let mut no_extra: Option<String> = None;
    let mut inconclusive = 0u64;

    // extra observations outside of the workers
    let extra = sysc::extra(id, tier, seed, &dir, &known(id), &dict());
    let mut extra_counters = BTreeMap::new();
    let mut extra_known = BTreeMap::new();
    match extra {
        Ok(st) => {
            extra_counters = st.counters;
            extra_known = st.known;
        }
        Err(sysc::Trouble::Fail(f, input)) => {
            violation = Some(Failure {
                load: "-".into(),
                index: 0,
                size: 0,
                fail: f,
                input,
            })
        }
        // the workers may still find something
        Err(sysc::Trouble::Broken(s)) => no_extra = Some(s),
    }

    let mut workers: Vec<Worker> = Vec::new();
    let start = |me: usize| -> std::io::Result<Worker> {
        let child = Command::new(me_exe())
            .args(["work", id, tier_name(tier), &seed.to_string(), &me.to_string(), &WORKERS.to_string()])
            .arg(&dir)
            .stdout(Stdio::null())
            .stderr(if std::env::var("LCMON_TIMES").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()?;
        Ok(Worker {
            child,
            me,
            at: None,
            cpu_at: 0.0,
            ended: false,
        })
    };
    if violation.is_none() && broken.is_none() {
        for me in 0..WORKERS {
            match start(me) {
                Ok(w) => workers.push(w),
                Err(e) => broken = Some(e.to_string()),
            }
        }
    }
    let hard = Instant::now() + budget(tier) + Duration::from_secs(200);
    'watch: while violation.is_none() && broken.is_none() && workers.iter().any(|w| !w.ended) {
        std::thread::sleep(Duration::from_millis(10));
        for i in 0..workers.len() {
            if workers[i].ended {
                continue;
            }
            let me = workers[i].me;
            let mut stuck = false;
            let at_path = dir.join(format!("progress{me}"));
            let status = match workers[i].child.try_wait() {
                Ok(s) => s,
                Err(e) => {
                    broken = Some(e.to_string());
                    break 'watch;
                }
            };
            match status {
                Some(st) if st.success() => {
                    workers[i].ended = true;
                    continue;
                }
                Some(st) if st.code() == Some(1) => {
                    workers[i].ended = true;
                    let text = std::fs::read_to_string(dir.join(format!("fail{me}"))).unwrap_or_default();
                    violation = Some(Failure {
                        load: field(&text, "load"),
                        index: field(&text, "index").parse().unwrap_or(0),
                        size: field(&text, "size").parse().unwrap_or(0),
                        fail: Fail::new(field(&text, "what")),
                        input: text,
                    });
                    break 'watch;
                }
                Some(_) => {}
                None => {
                    let at = Progress::get(&at_path);
                    let now = cpu(workers[i].child.id()).unwrap_or(0.0);
                    if at != workers[i].at {
                        workers[i].at = at;
                        workers[i].cpu_at = now;
                        continue;
                    }
                    let limit = if at.is_none() { 60.0 } else { CASE_CPU };
                    if now - workers[i].cpu_at < limit {
                        if Instant::now() > hard {
                            broken = Some("the workers do not come to an end".into());
                            break 'watch;
                        }
                        continue;
                    }
                    stuck = true;
                    let _ = workers[i].child.kill();
                    let _ = workers[i].child.wait();
                }
            }
            // crashed or stuck: which case, and does it do so by itself?
            let fail_path = dir.join(format!("fail{me}"));
            if let Ok(text) = std::fs::read_to_string(&fail_path) {
                // it had found a failure, and came to grief looking for a smaller one
                violation = Some(Failure {
                    load: field(&text, "load"),
                    index: field(&text, "index").parse().unwrap_or(0),
                    size: field(&text, "size").parse().unwrap_or(0),
                    fail: Fail::new(field(&text, "what")),
                    input: text,
                });
                break 'watch;
            }
            let Some((li, index)) = Progress::get(&at_path) else {
                broken = Some(format!("worker {me} died outside of any case: {status:?}"));
                break 'watch;
            };
            let Some(l) = loads.get(li) else {
                broken = Some("progress is garbled".into());
                break 'watch;
            };
            match alone(id, l.name, index, seed, tier, None, &dir, ALONE_CPU) {
                Alone::Crashed(what, input) => {
                    let f = smaller_alone(id, l, index, seed, tier, &dir).unwrap_or(Failure {
                        load: l.name.into(),
                        index,
                        size: 0,
                        fail: Fail::new(what),
                        input,
                    });
                    violation = Some(f);
                    break 'watch;
                }
                Alone::Hung(input) => {
                    violation = Some(Failure {
                        load: l.name.into(),
                        index,
                        size: 0,
                        fail: Fail::new(format!("no result after {ALONE_CPU} seconds of processor time")),
                        input,
                    });
                    break 'watch;
                }
                Alone::Failed(f) => {
                    violation = Some(f);
                    break 'watch;
                }
                Alone::Passed | Alone::Broken(_) => {
                    // not reproduced: no verdict on this case; go on without it
                    inconclusive += 1;
                    if inconclusive > 3 {
                        broken = Some(format!("workers die ({status:?}, stuck: {stuck}) on cases that pass by themselves"));
                        break 'watch;
                    }
                    skip.push((li, index));
                    let text: String = skip.iter().map(|(a, b)| format!("{a} {b}\n")).collect();
                    let _ = std::fs::write(dir.join("skip"), text);
                    match start(me) {
                        Ok(w) => workers[i] = w,
                        Err(e) => {
                            broken = Some(e.to_string());
                            break 'watch;
                        }
                    }
                }
            }
        }
    }
    for w in workers.iter_mut() {
        if !w.ended {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let mut broken = broken.or(no_extra);
    let m = merge(&dir);
    let wall = begin.elapsed().as_secs_f64();
    let violations = violation.is_some() as i32;
    for (k, v) in extra_known.iter().chain(m.known.iter()) {
        println!("KNOWN-FINDING: property={id} {k} (seen {v} times)");
    }
    let observed = m.evals + extra_counters.values().sum::<u64>();
    if violation.is_none() && broken.is_none() && (observed == 0 || m.distinct.is_empty()) {
        broken = Some("nothing was observed".into());
    }
    // evidence
    let ev = evidence(id, tier, seed, rule, &m, &extra_counters, loads, inconclusive, wall, violations);
    let _ = std::fs::create_dir_all(verif().join("evidence"));
    if let Err(e) = std::fs::write(verif().join(format!("evidence/{id}.json")), ev) {
        broken = Some(format!("evidence: {e}"));
    }
    if let Some(f) = violation {
        let replays = verif().join("replays");
        let _ = std::fs::create_dir_all(&replays);
        let h = hash_bytes(format!("{}{}{}", f.load, f.index, f.fail.what).as_bytes());
        let path = replays.join(format!("{id}-{:08x}.txt", h as u32));
        if f.input.starts_with("property: ") {
            let _ = std::fs::write(&path, &f.input);
        } else {
            write_failure(&path, id, seed, tier, &f);
        }
        println!("{id}: {}", f.fail.what);
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("{id}: no verdict: {b}");
        return 3;
    }
    println!(
        "{id}: held on {} evaluations ({} distinct) in {wall:.1} s, {} tier, seed {seed}{}",
        m.evals,
        m.distinct.len(),
        tier_name(tier),
        if m.out_of_time { ", stopped at the time limit" } else { "" }
    );
    0
}

fn smaller_alone(id: &str, l: &Load, index: usize, seed: u64, tier: Tier, dir: &Path) -> Option<Failure> {
    let until = Instant::now() + Duration::from_secs(10);
    let mut rng = Rng::new(case_seed(seed, id, l.name, index));
    let size = crate::case::case_size(&mut rng, l.max_size(tier));
    let mut s = 1;
    while s < size {
        for k in 0..20 {
            if Instant::now() > until {
                return None;
            }
            match alone(id, l.name, index + 8 * k, seed, tier, Some(s), dir, 5.0) {
                Alone::Crashed(what, input) => {
                    return Some(Failure {
                        load: l.name.into(),
                        index: index + 8 * k,
                        size: s,
                        fail: Fail::new(what),
                        input,
                    })
                }
                _ => {}
            }
        }
        s = (s * 3 / 2).max(s + 1);
    }
    None
}

fn evidence(
    id: &str,
    tier: Tier,
    seed: u64,
    rule: &str,
    m: &Merged,
    extra: &BTreeMap<String, u64>,
    loads: &[Load],
    inconclusive: u64,
    wall: f64,
    violations: i32,
) -> String {
    let map = |it: Vec<(&String, &u64)>| -> String {
        let v: Vec<String> = it.iter().map(|(k, v)| format!("      {}: {v}", json(k))).collect();
        format!("{{\n{}\n    }}", v.join(",\n"))
    };
    let complete: Vec<String> = loads
        .iter()
        .filter(|l| l.name.starts_with("all ") || l.name.starts_with("every "))
        .filter(|l| m.loads.get(l.name).copied().unwrap_or(0) as usize == l.count(tier))
        .map(|l| json(l.name))
        .collect();
    let mut counters: BTreeMap<String, u64> = m.counters.clone();
    for (k, v) in extra {
        *counters.entry(k.clone()).or_insert(0) += v;
    }
    let known: Vec<String> = m.known.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"cases_per_workload\": {},\n    \"enumerated_completely\": [{}],\n    \"observed\": {},\n    \"known_findings_seen\": {{{}}},\n    \"cases_without_verdict\": {inconclusive},\n    \"stopped_at_time_limit\": {}\n  }},\n  \"assumptions\": [\"executions of the rebuilt library with debug assertions and overflow checks, syntax tree read through the cfg(lolcode_verif) export\"],\n  \"wall_s\": {wall:.3},\n  \"violations\": {violations}\n}}\n",
        json(id),
        json(tier_name(tier)),
        m.evals,
        m.distinct.len(),
        json(rule),
        m.samples.join(", "),
        map(m.loads.iter().collect()),
        complete.join(", "),
        map(counters.iter().collect()),
        known.join(", "),
        m.out_of_time,
    )
}

// ---------------------------------------------------------------- replay

fn replay(file: &Path) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let (id, load) = (field(&text, "property"), field(&text, "load"));
    let tier = parse_tier(&field(&text, "tier"));
    let seed: u64 = field(&text, "seed").parse().unwrap_or(1);
    let index: usize = field(&text, "index").parse().unwrap_or(0);
    let size: Option<usize> = field(&text, "size").parse().ok().filter(|s| *s > 0);
    let scratch = Scratch::new("replay");
    if load == "-" {
        return match sysc::extra(&id, tier, seed, &scratch.0, &known(&id), &dict()) {
            Ok(_) => {
                println!("passes");
                0
            }
            Err(sysc::Trouble::Fail(f, input)) => {
                println!("fails: {}\n{}\n{input}", f.what, f.detail);
                1
            }
            Err(sysc::Trouble::Broken(s)) => {
                eprintln!("no verdict: {s}");
                3
            }
        };
    }
    match alone(&id, &load, index, seed, tier, size, &scratch.0, ALONE_CPU) {
        Alone::Passed => {
            println!("passes");
            0
        }
        Alone::Failed(f) => {
            println!("{}", f.input);
            1
        }
        Alone::Crashed(what, input) => {
            println!("{what}\n--- input\n{input}");
            1
        }
        Alone::Hung(input) => {
            println!("no result\n--- input\n{input}");
            1
        }
        Alone::Broken(s) => {
            eprintln!("no verdict: {s}");
            3
        }
    }
}
