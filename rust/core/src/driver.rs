//! Command line, worker threads, replay and evidence files.

use crate::{crash, miri, shrink, CaseResult, Ctx, Fail, Property, RunFn, Tape};
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
/// Processor time of one case, beyond which it is taken not to end. Cases need milliseconds.
const HANG_SECS: u64 = 40;
/// The same while a case that does not end is made smaller.
const SHORT_HANG_SECS: u64 = 4;
const SHRINK_BUDGET: usize = 4000;
const SHRINK_SECS: u64 = 60;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub(crate) fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = info.payload();
        let text = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let place = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", text, place)));
        if std::env::var_os("PBT_VERBOSE").is_some() {
            eprintln!("panic: {} at {}", text, place);
        }
    }));
}

/// Runs one case; panics are failures.
pub(crate) fn guarded(f: impl FnOnce() -> CaseResult) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(result) => result,
        Err(_) => {
            let msg = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            Err(Fail::new("panic", format!("panic: {}", msg)))
        }
    }
}

pub fn run_tape(run: RunFn, tape: &[u32], ctx: &mut Ctx) -> CaseResult {
    guarded(|| run(&mut Tape::new(tape), ctx))
}

fn run_in_slot(slot: usize, arm: u32, run: RunFn, tape: &[u32], ctx: &mut Ctx) -> CaseResult {
    crash::begin_case(slot, arm, tape);
    let slow = std::env::var("PBT_SLOW").ok().and_then(|ms| ms.parse::<u128>().ok());
    let start = std::time::Instant::now();
    let result = run_tape(run, tape, ctx);
    let took = start.elapsed().as_millis();
    if slow.is_some_and(|ms| took >= ms) {
        let words: Vec<String> = tape.iter().map(u32::to_string).collect();
        eprintln!("slow case of arm {}: {} ms\ntape {}", arm, took, words.join(" "));
    }
    crash::end_case(slot);
    result
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub(crate) fn seed_bytes(seed: u64, id: &str, arm: usize, thread: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    for b in id.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    x ^= (arm as u64) << 32 | thread as u64;
    for chunk in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

pub(crate) fn verif_home() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_HOME").unwrap_or_else(|_| "/verif".into()))
}

struct Options {
    id: String,
    tier: String,
    seed: u64,
    scale: f64,
    worker: Option<PathBuf>,
    replay: Option<PathBuf>,
    only_arm: Option<String>,
    /// Set in the interpreted process.
    miri: Option<PathBuf>,
    miri_case: Option<PathBuf>,
    miri_seconds: Option<u64>,
}

fn parse_args() -> Options {
    let mut o = Options {
        id: String::new(),
        tier: "quick".into(),
        seed: 1,
        scale: 1.0,
        worker: None,
        replay: None,
        only_arm: None,
        miri: None,
        miri_case: None,
        miri_seconds: None,
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap_or_else(|| usage());
        match &a[..] {
            "--tier" => o.tier = val(),
            "--seed" => o.seed = val().parse().unwrap_or_else(|_| usage()),
            "--scale" => o.scale = val().parse().unwrap_or_else(|_| usage()),
            "--worker" => o.worker = Some(val().into()),
            "--replay" => o.replay = Some(val().into()),
            "--arm" => o.only_arm = Some(val()),
            "--miri" => o.miri = Some(val().into()),
            "--miri-case" => o.miri_case = Some(val().into()),
            "--miri-seconds" => o.miri_seconds = Some(val().parse().unwrap_or_else(|_| usage())),
            _ if a.starts_with("--") => usage(),
            _ => o.id = a,
        }
    }
    o
}

fn usage() -> ! {
    eprintln!("usage: ID [--tier quick|thorough] [--seed N] [--scale X] [--arm NAME] [--replay FILE]");
    std::process::exit(2)
}

pub fn main_with(properties: Vec<Property>) -> ! {
    let o = parse_args();
    if let Some(dir) = &o.miri {
        let Some(property) = properties.iter().find(|p| p.id == o.id) else { usage() };
        let seconds = o.miri_seconds.unwrap_or(10);
        std::process::exit(miri::interpret(property, dir, o.seed, seconds, o.miri_case.as_deref()))
    }
    install_panic_hook();
    if o.id == "list" {
        for p in &properties {
            for a in &p.arms {
                println!("{} {} quick={} thorough={}", p.id, a.name, a.quick, a.thorough);
            }
        }
        std::process::exit(0);
    }
    let Some(property) = properties.into_iter().find(|p| p.id == o.id) else {
        eprintln!("unknown property {:?}", o.id);
        std::process::exit(2)
    };
    let code = if let Some(file) = &o.replay {
        replay(&property, file)
    } else if let Some(dir) = o.worker.clone() {
        worker(&property, &o, &dir)
    } else {
        supervise(&property, &o)
    };
    std::process::exit(code)
}

/// Replay files: `# comment` lines, then `arm NAME`, then `tape N N N ...`.
pub(crate) fn read_replay(path: &Path) -> Option<(String, Vec<u32>)> {
    let text = std::fs::read_to_string(path).ok()?;
    let mut arm = None;
    let mut tape = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("arm ") {
            arm = Some(rest.trim().to_string());
        } else if let Some(rest) = line.strip_prefix("tape") {
            tape = rest
                .split_whitespace()
                .filter_map(|w| w.parse().ok())
                .collect();
        }
    }
    Some((arm?, tape))
}

pub(crate) fn replay_text(arm: &str, tape: &[u32]) -> String {
    let nums: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    format!("arm {}\ntape {}\n", arm, nums.join(" "))
}

fn write_replay(property: &Property, arm: &str, tape: &[u32], fail: &Fail, desc: &str) -> PathBuf {
    let dir = verif_home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut hash = 0xcbf2_9ce4_8422_2325u64;
    for &v in tape {
        hash = (hash ^ v as u64).wrapping_mul(0x100_0000_01b3);
    }
    let path = dir.join(format!("{}-{}-{:08x}.txt", property.id, arm, hash as u32));
    let mut text = String::new();
    let _ = writeln!(text, "# property {}: {}", property.id, fail.sig.replace('\n', " "));
    for line in fail.msg.lines().chain(desc.lines()) {
        let _ = writeln!(text, "# {}", line);
    }
    let _ = writeln!(text, "# replay: /verif/run.sh replay {} <this file>", property.id);
    if fail.sig == "miri" {
        let _ = writeln!(text, "interpreted");
    }
    text += &replay_text(arm, tape);
    let _ = std::fs::write(&path, text);
    path
}

fn replay(property: &Property, file: &Path) -> i32 {
    let Some((arm_name, tape)) = read_replay(file) else {
        eprintln!("cannot read {}", file.display());
        return 2;
    };
    // A probe of a known finding?
    if let Some(probe) = property.probes.iter().find(|p| p.key == arm_name) {
        return match guarded(probe.run) {
            Ok(()) => 0,
            Err(f) => {
                eprintln!("{}: {}", f.sig, f.msg);
                1
            }
        };
    }
    let Some(idx) = property.arms.iter().position(|a| a.name == arm_name) else {
        eprintln!("unknown arm {}", arm_name);
        return 2;
    };
    if std::fs::read_to_string(file).is_ok_and(|t| t.lines().any(|l| l == "interpreted")) {
        let dir = std::env::temp_dir().join(format!("pbt-miri-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let failure = miri::fails(property, &arm_name, &tape, &dir);
        let _ = std::fs::remove_dir_all(&dir);
        return match failure {
            Some(text) => {
                eprintln!("FAILS under the interpreter: {}", text);
                1
            }
            None => 0,
        };
    }
    crash::install("/dev/null");
    if let Some(cpu) = std::env::var("PBT_CPU").ok().and_then(|v| v.parse().ok()) {
        crash::limit_cpu(cpu);
    }
    let mut ctx = Ctx {
        want_sample: true,
        ..Ctx::default()
    };
    let result = run_in_slot(0, idx as u32, property.arms[idx].run, &tape, &mut ctx);
    eprintln!("{}", ctx.sample);
    match result {
        Ok(()) => {
            eprintln!("holds");
            0
        }
        Err(f) => {
            eprintln!("FAILS {}: {}", f.sig, f.msg);
            1
        }
    }
}

fn known_keys(property: &str) -> Vec<(String, String)> {
    let path = verif_home().join("known_findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else {
            continue;
        };
        let mut words = rest.splitn(3, ' ');
        let (Some(p), Some(k), what) = (words.next(), words.next(), words.next()) else {
            continue;
        };
        if p.strip_prefix("property=") == Some(property) {
            if let Some(key) = k.strip_prefix("key=") {
                out.push((key.to_string(), what.unwrap_or("").to_string()));
            }
        }
    }
    out
}

/// Runs all arms; writes the evidence file and `result` in `dir`.
fn worker(property: &Property, o: &Options, dir: &Path) -> i32 {
    let start = Instant::now();
    crash::install(dir.join("crash").to_str().unwrap());
    let done = AtomicBool::new(false);
    let mut lines = String::new();
    let mut violations = 0;
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut arms_json = vec![];
    std::thread::scope(|scope| {
        let done = &done;
        scope.spawn(move || {
            // Watchdog: a case that does not end is repeated by the supervisor in a process of its own.
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for slot in 0..crash::MAX_THREADS {
                    if crash::case_seconds(slot) >= HANG_SECS {
                        crash::dump_hang(slot);
                    }
                }
            }
        });
        for probe in &property.probes {
            let result = {
                crash::begin_case(0, u32::MAX, &[]);
                let r = guarded(probe.run);
                crash::end_case(0);
                r
            };
            evaluations += 1;
            if let Err(fail) = result {
                let known = known_keys(property.id);
                if let Some((_, what)) = known.iter().find(|(k, _)| k == probe.key) {
                    let _ = writeln!(
                        lines,
                        "KNOWN-FINDING: property={} {} [{}]",
                        property.id, what, probe.key
                    );
                } else {
                    violations += 1;
                    let path = write_replay(property, probe.key, &[], &fail, "");
                    let _ = writeln!(
                        lines,
                        "VIOLATION property={} replay={}",
                        property.id,
                        path.display()
                    );
                    let _ = writeln!(lines, "  {}: {}", fail.sig, first_lines(&fail.msg));
                }
            }
        }
        for (arm_idx, arm) in property.arms.iter().enumerate() {
            if o.only_arm.as_ref().is_some_and(|n| n != arm.name) {
                continue;
            }
            let total = if o.tier == "thorough" {
                arm.thorough
            } else {
                arm.quick
            };
            let total = (total as f64 * o.scale).ceil() as u32;
            let arm_start = Instant::now();
            let handles: Vec<_> = (0..THREADS)
                .map(|thread| {
                    let cases = total / THREADS as u32
                        + ((thread as u32) < total % THREADS as u32) as u32;
                    let seed = seed_bytes(o.seed, property.id, arm_idx, thread);
                    let run = arm.run;
                    let (lo, hi) = arm.tape;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(scope, move || {
                            run_thread(thread, arm_idx as u32, run, cases, seed, lo, hi)
                        })
                        .unwrap()
                })
                .collect();
            let mut stats = Stats::default();
            let mut failure = None;
            for h in handles {
                let (s, f) = h.join().expect("harness thread failed");
                stats.evaluations += s.evaluations;
                stats.nontrivial.extend(s.nontrivial);
                for (k, v) in s.labels {
                    *stats.labels.entry(k).or_insert(0) += v;
                }
                stats.samples.extend(s.samples);
                failure = failure.or(f);
            }
            evaluations += stats.evaluations;
            nontrivial += stats.nontrivial.len() as u64;
            for (k, v) in &stats.labels {
                *labels.entry(format!("{}: {}", arm.name, k)).or_insert(0) += v;
            }
            samples.extend(
                stats
                    .samples
                    .into_iter()
                    .take(2)
                    .map(|s| format!("[{}] {}", arm.name, s)),
            );
            arms_json.push(format!(
                "{{\"arm\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"seconds\": {:.2}}}",
                json_str(arm.name),
                stats.evaluations,
                stats.nontrivial.len(),
                arm_start.elapsed().as_secs_f64()
            ));
            if let Some((tape, first)) = failure {
                let shrinking = Instant::now();
                let tape = shrink::shrink(tape, SHRINK_BUDGET, &mut |t| {
                    if shrinking.elapsed().as_secs() >= SHRINK_SECS {
                        return false;
                    }
                    let mut ctx = Ctx::default();
                    matches!(run_in_slot(0, arm_idx as u32, arm.run, t, &mut ctx),
                        Err(f) if f.sig == first.sig)
                });
                let mut ctx = Ctx {
                    want_sample: true,
                    ..Ctx::default()
                };
                let fail = match run_in_slot(0, arm_idx as u32, arm.run, &tape, &mut ctx) {
                    Err(f) => f,
                    Ok(()) => {
                        // Not a function of the tape alone: an error of the harness.
                        let _ = writeln!(lines, "ERROR not reproducible: {}", first.msg);
                        first.clone()
                    }
                };
                violations += 1;
                let path = write_replay(property, arm.name, &tape, &fail, &ctx.sample);
                let _ = writeln!(
                    lines,
                    "VIOLATION property={} replay={}",
                    property.id,
                    path.display()
                );
                let _ = writeln!(lines, "  {}: {}", fail.sig, first_lines(&fail.msg));
                break;
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let interpreted = std::env::var_os("PBT_NO_MIRI").is_none() && miri::wanted(property);
    if violations == 0 && o.only_arm.as_deref().unwrap_or("miri") == "miri" && interpreted {
        let seconds = if o.tier == "thorough" { 300 } else { 45 };
        let outcome = miri::run(property, dir, o.seed, (seconds as f64 * o.scale).ceil() as u64);
        evaluations += outcome.cases;
        arms_json.push(format!(
            "{{\"arm\": \"under Miri\", \"cases\": {}, \"nontrivial\": {}, \"seconds\": {:.2}, \"not_run\": {}}}",
            outcome.cases,
            outcome.nontrivial,
            outcome.seconds,
            outcome.skipped.as_deref().map_or("null".into(), json_str)
        ));
        if let Some(why) = outcome.skipped {
            let _ = writeln!(lines, "note: the arms under Miri did not run to their end: {}", why);
        }
        if let Some((arm, tape, text)) = outcome.failure {
            violations += 1;
            let fail = Fail::new("miri", text);
            let path = write_replay(property, &arm, &tape, &fail, "");
            let _ = writeln!(lines, "VIOLATION property={} replay={}", property.id, path.display());
            let _ = writeln!(lines, "  {}", first_lines(&fail.msg));
        }
    }
    write_evidence(
        property,
        o,
        evaluations,
        nontrivial,
        &labels,
        &samples,
        &arms_json,
        start.elapsed().as_secs_f64(),
        violations,
    );
    let _ = writeln!(
        lines,
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        property.id,
        evaluations,
        nontrivial,
        violations,
        start.elapsed().as_secs_f64()
    );
    if std::fs::write(dir.join("result"), lines).is_err() {
        return 2;
    }
    (violations > 0) as i32
}

fn first_lines(s: &str) -> String {
    let s: String = s.lines().take(6).collect::<Vec<_>>().join(" | ");
    s.chars().take(600).collect()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    property: &Property,
    o: &Options,
    evaluations: u64,
    nontrivial: u64,
    labels: &BTreeMap<String, u64>,
    samples: &[String],
    arms: &[String],
    wall: f64,
    violations: u64,
) {
    let labels: Vec<String> = labels
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
    let samples: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let assumptions: Vec<String> = property.assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"arms\": [{}],\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(property.id),
        json_str(&o.tier),
        o.seed,
        evaluations,
        nontrivial,
        json_str(property.rule),
        arms.join(", "),
        labels.join(", "),
        samples.join(",\n   "),
        assumptions.join(", "),
        wall,
        violations
    );
    let dir = verif_home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", property.id)), text);
}

type ThreadResult = (Stats, Option<(Vec<u32>, Fail)>);

fn run_thread(
    slot: usize,
    arm: u32,
    run: RunFn,
    cases: u32,
    seed: [u8; 32],
    lo: usize,
    hi: usize,
) -> ThreadResult {
    if cases == 0 {
        return (Stats::default(), None);
    }
    let config = Config {
        cases,
        max_shrink_iters: 64,
        failure_persistence: None,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
    let mut runner = TestRunner::new_with_rng(config, rng);
    let strategy = proptest::collection::vec(proptest::num::u32::ANY, lo..=hi).no_shrink();
    let stats = RefCell::new(Stats::default());
    let failed: RefCell<Option<Fail>> = RefCell::new(None);
    let result = runner.run(&strategy, |tape| {
        let mut ctx = Ctx::default();
        {
            let s = stats.borrow();
            ctx.want_sample = slot == 0 && s.samples.len() < 2 && s.evaluations > 20;
        }
        let result = run_in_slot(slot, arm, run, &tape, &mut ctx);
        let mut s = stats.borrow_mut();
        s.evaluations += 1;
        for (k, v) in ctx.labels {
            *s.labels.entry(k).or_insert(0) += v;
        }
        if ctx.nontrivial {
            s.nontrivial.insert(ctx.key);
            if ctx.want_sample && !ctx.sample.is_empty() {
                s.samples.push(ctx.sample);
            }
        }
        match result {
            Ok(()) => Ok(()),
            Err(f) => {
                let reason = f.sig.clone();
                *failed.borrow_mut() = Some(f);
                Err(TestCaseError::fail(reason))
            }
        }
    });
    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(_, tape)) => failed.into_inner().map(|f| (tape, f)),
        Err(TestError::Abort(reason)) => panic!("proptest aborted: {}", reason),
    };
    (stats.into_inner(), failure)
}

fn supervise(property: &Property, o: &Options) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}", property.id, std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create {}", dir.display());
        return 2;
    }
    let code = supervise_in(property, o, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise_in(property: &Property, o: &Options, dir: &Path, start: Instant) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(&exe);
    cmd.arg(property.id)
        .args(["--tier", &o.tier])
        .args(["--seed", &o.seed.to_string()])
        .args(["--scale", &o.scale.to_string()]);
    if let Some(arm) = &o.only_arm {
        cmd.args(["--arm", arm]);
    }
    let status = cmd
        .arg("--worker")
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .status();
    let code = match status {
        Ok(s) => s.code(),
        Err(e) => {
            eprintln!("ERROR cannot run the worker: {}", e);
            return 2;
        }
    };
    match code {
        Some(c @ (0 | 1)) => {
            let Ok(text) = std::fs::read_to_string(dir.join("result")) else {
                eprintln!("ERROR the worker left no result");
                return 2;
            };
            print!("{}", text);
            if text.contains("ERROR ") {
                return 2;
            }
            c
        }
        Some(c @ (crash::EXIT_CRASH | crash::EXIT_ALLOC | crash::EXIT_HANG)) => {
            let text = std::fs::read_to_string(dir.join("crash")).unwrap_or_default();
            for line in text.lines() {
                let nums: Vec<u32> = line
                    .split_whitespace()
                    .filter_map(|w| w.parse().ok())
                    .collect();
                let Some((&arm_idx, tape)) = nums.split_first() else {
                    continue;
                };
                let Some(arm) = property.arms.get(arm_idx as usize) else {
                    continue;
                };
                let what = if c == crash::EXIT_CRASH {
                    "the process crashed (memory fault, stack overflow or abort)"
                } else if c == crash::EXIT_HANG {
                    "one case used more than its 40 s of processor time (120 s for huge grammars): the operation does not end"
                } else {
                    "one small case allocated more than its budget of memory (3 GiB, 24 GiB for huge grammars): the operation does not end"
                };
                // The same case must crash in a process of its own.
                let file = dir.join("case.txt");
                let crashes = |tape: &[u32], cpu: u64| {
                    if std::fs::write(&file, replay_text(arm.name, tape)).is_err() {
                        return false;
                    }
                    let status = Command::new(&exe)
                        .arg(property.id)
                        .arg("--replay")
                        .arg(&file)
                        .env("PBT_CPU", cpu.to_string())
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .status();
                    if c == crash::EXIT_HANG {
                        // Ended by the limit.
                        matches!(status, Ok(s) if s.code().is_none())
                    } else {
                        matches!(status, Ok(s) if !matches!(s.code(), Some(0)))
                    }
                };
                if !crashes(tape, HANG_SECS) {
                    continue;
                }
                let budget = match c {
                    crash::EXIT_CRASH => 150,
                    crash::EXIT_ALLOC => 10,
                    _ => 24,
                };
                let mut small = shrink::shrink(tape.to_vec(), budget, &mut |t| crashes(t, SHORT_HANG_SECS));
                if c == crash::EXIT_HANG && !crashes(&small, HANG_SECS) {
                    small = tape.to_vec();
                }
                let tape = small;
                let fail = Fail::new("crash", what);
                let path = write_replay(property, arm.name, &tape, &fail, "");
                write_evidence(
                    property,
                    o,
                    1,
                    1,
                    &BTreeMap::new(),
                    &[format!("[{}] tape {:?}", arm.name, tape)],
                    &[],
                    start.elapsed().as_secs_f64(),
                    1,
                );
                println!("VIOLATION property={} replay={}", property.id, path.display());
                println!("  {}", what);
                return 1;
            }
            println!("ERROR the worker ended with code {} and no case repeats it", c);
            2
        }
        other => {
            println!("ERROR the worker ended abnormally: {:?}", other);
            2
        }
    }
}
