//! Cases under the Miri interpreter, which finds undefined behaviour (unaligned or out-of-bounds
//! access, use of uninitialized memory) that has no effect in a normal run.
//!
//! The interpreted process runs single-threaded over tapes from a splitmix generator. Before each
//! case it writes its tape to the file `case` (in replay format), after each case the number of
//! cases to the file `count`.

use crate::driver::{guarded, install_panic_hook, read_replay, replay_text, seed_bytes, verif_home};
use crate::{shrink, Ctx, Property, Tape};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The arms that also run under Miri: small cases over the code that depends on memory layout.
pub const ARMS: &[(&str, &str)] = &[
    ("C09", "history"),
    ("C09", "far"),
    ("C11", "words"),
    ("C11", "strings"),
    ("C27", "history-words"),
    ("C27", "history-strings"),
];

/// Runs cases for some time, or one case from a file. Exits with 1 if a case fails.
pub fn interpret(property: &Property, dir: &Path, seed: u64, seconds: u64, only: Option<&Path>) -> i32 {
    install_panic_hook();
    if let Some(file) = only {
        let Some((name, tape)) = read_replay(file) else { return 2 };
        let Some(arm) = property.arms.iter().find(|a| a.name == name) else { return 2 };
        return match guarded(|| (arm.run)(&mut Tape::new(&tape), &mut Ctx::default())) {
            Ok(()) => 0,
            Err(f) => {
                eprintln!("FAILS {}: {}", f.sig, f.msg);
                1
            }
        };
    }
    let start = Instant::now();
    let mut count = 0u64;
    let mut nontrivial = 0u64;
    while start.elapsed() < Duration::from_secs(seconds) {
        for (arm_idx, arm) in property.arms.iter().enumerate() {
            if !ARMS.contains(&(property.id, arm.name)) {
                continue;
            }
            let bytes = seed_bytes(seed ^ count << 20, property.id, arm_idx, 99);
            let mut state = u64::from_le_bytes(bytes[..8].try_into().unwrap());
            let mut next = || {
                state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = state;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z >> 32) as u32
            };
            // Mostly short ones: the interpreter is slow.
            let len = arm.tape.0 + next() as usize % ((arm.tape.1 - arm.tape.0) / 4 + 1);
            let tape: Vec<u32> = (0..len).map(|_| next()).collect();
            if std::fs::write(dir.join("case"), replay_text(arm.name, &tape)).is_err() {
                return 2;
            }
            let mut ctx = Ctx::default();
            if let Err(f) = guarded(|| (arm.run)(&mut Tape::new(&tape), &mut ctx)) {
                eprintln!("FAILS {}: {}", f.sig, f.msg);
                return 1;
            }
            count += 1;
            nontrivial += ctx.nontrivial as u64;
            let _ = std::fs::write(dir.join("count"), format!("{} {}", count, nontrivial));
        }
    }
    0
}

/// What the interpreted cases were.
pub struct Outcome {
    pub cases: u64,
    pub nontrivial: u64,
    pub seconds: f64,
    /// Why it did not run to its end, if so.
    pub skipped: Option<String>,
    /// The arm, the tape and the description of a failing case.
    pub failure: Option<(String, Vec<u32>, String)>,
}

pub fn wanted(property: &Property) -> bool {
    ARMS.iter().any(|(id, _)| *id == property.id)
}

/// Runs `cargo miri` on this binary; returns its exit code, if it ended by itself in time, and the
/// end of its error output.
fn cargo_miri(property: &Property, args: &[&str], dir: &Path, limit: Duration) -> (Option<i32>, String) {
    let Ok(exe) = std::env::current_exe() else { return (None, "no executable".into()) };
    let bin = exe.file_name().unwrap_or_default().to_string_lossy().into_owned();
    let home = verif_home().join("rust");
    let log = dir.join("miri-log");
    let Ok(file) = std::fs::File::create(&log) else { return (None, "no log".into()) };
    let target = home.join("target");
    let child = Command::new("timeout")
        .args(["-k", "5", &limit.as_secs().to_string()])
        .args(["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", &bin, "--", property.id])
        .args(args)
        .current_dir(&home)
        .env_remove("RUSTUP_TOOLCHAIN")
        .env_remove("RUSTFLAGS")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("CARGO_TARGET_DIR", target.join("miri"))
        .env("XDG_CACHE_HOME", target.join("miri-sysroot"))
        .env("RUST_BACKTRACE", "0")
        .env(
            "MIRIFLAGS",
            "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks",
        )
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(file)
        .status();
    let text = std::fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let lines: Vec<&str> = text
        .lines()
        .skip_while(|l| !l.starts_with("error") && !l.starts_with("FAILS"))
        .take(12)
        .collect();
    (child.ok().and_then(|s| s.code()), lines.join("\n"))
}

/// Whether the interpreter itself reports a failure, as opposed to a build that fails.
fn is_report(code: Option<i32>, text: &str) -> bool {
    code == Some(1) && (text.contains("Undefined Behavior") || text.contains("FAILS "))
}

pub fn fails(property: &Property, arm: &str, tape: &[u32], dir: &Path) -> Option<String> {
    let file = dir.join("one");
    std::fs::write(&file, replay_text(arm, tape)).ok()?;
    let (code, text) = cargo_miri(
        property,
        &["--miri", dir.to_str()?, "--miri-case", file.to_str()?],
        dir,
        Duration::from_secs(120),
    );
    is_report(code, &text).then_some(text)
}

pub fn run(property: &Property, dir: &Path, seed: u64, seconds: u64) -> Outcome {
    let start = Instant::now();
    // The first run also builds the interpreter's standard library.
    let (code, text) = cargo_miri(
        property,
        &[
            "--miri",
            dir.to_str().unwrap_or_default(),
            "--seed",
            &seed.to_string(),
            "--miri-seconds",
            &seconds.to_string(),
        ],
        dir,
        Duration::from_secs(seconds + 240),
    );
    let counts = std::fs::read_to_string(dir.join("count")).unwrap_or_default();
    let mut counts = counts.split_whitespace().filter_map(|w| w.parse::<u64>().ok());
    let mut out = Outcome {
        cases: counts.next().unwrap_or(0),
        nontrivial: counts.next().unwrap_or(0),
        seconds: 0.0,
        skipped: None,
        failure: None,
    };
    if is_report(code, &text) {
        if let Some((arm, tape)) = read_replay(&dir.join("case")) {
            // The same case must fail again, in a process of its own.
            if fails(property, &arm, &tape, dir).is_some() {
                let small = shrink::shrink(tape, 20, &mut |t| fails(property, &arm, t, dir).is_some());
                if let Some(text) = fails(property, &arm, &small, dir) {
                    out.failure = Some((arm, small, text));
                }
            }
        }
    }
    if code != Some(0) && out.failure.is_none() {
        out.skipped = Some(format!("exit code {:?}: {}", code, text.lines().next().unwrap_or("")));
    }
    out.seconds = start.elapsed().as_secs_f64();
    out
}
