//! The engine's checks once more, built with the recognizer's `log` feature and a logger that
//! writes out every message, and with the state printed at generated moments.
#![allow(dead_code, unused_imports)]

#[path = "../../engine/src/engine.rs"]
mod engine;
#[path = "../../engine/src/evaluate.rs"]
mod evaluate;
#[path = "../../engine/src/extra.rs"]
mod extra;
#[path = "../../engine/src/groups.rs"]
mod groups;
#[path = "../../engine/src/history.rs"]
mod history;
#[path = "../../engine/src/long.rs"]
mod long;
#[path = "../../engine/src/progress.rs"]
mod progress;
#[path = "../../engine/src/recognize.rs"]
mod recognize;
#[path = "../../engine/src/reference.rs"]
mod reference;
#[path = "../../engine/src/spec.rs"]
mod spec;
#[path = "../../engine/src/tables.rs"]
mod tables;
#[path = "../../engine/src/utils.rs"]
mod utils;

use crate::engine::*;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::Shape;
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::rc::Rc;

thread_local! {
    static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
    static MESSAGES: Cell<u64> = const { Cell::new(0) };
}

struct Everything;

impl log::Log for Everything {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, record: &log::Record<'_>) {
        MESSAGES.with(|m| m.set(m.get() + 1));
        // A message that is written while another one is goes to a buffer of its own.
        TEXT.with(|text| match text.try_borrow_mut() {
            Ok(mut text) => {
                text.clear();
                let _ = write!(text, "{}", record.args());
            }
            Err(_) => drop(record.args().to_string()),
        });
    }
    fn flush(&self) {}
}

fn shown(value: &impl std::fmt::Debug, ctx: &mut Ctx) {
    let text = format!("{:?}", value);
    ctx.count("characters printed", text.len() as u64);
}

fn printed(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = if tape.chance(1, 2) { nullable_shape() } else { Shape::default() };
    let spec = spec::grammar(tape, shape);
    let input = spec::input(tape, &spec, 12);
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    if reference.total() > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let before = MESSAGES.with(|m| m.get());
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let hinted = tape.chance(1, 3);
    let (mut rec, recorder) = recorded(&subject);
    let mut read = 0;
    let mut finished = vec![];
    let print = |rec: &Rec<'_, Recorder, _>, ctx: &mut Ctx, tape: &mut Tape<'_>| {
        if tape.chance(1, 3) {
            shown(rec, ctx);
            ctx.label("recognizer printed");
        }
    };
    if tape.chance(1, 8) {
        shown(&subject.grammar, ctx);
    }
    print(&rec, ctx, tape);
    for at in 0..=lat.len() {
        rec.begin_earleme();
        print(&rec, ctx, tape);
        if hinted {
            let next = match lat.get(at) {
                Some(tokens) => subject.inner(tokens[0].0),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(&mut rec, sym);
            }
        }
        if at == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, &subject, &lat[at - 1]);
        }
        print(&rec, ctx, tape);
        if !rec.end_earleme() {
            print(&rec, ctx, tape);
            break;
        }
        print(&rec, ctx, tape);
        read = at;
        finished.push(rec.is_finished());
    }
    let accepted = read == lat.len() && finished.last() == Some(&true);
    ensure_eq!(accepted, reference.accepted(), "acceptance", "acceptance of {}", what());
    if !hinted {
        ensure_eq!(read, reference.viable(), "prefix", "accepted tokens of {}", what());
        let expected: Vec<bool> = (0..=read).map(|i| reference.sentence_at(i)).collect();
        ensure_eq!(finished, expected, "finished", "finished states over {}", what());
    }
    if accepted {
        let root = rec.finished_node().unwrap();
        if !input.is_empty() {
            let got = Expand::new(&subject, &recorder.0.borrow(), TREES as usize * 4).finished(root)?;
            ensure_eq!(got, reference.all(), "trees", "trees of {}", what());
        }
        for compact in [false, true] {
            let mut texts = vec![];
            if compact {
                let mut rec = Recognizer::with_forest(&subject, compact_bocage::Bocage::fresh(&subject, 0));
                run(&mut rec, &subject, &lat, |_| {});
                shown(&rec, ctx);
                texts.push(format!("{:?}", rec.into_forest()));
            } else {
                let mut rec = Recognizer::with_forest(&subject, simple_bocage::Bocage::fresh(&subject, 0));
                run(&mut rec, &subject, &lat, |_| {});
                shown(&rec, ctx);
                texts.push(format!("{:?}", rec.into_forest()));
            }
            ctx.count("characters printed", texts.iter().map(|t| t.len() as u64).sum());
        }
        ctx.label("accepted");
    }
    ctx.count("messages", MESSAGES.with(|m| m.get()) - before);
    ctx.nontrivial(read >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input, hinted));
    ctx.describe(what);
    Ok(())
}

fn main() {
    let _ = log::set_logger(&Everything);
    log::set_max_level(log::LevelFilter::Trace);
    let mut arms = vec![Arm { name: "printed", quick: 12_000, thorough: 500_000, tape: (60, 400), run: printed }];
    let mut all = vec![];
    all.extend(recognize::properties());
    all.extend(evaluate::properties());
    all.extend(groups::properties());
    all.extend(history::properties());
    all.extend(progress::properties());
    all.extend(tables::properties());
    all.extend(utils::properties());
    for p in all {
        for arm in p.arms {
            if arm.name.contains("large") || arm.name.contains("long") || ["C22", "C24"].contains(&p.id) {
                continue;
            }
            arms.push(Arm {
                name: Box::leak(format!("{} {}", p.id, arm.name).into_boxed_str()),
                quick: arm.quick / 20,
                thorough: arm.thorough / 20,
                ..arm
            });
        }
    }
    pbt::main_with(vec![Property {
        id: "C33",
        rule: "The recognizer and the parsing functions are built with their log feature, and a \
               logger writes out every message at the most detailed level. Arm printed: a case is \
               a generated grammar and input, with the recognizer, grammar and forests printed at \
               generated moments; verdicts, finished states and trees are compared with the \
               reference. Other arms: the cases of the named check, with its comparisons, under \
               the same logger. Non-trivial: as in the named check; in arm printed, at least 3 \
               accepted tokens.",
        assumptions: &[CLASS],
        arms,
        probes: vec![],
    }])
}
