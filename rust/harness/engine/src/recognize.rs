//! Recognition, prefixes, lookahead, forests.

use crate::engine::*;
use crate::reference::*;
use crate::spec::{self, Shape, Spec};
use gearley_forest::NullForest;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};

pub const CLASS: &str = "grammars in which no symbol derives itself (infinite ambiguity is excluded by the documentation)";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "A case is a generated grammar (1 to 8 nonterminals with any rule shapes, unused \
                   and unproductive symbols, up to 90 extra terminals, shuffled declarations) and \
                   an input (sentences, edited sentences, random strings); the final verdict is \
                   compared with the reference. Non-trivial: at least 3 tokens, and either the \
                   input is accepted or its rejection happens after 2 accepted tokens.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "general", quick: 30_000, thorough: 1_500_000, tape: (60, 400), run: c01_general },
                Arm { name: "nullable", quick: 15_000, thorough: 700_000, tape: (60, 400), run: c01_nullable },
                Arm { name: "long", quick: 2_500, thorough: 100_000, tape: (60, 500), run: c01_long },
                Arm { name: "large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c01_large },
                Arm { name: "huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c01_huge },
                Arm { name: "very-long", quick: 600, thorough: 6_000, tape: (60, 300), run: crate::long::verdicts },
            ],
            probes: vec![],
        },
        Property {
            id: "C02",
            rule: "A case is a generated grammar and input, as for C01, read token by token; at \
                   every location acceptance and the finished state are compared with the \
                   reference chart. Non-trivial: at least 3 accepted locations.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "prefixes", quick: 40_000, thorough: 2_000_000, tape: (60, 400), run: c02_prefixes },
                Arm { name: "all-tokens", quick: 8_000, thorough: 400_000, tape: (60, 400), run: c02_all_tokens },
                Arm { name: "prefixes-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c02_large },
                Arm { name: "prefixes-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c02_huge },
                Arm { name: "very-long", quick: 600, thorough: 6_000, tape: (60, 300), run: crate::long::verdicts },
            ],
            probes: vec![],
        },
        Property {
            id: "C03",
            rule: "A case is a generated grammar and input, read once without hints and again \
                   with the next token (or the end of input) announced at a generated subset of \
                   locations, in a third of the cases after another hint that is replaced or taken \
                   back; verdicts and the sorted list of parse trees must be equal. \
                   Non-trivial: at least 2 hints were given and the input was accepted.",
            assumptions: &[CLASS, "a hint names the token that is really read next"],
            arms: vec![
                Arm { name: "hints", quick: 40_000, thorough: 2_000_000, tape: (60, 400), run: c03_hints },
                Arm { name: "hints-nullable", quick: 15_000, thorough: 700_000, tape: (60, 400), run: c03_nullable },
                Arm { name: "hints-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c03_large },
                Arm { name: "hints-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c03_huge },
                Arm { name: "very-long", quick: 600, thorough: 6_000, tape: (60, 300), run: crate::long::hinted },
            ],
            probes: vec![],
        },
        Property {
            id: "C04",
            rule: "A case is a generated grammar and accepted input with at most 300 derivations; \
                   the recorded forest is expanded and compared, as a sorted list, with the trees \
                   of the reference enumerator. Non-trivial: at least 3 tokens.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "trees", quick: 35_000, thorough: 1_500_000, tape: (60, 400), run: c04_trees },
                Arm { name: "trees-nullable", quick: 25_000, thorough: 1_000_000, tape: (60, 400), run: c04_nullable },
                Arm { name: "trees-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c04_large },
                Arm { name: "trees-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c04_huge },
            ],
            probes: vec![],
        },
    ]
}

pub fn note(ctx: &mut Ctx, spec: &Spec) {
    for f in spec::features(spec) {
        ctx.label(f);
    }
}

pub fn null_rec(subject: &Subject) -> Rec<'_, NullForest, DefaultPerfHint> {
    Recognizer::with_forest(subject, NullForest)
}

pub fn recorded(subject: &Subject) -> (Rec<'_, Recorder, DefaultPerfHint>, Recorder) {
    let recorder = Recorder::new();
    (Recognizer::with_forest(subject, recorder.clone()), recorder)
}

pub fn nullable_shape() -> Shape {
    Shape { nulls: 14, nonterminals: 5, ..Shape::default() }
}

fn membership(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, max);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let mut rec = null_rec(&subject);
    let verdict = run(&mut rec, &subject, &lat, |_| {});
    let got = verdict.read == input.len() && verdict.finished.last() == Some(&true);
    let expected = reference.accepted();
    ensure_eq!(got, expected, "membership", "acceptance of {} by {}", spec.words(&input), spec.text());
    ctx.label(if expected { "accepted" } else { "rejected" });
    ctx.label_if(expected && input.len() >= 100, "accepted, 100 tokens or more");
    ctx.label_if(expected && input.len() >= 300, "accepted, 300 tokens or more");
    ctx.nontrivial(input.len() >= 3 && (expected || reference.viable() >= 2));
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{} on {}: {}", spec.text(), spec.words(&input), expected));
    Ok(())
}

fn c01_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    membership(tape, ctx, Shape::default(), 16)
}
fn c01_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    membership(tape, ctx, nullable_shape(), 12)
}
fn c01_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    membership(tape, ctx, Shape { nonterminals: 8, ..Shape::default() }, 60)
}

fn c02_prefixes(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = if tape.chance(1, 3) { nullable_shape() } else { Shape::default() };
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 18);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let mut rec = null_rec(&subject);
    let verdict = run(&mut rec, &subject, &lat, |_| {});
    ensure_eq!(verdict.read, reference.viable(), "prefix", "accepted tokens of {} by {}", spec.words(&input), spec.text());
    let finished: Vec<bool> = (0..=reference.viable()).map(|i| reference.sentence_at(i)).collect();
    ensure_eq!(verdict.finished, finished, "finished", "finished states over {} by {}", spec.words(&input), spec.text());
    ctx.nontrivial(verdict.read >= 3);
    ctx.label_if(verdict.read < input.len(), "rejected before the end");
    ctx.label_if(finished.iter().filter(|&&f| f).count() > 1, "several finished locations");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{} on {}: {:?}", spec.text(), spec.words(&input), verdict));
    Ok(())
}

/// Every token of the grammar is tried after a viable prefix.
fn c02_all_tokens(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let wide = tape.chance(1, 4);
    let spec = spec::grammar(tape, Shape { wide, ..Shape::default() });
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 8);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let at = tape.below(reference.viable() + 1);
    let predicted = reference.predicted(at);
    let mut tried = 0;
    for t in spec.terminals() {
        let Some(sym) = subject.inner(t) else { continue };
        let mut rec = null_rec(&subject);
        let prefix: Lattice = lat[..at].to_vec();
        let verdict = run(&mut rec, &subject, &prefix, |_| {});
        ensure_eq!(verdict.read, at, "prefix", "accepted tokens of {} by {}", spec.words(&input[..at]), spec.text());
        rec.begin_earleme();
        rec.scan(sym, 0);
        let got = rec.end_earleme();
        ensure_eq!(
            got,
            predicted.contains(&t),
            "next-token",
            "acceptance of {} after {} by {}",
            spec.name(t),
            spec.words(&input[..at]),
            spec.text()
        );
        tried += 1;
    }
    ctx.count("tokens tried", tried);
    ctx.nontrivial(at >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input, at));
    ctx.describe(|| format!("{} after {}", spec.text(), spec.words(&input[..at])));
    Ok(())
}

pub const TREES: u64 = 300;

/// Reads the input with hints at the chosen locations and returns the verdict and the trees.
fn hinted(
    subject: &Subject,
    input: &[usize],
    lat: &Lattice,
    hints: &[bool],
    mistakes: &[Option<usize>],
) -> Result<(Verdict, Option<Vec<std::rc::Rc<Tree>>>), Fail> {
    let (mut rec, recorder) = recorded(subject);
    let mut verdict = Verdict::default();
    if !start_hinted(&mut rec, subject, input, hints, mistakes) {
        return Ok((verdict, None));
    }
    verdict.finished.push(rec.is_finished());
    for i in 0..input.len() {
        rec.begin_earleme();
        mistaken(&mut rec, subject, mistakes, i + 1);
        if hints[i + 1] {
            set_next(&mut rec, subject, input, i + 1);
        }
        scan_all(&mut rec, subject, &lat[i]);
        if !rec.end_earleme() {
            return Ok((verdict, None));
        }
        verdict.read += 1;
        verdict.finished.push(rec.is_finished());
    }
    let trees = match rec.finished_node() {
        Some(root) => {
            let record = recorder.0.borrow();
            Some(Expand::new(subject, &record, TREES as usize * 4).finished(root)?)
        }
        None => None,
    };
    Ok((verdict, trees))
}

/// A hint of another symbol, taken back or about to be replaced.
fn mistaken(rec: &mut Rec<'_, Recorder, DefaultPerfHint>, subject: &Subject, mistakes: &[Option<usize>], at: usize) {
    let Some(&Some(choice)) = mistakes.get(at) else { return };
    let sym = match choice / 2 {
        t if t < subject.built.ext.len() => subject.inner(t),
        _ => Some(subject.grammar.eof()),
    };
    let Some(sym) = sym else { return };
    hint(rec, sym);
    if choice % 2 == 0 {
        rec.lookahead().clear_hint();
    }
}

fn start_hinted(
    rec: &mut Rec<'_, Recorder, DefaultPerfHint>,
    subject: &Subject,
    input: &[usize],
    hints: &[bool],
    mistakes: &[Option<usize>],
) -> bool {
    rec.begin_earleme();
    mistaken(rec, subject, mistakes, 0);
    if hints[0] {
        set_next(rec, subject, input, 0);
    }
    let sof = rec.grammar().sof();
    rec.scan(sof, 0);
    rec.end_earleme()
}

fn set_next(rec: &mut Rec<'_, Recorder, DefaultPerfHint>, subject: &Subject, input: &[usize], at: usize) {
    match input.get(at) {
        Some(&t) => {
            if let Some(sym) = subject.inner(t) {
                hint(rec, sym);
            }
        }
        None => {
            let eof = subject.grammar.eof();
            hint(rec, eof);
        }
    }
}

fn c03(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 12);
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let mode = tape.below(3);
    let hints: Vec<bool> = (0..=input.len())
        .map(|i| match mode {
            0 => true,
            1 => i < input.len(),
            _ => tape.chance(1, 2),
        })
        .collect();
    // Hints that are given first, and then taken back or replaced by the right one.
    let mut mistakes: Vec<Option<usize>> = vec![];
    if tape.chance(1, 3) {
        let terminals = spec.terminals();
        for &given in &hints {
            let wrong = match tape.below(3) {
                0 => None,
                1 => Some(*tape.pick(&terminals)),
                _ => Some(spec.nsyms),
            };
            let back = !given || tape.chance(1, 4);
            mistakes.push(wrong.map(|sym| sym * 2 + usize::from(!back)));
        }
        // A token that no rule uses cannot be announced, so nothing would replace the mistake.
        for (i, m) in mistakes.iter_mut().enumerate() {
            if input.get(i).is_some_and(|&t| subject.inner(t).is_none()) {
                *m = m.map(|c| c / 2 * 2);
            }
        }
    }
    let (plain, plain_trees) = hinted(&subject, &input, &lat, &vec![false; input.len() + 1], &[])?;
    let (with, with_trees) = hinted(&subject, &input, &lat, &hints, &mistakes)?;
    let what = || format!("{} by {} with hints {:?} after mistakes {:?}", spec.words(&input), spec.text(), hints, mistakes);
    let done = |v: &Verdict| v.read == input.len() && v.finished.last() == Some(&true);
    ensure_eq!(done(&with), reference.accepted(), "acceptance", "acceptance of {}", what());
    ensure_eq!(done(&plain), reference.accepted(), "acceptance", "unhinted acceptance of {}", what());
    // A hint of a token that cannot follow may stop the parse one location early, never earlier,
    // and never lets it run further.
    let viable = reference.viable();
    ensure_eq!(plain.read, viable, "prefix", "accepted tokens without hints of {}", what());
    let early = hints[viable] && !reference.accepted();
    ensure!(
        with.read == viable || early && with.read + 1 == viable,
        "prefix",
        "{} accepted tokens with hints, {} without: {}",
        with.read,
        viable,
        what()
    );
    if done(&plain) {
        ensure_eq!(with_trees, plain_trees, "trees", "trees of {}", what());
        ensure_eq!(with_trees, Some(reference.all()), "trees", "trees of {} against the reference", what());
    }
    let given = hints.iter().filter(|&&h| h).count();
    ctx.nontrivial(given >= 2 && done(&plain));
    ctx.label_if(done(&plain), "accepted");
    ctx.label_if(mode < 2, "hint at every location");
    ctx.label_if(mistakes.iter().any(|m| m.is_some()), "hints replaced or taken back");
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &hints));
    ctx.describe(what);
    Ok(())
}

fn c03_hints(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c03(tape, ctx, Shape::default())
}
fn c03_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c03(tape, ctx, nullable_shape())
}

fn c04(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let Some(input) = spec::accepted(tape, &spec, 14) else {
        ctx.label("skipped: no short sentence");
        return Ok(());
    };
    let salt = if tape.chance(1, 2) { 0 } else { tape.raw() };
    let lat = lattice(&input, |i| (i as u32).wrapping_add(salt));
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let (mut rec, recorder) = recorded(&subject);
    let verdict = run(&mut rec, &subject, &lat, |l| recorder.at(l));
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    ensure!(verdict.read == input.len(), "accepted", "sentence rejected: {}", what());
    let Some(root) = rec.finished_node() else {
        return Err(Fail::new("accepted", format!("no finished node: {}", what())));
    };
    let record = recorder.0.borrow();
    if let Some(text) = &record.protocol {
        return Err(Fail::new("protocol", format!("{}: {}", text, what())));
    }
    let got = Expand::new(&subject, &record, TREES as usize * 4).finished(root)?;
    let expected = reference.all();
    ensure_eq!(got, expected, "trees", "trees of {}", what());
    ctx.nontrivial(input.len() >= 3);
    ctx.label_if(total > 1, "ambiguous");
    ctx.label_if(total > 10, "more than 10 trees");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} trees, first {:?}", what(), total, expected.first()));
    Ok(())
}

fn c04_trees(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c04(tape, ctx, Shape::default())
}
fn c04_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c04(tape, ctx, nullable_shape())
}

// Larger grammars and longer inputs.

fn c01_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c01_nullable(tape, ctx))
}

fn c02_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c02_prefixes(tape, ctx))
}

fn c03_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c03_nullable(tape, ctx))
}

fn c04_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c04_nullable(tape, ctx))
}

fn c01_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c01_nullable(tape, ctx))
}

fn c02_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c02_prefixes(tape, ctx))
}

fn c03_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c03_nullable(tape, ctx))
}

fn c04_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c04_nullable(tape, ctx))
}
