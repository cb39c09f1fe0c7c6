//! Histories: reset, rejected tokens, alternative tokens, configurations, retained sets.

use crate::engine::*;
use crate::groups::{unit_grammar, Track};
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Rule, Shape, Spec};
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use gearley_vec2d::Vec2dCapacity;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::rc::Rc;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            rule: "A case is a generated grammar, a history (a prefix, rejected tokens, an open \
                   location with tokens read, groups taken but not completed, pending hints, \
                   earlier resets), a reset, and an input with hints; everything that can be \
                   observed at every location, the completion groups, the trees and the values of \
                   both forests are compared with a new recognizer that reads the same input. \
                   Non-trivial: at least 2 tokens were read before the reset and 2 after it.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "reset", quick: 40_000, thorough: 1_500_000, tape: (80, 450), run: c14_reset },
                Arm { name: "reset-values", quick: 15_000, thorough: 500_000, tape: (80, 450), run: c14_values },
                Arm { name: "reset-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c14_large },
                Arm { name: "reset-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c14_huge },
                Arm { name: "very-long", quick: 150, thorough: 5_000, tape: (60, 300), run: crate::long::reset },
            ],
            probes: vec![],
        },
        Property {
            id: "C15",
            rule: "A case is a generated grammar and input in which locations are closed, one or \
                   more times, on generated tokens that no viable continuation has; each such \
                   attempt must fail and leave everything observable as it was, and the run must \
                   then equal one without the attempts, trees included. Non-trivial: at least 2 \
                   rejected attempts and 2 accepted tokens.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "rejected", quick: 40_000, thorough: 1_500_000, tape: (80, 450), run: c15_general },
                Arm { name: "rejected-nullable", quick: 15_000, thorough: 500_000, tape: (80, 450), run: c15_nullable },
                Arm { name: "rejected-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c15_large },
                Arm { name: "rejected-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c15_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C21",
            rule: "A case is a generated grammar and a sequence of token sets (the tokens of a \
                   sentence with generated others added, read in any order); verdicts at every \
                   location and the trees are compared with the reference over the sets and with \
                   the union of separate runs over every path. Non-trivial: at least 2 locations \
                   with several acceptable tokens and at least 2 paths accepted.",
            assumptions: &[CLASS, "the tokens read at one location are of different kinds"],
            arms: vec![
                Arm { name: "alternatives", quick: 40_000, thorough: 1_500_000, tape: (80, 450), run: c21_general },
                Arm { name: "alternatives-nullable", quick: 15_000, thorough: 500_000, tape: (80, 450), run: c21_nullable },
                Arm { name: "alternatives-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c21_large },
            ],
            probes: vec![],
        },
        Property {
            id: "C22",
            rule: "A case is a generated grammar and input, and a generated configuration \
                   (capacities from zero up, memory limits up to 1 MiB, token and symbol counts, \
                   forest and forest capacity, lookahead policy); verdicts, progress at every \
                   location, trees and values are compared with the default configuration. \
                   Non-trivial: at least 3 tokens were read.",
            assumptions: &[CLASS, "requested capacities fit in memory"],
            arms: vec![
                Arm { name: "configurations", quick: 40_000, thorough: 1_500_000, tape: (80, 450), run: c22_config },
                Arm { name: "configurations-large", quick: 5_000, thorough: 60000, tape: (200, 3000), run: c22_large },
                Arm { name: "configurations-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c22_huge },
                Arm { name: "very-long", quick: 150, thorough: 5_000, tape: (60, 300), run: crate::long::capacities },
            ],
            probes: vec![],
        },
        Property {
            id: "C24",
            rule: "A case is a generated grammar and input whose retained sets are counted after \
                   every location, against the number of tokens read and against the latest start \
                   of a partially read rule (short arm); or a grammar of left-recursive lists \
                   with items of bounded size and an input of up to thousands of tokens, for which \
                   the retained sets must stay below the bound given by the grammar and the memory \
                   held must not grow between the first quarter and the end (long arm). \
                   Verdicts are compared with the reference. Non-trivial: some set was discarded.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "short", quick: 40_000, thorough: 1_500_000, tape: (60, 400), run: c24_short },
                Arm { name: "long", quick: 600, thorough: 15_000, tape: (300, 4000), run: c24_long },
                Arm { name: "large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c24_large },
                Arm { name: "very-long", quick: 200, thorough: 6_000, tape: (60, 300), run: crate::long::kept },
            ],
            probes: vec![],
        },
    ]
}

// ------------------------------------------------------------------------------------------
// Everything that an open location shows.

#[derive(PartialEq, Debug, Clone)]
pub struct Look {
    pub earleme: usize,
    pub exhausted: bool,
    pub predicted: Vec<cfg_symbol::Symbol>,
    pub medial: Vec<(u32, u32)>,
    pub trace: Vec<(u32, u32, usize)>,
    pub events: Vec<(u32, u32)>,
    pub distances: Vec<u32>,
    pub expected: Vec<cfg_symbol::Symbol>,
    pub hint: Option<cfg_symbol::Symbol>,
}

/// Call with a location open and nothing read in it.
pub fn look<F: Forest, P: PerfHint>(rec: &mut Rec<'_, F, P>) -> Look {
    let hint = rec.lookahead().sym();
    let mut out = Look {
        earleme: rec.earleme(),
        exhausted: rec.is_exhausted(),
        predicted: rec.predicted_symbols().collect(),
        medial: rec.medial_items().map(|i| (i.dot, i.origin)).collect(),
        trace: rec.trace().map(|(d, o)| (d.id, d.pos, o)).collect(),
        events: rec.events().map(|(e, d)| (e.id, d.distance)).collect(),
        distances: rec.minimal_distances().collect(),
        expected: rec.expected_terminals().collect(),
        hint,
    };
    out.medial.sort();
    out.trace.sort();
    out.events.sort();
    out.distances.sort();
    out.expected.sort();
    out
}

/// A run with everything observed.
#[derive(PartialEq, Debug, Default)]
struct Story {
    verdict: Verdict,
    looks: Vec<Look>,
    before: (usize, bool, bool),
}

fn observe<F: Forest, P: PerfHint>(
    rec: &mut Rec<'_, F, P>,
    subject: &Subject,
    input: &[usize],
    lat: &Lattice,
    hints: &[bool],
    mut at: impl FnMut(usize),
) -> Story {
    let mut story = Story {
        before: (rec.earleme(), rec.is_finished(), rec.is_exhausted()),
        ..Story::default()
    };
    for step in 0..=lat.len() {
        at(step);
        rec.begin_earleme();
        story.looks.push(look(rec));
        if hints[step] {
            let next = match input.get(step) {
                Some(&t) => subject.inner(t),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(rec, sym);
            }
        }
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(rec, subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            return story;
        }
        story.verdict.read = step;
        story.verdict.finished.push(rec.is_finished());
    }
    // Opened once more, to see where it stands.
    rec.begin_earleme();
    story.looks.push(look(rec));
    story
}

fn any_grammar(tape: &mut Tape<'_>) -> Spec {
    match tape.below(5) {
        0 | 1 => spec::grammar(tape, Shape { marks: true, ..Shape::default() }),
        2 => unit_grammar(tape),
        _ => spec::grammar(tape, Shape { marks: true, ..nullable_shape() }),
    }
}

// ------------------------------------------------------------------------------------------
// C14

/// Leaves the recognizer in some state.
fn disturb<F: Forest, P: PerfHint>(
    tape: &mut Tape<'_>,
    rec: &mut Rec<'_, F, P>,
    subject: &Subject,
    spec: &Spec,
    notes: &mut Vec<String>,
) -> usize {
    let input = spec::input(tape, spec, 10);
    let lat = lattice(&input, |i| 1000 + i as u32);
    let terminals: Vec<usize> = spec.terminals();
    let mut read = 0;
    let steps = tape.below(lat.len() + 2);
    notes.push(format!("{} steps of {}", steps, spec.words(&input)));
    for step in 0..steps {
        rec.begin_earleme();
        if tape.chance(1, 6) {
            if let Some(sym) = subject.inner(*tape.pick(&terminals)) {
                hint(rec, sym);
                notes.push(format!("hint {:?} at {}", sym, step));
            }
        }
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(rec, subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            notes.push(format!("rejected at {}", step));
            return read;
        }
        read = step;
    }
    // An open location.
    match tape.below(5) {
        0 => {}
        1 => {
            rec.begin_earleme();
            notes.push("opened".into());
        }
        n => {
            rec.begin_earleme();
            if steps == 0 {
                let sof = subject.grammar.sof();
                rec.scan(sof, 0);
                notes.push("opened, start of input read".into());
            } else {
                let t = match lat.get(steps - 1) {
                    Some(tokens) if tape.chance(3, 4) => tokens[0].0,
                    _ => *tape.pick(&terminals),
                };
                scan_all(rec, subject, &[(t, 7)]);
                notes.push(format!("opened, {} read", spec.name(t)));
            }
            if n == 3 {
                // A group is taken and left.
                if let Some(mut group) = rec.next_sum() {
                    let item = group.next_summand();
                    notes.push("an alternative taken".into());
                    if let (Some(item), true) = (item, tape.chance(1, 2)) {
                        group.push_summand(item);
                        notes.push("and included".into());
                    }
                }
            }
            if n == 4 {
                if let Some(mut group) = rec.next_sum() {
                    group.complete_entire_sum();
                    notes.push("a group completed".into());
                }
            }
        }
    }
    if tape.chance(1, 4) {
        if let Some(sym) = subject.inner(*tape.pick(&terminals)) {
            hint(rec, sym);
            notes.push(format!("pending hint {:?}", sym));
        }
    }
    read
}

fn c14_reset(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = any_grammar(tape);
    let subject = Subject::new(&spec);
    let (mut rec, recorder) = recorded(&subject);
    let mut notes = vec![];
    let mut before = 0;
    for _ in 0..tape.range(1, 3) {
        before = before.max(disturb(tape, &mut rec, &subject, &spec, &mut notes));
        rec.reset();
        notes.push("reset".into());
    }
    let mark = recorder.0.borrow().groups.len();
    let leaves = recorder.0.borrow().leaf_positions.len();
    let input = spec::input(tape, &spec, 12);
    let hinting = tape.chance(1, 3);
    let hints: Vec<bool> = (0..=input.len()).map(|_| hinting && tape.chance(1, 2)).collect();
    let lat = lattice(&input, |i| i as u32);
    let what = || format!("{} by {} after {:?}, hints {:?}", spec.words(&input), spec.text(), notes, hints);
    let got = observe(&mut rec, &subject, &input, &lat, &hints, |l| recorder.at(l));
    let (mut fresh, fresh_rec) = recorded(&subject);
    let expected = observe(&mut fresh, &subject, &input, &lat, &hints, |l| fresh_rec.at(l));
    ensure_eq!(got.before, expected.before, "new", "state after the reset before {}", what());
    ensure_eq!(got.verdict, expected.verdict, "verdict", "verdict of {}", what());
    for (i, (g, e)) in got.looks.iter().zip(&expected.looks).enumerate() {
        ensure_eq!(g, e, "progress", "location {} of {}", i, what());
    }
    ensure_eq!(got.looks.len(), expected.looks.len(), "verdict", "locations of {}", what());
    let a = recorder.0.borrow();
    let b = fresh_rec.0.borrow();
    let shape = |groups: &[Group]| -> Vec<(usize, cfg_symbol::Symbol, u32, Vec<u32>)> {
        groups
            .iter()
            .map(|g| (g.location, g.lhs, g.origin, g.summands.iter().map(|s| s.0).collect()))
            .collect()
    };
    ensure_eq!(shape(&a.groups[mark..]), shape(&b.groups), "groups", "completion groups of {}", what());
    ensure_eq!(&a.leaf_positions[leaves..], &b.leaf_positions[..], "leaves", "positions given to the forest in {}", what());
    drop((a, b));
    // Trees are compared at the last closed location, which is the open one's set.
    let mut reference = Reference::new(&spec, &lat);
    if reference.total() <= TREES && got.verdict.read == input.len() && reference.accepted() {
        let mut trees = vec![];
        for (subject_rec, hist) in [(true, &recorder), (false, &fresh_rec)] {
            let (mut again, again_rec);
            let root = if subject_rec {
                rec.reset();
                hist.at(0);
                run_hinted(&mut rec, &subject, &input, &lat, &hints)
            } else {
                (again, again_rec) = recorded(&subject);
                let root = run_hinted(&mut again, &subject, &input, &lat, &hints);
                let record = again_rec.0.borrow();
                let Some(root) = root else { return Err(Fail::new("verdict", format!("not finished: {}", what()))) };
                trees.push(Expand::new(&subject, &record, TREES as usize * 4).finished(root)?);
                continue;
            };
            let record = hist.0.borrow();
            let Some(root) = root else { return Err(Fail::new("verdict", format!("not finished: {}", what()))) };
            trees.push(Expand::new(&subject, &record, TREES as usize * 4).finished(root)?);
        }
        ensure_eq!(trees[0], trees[1], "trees", "trees of {}", what());
        ensure_eq!(trees[0], reference.all(), "trees", "trees of {} against the reference", what());
        ctx.label("trees compared");
    }
    ctx.nontrivial(before >= 2 && got.verdict.read >= 2);
    ctx.label_if(hinting, "with hints");
    for n in &notes {
        ctx.label_if(n.starts_with("pending"), "pending hint at reset");
        ctx.label_if(n.starts_with("rejected"), "rejected before reset");
        ctx.label_if(n.starts_with("opened,"), "tokens read at an open location before reset");
        ctx.label_if(n.starts_with("an alternative"), "alternative taken and left before reset");
    }
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &notes, &hints));
    ctx.describe(what);
    Ok(())
}

fn run_hinted<F: Forest, P: PerfHint>(
    rec: &mut Rec<'_, F, P>,
    subject: &Subject,
    input: &[usize],
    lat: &Lattice,
    hints: &[bool],
) -> Option<F::NodeRef> {
    for step in 0..=lat.len() {
        rec.begin_earleme();
        if hints[step] {
            let next = match input.get(step) {
                Some(&t) => subject.inner(t),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(rec, sym);
            }
        }
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(rec, subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            return None;
        }
    }
    rec.finished_node()
}

/// The values of both forests after a reset.
fn c14_values(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = any_grammar(tape);
    let subject = Subject::new(&spec);
    let Some(input) = spec::accepted(tape, &spec, 12) else {
        ctx.label("skipped: no short sentence");
        return Ok(());
    };
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    if reference.total() > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let start = tape.pos();
    let _ = start;
    let mut notes = vec![];
    let seed: Vec<u32> = (0..80).map(|_| tape.raw()).collect();
    let before = reset_values::<simple_bocage::Bocage>("simple", &seed, &subject, &spec, &input, &lat, &mut notes)?;
    notes.clear();
    reset_values::<compact_bocage::Bocage>("compact", &seed, &subject, &spec, &input, &lat, &mut notes)?;
    ctx.nontrivial(before >= 2 && input.len() >= 2);
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &notes));
    ctx.describe(|| format!("{} by {} after {:?}", spec.words(&input), spec.text(), notes));
    Ok(())
}

fn reset_values<F: Evaluated>(
    name: &str,
    seed: &[u32],
    subject: &Subject,
    spec: &Spec,
    input: &[usize],
    lat: &Lattice,
    notes: &mut Vec<String>,
) -> Result<usize, Fail> {
    let mut rec = Recognizer::with_forest(subject, F::fresh(subject, 64));
    let mut tape = Tape::new(seed);
    let before = disturb(&mut tape, &mut rec, subject, spec, notes);
    rec.reset();
    let what = || format!("{} by {} after {:?}", spec.words(input), spec.text(), notes);
    let Some(root) = run_hinted(&mut rec, subject, input, lat, &vec![false; lat.len() + 1]) else {
        return Err(Fail::new("verdict", format!("not finished after reset: {}", what())));
    };
    let calls = Calls::default();
    let got = crate::evaluate::unwrap(rec.into_forest().values(Symbolic { subject, calls: &calls }, root))?;
    let Some((expected, fresh)) = crate::evaluate::values::<F>(subject, lat, false)? else {
        return Err(Fail::new("verdict", format!("not finished when new: {}", what())));
    };
    ensure_eq!(got, expected, format!("values-{}", name), "{} values of {}", name, what());
    ensure_eq!(calls.sorted(), fresh.sorted(), format!("calls-{}", name), "{} calls of {}", name, what());
    Ok(before)
}

// ------------------------------------------------------------------------------------------
// C15

fn c15(tape: &mut Tape<'_>, ctx: &mut Ctx, spec: Spec) -> CaseResult {
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 12);
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    let viable = reference.viable();
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let known: Vec<usize> = spec.terminals().into_iter().filter(|&t| subject.inner(t).is_some()).collect();
    let (mut rec, recorder) = recorded(&subject);
    let (mut plain, plain_rec) = recorded(&subject);
    let mut attempts = vec![];
    let mut verdict = Verdict::default();
    for step in 0..=lat.len() {
        rec.begin_earleme();
        plain.begin_earleme();
        let before = look(&mut rec);
        ensure_eq!(before, look(&mut plain), "progress", "location {} after {:?} of {}", step, attempts, what());
        // Tokens that cannot come here.
        let wrong: Vec<usize> = if step == 0 {
            known.clone()
        } else {
            let predicted = reference.predicted(step - 1);
            known.iter().copied().filter(|t| !predicted.contains(t)).collect()
        };
        if step <= viable + 1 && tape.chance(1, 2) {
            for _ in 0..tape.range(1, 2) {
                let n = if wrong.is_empty() { 0 } else { tape.below(4) };
                let tried: Vec<usize> = (0..n).map(|_| *tape.pick(&wrong)).collect();
                for &t in &tried {
                    scan_all(&mut rec, &subject, &[(t, 999)]);
                }
                let got = rec.end_earleme();
                ensure!(!got, "rejected", "location {} closes on {} of {}", step, spec.words(&tried), what());
                let after = look(&mut rec);
                ensure_eq!(after, before, "unchanged", "location {} after {} was rejected in {}", step, spec.words(&tried), what());
                attempts.push((step, tried));
            }
        }
        for r in [&mut rec, &mut plain] {
            if step == 0 {
                let sof = subject.grammar.sof();
                r.scan(sof, 0);
            } else {
                scan_all(r, &subject, &lat[step - 1]);
            }
        }
        let got = rec.end_earleme();
        let expected = plain.end_earleme();
        ensure_eq!(got, expected, "verdict", "location {} after {:?} of {}", step, attempts, what());
        if !got {
            break;
        }
        verdict.read = step;
        ensure_eq!(rec.is_finished(), plain.is_finished(), "finished", "finished state at {} after {:?} of {}", step, attempts, what());
        verdict.finished.push(rec.is_finished());
    }
    ensure_eq!(verdict.read, viable, "prefix", "accepted tokens after {:?} of {}", attempts, what());
    if reference.accepted() && reference.total() <= TREES {
        let record = recorder.0.borrow();
        let plain_record = plain_rec.0.borrow();
        let got = Expand::new(&subject, &record, TREES as usize * 4).finished(rec.finished_node().unwrap())?;
        let expected = Expand::new(&subject, &plain_record, TREES as usize * 4).finished(plain.finished_node().unwrap())?;
        ensure_eq!(got, expected, "trees", "trees after {:?} of {}", attempts, what());
        ensure_eq!(got, reference.all(), "trees", "trees after {:?} of {} against the reference", attempts, what());
        ctx.label("trees compared");
    }
    let rejected = attempts.iter().filter(|a| !a.1.is_empty()).count();
    ctx.count("attempts rejected", attempts.len() as u64);
    ctx.nontrivial(rejected >= 2 && viable >= 2);
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &attempts));
    ctx.describe(|| format!("{} after {:?}", what(), attempts));
    Ok(())
}

fn c15_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = any_grammar(tape);
    c15(tape, ctx, spec)
}
fn c15_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, nullable_shape());
    c15(tape, ctx, spec)
}

// ------------------------------------------------------------------------------------------
// C21

fn c21(tape: &mut Tape<'_>, ctx: &mut Ctx, spec: Spec) -> CaseResult {
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 8);
    let known: Vec<usize> = spec.terminals();
    let reachable = spec.reachable();
    let mut near: Vec<usize> = known.iter().copied().filter(|&t| reachable[t]).take(6).collect();
    if near.is_empty() {
        near = known.clone();
    }
    let mut lat: Lattice = vec![];
    let mut value = 0;
    let mut paths = 1u64;
    for &t in &input {
        let mut tokens = vec![t];
        if paths < 64 {
            for _ in 0..[0, 1, 1, 2, 3][tape.below(5)] {
                let t = if tape.chance(1, 8) { *tape.pick(&known) } else { *tape.pick(&near) };
                if !tokens.contains(&t) {
                    tokens.push(t);
                }
            }
        }
        spec::shuffle(tape, &mut tokens);
        paths *= tokens.len() as u64;
        lat.push(
            tokens
                .into_iter()
                .map(|t| {
                    value += 1;
                    (t, value)
                })
                .collect(),
        );
    }
    let what = || format!("{:?} by {}", lat, spec.text());
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    let (mut rec, recorder) = recorded(&subject);
    let verdict = run(&mut rec, &subject, &lat, |l| recorder.at(l));
    ensure_eq!(verdict.read, reference.viable(), "prefix", "locations read of {}", what());
    let finished: Vec<bool> = (0..=reference.viable()).map(|i| reference.sentence_at(i)).collect();
    ensure_eq!(verdict.finished, finished, "finished", "finished states over {}", what());
    let done = verdict.read == lat.len();
    let mut accepted_paths = 0;
    if done && total <= TREES {
        let record = recorder.0.borrow();
        if let Some(text) = &record.protocol {
            return Err(Fail::new("protocol", format!("{}: {}", text, what())));
        }
        let got = match rec.finished_node() {
            Some(root) => Expand::new(&subject, &record, TREES as usize * 4).finished(root)?,
            None => vec![],
        };
        if !lat.is_empty() {
            ensure_eq!(got, reference.all(), "trees", "trees of {}", what());
        }
        // Every path on its own.
        let states: usize = reference.sets.iter().map(|s| s.len()).sum();
        if paths <= 200 && paths * states as u64 <= 200_000 {
            let mut union = vec![];
            let mut pick = vec![0; lat.len()];
            loop {
                let path: Lattice = lat.iter().zip(&pick).map(|(ts, &k)| vec![ts[k]]).collect();
                let (mut one, one_rec) = recorded(&subject);
                let v = run(&mut one, &subject, &path, |_| {});
                if v.read == path.len() {
                    if let Some(root) = one.finished_node() {
                        let record = one_rec.0.borrow();
                        union.extend(Expand::new(&subject, &record, TREES as usize * 4).finished(root)?);
                        accepted_paths += 1;
                    }
                }
                let Some(i) = (0..lat.len()).find(|&i| pick[i] + 1 < lat[i].len()) else { break };
                pick[i] += 1;
                pick[..i].iter_mut().for_each(|p| *p = 0);
            }
            union.sort();
            ensure_eq!(got, union, "union", "trees of {} against the union of its paths", what());
            // The forests, when ambiguity is confined to the root.
            if !got.is_empty() && !lat.is_empty() && !reference.nested_ambiguity() {
                for (name, values) in [
                    ("simple", crate::evaluate::values::<simple_bocage::Bocage>(&subject, &lat, false)?),
                    ("compact", crate::evaluate::values::<compact_bocage::Bocage>(&subject, &lat, false)?),
                ] {
                    let Some((mut values, _)) = values else {
                        return Err(Fail::new("finished", format!("not finished with the {} forest: {}", name, what())));
                    };
                    values.sort();
                    ensure_eq!(values, union, format!("values-{}", name), "{} values of {}", name, what());
                }
                ctx.label("values compared");
            }
        }
    }
    let wide = (0..verdict.read)
        .filter(|&i| {
            let predicted = reference.predicted(i);
            lat[i].iter().filter(|(t, _)| predicted.contains(t)).count() > 1
        })
        .count();
    ctx.label_if(accepted_paths > 1, "several paths accepted");
    ctx.nontrivial(wide >= 2 && accepted_paths >= 2);
    note(ctx, &spec);
    ctx.case(&(&spec, &lat));
    ctx.describe(|| format!("{}: {} trees, {} paths accepted", what(), total, accepted_paths));
    Ok(())
}

fn c21_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = match tape.below(4) {
        0 => unit_grammar(tape),
        _ => spec::grammar(tape, Shape::default()),
    };
    c21(tape, ctx, spec)
}
fn c21_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, nullable_shape());
    c21(tape, ctx, spec)
}

// ------------------------------------------------------------------------------------------
// C22

struct Custom<const LOOKAHEAD: bool> {
    completions: usize,
    chart: usize,
    indices: usize,
}

impl<const L: bool> PerfHint for Custom<L> {
    const LOOKAHEAD: bool = L;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;

    fn completion_capacity(&self) -> usize {
        self.completions
    }
    fn medial_capacity(&self) -> Vec2dCapacity {
        Vec2dCapacity {
            chart_capacity: self.chart,
            indices_capacity: self.indices,
        }
    }
}

/// The defaults of the trait itself.
struct Plain;

impl PerfHint for Plain {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = cfg_symbol::Symbol;
}

type Outcome = (Story, Option<Vec<Rc<Tree>>>);

fn run_both<P: PerfHint>(
    subject: &Subject,
    policy: impl Fn() -> P,
    input: &[usize],
    lat: &Lattice,
    hints: &[bool],
    trees: bool,
) -> Result<Outcome, Fail> {
    let recorder = Recorder::new();
    let mut rec = Recognizer::with_forest_and_policy(subject, recorder.clone(), policy());
    let story = observe(&mut rec, subject, input, lat, hints, |_| {});
    let mut found = None;
    if trees {
        let recorder = Recorder::new();
        let mut rec = Recognizer::with_forest_and_policy(subject, recorder.clone(), policy());
        if let Some(root) = run_hinted(&mut rec, subject, input, lat, hints) {
            let record = recorder.0.borrow();
            found = Some(Expand::new(subject, &record, TREES as usize * 4).finished(root)?);
        }
    }
    Ok((story, found))
}

fn story_of<F: Forest, P: PerfHint>(
    subject: &Subject,
    forest: F,
    policy: P,
    input: &[usize],
    lat: &Lattice,
    hints: &[bool],
) -> Story {
    let mut rec = Recognizer::with_forest_and_policy(subject, forest, policy);
    observe(&mut rec, subject, input, lat, hints, |_| {})
}

fn c22_config(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = any_grammar(tape);
    let subject = Subject::new(&spec);
    let max = if tape.chance(1, 8) { 60 } else { 12 };
    let input = spec::input(tape, &spec, max);
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    let trees = reference.total() <= TREES;
    let hinting = tape.chance(1, 4);
    let hints: Vec<bool> = (0..=input.len()).map(|_| hinting && tape.chance(1, 2)).collect();
    let size = |tape: &mut Tape<'_>| match tape.below(4) {
        0 => tape.below(4),
        1 => tape.below(40),
        2 => tape.below(600),
        _ => [0, 1, 2, 64, 128, 4096][tape.below(6)],
    };
    let kind = tape.below(6);
    let (a, b, c) = (size(tape), size(tape), size(tape));
    let memory = [0, 1, 999, 1000, 8192, 499_999, 500_000, 1 << 20, tape.below(1 << 20)][tape.below(9)];
    let config = format!("kind {} sizes {:?} memory {}", kind, (a, b, c), memory);
    let what = || format!("{} by {} with {} and hints {:?}", spec.words(&input), spec.text(), config, hints);
    let no_hints = vec![false; hints.len()];
    let (base, base_trees) = run_both(&subject, DefaultPerfHint::default, &input, &lat, &hints, trees)?;
    let custom = || (a, b, c);
    let (got, got_trees) = match kind {
        0 => run_both(&subject, || DefaultPerfHint::new(memory), &input, &lat, &hints, trees)?,
        1 => run_both(&subject, || DefaultPerfHint::with_token_count_and_num_syms(memory, a, b), &input, &lat, &hints, trees)?,
        2 => run_both(&subject, || Plain, &input, &lat, &hints, trees)?,
        3 => {
            let (completions, chart, indices) = custom();
            run_both(&subject, || Custom::<true> { completions, chart, indices }, &input, &lat, &hints, trees)?
        }
        _ => {
            let (completions, chart, indices) = custom();
            run_both(&subject, || Custom::<false> { completions, chart, indices }, &input, &lat, &hints, trees)?
        }
    };
    if kind < 4 || !hinting {
        ensure_eq!(got.verdict, base.verdict, "verdict", "verdict of {}", what());
        for (i, (g, e)) in got.looks.iter().zip(&base.looks).enumerate() {
            ensure_eq!(g, e, "progress", "location {} of {}", i, what());
        }
    } else {
        // Without pruning, progress is that of a run without hints.
        let (plain, _) = run_both(&subject, DefaultPerfHint::default, &input, &lat, &no_hints, false)?;
        ensure_eq!(got.verdict, plain.verdict, "verdict", "verdict of {}", what());
        for (i, (g, e)) in got.looks.iter().zip(&plain.looks).enumerate() {
            ensure_eq!(g, e, "progress", "location {} of {}", i, what());
        }
        let done = |s: &Story| s.verdict.read == input.len() && s.verdict.finished.last() == Some(&true);
        ensure_eq!(done(&got), done(&base), "verdict", "acceptance of {}", what());
    }
    ensure_eq!(got.before, base.before, "new", "new recognizer for {}", what());
    ensure_eq!(got_trees, base_trees, "trees", "trees of {}", what());

    // Other forests, and the constructors.
    let caps = [a, b, c];
    let story = match tape.below(4) {
        0 => {
            let mut rec = Recognizer::new(&subject);
            observe(&mut rec, &subject, &input, &lat, &hints, |_| {})
        }
        1 => story_of(&subject, NullForest, DefaultPerfHint::new(memory), &input, &lat, &hints),
        2 => story_of(&subject, simple_bocage::Bocage::with_capacity(&subject, caps[0]), DefaultPerfHint::new(memory), &input, &lat, &hints),
        _ => story_of(&subject, compact_bocage::Bocage::with_capacity(&subject, caps[0]), DefaultPerfHint::new(memory), &input, &lat, &hints),
    };
    ensure_eq!(story, base, "forest", "another forest for {}", what());
    // Values do not depend on the forest's capacity.
    if base_trees.is_some() && tape.chance(1, 2) {
        capacity::<simple_bocage::Bocage>("simple", &subject, &lat, a, &what)?;
        capacity::<compact_bocage::Bocage>("compact", &subject, &lat, a, &what)?;
        ctx.label("values compared");
    }
    ctx.nontrivial(base.verdict.read >= 3);
    ctx.label_if(hinting, "with hints");
    ctx.label_if(kind >= 4, "lookahead switched off");
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &config, &hints));
    ctx.describe(what);
    Ok(())
}

fn capacity<F: Evaluated>(name: &str, subject: &Subject, lat: &Lattice, capacity: usize, what: &impl Fn() -> String) -> CaseResult {
    let no = vec![false; lat.len() + 1];
    let tokens: Vec<usize> = lat.iter().map(|t| t[0].0).collect();
    let mut rec = Recognizer::with_forest(subject, F::fresh(subject, capacity));
    let Some(root) = run_hinted(&mut rec, subject, &tokens, lat, &no) else {
        return Err(Fail::new("verdict", format!("not finished with the {} forest: {}", name, what())));
    };
    let calls = Calls::default();
    let got = crate::evaluate::unwrap(rec.into_forest().values(Symbolic { subject, calls: &calls }, root))?;
    let Some((expected, _)) = crate::evaluate::values::<F>(subject, lat, false)? else {
        return Err(Fail::new("verdict", format!("not finished with the {} forest: {}", name, what())));
    };
    ensure_eq!(got, expected, format!("values-{}", name), "{} values of {}", name, what());
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C24

fn c24_short(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = any_grammar(tape);
    let subject = Subject::new(&spec);
    let max = if tape.chance(1, 8) { 60 } else { 16 };
    let input = spec::input(tape, &spec, max);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let mut rec = null_rec(&subject);
    let mut track = Track::default();
    let mut dropped = 0;
    let mut read = 0;
    let mut finished = vec![];
    for step in 0..=lat.len() {
        rec.begin_earleme();
        let sets = track.sets.len();
        track.opened(&rec, step.checked_sub(1));
        dropped += sets + 1 - track.sets.len();
        let held = rec.earleme();
        ensure!(held <= step, "more-than-read", "{} sets before location {} of {}", held, step, what());
        if let Some(at) = step.checked_sub(1) {
            // Sets after the latest start of anything pending serve nothing.
            let latest = reference.progress(at).iter().map(|p| p.2).max();
            if let Some(latest) = latest {
                let last = track.sets[held - 1];
                ensure!(
                    last.is_some_and(|l| l <= latest),
                    "useless-sets",
                    "the set of location {:?} is retained at {}, while the latest start is {}: {}",
                    last,
                    at,
                    latest,
                    what()
                );
                ensure!(
                    last == Some(latest),
                    "lost-sets",
                    "sets are retained up to location {:?} at {}, while the latest start is {}: {}",
                    last,
                    at,
                    latest,
                    what()
                );
            }
        }
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, &subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            break;
        }
        read = step;
        finished.push(rec.is_finished());
    }
    ensure_eq!(read, reference.viable(), "prefix", "accepted tokens of {}", what());
    let expected: Vec<bool> = (0..=reference.viable()).map(|i| reference.sentence_at(i)).collect();
    ensure_eq!(finished, expected, "finished", "finished states over {}", what());
    ctx.nontrivial(dropped > 0);
    ctx.count("sets discarded", dropped as u64);
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} sets discarded", what(), dropped));
    Ok(())
}

/// A list of delimited items without recursion: after each delimiter, nothing that started later
/// than the list itself is pending.
pub fn bounded(tape: &mut Tape<'_>) -> (Spec, usize) {
    let depth = tape.range(1, 4);
    let terminals = tape.range(1, 4);
    let first = 1 + depth;
    let delimiter = first + terminals;
    let nsyms = delimiter + 1;
    let mut rules: Vec<Rule> = vec![];
    let push = |rules: &mut Vec<Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs })
    };
    if tape.chance(1, 2) {
        push(&mut rules, 0, vec![0, delimiter, 1]);
        push(&mut rules, 0, vec![1]);
    } else {
        push(&mut rules, 0, vec![0, 1, delimiter]);
        push(&mut rules, 0, vec![1, delimiter]);
    }
    if tape.chance(1, 6) {
        push(&mut rules, 0, vec![]);
    }
    for lhs in 1..=depth {
        for _ in 0..tape.range(1, 3) {
            let len = tape.range(1, 3);
            let rhs: Vec<usize> = (0..len)
                .map(|_| {
                    if lhs < depth && tape.chance(1, 2) {
                        lhs + 1 + tape.below(depth - lhs)
                    } else {
                        first + tape.below(terminals)
                    }
                })
                .collect();
            if !rules.iter().any(|r| r.lhs == lhs && r.rhs == rhs) {
                push(&mut rules, lhs, rhs);
            }
        }
    }
    // Longest item.
    let mut longest = vec![1; nsyms];
    for lhs in (1..=depth).rev() {
        longest[lhs] = rules
            .iter()
            .filter(|r| r.lhs == lhs)
            .map(|r| r.rhs.iter().map(|&s| longest[s]).sum::<usize>())
            .max()
            .unwrap();
    }
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= first).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: 0,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    (spec, longest[1] + 2)
}

fn c24_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (spec, bound) = bounded(tape);
    if bound > 40 || spec.cyclic() {
        ctx.label("skipped: long items");
        return Ok(());
    }
    let subject = Subject::new(&spec);
    let want = [50, 300, 1500, 4000][tape.below(4)];
    let want = tape.range(10, want);
    // Sentences of the items, one after the other; past the tape's end, the lowest ones.
    let list = spec.rules.iter().find(|r| r.lhs == 0 && r.rhs.len() > 1).unwrap().rhs.clone();
    let mut input: Vec<usize> = vec![];
    let mut rng = tape.raw() as u64 | 1;
    while input.len() < want {
        if !input.is_empty() && list[2] == 1 {
            input.push(list[1]);
        }
        let mut pending = if list[2] == 1 { vec![1] } else { vec![list[2], 1] };
        while let Some(s) = pending.pop() {
            if spec.terminal[s] {
                input.push(s);
                continue;
            }
            let rules: Vec<&Rule> = spec.rules.iter().filter(|r| r.lhs == s).collect();
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            let rule = rules[((rng >> 20) % rules.len() as u64) as usize];
            pending.extend(rule.rhs.iter().rev());
        }
    }
    let broken = tape.chance(1, 4);
    if broken {
        let at = tape.below(input.len());
        let t = tape.below(spec.terminals().len());
        input[at] = spec.terminals()[t];
    }
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let what = || format!("{} tokens ({} ...) by {}", input.len(), spec.words(&input[..input.len().min(20)]), spec.text());
    let mut rec = null_rec(&subject);
    let mut most = 0;
    let mut read = 0;
    let mut quarter = None;
    let mut finished = vec![];
    finished.reserve(lat.len() + 1);
    for step in 0..=lat.len() {
        rec.begin_earleme();
        most = most.max(rec.earleme());
        ensure!(rec.earleme() <= bound + 2, "bound", "{} sets retained at {} (bound {}): {}", rec.earleme(), step, bound + 2, what());
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, &subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            break;
        }
        read = step;
        finished.push(rec.is_finished());
        if step == lat.len() / 4 {
            quarter = Some(pbt::live());
        }
    }
    let end = pbt::live();
    if let Some(quarter) = quarter {
        if input.len() >= 400 {
            // Vectors may still double once after the first quarter.
            ensure!(
                end - quarter <= 65_536,
                "memory",
                "memory held grew from {} by {} bytes: {}",
                quarter,
                end - quarter,
                what()
            );
            ctx.label("memory compared");
        }
    }
    ensure_eq!(read, reference.viable(), "prefix", "accepted tokens of {}", what());
    let expected: Vec<bool> = (0..=reference.viable()).map(|i| reference.sentence_at(i)).collect();
    ensure!(finished == expected, "finished", "finished states over {}", what());
    ctx.nontrivial(read > bound + 2);
    ctx.label_if(read > 1000, "more than 1000 tokens read");
    ctx.label_if(broken, "one token replaced");
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: at most {} sets of bound {}", what(), most, bound + 2));
    Ok(())
}

// Larger grammars and longer inputs.

fn c14_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c14_reset(tape, ctx))
}

fn c15_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c15_nullable(tape, ctx))
}

fn c21_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c21_nullable(tape, ctx))
}

fn c22_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c22_config(tape, ctx))
}

fn c24_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c24_short(tape, ctx))
}

fn c14_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c14_reset(tape, ctx))
}

fn c15_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c15_nullable(tape, ctx))
}

fn c22_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c22_config(tape, ctx))
}
