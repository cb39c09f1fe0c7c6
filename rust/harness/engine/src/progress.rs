//! What an open location reports: predictions, partially read rules, events.

use crate::engine::*;
use crate::groups::{unit_grammar, Track};
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Shape, Spec};
use gearley_grammar::Grammar;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Property, Tape};
use std::collections::BTreeSet;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "A case is a generated grammar and input; at every open location the predicted \
                   symbols and the traced partially read rules with their start locations are \
                   compared with the reference chart. Non-trivial: at least 3 locations with a \
                   partially read rule that started after the first token.",
            assumptions: &[CLASS, "reported are predictions and rules that can still consume a token"],
            arms: vec![
                Arm { name: "progress", quick: 40_000, thorough: 1_500_000, tape: (60, 400), run: c16_general },
                Arm { name: "progress-units", quick: 15_000, thorough: 500_000, tape: (60, 400), run: c16_units },
                Arm { name: "progress-nullable", quick: 20_000, thorough: 800_000, tape: (60, 400), run: c16_nullable },
                Arm { name: "progress-long", quick: 2_000, thorough: 80_000, tape: (60, 500), run: c16_long },
                Arm { name: "progress-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c16_large },
                Arm { name: "progress-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c16_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C17",
            rule: "A case is a generated grammar with an event and a distance on every rule position \
                   (in the first two arms, one for all rules of a symbol at their start), and an input; at every open \
                   location the reported events and distances are compared with those of the \
                   reference chart's predictions and partially read rules. Non-trivial: at least 3 \
                   locations with events of partially read rules.",
            assumptions: &[CLASS, "where the rules of a symbol differ at their start, a prediction reports any one of them"],
            arms: vec![
                Arm { name: "events", quick: 40_000, thorough: 1_500_000, tape: (80, 500), run: c17_general },
                Arm { name: "events-nullable", quick: 20_000, thorough: 800_000, tape: (80, 500), run: c17_nullable },
                Arm { name: "events-own", quick: 20_000, thorough: 800_000, tape: (80, 500), run: c17_own },
                Arm { name: "events-own-nullable", quick: 10_000, thorough: 400_000, tape: (80, 500), run: c17_own_nullable },
                Arm { name: "events-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c17_large },
                Arm { name: "events-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c17_huge },
            ],
            probes: vec![],
        },
    ]
}

fn c16(ctx: &mut Ctx, spec: Spec, input: Vec<usize>) -> CaseResult {
    let subject = Subject::new(&spec);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let mut rec = null_rec(&subject);
    let mut track = Track::default();
    ensure!(start(&mut rec), "prefix", "the start of input is rejected: {}", what());
    track.sets.push(None);
    let mut late = 0;
    let mut items = 0;
    for at in 0..=reference.viable() {
        rec.begin_earleme();
        track.opened(&rec, Some(at));
        let predicted: BTreeSet<usize> = rec
            .predicted_symbols()
            .filter(|s| s.usize() < subject.grammar.num_syms())
            .filter_map(|s| subject.outer(s))
            .collect();
        ensure_eq!(predicted, reference.predicted(at), "predicted", "predicted symbols at {} of {}", at, what());
        let mut progress = BTreeSet::new();
        let here = rec.earleme();
        let traced: Vec<_> = rec.trace().collect();
        let predictions = rec.predicted_symbols().count();
        for (k, &(dotted, origin)) in traced.iter().enumerate() {
            if k < predictions {
                ensure_eq!(origin, here, "prediction-start", "start of a prediction at {} of {}", at, what());
                continue;
            }
            let origin = track.location(origin as u32)?;
            if dotted.id == !0 {
                continue;
            }
            let Some(origin) = origin else {
                return Err(pbt::Fail::new("progress", format!("rule {} started before the input at {} of {}", dotted.id, at, what())));
            };
            progress.insert((dotted.id as usize, dotted.pos as usize, origin));
        }
        let expected = reference.progress(at);
        ensure_eq!(progress, expected, "progress", "partially read rules at {} of {}", at, what());
        late += expected.iter().any(|p| p.2 > 0) as usize;
        items += expected.len();
        if at < input.len() {
            scan_all(&mut rec, &subject, &lat[at]);
            let got = rec.end_earleme();
            ensure_eq!(got, at < reference.viable(), "prefix", "acceptance of token {} of {}", at, what());
        }
    }
    ctx.count("partially read rules compared", items as u64);
    ctx.nontrivial(late >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} partially read rules", what(), items));
    Ok(())
}

fn c16_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, Shape::default());
    let input = spec::input(tape, &spec, 14);
    c16(ctx, spec, input)
}
fn c16_units(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = unit_grammar(tape);
    let input = spec::input(tape, &spec, 12);
    c16(ctx, spec, input)
}
fn c16_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, nullable_shape());
    let input = spec::input(tape, &spec, 12);
    c16(ctx, spec, input)
}
fn c16_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, Shape { nonterminals: 8, ..Shape::default() });
    let input = spec::input(tape, &spec, 50);
    c16(ctx, spec, input)
}

/// With `own`, rules of one symbol differ in the mark of their start. Which of them a prediction
/// reports is not specified, but the mark has to be that of the reported rule.
fn c17(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, own_starts: bool) -> CaseResult {
    let mut spec = spec::grammar(tape, Shape { marks: true, ..shape });
    if own_starts {
        for (r, rule) in spec.rules.iter_mut().enumerate() {
            let event = if tape.chance(1, 3) { !0 } else { 100 + r as u32 };
            let distance = if tape.chance(1, 3) { !0 } else { 200 + r as u32 };
            rule.marks[0] = (event, distance);
        }
    }
    let input = spec::input(tape, &spec, 14);
    let subject = Subject::new(&spec);
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let what = || format!("{} by {} with {:?}", spec.words(&input), spec.text(), spec.rules);
    let mut rec = null_rec(&subject);
    let mut track = Track::default();
    ensure!(start(&mut rec), "prefix", "the start of input is rejected: {}", what());
    track.sets.push(None);
    let mut with_events = 0;
    let mut compared = 0;
    for at in 0..=reference.viable() {
        rec.begin_earleme();
        track.opened(&rec, Some(at));
        // Reported, without the empty marks of symbols and rules that were added.
        let null = (!0, !0);
        let mut got: Vec<(u32, u32)> = rec.events().map(|(e, d)| (e.id, d.distance)).collect();
        let distances: Vec<u32> = rec.minimal_distances().collect();
        let by_event: Vec<u32> = got.iter().map(|g| g.1).collect();
        ensure_eq!(distances, by_event, "distances", "distances at {} of {}", at, what());
        got.retain(|&g| g != null);
        got.sort();
        let predictions: Vec<_> = rec.predicted_symbols().collect();
        let mut expected: Vec<(u32, u32)> = vec![];
        if own_starts {
            got = rec.events().skip(predictions.len()).map(|(e, d)| (e.id, d.distance)).filter(|&g| g != null).collect();
            got.sort();
        }
        for s in reference.predicted(at).into_iter().filter(|_| !own_starts) {
            if let Some(rule) = spec.rules.iter().find(|r| r.lhs == s) {
                expected.push(rule.marks[0]);
            }
        }
        let progress = reference.progress(at);
        // One report for every dotted rule and start; variants of a rule without its empty symbols
        // may report the same position again.
        for &(r, pos, _) in &progress {
            expected.push(spec.rules[r].marks[pos]);
        }
        expected.retain(|&g| g != null);
        expected.sort();
        compared += expected.len();
        let distinct_got: BTreeSet<_> = got.iter().copied().collect();
        let distinct: BTreeSet<_> = expected.iter().copied().collect();
        ensure_eq!(distinct_got, distinct, "events", "events at {} of {}", at, what());
        if !reference.nullable.iter().any(|&n| n) {
            ensure_eq!(got, expected, "events", "events, as often as reported, at {} of {}", at, what());
        }
        let mut marked = 0;
        // Each report belongs to the position reported in the same place.
        for (k, ((dotted, _), (event, distance))) in rec.trace().zip(rec.events()).enumerate() {
            let mark = (event.id, distance.distance);
            if k < predictions.len() {
                let symbol = (predictions[k].usize() < subject.grammar.num_syms())
                    .then(|| subject.outer(predictions[k]))
                    .flatten();
                if own_starts && dotted.id != !0 {
                    let rule = &spec.rules[dotted.id as usize];
                    ensure_eq!(Some(rule.lhs), symbol, "event-of-prediction", "rule reported for a prediction at {} of {}", at, what());
                    let own = rule.marks[dotted.pos as usize];
                    ensure_eq!(mark, own, "event-of-prediction", "mark of the predicted {:?} as {:?} at {} of {}", symbol, dotted, at, what());
                    marked += (mark != null) as usize;
                    continue;
                }
                let own = symbol
                    .filter(|_| !own_starts)
                    .and_then(|s| spec.rules.iter().find(|r| r.lhs == s))
                    .filter(|r| reference.solid[r.lhs])
                    .map_or(null, |r| r.marks[0]);
                ensure_eq!(mark, own, "event-of-prediction", "mark of the predicted {:?} at {} of {}", symbol, at, what());
            } else if dotted.id != !0 {
                let own = spec.rules[dotted.id as usize].marks[dotted.pos as usize];
                ensure_eq!(mark, own, "event-of-rule", "mark of {:?} at {} of {}", dotted, at, what());
            }
        }
        with_events += (own_starts && marked > 0) as usize;
        with_events += progress.iter().any(|&(r, p, _)| spec.rules[r].marks[p] != null) as usize;
        if at < input.len() {
            scan_all(&mut rec, &subject, &lat[at]);
            let got = rec.end_earleme();
            ensure_eq!(got, at < reference.viable(), "prefix", "acceptance of token {} of {}", at, what());
        }
    }
    ctx.count("marks compared", compared as u64);
    ctx.nontrivial(with_events >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} marks", what(), compared));
    Ok(())
}

fn c17_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c17(tape, ctx, Shape::default(), false)
}
fn c17_own(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c17(tape, ctx, Shape::default(), true)
}
fn c17_own_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c17(tape, ctx, nullable_shape(), true)
}
fn c17_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c17(tape, ctx, nullable_shape(), false)
}

// Larger grammars and longer inputs.

fn c16_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c16_nullable(tape, ctx))
}

fn c17_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c17_own_nullable(tape, ctx))
}

fn c16_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c16_nullable(tape, ctx))
}

fn c17_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c17_own_nullable(tape, ctx))
}
