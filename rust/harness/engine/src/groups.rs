//! Completion groups, and completion driven by hand.

use crate::engine::*;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Shape, Spec};
use gearley_forest::Forest;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            rule: "A case is a generated grammar and input; every completion group offered at every \
                   location is recorded. No (symbol, start) may repeat, starts may not increase, \
                   alternatives may not repeat, the groups of the grammar's own symbols must be \
                   exactly the reference's completed spans, and each group's trees exactly the \
                   reference's trees of that span. In the far-apart arm up to 72,000 sets are kept \
                   and groups from all of them are offered at one location; they are known by \
                   construction. Non-trivial: some location has 3 or more groups \
                   and some group has several alternatives.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "groups", quick: 40_000, thorough: 1_500_000, tape: (60, 400), run: c12_groups },
                Arm { name: "groups-units", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c12_units },
                Arm { name: "groups-nullable", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c12_nullable },
                Arm { name: "groups-long", quick: 1_500, thorough: 60_000, tape: (60, 500), run: c12_long },
                Arm { name: "groups-large", quick: 4_000, thorough: 60000, tape: (200, 3000), run: c12_large },
                Arm { name: "groups-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c12_huge },
                Arm { name: "splits", quick: 300, thorough: 10_000, tape: (60, 300), run: crate::long::offered },
                Arm { name: "alternatives", quick: 120, thorough: 2_000, tape: (20, 60), run: crate::long::every },
                Arm { name: "far-apart", quick: 500, thorough: 5_000, tape: (60, 300), run: crate::long::apart },
            ],
            probes: vec![],
        },
        Property {
            id: "C13",
            rule: "A case is a generated grammar and input, completed by hand (alternatives one at a \
                   time in either order, whole groups, or the first by hand and the rest at once), \
                   with a generated choice of (rule, start, end) or (symbol, start, end) to leave \
                   out, and hints at a generated subset of locations; the trees at the end must be \
                   the reference's trees without the omitted constituents, and without omissions \
                   everything must equal automatic completion. Non-trivial: at least 3 tokens, and \
                   something was omitted or the input is ambiguous.",
            assumptions: &[
                CLASS,
                "a group is either completed with at least one alternative or skipped; omissions concern symbols of the grammar as written",
            ],
            arms: vec![
                Arm { name: "by-hand", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c13_all },
                Arm { name: "by-hand-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c13_large },
                Arm { name: "by-hand-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c13_huge },
                Arm { name: "omissions", quick: 40_000, thorough: 1_500_000, tape: (60, 400), run: c13_omit },
                Arm { name: "omissions-nullable", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c13_nullable },
                Arm { name: "omissions-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c13_omissions_large },
            ],
            probes: vec![],
        },
    ]
}

/// Which reference location each retained Earley set belongs to; `None` is the start of input.
#[derive(Clone, Default)]
pub struct Track {
    pub sets: Vec<Option<usize>>,
}

impl Track {
    /// Call after opening a location; `at` is the number of tokens read so far, or `None` before
    /// the start of input.
    pub fn opened<F: Forest, P: PerfHint>(&mut self, rec: &Rec<'_, F, P>, at: Option<usize>) {
        self.sets.truncate(rec.earleme());
        self.sets.push(at);
    }
    pub fn location(&self, origin: u32) -> Result<Option<usize>, Fail> {
        self.sets
            .get(origin as usize)
            .copied()
            .ok_or_else(|| Fail::new("origin", format!("start location {} does not exist", origin)))
    }
}

/// A completion group with its start in terms of tokens read.
struct Offered {
    lhs: cfg_symbol::Symbol,
    origin: Option<usize>,
    summands: Vec<(u32, Handle)>,
    node: u32,
}

fn c12(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let input = spec::input(tape, &spec, max);
    let lat = lattice(&input, |i| i as u32);
    c12_case(ctx, &spec, &input, &lat)
}

fn c12_case(ctx: &mut Ctx, spec: &Spec, input: &[usize], lat: &Lattice) -> CaseResult {
    let subject = Subject::new(spec);
    let what = || format!("{} by {}", spec.words(input), spec.text());
    let mut reference = Reference::new(spec, lat);
    let (mut rec, recorder) = recorded(&subject);
    let mut track = Track::default();
    let mut offered: Vec<Vec<Offered>> = vec![];
    for step in 0..=lat.len() {
        rec.begin_earleme();
        recorder.at(step);
        track.opened(&rec, step.checked_sub(1));
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, &subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            break;
        }
        let record = recorder.0.borrow();
        if let Some(text) = &record.protocol {
            return Err(Fail::new("protocol", format!("{}: {}", text, what())));
        }
        let mut groups = vec![];
        for g in record.groups.iter().filter(|g| g.location == step) {
            groups.push(Offered {
                lhs: g.lhs,
                origin: track.location(g.origin)?,
                summands: g.summands.clone(),
                node: g.node,
            });
        }
        offered.push(groups);
    }
    ensure_eq!(offered.len() - 1, reference.viable(), "prefix", "accepted tokens of {}", what());
    let record = recorder.0.borrow();
    let mut expand = Expand::new(&subject, &record, TREES as usize * 4);
    let mut widest = 0;
    let mut most = 0;
    let mut spans = 0;
    let mut work = 0;
    for (j, groups) in offered.iter().enumerate() {
        let mut seen = BTreeSet::new();
        let mut last = None;
        for g in groups {
            let name = || format!("symbol {:?} ({:?}) from {:?} to {} in {}", g.lhs, subject.outer(g.lhs), g.origin, j, what());
            ensure!(seen.insert((g.lhs, g.origin)), "group-repeats", "offered twice: {}", name());
            if let Some(last) = last {
                ensure!(g.origin <= last, "group-order", "after a group with a lower start: {}", name());
            }
            last = Some(g.origin);
            most = most.max(g.summands.len());
            let mut distinct = HashSet::new();
            for &(dot, node) in &g.summands {
                let factors = match node {
                    Handle::At(i) => match &record.nodes[i as usize] {
                        Node::Product(l, r) => (*l, Some(*r)),
                        _ => (node, None),
                    },
                    _ => (node, None),
                };
                ensure!(distinct.insert((dot, factors)), "alternative-repeats", "an alternative is listed twice: {}", name());
            }
        }
        widest = widest.max(groups.len());
        let got: BTreeSet<(usize, usize)> = groups
            .iter()
            .filter_map(|g| Some((subject.outer(g.lhs)?, g.origin?)))
            .collect();
        let expected = reference.completed(j);
        ensure_eq!(got, expected, "completed", "completed symbols at location {} of {}", j, what());
        for g in groups {
            let (Some(s), Some(o)) = (subject.outer(g.lhs), g.origin) else { continue };
            let n = reference.count(s, o, j);
            // Deep trees of every end of a long list would take most of the time.
            if n == 0 || n > TREES || work > 30_000 {
                ctx.count("groups with too many trees to list", 1);
                continue;
            }
            spans += 1;
            work += n * (j - o) as u64;
            let mut got = vec![];
            for seq in expand.node(Handle::At(g.node))?.iter() {
                ensure!(seq.len() == 1, "group-trees", "a completed symbol contributes {} nodes in {}", seq.len(), what());
                got.push(seq[0].clone());
            }
            got.sort();
            let mut expected: Vec<Rc<Tree>> = reference.trees(s, o, j).as_ref().clone();
            expected.sort();
            ensure_eq!(got, expected, "group-trees", "trees of {} from {} to {} in {}", spec.name(s), o, j, what());
        }
    }
    ctx.count("spans compared", spans);
    ctx.nontrivial(widest >= 3 && most >= 2);
    ctx.label_if(widest >= 3, "3 or more groups at a location");
    ctx.label_if(most >= 2, "several alternatives in a group");
    note(ctx, spec);
    ctx.case(&(spec, input));
    ctx.describe(|| format!("{}: at most {} groups, {} alternatives", what(), widest, most));
    Ok(())
}

fn c12_groups(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c12(tape, ctx, Shape::default(), 12)
}
fn c12_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c12(tape, ctx, nullable_shape(), 10)
}
fn c12_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c12(tape, ctx, Shape { nonterminals: 8, ..Shape::default() }, 40)
}

/// Grammars with many unit rules in any numbering.
pub fn unit_grammar(tape: &mut Tape<'_>) -> Spec {
    let nonterminals = tape.range(2, 8);
    let terminals = tape.range(1, 2);
    let nsyms = nonterminals + terminals;
    let mut rank: Vec<usize> = (0..nonterminals).collect();
    spec::shuffle(tape, &mut rank);
    let mut rules: Vec<spec::Rule> = vec![];
    let push = |rules: &mut Vec<spec::Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(spec::Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs })
    };
    for k in 0..nonterminals {
        let lhs = rank[k];
        // Unit rules only lead down the ranks.
        for _ in 0..tape.below(4) {
            if k + 1 < nonterminals {
                let to = rank[k + 1 + tape.below(nonterminals - k - 1)];
                if !rules.iter().any(|r| r.lhs == lhs && r.rhs == [to]) {
                    push(&mut rules, lhs, vec![to]);
                }
            }
        }
        for _ in 0..tape.below(3) {
            let len = tape.range(2, 3);
            let rhs = (0..len)
                .map(|_| if tape.chance(2, 3) { tape.below(nonterminals) } else { nonterminals + tape.below(terminals) })
                .collect();
            push(&mut rules, lhs, rhs);
        }
        if k + 1 == nonterminals || !rules.iter().any(|r| r.lhs == lhs) || tape.chance(1, 3) {
            push(&mut rules, lhs, vec![nonterminals + tape.below(terminals)]);
        }
    }
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= nonterminals).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: rank[0],
        layout: (0..nsyms).map(Some).collect(),
    };
    loop {
        let productive = spec.productive();
        let Some(lhs) = (0..nonterminals).find(|&s| !productive[s]) else { break };
        spec.rules.push(spec::Rule { lhs, marks: vec![(!0, !0); 2], rhs: vec![nonterminals] });
    }
    spec.order = (0..spec.rules.len()).collect();
    spec.scramble(tape);
    spec
}

fn c12_units(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = unit_grammar(tape);
    let input = spec::input(tape, &spec, 10);
    let lat = lattice(&input, |i| i as u32);
    c12_case(ctx, &spec, &input, &lat)
}

// ------------------------------------------------------------------------------------------
// Completion by hand.

/// What is left out, by rule or symbol and span.
#[derive(Clone, Copy, Debug, Hash)]
struct Filter {
    salt: u32,
    /// Out of 16.
    rules: u64,
    symbols: u64,
    /// How often an omitted group is begun and then left.
    begun: u64,
}

impl Filter {
    fn none() -> Self {
        Filter { salt: 0, rules: 0, symbols: 0, begun: 0 }
    }
    fn chosen(&self, kind: u8, what: usize, from: usize, to: usize, rate: u64) -> bool {
        let mut hasher = DefaultHasher::new();
        (self.salt, kind, what, from, to).hash(&mut hasher);
        hasher.finish() % 16 < rate
    }
    fn keeps_rule(&self, rule: usize, from: usize, to: usize) -> bool {
        !self.chosen(0, rule, from, to, self.rules)
    }
    fn keeps_symbol(&self, symbol: usize, from: usize, to: usize) -> bool {
        !self.chosen(1, symbol, from, to, self.symbols)
    }
    /// Whether a tree that starts at `from` contains nothing that is left out; also gives its end.
    fn keeps(&self, spec: &Spec, tree: &Tree, from: usize) -> (bool, usize) {
        match tree {
            Tree::Leaf(..) => (true, from + 1),
            Tree::Null(_) => (true, from),
            Tree::Node(r, children) => {
                let mut end = from;
                let mut keep = true;
                for c in children {
                    let (k, e) = self.keeps(spec, c, end);
                    keep &= k;
                    end = e;
                }
                let r = *r as usize;
                keep &= self.keeps_rule(r, from, end) && self.keeps_symbol(spec.rules[r].lhs, from, end);
                (keep, end)
            }
        }
    }
}

/// How a group is taken.
#[derive(Clone, Copy, Debug, Hash)]
enum Way {
    OneByOne,
    Reversed,
    Entire,
    FirstThenEntire,
}

#[derive(Default)]
struct Omitted {
    groups: u64,
    alternatives: u64,
    /// Groups given up after some alternatives were included.
    begun: u64,
}

/// Ends a location by hand.
fn end_by_hand<F: Forest>(
    rec: &mut Rec<'_, F, DefaultPerfHint>,
    subject: &Subject,
    track: &Track,
    at: usize,
    filter: &Filter,
    way: Way,
    omitted: &mut Omitted,
) -> Result<bool, Fail> {
    if rec.is_exhausted() {
        return Ok(false);
    }
    while let Some(mut group) = rec.next_sum() {
        pbt::tick();
        let symbol = subject.outer(group.symbol());
        let origin = track.location(group.origin())?;
        if let (Some(s), Some(o)) = (symbol, origin) {
            if !filter.keeps_symbol(s, o, at) {
                omitted.groups += 1;
                if filter.chosen(2, s, o, at, filter.begun) {
                    // Some alternatives are included before the group is given up.
                    omitted.begun += 1;
                    let included = 1 + (filter.salt as usize + s + at) % 3;
                    for item in std::iter::from_fn(|| group.next_summand()).take(included).collect::<Vec<_>>() {
                        group.push_summand(item);
                    }
                    if filter.salt & 16 != 0 {
                        // What is left of it may come again, to be given up again.
                        continue;
                    }
                }
                group.skip_entire_sum();
                continue;
            }
        }
        let keeps = |dot: u32| match (symbol, origin) {
            (Some(_), Some(o)) => {
                let id = subject.grammar.external_origin(dot).id;
                id == !0 || filter.keeps_rule(id as usize, o, at)
            }
            _ => true,
        };
        match way {
            Way::Entire if filter.rules == 0 => group.complete_entire_sum(),
            Way::FirstThenEntire if filter.rules == 0 => {
                if let Some(item) = group.next_summand() {
                    group.push_summand(item);
                }
                group.complete_entire_sum();
            }
            Way::Reversed => {
                let mut items = vec![];
                while let Some(item) = group.next_summand() {
                    if keeps(item.dot) {
                        items.push(item);
                    } else {
                        omitted.alternatives += 1;
                    }
                }
                if !items.is_empty() {
                    for item in items.into_iter().rev() {
                        group.push_summand(item);
                    }
                    group.complete_sum();
                }
            }
            _ => {
                let mut any = false;
                while let Some(item) = group.next_summand() {
                    if keeps(item.dot) {
                        group.push_summand(item);
                        any = true;
                    } else {
                        omitted.alternatives += 1;
                    }
                }
                if any {
                    group.complete_sum();
                }
            }
        }
    }
    rec.advance_after_completion();
    Ok(true)
}

fn by_hand<F: Forest>(
    rec: &mut Rec<'_, F, DefaultPerfHint>,
    subject: &Subject,
    input: &[usize],
    lat: &Lattice,
    filter: &Filter,
    ways: &[Way],
    hints: &[bool],
    omitted: &mut Omitted,
) -> Result<Verdict, Fail> {
    let mut verdict = Verdict::default();
    let mut track = Track::default();
    for step in 0..=lat.len() {
        rec.begin_earleme();
        track.opened(rec, step.checked_sub(1));
        if hints[step] {
            let next = match input.get(step) {
                Some(&t) => subject.inner(t),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(rec, sym);
            }
        }
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(rec, subject, &lat[step - 1]);
        }
        if !end_by_hand(rec, subject, &track, step, filter, ways[step % ways.len()], omitted)? {
            return Ok(verdict);
        }
        verdict.read = step;
        verdict.finished.push(rec.is_finished());
    }
    Ok(verdict)
}

fn ways(tape: &mut Tape<'_>) -> Vec<Way> {
    (0..tape.range(1, 4))
        .map(|_| *tape.pick(&[Way::OneByOne, Way::Reversed, Way::Entire, Way::FirstThenEntire]))
        .collect()
}

fn c13_all(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = match tape.below(3) {
        0 => spec::grammar(tape, Shape::default()),
        1 => unit_grammar(tape),
        _ => spec::grammar(tape, nullable_shape()),
    };
    let ways = ways(tape);
    let hinting = tape.chance(1, 3);
    let input = spec::input(tape, &spec, 12);
    let lat = lattice(&input, |i| i as u32);
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}, taken {:?}", spec.words(&input), spec.text(), ways);
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    let hints: Vec<bool> = (0..=input.len()).map(|_| hinting && tape.chance(1, 2)).collect();
    let filter = Filter::none();
    let mut omitted = Omitted::default();

    let (mut hand, hand_rec) = recorded(&subject);
    let verdict = by_hand(&mut hand, &subject, &input, &lat, &filter, &ways, &hints, &mut omitted)?;
    let done = verdict.read == input.len() && verdict.finished.last() == Some(&true);
    ensure_eq!(done, reference.accepted(), "acceptance", "acceptance of {} with hints {:?}", what(), hints);
    if !hinting {
        ensure_eq!(verdict.read, reference.viable(), "prefix", "accepted tokens of {}", what());
        let finished: Vec<bool> = (0..=reference.viable()).map(|i| reference.sentence_at(i)).collect();
        ensure_eq!(verdict.finished, finished, "finished", "finished states over {}", what());
    }
    let record = hand_rec.0.borrow();
    if let Some(text) = &record.protocol {
        return Err(Fail::new("protocol", format!("{}: {}", text, what())));
    }
    if done && total <= TREES {
        let root = hand.finished_node().unwrap();
        let got = Expand::new(&subject, &record, TREES as usize * 4).finished(root)?;
        ensure_eq!(got, reference.all(), "trees", "trees of {} with hints {:?}", what(), hints);
        if !hinting && input.len() > 0 {
            // Same values from both forests as when completed automatically.
            evaluated::<simple_bocage::Bocage>("simple", &subject, &input, &lat, &filter, &ways, &hints, &what, None)?;
            evaluated::<compact_bocage::Bocage>("compact", &subject, &input, &lat, &filter, &ways, &hints, &what, None)?;
        }
    }
    ctx.nontrivial(input.len() >= 3 && total > 1);
    ctx.label_if(done, "accepted");
    ctx.label_if(hinting, "with hints");
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &ways, &hints));
    ctx.describe(what);
    Ok(())
}

/// Values of a forest built by hand; compared with the given ones, or with automatic completion.
fn evaluated<F: Evaluated>(
    name: &str,
    subject: &Subject,
    input: &[usize],
    lat: &Lattice,
    filter: &Filter,
    ways: &[Way],
    hints: &[bool],
    what: &impl Fn() -> String,
    expected: Option<&[Rc<Tree>]>,
) -> CaseResult {
    let mut rec = Recognizer::with_forest(subject, F::fresh(subject, 16));
    let mut omitted = Omitted::default();
    by_hand(&mut rec, subject, input, lat, filter, ways, hints, &mut omitted)?;
    let Some(root) = rec.finished_node() else {
        return Err(Fail::new("acceptance", format!("no finished node with the {} forest: {}", name, what())));
    };
    let calls = Calls::default();
    let mut got = crate::evaluate::unwrap(rec.into_forest().values(Symbolic { subject, calls: &calls }, root))?;
    got.sort();
    match expected {
        Some(expected) => ensure_eq!(got, expected, format!("values-{}", name), "{} values of {}", name, what()),
        None => {
            let Some((mut auto, auto_calls)) = crate::evaluate::values::<F>(subject, lat, false)? else {
                return Err(Fail::new("acceptance", format!("not accepted automatically: {}", what())));
            };
            auto.sort();
            if ways.iter().all(|w| !matches!(w, Way::Reversed)) {
                ensure_eq!(got, auto, format!("values-{}", name), "{} values of {}", name, what());
            }
            ensure_eq!(calls.sorted(), auto_calls.sorted(), format!("calls-{}", name), "{} calls of {}", name, what());
        }
    }
    Ok(())
}

fn c13_filtered(tape: &mut Tape<'_>, ctx: &mut Ctx, spec: Spec) -> CaseResult {
    let ways = ways(tape);
    let filter = Filter {
        salt: tape.raw(),
        rules: [1, 2, 4, 0, 8][tape.below(5)],
        symbols: [0, 1, 2, 4][tape.below(4)],
        begun: [0, 8, 16][tape.below(3)],
    };
    let hinting = tape.chance(1, 4);
    let Some(input) = spec::accepted(tape, &spec, 12) else {
        ctx.label("skipped: no short sentence");
        return Ok(());
    };
    let lat = lattice(&input, |i| i as u32);
    let hints: Vec<bool> = (0..=input.len()).map(|_| hinting && tape.chance(1, 2)).collect();
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}, taken {:?} with {:?} and hints {:?}", spec.words(&input), spec.text(), ways, filter, hints);
    let (mut rec, recorder) = recorded(&subject);
    let mut omitted = Omitted::default();
    let verdict = by_hand(&mut rec, &subject, &input, &lat, &filter, &ways, &hints, &mut omitted)?;
    let record = recorder.0.borrow();
    if let Some(text) = &record.protocol {
        return Err(Fail::new("protocol", format!("{}: {}", text, what())));
    }
    // Every prefix that keeps a tree is finished, and nothing else.
    if !hinting {
        let start = spec.start;
        for j in 1..=input.len() {
            let n = reference.count(start, 0, j);
            if n > TREES {
                continue;
            }
            let expected = reference.trees(start, 0, j).iter().any(|t| filter.keeps(&spec, t, 0).0);
            let got = verdict.finished.get(j).copied().unwrap_or(false);
            ensure_eq!(got, expected, "finished", "finished state after {} tokens of {}", j, what());
        }
    }
    let expected: Vec<Rc<Tree>> = if input.is_empty() {
        reference.all()
    } else {
        reference.all().into_iter().filter(|t| filter.keeps(&spec, t, 0).0).collect()
    };
    let root = (verdict.read == input.len()).then(|| rec.finished_node()).flatten();
    let got = match root {
        Some(root) => Expand::new(&subject, &record, TREES as usize * 4).finished(root)?,
        None => vec![],
    };
    ensure_eq!(got, expected, "trees", "remaining trees of {}", what());
    let flat = !expected.is_empty() && !input.is_empty() && !reference.nested_ambiguity();
    if flat {
        evaluated::<simple_bocage::Bocage>("simple", &subject, &input, &lat, &filter, &ways, &hints, &what, Some(&expected))?;
        evaluated::<compact_bocage::Bocage>("compact", &subject, &input, &lat, &filter, &ways, &hints, &what, Some(&expected))?;
    }
    let some = omitted.groups + omitted.alternatives > 0;
    ctx.count("groups omitted", omitted.groups);
    ctx.count("alternatives omitted", omitted.alternatives);
    ctx.count("groups begun and given up", omitted.begun);
    ctx.label_if(omitted.begun > 0 && !expected.is_empty(), "groups begun and given up, trees left");
    ctx.label_if(some && !expected.is_empty(), "omissions that leave trees");
    ctx.label_if(total as usize > expected.len(), "trees removed");
    ctx.label_if(flat && some, "evaluated with omissions");
    ctx.nontrivial(input.len() >= 3 && some);
    note(ctx, &spec);
    ctx.case(&(&spec, &input, filter, &ways, &hints));
    ctx.describe(|| format!("{}: {} of {} trees", what(), expected.len(), total));
    Ok(())
}

fn c13_omit(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = match tape.below(3) {
        0 | 1 => spec::grammar(tape, Shape::default()),
        _ => unit_grammar(tape),
    };
    c13_filtered(tape, ctx, spec)
}
fn c13_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, nullable_shape());
    c13_filtered(tape, ctx, spec)
}


// Larger grammars and longer inputs.

fn c12_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c12_nullable(tape, ctx))
}

fn c13_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c13_all(tape, ctx))
}

fn c13_omissions_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c13_nullable(tape, ctx))
}

fn c12_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c12_nullable(tape, ctx))
}

fn c13_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c13_all(tape, ctx))
}
