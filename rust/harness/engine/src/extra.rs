//! Finished nodes over time, work, determinism, and what a forest is told.

use crate::engine::*;
use crate::evaluate::unwrap;
use crate::history::bounded;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Rule, Shape, Spec};
use cfg_symbol::Symbol;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::cell::RefCell;
use std::rc::Rc;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "A case is a generated grammar, an input, and a schedule: the finished node of \
                   every location that has one is kept; kept nodes are evaluated at generated \
                   moments while reading goes on (in either forest, shared with the recognizer) \
                   and all of them again at the end, in a generated order, some twice. Each value \
                   list must be that of the prefix: the reference's trees when ambiguity is at the \
                   root only, and otherwise the result of a separate parse of the prefix. \
                   Non-trivial: a node of an earlier location was evaluated after more was read.",
            assumptions: &[CLASS, "evaluators supply one value for every empty symbol, as documented"],
            arms: vec![
                Arm { name: "kept", quick: 25_000, thorough: 1_000_000, tape: (60, 400), run: c29_kept },
                Arm { name: "kept-nullable", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c29_nullable },
                Arm { name: "kept-large", quick: 2_500, thorough: 40_000, tape: (200, 3000), run: c29_large },
                Arm { name: "kept-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c29_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C30",
            rule: "Periodic arm: a generated left-recursive list of bounded items, or a generated \
                   bracket language nested from the middle, and a periodic input; grammar queries, \
                   forest calls and retained sets are counted per period, and periods far into the \
                   input must cost what earlier ones cost. General arm: a generated grammar and \
                   input; grammar queries must be within a fixed multiple of the constituents \
                   found (leaves, sums, alternatives, products, items kept), each weighted by the \
                   transitions of its symbol and the logarithm of the number of items. Time arm: \
                   a list or brackets of 40,000 tokens, read with each forest; the last tenth must \
                   not take over 4 times the processor time of the second tenth in each of five \
                   attempts. \
                   Non-trivial: at least 100 tokens (periodic) or 5 (general).",
            assumptions: &[CLASS, "cost is counted in queries to the grammar and calls to the forest, except in the time arm"],
            arms: vec![
                Arm { name: "periodic", quick: 1_500, thorough: 60_000, tape: (60, 400), run: c30_periodic },
                Arm { name: "nested", quick: 1_500, thorough: 60_000, tape: (60, 400), run: c30_nested },
                Arm { name: "middle", quick: 400, thorough: 12_000, tape: (60, 600), run: c30_middle },
                Arm { name: "time", quick: 60, thorough: 1_200, tape: (60, 400), run: c30_time },
                Arm { name: "general", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c30_general },
                Arm { name: "general-large", quick: 5_000, thorough: 60_000, tape: (200, 3000), run: c30_large },
            ],
            probes: vec![],
        },
        Property {
            id: "C31",
            rule: "A case is a generated grammar and input; the grammar is processed twice and \
                   both serialized forms must be equal; the input is parsed with each (and by a \
                   clone), and the complete sequences of forest calls, progress reports and \
                   values, in order, must be equal. Non-trivial: at least 3 tokens accepted.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "twice", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c31_twice },
                Arm { name: "twice-large", quick: 2_500, thorough: 40_000, tape: (200, 3000), run: c31_large },
                Arm { name: "twice-huge", quick: 60, thorough: 3000, tape: (200, 3000), run: c31_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C32",
            rule: "A case is a generated grammar and input with hints at generated locations; a \
                   forest that checks every call is told about the parse: each sum is begun, gets \
                   at least one alternative, and is ended with the symbol and start location that \
                   its alternatives have; alternatives are dotted rules over the node of the right \
                   symbol, or the product of nodes of the right two symbols; all nodes of a rule \
                   are adjacent, span from its start to this location, and were returned earlier \
                   by this forest; every scan makes one leaf with the scanned symbol, value and \
                   location. Non-trivial: at least 3 tokens and 2 sums.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "protocol", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c32_protocol },
                Arm { name: "protocol-nullable", quick: 15_000, thorough: 600_000, tape: (60, 400), run: c32_nullable },
                Arm { name: "protocol-large", quick: 5_000, thorough: 50_000, tape: (200, 3000), run: c32_large },
            ],
            probes: vec![],
        },
    ]
}

/// Most trees per prefix.
const FEW: u64 = 60;
/// Grammar queries per unit of work.
const BOUND: u64 = 4;
/// The same for large regular cases.
const BOUND_LARGE: u64 = 2;

fn rule(lhs: usize, rhs: Vec<usize>) -> Rule {
    Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs }
}

// ------------------------------------------------------------------------------------------
// C29

/// A forest that stays accessible while the recognizer owns it.
struct Shared<B>(Rc<RefCell<B>>);

impl<B: Forest> Forest for Shared<B> {
    type NodeRef = B::NodeRef;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = B::FOREST_BYTES_PER_RECOGNIZER_BYTE;
    fn begin_sum(&mut self) { self.0.borrow_mut().begin_sum() }
    fn push_summand(&mut self, item: Item<B::NodeRef>) { self.0.borrow_mut().push_summand(item) }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> B::NodeRef { self.0.borrow_mut().sum(lhs, origin) }
    fn product(&mut self, l: B::NodeRef, r: B::NodeRef) -> B::NodeRef { self.0.borrow_mut().product(l, r) }
    fn leaf(&mut self, sym: Symbol, pos: u32, value: u32) -> B::NodeRef { self.0.borrow_mut().leaf(sym, pos, value) }
    fn nulling(&self, sym: Symbol) -> B::NodeRef { self.0.borrow().nulling(sym) }
}

type Values = Vec<Rc<Tree>>;

fn evaluate<B: Evaluated>(subject: &Subject, forest: &mut B, root: B::NodeRef) -> Result<Values, Fail> {
    let calls = Calls::default();
    unwrap(forest.values(Symbolic { subject, calls: &calls }, root))
}

/// Values of every finished prefix, as `(location, values)`, in the order they were asked for.
fn kept<B: Evaluated>(
    subject: &Subject,
    lat: &Lattice,
    evaluate_at: &[usize],
    late: &mut dyn FnMut(usize) -> usize,
) -> Result<Vec<(usize, usize, Values)>, Fail> {
    let forest = Rc::new(RefCell::new(B::fresh(subject, 0)));
    let mut rec: Rec<'_, Shared<B>, DefaultPerfHint> = Recognizer::with_forest(subject, Shared(forest.clone()));
    let mut nodes = vec![];
    let mut out = vec![];
    let mut ok = true;
    for at in 0..=lat.len() {
        rec.begin_earleme();
        if at == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, subject, &lat[at - 1]);
        }
        if ok && evaluate_at[at] & 1 != 0 && !nodes.is_empty() {
            // With the location still open.
            let (location, node) = nodes[late(nodes.len())];
            out.push((location, at, evaluate(subject, &mut *forest.borrow_mut(), node)?));
        }
        ok = rec.end_earleme();
        if !ok {
            break;
        }
        if let Some(node) = rec.finished_node() {
            nodes.push((at, node));
        }
        if evaluate_at[at] & 2 != 0 && !nodes.is_empty() {
            let (location, node) = nodes[late(nodes.len())];
            out.push((location, at, evaluate(subject, &mut *forest.borrow_mut(), node)?));
            let again = rec.finished_node().is_some();
            ensure_eq!(again, nodes.last().unwrap().0 == at, "finished", "the finished state changed by evaluation at {}", at);
        }
    }
    let end = lat.len();
    drop(rec);
    let mut forest = Rc::try_unwrap(forest).ok().expect("the recognizer is gone").into_inner();
    // Every node once more, in some order, some twice.
    let mut order: Vec<usize> = (0..nodes.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, late(i + 1));
    }
    for k in 0..order.len() {
        if late(3) == 0 {
            order.push(order[k]);
        }
    }
    for k in order {
        let (location, node) = nodes[k];
        out.push((location, end, evaluate(subject, &mut forest, node)?));
    }
    Ok(out)
}

fn c29(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let mut spec = spec::grammar(tape, shape);
    if tape.chance(1, 2) {
        // Many prefixes become sentences.
        let list = spec.nsyms;
        spec.nsyms += 1;
        spec.terminal.push(false);
        spec.layout.push(Some(list));
        let item = spec.start;
        spec.rules.push(rule(list, vec![list, item]));
        spec.rules.push(rule(list, vec![item]));
        spec.order.push(spec.rules.len() - 2);
        spec.order.push(spec.rules.len() - 1);
        spec.start = list;
        if spec.cyclic() {
            // The item may be empty.
            spec.rules[spec.order.len() - 2].rhs = vec![item, item];
            spec.rules[spec.order.len() - 2].marks = vec![(!0, !0); 3];
            if spec.cyclic() {
                ctx.label("skipped: cyclic");
                return Ok(());
            }
        }
    }
    let mut input = spec::input(tape, &spec, max);
    input.truncate(36);
    let salt = tape.interesting_u32() | 1;
    let lat = lattice(&input, |i| (i as u32).wrapping_mul(salt));
    let subject = Subject::new(&spec);
    let mut reference = Reference::new(&spec, &lat);
    let viable = reference.viable();
    let finished: Vec<usize> = (0..=viable).filter(|&i| reference.sentence_at(i)).collect();
    if finished.is_empty() {
        ctx.label("skipped: no finished prefix");
        return Ok(());
    }
    // Number of trees of each finished prefix; all of them have to be listable.
    if finished.iter().any(|&at| reference.count(spec.start, 0, at) > FEW) {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let often = tape.below(3);
    let evaluate_at: Vec<usize> = (0..=lat.len()).map(|_| if often == 0 { 0 } else { tape.below(4) }).collect();
    let choices: Vec<usize> = (0..64).map(|_| tape.below(60)).collect();
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    // What each prefix alone gives.
    let mut expected: std::collections::BTreeMap<usize, (Option<Values>, Values, Values)> = Default::default();
    for &at in &finished {
        let prefix: Lattice = lat[..at].to_vec();
        let mut alone = Reference::new(&spec, &prefix);
        let known = if alone.nested_ambiguity() { None } else { Some(alone.all()) };
        let simple = crate::evaluate::values::<simple_bocage::Bocage>(&subject, &prefix, false)?;
        let compact = crate::evaluate::values::<compact_bocage::Bocage>(&subject, &prefix, false)?;
        let (Some((mut simple, _)), Some((mut compact, _))) = (simple, compact) else {
            return Err(Fail::new("finished", format!("prefix of {} tokens is not finished: {}", at, what())));
        };
        simple.sort();
        compact.sort();
        expected.insert(at, (known, simple, compact));
    }
    let mut later = 0;
    for compact in [false, true] {
        let mut k = 0;
        let mut late = |n: usize| {
            k += 1;
            choices[k % choices.len()] % n
        };
        let name = if compact { "compact" } else { "simple" };
        let got = if compact {
            kept::<compact_bocage::Bocage>(&subject, &lat, &evaluate_at, &mut late)?
        } else {
            kept::<simple_bocage::Bocage>(&subject, &lat, &evaluate_at, &mut late)?
        };
        let mut seen: Vec<usize> = got.iter().map(|g| g.0).collect();
        seen.sort();
        seen.dedup();
        ensure_eq!(seen, finished, "finished", "locations with a finished node of {}", what());
        for (location, when, mut values) in got {
            values.sort();
            let (known, simple, of_compact) = &expected[&location];
            if let Some(known) = known {
                ensure_eq!(&values, known, format!("values-{}", name), "{} values of the prefix of {} tokens, evaluated after {}: {}", name, location, when, what());
            }
            let alone = if compact { of_compact } else { simple };
            ensure_eq!(&values, alone, format!("values-{}", name), "{} values of the prefix of {} tokens, evaluated after {}, against a parse of it alone: {}", name, location, when, what());
            later += (when > location && location > 0) as u64;
        }
    }
    ctx.count("nodes evaluated after more was read", later);
    ctx.nontrivial(later > 0);
    ctx.label_if(finished.len() > 2, "more than 2 finished prefixes");
    ctx.label_if(often > 0, "evaluated while reading");
    note(ctx, &spec);
    ctx.case(&(&spec, &input, &evaluate_at));
    ctx.describe(|| format!("{}: finished at {:?}", what(), finished));
    Ok(())
}

fn c29_kept(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c29(tape, ctx, Shape { wide: false, ..Shape::default() }, 10)
}
fn c29_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c29(tape, ctx, nullable_shape(), 8)
}
fn c29_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c29(tape, ctx, Shape::default(), 16))
}

// ------------------------------------------------------------------------------------------
// C30

/// Counts what is built.
#[derive(Default, Clone, Copy, Debug, PartialEq)]
struct Tally {
    leaves: u64,
    sums: u64,
    summands: u64,
    products: u64,
    /// Sum of the numbers of transitions over the symbols completed.
    transitions: u64,
}

#[derive(Clone)]
struct Counter<'s>(Rc<RefCell<Tally>>, &'s Subject);

impl Counter<'_> {
    fn completed(&self, sym: Symbol) {
        pbt::tick();
        let g = &self.1.grammar;
        let n = if sym.usize() < g.num_syms() { g.completions(sym).len() } else { 2 };
        self.0.borrow_mut().transitions += 1 + n as u64;
    }
}

impl Forest for Counter<'_> {
    type NodeRef = ();
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<()>) {
        pbt::tick();
        self.0.borrow_mut().summands += 1;
    }
    fn sum(&mut self, lhs: Symbol, _: u32) {
        self.0.borrow_mut().sums += 1;
        self.completed(lhs);
    }
    fn product(&mut self, _: (), _: ()) {
        pbt::tick();
        self.0.borrow_mut().products += 1;
    }
    fn leaf(&mut self, sym: Symbol, _: u32, _: u32) {
        self.0.borrow_mut().leaves += 1;
        self.completed(sym);
    }
    fn nulling(&self, _: Symbol) {}
}

/// What was spent up to a location.
#[derive(Clone, Copy, Debug)]
struct Cost {
    work: u64,
    tally: Tally,
    medial: u64,
    most: u64,
    sets: u64,
}

/// Costs after each location, the start included, as far as the input was accepted.
fn costs(subject: &Subject, lat: &Lattice, hinted: bool) -> Vec<Cost> {
    let tally = Rc::new(RefCell::new(Tally::default()));
    let mut rec: Rec<'_, Counter<'_>, DefaultPerfHint> =
        Recognizer::with_forest(subject, Counter(tally.clone(), subject));
    let mut out: Vec<Cost> = vec![];
    let begin = subject.work.get();
    let mut medial = 0;
    let mut most = 1;
    for at in 0..=lat.len() + 1 {
        let work = subject.work.get() - begin;
        rec.begin_earleme();
        if at > 0 {
            let items = rec.medial_items().count() as u64;
            medial += items;
            most = most.max(items);
            out.push(Cost { work, tally: *tally.borrow(), medial, most, sets: rec.earleme() as u64 });
        }
        if at == lat.len() + 1 {
            break;
        }
        if hinted {
            let next = match lat.get(at) {
                Some(tokens) => subject.inner(tokens[0].0),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(&mut rec, sym);
            }
        }
        if at == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, subject, &lat[at - 1]);
        }
        if !rec.end_earleme() {
            break;
        }
    }
    out
}

/// Costs of whole periods.
fn steps(costs: &[Cost], first: usize, period: usize, n: usize) -> [i64; 7] {
    let (a, b) = (costs[first], costs[first + n * period]);
    let d = |x: u64, y: u64| y as i64 - x as i64;
    [
        d(a.work, b.work),
        d(a.tally.leaves, b.tally.leaves),
        d(a.tally.sums, b.tally.sums),
        d(a.tally.summands, b.tally.summands),
        d(a.tally.products, b.tally.products),
        d(a.medial, b.medial),
        d(a.tally.transitions, b.tally.transitions),
    ]
}

/// Stretches of equal length must cost nearly the same wherever they are.
fn compare(early: [i64; 7], late: [i64; 7], what: impl Fn() -> String) -> CaseResult {
    const NAMES: [&str; 7] = ["grammar queries", "leaves", "sums", "alternatives", "products", "items kept", "transitions"];
    for k in 0..7 {
        ensure!(
            late[k] <= early[k] + early[k] / 4 + 40,
            "growing",
            "{} grow with the position in the input: {} for a stretch, {} for as long a stretch later: {}",
            NAMES[k],
            early[k],
            late[k],
            what()
        );
    }
    Ok(())
}

/// A few items of a list.
pub fn list_period(tape: &mut Tape<'_>, spec: &Spec) -> Vec<usize> {
    let list = &spec.rules.iter().find(|r| r.lhs == 0 && r.rhs.len() > 1).unwrap().rhs;
    let between = list[2] == 1;
    // A few items make the period.
    let mut period: Vec<usize> = vec![];
    for _ in 0..tape.range(1, 4) {
        let mut pending = vec![1];
        let mut item = vec![];
        while let Some(s) = pending.pop() {
            if spec.terminal[s] {
                item.push(s);
                continue;
            }
            let rules: Vec<&Rule> = spec.rules.iter().filter(|r| r.lhs == s).collect();
            let r = rules[tape.below(rules.len())];
            pending.extend(r.rhs.iter().rev());
        }
        period.extend(item);
        period.push(if between { list[1] } else { list[2] });
    }
    period
}

fn c30_periodic(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (spec, longest) = bounded(tape);
    if longest > 40 || spec.cyclic() {
        ctx.label("skipped: long items");
        return Ok(());
    }
    let period = list_period(tape, &spec);
    let stretch = [4, 10, 30, 100][tape.below(4)].min(1 + 1200 / period.len());
    let input: Vec<usize> = (0..(3 * stretch + 2)).flat_map(|_| period.iter().copied()).collect();
    let lat = lattice(&input, |i| i as u32);
    let hinted = tape.chance(1, 3);
    let subject = Subject::new(&spec);
    let what = || format!("{} times {} (hints: {}) by {}", 3 * stretch + 2, spec.words(&period), hinted, spec.text());
    let costs = costs(&subject, &lat, hinted);
    let usable = costs.len() >= lat.len();
    ensure!(usable, "accepted", "{} of {} tokens were accepted: {}", costs.len(), lat.len(), what());
    let p = period.len();
    let early = steps(&costs, p, p, stretch);
    let late = steps(&costs, p * (2 * stretch + 1), p, stretch);
    compare(early, late, what)?;
    let sets = |n: usize| costs[p * n..p * (n + 1)].iter().map(|c| c.sets).max().unwrap();
    let (soon, last) = (sets(1), sets(3 * stretch));
    ensure!(last <= soon + 2, "sets", "{} sets are retained at most in the second period, {} in period {}: {}", soon, last, 3 * stretch, what());
    ctx.nontrivial(input.len() >= 100);
    ctx.label_if(input.len() > 1000, "more than 1000 tokens");
    ctx.label_if(early == late, "both stretches cost exactly the same");
    ctx.case(&(&spec, &period, stretch, hinted));
    ctx.describe(|| format!("{}: {:?}, later {:?}", what(), early, late));
    Ok(())
}

/// Costs that no query or call shows.
fn c30_time(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    const TOKENS: usize = 40_000;
    let (spec, period, opening) = if !tape.chance(1, 4) {
        let (spec, longest) = bounded(tape);
        if longest > 40 || spec.cyclic() {
            ctx.label("skipped: long items");
            return Ok(());
        }
        let period = list_period(tape, &spec);
        (spec, period, false)
    } else {
        // The opening side of brackets: every set is kept.
        let (spec, first, pairs) = brackets(tape);
        let period = (0..tape.range(1, 4)).map(|_| first + 2 * tape.below(pairs)).collect();
        (spec, period, true)
    };
    let input: Vec<usize> = period.iter().copied().cycle().take(TOKENS).collect();
    let lat = lattice(&input, |i| i as u32);
    let hinted = tape.chance(1, 3);
    let which = tape.below(3);
    let subject = Subject::new(&spec);
    pbt::set_tick_budget(u64::MAX);
    let what = || format!("{} tokens of {} (hints: {}) by {}", TOKENS, spec.words(&period), hinted, spec.text());
    let mut least = f64::MAX;
    let mut shown = (0, 0);
    for _ in 0..5 {
        let times = match which {
            0 => timed(&subject, &lat, hinted, gearley_forest::null_forest::NullForest),
            1 => timed(&subject, &lat, hinted, simple_bocage::Bocage::fresh(&subject, 0)),
            _ => timed(&subject, &lat, hinted, compact_bocage::Bocage::fresh(&subject, 0)),
        };
        ensure_eq!(times.len(), 11, "accepted", "tenths of the input that were accepted, and the start: {}", what());
        let spent = |tenth: usize| times[tenth + 1].saturating_sub(times[tenth]);
        let ratio = spent(9) as f64 / spent(1).max(200_000) as f64;
        if ratio < least {
            least = ratio;
            shown = (spent(1), spent(9));
        }
        if least <= 4.0 {
            break;
        }
    }
    ensure!(least <= 4.0, "time", "the second tenth takes {} ns, the last tenth {} ns: {}", shown.0, shown.1, what());
    if std::env::var_os("C30_SHOW").is_some() {
        eprintln!("time {:.2} {:?} {}", least, shown, what());
    }
    ctx.nontrivial(true);
    ctx.label_if(opening, "opening brackets");
    ctx.case(&(&spec, &period, hinted, which));
    ctx.describe(what);
    Ok(())
}

/// Processor time in nanoseconds at the start and after each tenth.
fn timed<F: Forest>(subject: &Subject, lat: &Lattice, hinted: bool, forest: F) -> Vec<u64> {
    // The grammar itself, so that the harness adds nothing.
    let mut rec: Recognizer<&DefaultGrammar, F, DefaultPerfHint> = Recognizer::with_forest(&subject.grammar, forest);
    let inner: Vec<Symbol> = lat.iter().map(|t| subject.inner(t[0].0).expect("used symbol")).collect();
    let mut out = vec![pbt::cpu_time()];
    rec.begin_earleme();
    rec.scan(subject.grammar.sof(), 0);
    rec.end_earleme();
    for (at, &sym) in inner.iter().enumerate() {
        rec.begin_earleme();
        if hinted {
            // Known before the token is read.
            if let Some(&next) = inner.get(at + 1) {
                rec.lookahead().set_hint(next);
            }
        }
        rec.scan(sym, at as u32);
        if !rec.end_earleme() {
            return out;
        }
        if (at + 1) % (inner.len() / 10) == 0 {
            out.push(pbt::cpu_time());
        }
    }
    out
}

/// Brackets nested around a middle: the first bracket and the number of pairs.
pub fn brackets(tape: &mut Tape<'_>) -> (Spec, usize, usize) {
    let pairs = tape.range(1, 4);
    let through = tape.below(3);
    let middle = 1 + through;
    let first = middle + 1;
    let nsyms = first + 2 * pairs;
    let mut rules = vec![];
    // The nested symbol is reached through unit rules.
    for k in 0..through {
        rules.push(rule(1 + k, vec![if k + 1 < through { 2 + k } else { 0 }]));
    }
    let inner = if through > 0 { 1 } else { 0 };
    for k in 0..pairs {
        rules.push(rule(0, vec![first + 2 * k, inner, first + 2 * k + 1]));
    }
    rules.push(rule(0, vec![middle]));
    if tape.chance(1, 3) {
        rules.push(rule(0, vec![middle, middle]));
    }
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= middle).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: 0,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    (spec, first, pairs)
}

fn c30_nested(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (spec, first, pairs) = brackets(tape);
    let middle = first - 1;
    let period: Vec<usize> = (0..tape.range(1, 4)).map(|_| tape.below(pairs)).collect();
    let stretch = [4, 10, 30, 100][tape.below(4)];
    let depth = (3 * stretch + 2) * period.len();
    let open: Vec<usize> = (0..depth).map(|i| period[i % period.len()]).collect();
    let mut input: Vec<usize> = open.iter().map(|&k| first + 2 * k).collect();
    input.push(middle);
    input.extend(open.iter().rev().map(|&k| first + 2 * k + 1));
    let lat = lattice(&input, |i| i as u32);
    let hinted = tape.chance(1, 3);
    let subject = Subject::new(&spec);
    let what = || format!("{} brackets with period {:?} (hints: {}) by {}", depth, period, hinted, spec.text());
    let costs = costs(&subject, &lat, hinted);
    ensure!(costs.len() == lat.len() + 1, "accepted", "{} of {} tokens were accepted: {}", costs.len(), lat.len(), what());
    let p = period.len();
    for (side, base) in [("opening", 0), ("closing", depth + 1)] {
        let early = steps(&costs, base + p, p, stretch);
        let late = steps(&costs, base + p * (2 * stretch + 1) - 1, p, stretch);
        compare(early, late, || format!("{}: {}", side, what()))?;
        ctx.label_if(early == late, "both stretches cost exactly the same");
    }
    ctx.nontrivial(input.len() >= 100);
    ctx.label_if(input.len() > 1000, "more than 1000 tokens");
    ctx.case(&(&spec, &period, stretch, hinted));
    ctx.describe(what);
    Ok(())
}

/// Rules around a middle that can be anywhere: every set holds items for every start.
fn c30_middle(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let crowded = tape.below(4);
    let nonterminals = tape.range(1, 3) + (crowded > 0) as usize;
    let terminals = tape.range(1, 3);
    let nsyms = nonterminals + terminals;
    let t = |tape: &mut Tape<'_>| nonterminals + tape.below(terminals);
    let mut rules = vec![];
    for lhs in 0..nonterminals {
        rules.push(rule(lhs, vec![nonterminals]));
        if crowded > 0 && lhs == nonterminals - 1 {
            continue;
        }
        for _ in 0..tape.range(1, 3) {
            let inner = tape.below(nonterminals);
            let (before, after) = (if tape.chance(1, 2) { nonterminals } else { t(tape) }, t(tape));
            rules.push(rule(lhs, vec![before, inner, after]));
        }
    }
    // Always some that overlap.
    rules.push(rule(0, vec![nonterminals, 0, nonterminals]));
    if crowded > 0 {
        // Completed between any two locations, while few items wait for it.
        let last = nonterminals - 1;
        let then = t(tape);
        rules.push(rule(0, match crowded {
            1 => vec![nonterminals, last, then],
            2 => vec![last, then],
            _ => vec![nonterminals, last, then, then],
        }));
        rules.push(rule(last, if tape.chance(1, 2) { vec![nonterminals, last] } else { vec![last, nonterminals] }));
    }
    let rules_n = rules.len();
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= nonterminals).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: 0,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    let n = [40, 150, 400, 700][tape.below(4)];
    // About eight calls per rule and span.
    let most = (1.2e6 / rules_n as f64).sqrt() as usize;
    let n = tape.range(n / 2, n).min(most);
    let mixed = tape.chance(1, 3);
    let input: Vec<usize> = (0..n).map(|_| if mixed && tape.chance(1, 10) { t(tape) } else { nonterminals }).collect();
    c30_check(tape, ctx, spec, input, BOUND_LARGE)
}

fn c30(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let input = spec::input(tape, &spec, max);
    c30_check(tape, ctx, spec, input, BOUND)
}

fn c30_check(tape: &mut Tape<'_>, ctx: &mut Ctx, spec: Spec, input: Vec<usize>, bound: u64) -> CaseResult {
    pbt::set_tick_budget(200_000_000);
    let lat = lattice(&input, |i| i as u32);
    let hinted = tape.chance(1, 4);
    let subject = Subject::new(&spec);
    let costs = costs(&subject, &lat, hinted);
    let what = || format!("{} (hints: {}) by {}", spec.words(&input), hinted, spec.text());
    let Some(&end) = costs.last() else { return Ok(()) };
    let t = end.tally;
    ensure!(t.products <= t.summands + end.medial, "products", "{} products for {} alternatives: {}", t.products, t.summands, what());
    ensure!(t.sums <= t.summands, "sums", "{} sums for {} alternatives: {}", t.sums, t.summands, what());
    // The heap holds the completions of one location.
    let heap = costs.windows(2).map(|c| c[1].tally.summands - c[0].tally.summands).max().unwrap_or(0);
    let log = 2 + (64 - (end.most + heap).leading_zeros()) as u64;
    let units = t.transitions + log * (t.leaves + t.sums + t.summands + t.products + end.medial) + lat.len() as u64 + 4;
    if std::env::var_os("C30_SHOW").is_some() {
        eprintln!("{:.3} work {} units {}", end.work as f64 / units as f64, end.work, units);
    }
    ensure!(
        end.work <= bound * units,
        "work",
        "{} grammar queries for {:?} and {} items kept (at most {} in a set): {}",
        end.work,
        t,
        end.medial,
        end.most,
        what()
    );
    ctx.nontrivial(costs.len() > 5);
    ctx.label_if(costs.len() > 100, "more than 100 tokens");
    ctx.label_if(end.most > 100, "more than 100 items in a set");
    note(ctx, &spec);
    ctx.case(&(&spec, &input, hinted));
    ctx.describe(|| format!("{}: {} queries of at most {}", what(), end.work, bound * units));
    Ok(())
}

fn c30_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = if tape.chance(1, 3) { nullable_shape() } else { Shape::default() };
    c30(tape, ctx, shape, 40)
}
fn c30_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c30(tape, ctx, Shape::default(), 60))
}

// ------------------------------------------------------------------------------------------
// C31

/// Everything that parsing an input shows, in order.
fn story(subject: &Subject, lat: &Lattice) -> Result<(String, Values, Values), Fail> {
    let (mut rec, recorder) = recorded(subject);
    let mut looks = vec![];
    let verdict = run(&mut rec, subject, lat, |l| recorder.at(l));
    let mut again = null_rec(subject);
    again.begin_earleme();
    looks.push(crate::history::look(&mut again));
    let sof = subject.grammar.sof();
    again.scan(sof, 0);
    if again.end_earleme() {
        for tokens in lat {
            again.begin_earleme();
            looks.push(crate::history::look(&mut again));
            scan_all(&mut again, subject, tokens);
            if !again.end_earleme() {
                break;
            }
        }
    }
    let root = rec.finished_node();
    let text = format!("{:?} {:?} {:?} {:?}", verdict, root, recorder.0.borrow(), looks);
    let (mut simple, mut compact) = (vec![], vec![]);
    if verdict.read == lat.len() && root.is_some() {
        if let Some((v, _)) = crate::evaluate::values::<simple_bocage::Bocage>(subject, lat, false)? {
            simple = v;
        }
        if let Some((v, _)) = crate::evaluate::values::<compact_bocage::Bocage>(subject, lat, false)? {
            compact = v;
        }
    }
    Ok((text, simple, compact))
}

fn c31(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let input = spec::input(tape, &spec, max);
    let lat = lattice(&input, |i| i as u32);
    let reference = &mut Reference::new(&spec, &lat);
    if reference.total() > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let viable = reference.viable();
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let first = Subject::new(&spec);
    let second = Subject::new(&spec);
    let third = Subject::with(spec.build(), first.grammar.clone());
    let tables = |s: &Subject| miniserde::json::to_string(&s.grammar);
    let a = tables(&first);
    ensure!(a == tables(&second), "tables", "processing the grammar twice gives different tables: {}\n{}\n{}", what(), a, tables(&second));
    ensure!(a == tables(&third), "tables", "a clone of the processed grammar has different tables: {}", what());
    let one = story(&first, &lat)?;
    for (name, subject) in [("the same grammar", &first), ("the grammar processed again", &second), ("a clone of the grammar", &third)] {
        let other = story(subject, &lat)?;
        ensure!(other.0 == one.0, "calls", "parsing again with {} gives other calls: {}\n{}\n{}", name, what(), one.0, other.0);
        ensure_eq!(other.1, one.1, "values-simple", "values of another parse with {}: {}", name, what());
        ensure_eq!(other.2, one.2, "values-compact", "values of another parse with {}: {}", name, what());
    }
    ensure!(a == tables(&first), "tables", "parsing changed the tables: {}", what());
    ctx.nontrivial(viable >= 3);
    ctx.label_if(one.1.len() > 1, "ambiguous");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(what);
    Ok(())
}

fn c31_twice(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = if tape.chance(1, 3) { nullable_shape() } else { Shape::default() };
    c31(tape, ctx, shape, 12)
}
fn c31_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c31(tape, ctx, Shape::default(), 20))
}

// ------------------------------------------------------------------------------------------
// C32

#[derive(Clone, Copy, Debug)]
enum Made {
    /// Symbol, from, to.
    Symbol(Symbol, usize, usize),
    /// Left and right symbol, from, to.
    Pair(Symbol, Symbol, usize, usize),
    Nulling,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Ticket(u32);

struct Watch {
    /// Left-hand side and right-hand side of every rule.
    rules: std::collections::BTreeMap<u32, (Symbol, Symbol, Option<Symbol>)>,
    made: Vec<Made>,
    open: Option<Vec<Item<Ticket>>>,
    /// Tokens read, the start of input and the one being read included.
    location: usize,
    /// Locations of the sets that the recognizer retains.
    starts: Vec<usize>,
    /// Set number as the recognizer counts.
    earleme: usize,
    leaves: Vec<(Symbol, u32)>,
    sums: u64,
    alternatives: u64,
    wrong: Option<(&'static str, String)>,
}

impl Watch {
    fn wrong(&mut self, kind: &'static str, text: String) {
        if self.wrong.is_none() {
            self.wrong = Some((kind, format!("after {} tokens: {}", self.location.wrapping_sub(2), text)));
        }
    }
    fn add(&mut self, made: Made) -> Ticket {
        pbt::tick();
        self.made.push(made);
        Ticket(self.made.len() as u32 - 1)
    }
    fn made(&self, t: Ticket) -> Made {
        self.made[t.0 as usize]
    }
    fn start(&mut self, origin: u32) -> usize {
        match self.starts.get(origin as usize) {
            Some(&s) => s,
            None => {
                self.wrong("start", format!("start location {} is past the end", origin));
                usize::MAX
            }
        }
    }
}

#[derive(Clone)]
struct Watched(Rc<RefCell<Watch>>);

impl Forest for Watched {
    type NodeRef = Ticket;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        let mut w = self.0.borrow_mut();
        pbt::tick();
        if w.open.is_some() {
            w.wrong("order", "a sum was begun inside of another".to_string());
        }
        w.open = Some(vec![]);
    }
    fn push_summand(&mut self, item: Item<Ticket>) {
        let mut w = self.0.borrow_mut();
        pbt::tick();
        w.alternatives += 1;
        match &mut w.open {
            None => w.wrong("order", "an alternative was delivered outside of a sum".to_string()),
            Some(open) => {
                let same = |o: &Item<Ticket>| o.dot == item.dot && o.node == item.node;
                let again = open.len() < 500 && open.iter().any(same);
                open.push(item);
                if again {
                    w.wrong("twice", format!("alternative {:?} was delivered twice", item));
                }
            }
        }
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> Ticket {
        let mut w = self.0.borrow_mut();
        w.sums += 1;
        let from = w.start(origin);
        let to = w.location;
        let items = match w.open.take() {
            None => {
                w.wrong("order", "a sum was ended that was not begun".to_string());
                vec![]
            }
            Some(items) => {
                if items.is_empty() {
                    w.wrong("empty", "a sum without alternatives was ended".to_string());
                }
                items
            }
        };
        for item in items {
            if item.origin != origin {
                w.wrong("start", format!("alternative {:?} in a sum that starts at {}", item, origin));
            }
            let Some(&(of, rhs0, rhs1)) = w.rules.get(&item.dot) else {
                w.wrong("rule", format!("alternative {:?} of no rule", item));
                continue;
            };
            if of != lhs {
                w.wrong("symbol", format!("alternative {:?} in a sum of {:?}", item, lhs));
            }
            let fits = match (w.made(item.node), rhs1) {
                (Made::Symbol(sym, i, j), None) => sym == rhs0 && i == from && j == to,
                (Made::Pair(l, r, i, j), Some(right)) => l == rhs0 && r == right && i == from && j == to,
                _ => false,
            };
            if !fits {
                let made = w.made(item.node);
                w.wrong("node", format!("rule {} of {:?} {:?} over {}..{} is given {:?}", item.dot, rhs0, rhs1, from, to, made));
            }
        }
        w.add(Made::Symbol(lhs, from, to))
    }
    fn product(&mut self, left: Ticket, right: Ticket) -> Ticket {
        let mut w = self.0.borrow_mut();
        if w.open.is_some() {
            w.wrong("order", "a product was made inside of a sum".to_string());
        }
        let made = match (w.made(left), w.made(right)) {
            (Made::Symbol(l, i, j), Made::Symbol(r, j2, k)) => {
                if j != j2 || k != w.location {
                    w.wrong("span", format!("{:?} over {}..{} and {:?} over {}..{} make a product", l, i, j, r, j2, k));
                }
                Made::Pair(l, r, i, k)
            }
            (l, r) => {
                w.wrong("node", format!("{:?} and {:?} make a product", l, r));
                Made::Nulling
            }
        };
        w.add(made)
    }
    fn leaf(&mut self, sym: Symbol, pos: u32, value: u32) -> Ticket {
        let mut w = self.0.borrow_mut();
        w.leaves.push((sym, value));
        if w.open.is_some() {
            w.wrong("order", "a leaf was made inside of a sum".to_string());
        }
        let here = w.earleme + 1;
        if pos as usize != here {
            w.wrong("position", format!("a leaf ends at {} instead of {}", pos, here));
        }
        let to = w.location;
        w.add(Made::Symbol(sym, to - 1, to))
    }
    fn nulling(&self, _: Symbol) -> Ticket {
        self.0.borrow_mut().add(Made::Nulling)
    }
}

/// Rules of the processed grammar, from the tables of transitions.
fn internal_rules(subject: &Subject) -> std::collections::BTreeMap<u32, (Symbol, Symbol, Option<Symbol>)> {
    let g = &subject.grammar;
    let mut out = std::collections::BTreeMap::new();
    let n = g.num_syms() + g.num_gensyms();
    for sym in cfg_symbol::SymbolSource::generate_fresh().take(n) {
        let mut add = |dot: u32| {
            out.insert(dot, (g.get_lhs(dot), sym, g.get_rhs1(dot)));
        };
        if sym.usize() < g.num_syms() {
            g.completions(sym).iter().for_each(|t| add(t.dot));
        } else {
            g.gen_completion(sym).iter().flatten().for_each(|t| add(t.dot));
        }
    }
    out
}

fn c32(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape, max: usize) -> CaseResult {
    let spec = spec::grammar(tape, shape);
    let mut input = spec::input(tape, &spec, max);
    if tape.chance(1, 2) {
        if let Some(i) = spec::accepted(tape, &spec, max) {
            input = i;
        }
    }
    let several = tape.chance(1, 4);
    let mut lat = lattice(&input, |i| (i as u32).wrapping_mul(0x9e37_79b9));
    if several {
        let terminals = spec.terminals();
        for tokens in &mut lat {
            if tape.chance(1, 3) {
                let t = *tape.pick(&terminals);
                if t != tokens[0].0 {
                    tokens.push((t, tape.raw()));
                }
            }
        }
    }
    let hints = if several { 0 } else { tape.below(3) };
    let subject = Subject::new(&spec);
    let watch = Rc::new(RefCell::new(Watch {
        rules: internal_rules(&subject),
        made: vec![],
        open: None,
        location: 0,
        starts: vec![],
        earleme: 0,
        leaves: vec![],
        sums: 0,
        alternatives: 0,
        wrong: None,
    }));
    let what = || format!("{:?} by {}", lat, spec.text());
    let mut rec: Rec<'_, Watched, DefaultPerfHint> = Recognizer::with_forest(&subject, Watched(watch.clone()));
    let mut scans = vec![];
    let mut read = 0;
    for at in 0..=lat.len() {
        rec.begin_earleme();
        {
            let mut w = watch.borrow_mut();
            w.earleme = rec.earleme();
            w.starts.truncate(rec.earleme());
            w.starts.push(at);
            w.location = at + 1;
        }
        if hints == 1 || hints == 2 && tape.chance(1, 2) {
            let next = match lat.get(at) {
                Some(tokens) => subject.inner(tokens[0].0),
                None => Some(subject.grammar.eof()),
            };
            if let Some(sym) = next {
                hint(&mut rec, sym);
            }
        }
        if at == 0 {
            let sof = subject.grammar.sof();
            scans.push((sof, 0));
            rec.scan(sof, 0);
        } else {
            for &(t, value) in &lat[at - 1] {
                if let Some(sym) = subject.inner(t) {
                    scans.push((sym, value));
                    rec.scan(sym, value);
                }
            }
        }
        let ok = rec.end_earleme();
        let mut w = watch.borrow_mut();
        if w.open.is_some() {
            w.wrong("order", "a sum was begun and not ended".to_string());
        }
        if let Some((kind, text)) = &w.wrong {
            return Err(Fail::new(*kind, format!("{}: {}", text, what())));
        }
        if !ok {
            break;
        }
        read = at;
    }
    let root = rec.finished_node();
    let w = watch.borrow();
    ensure_eq!(w.leaves, scans, "leaves", "leaves of {}", what());
    if let (Some(root), true) = (root, read == lat.len() && read > 0) {
        // The start of input and the start symbol, next to each other.
        match w.made(root) {
            Made::Symbol(_, 0, to) if to == read + 1 => {}
            other => return Err(Fail::new("root", format!("the finished node is {:?} after {} tokens: {}", other, read, what()))),
        }
        ctx.label("finished");
    }
    ctx.nontrivial(read >= 3 && w.sums >= 2);
    ctx.label_if(several, "several tokens per location");
    ctx.label_if(hints > 0, "with hints");
    ctx.count("sums", w.sums);
    ctx.count("alternatives", w.alternatives);
    note(ctx, &spec);
    ctx.case(&(&spec, &lat));
    ctx.describe(what);
    Ok(())
}

fn c32_protocol(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c32(tape, ctx, Shape::default(), 14)
}
fn c32_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c32(tape, ctx, nullable_shape(), 12)
}
fn c32_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c32(tape, ctx, Shape::default(), 30))
}

fn c29_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c29(tape, ctx, Shape::default(), 16))
}

fn c31_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c31(tape, ctx, Shape::default(), 20))
}
