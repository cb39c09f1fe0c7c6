//! Inputs of tens of thousands of tokens, nested to any depth, and hundreds of alternatives, over
//! grammars whose verdicts and derivations are known by construction.

use crate::engine::*;
use crate::evaluate::{bracketed, values};
use crate::extra::{brackets, list_period};
use crate::history::bounded;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{Rule, Spec};
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, CaseResult, Ctx, Fail, Tape};
use std::rc::Rc;

/// A long input, with everything known about it.
pub struct Long {
    pub spec: Spec,
    pub input: Vec<usize>,
    /// Number of tokens that can be read, and the finished states up to there.
    pub viable: usize,
    pub finished: Vec<bool>,
    /// No more sets than this may be kept.
    pub kept: usize,
    pub text: String,
}

fn length(tape: &mut Tape<'_>) -> usize {
    match tape.weighted(&[2, 2, 2, 2, 1]) {
        0 => tape.range(250, 600),
        1 => tape.range(2_000, 9_000),
        2 => tape.range(30_000, 36_000),
        3 => tape.range(65_000, 72_000),
        _ => tape.range(130_000, 150_000),
    }
}

/// A left-recursive list of bounded items, of a repeated run of items; or nested brackets. The
/// last part of the case is a token put in the place of another one.
pub fn long(tape: &mut Tape<'_>) -> Option<Long> {
    let len = length(tape);
    let mut long = match tape.below(7) {
        0 | 1 => nested(tape, len),
        2 => phases(tape, len),
        _ => list(tape, len)?,
    };
    long.text = format!("{}, by {}", long.text, long.spec.text());
    Some(long)
}

fn list(tape: &mut Tape<'_>, len: usize) -> Option<Long> {
    let (spec, longest) = bounded(tape);
    if longest > 40 || spec.cyclic() {
        return None;
    }
    let period = list_period(tape, &spec);
    let p = period.len();
    let mut input: Vec<usize> = period.iter().copied().cycle().take(len).collect();
    // Every period but the first is like the second.
    let short: Vec<usize> = period.iter().copied().cycle().take(3 * p).collect();
    let lat = lattice(&short, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    if reference.viable() < short.len() {
        return None;
    }
    let like = |i: usize| if i < p { i } else { p + (i - p) % p };
    let mut viable = len;
    let mut broken = None;
    if tape.chance(1, 2) {
        let at = if tape.chance(1, 2) { len - 1 - tape.below(len.min(20)) } else { tape.below(len) };
        let terminals = spec.terminals();
        let t = *tape.pick(&terminals);
        if !reference.predicted(like(at)).contains(&t) {
            input[at] = t;
            viable = at;
            broken = Some((at, t));
        }
    }
    let ends: Vec<bool> = (0..3 * p).map(|i| reference.sentence_at(i)).collect();
    let finished = (0..=viable).map(|i| ends[like(i)]).collect();
    let text = format!("{} tokens of {} (replaced: {:?})", len, spec.words(&period), broken);
    Some(Long { spec, input, viable, finished, kept: longest + 2, text })
}

/// Lists one after another, each of items of its own, so that locations differ by what may come
/// next.
fn phases(tape: &mut Tape<'_>, len: usize) -> Long {
    let count = tape.range(2, 5);
    let (start, maybe, never) = (0, 1, 2);
    let mut rules: Vec<Rule> = vec![];
    let mut nsyms = 3;
    let add = |rules: &mut Vec<Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
    };
    let mut symbol = || {
        nsyms += 1;
        nsyms - 1
    };
    add(&mut rules, maybe, vec![]);
    add(&mut rules, maybe, vec![never]);
    let mut lists = vec![];
    // Items of every list: all are as long as the list's first one, and start in their own way.
    let mut items: Vec<Vec<Vec<usize>>> = vec![];
    for _ in 0..count {
        let list = symbol();
        let mut last = symbol();
        add(&mut rules, list, if tape.chance(3, 4) { vec![list, last] } else { vec![list, maybe, last] });
        add(&mut rules, list, vec![last]);
        for _ in 0..tape.below(3) {
            let next = symbol();
            add(&mut rules, last, if tape.chance(1, 2) { vec![next] } else { vec![next, maybe] });
            last = next;
        }
        let size = tape.range(1, 5);
        let mut own = vec![];
        for _ in 0..tape.range(1, 3) {
            let item: Vec<usize> = (0..size).map(|_| symbol()).collect();
            let mut rhs = item.clone();
            if tape.chance(1, 2) {
                rhs.insert(tape.below(size + 1), maybe);
            }
            add(&mut rules, last, rhs);
            own.push(item);
        }
        lists.push(list);
        items.push(own);
    }
    if tape.chance(1, 2) {
        add(&mut rules, start, lists);
    } else {
        // One after another.
        let mut before = lists[0];
        for (k, &list) in lists.iter().enumerate().skip(1) {
            let both = if k + 1 == count { start } else { symbol() };
            add(&mut rules, both, vec![before, list]);
            before = both;
        }
    }
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| !rules.iter().any(|r| r.lhs == s)).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    // One list is the longest.
    let main = tape.below(count);
    let mut input = vec![];
    let mut ends = vec![];
    for (k, own) in items.iter().enumerate() {
        let share = if k == main { len } else { [1, 50, 300, len / 4, len][tape.below(5)] };
        for n in 0..(share / own[0].len()).max(1) {
            input.extend(&own[n * (n + 1) / 2 % own.len()]);
        }
        ends.push(input.len());
    }
    let mut viable = input.len();
    let mut broken = None;
    if tape.chance(1, 2) {
        // Items of another list, or the same, elsewhere than at the start of one.
        let at = match tape.below(3) {
            0 => input.len() - 1 - tape.below(input.len().min(20)),
            1 => *tape.pick(&ends) - 1,
            _ => tape.below(input.len()),
        };
        let phase = ends.iter().position(|&end| at < end).unwrap();
        let from = if phase == 0 { 0 } else { ends[phase - 1] };
        let size = items[phase][0].len();
        let t = items[tape.below(count)][0][0];
        // At the start of an item, these are the next list's or this one's.
        let first = (at - from) % size == 0;
        let fine = first && (items[phase].iter().any(|i| i[0] == t) || at > from && phase + 1 < count && items[phase + 1].iter().any(|i| i[0] == t) || at == from && phase > 0 && items[phase - 1].iter().any(|i| i[0] == t));
        if !fine && input[at] != t {
            input[at] = t;
            viable = at;
            broken = Some((at, t));
        }
    }
    let tail = if count == 1 { 0 } else { ends[count - 2] };
    let size = items[count - 1][0].len();
    let finished = (0..=viable).map(|i| i > tail && (i - tail) % size == 0).collect();
    let text = format!("lists of {:?} up to {:?} (replaced: {:?})", items, ends, broken);
    Long { spec, kept: input.len(), input, viable, finished, text }
}

fn nested(tape: &mut Tape<'_>, len: usize) -> Long {
    let (spec, first, pairs) = brackets(tape);
    let middle = first - 1;
    let period: Vec<usize> = (0..tape.range(1, 5)).map(|_| tape.below(pairs)).collect();
    let depth = len / 2;
    let open: Vec<usize> = period.iter().copied().cycle().take(depth).collect();
    let mut input: Vec<usize> = open.iter().map(|&k| first + 2 * k).collect();
    input.push(middle);
    let double = spec.rules.iter().any(|r| r.rhs == [middle, middle]) && tape.chance(1, 2);
    if double {
        input.push(middle);
    }
    let inner = input.len();
    input.extend(open.iter().rev().map(|&k| first + 2 * k + 1));
    let mut viable = input.len();
    let mut broken = None;
    if tape.chance(1, 2) {
        let at = if tape.chance(1, 2) { input.len() - 1 - tape.below(20) } else { inner + tape.below(depth) };
        let t = first + tape.below(2 * pairs);
        if t != input[at] {
            input[at] = t;
            viable = at;
            broken = Some((at, t));
        }
    }
    let mut finished = vec![false; viable + 1];
    if viable == input.len() {
        finished[viable] = true;
    }
    let text = format!("{} brackets as in {:?} (replaced: {:?})", depth, period, broken);
    Long { spec, kept: input.len(), input, viable, finished, text }
}

pub fn describe(ctx: &mut Ctx, long: &Long) {
    ctx.nontrivial(long.viable >= 200);
    ctx.label_if(long.viable > 256, "more than 256 tokens");
    ctx.label_if(long.viable > 32_768, "more than 32768 tokens");
    ctx.label_if(long.viable > 65_536, "more than 65536 tokens");
    ctx.label_if(long.viable > 131_072, "more than 131072 tokens");
    ctx.label_if(long.viable < long.input.len(), "rejected");
    ctx.case(&(&long.spec, &long.input));
    ctx.describe(|| long.text.clone());
}

/// The run over a long input is as expected; the hook sees the recognizer before each location is
/// closed, and whether a hint was given is up to it.
fn read<F: gearley_forest::Forest>(
    subject: &Subject,
    long: &Long,
    mut rec: Rec<'_, F, DefaultPerfHint>,
    announced: bool,
    mut hook: impl FnMut(&mut Rec<'_, F, DefaultPerfHint>, usize) -> CaseResult,
) -> CaseResult {
    let symbols: Vec<Option<cfg::Symbol>> = (0..long.spec.nsyms).map(|s| subject.inner(s)).collect();
    for step in 0..=long.input.len() {
        rec.begin_earleme();
        if step == 0 {
            let sof = rec.grammar().sof();
            rec.scan(sof, 0);
        } else if let Some(sym) = symbols[long.input[step - 1]] {
            rec.scan(sym, step as u32);
        }
        hook(&mut rec, step)?;
        let accepted = rec.end_earleme();
        ensure_eq!(accepted, step <= long.viable, "prefix", "acceptance at location {} of {}", step, long.text);
        if !accepted {
            break;
        }
        // Where the next token is announced, only what it can follow is completed.
        if announced && step < long.input.len() {
            continue;
        }
        ensure_eq!(rec.is_finished(), long.finished[step], "finished", "finished state at {} of {}", step, long.text);
    }
    Ok(())
}

pub fn verdicts(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Some(long) = long(tape) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    let subject = Subject::new(&long.spec);
    read(&subject, &long, null_rec(&subject), false, |_, _| Ok(()))?;
    describe(ctx, &long);
    Ok(())
}

/// The same with hints.
pub fn hinted(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Some(long) = long(tape) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    let subject = Subject::new(&long.spec);
    let every = tape.range(1, 5);
    let from = tape.below(every);
    // The token before an impossible one is not announced a successor.
    read(&subject, &long, null_rec(&subject), true, |rec, step| {
        if step % every == from && step < long.viable {
            if let Some(sym) = subject.inner(long.input[step]) {
                hint(rec, sym);
            }
        }
        Ok(())
    })?;
    describe(ctx, &long);
    Ok(())
}

/// The number of sets kept.
pub fn kept(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let len = length(tape);
    let Some(mut long) = list(tape, len) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    long.text = format!("{}, by {}", long.text, long.spec.text());
    let subject = Subject::new(&long.spec);
    read(&subject, &long, null_rec(&subject), false, |rec, step| {
        ensure!(rec.earleme() <= long.kept, "bound", "{} sets retained at {} (bound {}): {}", rec.earleme(), step, long.kept, long.text);
        Ok(())
    })?;
    describe(ctx, &long);
    Ok(())
}

/// A long input, a reset, and another one.
pub fn reset(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Some(long) = long(tape) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    let subject = Subject::new(&long.spec);
    let mut rec = null_rec(&subject);
    let stop = tape.below(long.viable + 1);
    let lat = lattice(&long.input[..stop], |i| i as u32);
    run(&mut rec, &subject, &lat, |_| {});
    if tape.chance(1, 2) {
        rec.begin_earleme();
    }
    rec.reset();
    read(&subject, &long, rec, false, |_, _| Ok(()))?;
    describe(ctx, &long);
    Ok(())
}

/// Capacities do not matter.
pub fn capacities(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Some(long) = long(tape) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    let subject = Subject::new(&long.spec);
    let capacity = tape.below(2_000);
    match tape.below(2) {
        0 => {
            let forest = simple_bocage::Bocage::fresh(&subject, capacity);
            read(&subject, &long, Recognizer::with_forest(&subject, forest), false, |_, _| Ok(()))?;
        }
        _ => {
            let forest = compact_bocage::Bocage::fresh(&subject, capacity);
            read(&subject, &long, Recognizer::with_forest(&subject, forest), false, |_, _| Ok(()))?;
        }
    }
    describe(ctx, &long);
    Ok(())
}

/// Evaluation over tens of thousands of tokens, lists and nested ones.
pub fn evaluated(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    pbt::set_tick_budget(u64::MAX);
    let (spec, tree, input) = if tape.chance(2, 3) {
        let items = length(tape) / 2;
        // Choices for all items.
        let mut rng = tape.raw() as u64 | 1;
        let salt = tape.raw();
        let choices: Vec<u32> = (0..items * 12)
            .map(|_| {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                (rng >> 16) as u32 ^ salt
            })
            .collect();
        bracketed(&mut Tape::new(&choices), items, false, 80_000)
    } else {
        let depth = length(tape) / 4;
        let (spec, first, pairs) = brackets(tape);
        let middle = first - 1;
        let period: Vec<usize> = (0..tape.range(1, 5)).map(|_| tape.below(pairs)).collect();
        let open: Vec<usize> = period.iter().copied().cycle().take(depth).collect();
        let mut input: Vec<usize> = open.iter().map(|&k| first + 2 * k).collect();
        input.push(middle);
        input.extend(open.iter().rev().map(|&k| first + 2 * k + 1));
        let find = |lhs: usize, rhs: &[usize]| spec.rules.iter().position(|r| r.lhs == lhs && r.rhs == rhs).unwrap() as u32;
        let through = middle - 1;
        let inner = usize::from(through > 0);
        let mut tree = Rc::new(Tree::Node(find(0, &[middle]), vec![Rc::new(Tree::Leaf(middle, depth as u32))]));
        for (i, &k) in open.iter().enumerate().rev() {
            for u in (1..=through).rev() {
                let below = if u < through { u + 1 } else { 0 };
                tree = Rc::new(Tree::Node(find(u, &[below]), vec![tree]));
            }
            let (left, right) = (first + 2 * k, first + 2 * k + 1);
            tree = Rc::new(Tree::Node(
                find(0, &[left, inner, right]),
                vec![Rc::new(Tree::Leaf(left, i as u32)), tree, Rc::new(Tree::Leaf(right, (2 * depth - i) as u32))],
            ));
        }
        (spec, tree, input)
    };
    let mut leaves = vec![];
    leaf_values(&tree, &mut leaves);
    let lat = lattice(&input, |i| leaves[i]);
    let subject = Subject::new(&spec);
    let what = || format!("{} tokens {} ... by {}", input.len(), spec.words(&input[..input.len().min(20)]), spec.text());
    let expected = calls_of(&tree);
    for (name, got) in [
        ("simple", values::<simple_bocage::Bocage>(&subject, &lat, false)?),
        ("compact", values::<compact_bocage::Bocage>(&subject, &lat, false)?),
    ] {
        let Some((got, calls)) = got else {
            return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
        };
        ensure!(got.len() == 1 && got[0] == tree, format!("value-{}", name), "{} values of {}", name, what());
        ensure!(calls.sorted() == expected, format!("calls-{}", name), "{} calls of {}", name, what());
    }
    ctx.nontrivial(input.len() >= 200);
    ctx.label_if(input.len() > 256, "more than 256 tokens");
    ctx.label_if(input.len() > 32_768, "more than 32768 tokens");
    ctx.label_if(input.len() > 65_536, "more than 65536 tokens");
    ctx.case(&(&spec, &input));
    ctx.describe(what);
    Ok(())
}

/// Values of the leaves, left to right.
pub fn leaf_values(tree: &Tree, out: &mut Vec<u32>) {
    match tree {
        Tree::Leaf(_, v) => out.push(*v),
        Tree::Null(_) => {}
        Tree::Node(_, c) => c.iter().for_each(|c| leaf_values(c, out)),
    }
}

/// A start symbol that divides the input between unambiguous lists in hundreds of ways.
struct Splits {
    spec: Spec,
    input: Vec<usize>,
    salt: u32,
    /// Rules: of the start symbol, and the longer and shorter one of both lists.
    tops: Vec<u32>,
    more: [u32; 2],
    one: [u32; 2],
}

const TOKEN: usize = 3;

fn divided(tape: &mut Tape<'_>) -> Splits {
    pbt::set_tick_budget(u64::MAX);
    let n = match tape.below(4) {
        0 => tape.range(2, 30),
        1 => tape.range(30, 45),
        2 => tape.range(60, 70),
        _ => tape.range(86, 135),
    };
    let (start, left, right, token, other) = (0, 1, 2, TOKEN, 4);
    let mut rules: Vec<Rule> = vec![];
    let mut add = |lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
        rules.len() as u32 - 1
    };
    let alternatives = tape.range(1, 3);
    let tops: Vec<u32> = (0..alternatives)
        .map(|k| add(start, [[left, right], [right, left], [left, left]][k].to_vec()))
        .collect();
    // Both are left recursive, so that the work is quadratic.
    let more = [add(left, vec![left, token]), add(right, vec![right, token])];
    let one = [add(left, vec![token]), add(right, vec![token])];
    let mut spec = Spec {
        nsyms: other + 1,
        terminal: (0..=other).map(|s| s >= token).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start,
        layout: (0..=other).map(Some).collect(),
    };
    spec.scramble(tape);
    let salt = tape.interesting_u32() | 1;
    Splits { spec, input: vec![token; n], salt, tops, more, one }
}

/// Every alternative of the start symbol is evaluated.
pub fn splits(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Splits { spec, input, salt, tops, more, one } = divided(tape);
    let (n, token) = (input.len(), TOKEN);
    let value = |i: usize| (i as u32).wrapping_mul(salt);
    let lat = lattice(&input, value);
    // Lists of every span from a start.
    let lists = |side: usize, from: usize, to: usize| -> Rc<Tree> {
        let leaf = |i: usize| Rc::new(Tree::Leaf(token, value(i)));
        let first = Rc::new(Tree::Node(one[side], vec![leaf(from)]));
        (from + 1..to).fold(first, |acc, i| Rc::new(Tree::Node(more[side], vec![acc, leaf(i)])))
    };
    let mut expected: Vec<Rc<Tree>> = vec![];
    for (k, &top) in tops.iter().enumerate() {
        let (a, b) = [(0, 1), (1, 0), (0, 0)][k];
        for at in 1..n {
            expected.push(Rc::new(Tree::Node(top, vec![lists(a, 0, at), lists(b, at, n)])));
        }
    }
    expected.sort();
    let subject = Subject::new(&spec);
    let what = || format!("{} tokens, {} alternatives, by {}", n, expected.len(), spec.text());
    for (name, got) in [
        ("simple", values::<simple_bocage::Bocage>(&subject, &lat, false)?),
        ("compact", values::<compact_bocage::Bocage>(&subject, &lat, false)?),
    ] {
        let Some((mut got, _)) = got else {
            return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
        };
        got.sort();
        ensure_eq!(got.len(), expected.len(), format!("count-{}", name), "{} values of {}", name, what());
        ensure!(got == expected, format!("values-{}", name), "{} values of {}", name, what());
    }
    ctx.nontrivial(expected.len() >= 2);
    ctx.label_if(expected.len() > 128, "more than 128 alternatives");
    ctx.label_if(expected.len() > 256, "more than 256 alternatives");
    ctx.case(&(&spec, n, salt));
    ctx.describe(what);
    Ok(())
}

/// Every alternative of the start symbol is offered, in one group.
pub fn offered(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let Splits { spec, input, tops, .. } = divided(tape);
    let n = input.len();
    let lat = lattice(&input, |i| i as u32);
    let subject = Subject::new(&spec);
    let what = || format!("{} tokens by {}", n, spec.text());
    let mut rec = null_rec(&subject);
    run(&mut rec, &subject, &lat[..n - 1].to_vec(), |_| {});
    rec.begin_earleme();
    scan_all(&mut rec, &subject, &lat[n - 1]);
    let whole = tape.chance(1, 2);
    let mut groups: Vec<(usize, usize, usize)> = vec![];
    while let Some(mut group) = rec.next_sum() {
        // Added symbols are told apart by their number.
        let sym = subject.outer(group.symbol()).unwrap_or(1000 + group.symbol().usize());
        let origin = group.origin() as usize;
        let mut count = 0;
        while let Some(item) = group.next_summand() {
            count += 1;
            if whole || count % 2 == 0 || count == 1 {
                group.push_summand(item);
            }
        }
        group.complete_sum();
        groups.push((sym, origin, count));
    }
    rec.advance_after_completion();
    for pair in groups.windows(2) {
        ensure!(pair[0].1 >= pair[1].1, "order", "start locations {} and {}: {}", pair[0].1, pair[1].1, what());
    }
    let mut keys: Vec<(usize, usize)> = groups.iter().map(|g| (g.0, g.1)).collect();
    keys.sort();
    keys.dedup();
    ensure_eq!(keys.len(), groups.len(), "twice", "different groups: {}", what());
    let top: Vec<usize> = groups.iter().filter(|g| g.0 == 0).map(|g| g.2).collect();
    let wanted = if n > 1 { vec![tops.len() * (n - 1)] } else { vec![] };
    ensure_eq!(top, wanted, "alternatives", "groups of the start symbol: {}", what());
    for &(sym, origin, count) in &groups {
        ensure!(sym == 0 || sym >= 1000 || count == 1, "alternatives", "{} alternatives of {} from {}: {}", count, spec.name(sym), origin, what());
    }
    ctx.nontrivial(n >= 3);
    ctx.label_if(groups.len() > 256, "more than 256 groups");
    ctx.label_if(wanted.iter().any(|&w| w > 256), "more than 256 alternatives");
    ctx.case(&(&spec, n));
    ctx.describe(what);
    Ok(())
}

/// Sets that are all kept, with completions that start tens of thousands of locations apart.
pub fn apart(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    pbt::set_tick_budget(u64::MAX);
    let n = match tape.weighted(&[2, 3, 2, 1]) {
        0 => tape.range(5, 300),
        1 => tape.range(3_000, 9_000),
        2 => tape.range(30_000, 36_000),
        _ => tape.range(65_000, 72_000),
    };
    // S = L | M, L = x L | x | b D, D = D x | x, M = M x | x.
    let (start, right, tail, whole, a, b) = (0, 1, 2, 3, 4, 5);
    let mut rules: Vec<Rule> = vec![];
    let mut add = |lhs: usize, rhs: Vec<usize>| rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
    add(start, vec![right]);
    add(start, vec![whole]);
    for x in [a, b] {
        add(right, vec![x, right]);
        add(right, vec![x]);
        add(tail, vec![tail, x]);
        add(tail, vec![x]);
        add(whole, vec![whole, x]);
        add(whole, vec![x]);
    }
    add(right, vec![b, tail]);
    let mut spec = Spec {
        nsyms: b + 1,
        terminal: (0..=b).map(|s| s >= a).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start,
        layout: (0..=b).map(Some).collect(),
    };
    spec.scramble(tape);
    let mut input = vec![a; n];
    for _ in 0..tape.below(20) {
        input[tape.below(n)] = b;
    }
    let mut open: Vec<usize> = (0..tape.range(1, 4)).map(|_| n - tape.below(n.min(3_000))).collect();
    open.push(n);
    open.sort();
    let subject = Subject::new(&spec);
    let symbols: Vec<Option<cfg::Symbol>> = (0..spec.nsyms).map(|s| subject.inner(s)).collect();
    let marked: Vec<usize> = (0..n).filter(|&i| input[i] == b).collect();
    let what = || format!("{} tokens ({} at {:?}), opened at {:?}, by {}", n, spec.name(b), marked, open, spec.text());
    let mut rec = null_rec(&subject);
    for step in 0..=n {
        rec.begin_earleme();
        let opened = step > 0 && open.binary_search(&step).is_ok();
        if step < n && !opened {
            if let Some(sym) = symbols[input[step]] {
                hint(&mut rec, sym);
            }
        }
        if step == 0 {
            let sof = rec.grammar().sof();
            rec.scan(sof, 0);
        } else if let Some(sym) = symbols[input[step - 1]] {
            rec.scan(sym, step as u32);
        }
        if !opened {
            ensure!(rec.end_earleme(), "prefix", "token {} rejected: {}", step, what());
            continue;
        }
        let mut groups: Vec<(usize, usize, usize)> = vec![];
        let mut latest = usize::MAX;
        while let Some(mut group) = rec.next_sum() {
            let sym = subject.outer(group.symbol()).unwrap_or(1000 + group.symbol().usize());
            let origin = group.origin() as usize;
            ensure!(origin <= latest, "order", "start location {} after {} at {}: {}", origin, latest, step, what());
            latest = origin;
            let mut count = 0;
            while let Some(item) = group.next_summand() {
                count += 1;
                group.push_summand(item);
            }
            group.complete_sum();
            // Locations of tokens, the first of which is at 1.
            groups.push((origin.wrapping_sub(1), sym, count));
        }
        groups.retain(|g| g.0 != usize::MAX);
        groups.sort();
        let mut expected: Vec<(usize, usize, usize)> = vec![(0, start, 2), (0, whole, 1)];
        for k in 0..step {
            expected.push((k, right, 1 + usize::from(input[k] == b && k + 1 < step)));
        }
        expected.extend(marked.iter().filter(|&&k| k + 1 < step).map(|&k| (k + 1, tail, 1)));
        expected.sort();
        if groups != expected {
            let at = groups.iter().zip(&expected).position(|(g, e)| g != e).unwrap_or(groups.len().min(expected.len()));
            return Err(Fail::new("groups", format!(
                "groups at {} (start, symbol, alternatives): {:?}, expected {:?}, {} and {} in all: {}",
                step, groups.get(at), expected.get(at), groups.len(), expected.len(), what()
            )));
        }
        rec.advance_after_completion();
        ensure!(rec.is_finished(), "finished", "not finished at {}: {}", step, what());
    }
    ctx.nontrivial(n >= 200);
    ctx.label_if(n > 4_096, "more than 4096 sets");
    ctx.label_if(n > 32_768, "more than 32768 sets");
    ctx.label_if(n > 65_536, "more than 65536 sets");
    ctx.case(&(&spec, &input, &open));
    ctx.describe(what);
    Ok(())
}

/// A symbol with very many rules, which derive one or two tokens.
struct Alternatives {
    spec: Spec,
    /// Derivations of the tokens `[a]` and `[a, b]`, in the order of rules.
    ways: [Vec<u32>; 2],
    salt: u32,
}

const A: usize = 3;
const B: usize = 4;

fn alternatives(tape: &mut Tape<'_>) -> Alternatives {
    pbt::set_tick_budget(u64::MAX);
    pbt::set_alloc_budget(24 << 30);
    pbt::grant_seconds(80);
    let n = match tape.weighted(&[2, 4, 3, 2, 2]) {
        0 => tape.range(2, 300),
        1 => tape.range(1_000, 1_100),
        2 => tape.range(2_000, 9_000),
        3 => tape.range(32_700, 33_000),
        _ => tape.range(65_500, 70_000),
    };
    let (user, maybe, never) = (1, 2, 5);
    let mut rules: Vec<Rule> = vec![];
    let mut add = |lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
        rules.len() as u32 - 1
    };
    add(maybe, vec![]);
    add(maybe, vec![never]);
    let mut ways = [vec![], vec![]];
    let shapes: Vec<usize> = (0..tape.range(1, 4)).map(|_| tape.below(5)).collect();
    for k in 0..n {
        let shape = if k < 900 { shapes[k % shapes.len()] } else { shapes[k % shapes.len()] % 4 };
        let (rhs, two): (&[usize], _) = match shape {
            0 => (&[A], false),
            1 => (&[A, B], true),
            2 => (&[A, maybe], false),
            3 => (&[maybe, A], false),
            _ => (&[A, maybe, B], true),
        };
        ways[usize::from(two)].push(add(user, rhs.to_vec()));
    }
    let mut spec = Spec {
        nsyms: never + 1,
        // The first symbol has no rules.
        terminal: (0..=never).map(|s| s == 0 || s >= A).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: user,
        layout: (0..=never).map(Some).collect(),
    };
    spec.scramble(tape);
    Alternatives { spec, ways, salt: tape.interesting_u32() }
}

impl Alternatives {
    fn text(&self) -> String {
        let some: Vec<_> = self.spec.rules.iter().take(12).map(|r| (r.lhs, &r.rhs)).collect();
        format!("{} and {} rules like {:?} with one and two tokens (declared {:?})", self.ways[0].len(), self.ways[1].len(), some, self.spec.layout)
    }
}

/// Every rule is a value.
pub fn valued(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let all = alternatives(tape);
    let Alternatives { spec, ways, salt } = &all;
    let subject = Subject::new(spec);
    for (two, ways) in ways.iter().enumerate() {
        let input = [A, B];
        let lat = lattice(&input[..=two], |i| salt.wrapping_add(i as u32));
        let mut expected: Vec<Rc<Tree>> = ways
            .iter()
            .map(|&r| {
                let children = spec.rules[r as usize].rhs.iter().map(|&s| {
                    Rc::new(match s {
                        A => Tree::Leaf(A, *salt),
                        B => Tree::Leaf(B, salt.wrapping_add(1)),
                        _ => Tree::Null(s),
                    })
                });
                Rc::new(Tree::Node(r, children.collect()))
            })
            .collect();
        expected.sort();
        for (name, got) in [
            ("simple", values::<simple_bocage::Bocage>(&subject, &lat, false)?),
            ("compact", values::<compact_bocage::Bocage>(&subject, &lat, false)?),
        ] {
            let mut got = got.map_or(vec![], |(got, _)| got);
            got.sort();
            ensure_eq!(got.len(), expected.len(), format!("count-{}", name), "{} values of {} tokens by {}", name, two + 1, all.text());
            ensure!(got == expected, format!("values-{}", name), "{} values of {} tokens by {}", name, two + 1, all.text());
        }
    }
    let most = ways[0].len().max(ways[1].len());
    ctx.nontrivial(most > 2);
    ctx.label_if(most > 1_024, "more than 1024 alternatives");
    ctx.label_if(most > 32_768, "more than 32768 alternatives");
    ctx.label_if(most > 65_536, "more than 65536 alternatives");
    ctx.case(&(&ways, &spec.layout, salt));
    ctx.describe(|| all.text());
    Ok(())
}

/// Every rule is offered once, in the group of its symbol.
pub fn every(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let all = alternatives(tape);
    let Alternatives { spec, ways, .. } = &all;
    let subject = Subject::new(spec);
    let mut rec = null_rec(&subject);
    rec.begin_earleme();
    let sof = rec.grammar().sof();
    rec.scan(sof, 0);
    ensure!(rec.end_earleme(), "prefix", "the start of input is rejected: {}", all.text());
    for (two, ways) in ways.iter().enumerate() {
        if two == 1 && ways.is_empty() {
            break;
        }
        rec.begin_earleme();
        if let Some(sym) = subject.inner([A, B][two]) {
            rec.scan(sym, 1);
        }
        let mut rules: Vec<u32> = vec![];
        let mut users = 0;
        while let Some(mut group) = rec.next_sum() {
            let sym = subject.outer(group.symbol());
            users += usize::from(sym == Some(1));
            while let Some(item) = group.next_summand() {
                if sym == Some(1) {
                    rules.push(subject.grammar.external_origin(item.dot).id);
                }
                group.push_summand(item);
            }
            group.complete_sum();
        }
        rules.sort();
        let expected = usize::from(!ways.is_empty());
        ensure_eq!(users, expected, "groups", "groups of the symbol after {} tokens: {}", two + 1, all.text());
        ensure!(rules == *ways, "alternatives", "{} alternatives after {} tokens: {}", rules.len(), two + 1, all.text());
        rec.advance_after_completion();
        ensure_eq!(rec.is_finished(), expected == 1, "finished", "after {} tokens: {}", two + 1, all.text());
    }
    let most = ways[0].len().max(ways[1].len());
    ctx.nontrivial(most > 2);
    ctx.label_if(most > 1_024, "more than 1024 alternatives");
    ctx.label_if(most > 32_768, "more than 32768 alternatives");
    ctx.label_if(most > 65_536, "more than 65536 alternatives");
    ctx.case(&(&ways, &spec.layout));
    ctx.describe(|| all.text());
    Ok(())
}
