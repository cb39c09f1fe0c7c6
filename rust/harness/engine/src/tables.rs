//! The processed grammar: serialized forms, numbering, tables.

use crate::engine::*;
use crate::groups::unit_grammar;
use crate::history::{look, Look};
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Shape, Spec};
use bit_matrix::row::BitSlice;
use cfg_symbol::{Symbol, SymbolSource};
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "A case is a generated grammar (events and distances included), serialized with \
                   serde_json and with miniserde and read back, and an input; every query of the \
                   grammar, every observation of a run, the trees and the values of both forests \
                   are compared with the original (and the queries of a clone), and the serialized form of the copy with that of \
                   the original. Non-trivial: at least 3 rules, and 2 tokens were read.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "round-trip", quick: 12_000, thorough: 400_000, tape: (60, 450), run: c18_round_trip },
                Arm { name: "round-trip-large", quick: 4_000, thorough: 30000, tape: (200, 3000), run: c18_large },
                Arm { name: "round-trip-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c18_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C19",
            rule: "A case is a generated grammar in two generated declaration orders with unused \
                   symbols between, and two rule orders, and an input; verdicts, trees and values \
                   are compared, and every used symbol is translated there and back, both ways. \
                   Non-trivial: the orders differ and at least 2 tokens were read.",
            assumptions: &[CLASS],
            arms: vec![
                Arm { name: "renumbering", quick: 30_000, thorough: 1_000_000, tape: (80, 500), run: c19_renumber },
                Arm { name: "renumbering-large", quick: 5_000, thorough: 40000, tape: (200, 3000), run: c19_large },
                Arm { name: "renumbering-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c19_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C20",
            rule: "A case is a generated grammar; its rules are read back from the completion tables \
                   and each table is recomputed from them by definition; the rules, with split and \
                   eliminated parts put back, are compared with the grammar as written, once for \
                   every choice of empty symbols; every query gives the same through references. Non-trivial: at least 4 rules, and a rule with 3 \
                   or more symbols or an empty symbol left out.",
            assumptions: &[CLASS, "FIRST and FOLLOW sets are compared on terminals and the end of input"],
            arms: vec![
                Arm { name: "tables", quick: 40_000, thorough: 1_500_000, tape: (50, 350), run: c20_general },
                Arm { name: "tables-units", quick: 15_000, thorough: 500_000, tape: (50, 350), run: c20_units },
                Arm { name: "tables-nullable", quick: 30_000, thorough: 1_000_000, tape: (50, 350), run: c20_nullable },
                Arm { name: "tables-large", quick: 10_000, thorough: 80000, tape: (200, 3000), run: c20_large },
                Arm { name: "tables-huge", quick: 100, thorough: 3000, tape: (200, 3000), run: c20_huge },
            ],
            probes: vec![],
        },
    ]
}

fn bits(row: &BitSlice, n: usize) -> Vec<usize> {
    (0..n).filter(|&i| row[i]).collect()
}

fn sym(n: usize) -> Symbol {
    SymbolSource::generate_fresh().nth(n).unwrap()
}

/// Answers to every query, as text.
fn answers<G: Grammar>(g: &G, externals: usize) -> BTreeMap<&'static str, String> {
    let n = g.num_syms();
    let all: Vec<Symbol> = SymbolSource::generate_fresh().take(n + g.num_gensyms()).collect();
    let dots = 0..g.num_rules() as u32;
    let mut out = BTreeMap::new();
    out.insert("symbols", format!("{:?}", (g.sof(), g.eof(), g.start_sym(), g.externalized_start_sym(), g.useless_symbol())));
    out.insert("sizes", format!("{:?}", (n, g.num_gensyms(), g.num_rules(), g.dot_before_eof(), g.has_trivial_derivation())));
    out.insert("prediction", format!("{:?}", all[..n].iter().map(|&s| bits(g.prediction_row(s), n)).collect::<Vec<_>>()));
    out.insert("completions", format!("{:?}", all[..n].iter().map(|&s| g.completions(s)).collect::<Vec<_>>()));
    out.insert("gen completions", format!("{:?}", all[n..].iter().map(|&s| g.gen_completion(s)).collect::<Vec<_>>()));
    out.insert("follow", format!("{:?}", all[..n].iter().map(|&s| bits(g.lhs_lr_set(s), n)).collect::<Vec<_>>()));
    out.insert(
        "lookahead",
        format!(
            "{:?}",
            dots.clone()
                .map(|d| (g.rhs1_or_lhs(d).usize() < n).then(|| bits(g.lookahead_set(d), n)))
                .collect::<Vec<_>>()
        ),
    );
    out.insert(
        "rules",
        format!(
            "{:?}",
            dots.map(|d| (g.get_lhs(d), g.get_rhs1(d), g.rhs1_or_lhs(d), g.external_origin(d), g.nulling(d))).collect::<Vec<_>>()
        ),
    );
    out.insert("rhs1", format!("{:?}", g.rhs1()));
    out.insert("events", format!("{:?}", g.events()));
    out.insert("trace", format!("{:?}", g.trace()));
    out.insert("nulling", format!("{:?}", g.eliminated_nulling_intermediate()));
    out.insert("forest", format!("{:?}", g.forest_info()));
    out.insert("to external", format!("{:?}", all.iter().map(|&s| g.to_external(s)).collect::<Vec<_>>()));
    out.insert(
        "to internal",
        format!("{:?}", SymbolSource::generate_fresh().take(externals).map(|s| g.to_internal(s)).collect::<Vec<_>>()),
    );
    out
}

/// Observations of a run.
struct Seen {
    verdict: Verdict,
    looks: Vec<Look>,
    trees: Option<Vec<Rc<Tree>>>,
    values: Vec<Option<Vec<Rc<Tree>>>>,
}

fn seen(subject: &Subject, lat: &Lattice, trees: bool) -> Result<Seen, Fail> {
    let mut looks = vec![];
    let mut rec = null_rec(subject);
    let mut verdict = Verdict::default();
    for step in 0..=lat.len() {
        rec.begin_earleme();
        looks.push(look(&mut rec));
        if step == 0 {
            let sof = subject.grammar.sof();
            rec.scan(sof, 0);
        } else {
            scan_all(&mut rec, subject, &lat[step - 1]);
        }
        if !rec.end_earleme() {
            break;
        }
        verdict.read = step;
        verdict.finished.push(rec.is_finished());
    }
    let mut found = None;
    let mut values = vec![];
    if trees && verdict.read == lat.len() {
        let (mut rec, recorder) = recorded(subject);
        run(&mut rec, subject, lat, |_| {});
        if let Some(root) = rec.finished_node() {
            let record = recorder.0.borrow();
            found = Some(Expand::new(subject, &record, TREES as usize * 4).finished(root)?);
        }
        values.push(crate::evaluate::values::<simple_bocage::Bocage>(subject, lat, false)?.map(|v| v.0));
        values.push(crate::evaluate::values::<compact_bocage::Bocage>(subject, lat, false)?.map(|v| v.0));
    }
    Ok(Seen { verdict, looks, trees: found, values })
}

fn pick_grammar(tape: &mut Tape<'_>) -> Spec {
    match tape.below(5) {
        0 | 1 => spec::grammar(tape, Shape { marks: true, ..Shape::default() }),
        2 => unit_grammar(tape),
        _ => spec::grammar(tape, Shape { marks: true, ..nullable_shape() }),
    }
}

fn c18_round_trip(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = pick_grammar(tape);
    let subject = Subject::new(&spec);
    let input = spec::input(tape, &spec, 10);
    let lat = lattice(&input, |i| i as u32);
    let trees = Reference::new(&spec, &lat).total() <= TREES;
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let externals = subject.names;
    let expected = answers(&subject.grammar, externals);
    let mut story = seen(&subject, &lat, trees)?;
    let cloned = subject.grammar.clone();
    for (k, v) in &answers(&cloned, externals) {
        ensure_eq!(v, &expected[k], format!("query-{}", k), "{} of a clone: {}", k, what());
    }
    for framework in ["serde", "miniserde"] {
        let write = |g: &DefaultGrammar| {
            if framework == "serde" {
                serde_json::to_string(g).map_err(|e| e.to_string())
            } else {
                Ok(miniserde::json::to_string(g))
            }
        };
        let text = write(&subject.grammar)
            .map_err(|e| Fail::new(format!("write-{}", framework), format!("{} cannot write: {}: {}", framework, e, what())))?;
        let read: Result<DefaultGrammar, String> = if framework == "serde" {
            serde_json::from_str(&text).map_err(|e| e.to_string())
        } else {
            miniserde::json::from_str(&text).map_err(|e| e.to_string())
        };
        let copy = read.map_err(|e| Fail::new(format!("read-{}", framework), format!("{} cannot read back: {}: {}", framework, e, what())))?;
        let got = answers(&copy, externals);
        for (k, v) in &expected {
            ensure_eq!(&got[k], v, format!("query-{}", k), "{} after {}: {}", k, framework, what());
        }
        let again = write(&copy).unwrap_or_default();
        ensure_eq!(again, text, "rewrite", "serialized form of the copy by {}: {}", framework, what());
        let other = Subject::with(spec.build(), copy);
        let got = seen(&other, &lat, trees)?;
        ensure_eq!(got.verdict, story.verdict, "verdict", "verdict after {}: {}", framework, what());
        ensure_eq!(got.looks, story.looks, "progress", "progress after {}: {}", framework, what());
        ensure_eq!(got.trees, story.trees, "trees", "trees after {}: {}", framework, what());
        ensure_eq!(got.values, story.values, "values", "values after {}: {}", framework, what());
        // A copy of the copy, by the other framework.
        story = got;
    }
    ctx.nontrivial(spec.rules.len() >= 3 && story.verdict.read >= 2);
    ctx.label_if(story.trees.is_some(), "trees and values compared");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(what);
    Ok(())
}

fn c19_renumber(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let first = pick_grammar(tape);
    let mut second = first.clone();
    second.scramble(tape);
    let input = spec::input(tape, &first, 12);
    let lat = lattice(&input, |i| i as u32);
    let what = || format!("{} by {} and {}", first.words(&input), first.text(), second.text());
    let mut reference = Reference::new(&first, &lat);
    let trees = reference.total() <= TREES;
    let mut all = vec![];
    for spec in [&first, &second] {
        let subject = Subject::new(spec);
        // Used symbols: in a rule that takes part in a derivation, and not always empty.
        let productive = spec.productive();
        let solid = spec.solid();
        let reachable = spec.reachable();
        let mut used = BTreeSet::new();
        for rule in &spec.rules {
            if reachable[rule.lhs] && rule.rhs.iter().all(|&s| productive[s]) {
                used.extend(rule.rhs.iter().copied().chain([rule.lhs]).filter(|&s| solid[s]));
            }
        }
        for &s in &used {
            let external = subject.built.ext[s];
            let Some(internal) = subject.grammar.to_internal(external) else {
                return Err(Fail::new("used", format!("{} has no internal number: {}", spec.name(s), what())));
            };
            ensure!(internal.usize() < subject.grammar.num_syms(), "range", "{} has number {:?}: {}", spec.name(s), internal, what());
            ensure_eq!(subject.grammar.to_external(internal), external, "back", "{} back from {:?}: {}", spec.name(s), internal, what());
        }
        for internal in SymbolSource::generate_fresh().take(subject.grammar.num_syms()) {
            let external = subject.grammar.to_external(internal);
            ensure_eq!(subject.grammar.to_internal(external), Some(internal), "forth", "internal {:?} there and back: {}", internal, what());
        }
        if solid[spec.start] || spec.nullable()[spec.start] {
            ensure_eq!(subject.grammar.externalized_start_sym(), subject.built.ext[spec.start], "start", "the start symbol of {}", what());
        }
        all.push((seen(&subject, &lat, trees)?, subject));
    }
    let (a, b) = (&all[0].0, &all[1].0);
    ensure_eq!(a.verdict, b.verdict, "verdict", "verdicts of {}", what());
    ensure_eq!(a.verdict.read, reference.viable(), "prefix", "accepted tokens of {}", what());
    ensure_eq!(a.trees, b.trees, "trees", "trees of {}", what());
    if trees && reference.accepted() && !input.is_empty() {
        ensure_eq!(a.trees, Some(reference.all()), "trees", "trees of {} against the reference", what());
        // Below the root, alternatives may come in another order.
        if !reference.nested_ambiguity() {
            for k in 0..2 {
                let sorted = |v: &Option<Vec<Rc<Tree>>>| {
                    let mut v = v.clone();
                    v.iter_mut().for_each(|v| v.sort());
                    v
                };
                ensure_eq!(sorted(&a.values[k]), sorted(&b.values[k]), "values", "values ({}) of {}", k, what());
            }
            ctx.label("values compared");
        }
    }
    // Progress, in terms of the grammar as written.
    for (i, (x, y)) in a.looks.iter().zip(&b.looks).enumerate() {
        // A prediction is of a symbol, and is shown with any one of its rules: only rules that have
        // begun are compared.
        let written = |l: &Look| -> BTreeSet<(u32, u32, usize)> { l.trace.iter().copied().filter(|t| t.0 != !0 && t.1 > 0).collect() };
        ensure_eq!(written(x), written(y), "progress", "progress at location {} of {}", i, what());
        let predicted = |l: &Look, s: &Subject| -> BTreeSet<usize> {
            l.predicted
                .iter()
                .filter(|p| p.usize() < s.grammar.num_syms())
                .filter_map(|&p| s.outer(p))
                .collect()
        };
        ensure_eq!(predicted(x, &all[0].1), predicted(y, &all[1].1), "predicted", "predicted symbols at location {} of {}", i, what());
    }
    ctx.nontrivial(first.layout != second.layout && a.verdict.read >= 2);
    note(ctx, &second);
    ctx.case(&(&first, &second, &input));
    ctx.describe(what);
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C20

/// A rule of the processed grammar, read back from its tables.
struct Inner {
    lhs: usize,
    rhs: Vec<usize>,
}

/// Symbols of a rule as written; `true` if left out because it is empty.
type Pattern = Vec<(usize, bool)>;

struct Flat<'a> {
    subject: &'a Subject,
    rules: &'a [Inner],
    memo: BTreeMap<usize, Vec<Pattern>>,
    depth: usize,
}

impl Flat<'_> {
    fn nulled(&self, s: Symbol, depth: usize) -> Pattern {
        if depth < 2_000 {
            for &[lhs, left, right] in self.subject.grammar.eliminated_nulling_intermediate() {
                if lhs == s {
                    let mut out = self.nulled(left, depth + 1);
                    out.extend(self.nulled(right, depth + 1));
                    return out;
                }
            }
        }
        vec![(self.subject.outer(s).unwrap_or(usize::MAX - s.usize()), true)]
    }

    fn symbol(&mut self, s: usize) -> Result<Vec<Pattern>, Fail> {
        if let Some(outer) = self.subject.outer(sym(s)) {
            return Ok(vec![vec![(outer, false)]]);
        }
        if let Some(done) = self.memo.get(&s) {
            return Ok(done.clone());
        }
        self.depth += 1;
        if self.depth > self.rules.len() + 1 {
            return Err(Fail::new("rules", "an added symbol contains itself"));
        }
        let own: Vec<u32> = (0..self.rules.len() as u32).filter(|&d| self.rules[d as usize].lhs == s).collect();
        let mut out = vec![];
        for d in own {
            if self.subject.grammar.external_origin(d).id != !0 {
                return Err(Fail::new("rules", format!("an added symbol has the origin of rule {}", self.subject.grammar.external_origin(d).id)));
            }
            out.extend(self.rule(d)?);
        }
        if out.is_empty() {
            out.push(vec![(usize::MAX - s, false)]);
        }
        self.depth -= 1;
        self.memo.insert(s, out.clone());
        Ok(out)
    }

    fn rule(&mut self, d: u32) -> Result<Vec<Pattern>, Fail> {
        let rhs = self.rules[d as usize].rhs.clone();
        let mut out = self.symbol(rhs[0])?;
        if let Some(&right) = rhs.get(1) {
            let right = self.symbol(right)?;
            out = out
                .iter()
                .flat_map(|l| right.iter().map(move |r| l.iter().chain(r).copied().collect()))
                .collect();
            if self.subject.grammar.nulling(d).is_some() {
                return Err(Fail::new("rules", "a rule with two symbols left out another one"));
            }
        } else if let Some((nulled, right)) = self.subject.grammar.nulling(d) {
            let nulled = self.nulled(nulled, 0);
            out = out
                .into_iter()
                .map(|p| if right { p.into_iter().chain(nulled.clone()).collect() } else { nulled.clone().into_iter().chain(p).collect() })
                .collect();
        }
        Ok(out)
    }
}

/// A set of numbers.
#[derive(Clone)]
struct Row(Vec<u64>);

impl Row {
    fn new(size: usize) -> Self {
        Row(vec![0; size.div_ceil(64)])
    }

    fn insert(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }

    fn contains(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }

    /// Whether anything is new.
    fn merge(&mut self, other: &Row) -> bool {
        let mut changed = false;
        for (to, &from) in self.0.iter_mut().zip(&other.0) {
            changed |= from & !*to != 0;
            *to |= from;
        }
        changed
    }

    fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.0.len() * 64).filter(|&i| self.contains(i))
    }
}

fn c20(ctx: &mut Ctx, spec: Spec) -> CaseResult {
    let subject = Subject::new(&spec);
    let g = &subject.grammar;
    let n = g.num_syms();
    let gens = g.num_gensyms();
    let count = g.num_rules();
    let what = || format!("{} of {}", g.num_rules(), spec.text());

    // Rules, from the completion tables.
    ensure_eq!(g.rhs1().len(), count, "sizes", "second symbols of {}", what());
    let mut first: Vec<Option<usize>> = vec![None; count];
    let mut transitions = vec![];
    for s in 0..n {
        let row = g.completions(sym(s));
        let mut unary = false;
        for t in row {
            ensure!(!(unary && !t.is_unary), "order", "a rule of two symbols follows a rule of one in the table of {}: {}", s, what());
            unary |= t.is_unary;
            transitions.push((s, *t));
        }
    }
    for s in n..n + gens {
        let [binary, unary] = g.gen_completion(sym(s));
        ensure!(binary.is_none_or(|t| !t.is_unary) && unary.is_none_or(|t| t.is_unary), "order", "kinds in the table of added {}: {}", s, what());
        transitions.extend(binary.into_iter().chain(unary).map(|t| (s, t)));
    }
    for (s, t) in &transitions {
        let d = t.dot as usize;
        ensure!(d < count, "dots", "dot {} does not exist: {}", d, what());
        ensure!(first[d].is_none(), "dots", "dot {} is listed twice: {}", d, what());
        first[d] = Some(*s);
        ensure_eq!(t.is_unary, g.get_rhs1(t.dot).is_none(), "unary", "dot {} of {}", d, what());
    }
    let mut rules = vec![];
    for d in 0..count {
        let Some(f) = first[d] else {
            return Err(Fail::new("dots", format!("dot {} is not listed: {}", d, what())));
        };
        let mut rhs = vec![f];
        rhs.extend(g.get_rhs1(d as u32).map(|s| s.usize()));
        ensure_eq!(g.rhs1()[d], g.get_rhs1(d as u32), "rhs1", "second symbol of dot {} in {}", d, what());
        ensure_eq!(g.rhs1_or_lhs(d as u32), g.get_rhs1(d as u32).unwrap_or(g.get_lhs(d as u32)), "rhs1", "dot {} of {}", d, what());
        rules.push(Inner { lhs: g.get_lhs(d as u32).usize(), rhs });
    }
    // Through a reference, and a reference to that.
    let externals = subject.names;
    let direct = answers(g, externals);
    for (k, v) in answers::<&DefaultGrammar>(&g, externals).into_iter().chain(answers::<&&DefaultGrammar>(&&g, externals)) {
        ensure_eq!(v, direct[k], format!("reference-{}", k), "{} asked through a reference: {}", k, what());
    }
    let shown = || -> Vec<String> { rules.iter().map(|r| format!("{}={:?}", r.lhs, r.rhs)).collect() };

    // A symbol beyond `n` is a left-hand side that is only used first, in one rule.
    let mut using: BTreeMap<usize, Vec<&Inner>> = BTreeMap::new();
    for r in &rules {
        for &s in &r.rhs {
            let list = using.entry(s).or_default();
            if s >= n && !list.last().is_some_and(|&last| std::ptr::eq(last, r)) {
                list.push(r);
            }
        }
    }
    let mut heads = vec![];
    for r in &rules {
        let mut head = r.lhs;
        let mut steps = 0;
        while head >= n {
            let users: &[&Inner] = using.get(&head).map_or(&[], |list| list);
            ensure!(!users.is_empty() && users.iter().all(|u| u.rhs[0] == head && !u.rhs[1..].contains(&head)), "added", "added symbol {} in {:?}: {}", head, shown(), what());
            ensure!(users.iter().all(|u| u.lhs == users[0].lhs), "added", "added symbol {} has several users in {:?}: {}", head, shown(), what());
            head = users[0].lhs;
            steps += 1;
            ensure!(steps < 10_000, "added", "added symbols of {:?} lead nowhere: {}", shown(), what());
        }
        heads.push(head);
    }
    for (_, t) in &transitions {
        ensure_eq!(t.symbol.usize(), heads[t.dot as usize], "predictor", "symbol that predicts dot {} in {:?}: {}", t.dot, shown(), what());
    }

    // Prediction.
    let mut predicts = vec![Row::new(n); n];
    for (i, row) in predicts.iter_mut().enumerate() {
        row.insert(i);
    }
    for (r, &head) in rules.iter().zip(&heads) {
        if r.rhs[0] < n {
            predicts[head].insert(r.rhs[0]);
        }
    }
    for k in 0..n {
        let through = predicts[k].clone();
        for row in predicts.iter_mut() {
            if row.contains(k) {
                row.merge(&through);
            }
        }
    }
    for s in 0..n {
        let expected: Vec<usize> = predicts[s].iter().collect();
        ensure_eq!(bits(g.prediction_row(sym(s)), n), expected, "prediction", "predictions of {} in {:?}: {}", s, shown(), what());
    }

    // FIRST and FOLLOW, on terminals.
    let total = n + gens;
    let terminal: Vec<bool> = (0..total).map(|s| !rules.iter().any(|r| r.lhs == s)).collect();
    let mut firsts = vec![Row::new(total); total];
    let mut follows = firsts.clone();
    for s in (0..total).filter(|&s| terminal[s]) {
        firsts[s].insert(s);
    }
    loop {
        let mut changed = false;
        for r in &rules {
            let add = firsts[r.rhs[0]].clone();
            changed |= firsts[r.lhs].merge(&add);
        }
        if !changed {
            break;
        }
    }
    loop {
        let mut changed = false;
        for r in rules.iter().rev() {
            if let Some(&second) = r.rhs.get(1) {
                changed |= follows[r.rhs[0]].merge(&firsts[second]);
            }
            let add = follows[r.lhs].clone();
            changed |= follows[*r.rhs.last().unwrap()].merge(&add);
        }
        if !changed {
            break;
        }
    }
    let on_terminals = |row: &BitSlice| -> Vec<usize> { bits(row, n).into_iter().filter(|&s| terminal[s]).collect() };
    for s in (0..n).filter(|&s| !terminal[s]) {
        let expected: Vec<usize> = follows[s].iter().collect();
        ensure_eq!(on_terminals(g.lhs_lr_set(sym(s))), expected, "follow", "FOLLOW of {} in {:?}: {}", s, shown(), what());
    }
    for d in 0..count {
        let which = g.rhs1_or_lhs(d as u32).usize();
        if which >= n {
            continue;
        }
        let expected: Vec<usize> = if rules[d].rhs.len() > 1 { firsts[which].iter().collect() } else { follows[which].iter().collect() };
        ensure_eq!(on_terminals(g.lookahead_set(d as u32)), expected, "lookahead", "lookahead at dot {} in {:?}: {}", d, shown(), what());
    }

    // Ends of input.
    let before_eof: Vec<usize> = (0..count).filter(|&d| rules[d].rhs.get(1) == Some(&g.eof().usize())).collect();
    ensure_eq!(before_eof, vec![g.dot_before_eof() as usize], "eof", "dots before the end of input in {:?}: {}", shown(), what());
    ensure!(terminal[g.sof().usize()] && terminal[g.eof().usize()], "ends", "the ends of input have rules: {}", what());
    ensure!(subject.outer(g.sof()).is_none() && subject.outer(g.eof()).is_none(), "ends", "the ends of input are symbols of {}", what());
    ensure_eq!(g.externalized_start_sym(), subject.built.ext[spec.start], "start", "the start symbol of {}", what());
    let nullable = spec.nullable();
    ensure_eq!(g.has_trivial_derivation(), nullable[spec.start], "trivial", "empty input and {}", what());
    let info = g.forest_info();
    ensure_eq!((info.sof, info.eof), (g.sof(), g.eof()), "forest-info", "ends of input in {}", what());
    for d in 0..count {
        ensure_eq!(info.eval[d].id, g.external_origin(d as u32).id, "forest-info", "origin of dot {} in {}", d, what());
        ensure_eq!(info.nulling_eliminated[d], g.nulling(d as u32), "forest-info", "left out at dot {} in {}", d, what());
    }

    // Rules as written.
    let solid = spec.solid();
    let productive = spec.productive();
    let reachable = spec.reachable();
    let choices = |rule: &spec::Rule| -> usize {
        let both = rule.rhs.iter().filter(|&&s| nullable[s] && solid[s]).count();
        1usize << both.min(40)
    };
    if spec.rules.iter().map(choices).max() > Some(1 << 10) {
        ctx.label("too many choices of empty symbols to list");
        note(ctx, &spec);
        return Ok(());
    }
    let mut flat = Flat { subject: &subject, rules: &rules, memo: BTreeMap::new(), depth: 0 };
    let mut got: Vec<(usize, Option<usize>, Pattern)> = vec![];
    for d in 0..count as u32 {
        let id = g.external_origin(d).id;
        if id != !0 {
            for p in flat.rule(d)? {
                got.push((id as usize, subject.outer(g.get_lhs(d)), p));
            }
        }
    }
    got.sort();
    let mut expected = vec![];
    for (r, rule) in spec.rules.iter().enumerate() {
        if !reachable[rule.lhs] || !rule.rhs.iter().all(|&s| productive[s]) {
            continue;
        }
        let mut patterns: Vec<Pattern> = vec![vec![]];
        for &s in &rule.rhs {
            let ways: Vec<bool> = [false, true].into_iter().filter(|&nulled| if nulled { nullable[s] } else { solid[s] }).collect();
            patterns = patterns.iter().flat_map(|p| ways.iter().map(|&w| [&p[..], &[(s, w)]].concat())).collect();
        }
        for pattern in patterns {
            if pattern.iter().any(|p| !p.1) {
                expected.push((r, Some(rule.lhs), pattern));
            }
        }
    }
    expected.sort();
    ensure_eq!(got, expected, "rules", "rules with their choices of empty symbols in {:?} of {}", shown(), what());
    let eliminated = expected.iter().any(|(_, _, p)| p.iter().any(|s| s.1));
    ctx.nontrivial(count >= 4 && (eliminated || spec.rules.iter().any(|r| r.rhs.len() > 2)));
    ctx.count("rules compared", expected.len() as u64);
    ctx.label_if(gens > 0, "added symbols outside of the tables");
    note(ctx, &spec);
    ctx.case(&spec);
    ctx.describe(|| format!("{}: {:?}", what(), shown()));
    Ok(())
}

fn c20_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, Shape::default());
    c20(ctx, spec)
}
fn c20_units(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = unit_grammar(tape);
    c20(ctx, spec)
}
fn c20_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let spec = spec::grammar(tape, nullable_shape());
    c20(ctx, spec)
}

// Larger grammars and longer inputs.

fn c18_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c18_round_trip(tape, ctx))
}

fn c19_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c19_renumber(tape, ctx))
}

fn c20_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c20_nullable(tape, ctx))
}

fn c18_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c18_round_trip(tape, ctx))
}

fn c19_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c19_renumber(tape, ctx))
}

fn c20_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c20_nullable(tape, ctx))
}
