//! Evaluation of finished parses with both forests.

use crate::engine::*;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Rule, Shape, Spec};
use gearley_recognizer::Recognizer;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::rc::Rc;

const EVAL: &str = "evaluators supply one value for every empty symbol, as documented";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "A case is a generated grammar and an input with exactly one derivation (found by \
                   the reference, or unambiguous by construction for the long arm); both forests \
                   are evaluated symbolically and compared with that derivation, and the calls \
                   with those that its nodes require. Non-trivial: at least 3 tokens.",
            assumptions: &[CLASS, EVAL],
            arms: vec![
                Arm { name: "single", quick: 50_000, thorough: 2_000_000, tape: (60, 400), run: c05_single },
                Arm { name: "single-nullable", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c05_nullable },
                Arm { name: "bracketed-long", quick: 500, thorough: 12_000, tape: (2000, 4000), run: c05_long },
                Arm { name: "single-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c05_large },
                Arm { name: "single-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c05_huge },
                Arm { name: "very-long", quick: 60, thorough: 2_000, tape: (60, 300), run: crate::long::evaluated },
            ],
            probes: vec![],
        },
        Property {
            id: "C06",
            rule: "A case is a generated grammar and an accepted input with 2 to 300 derivations \
                   and no ambiguity below the root; the values of both forests are compared, \
                   sorted, with the trees of the reference. Non-trivial: at least 3 tokens.",
            assumptions: &[CLASS, EVAL],
            arms: vec![
                Arm { name: "root", quick: 60_000, thorough: 2_500_000, tape: (60, 400), run: c06_root },
                Arm { name: "overlapping", quick: 50_000, thorough: 2_000_000, tape: (60, 300), run: c06_overlapping },
                Arm { name: "root-nullable", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c06_nullable },
                Arm { name: "root-large", quick: 30_000, thorough: 100000, tape: (200, 3000), run: c06_large },
                Arm { name: "splits", quick: 200, thorough: 10_000, tape: (20, 60), run: crate::long::splits },
                Arm { name: "alternatives", quick: 120, thorough: 2_000, tape: (20, 60), run: crate::long::valued },
            ],
            probes: vec![],
        },
        Property {
            id: "C07",
            rule: "A case is a generated grammar and accepted input with at most 300 derivations, \
                   ambiguous at any depth; the values and calls of the two forests are compared \
                   with each other (below the root, alternatives are compared regardless of \
                   order). Non-trivial: at least 3 tokens.",
            assumptions: &[CLASS, EVAL],
            arms: vec![
                Arm { name: "differential", quick: 50_000, thorough: 2_000_000, tape: (60, 400), run: c07_general },
                Arm { name: "differential-nullable", quick: 30_000, thorough: 1_200_000, tape: (60, 400), run: c07_nullable },
                Arm { name: "differential-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c07_large },
                Arm { name: "differential-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c07_huge },
            ],
            probes: vec![],
        },
        Property {
            id: "C08",
            rule: "A case is a generated grammar rich in nullable symbols and an input; trees with \
                   the empty symbols in place are compared with the reference for the recorded \
                   forest and for the values of both forests, and the empty input is checked for \
                   every grammar before and after the start of input was read. Non-trivial: the \
                   derivation contains a symbol that matched nothing, next to 2 or more tokens, or \
                   the grammar derives the empty string.",
            assumptions: &[CLASS, EVAL],
            arms: vec![
                Arm { name: "nullable", quick: 40_000, thorough: 1_800_000, tape: (60, 400), run: c08_trees },
                Arm { name: "empty-input", quick: 40_000, thorough: 1_500_000, tape: (60, 300), run: c08_empty },
                Arm { name: "nullable-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c08_large },
                Arm { name: "nullable-huge", quick: 150, thorough: 3000, tape: (200, 3000), run: c08_huge },
            ],
            probes: vec![],
        },
    ]
}

/// Values of a finished parse (unsorted) and the calls made.
pub fn values<F: Evaluated>(
    subject: &Subject,
    lat: &Lattice,
    twice: bool,
) -> Result<Option<(Vec<Rc<Tree>>, Calls)>, Fail> {
    let mut rec = Recognizer::with_forest(subject, F::fresh(subject, 64));
    let verdict = run(&mut rec, subject, lat, |_| {});
    if verdict.read < lat.len() {
        return Ok(None);
    }
    let Some(root) = rec.finished_node() else { return Ok(None) };
    let mut forest = rec.into_forest();
    let calls = Calls::default();
    let out = unwrap(forest.values(Symbolic { subject, calls: &calls }, root))?;
    if twice {
        let again = Calls::default();
        let second = unwrap(forest.values(Symbolic { subject, calls: &again }, root))?;
        ensure_eq!(second, out, "again", "a second evaluation of the same forest differs");
    }
    Ok(Some((out, calls)))
}

pub fn unwrap(values: Vec<Value>) -> Result<Vec<Rc<Tree>>, Fail> {
    values
        .into_iter()
        .map(|v| v.0.ok_or_else(|| Fail::new("values", "a result is a default value, computed by no call")))
        .collect()
}

type Pair = [(&'static str, Option<(Vec<Rc<Tree>>, Calls)>); 2];

fn both(subject: &Subject, lat: &Lattice, twice: bool) -> Result<Pair, Fail> {
    Ok([
        ("simple", values::<simple_bocage::Bocage>(subject, lat, twice)?),
        ("compact", values::<compact_bocage::Bocage>(subject, lat, twice)?),
    ])
}

/// A grammar and an accepted input with some number of derivations.
fn case(
    tape: &mut Tape<'_>,
    ctx: &mut Ctx,
    shape: Shape,
    max: usize,
) -> Option<(Spec, Vec<usize>, Lattice)> {
    let spec = spec::grammar(tape, shape);
    let Some(input) = spec::accepted(tape, &spec, max) else {
        ctx.label("skipped: no short sentence");
        return None;
    };
    let salt = if tape.chance(1, 2) { 0 } else { tape.interesting_u32() };
    let lat = lattice(&input, |i| (i as u32).wrapping_mul(salt | 1).wrapping_add(salt));
    Some((spec, input, lat))
}

fn c05(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape) -> CaseResult {
    let Some((spec, input, lat)) = case(tape, ctx, shape, 14) else { return Ok(()) };
    let twice = tape.chance(1, 4);
    let mut reference = Reference::new(&spec, &lat);
    if reference.total() != 1 {
        ctx.label("skipped: ambiguous");
        return Ok(());
    }
    let tree = reference.all().remove(0);
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    for (name, got) in both(&subject, &lat, twice)? {
        let Some((got, calls)) = got else {
            return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
        };
        ensure_eq!(got, vec![tree.clone()], format!("value-{}", name), "{} values of {}", name, what());
        ensure_eq!(calls.sorted(), calls_of(&tree), format!("calls-{}", name), "{} calls of {}", name, what());
    }
    ctx.nontrivial(input.len() >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {:?}", what(), tree));
    Ok(())
}

fn c05_single(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c05(tape, ctx, Shape::default())
}
fn c05_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c05(tape, ctx, nullable_shape())
}

/// A grammar in which every rule of the nonterminals below the list starts with its own bracket,
/// and a derivation of it.
pub fn bracketed(tape: &mut Tape<'_>, items: usize, right: bool, most: usize) -> (Spec, Rc<Tree>, Vec<usize>) {
    let nonterminals = tape.range(1, 4);
    let plain = 2;
    let list = 0;
    // Symbols: list, nonterminals, plain terminals, closing bracket, an empty symbol, opening brackets.
    let first_plain = 1 + nonterminals;
    let close = first_plain + plain;
    let empty = close + 1;
    let mut next = empty + 1;
    let mut rules = vec![];
    let push = |rules: &mut Vec<Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs })
    };
    let right = tape.chance(1, 3) && right;
    push(&mut rules, list, if right { vec![1, list] } else { vec![list, 1] });
    push(&mut rules, list, vec![1]);
    push(&mut rules, empty, vec![]);
    for lhs in 1..=nonterminals {
        for k in 0..tape.range(1, 3) {
            let open = next;
            next += 1;
            let mut rhs = vec![open];
            for _ in 0..tape.below(4) {
                rhs.push(if k > 0 && tape.chance(1, 2) {
                    1 + tape.below(nonterminals)
                } else if tape.chance(1, 4) {
                    empty
                } else {
                    first_plain + tape.below(plain)
                });
            }
            if tape.chance(3, 4) {
                rhs.push(close);
            }
            push(&mut rules, lhs, rhs);
        }
    }
    let nsyms = next;
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s > nonterminals && s != empty).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: list,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    let mut input = vec![];
    // Derivations of the items.
    fn derive(tape: &mut Tape<'_>, spec: &Spec, sym: usize, empty: usize, depth: usize, input: &mut Vec<usize>, salt: u32) -> Rc<Tree> {
        if spec.terminal[sym] {
            input.push(sym);
            return Rc::new(Tree::Leaf(sym, (input.len() as u32 - 1).wrapping_mul(salt)));
        }
        if sym == empty {
            return Rc::new(Tree::Null(sym));
        }
        let rules: Vec<usize> = (0..spec.rules.len()).filter(|&r| spec.rules[r].lhs == sym).collect();
        let r = if depth > 6 { rules[0] } else { rules[tape.below(rules.len())] };
        let children = spec.rules[r]
            .rhs
            .iter()
            .map(|&s| derive(tape, spec, s, empty, depth + 1, input, salt))
            .collect();
        Rc::new(Tree::Node(r as u32, children))
    }
    let salt = tape.interesting_u32() | 1;
    let mut parts = vec![];
    for _ in 0..items {
        parts.push(derive(tape, &spec, 1, empty, 0, &mut input, salt));
        if input.len() > most {
            break;
        }
    }
    let tree = if right {
        let mut parts = parts.into_iter().rev();
        let last = Rc::new(Tree::Node(1, vec![parts.next().unwrap()]));
        parts.fold(last, |acc, p| Rc::new(Tree::Node(0, vec![p, acc])))
    } else {
        let mut parts = parts.into_iter();
        let first = Rc::new(Tree::Node(1, vec![parts.next().unwrap()]));
        parts.fold(first, |acc, p| Rc::new(Tree::Node(0, vec![acc, p])))
    };
    (spec, tree, input)
}

fn c05_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let items = [10, 40, 200, 1000][tape.below(4)];
    let items = tape.range(1, items);
    let (spec, tree, input) = bracketed(tape, items, true, 6000);
    let salt = {
        // Values are part of the tree.
        let mut out = vec![];
        crate::long::leaf_values(&tree, &mut out);
        out
    };
    let lat = lattice(&input, |i| salt[i]);
    let subject = Subject::new(&spec);
    let what = || format!("{} tokens by {}", input.len(), spec.text());
    for (name, got) in both(&subject, &lat, false)? {
        let Some((got, calls)) = got else {
            return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
        };
        ensure!(got.len() == 1 && got[0] == tree, format!("value-{}", name), "{} values of {}", name, what());
        ensure!(calls.sorted() == calls_of(&tree), format!("calls-{}", name), "{} calls of {}", name, what());
    }
    ctx.nontrivial(input.len() >= 3);
    ctx.label_if(input.len() > 100, "more than 100 tokens");
    ctx.label_if(input.len() > 2000, "more than 2000 tokens");
    ctx.case(&(&spec, &input));
    ctx.describe(what);
    Ok(())
}

fn c06(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape) -> CaseResult {
    let Some((spec, input, lat)) = case(tape, ctx, shape, 12) else { return Ok(()) };
    c06_check(tape, ctx, spec, input, lat)
}

/// The start symbol's alternatives overlap, and the symbols that they use are unambiguous.
fn c06_overlapping(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let lists = tape.range(1, 5);
    let terminals = tape.range(1, 2);
    let first = 1 + lists;
    let nsyms = first + terminals;
    let mut rules = vec![];
    let push = |rules: &mut Vec<Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs })
    };
    for lhs in 1..=lists {
        let t = first + tape.below(terminals);
        let u = first + tape.below(terminals);
        match tape.below(7) {
            0 => {
                push(&mut rules, lhs, vec![lhs, t]);
                push(&mut rules, lhs, vec![t]);
            }
            1 => {
                push(&mut rules, lhs, vec![t, lhs]);
                push(&mut rules, lhs, vec![t]);
            }
            2 => push(&mut rules, lhs, vec![t]),
            3 => {
                push(&mut rules, lhs, vec![]);
                push(&mut rules, lhs, vec![t]);
            }
            4 => push(&mut rules, lhs, vec![t, u]),
            5 => {
                push(&mut rules, lhs, vec![]);
                push(&mut rules, lhs, vec![lhs, t]);
            }
            _ if lhs > 1 => push(&mut rules, lhs, vec![lhs - 1]),
            _ => push(&mut rules, lhs, vec![t, u, t]),
        }
    }
    for _ in 0..tape.range(1, 5) {
        let len = [1, 2, 2, 2, 3][tape.below(5)];
        let rhs = (0..len).map(|_| 1 + tape.below(nsyms - 1)).collect();
        push(&mut rules, 0, rhs);
    }
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= first).collect(),
        order: (0..rules.len()).collect(),
        rules,
        start: 0,
        layout: (0..nsyms).map(Some).collect(),
    };
    spec.scramble(tape);
    let Some(input) = spec::accepted(tape, &spec, 9) else { return Ok(()) };
    let lat = lattice(&input, |i| i as u32 * 77);
    c06_check(tape, ctx, spec, input, lat)
}

fn c06_check(tape: &mut Tape<'_>, ctx: &mut Ctx, spec: Spec, input: Vec<usize>, lat: Lattice) -> CaseResult {
    let twice = tape.chance(1, 4);
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total < 2 || total > TREES {
        ctx.label("skipped: number of trees");
        return Ok(());
    }
    if reference.nested_ambiguity() {
        ctx.label("skipped: ambiguity below the root");
        return Ok(());
    }
    let expected = reference.all();
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    for (name, got) in both(&subject, &lat, twice)? {
        let Some((mut got, _)) = got else {
            return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
        };
        got.sort();
        ensure_eq!(got, expected, format!("values-{}", name), "{} values of {}", name, what());
    }
    ctx.nontrivial(input.len() >= 3);
    ctx.label_if(total > 3, "more than 3 trees");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} trees, {:?}", what(), total, &expected[..2]));
    Ok(())
}

fn c06_root(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c06(tape, ctx, Shape::default())
}
fn c06_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c06(tape, ctx, nullable_shape())
}

/// The tree with the children of every node sorted.
fn unordered(tree: &Tree) -> Rc<Tree> {
    Rc::new(match tree {
        Tree::Node(r, children) => {
            let mut children: Vec<Rc<Tree>> = children.iter().map(|c| unordered(c)).collect();
            children.sort();
            Tree::Node(*r, children)
        }
        other => other.clone(),
    })
}

fn c07(tape: &mut Tape<'_>, ctx: &mut Ctx, shape: Shape) -> CaseResult {
    let Some((spec, input, lat)) = case(tape, ctx, shape, 12) else { return Ok(()) };
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total > TREES {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let nested = reference.nested_ambiguity();
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let [(_, simple), (_, compact)] = both(&subject, &lat, false)?;
    let (Some((mut a, a_calls)), Some((mut b, b_calls))) = (simple, compact) else {
        return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
    };
    if nested {
        a = a.iter().map(|t| unordered(t)).collect();
        b = b.iter().map(|t| unordered(t)).collect();
    }
    a.sort();
    b.sort();
    ensure_eq!(b, a, "values", "compact against simple values of {}", what());
    ensure_eq!(b_calls.sorted(), a_calls.sorted(), "calls", "compact against simple calls of {}", what());
    ctx.nontrivial(input.len() >= 3);
    ctx.label_if(total > 1, "ambiguous");
    ctx.label_if(nested, "ambiguous below the root");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {} values", what(), a.len()));
    Ok(())
}

fn c07_general(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c07(tape, ctx, Shape::default())
}
fn c07_nullable(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    c07(tape, ctx, nullable_shape())
}

fn has_null(tree: &Tree) -> bool {
    match tree {
        Tree::Null(_) => true,
        Tree::Leaf(..) => false,
        Tree::Node(_, c) => c.iter().any(|c| has_null(c)),
    }
}

fn very_nullable(tape: &mut Tape<'_>) -> Shape {
    Shape { nulls: [14, 30][tape.below(2)], nonterminals: [4, 6, 8][tape.below(3)], wide: false, ..Shape::default() }
}

fn c08_trees(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = very_nullable(tape);
    let Some((spec, input, lat)) = case(tape, ctx, shape, 8) else { return Ok(()) };
    let mut reference = Reference::new(&spec, &lat);
    let total = reference.total();
    if total > 100 {
        ctx.label("skipped: too many trees");
        return Ok(());
    }
    let expected = reference.all();
    let subject = Subject::new(&spec);
    let what = || format!("{} by {}", spec.words(&input), spec.text());
    let (mut rec, recorder) = recorded(&subject);
    run(&mut rec, &subject, &lat, |_| {});
    let Some(root) = rec.finished_node() else {
        return Err(Fail::new("accepted", format!("no finished node: {}", what())));
    };
    let record = recorder.0.borrow();
    if !input.is_empty() {
        let got = Expand::new(&subject, &record, 400).finished(root)?;
        ensure_eq!(got, expected, "trees", "trees of {}", what());
    }
    if !reference.nested_ambiguity() {
        for (name, got) in both(&subject, &lat, false)? {
            let Some((mut got, _)) = got else {
                return Err(Fail::new("accepted", format!("sentence rejected: {}", what())));
            };
            got.sort();
            ensure_eq!(got, expected, format!("values-{}", name), "{} values of {}", name, what());
        }
        ctx.label("evaluated");
    }
    ctx.nontrivial(input.len() >= 2 && expected.iter().any(|t| has_null(t)));
    ctx.label_if(total > 1, "ambiguous");
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {:?}", what(), expected[0]));
    Ok(())
}

fn c08_one<F: Evaluated>(subject: &Subject, spec: &Spec, name: &str) -> CaseResult {
    let nullable = spec.nullable()[spec.start];
    let expected = vec![Rc::new(Tree::Null(spec.start))];
    for read in [false, true] {
        let mut rec = Recognizer::with_forest(subject, F::fresh(subject, 0));
        let when = if read {
            let ok = start(&mut rec);
            ensure!(ok, "start", "the start of input is not accepted by {}", spec.text());
            "after the start of input"
        } else {
            "before any input"
        };
        ensure_eq!(rec.is_finished(), nullable, format!("finished-{}", read), "empty parse {} finished by {}", when, spec.text());
        ensure_eq!(rec.finished_node().is_some(), nullable, format!("finished-{}", read), "empty parse {} has a node by {}", when, spec.text());
        if let Some(root) = rec.finished_node() {
            let mut forest = rec.into_forest();
            let calls = Calls::default();
            let got = unwrap(forest.values(Symbolic { subject, calls: &calls }, root))?;
            ensure_eq!(got, expected, format!("empty-{}-{}", name, read), "{} value of the empty parse {} by {}", name, when, spec.text());
        }
    }
    Ok(())
}

fn c08_empty(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = very_nullable(tape);
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    c08_one::<simple_bocage::Bocage>(&subject, &spec, "simple")?;
    c08_one::<compact_bocage::Bocage>(&subject, &spec, "compact")?;
    let nullable = spec.nullable();
    ctx.label_if(nullable[spec.start], "derives the empty string");
    ctx.label_if(!nullable[spec.start] && nullable.contains(&true), "only other symbols are nullable");
    ctx.nontrivial(nullable[spec.start]);
    note(ctx, &spec);
    ctx.case(&spec);
    ctx.describe(|| spec.text());
    Ok(())
}

// Larger grammars and longer inputs.

fn c05_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c05_nullable(tape, ctx))
}

fn c06_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c06_nullable(tape, ctx))
}

fn c07_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c07_nullable(tape, ctx))
}

fn c08_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c08_trees(tape, ctx))
}

fn c05_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c05_nullable(tape, ctx))
}

fn c07_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c07_nullable(tape, ctx))
}

fn c08_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::huge(|| c08_trees(tape, ctx))
}
