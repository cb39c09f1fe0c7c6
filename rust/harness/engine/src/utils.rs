//! One-call parsing functions and the bundled example grammars.

use crate::engine::*;
use crate::recognize::*;
use crate::reference::*;
use crate::spec::{self, Shape, Spec};
use cfg::Symbol;
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Property, Tape};
use std::fmt::{Debug, Display};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "A case is a generated grammar and a call: parse() with a token list (symbols that \
                   no rule uses included), through a fresh recognizer or one that was reset; \
                   parse_terminal_list() with a list of names, unknown ones included; or \
                   parse_tokenizing() with a text over a generated character map (characters of \
                   several terminals or none, several bytes long). The outcome is compared with the \
                   reference verdict and the first impossible token, and the error with the token \
                   or word there. Non-trivial: at least 3 tokens.",
            assumptions: &[CLASS, "names and tokens stand for terminals or for symbols without rules"],
            arms: vec![
                Arm { name: "tokens", quick: 40_000, thorough: 1_500_000, tape: (60, 400), run: c23_tokens },
                Arm { name: "tokens-reset", quick: 15_000, thorough: 500_000, tape: (60, 500), run: c23_reset },
                Arm { name: "tokens-large", quick: 7_500, thorough: 60000, tape: (200, 3000), run: c23_large },
                Arm { name: "very-long", quick: 300, thorough: 10_000, tape: (60, 300), run: c23_very_long },
                Arm { name: "names", quick: 25_000, thorough: 1_000_000, tape: (60, 400), run: c23_names },
                Arm { name: "names-large", quick: 5_000, thorough: 40000, tape: (200, 3000), run: c23_names_large_large },
                Arm { name: "text", quick: 40_000, thorough: 1_500_000, tape: (60, 500), run: c23_text },
                Arm { name: "text-large", quick: 5_000, thorough: 40000, tape: (200, 3000), run: c23_text_large_large },
            ],
            probes: vec![],
        },
        Property {
            id: "C28",
            rule: "A case is a string over the alphabet of an example grammar: a generated \
                   expression (with spelled out numbers), the same with edits, or random \
                   characters. Acceptance, the finished state of every prefix, the number of \
                   parses and the values that the bundled evaluator gives are compared with a \
                   hand-written parser. Non-trivial: an expression of at least 2 operators.",
            assumptions: &[
                "the bundled evaluators get symbols as the grammar names them",
                "values are compared when no intermediate result overflows and nothing is divided by zero",
            ],
            arms: vec![
                Arm { name: "precedence", quick: 30_000, thorough: 1_000_000, tape: (40, 300), run: c28_precedence },
                Arm { name: "ambiguous", quick: 20_000, thorough: 500_000, tape: (40, 200), run: c28_ambiguous },
            ],
            probes: vec![],
        },
    ]
}

// ------------------------------------------------------------------------------------------
// C23

/// What a call reported.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Outcome {
    Read(bool),
    /// Failure at a token.
    Token(usize),
    Unfinished,
    /// Not a name or character of the grammar.
    Word(String),
}

fn outcome<E: Debug + Display>(result: Result<bool, E>) -> Outcome {
    reported(result).0
}

/// What an error says.
#[derive(Default)]
struct Message {
    /// Text of the numbers of its tokens.
    tokens: Vec<String>,
    shown: String,
}

fn numbers(text: &str) -> Vec<String> {
    let mut all: Vec<String> = text.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(str::to_string).collect();
    all.sort();
    all
}

impl Message {
    /// An error at a token names the token and its position, an error about a word the word.
    fn check(&self, got: &Outcome, tokens: impl Fn(usize) -> Vec<Symbol>, what: &str) -> CaseResult {
        match got {
            Outcome::Token(at) => {
                let expected = tokens(*at);
                ensure_eq!(self.tokens, numbers(&format!("{:?}", expected)), "tokens", "tokens of the error at {} of {}", at, what);
                ensure!(self.shown.contains(&at.to_string()), "message", "the message {:?} lacks the position {} of {}", self.shown, at, what);
            }
            Outcome::Word(word) => {
                let inside = word.trim_matches('"');
                // Characters that are not written as they are.
                let plain = !inside.contains('\\');
                ensure!(!plain || self.shown.contains(inside), "message", "the message {:?} lacks the word {} of {}", self.shown, word, what);
            }
            Outcome::Read(_) | Outcome::Unfinished => {}
        }
        Ok(())
    }
}

fn reported<E: Debug + Display>(result: Result<bool, E>) -> (Outcome, Message) {
    match result {
        Ok(finished) => (Outcome::Read(finished), Message::default()),
        Err(e) => {
            let text = format!("{:?}", e);
            let tokens = text.find("tokens: [").map_or("", |k| &text[k + 9..]);
            let tokens = numbers(tokens.split(']').next().unwrap_or(""));
            (failure(&text), Message { tokens, shown: e.to_string() })
        }
    }
}

fn failure(text: &str) -> Outcome {
    let variant: String = text.chars().take_while(|c| c.is_alphanumeric()).collect();
    match &variant[..] {
        "Parse" => {
            let at = text.rfind("i: ").map(|k| &text[k + 3..]).unwrap_or("");
            let digits: String = at.chars().take_while(|c| c.is_ascii_digit()).collect();
            Outcome::Token(digits.parse().unwrap_or(usize::MAX))
        }
        "Tokenize" => {
            let at = text.rfind("word: ").map(|k| &text[k + 6..]).unwrap_or("");
            let end = at.rfind('"').map_or(at.len(), |k| k + 1);
            Outcome::Word(at[..end].to_string())
        }
        _ => Outcome::Unfinished,
    }
}

/// An input, sometimes with symbols that no rule uses (numbered from `nsyms` up).
fn tokens(tape: &mut Tape<'_>, spec: &Spec, unused: usize, max: usize) -> Vec<usize> {
    let mut input = spec::input(tape, spec, max);
    if tape.chance(1, 6) {
        let terminals = spec.terminals();
        let at = tape.below(input.len() + 1);
        let token = match tape.below(2) {
            0 if unused > 0 => spec.nsyms + tape.below(unused),
            _ => *tape.pick(&terminals),
        };
        input.insert(at, token);
    }
    input
}

fn words(spec: &Spec, input: &[usize]) -> String {
    let words: Vec<String> = input
        .iter()
        .map(|&s| if s < spec.nsyms { spec.name(s) } else { format!("unused{}", s - spec.nsyms) })
        .collect();
    format!("[{}]", words.join(" "))
}

/// Tens of thousands of tokens, through each of the functions.
fn c23_very_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let how = tape.below(3);
    let Some(long) = crate::long::long(tape) else { return Ok(()) };
    pbt::set_tick_budget(u64::MAX);
    let (spec, len) = (&long.spec, long.input.len());
    let got = match how {
        0 => {
            let subject = Subject::new(spec);
            outcome(null_rec(&subject).parse(&symbols(&subject, spec, &long.input)))
        }
        1 => {
            let built = spec.build();
            let names: Vec<String> = built.cfg.sym_source().names().map(|n| n.map_or(String::new(), |n| n.to_string())).collect();
            let list: Vec<&str> = long.input.iter().map(|&s| &names[built.ext[s].usize()][..]).collect();
            let grammar = DefaultGrammar::from_grammar(built.cfg.clone());
            outcome(parse_terminal_list(built.cfg, grammar, list.into_iter()))
        }
        _ => {
            let built = spec.build();
            let mut map = LexerMap::new();
            let mut chars = vec!['?'; spec.nsyms];
            for (k, &t) in spec.terminals().iter().enumerate() {
                chars[t] = CHARS[k % CHARS.len()];
                if k < CHARS.len() {
                    map.add(chars[t], chars[t], built.ext[t]);
                }
            }
            if spec.terminals().len() > CHARS.len() {
                ctx.label("skipped: too many terminals");
                return Ok(());
            }
            let text: String = long.input.iter().map(|&t| chars[t]).collect();
            let grammar = DefaultGrammar::from_grammar(built.cfg.clone());
            outcome(parse_tokenizing(AdvancedGrammar { cfg: built.cfg, lexer_map: map }, grammar, &text))
        }
    };
    let accepted = long.viable == len && long.finished[len];
    let right = match &got {
        Outcome::Token(at) => long.viable < len && (*at == long.viable || how < 2 && long.viable > 0 && *at == long.viable - 1),
        Outcome::Read(finished) => long.viable == len && *finished == accepted && (how == 0 || accepted),
        Outcome::Unfinished => long.viable == len && !accepted,
        Outcome::Word(_) => false,
    };
    ensure!(right, "verdict", "function {}: {:?}, but {} of {} tokens can be read, and it is {} sentence: {}", how, got, long.viable, len, if accepted { "a" } else { "no" }, long.text);
    labels(ctx, &got);
    crate::long::describe(ctx, &long);
    Ok(())
}

/// A failure with a hint may be noticed one token before the impossible one.
fn check_tokens(got: &Outcome, reference: &Reference<'_>, len: usize, early: bool, what: &str) -> CaseResult {
    let viable = reference.viable();
    match got {
        Outcome::Token(at) => {
            let right = *at == viable || early && viable > 0 && *at == viable - 1;
            ensure!(viable < len && right, "failing-token", "{}: a failure at token {}, but {} of {} tokens can be read", what, at, viable, len);
        }
        Outcome::Read(finished) => {
            ensure!(viable == len, "verdict", "{}: no failure, but token {} cannot be read", what, viable);
            ensure_eq!(*finished, reference.accepted(), "verdict", "{}", what);
        }
        Outcome::Unfinished => {
            ensure!(viable == len && !reference.accepted(), "verdict", "{}: reported unfinished, but {} of {} tokens can be read, and it is {} sentence", what, viable, len, if reference.accepted() { "a" } else { "no" });
        }
        Outcome::Word(w) => return Err(pbt::Fail::new("verdict", format!("{}: {} is reported as unknown", what, w))),
    }
    Ok(())
}

fn symbols(subject: &Subject, spec: &Spec, input: &[usize]) -> Vec<Symbol> {
    input
        .iter()
        .map(|&s| if s < spec.nsyms { subject.built.ext[s] } else { subject.built.unused[s - spec.nsyms] })
        .collect()
}

fn shape(tape: &mut Tape<'_>) -> Shape {
    if tape.chance(1, 3) { nullable_shape() } else { Shape::default() }
}

fn labels(ctx: &mut Ctx, got: &Outcome) {
    match got {
        Outcome::Read(true) => ctx.label("success"),
        Outcome::Read(false) | Outcome::Unfinished => ctx.label("unfinished"),
        Outcome::Token(_) => ctx.label("failing token"),
        Outcome::Word(_) => ctx.label("unknown word"),
    }
}

fn c23_tokens(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = shape(tape);
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let input = tokens(tape, &spec, subject.built.unused.len(), 16);
    let lat = lattice(&input, |i| i as u32);
    let mut reference = Reference::new(&spec, &lat);
    let what = format!("parse of {} by {}", words(&spec, &input), spec.text());
    let (mut rec, recorder) = recorded(&subject);
    let list = symbols(&subject, &spec, &input);
    let (got, message) = reported(rec.parse(&list));
    check_tokens(&got, &reference, input.len(), true, &what)?;
    message.check(&got, |at| vec![list[at]], &what)?;
    let finished = rec.finished_node();
    if got == Outcome::Read(true) {
        let Some(root) = finished else {
            return Err(pbt::Fail::new("finished", format!("{}: success without a finished node", what)));
        };
        // Leaves carry the position of their token.
        if reference.total() <= TREES {
            let record = recorder.0.borrow();
            let trees = Expand::new(&subject, &record, TREES as usize * 4).finished(root)?;
            ensure_eq!(trees, reference.all(), "trees", "parses of {}", what);
            ctx.label("parses compared");
        }
    } else if got == Outcome::Read(false) {
        ensure!(finished.is_none(), "finished", "{}: unfinished with a finished node", what);
    }
    labels(ctx, &got);
    ctx.nontrivial(input.len() >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &input));
    ctx.describe(|| format!("{}: {:?}", what, got));
    Ok(())
}

/// Several inputs through one recognizer.
fn c23_reset(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = shape(tape);
    let spec = spec::grammar(tape, shape);
    let subject = Subject::new(&spec);
    let mut rec = null_rec(&subject);
    let mut all = vec![];
    for k in 0..tape.range(2, 4) {
        let input = tokens(tape, &spec, subject.built.unused.len(), 10);
        let lat = lattice(&input, |i| i as u32);
        let reference = Reference::new(&spec, &lat);
        if k > 0 {
            rec.reset();
        }
        let what = format!("parse of {} (number {}, before it {:?}) by {}", words(&spec, &input), k, all, spec.text());
        let got = outcome(rec.parse(&symbols(&subject, &spec, &input)));
        check_tokens(&got, &reference, input.len(), true, &what)?;
        labels(ctx, &got);
        ctx.nontrivial(k > 0 && input.len() >= 3);
        all.push(input);
    }
    note(ctx, &spec);
    ctx.case(&(&spec, &all));
    ctx.describe(|| format!("{:?} by {}", all, spec.text()));
    Ok(())
}

fn c23_names(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = shape(tape);
    let spec = spec::grammar(tape, shape);
    let built = spec.build();
    let unused = built.unused.len();
    let input = tokens(tape, &spec, unused, 14);
    // Names as the grammar was built with.
    let names: Vec<_> = built.cfg.sym_source().names().collect();
    let mut list: Vec<String> = input
        .iter()
        .map(|&s| if s < spec.nsyms { built.ext[s] } else { built.unused[s - spec.nsyms] })
        .map(|sym| names[sym.usize()].as_ref().unwrap().to_string())
        .collect();
    let mut unknown = None;
    for _ in 0..tape.weighted(&[4, 1, 1]) {
        let at = tape.below(list.len() + 1);
        let word = match tape.below(3) {
            0 => ["nope", "", "s", "s999", "S0", " s0", "\u{e9}\"x\\"][tape.below(7)].to_string(),
            // Nearly a name that is known.
            _ => {
                let name = names[tape.below(names.len())].as_ref().map_or(String::new(), |n| n.to_string());
                let word = match tape.below(8) {
                    0 => format!("{}\n", name),
                    1 => format!("{} ", name),
                    2 => format!(" {}", name),
                    3 => format!("{}\r", name),
                    4 => name.to_uppercase(),
                    5 => name.chars().skip(1).collect(),
                    6 => format!("{}\0", name),
                    _ => format!("\"{}\"", name),
                };
                match names.iter().any(|n| n.as_ref().is_some_and(|n| n.to_string() == word)) {
                    true => "nope".to_string(),
                    false => word,
                }
            }
        };
        list.insert(at, word);
        unknown = Some(unknown.map_or(at, |u: usize| if u >= at { at } else { u }));
    }
    let lat = lattice(&input, |i| i as u32);
    let reference = Reference::new(&spec, &lat);
    let what = format!("parse of the names {:?} by {}", list, spec.text());
    let grammar = DefaultGrammar::from_grammar(built.cfg.clone());
    let written: Vec<Symbol> = input.iter().map(|&s| if s < spec.nsyms { built.ext[s] } else { built.unused[s - spec.nsyms] }).collect();
    let (got, message) = reported(parse_terminal_list(built.cfg, grammar, list.iter().map(|w| &w[..])));
    match unknown {
        Some(at) => {
            ensure_eq!(got, Outcome::Word(format!("{:?}", list[at])), "unknown-word", "{}", what);
        }
        None => {
            // An unfinished parse is an error here.
            ensure!(got != Outcome::Read(false), "verdict", "{}: unfinished, not reported as an error", what);
            check_tokens(&got, &reference, input.len(), true, &what)?;
        }
    }
    message.check(&got, |at| vec![written[at]], &what)?;
    labels(ctx, &got);
    ctx.nontrivial(list.len() >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &list));
    ctx.describe(|| format!("{}: {:?}", what, got));
    Ok(())
}

const CHARS: [char; 14] = ['a', 'b', 'c', 'd', 'e', 'x', ' ', '\n', '\u{e8}', '\u{e9}', '\u{ea}', '\u{2192}', '\u{1f600}', '\u{1f601}'];

fn c23_text(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let shape = shape(tape);
    let spec = spec::grammar(tape, Shape { wide: false, ..shape });
    let built = spec.build();
    // Terminals of every character.
    let mut classes: Vec<Vec<usize>> = vec![vec![]; CHARS.len()];
    let mut map = LexerMap::new();
    let mut all = spec.terminals();
    all.extend((0..built.unused.len().min(2)).map(|k| spec.nsyms + k));
    for (k, &t) in all.iter().enumerate() {
        let sym = if t < spec.nsyms { built.ext[t] } else { built.unused[t - spec.nsyms] };
        let mut ranges = vec![];
        if tape.chance(9, 10) {
            ranges.push((k % CHARS.len(), k % CHARS.len()));
        }
        if tape.chance(1, 3) {
            let first = tape.below(CHARS.len());
            ranges.push((first, first + tape.below(CHARS.len() - first)));
        }
        for (first, last) in ranges {
            // Ranges of neighbouring characters only.
            for c in first..=last {
                if !classes[c].contains(&t) {
                    classes[c].push(t);
                    map.add(CHARS[c], CHARS[c], sym);
                }
            }
        }
    }
    let input = spec::input(tape, &spec, 16);
    let mut text = vec![];
    // Characters of many terminals make long texts very ambiguous.
    let several = classes.iter().any(|c| c.len() > 1);
    for &t in input.iter().take(if several { 60 } else { input.len() }) {
        let fitting: Vec<usize> = (0..CHARS.len()).filter(|&c| classes[c].contains(&t)).collect();
        text.push(if fitting.is_empty() || tape.chance(1, 20) {
            tape.below(CHARS.len())
        } else {
            *tape.pick(&fitting)
        });
    }
    let lat: Lattice = text
        .iter()
        .map(|&c| classes[c].iter().map(|&t| (t, CHARS[c] as u32)).collect())
        .collect();
    let reference = Reference::new(&spec, &lat);
    let string: String = text.iter().map(|&c| CHARS[c]).collect();
    let what = format!("parse of the text {:?} with classes {:?} by {}", string, classes, spec.text());
    let grammar = DefaultGrammar::from_grammar(built.cfg.clone());
    let written = |t: usize| if t < spec.nsyms { built.ext[t] } else { built.unused[t - spec.nsyms] };
    let meant: Vec<Vec<Symbol>> = text.iter().map(|&c| classes[c].iter().map(|&t| written(t)).collect()).collect();
    let (got, message) = reported(parse_tokenizing(AdvancedGrammar { cfg: built.cfg, lexer_map: map }, grammar, &string));
    ensure!(got != Outcome::Read(false), "verdict", "{}: unfinished, not reported as an error", what);
    check_tokens(&got, &reference, text.len(), false, &what)?;
    message.check(&got, |at| meant[at].clone(), &what)?;
    labels(ctx, &got);
    ctx.label_if(text.iter().any(|&c| classes[c].len() > 1), "characters of several terminals");
    ctx.nontrivial(text.len() >= 3);
    note(ctx, &spec);
    ctx.case(&(&spec, &classes, &text));
    ctx.describe(|| format!("{}: {:?}", what, got));
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C28

/// A hand-written parser of `sum`s: `None` is a syntax error. Inside, `None` is a value that is
/// not compared.
struct Hand<'a> {
    text: &'a [u8],
    at: usize,
}

type Num = Option<i32>;

impl Hand<'_> {
    fn peek(&self) -> u8 {
        self.text.get(self.at).copied().unwrap_or(0)
    }
    fn number(&mut self) -> Option<Num> {
        let start = self.at;
        let mut value = Some(0i32);
        while self.peek().is_ascii_digit() {
            let digit = (self.peek() - b'0') as i32;
            value = value.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add(digit));
            self.at += 1;
        }
        (self.at > start).then_some(value)
    }
    fn factor(&mut self) -> Option<Num> {
        if self.peek() == b'(' {
            self.at += 1;
            let inner = self.sum()?;
            if self.peek() != b')' {
                return None;
            }
            self.at += 1;
            Some(inner)
        } else {
            self.number()
        }
    }
    fn product(&mut self) -> Option<Num> {
        let mut value = self.factor()?;
        while matches!(self.peek(), b'*' | b'/') {
            let op = self.peek();
            self.at += 1;
            value = apply(op, value, self.factor()?);
        }
        Some(value)
    }
    fn sum(&mut self) -> Option<Num> {
        let mut value = self.product()?;
        while matches!(self.peek(), b'+' | b'-') {
            let op = self.peek();
            self.at += 1;
            value = apply(op, value, self.product()?);
        }
        Some(value)
    }
}

fn apply(op: u8, a: Num, b: Num) -> Num {
    let (a, b) = (a?, b?);
    match op {
        b'+' => a.checked_add(b),
        b'-' => a.checked_sub(b),
        b'*' => a.checked_mul(b),
        _ => a.checked_div(b),
    }
}

fn whole(text: &[u8]) -> Option<Num> {
    let mut hand = Hand { text, at: 0 };
    let value = hand.sum()?;
    (hand.at == text.len()).then_some(value)
}

fn expression(tape: &mut Tape<'_>, out: &mut String, depth: usize, parens: bool) {
    let operands = 1 + tape.weighted(&[3, 4, 3, 1]);
    for k in 0..operands {
        if k > 0 {
            out.push(*tape.pick(&['+', '-', '*', '/']));
        }
        if parens && depth > 0 && tape.chance(1, 3) {
            out.push('(');
            expression(tape, out, depth - 1, parens);
            out.push(')');
        } else {
            let digits = 1 + tape.weighted(&[6, 3, 2, 1]);
            for _ in 0..digits {
                out.push((b'0' + tape.below(10) as u8) as char);
            }
        }
    }
}

fn text(tape: &mut Tape<'_>, parens: bool) -> String {
    let alphabet: &[u8] = if parens { b"+-*/()0123456789" } else { b"+-*/0123456789" };
    let mut out = String::new();
    if tape.chance(1, 12) {
        for _ in 0..tape.below(8) {
            out.push(*tape.pick(alphabet) as char);
        }
        return out;
    }
    expression(tape, &mut out, 3, parens);
    let mut bytes = out.into_bytes();
    for _ in 0..tape.weighted(&[5, 2, 1]) {
        let at = tape.below(bytes.len() + 1);
        let c = *tape.pick(alphabet);
        match tape.below(3) {
            0 if at < bytes.len() => {
                bytes.remove(at);
            }
            1 if at < bytes.len() => bytes[at] = c,
            _ => bytes.insert(at, c),
        }
    }
    bytes.truncate(60);
    String::from_utf8(bytes).unwrap()
}

/// The bundled evaluator, given the symbols of the grammar as written. Values that overflow or
/// divide by zero are not computed.
struct Bundled<'a, E> {
    inner: E,
    grammar: &'a DefaultGrammar,
    /// Actions with an operator: the operator of the action, or of the middle argument.
    operator: fn(u32, &[Val]) -> Option<u8>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Val(Option<i32>);

impl<E: Evaluate<Elem = i32>> Evaluate for Bundled<'_, E> {
    type Elem = Val;

    fn leaf(&self, terminal: Symbol, value: u32) -> Val {
        pbt::tick();
        let external = self.grammar.to_external(terminal);
        // The start of input is not a symbol of the grammar as written.
        if terminal == self.grammar.sof() {
            return Val(Some(0));
        }
        Val(Some(self.inner.leaf(external, value)))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Val>) -> Val
    where
        Val: 'a,
    {
        pbt::tick();
        let args: Vec<Val> = args.copied().collect();
        let Some(nums) = args.iter().map(|a| a.0).collect::<Option<Vec<i32>>>() else {
            return Val(None);
        };
        let safe = match (self.operator)(action, &args) {
            Some(b'd') => nums[0].checked_mul(10).and_then(|n| n.checked_add(nums[1])).is_some(),
            Some(op) => apply(op, args[0].0, args[2].0).is_some(),
            None => true,
        };
        if !safe {
            return Val(None);
        }
        Val(Some(self.inner.product(action, nums.iter())))
    }
    fn nulling<'r>(&self, _symbol: Symbol, results: &'r mut Vec<Val>) {
        results.push(Val(None));
    }
}

/// Finished state after every accepted prefix; the finished node if all of it was read.
fn read<F: Forest>(
    grammar: &DefaultGrammar,
    forest: F,
    tokens: &[Symbol],
) -> (Vec<bool>, Option<F::NodeRef>, F) {
    let mut rec = Recognizer::with_forest(grammar, forest);
    let mut finished = vec![];
    rec.begin_earleme();
    rec.scan(grammar.sof(), 0);
    if rec.end_earleme() {
        finished.push(rec.is_finished());
        for (i, &t) in tokens.iter().enumerate() {
            rec.begin_earleme();
            if let Some(t) = grammar.to_internal(t) {
                rec.scan(t, i as u32);
            }
            if !rec.end_earleme() {
                break;
            }
            finished.push(rec.is_finished());
        }
    }
    let node = (finished.len() == tokens.len() + 1).then(|| rec.finished_node()).flatten();
    (finished, node, rec.into_forest())
}

fn prefixes(text: &str, sentence: impl Fn(&[u8]) -> bool, viable: impl Fn(&[u8]) -> bool) -> Vec<bool> {
    let bytes = text.as_bytes();
    (0..=bytes.len())
        .take_while(|&n| viable(&bytes[..n]))
        .map(|n| sentence(&bytes[..n]))
        .collect()
}

fn ops(text: &str) -> usize {
    text.bytes().filter(|b| b"+-*/".contains(b)).count()
}

fn c28_precedence(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let string = text(tape, true);
    let grammar = DefaultGrammar::from_grammar(precedenced_math::grammar());
    let tokens = precedenced_math::tokenize(&string);
    let expected = whole(string.as_bytes());
    // A prefix can go on unless it has an error before its end.
    let viable = |p: &[u8]| {
        let mut open = 0i32;
        let mut operand = false;
        for &b in p {
            match b {
                b'0'..=b'9' => {
                    // A number follows a digit or starts an operand.
                    operand = true;
                }
                b'(' => {
                    if operand {
                        return false;
                    }
                    open += 1;
                }
                b')' => {
                    if !operand || open == 0 {
                        return false;
                    }
                    open -= 1;
                }
                _ => {
                    if !operand {
                        return false;
                    }
                    operand = false;
                }
            }
        }
        true
    };
    let digits_after_paren = |p: &[u8]| p.windows(2).any(|w| w[0] == b')' && w[1].is_ascii_digit());
    let want = prefixes(&string, |p| whole(p).is_some(), |p| viable(p) && !digits_after_paren(p));
    let (simple, root, mut forest) = read(&grammar, simple_bocage::Bocage::new(&grammar), &tokens);
    ensure_eq!(simple, want, "verdict", "finished state after every prefix of {:?}", string);
    ensure_eq!(root.is_some(), expected.is_some(), "verdict", "acceptance of {:?}", string);
    let (compact, compact_root, mut compact_forest) = read(&grammar, compact_bocage::Bocage::new(&grammar), &tokens);
    ensure_eq!(compact, want, "verdict", "finished state after every prefix of {:?}", string);
    if let (Some(value), Some(root), Some(compact_root)) = (expected, root, compact_root) {
        let operator: fn(u32, &[Val]) -> Option<u8> = |action, args| match (action, args.len()) {
            (0, 3) => Some(b'+'),
            (1, 3) => Some(b'-'),
            (3, 3) => Some(b'*'),
            (4, 3) => Some(b'/'),
            (8.., 2) => Some(b'd'),
            _ => None,
        };
        let bundled = || Bundled { inner: precedenced_math::Evaluator, grammar: &grammar, operator };
        let values = forest.evaluate(bundled(), root);
        ensure_eq!(values.len(), 1, "parses", "number of parses of {:?}", string);
        let compact_values = compact_forest.evaluate(bundled(), compact_root);
        ensure_eq!(compact_values.len(), 1, "parses", "number of parses of {:?} in the compact forest", string);
        if value.is_some() {
            ensure_eq!(values, vec![Val(value)], "value", "value of {:?}", string);
            ensure_eq!(compact_values, vec![Val(value)], "value", "value of {:?} in the compact forest", string);
            ctx.label("value compared");
        }
        ctx.label("expression");
        ctx.nontrivial(ops(&string) >= 2);
    }
    ctx.case(&string);
    ctx.describe(|| format!("{:?}: {:?}", string, expected));
    Ok(())
}

/// Operands and operators of an expression without parentheses.
fn flat(text: &[u8]) -> Option<(Vec<Num>, Vec<u8>)> {
    let mut hand = Hand { text, at: 0 };
    let mut operands = vec![hand.number()?];
    let mut operators = vec![];
    while hand.at < text.len() {
        operators.push(hand.peek());
        hand.at += 1;
        operands.push(hand.number()?);
    }
    Some((operands, operators))
}

/// Values of every way to group.
fn groupings(operands: &[Num], operators: &[u8]) -> Vec<Num> {
    if operators.is_empty() {
        return vec![operands[0]];
    }
    let mut out = vec![];
    for k in 0..operators.len() {
        for a in groupings(&operands[..=k], &operators[..k]) {
            for b in groupings(&operands[k + 1..], &operators[k + 1..]) {
                out.push(apply(operators[k], a, b));
            }
        }
    }
    out
}

fn c28_ambiguous(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let mut string = text(tape, false);
    while ops(&string) > 6 {
        string.truncate(string.len() * 2 / 3);
    }
    let grammar = DefaultGrammar::from_grammar(ambiguous_math::grammar());
    let tokens = ambiguous_math::tokenize(&string);
    let expected = flat(string.as_bytes());
    let viable = |p: &[u8]| {
        (p.is_empty() || p[0].is_ascii_digit())
            && !p.windows(2).any(|w| !w[0].is_ascii_digit() && !w[1].is_ascii_digit())
    };
    let want = prefixes(&string, |p| flat(p).is_some(), viable);
    let recorder = Recorder::new();
    let (got, root, _) = read(&grammar, recorder.clone(), &tokens);
    ensure_eq!(got, want, "verdict", "finished state after every prefix of {:?}", string);
    ensure_eq!(root.is_some(), expected.is_some(), "verdict", "acceptance of {:?}", string);
    if let (Some((operands, operators)), Some(root)) = (expected, root) {
        let n = operators.len();
        let catalan = [1, 1, 2, 5, 14, 42, 132][n];
        let record = recorder.0.borrow();
        ensure_eq!(parses(&grammar, &record, root), catalan, "parses", "number of parses of {:?}", string);
        if n <= 2 {
            let operator: fn(u32, &[Val]) -> Option<u8> = |action, args| match (action, args.len()) {
                (0, 3) => Some([b'+', b'-', b'*', b'/'][args[1].0.unwrap() as usize & 3]),
                (6.., 2) => Some(b'd'),
                _ => None,
            };
            let (_, root, mut forest) = read(&grammar, simple_bocage::Bocage::new(&grammar), &tokens);
            let mut values: Vec<Num> = forest
                .evaluate(Bundled { inner: ambiguous_math::Evaluator, grammar: &grammar, operator }, root.unwrap())
                .into_iter()
                .map(|v| v.0)
                .collect();
            values.sort();
            let mut expected = groupings(&operands, &operators);
            expected.sort();
            ensure_eq!(values, expected, "value", "values of {:?}", string);
            ctx.label("values compared");
        }
        ctx.label("expression");
        ctx.nontrivial(n >= 2);
    }
    ctx.case(&string);
    ctx.describe(|| string.clone());
    Ok(())
}

/// Number of trees in a record, none of whose symbols are empty.
fn parses(grammar: &DefaultGrammar, record: &Record, root: Handle) -> u64 {
    let mut memo = std::collections::HashMap::new();
    fn go(grammar: &DefaultGrammar, record: &Record, at: Handle, memo: &mut std::collections::HashMap<Handle, u64>) -> u64 {
        if let Some(&n) = memo.get(&at) {
            return n;
        }
        let n = match at {
            Handle::Nulling(_) => 1,
            Handle::At(i) => match &record.nodes[i as usize] {
                Node::Leaf { .. } => 1,
                Node::Product(l, r) => go(grammar, record, *l, memo) * go(grammar, record, *r, memo),
                Node::Sum { summands, .. } => summands.iter().map(|&(_, n)| go(grammar, record, n, memo)).sum(),
            },
        };
        memo.insert(at, n);
        n
    }
    go(grammar, record, root, &mut memo)
}

// Larger grammars and longer inputs.

fn c23_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c23_reset(tape, ctx))
}

fn c23_names_large_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c23_names(tape, ctx))
}

fn c23_text_large_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    spec::large(|| c23_text(tape, ctx))
}
