//! Helpers of demonstrations: grammars over single letters, reading, trees.
#![allow(dead_code)]
use cfg::history::earley::{EventId, History, MinimalDistance};
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar as _;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
use std::collections::BTreeMap;

pub struct G {
    pub cfg: Cfg,
    pub syms: BTreeMap<char, Symbol>,
    pub names: BTreeMap<usize, char>,
    pub grammar: DefaultGrammar,
}

/// Rules such as `S=aSb` in order of their numbers; the first left side is the start symbol. Letters
/// get numbers in order of appearance.
pub fn grammar(rules: &[&str]) -> G {
    grammar_with(rules, |_, _| (!0, !0))
}

/// The function gives the event and the distance of a rule's dot.
pub fn grammar_with(rules: &[&str], mark: impl Fn(usize, usize) -> (u32, u32)) -> G {
    let mut cfg = Cfg::new();
    let mut syms = BTreeMap::new();
    let mut names = BTreeMap::new();
    for ch in rules.iter().flat_map(|r| r.chars()).filter(|c| *c != '=') {
        if !syms.contains_key(&ch) {
            let s = cfg.next_sym(Some(&ch.to_string()));
            syms.insert(ch, s);
            names.insert(s.usize(), ch);
        }
    }
    for (i, r) in rules.iter().enumerate() {
        let mut it = r.chars();
        let lhs = syms[&it.next().unwrap()];
        let rhs: Vec<Symbol> = it.filter(|c| *c != '=').map(|c| syms[&c]).collect();
        let mut history = History::new(i as u32, rhs.len());
        for (j, dot) in history.dots.iter_mut().enumerate() {
            let (event, distance) = mark(i, j);
            dot.event = EventId { id: event };
            dot.distance = MinimalDistance { distance };
        }
        cfg.rule(lhs).history(history).rhs(rhs);
    }
    cfg.set_roots([syms[&rules[0].chars().next().unwrap()]]);
    let grammar = DefaultGrammar::from_grammar(cfg.clone());
    G { cfg, syms, names, grammar }
}

pub type Rec<'a, F, P> = Recognizer<&'a DefaultGrammar, F, P>;

impl G {
    pub fn sym(&self, c: char) -> Option<Symbol> {
        self.grammar.to_internal(*self.syms.get(&c)?)
    }
    /// Forests hand out the numbers that the grammar uses internally.
    pub fn internal_name(&self, internal: Symbol) -> char {
        self.name(self.grammar.to_external(internal))
    }
    pub fn name(&self, external: Symbol) -> char {
        self.names.get(&external.usize()).copied().unwrap_or('?')
    }
    pub fn simple(&self) -> simple_bocage::Bocage {
        simple_bocage::Bocage::new(&self.grammar)
    }
    pub fn compact(&self) -> compact_bocage::Bocage {
        compact_bocage::Bocage::new(&self.grammar)
    }
    /// Accepted tokens, and whether the input up to there is a sentence.
    pub fn read(&self, input: &str) -> (usize, bool) {
        let mut rec = Recognizer::new(&self.grammar);
        self.drive(&mut rec, input, false)
    }
    pub fn read_hinted(&self, input: &str) -> (usize, bool) {
        let mut rec = Recognizer::new(&self.grammar);
        self.drive(&mut rec, input, true)
    }
    pub fn drive<F: Forest, P: PerfHint>(&self, rec: &mut Rec<'_, F, P>, input: &str, hints: bool) -> (usize, bool) {
        if !begin(rec) {
            return (0, false);
        }
        let tokens: Vec<char> = input.chars().collect();
        for (i, &c) in tokens.iter().enumerate() {
            let next = tokens.get(i + 1).and_then(|c| self.sym(*c));
            if !self.token(rec, c, i as u32, if hints { next } else { None }) {
                return (i, false);
            }
        }
        (tokens.len(), rec.is_finished())
    }
    pub fn token<F: Forest, P: PerfHint>(&self, rec: &mut Rec<'_, F, P>, c: char, value: u32, hint: Option<Symbol>) -> bool {
        use gearley_recognizer::lookahead::Lookahead;
        rec.begin_earleme();
        if let Some(h) = hint {
            rec.lookahead().set_hint(h);
        }
        if let Some(s) = self.sym(c) {
            rec.scan(s, value);
        }
        rec.end_earleme()
    }
    pub fn simple_values(&self, input: &str) -> Vec<String> {
        let mut rec = Recognizer::with_forest(&self.grammar, self.simple());
        self.drive(&mut rec, input, false);
        let root = rec.finished_node().expect("finished");
        let mut v: Vec<String> = rec.into_forest().evaluate(Show(self), root).into_iter().map(|t| t.0).collect();
        v.sort();
        v
    }
    pub fn compact_values(&self, input: &str) -> Vec<String> {
        let mut rec = Recognizer::with_forest(&self.grammar, self.compact());
        self.drive(&mut rec, input, false);
        let root = rec.finished_node().expect("finished");
        let mut v: Vec<String> = rec.into_forest().evaluate(Show(self), root).into_iter().map(|t| t.0).collect();
        v.sort();
        v
    }
}

pub fn begin<F: Forest, P: PerfHint>(rec: &mut Rec<'_, F, P>) -> bool {
    rec.begin_earleme();
    let sof = rec.grammar().sof();
    rec.scan(sof, 0);
    rec.end_earleme()
}

/// Values are written out: `a` for a token, `/A` for an empty symbol, `3(..)` for rule 3.
pub struct Show<'a>(pub &'a G);
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Text(pub String);

impl Evaluate for Show<'_> {
    type Elem = Text;
    fn leaf(&self, terminal: Symbol, _value: u32) -> Text {
        Text(self.0.internal_name(terminal).to_string())
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Text>) -> Text
    where
        Text: 'a,
    {
        Text(format!("{}({})", action as i32, args.map(|t| t.0.clone()).collect::<String>()))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Text>) {
        results.push(Text(format!("/{}", self.0.internal_name(symbol))));
    }
}
