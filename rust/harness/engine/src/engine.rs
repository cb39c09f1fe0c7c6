//! The code under test behind a thin layer: a grammar that counts the work done through it, a
//! forest that records what it is told, and expansion of the record to trees.

use crate::reference::{Lattice, Tree};
use crate::spec::{Built, Spec};
use bit_matrix::row::BitSlice;
use cfg_symbol::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::item::Item;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::*;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
use pbt::{tick, Fail};
use std::cell::Cell;
use std::rc::Rc;

/// A processed grammar together with the specification it came from.
pub struct Subject {
    pub built: Built,
    pub grammar: DefaultGrammar,
    pub names: usize,
    pub work: Cell<u64>,
}

impl std::fmt::Debug for Subject {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Subject")
    }
}

impl Subject {
    pub fn new(spec: &Spec) -> Self {
        let built = spec.build();
        let grammar = DefaultGrammar::from_grammar(built.cfg.clone());
        Subject::with(built, grammar)
    }

    pub fn with(built: Built, grammar: DefaultGrammar) -> Self {
        Subject {
            names: built.back.len(),
            built,
            grammar,
            work: Cell::new(0),
        }
    }

    fn count(&self) {
        self.work.set(self.work.get() + 1);
        tick();
    }

    /// Internal symbol of a symbol of the specification.
    pub fn inner(&self, s: usize) -> Option<Symbol> {
        self.grammar.to_internal(self.built.ext[s])
    }

    /// Specification symbol of an internal one; `None` for added ones.
    pub fn outer(&self, sym: Symbol) -> Option<usize> {
        self.built
            .back
            .get(self.grammar.to_external(sym).usize())
            .copied()
            .flatten()
    }
}

impl Grammar for Subject {
    fn sof(&self) -> Symbol { self.grammar.sof() }
    fn eof(&self) -> Symbol { self.grammar.eof() }
    fn lhs_lr_set(&self, symbol: Symbol) -> &BitSlice { self.count(); self.grammar.lhs_lr_set(symbol) }
    fn lookahead_set(&self, dot: u32) -> &BitSlice { self.count(); self.grammar.lookahead_set(dot) }
    fn rhs1_or_lhs(&self, dot: u32) -> Symbol { self.count(); self.grammar.rhs1_or_lhs(dot) }
    fn prediction_row(&self, sym: Symbol) -> &BitSlice { self.count(); self.grammar.prediction_row(sym) }
    fn num_syms(&self) -> usize { self.grammar.num_syms() }
    fn num_gensyms(&self) -> usize { self.grammar.num_gensyms() }
    fn num_rules(&self) -> usize { self.grammar.num_rules() }
    fn start_sym(&self) -> Symbol { self.grammar.start_sym() }
    fn externalized_start_sym(&self) -> Symbol { self.grammar.externalized_start_sym() }
    fn has_trivial_derivation(&self) -> bool { self.grammar.has_trivial_derivation() }
    fn nulling(&self, pos: u32) -> NullingEliminated { self.grammar.nulling(pos) }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { self.grammar.events() }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] { self.grammar.trace() }
    fn get_rhs1(&self, dot: u32) -> Option<Symbol> { self.count(); self.grammar.get_rhs1(dot) }
    fn rhs1(&self) -> &[Option<Symbol>] { self.grammar.rhs1() }
    fn get_lhs(&self, dot: u32) -> Symbol { self.count(); self.grammar.get_lhs(dot) }
    fn external_origin(&self, dot: u32) -> ExternalOrigin { self.grammar.external_origin(dot) }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { self.grammar.eliminated_nulling_intermediate() }
    fn completions(&self, sym: Symbol) -> &[PredictionTransition] { self.count(); self.grammar.completions(sym) }
    fn gen_completion(&self, sym: Symbol) -> [Option<PredictionTransition>; 2] { self.count(); self.grammar.gen_completion(sym) }
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> { self.grammar.to_internal(symbol) }
    fn to_external(&self, symbol: Symbol) -> Symbol { self.grammar.to_external(symbol) }
    fn dot_before_eof(&self) -> u32 { self.grammar.dot_before_eof() }
    fn useless_symbol(&self) -> Symbol { self.grammar.useless_symbol() }
    fn forest_info(&self) -> ForestInfo { self.grammar.forest_info() }
}

// ------------------------------------------------------------------------------------------
// Recording forest.

#[derive(Clone, Debug)]
pub enum Node {
    Leaf { sym: Symbol, value: u32 },
    Product(Handle, Handle),
    Sum { lhs: Symbol, summands: Vec<(u32, Handle)> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Handle {
    At(u32),
    Nulling(Symbol),
}

#[derive(Clone, Debug)]
pub struct Group {
    pub location: usize,
    pub lhs: Symbol,
    pub origin: u32,
    pub summands: Vec<(u32, Handle)>,
    pub node: u32,
}

#[derive(Default, Debug)]
pub struct Record {
    pub nodes: Vec<Node>,
    pub groups: Vec<Group>,
    /// Set by the harness.
    pub location: usize,
    open: Option<Vec<(u32, u32, Handle)>>,
    pub protocol: Option<String>,
    pub leaf_positions: Vec<u32>,
}

#[derive(Clone, Default, Debug)]
pub struct Recorder(pub Rc<std::cell::RefCell<Record>>);

impl Recorder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn at(&self, location: usize) {
        self.0.borrow_mut().location = location;
    }
}

impl Record {
    fn add(&mut self, node: Node) -> Handle {
        tick();
        self.nodes.push(node);
        Handle::At(self.nodes.len() as u32 - 1)
    }
    fn complain(&mut self, text: &str) {
        if self.protocol.is_none() {
            self.protocol = Some(text.to_string());
        }
    }
}

impl Forest for Recorder {
    type NodeRef = Handle;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;

    fn begin_sum(&mut self) {
        tick();
        self.0.borrow_mut().open = Some(vec![]);
    }
    fn push_summand(&mut self, item: Item<Handle>) {
        tick();
        let mut r = self.0.borrow_mut();
        match &mut r.open {
            Some(list) => list.push((item.dot, item.origin, item.node)),
            None => r.complain("an alternative was delivered outside of a sum"),
        }
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> Handle {
        let mut r = self.0.borrow_mut();
        let list = match r.open.take() {
            Some(list) => list,
            None => {
                r.complain("a sum was ended that was not begun");
                vec![]
            }
        };
        if list.is_empty() {
            r.complain("a sum without alternatives was ended");
        }
        if list.iter().any(|&(_, o, _)| o != origin) {
            r.complain("an alternative of another start location is in a sum");
        }
        let summands: Vec<(u32, Handle)> = list.iter().map(|&(d, _, n)| (d, n)).collect();
        let handle = r.add(Node::Sum { lhs, summands: summands.clone() });
        let location = r.location;
        let node = r.nodes.len() as u32 - 1;
        r.groups.push(Group { location, lhs, origin, summands, node });
        handle
    }
    fn product(&mut self, left: Handle, right: Handle) -> Handle {
        self.0.borrow_mut().add(Node::Product(left, right))
    }
    fn leaf(&mut self, sym: Symbol, pos: u32, value: u32) -> Handle {
        let mut r = self.0.borrow_mut();
        r.leaf_positions.push(pos);
        r.add(Node::Leaf { sym, value })
    }
    fn nulling(&self, sym: Symbol) -> Handle {
        Handle::Nulling(sym)
    }
}

/// Expands recorded nodes to trees over the grammar as written.
pub struct Expand<'a> {
    pub subject: &'a Subject,
    pub record: &'a Record,
    pub limit: usize,
    memo: std::collections::HashMap<Handle, Rc<Vec<Vec<Rc<Tree>>>>>,
}

type Sequences = Rc<Vec<Vec<Rc<Tree>>>>;

impl<'a> Expand<'a> {
    pub fn new(subject: &'a Subject, record: &'a Record, limit: usize) -> Self {
        Expand { subject, record, limit, memo: Default::default() }
    }

    fn symbol(&self, sym: Symbol) -> usize {
        // Added symbols get numbers outside of the specification.
        self.subject.outer(sym).unwrap_or(usize::MAX - sym.usize())
    }

    /// What a nulled symbol stands for.
    fn nulled(&self, sym: Symbol) -> Vec<Rc<Tree>> {
        for &[lhs, left, right] in self.subject.grammar.eliminated_nulling_intermediate() {
            if lhs == sym {
                let mut out = self.nulled(left);
                out.extend(self.nulled(right));
                return out;
            }
        }
        vec![Rc::new(Tree::Null(self.symbol(sym)))]
    }

    /// Each alternative of a node, as the sequence of children it contributes to its parent.
    pub fn node(&mut self, handle: Handle) -> Result<Sequences, Fail> {
        if let Some(done) = self.memo.get(&handle) {
            return Ok(done.clone());
        }
        tick();
        let out: Vec<Vec<Rc<Tree>>> = match handle {
            Handle::Nulling(sym) => vec![self.nulled(sym)],
            Handle::At(i) => match &self.record.nodes[i as usize] {
                Node::Leaf { sym, value } => {
                    vec![vec![Rc::new(Tree::Leaf(self.symbol(*sym), *value))]]
                }
                Node::Product(..) => {
                    return Err(Fail::new("forest", "a product stands where a symbol is expected"))
                }
                Node::Sum { summands, lhs } => {
                    let mut out = vec![];
                    for &(dot, node) in summands {
                        if self.subject.grammar.get_lhs(dot) != *lhs {
                            return Err(Fail::new(
                                "forest",
                                "a sum contains a rule of another symbol",
                            ));
                        }
                        let sequences = self.rule(dot, node)?;
                        let origin = self.subject.grammar.external_origin(dot);
                        for seq in sequences {
                            if origin.id == !0 {
                                out.push(seq);
                            } else {
                                out.push(vec![Rc::new(Tree::Node(origin.id, seq))]);
                            }
                        }
                        if out.len() > self.limit {
                            return Err(Fail::new("forest", "too many trees"));
                        }
                    }
                    out
                }
            },
        };
        let out = Rc::new(out);
        self.memo.insert(handle, out.clone());
        Ok(out)
    }

    fn rule(&mut self, dot: u32, node: Handle) -> Result<Vec<Vec<Rc<Tree>>>, Fail> {
        if self.subject.grammar.get_rhs1(dot).is_some() {
            let (l, r) = match node {
                Handle::At(i) => match self.record.nodes[i as usize] {
                    Node::Product(l, r) => (l, r),
                    _ => return Err(Fail::new("forest", "a binary rule without a product")),
                },
                _ => return Err(Fail::new("forest", "a binary rule over a nulled symbol")),
            };
            let left = self.node(l)?;
            let right = self.node(r)?;
            if left.len() * right.len() > self.limit {
                return Err(Fail::new("forest", "too many trees"));
            }
            let mut out = vec![];
            for a in left.iter() {
                for b in right.iter() {
                    out.push(a.iter().chain(b).cloned().collect());
                }
            }
            Ok(out)
        } else {
            let inner = self.node(node)?;
            Ok(match self.subject.grammar.nulling(dot) {
                None => inner.as_ref().clone(),
                Some((sym, right)) => {
                    let nulled = self.nulled(sym);
                    inner
                        .iter()
                        .map(|seq| {
                            if right {
                                seq.iter().chain(&nulled).cloned().collect()
                            } else {
                                nulled.iter().chain(seq).cloned().collect()
                            }
                        })
                        .collect()
                }
            })
        }
    }

    /// Trees of a finished parse, sorted.
    pub fn finished(&mut self, root: Handle) -> Result<Vec<Rc<Tree>>, Fail> {
        let sof = Rc::new(Tree::Leaf(self.symbol(self.subject.grammar.sof()), 0));
        let mut out = vec![];
        for seq in self.node(root)?.iter() {
            if seq.len() != 2 || seq[0] != sof {
                return Err(Fail::new("forest", format!("malformed root {:?}", seq)));
            }
            out.push(seq[1].clone());
        }
        out.sort();
        Ok(out)
    }
}

// ------------------------------------------------------------------------------------------
// Driving the recognizer.

pub type Rec<'s, F, P> = Recognizer<&'s Subject, F, P>;

/// Reads the start of input.
pub fn start<F: Forest, P: PerfHint>(rec: &mut Rec<'_, F, P>) -> bool {
    rec.begin_earleme();
    let sof = rec.grammar().sof();
    rec.scan(sof, 0);
    rec.end_earleme()
}

/// Scans the tokens of one location that the grammar knows.
pub fn scan_all<F: Forest, P: PerfHint>(
    rec: &mut Rec<'_, F, P>,
    subject: &Subject,
    tokens: &[(usize, u32)],
) {
    for &(t, value) in tokens {
        if let Some(sym) = subject.inner(t) {
            rec.scan(sym, value);
        }
    }
}

/// What a run shows from outside.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Verdict {
    /// Number of locations that accepted their token.
    pub read: usize,
    /// Finished state after the start and after each accepted location.
    pub finished: Vec<bool>,
}

pub fn run<F: Forest, P: PerfHint>(
    rec: &mut Rec<'_, F, P>,
    subject: &Subject,
    input: &Lattice,
    mut on_location: impl FnMut(usize),
) -> Verdict {
    let mut verdict = Verdict::default();
    on_location(0);
    if !start(rec) {
        return verdict;
    }
    verdict.finished.push(rec.is_finished());
    for (i, tokens) in input.iter().enumerate() {
        on_location(i + 1);
        rec.begin_earleme();
        scan_all(rec, subject, tokens);
        if !rec.end_earleme() {
            break;
        }
        verdict.read += 1;
        verdict.finished.push(rec.is_finished());
    }
    verdict
}

pub fn hint<F: Forest, P: PerfHint>(rec: &mut Rec<'_, F, P>, sym: Symbol) {
    rec.lookahead().set_hint(sym);
}

// ------------------------------------------------------------------------------------------
// Symbolic evaluation.

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Value(pub Option<Rc<Tree>>);

/// What an evaluator was asked to compute.
#[derive(Default)]
pub struct Calls {
    /// Kind, symbol or action, value or number of arguments.
    pub log: std::cell::RefCell<Vec<(u8, usize, u32)>>,
}

impl Calls {
    fn push(&self, kind: u8, what: usize, n: u32) {
        tick();
        self.log.borrow_mut().push((kind, what, n));
    }
    pub fn sorted(&self) -> Vec<(u8, usize, u32)> {
        let mut out = self.log.borrow().clone();
        out.sort();
        out
    }
}

pub struct Symbolic<'a> {
    pub subject: &'a Subject,
    pub calls: &'a Calls,
}

impl Symbolic<'_> {
    fn symbol(&self, sym: Symbol) -> usize {
        self.subject.outer(sym).unwrap_or(usize::MAX - sym.usize())
    }
}

impl Evaluate for Symbolic<'_> {
    type Elem = Value;

    fn leaf(&self, terminal: Symbol, value: u32) -> Value {
        self.calls.push(0, self.symbol(terminal), value);
        Value(Some(Rc::new(Tree::Leaf(self.symbol(terminal), value))))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Value>) -> Value
    where
        Value: 'a,
    {
        let args: Vec<Rc<Tree>> = args
            .map(|v| v.0.clone().unwrap_or_else(|| Rc::new(Tree::Node(!0, vec![]))))
            .collect();
        self.calls.push(1, action as usize, args.len() as u32);
        Value(Some(Rc::new(Tree::Node(action, args))))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Value>) {
        self.calls.push(2, self.symbol(symbol), 0);
        results.push(Value(Some(Rc::new(Tree::Null(self.symbol(symbol))))));
    }
}

/// The calls that evaluating a tree takes, sorted.
pub fn calls_of(tree: &Tree) -> Vec<(u8, usize, u32)> {
    fn go(tree: &Tree, out: &mut Vec<(u8, usize, u32)>) {
        match tree {
            Tree::Leaf(s, v) => out.push((0, *s, *v)),
            Tree::Null(s) => out.push((2, *s, 0)),
            Tree::Node(r, children) => {
                out.push((1, *r as usize, children.len() as u32));
                for c in children {
                    go(c, out);
                }
            }
        }
    }
    let mut out = vec![];
    go(tree, &mut out);
    out.sort();
    out
}

/// A forest that can be evaluated.
pub trait Evaluated: Forest {
    fn fresh(subject: &Subject, capacity: usize) -> Self;
    fn values(&mut self, eval: Symbolic<'_>, root: Self::NodeRef) -> Vec<Value>;
}

impl Evaluated for simple_bocage::Bocage {
    fn fresh(subject: &Subject, capacity: usize) -> Self {
        simple_bocage::Bocage::with_capacity(subject, capacity)
    }
    fn values(&mut self, eval: Symbolic<'_>, root: Self::NodeRef) -> Vec<Value> {
        self.evaluate(eval, root)
    }
}

impl Evaluated for compact_bocage::Bocage {
    fn fresh(subject: &Subject, capacity: usize) -> Self {
        compact_bocage::Bocage::with_capacity(subject, capacity)
    }
    fn values(&mut self, eval: Symbolic<'_>, root: Self::NodeRef) -> Vec<Value> {
        self.evaluate(eval, root)
    }
}
