//! The compact forest as a store: generated construction histories through the public forest
//! interface, with evaluations in between, against a list of nodes.

use bit_matrix::row::BitSlice;
use cfg_symbol::Symbol;
use compact_bocage::Bocage;
use gearley_forest::item::Item;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::*;
use pbt::{ensure_eq, tick, Arm, CaseResult, Ctx, Property, Tape};
use std::cell::RefCell;
use std::rc::Rc;

fn main() {
    pbt::main_with(vec![Property {
        id: "C09",
        rule: "A case is a history of operations on one compact forest: store a leaf (symbol and \
               value over their whole range), a product of two stored nodes, a sum of 1 to 4 \
               alternatives, many nodes at once (so that handles need 2, 3 or 4 bytes), and evaluate \
               any stored node. Every evaluation must make exactly the calls, and give the values, of \
               the nodes as they were stored. Non-trivial: at least 3 evaluations of nodes with 2 or \
               more leaves, and something was stored between evaluations.",
        assumptions: &[
            "operations come in the order in which the recognizer uses them: the alternatives of a sum follow each other",
            "sums of several alternatives are evaluated at the top (inside other nodes, all alternatives are handed to the parent)",
        ],
        arms: vec![
            Arm { name: "history", quick: 60_000, thorough: 3_000_000, tape: (100, 600), run: history },
            Arm { name: "far", quick: 20_000, thorough: 600_000, tape: (150, 600), run: far },
            Arm { name: "huge", quick: 400, thorough: 10_000, tape: (150, 600), run: huge },
            Arm { name: "chain", quick: 2_000, thorough: 100_000, tape: (100, 400), run: chain },
        ],
        probes: vec![],
    }])
}

/// A grammar of which only the part for the forest matters.
struct Info(ForestInfo);

impl Grammar for Info {
    fn sof(&self) -> Symbol { self.0.sof }
    fn eof(&self) -> Symbol { self.0.eof }
    fn lhs_lr_set(&self, _: Symbol) -> &BitSlice { unimplemented!() }
    fn lookahead_set(&self, _: u32) -> &BitSlice { unimplemented!() }
    fn rhs1_or_lhs(&self, _: u32) -> Symbol { unimplemented!() }
    fn prediction_row(&self, _: Symbol) -> &BitSlice { unimplemented!() }
    fn num_syms(&self) -> usize { 64 }
    fn num_gensyms(&self) -> usize { 0 }
    fn num_rules(&self) -> usize { self.0.eval.len() }
    fn start_sym(&self) -> Symbol { self.0.start }
    fn externalized_start_sym(&self) -> Symbol { self.0.start }
    fn has_trivial_derivation(&self) -> bool { false }
    fn nulling(&self, dot: u32) -> NullingEliminated { self.0.nulling_eliminated[dot as usize] }
    fn events(&self) -> (&[EventAndDistance], &[EventAndDistance]) { (&[], &[]) }
    fn trace(&self) -> [&[ExternalDottedRule]; 3] { [&[]; 3] }
    fn get_rhs1(&self, _: u32) -> Option<Symbol> { unimplemented!() }
    fn rhs1(&self) -> &[Option<Symbol>] { &[] }
    fn get_lhs(&self, _: u32) -> Symbol { unimplemented!() }
    fn external_origin(&self, dot: u32) -> ExternalOrigin { self.0.eval[dot as usize] }
    fn eliminated_nulling_intermediate(&self) -> &[NullingIntermediateRule] { &self.0.nulling_intermediate_rules }
    fn completions(&self, _: Symbol) -> &[PredictionTransition] { &[] }
    fn gen_completion(&self, _: Symbol) -> [Option<PredictionTransition>; 2] { [None; 2] }
    fn to_internal(&self, symbol: Symbol) -> Option<Symbol> { Some(symbol) }
    fn to_external(&self, symbol: Symbol) -> Symbol { symbol }
    fn dot_before_eof(&self) -> u32 { 0 }
    fn useless_symbol(&self) -> Symbol { self.0.start }
    fn forest_info(&self) -> ForestInfo { self.0.clone() }
}

// ------------------------------------------------------------------------------------------
// Values.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tree {
    Leaf(usize, u32),
    Null(usize),
    Node(u32, Vec<Rc<Tree>>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct Value(Option<Rc<Tree>>);

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Call {
    Leaf(usize, u32),
    Null(usize),
    Product(u32, usize),
}

struct Trace<'a>(&'a RefCell<Vec<Call>>);

impl Evaluate for Trace<'_> {
    type Elem = Value;
    fn leaf(&self, symbol: Symbol, value: u32) -> Value {
        tick();
        self.0.borrow_mut().push(Call::Leaf(symbol.usize(), value));
        Value(Some(Rc::new(Tree::Leaf(symbol.usize(), value))))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a Value>) -> Value
    where
        Value: 'a,
    {
        tick();
        let args: Vec<Rc<Tree>> = args
            .map(|a| a.0.clone().unwrap_or_else(|| Rc::new(Tree::Node(!0, vec![]))))
            .collect();
        self.0.borrow_mut().push(Call::Product(action, args.len()));
        Value(Some(Rc::new(Tree::Node(action, args))))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<Value>) {
        tick();
        self.0.borrow_mut().push(Call::Null(symbol.usize()));
        results.push(Value(Some(Rc::new(Tree::Null(symbol.usize())))));
    }
}

fn calls(tree: &Tree, out: &mut Vec<Call>) {
    match tree {
        Tree::Leaf(s, v) => out.push(Call::Leaf(*s, *v)),
        Tree::Null(s) => out.push(Call::Null(*s)),
        Tree::Node(a, args) => {
            args.iter().for_each(|a| calls(a, out));
            out.push(Call::Product(*a, args.len()));
        }
    }
}

// ------------------------------------------------------------------------------------------
// Model.

/// A stored node: its handle, and what it contributes to a parent, for every alternative.
#[derive(Clone)]
struct Stored {
    handle: NodeHandle,
    alternatives: Vec<Vec<Rc<Tree>>>,
    product: bool,
    /// Leaves of the largest alternative.
    size: usize,
    depth: usize,
}

struct Model {
    info: ForestInfo,
    forest: Bocage,
    sof: NodeHandle,
    nodes: Vec<Stored>,
    /// Dots of rules with one symbol and of rules with two symbols.
    unary: Vec<u32>,
    binary: Vec<u32>,
    /// Rules of added symbols, which have no value of their own.
    flat: Vec<u32>,
    root_dot: u32,
    nulling: Vec<usize>,
    text: String,
    stored_since: bool,
    evaluations: usize,
    interleaved: usize,
}

fn any_symbol(tape: &mut Tape<'_>) -> Symbol {
    let n = if tape.chance(1, 3) { tape.interesting_u32() } else { tape.below(50) as u32 };
    Symbol::from_raw(n.min(u32::MAX - 2))
}

impl Model {
    fn new(tape: &mut Tape<'_>) -> Self {
        let mut info = ForestInfo {
            sof: any_symbol(tape),
            eof: any_symbol(tape),
            start: Symbol::from_raw(tape.below(8) as u32),
            ..ForestInfo::default()
        };
        // Symbols that derive nothing; added ones stand for two others.
        let plain = tape.below(6);
        let mut nulling: Vec<usize> = (0..plain).map(|_| tape.below(40)).collect();
        nulling.sort();
        nulling.dedup();
        for _ in 0..tape.weighted(&[3, 2, 1, 1]) {
            let lhs = 40 + tape.below(20);
            if nulling.is_empty() || nulling.contains(&lhs) {
                continue;
            }
            let a = *tape.pick(&nulling);
            let b = *tape.pick(&nulling);
            info.nulling_intermediate_rules.push([lhs, a, b].map(|s| Symbol::from_raw(s as u32)));
            nulling.push(lhs);
        }
        let size = tape.weighted(&[8, 2, 1]);
        // The interpreter is slow.
        let dots = match if cfg!(miri) { 0 } else { size } {
            0 => tape.range(8, 40),
            1 => tape.range(250, 300),
            _ => 65_530 + tape.below(20),
        };
        let (mut unary, mut binary, mut flat) = (vec![], vec![], vec![]);
        // Only a few of the dots are used.
        let step = (dots / 24).max(1);
        for dot in 0..dots {
            let id = if tape.at_end() || dot % step != 0 { dot as u32 } else { tape.interesting_u32() };
            let mut origin = ExternalOrigin { id };
            let mut eliminated = None;
            let used = dot % step == 0 || dot + 1 == dots;
            if used {
                match tape.below(5) {
                    0 | 1 => binary.push(dot as u32),
                    2 => {
                        origin.id = !0;
                        flat.push(dot as u32);
                    }
                    _ => {
                        if !nulling.is_empty() && tape.chance(1, 2) {
                            let sym = Symbol::from_raw(*tape.pick(&nulling) as u32);
                            eliminated = Some((sym, tape.chance(1, 2)));
                        }
                        unary.push(dot as u32);
                    }
                }
                if origin.id == !0 && !flat.contains(&(dot as u32)) {
                    origin.id = !1;
                }
            }
            info.eval.push(origin);
            info.nulling_eliminated.push(eliminated);
        }
        let root_dot = dots as u32;
        for list in [&mut unary, &mut binary] {
            list.push(info.eval.len() as u32);
            info.eval.push(ExternalOrigin { id: tape.interesting_u32().min(!1) });
            info.nulling_eliminated.push(None);
        }
        info.eval.push(ExternalOrigin { id: !0 });
        info.nulling_eliminated.push(None);
        let root_dot = root_dot + 2;
        // Only symbols up to the largest one mentioned have a node.
        let limit = info.max_nulling_symbol().unwrap_or(0);
        nulling.retain(|&s| s <= limit);
        let capacity = *tape.pick(&[0, 1, 64, 1024]);
        let mut forest = Bocage::with_capacity(Info(info.clone()), capacity);
        let sof = forest.leaf(info.sof, 1, tape.interesting_u32());
        Model {
            info,
            forest,
            sof,
            nodes: vec![],
            unary,
            binary,
            flat,
            root_dot,
            nulling,
            text: String::new(),
            stored_since: false,
            evaluations: 0,
            interleaved: 0,
        }
    }

    fn nulled(&self, sym: usize) -> Vec<Rc<Tree>> {
        // The last rule of a symbol counts; there is one.
        for rule in &self.info.nulling_intermediate_rules {
            if rule[0].usize() == sym {
                let mut out = self.nulled(rule[1].usize());
                out.extend(self.nulled(rule[2].usize()));
                return out;
            }
        }
        vec![Rc::new(Tree::Null(sym))]
    }

    fn add(&mut self, stored: Stored, text: String) {
        self.stored_since = true;
        if self.text.len() < 3000 {
            self.text += &format!("#{}@{} {}; ", self.nodes.len(), stored.handle.0, text);
        }
        self.nodes.push(stored);
    }

    fn leaf(&mut self, tape: &mut Tape<'_>) {
        let symbol = any_symbol(tape);
        let value = tape.interesting_u32();
        let handle = self.forest.leaf(symbol, self.nodes.len() as u32 + 2, value);
        self.add(
            Stored {
                handle,
                alternatives: vec![vec![Rc::new(Tree::Leaf(symbol.usize(), value))]],
                product: false,
                size: 1,
                depth: 1,
            },
            format!("leaf {} {}", symbol.usize(), value),
        );
    }

    fn null(&mut self, tape: &mut Tape<'_>) {
        if self.nulling.is_empty() {
            return self.leaf(tape);
        }
        let sym = *tape.pick(&self.nulling);
        let handle = self.forest.nulling(Symbol::from_raw(sym as u32));
        let tree = self.nulled(sym);
        self.add(
            Stored { handle, size: tree.len(), alternatives: vec![tree], product: false, depth: 1 },
            format!("nulling {}", sym),
        );
    }

    /// A node that can be a child: no product, one alternative.
    fn child(&mut self, tape: &mut Tape<'_>) -> usize {
        for _ in 0..6 {
            if self.nodes.is_empty() {
                break;
            }
            // Often a late one.
            let n = self.nodes.len();
            let k = if tape.chance(1, 2) { n - 1 - tape.below(n.min(4)) } else { tape.below(n) };
            let node = &self.nodes[k];
            if !node.product && node.alternatives.len() == 1 && node.size < 300 && node.depth < 400 {
                return k;
            }
        }
        self.leaf(tape);
        self.nodes.len() - 1
    }

    fn product(&mut self, tape: &mut Tape<'_>) -> usize {
        let l = self.child(tape);
        let r = self.child(tape);
        self.product_of(l, r)
    }

    fn product_of(&mut self, l: usize, r: usize) -> usize {
        let (left, right) = (self.nodes[l].clone(), self.nodes[r].clone());
        let handle = self.forest.product(left.handle, right.handle);
        let mut args = left.alternatives[0].clone();
        args.extend(right.alternatives[0].iter().cloned());
        self.add(
            Stored {
                handle,
                alternatives: vec![args],
                product: true,
                size: left.size + right.size,
                depth: 1 + left.depth.max(right.depth),
            },
            format!("product #{} #{}", l, r),
        );
        self.nodes.len() - 1
    }

    fn sum(&mut self, tape: &mut Tape<'_>) -> usize {
        let count = 1 + tape.weighted(&[8, 2, 1, 1]);
        // Added symbols have one alternative here.
        let flat = count == 1 && !self.flat.is_empty() && tape.chance(1, 4);
        let mut picked = vec![];
        for _ in 0..count {
            if flat {
                let dot = *tape.pick(&self.flat);
                let node = self.product(tape);
                picked.push((dot, node));
            } else if tape.chance(2, 3) {
                let dot = *tape.pick(&self.binary);
                let node = self.product(tape);
                picked.push((dot, node));
            } else {
                let dot = *tape.pick(&self.unary);
                let node = self.child(tape);
                picked.push((dot, node));
            }
        }
        self.sum_of(&picked)
    }

    fn sum_of(&mut self, picked: &[(u32, usize)]) -> usize {
        let mut alternatives = vec![];
        let (mut size, mut depth) = (0, 0);
        self.forest.begin_sum();
        for &(dot, k) in picked {
            let node = &self.nodes[k];
            self.forest.push_summand(Item { dot, origin: 3, node: node.handle });
            let mut args = node.alternatives[0].clone();
            if !node.product {
                if let Some((sym, right)) = self.info.nulling_eliminated[dot as usize] {
                    let nulled = self.nulled(sym.usize());
                    if right {
                        args.extend(nulled);
                    } else {
                        args = nulled.into_iter().chain(args).collect();
                    }
                }
            }
            size = size.max(node.size);
            depth = depth.max(node.depth + 1);
            let id = self.info.eval[dot as usize].id;
            alternatives.push(if id == !0 { args } else { vec![Rc::new(Tree::Node(id, args))] });
        }
        let handle = self.forest.sum(Symbol::from_raw(5), 3);
        self.add(
            Stored { handle, alternatives, product: false, size, depth },
            format!("sum {:?}", picked),
        );
        self.nodes.len() - 1
    }

    /// Stores `n` nodes that nothing refers to.
    fn fill(&mut self, n: usize, value: u32) {
        for k in 0..n {
            self.forest.leaf(Symbol::from_raw(u32::MAX - 2), 1, value ^ k as u32);
        }
        self.stored_since = true;
        self.text += &format!("{} leaves; ", n);
    }

    fn evaluate(&mut self, k: usize) -> CaseResult {
        let node = self.nodes[k].clone();
        if node.product {
            return Ok(());
        }
        let product = self.forest.product(self.sof, node.handle);
        self.forest.begin_sum();
        self.forest.push_summand(Item { dot: self.root_dot, origin: 0, node: product });
        let root = self.forest.sum(Symbol::from_raw(6), 0);
        let log = RefCell::new(vec![]);
        let mut values: Vec<Value> = self.forest.evaluate(Trace(&log), root);
        let mut expected: Vec<Value> = vec![];
        let mut expected_calls = vec![];
        for alternative in &node.alternatives {
            for tree in alternative {
                calls(tree, &mut expected_calls);
                expected.push(Value(Some(tree.clone())));
            }
        }
        // The order of alternatives is not specified; the order inside of one is.
        if node.alternatives.len() > 1 {
            values.sort();
            expected.sort();
        }
        ensure_eq!(values, expected, "value", "value of #{} at {} after {}", k, node.handle.0, self.text);
        let mut got = log.into_inner();
        got.sort();
        expected_calls.sort();
        ensure_eq!(got, expected_calls, "calls", "calls for #{} at {} after {}", k, node.handle.0, self.text);
        self.evaluations += (node.size > 1) as usize;
        self.interleaved += self.stored_since as usize;
        self.stored_since = false;
        Ok(())
    }

    fn step(&mut self, tape: &mut Tape<'_>) -> CaseResult {
        match tape.weighted(&[5, 2, 10, 1, 5]) {
            0 => self.leaf(tape),
            1 => {
                self.product(tape);
            }
            2 => {
                self.sum(tape);
            }
            3 => self.null(tape),
            _ => {
                if !self.nodes.is_empty() {
                    let n = self.nodes.len();
                    let k = if tape.chance(1, 2) { n - 1 } else { tape.below(n) };
                    return self.evaluate(k);
                }
            }
        }
        Ok(())
    }

    fn finish(&mut self, ctx: &mut Ctx) -> CaseResult {
        // Everything that was stored is still there.
        let n = self.nodes.len();
        for k in (0..n).rev().take(12).chain((0..n).take(4)) {
            self.evaluate(k)?;
        }
        ctx.count("evaluations of two or more leaves", self.evaluations as u64);
        ctx.nontrivial(self.evaluations >= 3 && self.interleaved >= 2);
        ctx.label_if(!self.nulling.is_empty(), "symbols that derive nothing");
        ctx.label_if(self.nodes.iter().any(|n| n.alternatives.len() > 1), "several alternatives");
        ctx.label_if(self.info.eval.len() > 256, "rule numbers above 255");
        ctx.label_if(self.info.eval.len() > 65_536, "rule numbers above 65535");
        let top = self.nodes.iter().map(|n| n.handle.0).max().unwrap_or(0);
        ctx.label_if(top >= 1 << 8, "handles of 2 bytes");
        ctx.label_if(top >= 1 << 16, "handles of 3 bytes");
        ctx.label_if(top >= 1 << 24, "handles of 4 bytes");
        ctx.case(&self.text);
        let text = &self.text;
        ctx.describe(|| text.clone());
        Ok(())
    }
}

fn history(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let mut model = Model::new(tape);
    while !tape.at_end() && model.nodes.len() < 300 {
        model.step(tape)?;
    }
    model.finish(ctx)
}

/// Handles around the places where they need another byte.
fn with_filler(tape: &mut Tape<'_>, ctx: &mut Ctx, limits: &[usize]) -> CaseResult {
    let mut model = Model::new(tape);
    for _ in 0..tape.below(6) {
        model.step(tape)?;
    }
    for &limit in limits {
        // Up to just before the limit; one filler takes 9 bytes.
        model.leaf(tape);
        let at = model.nodes.last().unwrap().handle.usize();
        if at < limit {
            let back = tape.below(12);
            model.fill(((limit - at) / 9).saturating_sub(back), u32::MAX);
        }
        for _ in 0..tape.range(4, 30) {
            model.step(tape)?;
        }
    }
    while !tape.at_end() && model.nodes.len() < 300 {
        model.step(tape)?;
    }
    model.finish(ctx)
}

fn far(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    if cfg!(miri) {
        return with_filler(tape, ctx, &[1 << 8]);
    }
    with_filler(tape, ctx, &[1 << 8, 1 << 16])
}

fn huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    with_filler(tape, ctx, &[1 << 16, 1 << 24])
}

/// Long chains and shared subtrees.
fn chain(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let mut model = Model::new(tape);
    model.leaf(tape);
    let mut last = 0;
    let flat = tape.chance(1, 2) && !model.flat.is_empty();
    let n = tape.range(2, 250);
    for k in 0..n {
        let kind = if tape.at_end() { k % 3 } else { tape.below(4) };
        if kind == 3 || kind == 1 && flat {
            let dot = if flat { model.flat[k % model.flat.len()] } else { model.binary[k % model.binary.len()] };
            model.leaf(tape);
            let leaf = model.nodes.len() - 1;
            let product = if k % 2 == 0 { model.product_of(last, leaf) } else { model.product_of(leaf, last) };
            last = model.sum_of(&[(dot, product)]);
        } else if kind == 2 && model.nodes[last].size < 40 {
            let product = model.product_of(last, last);
            last = model.sum_of(&[(model.binary[0], product)]);
        } else {
            last = model.sum_of(&[(model.unary[k % model.unary.len()], last)]);
        }
        if k % 64 == 63 {
            model.evaluate(last)?;
        }
    }
    model.evaluate(last)?;
    model.finish(ctx)
}
