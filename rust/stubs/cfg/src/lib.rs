//! Offline stand-in for the `cfg` crate of the (absent) sibling checkout `/cfg`: context-free
//! grammars and the grammar transformations that the code under test calls. It is written from
//! the documentation in `/repo/docs`, from the callers in `/repo`, and from standard definitions.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub use cfg_history as history;
pub use cfg_history::earley::{ExternalOrigin, History, RuleDot};
pub use cfg_symbol::{Symbol, SymbolName, SymbolSource};

#[derive(Clone, Debug)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Vec<Symbol>,
    pub history: History,
}

#[derive(Copy, Clone, Debug)]
pub struct WrappedRoot {
    pub root: Symbol,
    pub start_of_input: Symbol,
    pub inner_root: Symbol,
    pub end_of_input: Symbol,
}

#[derive(Copy, Clone, Debug)]
pub struct Dot {
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    sym_source: SymbolSource,
    rules: Vec<CfgRule>,
    roots: Vec<Symbol>,
    wrapped_roots: Vec<WrappedRoot>,
    next_origin: u32,
    /// Symbols of eliminated nulling rules; they stay in the numbering.
    nulling_symbols: BTreeSet<Symbol>,
}

impl Cfg {
    pub fn new() -> Self {
        Default::default()
    }

    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        self.sym_source.sym()
    }

    pub fn next_sym(&mut self, name: Option<&str>) -> Symbol {
        self.sym_source.next_sym(name)
    }

    pub fn sym_source(&self) -> &SymbolSource {
        &self.sym_source
    }

    pub fn sym_source_mut(&mut self) -> &mut SymbolSource {
        &mut self.sym_source
    }

    pub fn num_syms(&self) -> usize {
        self.sym_source.num_syms()
    }

    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder {
            cfg: self,
            lhs,
            history: None,
        }
    }

    pub fn add_rule(&mut self, rule: CfgRule) {
        self.rules.push(rule);
    }

    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> {
        self.rules.iter()
    }

    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }

    pub fn set_roots(&mut self, roots: impl AsRef<[Symbol]>) {
        self.roots = roots.as_ref().to_vec();
    }

    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }

    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped_roots
    }

    pub fn sort_by(&mut self, compare: impl FnMut(&CfgRule, &CfgRule) -> std::cmp::Ordering) {
        self.rules.sort_by(compare);
    }

    pub fn retain(&mut self, f: impl FnMut(&CfgRule) -> bool) {
        self.rules.retain(f);
    }

    pub fn column(&self, col: usize) -> impl Iterator<Item = Dot> + '_ {
        self.rules.iter().map(move |rule| Dot {
            postdot: rule.rhs.get(col).copied(),
            earley: Some(rule.history.dot(col)),
        })
    }

    pub fn stringify_to_bnf(&self) -> String {
        let mut out = String::new();
        for rule in &self.rules {
            let _ = write!(out, "g{} ::=", rule.lhs.usize());
            for s in &rule.rhs {
                let _ = write!(out, " g{}", s.usize());
            }
            out.push_str(";\n");
        }
        out
    }

    /// Wraps the root in a start-of-input and an end-of-input symbol.
    pub fn wrap_input(&mut self) {
        self.wrapped_roots.clear();
        let inner = std::mem::take(&mut self.roots);
        for inner_root in inner {
            let root = self.sym_source.next_sym(None);
            let start_of_input = self.sym_source.next_sym(None);
            let end_of_input = self.sym_source.next_sym(None);
            let rhs = vec![start_of_input, inner_root, end_of_input];
            self.rules.push(CfgRule {
                lhs: root,
                history: History::synthetic(rhs.len()),
                rhs,
            });
            self.roots.push(root);
            self.wrapped_roots.push(WrappedRoot {
                root,
                start_of_input,
                inner_root,
                end_of_input,
            });
        }
    }

    fn binarize(&mut self) {
        let rules = std::mem::take(&mut self.rules);
        for rule in rules {
            if rule.rhs.len() <= 2 {
                self.rules.push(rule);
                continue;
            }
            let CfgRule { lhs, rhs, history } = rule;
            let mut left = rhs[0];
            for k in 1..rhs.len() - 1 {
                let gensym = self.sym_source.next_sym(None);
                self.rules.push(CfgRule {
                    lhs: gensym,
                    rhs: vec![left, rhs[k]],
                    history: History {
                        origin: ExternalOrigin::null(),
                        nullable: None,
                        dots: vec![RuleDot::null(), history.dot(k), history.dot(k + 1)],
                    },
                });
                left = gensym;
            }
            let n = rhs.len();
            self.rules.push(CfgRule {
                lhs,
                rhs: vec![left, rhs[n - 1]],
                history: History {
                    origin: history.origin,
                    nullable: None,
                    dots: vec![history.dot(0), history.dot(n - 1), history.dot(n)],
                },
            });
        }
    }

    /// Binarizes the rules, then removes nulling symbols from right-hand sides. Returns the
    /// eliminated rules: those that may derive the empty string.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        self.binarize();
        let num_syms = self.num_syms();
        let mut has_rule = vec![false; num_syms];
        for rule in &self.rules {
            has_rule[rule.lhs.usize()] = true;
        }
        let mut nullable = vec![false; num_syms];
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if !nullable[rule.lhs.usize()] && rule.rhs.iter().all(|s| nullable[s.usize()]) {
                    nullable[rule.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut nulling = Cfg {
            sym_source: self.sym_source.clone(),
            rules: vec![],
            roots: self.roots.clone(),
            wrapped_roots: self.wrapped_roots.clone(),
            next_origin: self.next_origin,
            nulling_symbols: Default::default(),
        };
        let rules = std::mem::take(&mut self.rules);
        for rule in rules {
            if rule.rhs.iter().all(|s| nullable[s.usize()]) {
                nulling.rules.push(rule.clone());
            }
            if rule.rhs.len() == 2 {
                let (r0, r1) = (rule.rhs[0], rule.rhs[1]);
                let dots = |first: usize, last: usize| {
                    vec![
                        rule.history.dot(first),
                        rule.history.dot(last),
                        RuleDot::null(),
                    ]
                };
                let right_alone = nullable[r0.usize()].then(|| CfgRule {
                    lhs: rule.lhs,
                    rhs: vec![r1],
                    history: History {
                        origin: rule.history.origin,
                        nullable: Some((r0, false)),
                        dots: dots(0, 2),
                    },
                });
                let left_alone = nullable[r1.usize()].then(|| CfgRule {
                    lhs: rule.lhs,
                    rhs: vec![r0],
                    history: History {
                        origin: rule.history.origin,
                        nullable: Some((r1, true)),
                        dots: dots(0, 2),
                    },
                });
                self.rules.push(rule.clone());
                self.rules.extend(left_alone);
                self.rules.extend(right_alone);
            } else if rule.rhs.len() == 1 {
                self.rules.push(rule);
            }
        }
        // Symbols that can only derive the empty string now have no productive rules.
        let mut productive: Vec<bool> = has_rule.iter().map(|&r| !r).collect();
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if !productive[rule.lhs.usize()] && rule.rhs.iter().all(|s| productive[s.usize()])
                {
                    productive[rule.lhs.usize()] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        self.rules
            .retain(|rule| rule.rhs.iter().all(|s| productive[s.usize()]));
        for rule in &nulling.rules {
            self.nulling_symbols.insert(rule.lhs);
            self.nulling_symbols.extend(rule.rhs.iter().copied());
        }
        nulling
    }

    fn used_symbols(&self) -> BTreeSet<Symbol> {
        let mut used = self.nulling_symbols.clone();
        for rule in &self.rules {
            used.insert(rule.lhs);
            used.extend(rule.rhs.iter().copied());
            used.extend(rule.history.nullable.map(|(s, _)| s));
        }
        used.extend(self.roots.iter().copied());
        for w in &self.wrapped_roots {
            used.extend([w.root, w.start_of_input, w.inner_root, w.end_of_input]);
        }
        used
    }

    fn map_symbols(&mut self, map: impl Fn(Symbol) -> Symbol) {
        for rule in &mut self.rules {
            rule.lhs = map(rule.lhs);
            for s in &mut rule.rhs {
                *s = map(*s);
            }
            if let Some((s, _)) = &mut rule.history.nullable {
                *s = map(*s);
            }
        }
        for s in &mut self.roots {
            *s = map(*s);
        }
        for w in &mut self.wrapped_roots {
            w.root = map(w.root);
            w.start_of_input = map(w.start_of_input);
            w.inner_root = map(w.inner_root);
            w.end_of_input = map(w.end_of_input);
        }
        self.nulling_symbols = self.nulling_symbols.iter().map(|&s| map(s)).collect();
    }
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
    history: Option<History>,
}

impl<'a> RuleBuilder<'a> {
    /// Sets the history of the next rule.
    pub fn history(mut self, history: History) -> Self {
        self.history = Some(history);
        self
    }

    pub fn rhs(mut self, rhs: impl AsRef<[Symbol]>) -> Self {
        let rhs = rhs.as_ref().to_vec();
        let id = self.cfg.next_origin;
        self.cfg.next_origin += 1;
        let history = self
            .history
            .take()
            .unwrap_or_else(|| History::new(id, rhs.len()));
        self.cfg.rules.push(CfgRule {
            lhs: self.lhs,
            rhs,
            history,
        });
        self
    }

    pub fn rule(self, lhs: Symbol) -> RuleBuilder<'a> {
        self.cfg.rule(lhs)
    }
}

#[derive(Clone, Debug)]
pub struct SymbolBitSet {
    bit_vec: bit_vec::BitVec<u32>,
}

impl SymbolBitSet {
    pub fn from_elem(cfg: &Cfg, elem: bool) -> Self {
        SymbolBitSet {
            bit_vec: bit_vec::BitVec::from_elem(cfg.num_syms(), elem),
        }
    }
    pub fn set(&mut self, sym: Symbol, elem: bool) {
        self.bit_vec.set(sym.usize(), elem);
    }
    pub fn get(&self, sym: Symbol) -> bool {
        self.bit_vec[sym.usize()]
    }
    pub fn has(&self, sym: Symbol) -> bool {
        self.get(sym)
    }
    pub fn negate(&mut self) {
        self.bit_vec.negate();
    }
    pub fn bit_vec(&self) -> &bit_vec::BitVec<u32> {
        &self.bit_vec
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        SymbolSource::generate_fresh()
            .zip(self.bit_vec.iter())
            .filter_map(|(sym, is)| is.then_some(sym))
    }
}

impl std::ops::Index<Symbol> for SymbolBitSet {
    type Output = bool;
    fn index(&self, sym: Symbol) -> &bool {
        &self.bit_vec[sym.usize()]
    }
}

pub mod classify {
    use super::*;

    pub trait CfgClassifyExt {
        /// Removes rules that are unproductive or unreachable from the roots.
        fn make_proper(&mut self) -> bool;
    }

    impl CfgClassifyExt for Cfg {
        fn make_proper(&mut self) -> bool {
            let before = self.rules.len();
            let mut productive = vec![true; self.num_syms()];
            for rule in &self.rules {
                productive[rule.lhs.usize()] = false;
            }
            loop {
                let mut changed = false;
                for rule in &self.rules {
                    if !productive[rule.lhs.usize()]
                        && rule.rhs.iter().all(|s| productive[s.usize()])
                    {
                        productive[rule.lhs.usize()] = true;
                        changed = true;
                    }
                }
                if !changed {
                    break;
                }
            }
            self.rules.retain(|rule| {
                productive[rule.lhs.usize()] && rule.rhs.iter().all(|s| productive[s.usize()])
            });
            let mut reachable = vec![false; self.num_syms()];
            for root in &self.roots {
                reachable[root.usize()] = true;
            }
            loop {
                let mut changed = false;
                for rule in &self.rules {
                    if reachable[rule.lhs.usize()] {
                        for s in &rule.rhs {
                            if !reachable[s.usize()] {
                                reachable[s.usize()] = true;
                                changed = true;
                            }
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
            self.rules.retain(|rule| reachable[rule.lhs.usize()]);
            before == self.rules.len()
        }
    }
}

pub mod predict_sets {
    use super::*;

    pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;

    pub trait PredictSets {
        fn predict_sets(&self) -> &PerSymbolSets;
    }

    fn terminals(grammar: &Cfg) -> Vec<bool> {
        let mut terminal = vec![true; grammar.num_syms()];
        for rule in grammar.rules() {
            terminal[rule.lhs.usize()] = false;
        }
        terminal
    }

    /// The smallest sets that contain what they start with, and every set that leads to them.
    struct Closure {
        sets: Vec<Vec<u64>>,
        leads: Vec<BTreeSet<usize>>,
        present: Vec<bool>,
    }

    impl Closure {
        fn new(syms: usize) -> Self {
            Closure {
                sets: vec![vec![0; syms.div_ceil(64)]; syms],
                leads: vec![BTreeSet::new(); syms],
                present: vec![false; syms],
            }
        }

        fn insert(&mut self, set: Symbol, s: Symbol) {
            self.sets[set.usize()][s.usize() / 64] |= 1 << (s.usize() % 64);
        }

        fn merge(into: &mut [u64], from: &[u64]) -> bool {
            let mut changed = false;
            for (to, &from) in into.iter_mut().zip(from) {
                changed |= from & !*to != 0;
                *to |= from;
            }
            changed
        }

        fn close(mut self) -> PerSymbolSets {
            let mut pending: Vec<usize> = (0..self.sets.len()).rev().collect();
            let mut waits = vec![true; self.sets.len()];
            while let Some(from) = pending.pop() {
                waits[from] = false;
                let set = std::mem::take(&mut self.sets[from]);
                for &to in &self.leads[from] {
                    if to != from && Self::merge(&mut self.sets[to], &set) && !waits[to] {
                        waits[to] = true;
                        pending.push(to);
                    }
                }
                self.sets[from] = set;
            }
            let members = |set: &[u64]| {
                let mut out = BTreeSet::new();
                for (i, &word) in set.iter().enumerate() {
                    let mut left = word;
                    while left != 0 {
                        out.insert(Symbol::from_raw(i as u32 * 64 + left.trailing_zeros()));
                        left &= left - 1;
                    }
                }
                out
            };
            (0..self.sets.len())
                .filter(|&s| self.present[s])
                .map(|s| (Symbol::from_raw(s as u32), members(&self.sets[s])))
                .collect()
        }
    }

    /// FIRST sets; the grammar has no nulling rules.
    pub struct FirstSets {
        map: PerSymbolSets,
    }

    impl FirstSets {
        pub fn new(grammar: &Cfg) -> Self {
            let terminal = terminals(grammar);
            let mut closure = Closure::new(grammar.num_syms());
            for rule in grammar.rules() {
                closure.present[rule.lhs.usize()] = true;
                match rule.rhs.first() {
                    Some(&s) if terminal[s.usize()] => closure.insert(rule.lhs, s),
                    Some(s) => {
                        closure.leads[s.usize()].insert(rule.lhs.usize());
                    }
                    None => (),
                }
            }
            FirstSets { map: closure.close() }
        }
    }

    impl PredictSets for FirstSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }

    /// FOLLOW sets; the grammar has no nulling rules.
    pub struct FollowSets {
        map: PerSymbolSets,
    }

    impl FollowSets {
        pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
            let terminal = terminals(grammar);
            let mut closure = Closure::new(grammar.num_syms());
            // FIRST sets are added once for every pair of neighbours.
            let mut pairs = BTreeSet::new();
            for rule in grammar.rules() {
                for (pos, &sym) in rule.rhs.iter().enumerate() {
                    closure.present[sym.usize()] = true;
                    match rule.rhs.get(pos + 1) {
                        Some(&s) if terminal[s.usize()] => closure.insert(sym, s),
                        Some(&s) => {
                            pairs.insert((sym, s));
                        }
                        None => {
                            closure.leads[rule.lhs.usize()].insert(sym.usize());
                        }
                    }
                }
            }
            for (sym, next) in pairs {
                for &s in first.get(&next).into_iter().flatten() {
                    closure.insert(sym, s);
                }
            }
            FollowSets { map: closure.close() }
        }
    }

    impl PredictSets for FollowSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }
}

pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use cfg_symbol::intern::Mapping;
    use std::cmp::Ordering;

    #[derive(Clone, Debug)]
    pub struct CfgSymbolBitMatrix {
        matrix: BitMatrix,
    }

    impl std::ops::Deref for CfgSymbolBitMatrix {
        type Target = BitMatrix;
        fn deref(&self) -> &BitMatrix {
            &self.matrix
        }
    }

    impl std::ops::DerefMut for CfgSymbolBitMatrix {
        fn deref_mut(&mut self) -> &mut BitMatrix {
            &mut self.matrix
        }
    }

    impl std::ops::Index<(Symbol, Symbol)> for CfgSymbolBitMatrix {
        type Output = bool;
        fn index(&self, (a, b): (Symbol, Symbol)) -> &bool {
            &self.matrix[(a.usize(), b.usize())]
        }
    }

    pub trait CfgSymbolBitMatrixExt {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix;
    }

    impl CfgSymbolBitMatrixExt for Cfg {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix {
            CfgSymbolBitMatrix {
                matrix: BitMatrix::new(self.num_syms(), self.num_syms()),
            }
        }
    }

    /// Renumbers symbols.
    pub struct Remap<'a> {
        cfg: &'a mut Cfg,
        mapping: Mapping,
    }

    impl<'a> Remap<'a> {
        pub fn new(cfg: &'a mut Cfg) -> Self {
            let syms: Vec<Symbol> = SymbolSource::generate_fresh()
                .take(cfg.num_syms())
                .collect();
            Remap {
                mapping: Mapping {
                    to_internal: syms.iter().copied().map(Some).collect(),
                    to_external: syms,
                },
                cfg,
            }
        }

        fn apply(&mut self, new_order: Vec<Symbol>) {
            // `new_order` lists current symbols in their new order.
            let mut new_id: Vec<Option<Symbol>> = vec![None; self.cfg.num_syms()];
            for (&old, new) in new_order.iter().zip(SymbolSource::generate_fresh()) {
                new_id[old.usize()] = Some(new);
            }
            let to_external = new_order
                .iter()
                .map(|s| self.mapping.to_external[s.usize()])
                .collect();
            for internal in &mut self.mapping.to_internal {
                *internal = internal.and_then(|s: Symbol| new_id[s.usize()]);
            }
            self.mapping.to_external = to_external;
            self.cfg
                .map_symbols(|s| new_id[s.usize()].expect("removed a used symbol"));
            self.cfg.sym_source.remap(&new_order);
        }

        /// Reorders symbols to a linear extension of the partial order given by `compare`; symbols
        /// which are not ordered by it keep their relative order as far as possible.
        pub fn reorder_symbols(&mut self, compare: impl Fn(Symbol, Symbol) -> Ordering) {
            let mut remaining: Vec<Symbol> = SymbolSource::generate_fresh()
                .take(self.cfg.num_syms())
                .collect();
            let mut order = vec![];
            while !remaining.is_empty() {
                let next = (0..remaining.len())
                    .find(|&i| {
                        remaining.iter().enumerate().all(|(j, &other)| {
                            i == j || compare(other, remaining[i]) != Ordering::Less
                        })
                    })
                    .unwrap_or(0);
                order.push(remaining.remove(next));
            }
            self.apply(order);
        }

        pub fn remove_unused_symbols(&mut self) {
            let used = self.cfg.used_symbols();
            let order = SymbolSource::generate_fresh()
                .take(self.cfg.num_syms())
                .filter(|s| used.contains(s))
                .collect();
            self.apply(order);
        }

        pub fn get_mapping(self) -> Mapping {
            self.mapping
        }
    }
}
