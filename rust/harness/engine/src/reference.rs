//! The reference: a naive chart and an enumerator of derivation trees over the grammar as written.
//! Input is a sequence of locations, each with the tokens that may be read there.

use crate::spec::{Rule, Spec};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

/// Small keys of numbers, hashed quickly.
#[derive(Default, Clone, Copy)]
pub struct Quick(u64);

impl Hasher for Quick {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_usize(b as usize);
        }
    }
    fn write_usize(&mut self, n: usize) {
        self.0 = (self.0.rotate_left(5) ^ n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Quick>>;
type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Quick>>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tree {
    Leaf(usize, u32),
    /// A symbol that matched nothing.
    Null(usize),
    Node(u32, Vec<Rc<Tree>>),
}

impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Tree::Leaf(s, v) => write!(f, "{}@{}", s, v),
            Tree::Null(s) => write!(f, "{}~", s),
            Tree::Node(r, children) => {
                write!(f, "r{}(", r)?;
                for (i, c) in children.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{:?}", c)?;
                }
                write!(f, ")")
            }
        }
    }
}

pub type Lattice = Vec<Vec<(usize, u32)>>;

/// Token number `i` carries the value `value(i)`.
pub fn lattice(input: &[usize], value: impl Fn(usize) -> u32) -> Lattice {
    input
        .iter()
        .enumerate()
        .map(|(i, &s)| vec![(s, value(i))])
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct State {
    pub rule: usize,
    pub dot: usize,
    pub origin: usize,
}

pub struct Reference<'a> {
    pub spec: &'a Spec,
    pub input: &'a Lattice,
    pub nullable: Vec<bool>,
    pub solid: Vec<bool>,
    by_lhs: Vec<Vec<usize>>,
    /// The fewest tokens that every end of a rule matches.
    fewest: Vec<Vec<usize>>,
    pub sets: Vec<HashSet<State>>,
    /// The items of every set that wait for a symbol.
    waiting: Vec<HashMap<usize, Vec<State>>>,
    /// Where a symbol that may start at a location ends, for non-empty spans.
    ends: HashMap<(usize, usize), Rc<Vec<usize>>>,
    counts: HashMap<(usize, usize, usize), u64>,
    rests: HashMap<(usize, usize, usize, usize), u64>,
    trees: HashMap<(usize, usize, usize), Rc<Vec<Rc<Tree>>>>,
    /// The work done for counting. Beyond a limit, every count becomes `MANY`.
    work: u64,
}

const WORK: u64 = 10_000_000;

pub const MANY: u64 = 1 << 40;

fn fewest(spec: &Spec) -> Vec<Vec<usize>> {
    const NEVER: usize = 1 << 30;
    let mut tokens: Vec<usize> = (0..spec.nsyms).map(|s| if spec.terminal[s] { 1 } else { NEVER }).collect();
    loop {
        let mut changed = false;
        for rule in &spec.rules {
            let sum = rule.rhs.iter().fold(0, |n, &s| NEVER.min(n + tokens[s]));
            if sum < tokens[rule.lhs] {
                tokens[rule.lhs] = sum;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    spec.rules
        .iter()
        .map(|rule| {
            let mut out = vec![0];
            for &s in rule.rhs.iter().rev() {
                out.push(NEVER.min(out[out.len() - 1] + tokens[s]));
            }
            out.reverse();
            out
        })
        .collect()
}

impl<'a> Reference<'a> {
    pub fn new(spec: &'a Spec, input: &'a Lattice) -> Self {
        let productive = spec.productive();
        let mut by_lhs = vec![vec![]; spec.nsyms];
        for (i, rule) in spec.rules.iter().enumerate() {
            if rule.rhs.iter().all(|&s| productive[s]) {
                by_lhs[rule.lhs].push(i);
            }
        }
        let mut reference = Reference {
            spec,
            input,
            nullable: spec.nullable(),
            solid: spec.solid(),
            by_lhs,
            fewest: fewest(spec),
            sets: vec![],
            waiting: vec![],
            ends: HashMap::default(),
            counts: HashMap::default(),
            rests: HashMap::default(),
            trees: HashMap::default(),
            work: 0,
        };
        reference.fill();
        reference.index();
        reference
    }

    fn index(&mut self) {
        let mut ends: HashMap<(usize, usize), BTreeSet<usize>> = HashMap::default();
        for (at, set) in self.sets.iter().enumerate() {
            for &st in set {
                match self.next(st) {
                    None if st.origin < at => {
                        ends.entry((self.rule(st.rule).lhs, st.origin)).or_default().insert(at);
                    }
                    Some(s) if self.spec.terminal[s] && at < self.input.len() => {
                        if self.input[at].iter().any(|&(t, _)| t == s) {
                            ends.entry((s, at)).or_default().insert(at + 1);
                        }
                    }
                    _ => (),
                }
            }
        }
        self.ends = ends.into_iter().map(|(k, v)| (k, Rc::new(v.into_iter().collect()))).collect();
    }

    /// Where a symbol that starts at `i` may end, up to `j`.
    fn ends(&self, s: usize, i: usize, j: usize) -> impl Iterator<Item = usize> + use<> {
        let list = self.ends.get(&(s, i)).cloned().unwrap_or_default();
        let upto = list.partition_point(|&k| k <= j);
        self.nullable[s].then_some(i).into_iter().chain((0..upto).map(move |n| list[n]))
    }

    fn rule(&self, r: usize) -> &'a Rule {
        &self.spec.rules[r]
    }

    fn next(&self, st: State) -> Option<usize> {
        self.rule(st.rule).rhs.get(st.dot).copied()
    }

    /// Fills the sets up to the first empty one.
    fn fill(&mut self) {
        let mut first = HashSet::default();
        for &r in &self.by_lhs[self.spec.start] {
            first.insert(State {
                rule: r,
                dot: 0,
                origin: 0,
            });
        }
        self.close(first, 0);
        for i in 0..self.input.len() {
            let mut next = HashSet::default();
            for &st in &self.sets[i] {
                if let Some(s) = self.next(st) {
                    if self.input[i].iter().any(|&(t, _)| t == s) {
                        next.insert(State {
                            dot: st.dot + 1,
                            ..st
                        });
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            self.close(next, i + 1);
        }
    }

    fn close(&mut self, mut set: HashSet<State>, at: usize) {
        let mut work: Vec<State> = set.iter().copied().collect();
        let mut waiting: HashMap<usize, Vec<State>> = HashMap::default();
        while let Some(st) = work.pop() {
            let mut found: Vec<State> = vec![];
            match self.next(st) {
                Some(s) => {
                    waiting.entry(s).or_default().push(st);
                    for &r in &self.by_lhs[s] {
                        found.push(State {
                            rule: r,
                            dot: 0,
                            origin: at,
                        });
                    }
                    if self.nullable[s] {
                        found.push(State {
                            dot: st.dot + 1,
                            ..st
                        });
                    }
                }
                None => {
                    let lhs = self.rule(st.rule).lhs;
                    if st.origin == at {
                        if let Some(list) = waiting.get(&lhs) {
                            found.extend(list.iter().map(|w| State {
                                dot: w.dot + 1,
                                ..*w
                            }));
                        }
                    } else {
                        if let Some(list) = self.waiting[st.origin].get(&lhs) {
                            found.extend(list.iter().map(|w| State {
                                dot: w.dot + 1,
                                ..*w
                            }));
                        }
                    }
                }
            }
            for st in found {
                if set.insert(st) {
                    work.push(st);
                }
            }
        }
        debug_assert_eq!(self.sets.len(), at);
        self.sets.push(set);
        self.waiting.push(waiting);
    }

    /// How many tokens from the start are a viable prefix.
    pub fn viable(&self) -> usize {
        self.sets.len() - 1
    }

    pub fn sentence_at(&self, at: usize) -> bool {
        if at >= self.sets.len() {
            return false;
        }
        if at == 0 {
            return self.nullable[self.spec.start];
        }
        self.sets[at].iter().any(|&st| {
            st.origin == 0 && self.next(st).is_none() && self.rule(st.rule).lhs == self.spec.start
        })
    }

    pub fn accepted(&self) -> bool {
        self.sentence_at(self.input.len())
    }

    /// Symbols that may come next at a location, other than those that only derive nothing.
    pub fn predicted(&self, at: usize) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        if at == 0 && self.solid[self.spec.start] {
            out.insert(self.spec.start);
        }
        for &st in &self.sets[at] {
            if let Some(s) = self.next(st) {
                // A prediction below a symbol that can only be empty leads nowhere.
                if self.solid[s] && self.alive(st, at) {
                    out.insert(s);
                }
            }
        }
        out
    }

    /// Whether the item's completion can consume something: an item at its own origin is part of
    /// the progress only if its left-hand side can derive a non-empty string.
    fn alive(&self, st: State, at: usize) -> bool {
        st.origin < at || self.solid[self.rule(st.rule).lhs]
    }

    /// Partially read rules: (rule, position, start), where something was read and what follows
    /// can be non-empty.
    pub fn progress(&self, at: usize) -> BTreeSet<(usize, usize, usize)> {
        self.sets[at]
            .iter()
            .filter(|st| st.origin < at && self.next(**st).is_some_and(|s| self.solid[s]))
            .map(|st| (st.rule, st.dot, st.origin))
            .collect()
    }

    /// Symbols completed at a location over non-empty spans.
    pub fn completed(&self, at: usize) -> BTreeSet<(usize, usize)> {
        self.sets[at]
            .iter()
            .filter(|st| st.origin < at && self.next(**st).is_none())
            .map(|st| (self.rule(st.rule).lhs, st.origin))
            .collect()
    }

    // Derivations.

    pub fn count(&mut self, s: usize, i: usize, j: usize) -> u64 {
        if i == j {
            return self.nullable[s] as u64;
        }
        if self.spec.terminal[s] {
            return if j == i + 1 {
                self.input[i].iter().filter(|&&(t, _)| t == s).count() as u64
            } else {
                0
            };
        }
        if self.ends.get(&(s, i)).is_none_or(|list| list.binary_search(&j).is_err()) {
            return 0;
        }
        if let Some(&n) = self.counts.get(&(s, i, j)) {
            return n;
        }
        if self.work > WORK {
            return MANY;
        }
        let mut total = 0u64;
        for k in 0..self.by_lhs[s].len() {
            let r = self.by_lhs[s][k];
            total = (total + self.count_rest(r, 0, i, j)).min(MANY);
        }
        self.counts.insert((s, i, j), total);
        total
    }

    fn count_rest(&mut self, r: usize, pos: usize, i: usize, j: usize) -> u64 {
        let rhs = &self.rule(r).rhs;
        if pos == rhs.len() {
            return (i == j) as u64;
        }
        let s = rhs[pos];
        if pos + 1 == rhs.len() {
            return self.count(s, i, j);
        }
        if let Some(&n) = self.rests.get(&(r, pos, i, j)) {
            return n;
        }
        let rest_nullable = rhs[pos + 1..].iter().all(|&s| self.nullable[s]);
        let mut total = 0u64;
        let fewest = self.fewest[r][pos + 1];
        for k in self.ends(s, i, j.saturating_sub(fewest)) {
            // Without these, the search would not end for recursive rules.
            if k == i && !self.nullable[s] || k == j && !rest_nullable {
                continue;
            }
            self.work += 1;
            if self.work > WORK {
                return MANY;
            }
            let rest = self.count_rest(r, pos + 1, k, j);
            if rest > 0 {
                let here = self.count(s, i, k);
                total = total.saturating_add(here.saturating_mul(rest)).min(MANY);
            }
        }
        self.rests.insert((r, pos, i, j), total);
        total
    }

    /// Whether position `pos` of a rule matches `i..k` and the rest `k..j`.
    fn splits(&mut self, r: usize, pos: usize, i: usize, k: usize, j: usize) -> bool {
        let rhs = &self.rule(r).rhs;
        if k == i && !self.nullable[rhs[pos]] {
            return false;
        }
        if k == j && !rhs[pos + 1..].iter().all(|&s| self.nullable[s]) {
            return false;
        }
        self.count(rhs[pos], i, k) > 0 && self.count_rest(r, pos + 1, k, j) > 0
    }

    /// All trees of a symbol over a span. Call only with a moderate count.
    pub fn trees(&mut self, s: usize, i: usize, j: usize) -> Rc<Vec<Rc<Tree>>> {
        if let Some(t) = self.trees.get(&(s, i, j)) {
            return t.clone();
        }
        let mut out = vec![];
        if i == j {
            if self.nullable[s] {
                out.push(Rc::new(Tree::Null(s)));
            }
        } else if self.spec.terminal[s] {
            if j == i + 1 {
                for &(t, v) in &self.input[i] {
                    if t == s {
                        out.push(Rc::new(Tree::Leaf(s, v)));
                    }
                }
            }
        } else {
            for k in 0..self.by_lhs[s].len() {
                let r = self.by_lhs[s][k];
                if self.count_rest(r, 0, i, j) > 0 {
                    for children in self.sequences(r, 0, i, j) {
                        out.push(Rc::new(Tree::Node(r as u32, children)));
                    }
                }
            }
        }
        let out = Rc::new(out);
        self.trees.insert((s, i, j), out.clone());
        out
    }

    fn sequences(&mut self, r: usize, pos: usize, i: usize, j: usize) -> Vec<Vec<Rc<Tree>>> {
        let rhs = &self.rule(r).rhs;
        if pos == rhs.len() {
            return if i == j { vec![vec![]] } else { vec![] };
        }
        let mut out = vec![];
        for k in self.ends(rhs[pos], i, j) {
            if !self.splits(r, pos, i, k, j) {
                continue;
            }
            let rests = self.sequences(r, pos + 1, k, j);
            for tree in self.trees(rhs[pos], i, k).iter() {
                for rest in &rests {
                    let mut seq = vec![tree.clone()];
                    seq.extend(rest.iter().cloned());
                    out.push(seq);
                }
            }
        }
        out
    }

    pub fn total(&mut self) -> u64 {
        self.count(self.spec.start, 0, self.input.len())
    }

    pub fn all(&mut self) -> Vec<Rc<Tree>> {
        let mut out = self
            .trees(self.spec.start, 0, self.input.len())
            .as_ref()
            .clone();
        out.sort();
        out
    }

    /// Whether some symbol below the root of a derivation of the input has several derivations
    /// over its span (so that ambiguity is not confined to the root).
    pub fn nested_ambiguity(&mut self) -> bool {
        // Spans used by trees: walk down from the root.
        let mut seen = HashSet::default();
        let mut work = vec![(self.spec.start, 0, self.input.len())];
        while let Some((s, i, j)) = work.pop() {
            if i == j || self.spec.terminal[s] || !seen.insert((s, i, j)) {
                continue;
            }
            if seen.len() > 1 && self.count(s, i, j) > 1 {
                return true;
            }
            for k in 0..self.by_lhs[s].len() {
                let r = self.by_lhs[s][k];
                if self.shared_rest(r, i, j) {
                    return true;
                }
                self.used_spans(r, i, j, &mut work);
            }
        }
        false
    }

    /// Whether some beginning of the rule (two symbols or more, not all) has several derivations
    /// over one span, followed by the same rest.
    fn shared_rest(&mut self, r: usize, i: usize, j: usize) -> bool {
        let rhs = &self.rule(r).rhs;
        let mut here = BTreeMap::from([(i, 1u64)]);
        for (pos, &s) in rhs.iter().enumerate() {
            let mut next = BTreeMap::new();
            for (&k, &before) in &here {
                for end in self.ends(s, k, j) {
                    let n = self.count(s, k, end).saturating_mul(before);
                    let total = next.entry(end).or_insert(0u64);
                    *total = total.saturating_add(n).min(MANY);
                }
            }
            here = next;
            let p = pos + 1;
            if p >= 2 && p < rhs.len() {
                for (&k, &n) in &here {
                    if n > 1 && self.count_rest(r, p, k, j) > 0 {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// The spans of the symbols of a rule in the derivations of `i..j` by it.
    fn used_spans(&mut self, r: usize, i: usize, j: usize, work: &mut Vec<(usize, usize, usize)>) {
        let rhs = &self.rule(r).rhs;
        let mut here = BTreeSet::from([i]);
        for (pos, &s) in rhs.iter().enumerate() {
            let mut next = BTreeSet::new();
            for &k in &here {
                for end in self.ends(s, k, j) {
                    if self.splits(r, pos, k, end, j) {
                        work.push((s, k, end));
                        next.insert(end);
                    }
                }
            }
            here = next;
        }
    }
}
