//! Generated grammars and inputs.

use cfg::history::earley::{EventId, History, MinimalDistance};
use cfg::{Cfg, Symbol};
use pbt::Tape;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt::Write as _;

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<usize>,
    /// Event and distance of every position.
    pub marks: Vec<(u32, u32)>,
}

/// A grammar over symbols `0..nsyms`. Symbols without rules are terminals.
#[derive(Clone, Debug, Hash)]
pub struct Spec {
    pub nsyms: usize,
    pub terminal: Vec<bool>,
    pub rules: Vec<Rule>,
    pub start: usize,
    /// Declaration order; `None` declares a symbol that no rule uses.
    pub layout: Vec<Option<usize>>,
    /// Order in which rules are added.
    pub order: Vec<usize>,
}

/// Options for generation.
#[derive(Clone, Copy)]
pub struct Shape {
    pub nulls: usize,
    pub nonterminals: usize,
    pub marks: bool,
    pub wide: bool,
}

impl Default for Shape {
    fn default() -> Self {
        Shape {
            nulls: 2,
            nonterminals: 6,
            marks: false,
            wide: true,
        }
    }
}

pub struct Built {
    pub cfg: Cfg,
    /// External handles of the specification's symbols.
    pub ext: Vec<Symbol>,
    /// Specification symbol of an external number, if any.
    pub back: Vec<Option<usize>>,
    /// External handles of symbols that no rule uses.
    pub unused: Vec<Symbol>,
}

impl Spec {
    pub fn build(&self) -> Built {
        let mut cfg = Cfg::new();
        let mut ext = vec![None; self.nsyms];
        let mut back = vec![];
        let mut unused = vec![];
        for &entry in &self.layout {
            let name = match entry {
                Some(s) => format!("s{}", s),
                None => format!("unused{}", back.len()),
            };
            let handle = cfg.next_sym(Some(&name));
            back.push(entry);
            match entry {
                Some(s) => ext[s] = Some(handle),
                None => unused.push(handle),
            }
        }
        let ext: Vec<Symbol> = ext.into_iter().map(|e| e.unwrap()).collect();
        for &r in &self.order {
            let rule = &self.rules[r];
            let mut history = History::new(r as u32, rule.rhs.len());
            for (dot, &(event, distance)) in history.dots.iter_mut().zip(&rule.marks) {
                dot.event = EventId { id: event };
                dot.distance = MinimalDistance { distance };
            }
            let rhs: Vec<Symbol> = rule.rhs.iter().map(|&s| ext[s]).collect();
            cfg.rule(ext[rule.lhs]).history(history).rhs(rhs);
        }
        cfg.set_roots([ext[self.start]]);
        Built {
            cfg,
            ext,
            back,
            unused,
        }
    }

    pub fn nullable(&self) -> Vec<bool> {
        let mut nullable = vec![false; self.nsyms];
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if !nullable[rule.lhs] && rule.rhs.iter().all(|&s| nullable[s]) {
                    nullable[rule.lhs] = true;
                    changed = true;
                }
            }
            if !changed {
                return nullable;
            }
        }
    }

    /// Symbols that derive some string of terminals.
    pub fn productive(&self) -> Vec<bool> {
        let mut productive = self.terminal.clone();
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if !productive[rule.lhs] && rule.rhs.iter().all(|&s| productive[s]) {
                    productive[rule.lhs] = true;
                    changed = true;
                }
            }
            if !changed {
                return productive;
            }
        }
    }

    /// Symbols that derive some non-empty string of terminals.
    pub fn solid(&self) -> Vec<bool> {
        let productive = self.productive();
        let mut solid = self.terminal.clone();
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if !solid[rule.lhs]
                    && rule.rhs.iter().all(|&s| productive[s])
                    && rule.rhs.iter().any(|&s| solid[s])
                {
                    solid[rule.lhs] = true;
                    changed = true;
                }
            }
            if !changed {
                return solid;
            }
        }
    }

    /// Symbols reachable from the start through productive rules.
    pub fn reachable(&self) -> Vec<bool> {
        let productive = self.productive();
        let mut reachable = vec![false; self.nsyms];
        reachable[self.start] = true;
        loop {
            let mut changed = false;
            for rule in &self.rules {
                if reachable[rule.lhs] && rule.rhs.iter().all(|&s| productive[s]) {
                    for &s in &rule.rhs {
                        changed |= !reachable[s];
                        reachable[s] = true;
                    }
                }
            }
            if !changed {
                return reachable;
            }
        }
    }

    /// Symbols from which they themselves can be reached.
    pub fn recursive(&self) -> Vec<bool> {
        let mut rules_of = vec![vec![]; self.nsyms];
        for (i, rule) in self.rules.iter().enumerate() {
            rules_of[rule.lhs].push(i);
        }
        (0..self.nsyms)
            .map(|s| {
                let mut seen = vec![false; self.nsyms];
                let mut work = vec![s];
                while let Some(at) = work.pop() {
                    for &r in &rules_of[at] {
                        for &c in &self.rules[r].rhs {
                            if c == s {
                                return true;
                            }
                            if !seen[c] {
                                seen[c] = true;
                                work.push(c);
                            }
                        }
                    }
                }
                false
            })
            .collect()
    }

    /// Whether some nonterminal derives itself.
    pub fn cyclic(&self) -> bool {
        let nullable = self.nullable();
        let n = self.nsyms;
        let mut reach = vec![vec![false; n]; n];
        for rule in &self.rules {
            for (i, &s) in rule.rhs.iter().enumerate() {
                let others = rule
                    .rhs
                    .iter()
                    .enumerate()
                    .all(|(k, &o)| k == i || nullable[o]);
                if others {
                    reach[rule.lhs][s] = true;
                }
            }
        }
        for k in 0..n {
            for i in 0..n {
                if reach[i][k] {
                    for j in 0..n {
                        if reach[k][j] {
                            reach[i][j] = true;
                        }
                    }
                }
            }
        }
        (0..n).any(|i| reach[i][i])
    }

    pub fn terminals(&self) -> Vec<usize> {
        (0..self.nsyms).filter(|&s| self.terminal[s]).collect()
    }

    pub fn text(&self) -> String {
        let mut out = String::new();
        for rule in &self.rules {
            let _ = write!(out, "{} ::=", self.name(rule.lhs));
            for &s in &rule.rhs {
                let _ = write!(out, " {}", self.name(s));
            }
            out.push_str("; ");
        }
        let _ = write!(out, "start {}", self.name(self.start));
        let declared: Vec<String> = self
            .layout
            .iter()
            .map(|e| e.map_or("_".to_string(), |s| self.name(s)))
            .collect();
        let _ = write!(out, " (declared {}; rule order {:?})", declared.join(" "), self.order);
        out
    }

    pub fn name(&self, s: usize) -> String {
        if self.terminal[s] {
            format!("t{}", s)
        } else {
            format!("N{}", s)
        }
    }

    pub fn words(&self, input: &[usize]) -> String {
        let words: Vec<String> = input.iter().map(|&s| self.name(s)).collect();
        format!("[{}]", words.join(" "))
    }

    /// Gives every symbol's number in another declaration order, with unused symbols between.
    pub fn scramble(&mut self, tape: &mut Tape<'_>) {
        let mut syms: Vec<usize> = (0..self.nsyms).collect();
        shuffle(tape, &mut syms);
        self.layout = vec![];
        for s in syms {
            while self.layout.len() < 200 && tape.chance(1, 6) {
                let n = tape.weighted(&[8, 2, 1]);
                for _ in 0..[1, 3, 30][n] {
                    self.layout.push(None);
                }
            }
            self.layout.push(Some(s));
        }
        let mut order: Vec<usize> = (0..self.rules.len()).collect();
        shuffle(tape, &mut order);
        self.order = order;
    }
}

pub fn shuffle<T>(tape: &mut Tape<'_>, items: &mut [T]) {
    if items.len() > 600 {
        // A tape does not have as many numbers.
        let mut state = tape.raw() as u64;
        if state == 0 {
            return;
        }
        for i in (1..items.len()).rev() {
            state = state.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            items.swap(i, (state >> 33) as usize % (i + 1));
        }
        return;
    }
    for i in (1..items.len()).rev() {
        // A zero tape leaves the order as it is.
        let j = i - tape.below(i + 1);
        items.swap(i, j);
    }
}

/// A grammar in which every nonterminal is productive and none derives itself.
pub fn grammar(tape: &mut Tape<'_>, shape: Shape) -> Spec {
    let mut spec = match LARGE.get() {
        None => small(tape, shape),
        Some(_) => big(tape, shape),
    };
    if shape.marks {
        for lhs in 0..spec.nsyms {
            if !spec.rules.iter().any(|r| r.lhs == lhs) {
                continue;
            }
            let at_start = (tape.below(5) as u32, tape.below(9) as u32);
            for rule in spec.rules.iter_mut().filter(|r| r.lhs == lhs) {
                for (pos, mark) in rule.marks.iter_mut().enumerate() {
                    *mark = if pos == 0 {
                        at_start
                    } else {
                        (
                            if tape.chance(1, 3) { !0 } else { tape.below(50) as u32 },
                            if tape.chance(1, 3) { !0 } else { tape.below(90) as u32 },
                        )
                    };
                }
            }
        }
    }
    spec.order = (0..spec.rules.len()).collect();
    match tape.below(3) {
        0 => {}
        _ => spec.scramble(tape),
    }
    spec
}


thread_local! {
    /// In large cases, the most tokens that an input may have.
    static LARGE: Cell<Option<usize>> = const { Cell::new(None) };
    /// Grammars are of thousands of symbols.
    static HUGE: Cell<bool> = const { Cell::new(false) };
}

/// Cases of the given check with larger grammars and longer inputs.
pub fn large<R>(f: impl FnOnce() -> R) -> R {
    struct Small;
    impl Drop for Small {
        fn drop(&mut self) {
            LARGE.set(None);
        }
    }
    let _small = Small;
    LARGE.set(Some(0));
    pbt::set_tick_budget(300_000_000);
    f()
}

/// Cases of the given check with grammars of thousands of symbols or rules.
pub fn huge<R>(f: impl FnOnce() -> R) -> R {
    struct Small;
    impl Drop for Small {
        fn drop(&mut self) {
            HUGE.set(false);
        }
    }
    let _small = Small;
    HUGE.set(true);
    large(|| {
        pbt::set_tick_budget(2_000_000_000);
        pbt::set_alloc_budget(24 << 30);
        pbt::grant_seconds(80);
        f()
    })
}

/// A list of items of thousands of symbols, which one token tells apart.
fn thousands(tape: &mut Tape<'_>) -> Spec {
    let mut spec = Spec { nsyms: 0, terminal: vec![], rules: vec![], start: 0, layout: vec![], order: vec![] };
    let symbol = |spec: &mut Spec, terminal: bool| {
        spec.terminal.push(terminal);
        spec.layout.push(Some(spec.nsyms));
        spec.nsyms += 1;
        spec.nsyms - 1
    };
    let rule = |spec: &mut Spec, lhs: usize, rhs: Vec<usize>| {
        spec.rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
    };
    let list = symbol(&mut spec, false);
    let item = symbol(&mut spec, false);
    let close = symbol(&mut spec, true);
    let maybe = symbol(&mut spec, false);
    if tape.chance(1, 3) {
        rule(&mut spec, list, vec![item, list]);
    } else {
        rule(&mut spec, list, vec![list, item]);
    }
    rule(&mut spec, list, vec![item]);
    rule(&mut spec, item, vec![close, close]);
    rule(&mut spec, maybe, vec![]);
    rule(&mut spec, maybe, vec![close]);
    let mut cap = 40;
    for _ in 0..tape.range(1, 2) {
        let n = match tape.below(5) {
            0 => tape.range(200, 300),
            1 => tape.range(500, 700),
            4 => tape.range(2_000, 2_500),
            _ => tape.range(1_000, 1_100),
        };
        match tape.below(9) {
            0 => {
                for _ in 0..n {
                    let t = symbol(&mut spec, true);
                    rule(&mut spec, item, vec![t]);
                }
            }
            1 => {
                // The list is also an item, with brackets of many kinds.
                let end = symbol(&mut spec, true);
                for k in 0..n {
                    let through = symbol(&mut spec, false);
                    let t = symbol(&mut spec, true);
                    rule(&mut spec, item, vec![through, end]);
                    rule(&mut spec, through, match k % 4 {
                        0 => vec![t],
                        1 => vec![t, maybe],
                        2 => vec![t, list],
                        _ => vec![t, t],
                    });
                }
            }
            2 => {
                // A chain of symbols, which may end anywhere.
                let lead = symbol(&mut spec, true);
                let mut last = symbol(&mut spec, false);
                rule(&mut spec, item, vec![lead, last]);
                for _ in 0..n {
                    let next = symbol(&mut spec, false);
                    rule(&mut spec, last, vec![next]);
                    if tape.chance(1, 3) {
                        let t = symbol(&mut spec, true);
                        rule(&mut spec, last, vec![t]);
                    }
                    last = next;
                }
                let t = symbol(&mut spec, true);
                rule(&mut spec, last, vec![t]);
            }
            3 => {
                // A rule of many symbols.
                let lead = symbol(&mut spec, true);
                let few: Vec<usize> = (0..3).map(|_| symbol(&mut spec, true)).collect();
                let step = tape.range(1, 40);
                let empty = tape.chance(1, 2);
                let mut rhs = vec![lead];
                for k in 0..n {
                    rhs.push(if k % step == 0 { few[k % 3] } else if empty && k % 41 == 7 { maybe } else { few[k / step % 3] });
                }
                rule(&mut spec, item, rhs);
                cap = cap.max(n + 40);
            }
            4 => {
                // Many rules with few symbols.
                let few: Vec<usize> = (0..tape.range(12, 20)).map(|_| symbol(&mut spec, true)).collect();
                let user = if tape.chance(1, 2) {
                    item
                } else {
                    let user = symbol(&mut spec, false);
                    let lead = symbol(&mut spec, true);
                    rule(&mut spec, item, vec![lead, user]);
                    user
                };
                for k in 0..n {
                    let i = |d: usize| few[k / d % few.len()];
                    let rhs = vec![i(1), i(few.len()), i(few.len() * few.len())];
                    if !spec.rules.iter().any(|r| r.rhs == rhs) {
                        rule(&mut spec, user, rhs);
                    }
                }
            }
            5 => {
                // Rules that only differ at the end, as long as they are.
                let lead = symbol(&mut spec, true);
                for k in 0..n.min(600) {
                    let through = symbol(&mut spec, false);
                    let t = symbol(&mut spec, true);
                    rule(&mut spec, item, vec![lead, close, through]);
                    rule(&mut spec, through, vec![maybe, t, if k % 2 == 0 { t } else { close }]);
                }
            }
            8 => {
                // Pairs of symbols that may be empty, or always are.
                let may: Vec<usize> = (0..n.min(700)).map(|_| symbol(&mut spec, false)).collect();
                let far = tape.range(1, may.len() - 1);
                for (k, &s) in may.iter().enumerate() {
                    rule(&mut spec, s, vec![]);
                    if k % 3 < 2 {
                        let t = symbol(&mut spec, true);
                        rule(&mut spec, s, vec![t]);
                    }
                    let other = may[(k + far) % may.len()];
                    let t = symbol(&mut spec, true);
                    let pair = symbol(&mut spec, false);
                    let more = may[(k + 2 * far + 1) % may.len()];
                    rule(&mut spec, pair, if k / 2 % 2 == 0 { vec![s, other, more] } else { vec![s, other] });
                    rule(&mut spec, item, if k % 2 == 0 { vec![t, pair] } else { vec![pair, t] });
                }
            }
            7 => {
                // Hundreds of derivations of the same tokens.
                let lead = symbol(&mut spec, true);
                let user = symbol(&mut spec, false);
                rule(&mut spec, item, vec![lead, user]);
                for k in 0..n.min(290) {
                    if k % 2 == 0 {
                        rule(&mut spec, user, vec![lead, close]);
                    } else {
                        let through = symbol(&mut spec, false);
                        rule(&mut spec, user, vec![through]);
                        rule(&mut spec, through, vec![lead, close]);
                    }
                }
                cap = cap.min(12);
            }
            _ => {
                // Numbers that no rule uses.
                let at = tape.below(spec.layout.len() + 1);
                let end = spec.layout.split_off(at);
                spec.layout.extend(vec![None; n]);
                spec.layout.extend(end);
                for _ in 0..20 {
                    let t = symbol(&mut spec, true);
                    rule(&mut spec, item, vec![t, t]);
                }
            }
        }
    }
    LARGE.set(Some(cap));
    spec
}

fn big(tape: &mut Tape<'_>, shape: Shape) -> Spec {
    if HUGE.get() {
        return thousands(tape);
    }
    let lists = tape.below(3) > 0;
    let mut spec = if lists { brackets(tape, shape) } else { small(tape, Shape { wide: false, ..shape }) };
    // Right recursion completes as many symbols at every location as there are items.
    let right = spec.rules[0].rhs.last() == Some(&0);
    let mut cap = if !lists { 28 } else if right { 150 } else { 600 };
    let times = if lists { tape.below(3) } else { 1 };
    for _ in 0..times {
        let free = inflate(tape, &mut spec);
        if free {
            cap = cap.min(50);
        }
    }
    LARGE.set(Some(cap));
    for s in 0..spec.nsyms {
        spec.terminal[s] = s != spec.start && !spec.rules.iter().any(|r| r.lhs == s);
    }
    spec
}

/// A list of items, in which every rule below the list starts with a terminal of its own.
fn brackets(tape: &mut Tape<'_>, shape: Shape) -> Spec {
    let nonterminals = tape.range(1, 4);
    let first_plain = 1 + nonterminals;
    let close = first_plain + 2;
    let empty = close + 1;
    let maybe = empty + 1;
    let mut nsyms = maybe + 1;
    let mut rules = vec![];
    let mut push = |lhs: usize, rhs: Vec<usize>| rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
    let right = tape.chance(1, 3);
    push(0, if right { vec![1, 0] } else { vec![0, 1] });
    push(0, vec![1]);
    if tape.chance(1, 6) {
        push(0, vec![]);
    }
    push(empty, vec![]);
    push(maybe, vec![]);
    push(maybe, vec![nsyms]);
    nsyms += 1;
    let empties = if shape.nulls > 4 { 2 } else { 4 };
    for lhs in 1..=nonterminals {
        for k in 0..tape.range(1, 3) {
            let mut rhs = vec![nsyms];
            nsyms += 1;
            for _ in 0..tape.below(4) {
                rhs.push(if k > 0 && tape.chance(1, 2) {
                    1 + tape.below(nonterminals)
                } else if tape.chance(1, empties) {
                    if tape.chance(1, 2) { empty } else { maybe }
                } else {
                    first_plain + tape.below(2)
                });
            }
            if tape.chance(3, 4) {
                rhs.push(close);
            }
            push(lhs, rhs);
        }
    }
    let terminal = (0..nsyms).map(|s| !rules.iter().any(|r: &Rule| r.lhs == s)).collect();
    Spec { nsyms, terminal, rules, start: 0, layout: (0..nsyms).map(Some).collect(), order: vec![] }
}

/// Makes a grammar larger in one way. True if it may be very ambiguous now.
fn inflate(tape: &mut Tape<'_>, spec: &mut Spec) -> bool {
    let add = |spec: &mut Spec, lhs: usize, rhs: Vec<usize>| {
        let plain = rhs.iter().all(|&s| spec.terminal[s]);
        spec.rules.push(Rule { lhs, marks: vec![(!0, !0); rhs.len() + 1], rhs });
        if !plain && spec.cyclic() {
            spec.rules.pop();
        }
    };
    let symbol = |spec: &mut Spec, terminal: bool| {
        spec.terminal.push(terminal);
        spec.layout.push(Some(spec.nsyms));
        spec.nsyms += 1;
        spec.nsyms - 1
    };
    let nonterminals: Vec<usize> = (0..spec.nsyms).filter(|&s| !spec.terminal[s]).collect();
    let terminals = spec.terminals();
    let kind = tape.below(8);
    match kind {
        5 => {
            // A rule of up to hundreds of symbols, with a terminal of its own at the start.
            let lhs = *tape.pick(&nonterminals);
            let lead = symbol(spec, true);
            let empty = spec.nullable();
            let silent: Vec<usize> = nonterminals.iter().copied().filter(|&s| empty[s] && !spec.recursive()[s]).collect();
            let mut rhs = vec![lead];
            let (from, to) = [(20, 40), (60, 70), (120, 140), (250, 270)][tape.below(4)];
            for _ in 0..tape.range(from, to) {
                rhs.push(if tape.chance(1, 12) {
                    *tape.pick(&nonterminals)
                } else if !silent.is_empty() && tape.chance(1, 8) {
                    *tape.pick(&silent)
                } else if terminals.is_empty() {
                    lead
                } else {
                    *tape.pick(&terminals)
                });
            }
            add(spec, lhs, rhs);
        }
        6 => {
            // Many alternatives, several with the same first symbol.
            let lhs = *tape.pick(&nonterminals);
            let some: Vec<usize> = (0..[6, 9, 17, 20][tape.below(4)]).map(|_| symbol(spec, true)).collect();
            let mut pairs: Vec<Vec<usize>> = some.iter().flat_map(|&a| some.iter().map(move |&b| vec![a, b])).collect();
            if tape.chance(1, 2) {
                shuffle(tape, &mut pairs[..some.len()]);
            }
            for rhs in pairs {
                add(spec, lhs, rhs);
            }
        }
        7 => {
            // Many symbols that share a part, and are told apart by what is before or after it.
            let user = *tape.pick(&nonterminals);
            let shared = if tape.chance(1, 2) || terminals.is_empty() { *tape.pick(&nonterminals) } else { *tape.pick(&terminals) };
            let shape = tape.below(4);
            let lead = symbol(spec, true);
            for _ in 0..[10, 40, 70, 140][tape.below(4)] {
                let through = symbol(spec, false);
                let t = symbol(spec, true);
                match shape {
                    0 => {
                        add(spec, user, vec![t, through]);
                        add(spec, through, vec![shared]);
                    }
                    1 => {
                        add(spec, user, vec![lead, through, t]);
                        add(spec, through, vec![shared]);
                    }
                    2 => {
                        add(spec, user, vec![lead, through]);
                        add(spec, through, vec![shared, t]);
                    }
                    _ => {
                        add(spec, user, vec![through, t]);
                        add(spec, through, vec![lead, shared]);
                    }
                }
            }
        }
        0 => {
            // Many terminals.
            let few: Vec<usize> = (0..tape.range(1, 3)).map(|_| *tape.pick(&nonterminals)).collect();
            for k in 0..[40, 70, 140, 300][tape.below(4)] {
                let t = symbol(spec, true);
                add(spec, few[k % few.len()], vec![t]);
            }
        }
        1 => {
            // Long rules.
            for _ in 0..tape.range(1, 3) {
                let at = tape.below(spec.rules.len());
                let before = spec.rules[at].clone();
                for _ in 0..tape.range(2, 14) {
                    let s = if tape.chance(1, 3) || terminals.is_empty() { *tape.pick(&nonterminals) } else { *tape.pick(&terminals) };
                    let rule = &mut spec.rules[at];
                    let place = tape.below(rule.rhs.len() + 1);
                    rule.rhs.insert(place, s);
                    rule.marks.push((!0, !0));
                }
                if spec.cyclic() || !spec.productive()[spec.start] {
                    spec.rules[at] = before;
                }
            }
        }
        2 => {
            // A chain of symbols that start or end with the next one.
            let kind = tape.below(4);
            let user = *tape.pick(&nonterminals);
            let mut last = symbol(spec, false);
            let prefix = if terminals.is_empty() || kind == 0 { vec![] } else { vec![*tape.pick(&terminals)] };
            add(spec, user, prefix.into_iter().chain([last]).collect());
            for _ in 0..tape.range(3, 60) {
                let next = symbol(spec, false);
                let t = (!terminals.is_empty()).then(|| *tape.pick(&terminals));
                let rhs = match (kind, t) {
                    (1, Some(t)) => vec![next, t],
                    (2, Some(t)) => vec![t, next],
                    (3, Some(t)) if tape.chance(1, 2) => vec![next, t],
                    _ => vec![next],
                };
                add(spec, last, rhs);
                last = next;
            }
            let end = symbol(spec, true);
            add(spec, last, vec![end]);
        }
        3 => {
            // Many alternatives.
            let lhs = *tape.pick(&nonterminals);
            for _ in 0..tape.range(6, 40) {
                let rhs = (0..tape.range(1, 4))
                    .map(|_| if tape.chance(1, 3) || terminals.is_empty() { *tape.pick(&nonterminals) } else { *tape.pick(&terminals) })
                    .collect();
                add(spec, lhs, rhs);
            }
        }
        _ => {
            // Unused numbers, and symbols of unused rules.
            for _ in 0..tape.range(1, 150) {
                spec.layout.push(None);
            }
            let user = symbol(spec, false);
            for _ in 0..tape.range(1, 30) {
                let t = symbol(spec, true);
                add(spec, user, vec![t]);
            }
        }
    }
    kind == 1 || kind == 3
}

fn small(tape: &mut Tape<'_>, shape: Shape) -> Spec {
    let nonterminals = tape.range(1, shape.nonterminals);
    let terminals = tape.range(1, 4);
    let extra = if shape.wide && tape.chance(1, 10) {
        tape.range(20, 90)
    } else {
        0
    };
    let nsyms = nonterminals + terminals + extra;
    let mut spec = Spec {
        nsyms,
        terminal: (0..nsyms).map(|s| s >= nonterminals).collect(),
        rules: vec![],
        start: 0,
        layout: (0..nsyms).map(Some).collect(),
        order: vec![],
    };
    let mut rules: Vec<Rule> = vec![];
    let push = |rules: &mut Vec<Rule>, lhs: usize, rhs: Vec<usize>| {
        rules.push(Rule {
            lhs,
            marks: vec![(!0, !0); rhs.len() + 1],
            rhs,
        })
    };
    let nt = |tape: &mut Tape<'_>| tape.below(nonterminals);
    let t = |tape: &mut Tape<'_>| nonterminals + tape.below(terminals);
    for lhs in 0..nonterminals {
        let alternatives = tape.range(1, 4);
        for alternative in 0..alternatives {
            let link = alternative == 0 && lhs + 1 < nonterminals && tape.chance(4, 5);
            let kind = if link {
                0
            } else {
                tape.weighted(&[8, 4, shape.nulls, 3, 2, 2, 1, 1, 2])
            };
            let rhs = match kind {
                0 => {
                    // Anything.
                    let len = [1, 2, 2, 3, 3, 4, 5, 6][tape.below(8)];
                    let mut rhs: Vec<usize> = (0..len)
                        .map(|_| if tape.chance(3, 5) { nt(tape) } else { t(tape) })
                        .collect();
                    if link {
                        // Nonterminals tend to be reachable.
                        let at = tape.below(len);
                        rhs[at] = lhs + 1;
                    }
                    rhs
                }
                1 => vec![t(tape)],
                2 => vec![],
                3 => vec![nt(tape)],
                4 => vec![lhs, t(tape)],
                5 => vec![t(tape), lhs],
                6 => vec![lhs, lhs],
                7 => vec![lhs, t(tape), lhs],
                _ => vec![t(tape), nt(tape), t(tape)],
            };
            push(&mut rules, lhs, rhs);
            if tape.chance(1, 40) {
                let again = rules.last().unwrap().clone();
                rules.push(again);
            }
        }
    }
    if extra > 0 {
        // Many more terminals, as alternatives of a few nonterminals.
        for k in 0..extra {
            let lhs = nt(tape);
            push(&mut rules, lhs, vec![nonterminals + terminals + k]);
        }
    }
    // Rules are kept in order as long as no nonterminal derives itself.
    for rule in rules {
        spec.rules.push(rule);
        if spec.cyclic() {
            spec.rules.pop();
        }
    }
    // Every nonterminal gets a way to end; sometimes it stays without, and its rules are dead.
    loop {
        let productive = spec.productive();
        let Some(lhs) = (0..nonterminals).find(|&s| !productive[s]) else {
            break;
        };
        if lhs != spec.start && tape.chance(1, 12) && spec.rules.iter().any(|r| r.lhs == lhs) {
            // Leave it (and everything that depends on it) unproductive.
            break;
        }
        push(&mut spec.rules, lhs, vec![t(tape)]);
    }
    for s in 0..nonterminals {
        // A symbol without rules is a terminal, whatever was planned.
        if s != spec.start && !spec.rules.iter().any(|r| r.lhs == s) {
            spec.terminal[s] = true;
        }
    }
    while !spec.productive()[spec.start] {
        push(&mut spec.rules, 0, vec![t(tape)]);
    }
    spec
}

/// Fewest tokens and lowest height of every symbol.
struct Mins {
    height: Vec<usize>,
    len: Vec<usize>,
}

impl Mins {
    fn new(spec: &Spec) -> Self {
        let big = 1 << 20;
        let mut height = vec![big; spec.nsyms];
        let mut len = vec![big; spec.nsyms];
        for s in 0..spec.nsyms {
            if spec.terminal[s] {
                height[s] = 0;
                len[s] = 1;
            }
        }
        loop {
            let mut changed = false;
            for rule in &spec.rules {
                let h = 1 + rule.rhs.iter().map(|&s| height[s]).max().unwrap_or(0);
                if h < height[rule.lhs] {
                    height[rule.lhs] = h;
                    changed = true;
                }
                let l: usize = rule.rhs.iter().map(|&s| len[s]).sum();
                if l < len[rule.lhs] {
                    len[rule.lhs] = l;
                    changed = true;
                }
            }
            if !changed {
                return Mins { height, len };
            }
        }
    }
}

/// A random sentence of about the wanted length, or the beginning of one.
pub fn sentence(tape: &mut Tape<'_>, spec: &Spec, want: usize) -> Vec<usize> {
    derived(tape, spec, want).0
}

/// The same, and whether it is complete.
fn derived(tape: &mut Tape<'_>, spec: &Spec, want: usize) -> (Vec<usize>, bool) {
    let mins = Mins::new(spec);
    let mut out = vec![];
    // Pending symbols, last first.
    let mut pending = vec![spec.start];
    let mut steps = 0;
    // Large inputs come from rules that lead back to their own symbol.
    let back = if LARGE.get().is_some() { spec.recursive() } else { vec![] };
    while let Some(s) = pending.pop() {
        if spec.terminal[s] {
            out.push(s);
            if out.len() > 120.max(2 * want) {
                return (out, pending.is_empty());
            }
            continue;
        }
        steps += 1;
        let rest: usize = pending.iter().map(|&p| mins.len[p]).sum();
        let room = want.saturating_sub(out.len() + rest);
        let usable = |r: &&Rule| r.lhs == s && r.rhs.iter().all(|&c| mins.height[c] < 1 << 20);
        let mut choices: Vec<&Rule> = spec.rules.iter().filter(usable).collect();
        if !back.is_empty() && room > 8 && tape.chance(19, 20) {
            let again: Vec<&Rule> = choices
                .iter()
                .copied()
                .filter(|r| r.rhs.iter().any(|&c| back[c] && back[s]))
                .collect();
            if !again.is_empty() {
                choices = again;
            }
        }
        let fits: Vec<&Rule> = choices
            .iter()
            .copied()
            .filter(|r| r.rhs.iter().map(|&c| mins.len[c]).sum::<usize>() <= room)
            .collect();
        if !fits.is_empty() {
            choices = fits;
        }
        if room > 2 && tape.chance(2, 3) {
            let deep: Vec<&Rule> = choices
                .iter()
                .copied()
                .filter(|r| r.rhs.iter().any(|&c| !spec.terminal[c]))
                .collect();
            if !deep.is_empty() {
                choices = deep;
            }
        }
        if steps > 60.max(4 * want) || choices.len() > 1 && room == 0 {
            let height = |r: &Rule| r.rhs.iter().map(|&c| mins.height[c]).max().unwrap_or(0);
            let low = choices.iter().map(|r| height(r)).min().unwrap();
            choices.retain(|r| height(r) == low);
        }
        let rule = choices[tape.below(choices.len())];
        pending.extend(rule.rhs.iter().rev());
    }
    (out, true)
}

fn longer(tape: &mut Tape<'_>, max: usize) -> usize {
    match LARGE.get() {
        None => max,
        Some(cap) => match tape.below(4) {
            0 => max,
            1 => cap.min(4 * max).max(max),
            _ => cap.max(max),
        },
    }
}

fn wanted(tape: &mut Tape<'_>, max: usize) -> usize {
    let least = if LARGE.get().is_some() && tape.chance(1, 2) { max * 3 / 4 } else { 0 };
    tape.range(least, max)
}

/// Sentences, near misses and random strings.
pub fn input(tape: &mut Tape<'_>, spec: &Spec, max: usize) -> Vec<usize> {
    let max = longer(tape, max);
    let reachable = spec.reachable();
    let terminals: Vec<usize> = spec
        .terminals()
        .into_iter()
        .filter(|&s| reachable[s])
        .collect();
    let any: Vec<usize> = if terminals.is_empty() {
        spec.terminals()
    } else {
        terminals
    };
    let few = any.len().min(4);
    let mut out = match tape.weighted(&[9, 2]) {
        0 => {
            let want = wanted(tape, max);
            sentence(tape, spec, want)
        }
        _ => {
            let len = tape.below(max.min(10) + 1);
            (0..len).map(|_| any[tape.below(few)]).collect()
        }
    };
    out.truncate(max);
    let edits = tape.weighted(&[5, 3, 1]);
    for _ in 0..edits {
        let at = tape.below(out.len() + 1);
        let token = if tape.chance(1, 8) {
            *tape.pick(&any)
        } else {
            any[tape.below(few)]
        };
        match tape.below(4) {
            0 if at < out.len() => {
                out.remove(at);
            }
            1 if at < out.len() => out[at] = token,
            2 if at + 1 < out.len() => out.swap(at, at + 1),
            _ => out.insert(at, token),
        }
    }
    out.truncate(max);
    out
}

/// A sentence (or, when its length cannot be kept, any input).
pub fn accepted(tape: &mut Tape<'_>, spec: &Spec, max: usize) -> Option<Vec<usize>> {
    let max = longer(tape, max);
    let want = wanted(tape, max);
    let (out, complete) = derived(tape, spec, want);
    (complete && out.len() <= max).then_some(out)
}

pub fn features(spec: &Spec) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    let nullable = spec.nullable();
    for rule in &spec.rules {
        if rule.rhs.first() == Some(&rule.lhs) {
            out.insert("left recursion");
        }
        if rule.rhs.len() > 1 && rule.rhs.last() == Some(&rule.lhs) {
            out.insert("right recursion");
        }
        if rule.rhs.len() == 1 && !spec.terminal[rule.rhs[0]] {
            out.insert("unit rule");
        }
        if rule.rhs.len() > 3 {
            out.insert("long rule");
        }
        if rule.rhs.iter().filter(|&&s| nullable[s]).count() > 1 {
            out.insert("several nullable symbols in a rule");
        }
    }
    if nullable.iter().any(|&n| n) {
        out.insert("nullable symbols");
    }
    if spec.nsyms > 32 {
        out.insert("more than 32 symbols");
    }
    if spec.layout.iter().any(|e| e.is_none()) {
        out.insert("unused symbols");
    }
    out
}
