//! Checks of the set-partitioned array that stores Earley sets and completion tables.
//! The reference model is a list of finished sets and one set in progress.

use gearley_vec2d::{Vec2d, Vec2dCapacity};
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Property, Tape};
use std::cell::Cell;
use std::fmt::Debug;

fn main() {
    pbt::main_with(properties())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "A case is a sequence of up to 60 operations on the array (append, seal, pop, \
                   shorten, clear, extend by whole sets, rebuild from sets, clone into a new or used \
                   array, iterators with and without exact lengths, capacity choices), or a large \
                   build of up to 10^5 sets and items, checked after every step against a list-of-lists \
                   model. The interrupted arm lets an iterator or a clone panic within an operation \
                   and goes on with the array. Non-trivial: \
                   at least two finished sets of which one is non-empty, and an item read back \
                   from a set that was sealed earlier.",
            assumptions: &[
                "pop and shorten are only applied to items of the set in progress, as all callers do",
            ],
            arms: vec![
                Arm { name: "model-u32", quick: 120_000 * 6, thorough: 3_000_000 * 6, tape: (0, 180), run: model_u32 },
                Arm { name: "model-pairs", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (0, 180), run: model_pair },
                Arm { name: "model-strings", quick: 30_000 * 6, thorough: 700_000 * 6, tape: (0, 180), run: model_string },
                Arm { name: "model-units", quick: 20_000 * 6, thorough: 300_000 * 6, tape: (0, 180), run: model_unit },
                Arm { name: "drops", quick: 30_000 * 6, thorough: 700_000 * 6, tape: (0, 140), run: drops },
                Arm { name: "model-wide", quick: 20_000 * 6, thorough: 300_000 * 6, tape: (0, 180), run: model_wide },
                Arm { name: "model-bytes", quick: 20_000 * 6, thorough: 300_000 * 6, tape: (0, 180), run: model_byte },
                Arm { name: "interrupted", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (0, 140), run: interrupted },
                Arm { name: "large", quick: 2_500, thorough: 20_000, tape: (20, 200), run: large },
            ],
            probes: vec![],
        },
        Property {
            id: "C25",
            rule: "A case builds sets, then truncates to a generated number of sets (repeatedly, \
                   with further operations in between) and compares every set, the set in \
                   progress and all later operations with the model. Non-trivial: a truncation \
                   that removes at least one non-empty finished set while the set in progress is \
                   non-empty.",
            assumptions: &["the number of sets to keep is at most the number of finished sets"],
            arms: vec![
                Arm { name: "truncate-u32", quick: 150_000 * 6, thorough: 4_000_000 * 6, tape: (4, 120), run: truncate_u32 },
                Arm { name: "truncate-pairs", quick: 60_000 * 6, thorough: 1_500_000 * 6, tape: (4, 120), run: truncate_pair },
                Arm { name: "truncate-wide", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 120), run: truncate_wide },
                Arm { name: "truncate-large", quick: 2_500, thorough: 20_000, tape: (20, 200), run: truncate_large },
                Arm { name: "truncate-bytes", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 120), run: truncate_byte },
                Arm { name: "truncate-u128", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 120), run: truncate_u128 },
                Arm { name: "truncate-chars", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 120), run: truncate_char },
                Arm { name: "truncate-units", quick: 10_000 * 6, thorough: 300_000 * 6, tape: (4, 80), run: truncate_unit },
            ],
            probes: vec![],
        },
        Property {
            id: "C26",
            rule: "A case builds an array by generated operations, serializes it with both \
                   supported frameworks, reads it back, compares all sets and the set in \
                   progress, and then continues with generated operations on the copy. \
                   Non-trivial: at least two finished sets and a non-empty set in progress.",
            assumptions: &["formats: JSON with both frameworks; with serde also a binary format without field names, and RON"],
            arms: vec![
                Arm { name: "roundtrip-u32", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (4, 140), run: serde_u32 },
                Arm { name: "roundtrip-strings", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 140), run: serde_string },
                Arm { name: "roundtrip-u64", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 140), run: serde_u64 },
                Arm { name: "roundtrip-optional", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 140), run: serde_optional },
                Arm { name: "roundtrip-bytes", quick: 10_000 * 6, thorough: 300_000 * 6, tape: (4, 140), run: serde_byte },
                Arm { name: "roundtrip-lists", quick: 10_000 * 6, thorough: 300_000 * 6, tape: (4, 140), run: serde_list },
                Arm { name: "roundtrip-large", quick: 500, thorough: 4_000, tape: (20, 200), run: serde_large },
                Arm { name: "roundtrip-pairs", quick: 20_000 * 6, thorough: 500_000 * 6, tape: (4, 140), run: serde_pair },
            ],
            probes: vec![],
        },
    ]
}

trait Elem: Clone + PartialEq + Debug + 'static {
    fn make(tape: &mut Tape<'_>) -> Self;
    /// For items that can be copied.
    fn truncate(_: &mut Vec2d<Self>, _: &mut Model<Self>, _: usize) {}
}

fn truncate_both<I: Elem + Copy>(real: &mut Vec2d<I>, model: &mut Model<I>, keep: usize) {
    real.truncate(keep);
    model.sealed.truncate(keep);
}

impl Elem for u32 {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        tape.interesting_u32()
    }
}

impl Elem for (u32, u8) {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        (tape.interesting_u32(), tape.below(256) as u8)
    }
}

impl Elem for u64 {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        (tape.interesting_u32() as u64) << tape.below(33) | tape.below(3) as u64
    }
}

impl Elem for Option<i64> {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        match tape.below(4) {
            0 => None,
            1 => Some(tape.interesting_u32() as i64),
            2 => Some(-(tape.interesting_u32() as i64)),
            _ => Some((tape.interesting_u32() as i64) << 31 ^ -(tape.below(2) as i64)),
        }
    }
}

impl Elem for u8 {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        tape.below(256) as u8
    }
}

impl Elem for u128 {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        (tape.interesting_u32() as u128) << tape.below(97) | tape.below(3) as u128
    }
}

impl Elem for char {
    fn truncate(real: &mut Vec2d<Self>, model: &mut Model<Self>, keep: usize) {
        truncate_both(real, model, keep);
    }
    fn make(tape: &mut Tape<'_>) -> Self {
        char::from_u32(tape.interesting_u32() % 0x11_0000).unwrap_or('\0')
    }
}

impl Elem for Vec<u32> {
    fn make(tape: &mut Tape<'_>) -> Self {
        (0..tape.below(4)).map(|_| tape.interesting_u32()).collect()
    }
}

/// An item that takes more room than a cache line.
impl Elem for [u64; 9] {
    fn make(tape: &mut Tape<'_>) -> Self {
        let v = tape.interesting_u32() as u64;
        [v, v + 1, 2, 3, 4, 5, 6, !v, v * 3]
    }
}

impl Elem for () {
    fn make(_: &mut Tape<'_>) -> Self {}
}

impl Elem for String {
    fn make(tape: &mut Tape<'_>) -> Self {
        let len = tape.below(6);
        (0..len)
            .map(|_| *tape.pick(&['a', 'b', '"', '\\', '\n', 'é', '✓', '\u{1}', '😀', ' ']))
            .collect()
    }
}

#[derive(Clone, Debug)]
struct Model<I> {
    sealed: Vec<Vec<I>>,
    open: Vec<I>,
}

impl<I: Elem> Model<I> {
    fn new() -> Self {
        Model {
            sealed: vec![],
            open: vec![],
        }
    }
    fn total(&self) -> usize {
        self.sealed.iter().map(|s| s.len()).sum::<usize>() + self.open.len()
    }
    fn flat(&self) -> Vec<I> {
        self.sealed
            .iter()
            .flatten()
            .chain(&self.open)
            .cloned()
            .collect()
    }
}

fn compare<I: Elem>(real: &Vec2d<I>, model: &Model<I>, when: &str) -> CaseResult {
    ensure_eq!(real.len(), model.sealed.len() + 1, "len", "number of sets after {}", when);
    ensure_eq!(real.item_count(), model.total(), "item-count", "item count after {}", when);
    ensure_eq!(real.last(), &model.open[..], "open-set", "set in progress after {}", when);
    let flat = model.flat();
    ensure_eq!(real.last_item(), flat.last(), "last-item", "last item after {}", when);
    let mut start = 0;
    for (i, set) in model.sealed.iter().enumerate() {
        ensure_eq!(&real[i], &set[..], "finished-set", "set {} after {}", i, when);
        ensure_eq!(real.index_at(i), start, "index-at", "start of set {} after {}", i, when);
        start += set.len();
    }
    ensure_eq!(
        real.index_at(model.sealed.len()),
        start,
        "index-at",
        "start of the set in progress after {}",
        when
    );
    for (i, item) in flat.iter().enumerate() {
        ensure_eq!(real.get_item(i), Some(item), "get-item", "item {} after {}", i, when);
    }
    for i in flat.len()..flat.len() + 3 {
        ensure!(real.get_item(i).is_none(), "get-item", "item {} after {} exists", i, when);
    }
    ensure!(
        real.get_item(usize::MAX).is_none(),
        "get-item",
        "item usize::MAX exists after {}",
        when
    );
    Ok(())
}

fn create<I: Elem>(tape: &mut Tape<'_>) -> (Vec2d<I>, Model<I>) {
    let real = match tape.below(4) {
        0 => Vec2d::new(),
        1 => Vec2d::default(),
        2 => Vec2d::with_capacity(Default::default()),
        _ => {
            let chart_capacity = if tape.chance(1, 8) { tape.below(5000) } else { tape.below(40) };
            let indices_capacity = if tape.chance(1, 8) { tape.below(5000) } else { tape.below(40) };
            Vec2d::with_capacity(Vec2dCapacity {
                chart_capacity,
                indices_capacity,
            })
        }
    };
    (real, Model::new())
}

fn set_of<I: Elem>(tape: &mut Tape<'_>, max: usize) -> Vec<I> {
    let n = tape.below(max + 1);
    (0..n).map(|_| I::make(tape)).collect()
}

/// An iterator that yields the items and tells less about their number than it could.
fn shy<I: 'static>(kind: usize, items: Vec<I>) -> Box<dyn Iterator<Item = I>> {
    let mut iter = items.into_iter();
    match kind {
        0 => Box::new(iter),
        // At least 0, at most all.
        1 => Box::new(iter.filter(|_| true)),
        // Nothing known.
        2 => Box::new(std::iter::from_fn(move || iter.next())),
        // At least 1, at most unknown, if there is one.
        _ => {
            let first = iter.next();
            Box::new(first.into_iter().chain(std::iter::from_fn(move || iter.next())))
        }
    }
}

/// Applies one generated operation to both.
fn step<I: Elem>(
    tape: &mut Tape<'_>,
    real: &mut Vec2d<I>,
    model: &mut Model<I>,
    ctx: &mut Ctx,
) -> Result<String, pbt::Fail> {
    Ok(match tape.weighted(&[10, 8, 3, 2, 2, 2, 1, 1, 1, 1]) {
        0 => {
            let item = I::make(tape);
            let text = format!("push {:?}", item);
            real.push_item(item.clone());
            model.open.push(item);
            text
        }
        1 => {
            real.next_set();
            let set = std::mem::take(&mut model.open);
            model.sealed.push(set);
            "seal".into()
        }
        2 => {
            // Popping an empty set in progress is only defined when nothing is stored.
            if model.open.is_empty() && model.total() != 0 {
                return Ok("-".into());
            }
            ctx.label("pop");
            let expected = model.open.pop();
            ensure_eq!(real.pop_item(), expected, "pop", "popped item");
            "pop".into()
        }
        3 => {
            let set: Vec<I> = set_of(tape, 5);
            ctx.label("extend-with-set");
            let text = format!("extend with set {:?}", set);
            real.extend_with_set(shy(tape.below(4), set.clone()));
            let mut open = std::mem::take(&mut model.open);
            open.extend(set);
            model.sealed.push(open);
            text
        }
        4 => {
            let n = tape.below(4);
            let sets: Vec<Vec<I>> = (0..n).map(|_| set_of(tape, 4)).collect();
            ctx.label("extend");
            let text = format!("extend {:?}", sets);
            let kind = tape.below(4);
            let lazy: Vec<_> = sets.iter().map(|set| shy(kind, set.clone())).collect();
            real.extend(shy(tape.below(4), lazy));
            for set in sets {
                let mut open = std::mem::take(&mut model.open);
                open.extend(set);
                model.sealed.push(open);
            }
            text
        }
        5 => {
            let base = model.total() - model.open.len();
            // Keeping more than there is changes nothing.
            let keep = tape.below(model.open.len() + 3);
            ctx.label("shorten");
            real.truncate_chart(base + keep);
            model.open.truncate(keep);
            format!("keep {} in progress", keep)
        }
        6 => {
            real.clear();
            *model = Model::new();
            ctx.label("clear");
            "clear".into()
        }
        7 => {
            // Into a new array, or into one that has other contents.
            let mut copy = if tape.chance(1, 2) {
                let sets: Vec<Vec<I>> = (0..tape.below(6)).map(|_| set_of(tape, 6)).collect();
                let mut copy: Vec2d<I> = sets.into_iter().collect();
                for item in set_of(tape, 3) {
                    copy.push_item(item);
                }
                copy.clone_from(real);
                ctx.label("clone into another");
                copy
            } else {
                real.clone()
            };
            real.push_item(I::make(tape));
            real.next_set();
            compare(&copy, model, "changing the original of a clone")?;
            std::mem::swap(real, &mut copy);
            copy.clear();
            copy.push_item(I::make(tape));
            compare(real, model, "clearing the original of a clone")?;
            ctx.label("clone");
            "clone".into()
        }
        8 => {
            let n = tape.below(5);
            let sets: Vec<Vec<I>> = (0..n).map(|_| set_of(tape, 4)).collect();
            let text = format!("collect {:?}", sets);
            let kind = tape.below(4);
            let lazy: Vec<_> = sets.iter().map(|set| shy(kind, set.clone())).collect();
            *real = shy(tape.below(4), lazy).collect();
            *model = Model {
                sealed: sets,
                open: vec![],
            };
            ctx.label("collect");
            text
        }
        _ => {
            // Rewriting the set in progress.
            if model.open.is_empty() {
                ensure!(real.last_mut().is_empty(), "last-mut", "empty set in progress");
                return Ok("-".into());
            }
            let i = tape.below(model.open.len());
            let item = I::make(tape);
            real.last_mut()[i] = item.clone();
            model.open[i] = item;
            real.last_mut().reverse();
            model.open.reverse();
            ctx.label("rewrite");
            "rewrite".into()
        }
    })
}

fn model_case<I: Elem>(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (mut real, mut model) = create::<I>(tape);
    compare(&real, &model, "creation")?;
    let mut log = vec![];
    let mut nontrivial = false;
    while !tape.at_end() && log.len() < 60 {
        let text = step(tape, &mut real, &mut model, ctx)?;
        compare(&real, &model, &text)?;
        nontrivial |= model.sealed.len() >= 2 && model.sealed.iter().any(|s| !s.is_empty());
        log.push(text);
    }
    ctx.case(&log);
    ctx.nontrivial(nontrivial);
    ctx.describe(|| log.join("; "));
    Ok(())
}

fn model_u32(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<u32>(tape, ctx)
}
fn model_pair(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<(u32, u8)>(tape, ctx)
}
fn model_string(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<String>(tape, ctx)
}
fn model_wide(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<[u64; 9]>(tape, ctx)
}
fn model_byte(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<u8>(tape, ctx)
}
fn model_unit(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    model_case::<()>(tape, ctx)
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// How many clones may be made before one of them fails.
    static CLONES: Cell<Option<usize>> = const { Cell::new(None) };
}

/// What a failing iterator or clone fails with.
struct Interrupted;

fn interruptible(f: impl FnOnce()) -> Result<bool, pbt::Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => Ok(false),
        Err(e) if e.is::<Interrupted>() => Ok(true),
        Err(e) => std::panic::resume_unwind(e),
    }
}

#[derive(Debug)]
struct Tracked(u32);

impl Tracked {
    fn new(v: u32) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tracked(v)
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        if let Some(left) = CLONES.get() {
            if left == 0 {
                CLONES.set(None);
                std::panic::resume_unwind(Box::new(Interrupted));
            }
            CLONES.set(Some(left - 1));
        }
        Tracked::new(self.0)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tracked {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}
impl Elem for Tracked {
    fn make(tape: &mut Tape<'_>) -> Self {
        Tracked::new(tape.raw())
    }
}

/// Every stored item is dropped exactly once.
fn drops(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    LIVE.with(|l| l.set(0));
    let mut log = vec![];
    {
        let (mut real, mut model) = create::<Tracked>(tape);
        while !tape.at_end() && log.len() < 40 {
            let text = step(tape, &mut real, &mut model, ctx)?;
            log.push(text);
            let live = LIVE.with(|l| l.get());
            ensure_eq!(live, 2 * model.total() as i64, "drops", "live items (both copies)");
        }
        ctx.nontrivial(model.total() > 0 && model.sealed.len() >= 2);
    }
    ensure_eq!(LIVE.with(|l| l.get()), 0, "drops", "live items at the end");
    ctx.case(&log);
    ctx.describe(|| log.join("; "));
    Ok(())
}

/// Iterators and clones that panic in the middle: what was finished before stays, everything
/// behaves as a list of lists from then on, and every item is dropped exactly once. How many items
/// of an interrupted set are in the set in progress is left open.
fn interrupted(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    LIVE.with(|l| l.set(0));
    CLONES.set(None);
    let mut log = vec![];
    let mut interruptions = 0;
    {
        let (mut real, mut model) = create::<Tracked>(tape);
        while !tape.at_end() && log.len() < 30 {
            if tape.chance(2, 3) {
                let text = step(tape, &mut real, &mut model, &mut Ctx::default())?;
                compare(&real, &model, &text)?;
                log.push(text);
                continue;
            }
            let text = match tape.below(3) {
                0 | 1 => {
                    // The iterator of one of several sets fails.
                    let n = tape.range(1, 3);
                    let sets: Vec<Vec<Tracked>> = (0..n).map(|_| set_of(tape, 5)).collect();
                    let at = tape.below(n);
                    let after = tape.below(sets[at].len() + 1);
                    let text = format!("extend {:?}, failing in set {} after {}", sets, at, after);
                    let kind = tape.below(4);
                    let failing: Vec<_> = sets
                        .iter()
                        .enumerate()
                        .map(|(k, set)| {
                            let mut left = if k == at { after } else { usize::MAX };
                            let items = shy(kind, set.clone());
                            items.chain(std::iter::from_fn(move || {
                                if k == at {
                                    std::panic::resume_unwind(Box::new(Interrupted));
                                }
                                None
                            })).inspect(move |_| {
                                if left == 0 {
                                    std::panic::resume_unwind(Box::new(Interrupted));
                                }
                                left -= 1;
                            })
                        })
                        .collect();
                    let at_all = if n == 1 && tape.chance(1, 2) {
                        let one = failing.into_iter().next().unwrap();
                        interruptible(|| real.extend_with_set(one))?
                    } else {
                        interruptible(|| real.extend(failing))?
                    };
                    ensure!(at_all, "interrupted", "a failing iterator was not read to its end: {}", text);
                    // Sets before the failing one may be stored or not.
                    let stored = real.len().wrapping_sub(model.sealed.len() + 1);
                    ensure!(stored <= at, "interrupted", "{} sets after {}", real.len(), text);
                    for (k, set) in sets.into_iter().enumerate().take(stored + 1) {
                        let known = model.open.len();
                        let after = if k == at { after } else { set.len() };
                        model.open.extend(set);
                        if k < stored {
                            let set = std::mem::take(&mut model.open);
                            model.sealed.push(set);
                        } else {
                            let got = real.last().len();
                            ensure!(
                                got >= known && got <= known + after,
                                "interrupted",
                                "{} items in progress after {}",
                                got,
                                text
                            );
                            model.open.truncate(got);
                        }
                    }
                    text
                }
                _ => {
                    let total = model.total();
                    let after = tape.below(total + 1);
                    let mut copy: Vec2d<Tracked> = if tape.chance(1, 2) {
                        let sets: Vec<Vec<Tracked>> = (0..tape.below(4)).map(|_| set_of(tape, 4)).collect();
                        sets.into_iter().collect()
                    } else {
                        Vec2d::new()
                    };
                    let into = tape.chance(1, 2);
                    CLONES.set(Some(after));
                    let failed = interruptible(|| {
                        if into {
                            copy.clone_from(&real);
                        } else {
                            copy = real.clone();
                        }
                    });
                    CLONES.set(None);
                    if !failed? {
                        compare(&copy, &model, "clone")?;
                    }
                    format!("clone, failing after {}", after)
                }
            };
            interruptions += 1;
            compare(&real, &model, &text)?;
            log.push(text);
            let live = LIVE.with(|l| l.get());
            ensure_eq!(live, 2 * model.total() as i64, "drops", "live items (both copies)");
        }
        ctx.nontrivial(interruptions > 0 && model.sealed.len() >= 2);
    }
    ensure_eq!(LIVE.with(|l| l.get()), 0, "drops", "live items at the end");
    ctx.case(&log);
    ctx.describe(|| log.join("; "));
    Ok(())
}

/// Big sets and many sets, past any preset capacity and past 2^8 and 2^16 of both. Returns the
/// number of truncations that removed something and moved something.
fn build_large<I: Elem + Copy>(
    tape: &mut Tape<'_>,
    real: &mut Vec2d<I>,
    model: &mut Model<I>,
    make: impl Fn(u32) -> I,
    truncations: bool,
) -> Result<usize, pbt::Fail> {
    let mut next = tape.raw();
    let mut item = move || {
        next = next.wrapping_mul(1664525).wrapping_add(1013904223);
        make(next ^ next >> 15)
    };
    let mut moved = 0;
    let rounds = tape.range(3, 16);
    for _ in 0..rounds {
        let (sets, max) = match tape.weighted(&[4, 4, 4, 1, 1]) {
            0 => (1, 700),
            1 => (tape.range(1, 8), 700),
            2 => (tape.range(1, 300), 40),
            3 => (tape.range(1, 140) * 500, 1),
            _ => (1, 70_000),
        };
        for _ in 0..sets {
            let n = match max {
                1 => usize::from(item_bit(tape, sets)),
                70_000 => tape.range(1, 140) * 500 + tape.below(3),
                _ if sets > 8 => model.sealed.len() * 7 % 13 * (max / 13),
                _ => match tape.below(4) {
                    0 => 0,
                    1 => tape.below(4),
                    2 => tape.below(40),
                    _ => tape.below(max),
                },
            };
            for _ in 0..n {
                let value = item();
                real.push_item(value);
                model.open.push(value);
            }
            real.next_set();
            let set = std::mem::take(&mut model.open);
            model.sealed.push(set);
        }
        if tape.chance(1, 5) {
            let most = [300, 300, 3_000, 70_000][tape.below(4)];
            let n = tape.below(most);
            let set: Vec<I> = (0..n).map(|_| item()).collect();
            real.extend_with_set(shy(tape.below(4), set.clone()));
            model.sealed.push(set);
        }
        if tape.chance(1, 5) {
            // A few big sets, or many small ones.
            let (sets, most) = [(3, 3_000), (3, 70_000), (1_500, 6), (70_000, 2)][tape.weighted(&[3, 1, 3, 1])];
            let mut given: Vec<Vec<I>> = vec![];
            let some = tape.below(most);
            for k in 0..sets {
                let n = if sets > 10 { k % most } else { some.saturating_sub(k) };
                given.push((0..n).map(|_| item()).collect());
            }
            real.extend(given.iter().cloned());
            model.sealed.extend(given);
        }
        if truncations && tape.chance(1, 2) {
            let total = model.sealed.len();
            let keep = match tape.below(4) {
                0 => tape.below(total + 1),
                1 => total - tape.below(total.min(4) + 1),
                2 => tape.below(total.min(4) + 1),
                _ => total - tape.below(total.min(300) + 1),
            };
            let n = match tape.below(5) {
                0 => 0,
                1 => tape.below(8),
                2 => tape.below(300),
                3 => tape.below(3000),
                _ => tape.below(100) * 700,
            };
            for _ in 0..n {
                let value = item();
                real.push_item(value);
                model.open.push(value);
            }
            let removed: usize = model.sealed[keep..].iter().map(|s| s.len()).sum();
            moved += usize::from(removed > 0 && n > 0);
            real.truncate(keep);
            model.sealed.truncate(keep);
            compare(real, model, "large truncation")?;
        }
        if tape.chance(1, 10) {
            let copy = real.clone();
            real.clear();
            real.clone_from(&copy);
        }
    }
    compare(real, model, "large build")?;
    Ok(moved)
}

/// Whether the next of very many sets has an item.
fn item_bit(tape: &mut Tape<'_>, sets: usize) -> bool {
    sets % 3 != 0 && tape.pos() % 2 == 0
}

fn large_of<I: Elem + Copy>(tape: &mut Tape<'_>, ctx: &mut Ctx, make: impl Fn(u32) -> I, truncations: bool) -> CaseResult {
    let (mut real, mut model) = create::<I>(tape);
    let moved = build_large(tape, &mut real, &mut model, make, truncations)?;
    ctx.case(&(model.sealed.len(), model.total(), tape.pos()));
    if truncations {
        ctx.nontrivial(moved > 0);
    } else {
        ctx.nontrivial(model.sealed.len() >= 2 && model.total() > 1000);
    }
    ctx.label_if(model.total() > 5000, "more than 5000 items");
    ctx.label_if(model.total() > 65536, "more than 65536 items");
    ctx.label_if(model.sealed.len() > 256, "more than 256 sets");
    ctx.label_if(model.sealed.len() > 65536, "more than 65536 sets");
    ctx.describe(|| format!("{} sets, {} items", model.sealed.len(), model.total()));
    Ok(())
}

fn large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    large_of::<u32>(tape, ctx, |v| v, false)
}
fn truncate_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    if tape.chance(1, 3) {
        large_of::<(u32, u8)>(tape, ctx, |v| (v, v as u8), true)
    } else {
        large_of::<u32>(tape, ctx, |v| v, true)
    }
}

/// A large array is written and read back.
fn serde_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (mut real, mut model) = create::<u32>(tape);
    build_large(tape, &mut real, &mut model, |v| v, false)?;
    for i in 0..tape.below(400) as u32 {
        real.push_item(i * 77);
        model.open.push(i * 77);
    }
    let copies = read_back(&real)?;
    for (name, copy) in &copies {
        compare(copy, &model, name)?;
    }
    for (name, mut copy) in copies {
        let mut m = model.clone();
        let keep = tape.below(m.sealed.len() + 1);
        copy.truncate(keep);
        m.sealed.truncate(keep);
        compare(&copy, &m, &format!("truncate {} after {}", keep, name))?;
        copy.extend_with_set(0..300);
        let mut open = std::mem::take(&mut m.open);
        open.extend(0..300);
        m.sealed.push(open);
        compare(&copy, &m, &format!("extend after {}", name))?;
    }
    ctx.case(&(model.sealed.len(), model.total(), tape.pos()));
    ctx.nontrivial(model.sealed.len() >= 2 && !model.open.is_empty());
    ctx.label_if(model.total() > 65536, "more than 65536 items");
    ctx.label_if(model.sealed.len() > 256, "more than 256 sets");
    ctx.label_if(model.sealed.len() > 65536, "more than 65536 sets");
    ctx.describe(|| format!("{} sets, {} items, {} in progress", model.sealed.len(), model.total(), model.open.len()));
    Ok(())
}

/// Writes the array in every way and reads it back in every way.
fn read_back<I>(real: &Vec2d<I>) -> Result<Vec<(&'static str, Vec2d<I>)>, pbt::Fail>
where
    I: miniserde::Serialize + miniserde::Deserialize + serde::Serialize + serde::de::DeserializeOwned,
{
    let written = |e: serde_json::Error| pbt::Fail::new("serialize", format!("serde: {}", e));
    let mini = miniserde::json::to_string(real);
    let full = serde_json::to_string(real).map_err(written)?;
    let pretty = serde_json::to_vec_pretty(real).map_err(written)?;
    let value = serde_json::to_value(real).map_err(written)?;
    let reads = |what: &str, text: &str, e: String| {
        let text: String = text.chars().take(300).collect();
        pbt::Fail::new("deserialize", format!("{} rejects {}: {}", what, text, e))
    };
    let mut copies: Vec<(&'static str, Vec2d<I>)> = vec![];
    match miniserde::json::from_str::<Vec2d<I>>(&mini) {
        Ok(copy) => copies.push(("miniserde", copy)),
        Err(e) => return Err(reads("miniserde", &mini, format!("{:?}", e))),
    }
    match serde_json::from_str::<Vec2d<I>>(&full) {
        Ok(copy) => copies.push(("serde", copy)),
        Err(e) => return Err(reads("serde", &full, e.to_string())),
    }
    match serde_json::from_value::<Vec2d<I>>(value) {
        Ok(copy) => copies.push(("serde value", copy)),
        Err(e) => return Err(reads("serde value", &full, e.to_string())),
    }
    match serde_json::from_reader::<_, Vec2d<I>>(&pretty[..]) {
        Ok(copy) => copies.push(("serde reader", copy)),
        Err(e) => return Err(reads("serde reader", &full, e.to_string())),
    }
    // A format without names of fields, and one with a syntax of its own.
    let bytes = bincode::serialize(real).map_err(|e| pbt::Fail::new("serialize", format!("serde to bytes: {}", e)))?;
    match bincode::deserialize::<Vec2d<I>>(&bytes) {
        Ok(copy) => copies.push(("serde bytes", copy)),
        Err(e) => return Err(reads("serde bytes", &format!("{:?}", bytes), e.to_string())),
    }
    if real.item_count() < 3000 {
        let text = ron::to_string(real).map_err(|e| pbt::Fail::new("serialize", format!("serde to ron: {}", e)))?;
        match ron::from_str::<Vec2d<I>>(&text) {
            Ok(copy) => copies.push(("serde ron", copy)),
            Err(e) => return Err(reads("serde ron", &text, e.to_string())),
        }
    }
    Ok(copies)
}

fn truncate_case<I: Elem + Copy>(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let (mut real, mut model) = create::<I>(tape);
    let mut log = vec![];
    while !tape.at_end() && log.len() < 40 {
        let text = match tape.weighted(&[6, 4, 3, 3, 2]) {
            0 => {
                let item = I::make(tape);
                real.push_item(item);
                model.open.push(item);
                format!("push {:?}", item)
            }
            1 => {
                real.next_set();
                let set = std::mem::take(&mut model.open);
                model.sealed.push(set);
                "seal".into()
            }
            2 => {
                let set: Vec<I> = set_of(tape, 6);
                real.extend_with_set(set.iter().copied());
                let mut open = std::mem::take(&mut model.open);
                open.extend(&set);
                model.sealed.push(open);
                format!("set {:?}", set)
            }
            3 => {
                let keep = tape.below(model.sealed.len() + 1);
                let removed: usize = model.sealed[keep..].iter().map(|s| s.len()).sum();
                ctx.nontrivial(removed > 0 && !model.open.is_empty());
                ctx.label_if(removed > 0 && !model.open.is_empty(), "removes and moves items");
                ctx.label_if(
                    removed > 0 && model.open.len() > removed,
                    "moved range overlaps its destination",
                );
                ctx.label_if(keep == 0, "removes all finished sets");
                ctx.label_if(keep == model.sealed.len(), "removes nothing");
                real.truncate(keep);
                model.sealed.truncate(keep);
                format!("truncate {}", keep)
            }
            _ => step(tape, &mut real, &mut model, &mut Ctx::default())?,
        };
        compare(&real, &model, &text)?;
        log.push(text);
    }
    ctx.case(&log);
    ctx.describe(|| log.join("; "));
    Ok(())
}

fn truncate_u32(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<u32>(tape, ctx)
}
fn truncate_pair(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<(u32, u8)>(tape, ctx)
}
fn truncate_wide(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<[u64; 9]>(tape, ctx)
}
fn truncate_byte(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<u8>(tape, ctx)
}
fn truncate_u128(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<u128>(tape, ctx)
}
fn truncate_char(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<char>(tape, ctx)
}
fn truncate_unit(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    truncate_case::<()>(tape, ctx)
}

fn serde_case<I>(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult
where
    I: Elem
        + miniserde::Serialize
        + miniserde::Deserialize
        + serde::Serialize
        + serde::de::DeserializeOwned,
{
    let (mut real, mut model) = create::<I>(tape);
    let mut log = vec![];
    let steps = tape.range(1, 30);
    for _ in 0..steps {
        log.push(step(tape, &mut real, &mut model, &mut Ctx::default())?);
        if tape.chance(1, 10) {
            let keep = tape.below(model.sealed.len() + 1);
            I::truncate(&mut real, &mut model, keep);
            log.push(format!("truncate {} where possible", keep));
        }
    }
    let open = !model.open.is_empty();
    ctx.nontrivial(model.sealed.len() >= 2 && open);
    let mini = miniserde::json::to_string(&real);
    let copies = read_back(&real)?;
    compare(&real, &model, "serialization of the original")?;
    for (name, copy) in &copies {
        compare(copy, &model, name)?;
        ensure_eq!(
            miniserde::json::to_string(copy),
            mini,
            "stable-text",
            "text of the copy by {}",
            name
        );
    }
    // The copies behave as the original from now on.
    let more = tape.below(12);
    let start = tape.pos();
    let mut tails = vec![];
    for (name, mut copy) in copies {
        let mut m = model.clone();
        // Each copy gets its own generated continuation.
        for _ in 0..more {
            if tape.chance(1, 6) {
                let keep = tape.below(m.sealed.len() + 1);
                I::truncate(&mut copy, &mut m, keep);
                compare(&copy, &m, &format!("truncate {} after {}", keep, name))?;
            }
            let text = step(tape, &mut copy, &mut m, &mut Ctx::default())?;
            compare(&copy, &m, &format!("{} after {}", text, name))?;
            tails.push(text);
        }
    }
    let _ = start;
    ctx.case(&(&log, &tails));
    ctx.describe(|| format!("{} => {}", log.join("; "), mini));
    Ok(())
}

fn serde_u32(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<u32>(tape, ctx)
}
fn serde_string(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<String>(tape, ctx)
}
fn serde_u64(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<u64>(tape, ctx)
}
fn serde_byte(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<u8>(tape, ctx)
}
fn serde_list(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<Vec<u32>>(tape, ctx)
}
fn serde_optional(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<Option<i64>>(tape, ctx)
}
fn serde_pair(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    serde_case::<(u32, u8)>(tape, ctx)
}
