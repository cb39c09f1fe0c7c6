//! Checks of the enumerator that combines alternatives during evaluation.
//! The reference computes tuple number `n` by positional arithmetic over the factor lengths.

use cartesian_product::CartesianProduct;
use pbt::{ensure, ensure_eq, Arm, CaseResult, Ctx, Fail, Property, Tape};
use std::fmt::Debug;

fn main() {
    pbt::main_with(properties())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "A case is a list of 1 to 14 non-empty factors, or of hundreds of them, or with \
                   one of thousands of elements (at most 200,000 combinations), added one by one, \
                   in parts or all at once, and enumerated to the end twice; combination \
                   n must consist of references to exactly the elements that positional \
                   arithmetic selects. The huge arm enumerates the first part of products of up to \
                   more than 2^64 combinations. Non-trivial: at least two factors with more than \
                   one element.",
            assumptions: &["every factor has at least one element"],
            arms: vec![
                Arm { name: "words", quick: 120_000 * 6, thorough: 3_000_000 * 6, tape: (1, 40), run: enumerate_u32 },
                Arm { name: "bytes", quick: 60_000 * 6, thorough: 1_500_000 * 6, tape: (1, 40), run: enumerate_u8 },
                Arm { name: "strings", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (1, 40), run: enumerate_string },
                Arm { name: "wide", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (1, 40), run: enumerate_wide },
                Arm { name: "many", quick: 600 * 6, thorough: 10_000 * 6, tape: (4, 40), run: enumerate_many },
                Arm { name: "no-size", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (1, 40), run: enumerate_unit },
                Arm { name: "long", quick: 6_000, thorough: 100_000, tape: (4, 40), run: enumerate_long },
                Arm { name: "very-long", quick: 200, thorough: 2_000, tape: (4, 40), run: enumerate_very_long },
                Arm { name: "crowd", quick: 15_000, thorough: 40_000, tape: (40, 900), run: enumerate_crowd },
                Arm { name: "huge", quick: 20_000, thorough: 300_000, tape: (40, 200), run: enumerate_huge },
                Arm { name: "neighbours", quick: 100_000, thorough: 3_000_000, tape: (10, 60), run: enumerate_neighbours },
            ],
            probes: vec![],
        },
        Property {
            id: "C27",
            rule: "A case is a sequence of up to 40 operations on one enumerator (add a factor, \
                   add several factors, advance, advance to the end, clear), with the current \
                   combination compared with the model after every operation. Non-trivial: \
                   factors were added to an enumerator that already had some or was used before \
                   a clear, and it was advanced afterwards.",
            assumptions: &["every factor has at least one element"],
            arms: vec![
                Arm { name: "history-words", quick: 120_000 * 6, thorough: 3_000_000 * 6, tape: (4, 120), run: history_u32 },
                Arm { name: "history-strings", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (4, 120), run: history_string },
                Arm { name: "history-wide", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (4, 120), run: history_wide },
                Arm { name: "history-large", quick: 30_000, thorough: 100_000, tape: (40, 300), run: history_large },
                Arm { name: "history-many", quick: 4_000, thorough: 100_000, tape: (400, 3000), run: history_many },
                Arm { name: "history-no-size", quick: 40_000 * 6, thorough: 1_000_000 * 6, tape: (4, 120), run: history_unit },
            ],
            probes: vec![],
        },
    ]
}

trait Elem: PartialEq + Debug {
    fn make(n: u32) -> Self;
}
impl Elem for u32 {
    fn make(n: u32) -> Self {
        n
    }
}
impl Elem for u8 {
    fn make(n: u32) -> Self {
        n as u8
    }
}
impl Elem for () {
    fn make(_: u32) -> Self {}
}
impl Elem for String {
    fn make(n: u32) -> Self {
        format!("v{}", n)
    }
}
impl Elem for [u64; 5] {
    fn make(n: u32) -> Self {
        [n as u64; 5]
    }
}

/// The current combination must be the elements at `digits`; addresses are compared first, so a
/// stray reference is reported without being followed.
fn compare<V: Elem>(
    product: &CartesianProduct<'_, V>,
    factors: &[&[V]],
    digits: &[usize],
    when: &str,
) -> CaseResult {
    let got = product.as_slice();
    ensure_eq!(got.len(), factors.len(), "width", "elements in the combination {}", when);
    for (i, (factor, &digit)) in factors.iter().zip(digits).enumerate() {
        let base = factor.as_ptr() as usize;
        let at = got[i] as *const V as usize;
        ensure!(
            at == &factor[digit] as *const V as usize,
            "element",
            "factor {} (of lengths {:?}) is at element {:?} {}, expected {:?}",
            i,
            factors.iter().map(|f| f.len()).collect::<Vec<_>>(),
            (at.wrapping_sub(base)) as f64 / std::mem::size_of::<V>() as f64,
            when,
            digits
        );
        ensure!(*got[i] == factor[digit], "value", "value of factor {} {}", i, when);
    }
    Ok(())
}

fn step(digits: &mut [usize], factors: &[usize]) -> bool {
    for (digit, &len) in digits.iter_mut().zip(factors) {
        *digit += 1;
        if *digit < len {
            return true;
        }
        *digit = 0;
    }
    false
}

fn lengths(tape: &mut Tape<'_>, limit: usize) -> Vec<usize> {
    let n = tape.range(1, 14);
    let mut total = 1;
    let mut out = vec![];
    for _ in 0..n {
        let len = match tape.weighted(&[4, 3, 2, 1]) {
            0 => tape.range(1, 3),
            1 => 1,
            2 => tape.range(2, 6),
            _ => tape.range(1, 40),
        };
        let len = if total * len > limit { 1 } else { len };
        total *= len;
        out.push(len);
    }
    out
}

fn storage<V: Elem>(lens: &[usize]) -> Vec<Vec<V>> {
    let mut n = 0;
    lens.iter()
        .map(|&len| {
            (0..len)
                .map(|_| {
                    n += 1;
                    V::make(n)
                })
                .collect()
        })
        .collect()
}

fn enumerate<V: Elem>(tape: &mut Tape<'_>, ctx: &mut Ctx, limit: usize) -> CaseResult {
    let mut lens = lengths(tape, limit);
    if tape.chance(1, 4) {
        lens.reverse();
    }
    let values = storage::<V>(&lens);
    let factors: Vec<&[V]> = values.iter().map(|v| &v[..]).collect();
    enumerate_factors(tape, ctx, &factors)
}

/// An iterator that yields the items and tells less about their number than it could.
fn shy<'a, T: 'a>(kind: usize, items: Vec<T>) -> Box<dyn Iterator<Item = T> + 'a> {
    let mut iter = items.into_iter();
    match kind {
        0 => Box::new(iter),
        1 => Box::new(iter.filter(|_| true)),
        2 => Box::new(std::iter::from_fn(move || iter.next())),
        _ => {
            let first = iter.next();
            Box::new(first.into_iter().chain(std::iter::from_fn(move || iter.next())))
        }
    }
}

fn enumerate_factors<V: Elem>(tape: &mut Tape<'_>, ctx: &mut Ctx, factors: &[&[V]]) -> CaseResult {
    let lens: Vec<usize> = factors.iter().map(|f| f.len()).collect();
    let mut product = CartesianProduct::new();
    let cleared = tape.chance(1, 3);
    if cleared {
        product.clear();
    }
    let how = tape.below(3);
    match how {
        0 => {
            for factor in factors {
                product.push(factor);
            }
        }
        1 => product.extend(shy(tape.below(4), factors.to_vec())),
        _ => {
            let mut rest = factors;
            while !rest.is_empty() {
                let n = tape.range(1, rest.len());
                let (now, later) = rest.split_at(n);
                match now {
                    [one] => product.push(one),
                    _ => product.extend(shy(tape.below(4), now.to_vec())),
                }
                rest = later;
            }
        }
    }
    let at_once = how == 1;
    let total: usize = lens.iter().product();
    let rounds = match total {
        ..=2 if tape.chance(1, 100) => 70_000,
        ..=16 if tape.chance(1, 10) => 300,
        ..=64 => tape.range(2, 6),
        _ => 2,
    };
    ctx.label_if(rounds > 256, "more than 256 rounds");
    for round in 0..rounds {
        let mut digits = vec![0; lens.len()];
        let mut seen = 0usize;
        loop {
            compare(&product, &factors, &digits, &format!("in round {} after {} advances", round, seen))?;
            seen += 1;
            let more = step(&mut digits, &lens);
            ensure_eq!(product.advance(), more, "end", "advance from combination {} of {}", seen, total);
            if !more {
                break;
            }
        }
        ensure_eq!(seen, total, "total", "combinations of {:?}", lens);
    }
    let long = lens.iter().filter(|&&l| l > 1).count();
    ctx.nontrivial(long >= 2);
    ctx.label_if(lens.len() > 8, "more than 8 factors");
    ctx.label_if(at_once, "all at once");
    ctx.label_if(lens.iter().any(|&l| l == 1) && long > 0, "single and several elements");
    ctx.case(&(&lens, how, cleared));
    ctx.label_if(lens.len() > 256, "more than 256 factors");
    ctx.label_if(lens.iter().any(|&l| l > 256), "more than 256 elements");
    ctx.label_if(lens.iter().any(|&l| l > 65536), "more than 65536 elements");
    ctx.label_if(total > 65536, "more than 65536 combinations");
    ctx.describe(|| format!("lengths {:?}, {}", lens, ["one by one", "at once", "in parts"][how]));
    Ok(())
}

fn enumerate_u32(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<u32>(tape, ctx, 512)
}
fn enumerate_u8(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<u8>(tape, ctx, 512)
}
fn enumerate_unit(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<()>(tape, ctx, 256)
}
fn enumerate_string(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<String>(tape, ctx, 256)
}
fn enumerate_wide(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<[u64; 5]>(tape, ctx, 256)
}
fn enumerate_many(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    enumerate::<u32>(tape, ctx, 40_000)
}

/// Factors of hundreds of elements among small ones.
fn enumerate_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let before = tape.below(4);
    let after = tape.below(4);
    let small = |tape: &mut Tape<'_>| match tape.below(3) {
        0 => 1,
        1 => 2,
        _ => tape.range(2, 4),
    };
    let mut lens: Vec<usize> = (0..before).map(|_| small(tape)).collect();
    lens.push(match tape.below(4) {
        0 => tape.range(60, 70),
        1 => tape.range(120, 135),
        2 => tape.range(250, 270),
        _ => tape.range(100, 2500),
    });
    lens.extend((0..after).map(|_| small(tape)));
    bound(&mut lens, 30_000);
    let values = storage::<u32>(&lens);
    let factors: Vec<&[u32]> = values.iter().map(|v| &v[..]).collect();
    enumerate_factors(tape, ctx, &factors)
}

fn bound(lens: &mut [usize], limit: usize) {
    let most = *lens.iter().max().unwrap();
    let mut total = most;
    let mut seen = false;
    for len in lens {
        if *len == most && !seen {
            seen = true;
        } else if total * *len > limit {
            *len = 1;
        } else {
            total *= *len;
        }
    }
}

/// A factor of tens of thousands of elements.
fn enumerate_very_long(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let mut lens: Vec<usize> = (0..tape.below(3)).map(|_| tape.range(1, 2)).collect();
    lens.push(if tape.chance(1, 2) { tape.range(65_530, 65_545) } else { tape.range(4_000, 70_000) });
    lens.extend((0..tape.below(3)).map(|_| tape.range(1, 2)));
    bound(&mut lens, 200_000);
    let values = storage::<u8>(&lens);
    let factors: Vec<&[u8]> = values.iter().map(|v| &v[..]).collect();
    enumerate_factors(tape, ctx, &factors)
}

/// Up to hundreds of factors, most with a single element.
fn enumerate_crowd(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let n = match tape.below(4) {
        0 => tape.range(15, 40),
        1 => tape.range(30, 140),
        2 => tape.range(250, 300),
        _ => tape.range(60, 800),
    };
    let mut lens = vec![1; n];
    for _ in 0..tape.range(1, 5) {
        let at = match tape.below(3) {
            0 => tape.below(n),
            1 => n - 1 - tape.below(n.min(4)),
            _ => tape.below(n.min(4)),
        };
        lens[at] = tape.range(2, 3);
    }
    let values = storage::<u32>(&lens);
    let factors: Vec<&[u32]> = values.iter().map(|v| &v[..]).collect();
    enumerate_factors(tape, ctx, &factors)
}

/// More combinations than can be counted with 32 or 64 bits; the first ones are compared.
fn enumerate_huge(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let mut lens: Vec<usize> = vec![];
    let mut bits = 0;
    let least = [30, 33, 62, 65, 130][tape.below(5)];
    while bits < least {
        let power = if lens.len() > 200 { 1 } else { tape.weighted(&[4, 6, 3, 2, 1, 1, 1, 1, 1]) };
        // Powers of two, so that a product that is cut off becomes 0; or something else.
        let len = if tape.chance(3, 4) { 1 << power } else { (1 << power) + tape.below(1 << power) };
        bits += power;
        lens.push(len);
    }
    let values = storage::<u32>(&lens);
    let factors: Vec<&[u32]> = values.iter().map(|v| &v[..]).collect();
    let mut product = CartesianProduct::new();
    for part in factors.chunks(tape.range(1, 20)) {
        match part {
            [one] => product.push(one),
            _ => product.extend(shy(tape.below(4), part.to_vec())),
        }
    }
    let mut digits = vec![0; lens.len()];
    let advances = tape.range(1, 700);
    for seen in 0..advances {
        compare(&product, &factors, &digits, &format!("after {} advances", seen))?;
        ensure!(step(&mut digits, &lens), "harness", "the end of {:?}", lens);
        ensure!(product.advance(), "end", "the end after {} advances of {:?}", seen + 1, lens);
    }
    compare(&product, &factors, &digits, "at last")?;
    ctx.nontrivial(lens.iter().filter(|&&l| l > 1).count() >= 2);
    ctx.label_if(bits >= 32, "2^32 combinations or more");
    ctx.label_if(bits >= 64, "2^64 combinations or more");
    ctx.case(&(&lens, advances));
    ctx.describe(|| format!("lengths {:?}, {} advances", lens, advances));
    Ok(())
}

/// Factors that are parts of one array: adjacent, overlapping, or the same.
fn enumerate_neighbours(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let all: Vec<u32> = (0..40).collect();
    let n = tape.range(1, 6);
    let mut factors: Vec<&[u32]> = vec![];
    let mut at = 0;
    let mut total = 1;
    for _ in 0..n {
        let mut len = tape.range(1, 5);
        if total * len > 600 {
            len = 1;
        }
        let from = match tape.below(4) {
            // Right after the last one, right before it, the same place, elsewhere.
            0 => at + factors.last().map_or(0, |f| f.len()),
            1 => at.saturating_sub(len),
            2 => at,
            _ => tape.below(30),
        };
        let from = from.min(all.len() - len);
        factors.push(&all[from..from + len]);
        at = from;
        total *= len;
    }
    enumerate_factors(tape, ctx, &factors)
}

/// As below, with factors of hundreds of elements and many factors.
fn history_large(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let lens: Vec<usize> = (0..24)
        .map(|_| match tape.weighted(&[6, 3, 2, 1]) {
            0 => 1,
            1 => tape.range(2, 4),
            2 => tape.range(50, 300),
            _ => tape.range(250, 3000),
        })
        .collect();
    history_of::<u32>(tape, ctx, lens, 80, 700, 40)
}

/// Hundreds of operations, mostly small.
fn history_many(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    let lens: Vec<usize> = (0..24).map(|_| tape.range(1, 3)).collect();
    history_of::<u32>(tape, ctx, lens, 2, 30, 2000)
}

fn history<V: Elem>(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    // All factors of the whole history, so that they outlive the enumerator.
    let mut lens = vec![];
    for _ in 0..24 {
        lens.push(match tape.weighted(&[3, 2, 1]) {
            0 => tape.range(1, 3),
            1 => 1,
            _ => tape.range(2, 9),
        });
    }
    history_of::<V>(tape, ctx, lens, 4, 12, 40)
}

fn history_of<V: Elem>(
    tape: &mut Tape<'_>,
    ctx: &mut Ctx,
    lens: Vec<usize>,
    together: usize,
    advances: usize,
    operations: usize,
) -> CaseResult {
    let values = storage::<V>(&lens);
    let pick = |tape: &mut Tape<'_>| -> &[V] { &values[tape.below(values.len())] };
    let mut product = CartesianProduct::new();
    let mut factors: Vec<&[V]> = vec![];
    let mut digits: Vec<usize> = vec![];
    let mut log: Vec<String> = vec![];
    let mut reused = false;
    let mut used = false;
    let mut nontrivial = false;
    while !tape.at_end() && log.len() < operations {
        let text = match tape.weighted(&[4, 3, 6, 2, 2]) {
            0 => {
                let factor = pick(tape);
                reused |= used || !factors.is_empty();
                product.push(factor);
                factors.push(factor);
                digits.push(0);
                format!("push {}", factor.len())
            }
            1 => {
                let n = tape.below(together + 1);
                let more: Vec<&[V]> = (0..n).map(|_| pick(tape)).collect();
                reused |= n > 0 && (used || !factors.is_empty());
                ctx.label_if(n > 0 && !factors.is_empty(), "several factors added to existing ones");
                product.extend(shy(tape.below(4), more.clone()));
                let text = format!("extend {:?}", more.iter().map(|f| f.len()).collect::<Vec<_>>());
                digits.extend(more.iter().map(|_| 0));
                factors.extend(more);
                text
            }
            2 => {
                let n = tape.range(1, advances);
                for _ in 0..n {
                    let lens: Vec<usize> = factors.iter().map(|f| f.len()).collect();
                    let more = step(&mut digits, &lens);
                    ensure_eq!(product.advance(), more, "end", "advance after {}", log.join("; "));
                    nontrivial |= reused && more;
                }
                format!("advance {}", n)
            }
            3 => {
                // To the end.
                let total = factors.iter().fold(1usize, |n, f| n.saturating_mul(f.len()));
                if total > 2000.max(advances * 10) {
                    continue;
                }
                let lens: Vec<usize> = factors.iter().map(|f| f.len()).collect();
                for n in 0.. {
                    if n > total {
                        return Err(Fail::new("end", format!("no end after {}", log.join("; "))));
                    }
                    let more = step(&mut digits, &lens);
                    ensure_eq!(product.advance(), more, "end", "advance to the end after {}", log.join("; "));
                    if !more {
                        break;
                    }
                }
                ctx.label("advance to the end");
                "advance to the end".to_string()
            }
            _ => {
                used |= !factors.is_empty();
                ctx.label_if(digits.iter().any(|&d| d > 0), "clear in the middle");
                product.clear();
                factors.clear();
                digits.clear();
                "clear".to_string()
            }
        };
        compare(&product, &factors, &digits, &format!("after {}; {}", log.join("; "), text))?;
        log.push(text);
    }
    ctx.nontrivial(nontrivial);
    ctx.case(&log);
    ctx.describe(|| log.join("; "));
    Ok(())
}

fn history_u32(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    history::<u32>(tape, ctx)
}
fn history_unit(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    history::<()>(tape, ctx)
}
fn history_string(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    history::<String>(tape, ctx)
}
fn history_wide(tape: &mut Tape<'_>, ctx: &mut Ctx) -> CaseResult {
    history::<[u64; 5]>(tape, ctx)
}
