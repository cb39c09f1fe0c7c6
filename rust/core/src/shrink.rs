//! Reduces a failing tape.

/// `fails` tells whether a tape still fails in the same way.
pub fn shrink(mut tape: Vec<u32>, mut budget: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut attempt = |candidate: &[u32], budget: &mut usize| -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        fails(candidate)
    };
    loop {
        let before = tape.clone();
        // Cut the tail.
        let mut cut = tape.len() / 2;
        while cut > 0 {
            while tape.len() >= cut && attempt(&tape[..tape.len() - cut], &mut budget) {
                tape.truncate(tape.len() - cut);
            }
            cut /= 2;
        }
        // Delete or zero chunks.
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut start = 0;
            while start < tape.len() {
                let end = (start + size).min(tape.len());
                let mut candidate = tape.clone();
                candidate.drain(start..end);
                if attempt(&candidate, &mut budget) {
                    tape = candidate;
                    continue;
                }
                if tape[start..end].iter().any(|&v| v != 0) {
                    let mut candidate = tape.clone();
                    candidate[start..end].iter_mut().for_each(|v| *v = 0);
                    if attempt(&candidate, &mut budget) {
                        tape = candidate;
                    }
                }
                start = end;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Make single values smaller.
        for i in 0..tape.len() {
            let mut lo = 0u32;
            let mut hi = tape[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut candidate = tape.clone();
                candidate[i] = mid;
                if attempt(&candidate, &mut budget) {
                    tape = candidate;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if hi - lo < 1 << 16 {
                    break;
                }
            }
        }
        while tape.last() == Some(&0) {
            if attempt(&tape[..tape.len() - 1], &mut budget) {
                tape.pop();
            } else {
                break;
            }
        }
        if tape == before || budget == 0 {
            return tape;
        }
    }
}
