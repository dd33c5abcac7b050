//! C12: bit-history summaries equal a replay of the bits they summarise.
use demixer::bit::Bit;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use mc::*;

const CAP: usize = 1000;

fn check_recent(r: &RecentBitsHistory, bits: &[bool]) -> CaseResult {
    let n = bits.len().min(15);
    let last = &bits[bits.len() - n..];
    let raw = last.iter().fold(1u16, |a, &b| (a << 1) | b as u16);
    ensure!(*r == RecentBitsHistory::new_unchecked(raw), "recent bits {:?} instead of {:04x}", r, raw);
    ensure!(r.is_valid(), "invalid");
    let ones = last.iter().filter(|&&b| b).count() as u8;
    let zeros = n as u8 - ones;
    ensure!(r.histogram() == (ones << 4 | zeros), "histogram {:02x} for {} ones {} zeros", r.histogram(), ones, zeros);
    let m = n.min(7);
    let short = last[n - m..].iter().fold(1u8, |a, &b| (a << 1) | b as u8);
    ensure!(r.last_7_bits() == short, "short form {:02x} instead of {:02x}", r.last_7_bits(), short);
    Ok(())
}

/// Lengths of the last three runs given as run lengths in order.
fn check_runs(t: &BitsRunsTracker, runs: &[usize], last_bit: bool) -> CaseResult {
    let k = runs.len();
    let at = |i: usize| if k > i { runs[k - 1 - i].min(CAP) } else { 0 };
    ensure!(t.last_bit().is_1() == last_bit, "last bit");
    ensure!(t.last_bit_run_length() as usize == at(0), "last run {} instead of {}", t.last_bit_run_length(), at(0));
    ensure!(t.opposite_bit_run_length() as usize == at(1), "opposite run {} instead of {}", t.opposite_bit_run_length(), at(1));
    ensure!(t.last_bit_previous_run_length() as usize == at(2), "previous run {} instead of {}", t.last_bit_previous_run_length(), at(2));
    ensure!(t.is_single_bit_run() == (k <= 1), "single-run flag with {} runs", k);
    Ok(())
}

fn to_runs(bits: &[bool]) -> Vec<usize> {
    let mut r: Vec<usize> = vec![];
    for i in 0..bits.len() {
        if i > 0 && bits[i] == bits[i - 1] { *r.last_mut().unwrap() += 1; } else { r.push(1); }
    }
    r
}

fn main() {
    let mut c = Check::new("C12", "model_checking");
    let depth = c.pick(19usize, 23);
    c.stage("bit_sequences", &format!("all bit sequences of length 1..={}, every prefix checked", depth),
        1 << 8, move |_, case, l| {
            let bits0: Vec<bool> = (0..8).map(|i| case >> (7 - i) & 1 == 1).collect();
            let mut bits = vec![];
            let mut r = RecentBitsHistory::for_bit_run(Bit::Zero, 0);
            let mut t = BitsRunsTracker::new();
            fn visit(r: RecentBitsHistory, t: BitsRunsTracker, bits: &mut Vec<bool>, depth: usize, l: &mut Local) -> CaseResult {
                l.states += 1; l.transitions += 2;
                check_recent(&r, bits).and_then(|_| check_runs(&t, &to_runs(bits), *bits.last().unwrap()))
                    .map_err(|e| format!("after {:?}: {}", bits, e))?;
                if bits.len() >= depth { l.traces += 1; return Ok(()); }
                for b in [false, true] {
                    bits.push(b);
                    visit(r.updated(b.into()), t.updated(b.into()), bits, depth, l)?;
                    bits.pop();
                }
                Ok(())
            }
            l.describe(|| format!("prefix {:?}", bits0));
            for (i, b) in bits0.iter().enumerate() {
                bits.push(*b);
                r = r.updated((*b).into()); t = t.updated((*b).into());
                if i < 7 {
                    check_recent(&r, &bits)?;
                    check_runs(&t, &to_runs(&bits), *b)?;
                }
            }
            visit(r, t, &mut bits, depth, l)
        });
    c.stage("recent_all_states", "every one of the 65535 valid recent-bits states x both next bits", 65535, |_, case, l| {
        let raw = case as u16 + 1;
        let n = 15 - raw.leading_zeros() as usize;
        let mut bits: Vec<bool> = (0..n).map(|i| raw >> (n - 1 - i) & 1 == 1).collect();
        let r = RecentBitsHistory::new_unchecked(raw);
        l.describe(|| format!("state {:04x}", raw));
        check_recent(&r, &bits)?;
        for b in [false, true] {
            bits.push(b);
            check_recent(&r.updated(b.into()), &bits)?;
            bits.pop();
            l.transitions += 1;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("direct_construction", "all run lengths 0..=2100 (and 65535) x both bits: direct construction equals feeding single bits", 2102, |_, case, l| {
        let n = if case == 2101 { 65535 } else { case as usize };
        l.describe(|| format!("run length {}", n));
        for b in [Bit::Zero, Bit::One] {
            let mut r = RecentBitsHistory::for_bit_run(b, 0);
            let mut t = BitsRunsTracker::new();
            for _ in 0..n { r = r.updated(b); t = t.updated(b); }
            ensure!(r == RecentBitsHistory::for_bit_run(b, n as u16), "recent bits of run {} of {}", n, b);
            let d = BitsRunsTracker::for_bit_run(b, n as u16);
            if n > 0 { ensure!(t == d, "runs of run {} of {}: {:?} {:?}", n, b, t, d); }
            ensure!(RecentBitsHistory::for_new_node(!b, n as u16) == r.updated(!b), "recent bits of new node {}", n);
            let nn = BitsRunsTracker::for_new_node(!b, n as u16);
            ensure!(nn == BitsRunsTracker::for_bit_run(b, n as u16).updated(!b), "runs of new node {}", n);
            if n > 0 {
                ensure!(nn == t.updated(!b), "runs of new node {}", n);
                check_runs(&nn, &[n, 1], b.is_0())?;
                check_runs(&t, &[n], b.is_1())?;
            }
            let bits = vec![b.is_1(); n];
            check_recent(&r, &bits)?;
            l.transitions += n as u64;
        }
        l.states += 2; l.traces += 2;
        Ok(())
    });
    let grid: Vec<usize> = if c.thorough() {
        (1..20).chain(30..34).chain(62..66).chain(126..130).chain(254..258).chain(510..514).chain(990..1030).chain(vec![2000, 2047, 2048, 2049, 5000]).collect()
    } else { vec![1, 2, 3, 7, 15, 16, 17, 31, 32, 255, 256, 511, 512, 513, 998, 999, 1000, 1001, 1002, 1022, 1023, 1024, 1025, 1999, 2001, 2048] };
    let g = grid.clone();
    let n = grid.len() as u64;
    c.stage("run_saturation", &format!("four consecutive runs, the first three with all length triples from {:?}, both starting bits, the fourth up to 1001 checked at each end", grid),
        n * n * n * 2, move |_, case, l| {
            let v = split(case, &[n, n, n, 2]);
            let lens = [g[v[0] as usize], g[v[1] as usize], g[v[2] as usize]];
            let mut b = v[3] == 1;
            l.describe(|| format!("runs {:?} starting with {}", lens, b));
            let mut t = BitsRunsTracker::new();
            let mut runs = vec![];
            for &len in &lens {
                for i in 0..len {
                    t = t.updated(b.into());
                    if i == 0 {
                        runs.push(1);
                        check_runs(&t, &runs, b)?;
                        runs.pop();
                    }
                }
                runs.push(len);
                check_runs(&t, &runs, b)?;
                l.transitions += len as u64;
                b = !b;
            }
            for k in [1usize, 999, 1000, 1001] {
                let mut u = t;
                for _ in 0..k { u = u.updated(b.into()); }
                runs.push(k);
                check_runs(&u, &runs, b)?;
                runs.pop();
            }
            l.states += 1; l.traces += 1;
            Ok(())
        });
    c.finish()
}
