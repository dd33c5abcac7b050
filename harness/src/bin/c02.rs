//! C02: encoded length never exceeds the information content plus a constant.
//!
//! Oracle: every coding step narrows the interval to at least
//! (p - ulp)/1 of its width (p one ulp above zero: at least p/2), the number of
//! bytes is 4 plus the number of byte shifts, and the width stays below 2^31,
//! so bytes <= 4 + sum(cost)/8 with the per-event costs below.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
use coder::*;
use mc::*;

fn cost(e: Ev) -> f64 {
    let one = P_ONE as f64;
    match e {
        Ev::Bit(p, false) =>
            if p == 1 { 23.0 + 1.0 } else { -((p as f64 - 1.0) / one).log2() },
        // no rounding loss: the upper part is rounded up
        Ev::Bit(p, true) => -((one - p as f64) / one).log2(),
        Ev::Rare(true) => 31.0,
        Ev::Rare(false) => -((one - 1.0) / one).log2(),
    }
}

fn check(evs: &[Ev], l: &mut Local) -> CaseResult {
    let code = encode(evs, Fault::None);
    let bits: f64 = evs.iter().map(|&e| cost(e)).sum();
    let bound = 4.0 + bits / 8.0 + 1e-6;
    l.states += 1;
    l.transitions += evs.len() as u64;
    l.traces += 1;
    l.outcome(code.len() as u64);
    if evs.len() > 100 {
        l.max("max_permille_of_bound_used_long", (code.len() as f64 / bound * 1000.0) as u64);
    }
    ensure!(code.len() as f64 <= bound,
        "{} bytes for {} events of {:.3} bits (bound {:.3} bytes)",
        code.len(), evs.len(), bits, bound);
    // The first four bytes are part of the constant: never fewer than that.
    ensure!(code.len() >= 4, "only {} bytes", code.len());
    Ok(())
}

fn main() {
    let mut c = Check::new("C02", "model_checking");
    let probs: Vec<u32> = vec![1 << 22, 1, P_ONE - 1, 5592405, 2];
    let mut a = vec![];
    for &p in &probs { a.push(Ev::Bit(p, false)); a.push(Ev::Bit(p, true)); }
    a.push(Ev::Rare(false));
    a.push(Ev::Rare(true));
    let depth = c.pick(6, 7);
    let al = a.clone();
    c.stage("sequences", &format!("all event sequences of length 0..={} over {} symbols (probabilities {:?}/2^23 with both bits, rare flag)", depth, a.len(), probs),
        words_up_to(a.len() as u64, depth), move |_, case, l| {
            let evs: Vec<Ev> = word(case, al.len() as u64).iter().map(|&i| al[i]).collect();
            l.describe(|| format!("{:?}", evs));
            check(&evs, l)
        });

    let mut grid: Vec<u32> = vec![];
    for k in 0..23u32 { for d in [-1i64, 0, 1] {
        for base in [1i64 << k, (1i64 << 23) - (1i64 << k), 3i64 << k >> 1] {
            let v = base + d;
            if v >= 1 && v <= (1 << 23) - 1 { grid.push(v as u32); }
        } } }
    for k in 1..16 { grid.push(k * (P_ONE / 16)); grid.push(k * (P_ONE / 17)); }
    grid.sort(); grid.dedup();
    let g = grid.clone();
    let reps = c.pick(3000usize, 30000);
    let npat: u64 = (1..=4u32).map(|k| 1u64 << k).sum();
    c.stage("long_periodic", &format!("{} probabilities x all bit patterns of period 1..=4 x rare flags every 0/5/64 symbols (never raised, or every 100th raised), {} symbols", grid.len(), reps),
        grid.len() as u64 * npat * 5, move |_, case, l| {
            let v = split(case, &[g.len() as u64, npat, 5]);
            let p = g[v[0] as usize];
            let w = word(v[1] + 1, 2);
            let (rare, raise) = [(0usize, 0usize), (5, 0), (64, 0), (5, 100), (64, 10)][v[2] as usize];
            let mut evs = Vec::with_capacity(reps);
            let mut flags = 0;
            for i in 0..reps {
                if rare > 0 && i % rare == rare - 1 {
                    flags += 1;
                    evs.push(Ev::Rare(raise > 0 && flags % raise == 0));
                } else { evs.push(Ev::Bit(p, w[i % w.len()] == 1)); }
            }
            l.describe(|| format!("p={} pattern {:?} rare_every {} raised_every {} x{}", p, w, rare, raise, reps));
            check(&evs, l)
        });

    // Pairs of probabilities: the width left by one step meets the next one.
    let g = grid.clone();
    let n = grid.len() as u64;
    let reps = c.pick(96usize, 512);
    c.stage("pairs", &format!("all ordered pairs of {} probabilities, all 4 bit choices, repeated {} times", n, reps),
        n * n * 4, move |_, case, l| {
            let v = split(case, &[n, n, 4]);
            let (p, q) = (g[v[0] as usize], g[v[1] as usize]);
            let mut evs = Vec::with_capacity(2 * reps);
            for _ in 0..reps {
                evs.push(Ev::Bit(p, v[2] & 1 == 1));
                evs.push(Ev::Bit(q, v[2] & 2 == 2));
            }
            l.describe(|| format!("({} {}) ({} {}) x{}", p, v[2] & 1, q, v[2] >> 1, reps));
            check(&evs, l)
        });

    // Rare flags only, and flags between cheap symbols.
    let m = c.pick(200_000usize, 4_000_000);
    c.stage("rare_flags", &format!("runs of up to {} unraised flags alone or interleaved with one symbol of 5 probabilities", m),
        11, move |_, case, l| {
            let mut evs = Vec::with_capacity(m);
            for i in 0..m {
                if case == 0 || i % 2 == 0 { evs.push(Ev::Rare(false)); }
                else {
                    let k = (case - 1) as usize;
                    evs.push(Ev::Bit([1 << 22, P_ONE - 1, P_ONE - 2, P_ONE - 1000, 1][k % 5], k >= 5));
                }
            }
            l.describe(|| format!("rare variant {}", case));
            check(&evs, l)
        });
    c.assume("floating-point sum of costs with 1e-6 byte slack");
    c.finish()
}
