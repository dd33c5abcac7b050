//! C16: cost trackers are saturating exponential averages that never wrap.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::fixed_point::types::{FractOnlyU32, Log2D};
use demixer::history::tree::node::CostTrackers;
use demixer::lut::LookUpTables;
use mc::*;

fn cost(c: i32) -> Log2D { Log2D::new(c, Log2D::FRACTIONAL_BITS) }

/// Checks the whole column of states for one cost.
fn column(c: i32, l: &mut Local) -> CaseResult {
    let mut prev = 0u16;
    for s in 0..=65535u32 {
        let r = CostTracker::new(s as u16).updated(cost(c)).raw();
        // 16 * (s - s/16 + c), saturated
        let exact16 = (15 * s as i64 + 16 * c as i64).min(65535 * 16);
        let err = (r as i64 * 16 - exact16).abs();
        // rounding to nearest; the top eight states round down
        ensure!(err <= 8 || (s >= 65528 && err < 16), "state {} cost {}: {} instead of {}", s, c, r, exact16 as f64 / 16.0);
        ensure!(s == 0 || r >= prev, "state {} cost {}: {} is below {} of the cheaper tracker", s, c, r, prev);
        prev = r;
    }
    l.states += 65536; l.transitions += 65536; l.traces += 1;
    l.outcome(mix(c as u64, prev as u64));
    Ok(())
}

fn main() {
    let mut c = Check::new("C16", "model_checking");
    let costs: Vec<i32> = (1..=65535).collect();
    let cs = costs.clone();
    c.stage("all_states", &format!("all 65536 tracker states x all {} costs", costs.len()),
        costs.len() as u64, move |_, case, l| {
            l.describe(|| format!("cost {}", cs[case as usize]));
            column(cs[case as usize], l)
        });
    c.stage("monotone_in_cost", "all 65536 states x adjacent costs of a grid: a higher cost never gives a cheaper tracker", 65536, move |_, case, l| {
        l.describe(|| format!("state {}", case));
        let mut prev = 0;
        let mut k = 1;
        while k <= 65535 {
            let r = CostTracker::new(case as u16).updated(cost(k)).raw();
            ensure!(r >= prev, "cost {}", k);
            prev = r;
            l.transitions += 1;
            k += 257;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    let starts = [0u16, 1, 15, 16, 2048, 32768, 65527, 65528, 65535, CostTracker::INITIAL.raw()];
    c.stage("convergence", "all constant costs 1..=65535 from 10 states, 600 steps: ends within one decay unit of 16 times the cost (or saturated)", 65535, move |_, case, l| {
        let k = case as i32 + 1;
        l.describe(|| format!("constant cost {}", k));
        for &s in &starts {
            let mut t = CostTracker::new(s);
            for _ in 0..600 { t = t.updated(cost(k)); }
            let r = t.raw() as i64;
            let ideal = (16 * k as i64).min(65535);
            ensure!((r - ideal).abs() <= 16, "from {}: {} instead of {}", s, r, ideal);
            l.transitions += 600; l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    ensure_initial(&mut c);
    let luts = LookUpTables::new();
    let luts = &luts;
    let stride = c.pick(4001u64, 127);
    let n = (1u64 << 31) / stride;
    c.stage("updated_on_bit", &format!("probabilities 1/2^31 .. with stride {}, both bits, 12 states: update uses the cost of the observed bit, the pair of trackers is updated independently", stride),
        n, move |_, case, l| {
            let p = FractOnlyU32::new((case * stride + 1) as u32, 31);
            let q = FractOnlyU32::new(((case * 7919 * stride) % ((1 << 31) - 1) + 1) as u32, 31);
            l.describe(|| format!("probability {} / {}", p.raw(), q.raw()));
            let fp: FinalProbability = p.to_fix_u32();
            let fq: FinalProbability = q.to_fix_u32();
            for s in [0u16, 1, 7, 8, 500, 2048, 20000, 32768, 50000, 65520, 65530, 65535] {
                for bit in [Bit::Zero, Bit::One] {
                    let t = CostTracker::new(s);
                    let u = CostTracker::new(s / 3 + 1);
                    let a = t.updated_on_bit(p, bit, luts);
                    let e = t.updated(fp.estimate_cost(bit, luts.log2_lut()));
                    ensure!(a == e, "state {} bit {}: {} instead of {}", s, bit, a.raw(), e.raw());
                    let ideal = 15.0 / 16.0 * s as f64 - 2048.0 * (if bit.is_0() { fp.as_f64() } else { 1.0 - fp.as_f64() }).log2();
                    ensure!((a.raw() as f64 - ideal.min(65535.0)).abs() < 4.0, "state {} bit {}: {} instead of {}", s, bit, a.raw(), ideal);
                    let pair = CostTrackers::new(t, u).updated(p, q, bit, luts);
                    ensure!(pair.stationary() == a, "stationary tracker of the pair");
                    ensure!(pair.non_stationary() == u.updated(fq.estimate_cost(bit, luts.log2_lut())), "non-stationary tracker of the pair");
                    l.transitions += 3;
                }
            }
            l.states += 12; l.traces += 1;
            Ok(())
        });
    c.finish()
}

fn ensure_initial(c: &mut Check) {
    c.stage("initial", "the initial trackers stand for one bit per bit", 1, |_, _, l| {
        l.states += 1;
        ensure!(CostTracker::INITIAL.raw() == 16 * 2048, "initial tracker {}", CostTracker::INITIAL.raw());
        ensure!(CostTrackers::DEFAULT == CostTrackers::new(CostTracker::INITIAL, CostTracker::INITIAL), "default pair");
        Ok(())
    });
}
