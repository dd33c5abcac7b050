//! C13: precomputed context start states equal bit-by-bit training.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::{FixU32, FixI32, FixedPoint};
use demixer::fixed_point::types::FractOnlyU32;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::lut::LookUpTables;
use mc::*;

fn main() {
    let mut c = Check::new("C13", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let max = DeceleratingEstimator::MAX_COUNT as u64;
    c.stage("new_node_estimator", "all run lengths 0..=1000 x both bits: table entry against an estimator trained bit by bit and against the exact rational recurrence; the two bits are mirror images",
        max + 1, move |_, case, l| {
            let n = case as u16;
            l.describe(|| format!("run length {}", n));
            let mut both = vec![];
            for last in [Bit::Zero, Bit::One] {
                let mut e = DeceleratingEstimator::new();
                for _ in 0..n { e.update(!last, luts.d_estimator_rates()); }
                e.update(last, luts.d_estimator_rates());
                let t = luts.d_estimator_cache().for_new_node(last, n);
                ensure!(t == e, "last bit {}: table has {} x{}, training gives {} x{}", last,
                    t.prediction().raw(), t.usage_count(), e.prediction().raw(), e.usage_count());
                ensure!(t.usage_count() as u64 == (n as u64 + 1).min(max), "usage count {}", t.usage_count());
                // smoothed frequency: (1/2 + number of zeros) / (n + 2)
                let zeros = if last.is_0() { 1.0 } else { n as f64 };
                if (n as u64) < max {
                    let ideal = (0.5 + zeros) / (n as f64 + 2.0);
                    let err = (t.prediction().as_f64() - ideal).abs();
                    ensure!(err < (n as f64 + 3.0) * 0.5 / (1 << 22) as f64, "last bit {}: {} instead of {}", last, t.prediction().as_f64(), ideal);
                }
                both.push(t);
                l.transitions += n as u64 + 1;
            }
            ensure!(both[0].prediction().flip() == both[1].prediction(), "not mirrored");
            ensure!(both[0].usage_count() == both[1].usage_count(), "counts differ");
            l.states += 2; l.traces += 2;
            l.outcome(both[0].prediction().raw() as u64);
            Ok(())
        });
    c.stage("direct_predictions", "all run lengths 0..=1000: plain and logistic prediction against an estimator with one virtual observation trained on the run",
        max + 1, move |_, case, l| {
            let n = case as u16;
            l.describe(|| format!("run length {}", n));
            let mut e = DeceleratingEstimator::make(FractOnlyU32::HALF, 1);
            for _ in 0..n { e.update(Bit::Zero, luts.d_estimator_rates()); }
            let (sq, st) = luts.direct_predictions().for_0_bit_run(n);
            ensure!(sq == e.prediction(), "plain prediction {} instead of {}", sq.raw(), e.prediction().raw());
            ensure!(st == luts.stretch_lut().stretch(sq), "logistic prediction is not the stretched plain one");
            ensure!(luts.stretch_lut().stretch(sq.flip()) == st.neg(), "mirror image in the logistic domain");
            if (n as u64) < max - 1 {
                let ideal = (1.0 + n as f64) / (n as f64 + 2.0);
                ensure!((sq.as_f64() - ideal).abs() < (n as f64 + 3.0) * 0.5 / (1 << 22) as f64, "{} instead of {}", sq.as_f64(), ideal);
                ensure!((st.as_f64() - (ideal / (1.0 - ideal)).ln()).abs() < 0.01, "logistic {} for {}", st.as_f64(), ideal);
            }
            l.transitions += n as u64; l.states += 1; l.traces += 1;
            l.outcome(sq.raw() as u64);
            Ok(())
        });
    c.stage("new_node_cost", "all run lengths 0..=1100 and 65535: cost tracker against a tracker and estimator trained bit by bit on zeros then one and on ones then zero",
        1102, move |_, case, l| {
            let asked = if case == 1101 { 65535u64 } else { case };
            // run lengths are capped by the largest table index
            let n = asked.min(1023);
            l.describe(|| format!("run length {}", asked));
            for last in [Bit::One, Bit::Zero] {
                let mut e = DeceleratingEstimator::new();
                let mut t = CostTracker::INITIAL;
                for _ in 0..n {
                    let p: FinalProbability = e.prediction().to_fix_u32();
                    t = t.updated(p.estimate_cost(!last, luts.log2_lut()));
                    e.update(!last, luts.d_estimator_rates());
                }
                let p: FinalProbability = e.prediction().to_fix_u32();
                let t = t.updated(p.estimate_cost(last, luts.log2_lut()));
                let got = luts.cost_trackers_lut().for_new_node(asked as u16);
                ensure!(got == t, "table has {}, training with last bit {} gives {}", got.raw(), last, t.raw());
                l.transitions += n + 1;
                l.outcome(t.raw() as u64);
            }
            l.states += 1; l.traces += 2;
            Ok(())
        });
    c.stage("new_node_summaries", "all run lengths 0..=1000 x both bits: recent bits and bit runs of a new node against feeding the run bit by bit",
        max + 1, move |_, case, l| {
            let n = case as u16;
            l.describe(|| format!("run length {}", n));
            for last in [Bit::One, Bit::Zero] {
                let mut r = RecentBitsHistory::for_bit_run(!last, 0);
                let mut t = BitsRunsTracker::for_bit_run(!last, 0);
                for _ in 0..n { r = r.updated(!last); t = t.updated(!last); }
                ensure!(RecentBitsHistory::for_new_node(last, n) == r.updated(last), "recent bits");
                ensure!(BitsRunsTracker::for_new_node(last, n) == t.updated(last), "bit runs");
            }
            l.transitions += 2 * n as u64; l.states += 2; l.traces += 2;
            Ok(())
        });
    c.finish()
}
