//! C15: the fixed-speed estimator never leaves (0,1) and always moves right.
use demixer::bit::Bit;
use demixer::estimators::fixed_speed::FixedSpeedEstimator;
use demixer::fixed_point::FixedPoint;
use mc::*;

fn main() {
    let mut c = Check::new("C15", "model_checking");
    c.stage("all_states", "all 65535 states x both bits", 65535, |_, case, l| {
        let s = case as u16 + 1;
        l.describe(|| format!("state {}", s));
        let p = FixedSpeedEstimator::new(s).prediction().raw() as i64;
        ensure!(p > 0 && p < 1 << 31, "prediction {}", p);
        ensure!(p == (s as i64) << 15, "state {} predicts {}", s, p);
        for bit in [Bit::Zero, Bit::One] {
            let mut e = FixedSpeedEstimator::new(s);
            e.update(bit);
            let q = e.prediction().raw() as i64;
            ensure!(q > 0 && q < 1 << 31, "bit {}: prediction {}", bit, q);
            let target = if bit.is_0() { 1i64 << 31 } else { 0 };
            let ideal = p as f64 + (target - p) as f64 / 128.0;
            ensure!((q as f64 - ideal).abs() < (1 << 15) as f64, "bit {}: {} instead of {}", bit, q, ideal);
            if bit.is_0() { ensure!(q >= p, "zero moves down"); } else { ensure!(q <= p, "one moves up"); }
            // nonzero remaining distance of at least 128 units must move
            if (target - p).abs() >= 128 << 15 { ensure!(q != p, "bit {}: stuck at {}", bit, p); }
            l.transitions += 1;
            l.outcome(mix(s as u64, q as u64));
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.stage("default_state", "the default state", 1, |_, _, l| {
        ensure!(FixedSpeedEstimator::default().prediction().raw() == 1 << 30, "default is not one half");
        l.states += 1;
        Ok(())
    });
    let depth = c.pick(16u32, 20);
    let starts = [1u16, 2, 127, 128, 129, 32768, 65407, 65408, 65409, 65534, 65535];
    c.stage("histories", &format!("all bit histories of length {} from {} states, and 3000 equal bits from each", depth, starts.len()),
        starts.len() as u64 * (1 << 6), move |_, case, l| {
            let s = starts[(case >> 6) as usize];
            l.describe(|| format!("start {} prefix {:06b}", s, case & 63));
            for tail in 0..1u64 << (depth - 6) {
                let h = (case & 63) << (depth - 6) | tail;
                let mut e = FixedSpeedEstimator::new(s);
                let mut f = (s as f64) / 65536.0;
                for i in 0..depth {
                    let b = h >> (depth - 1 - i) & 1 == 1;
                    e.update(b.into());
                    f += ((if b { 0.0 } else { 1.0 }) - f) / 128.0;
                    let q = e.prediction().as_f64();
                    ensure!(q > 0.0 && q < 1.0, "left the open interval");
                    ensure!((q - f).abs() < (i + 1) as f64 / 65536.0, "step {}: {} instead of {}", i, q, f);
                }
                l.transitions += depth as u64; l.states += 1;
            }
            for b in [Bit::Zero, Bit::One] {
                let mut e = FixedSpeedEstimator::new(s);
                let mut last = e.prediction();
                for _ in 0..3000 {
                    e.update(b);
                    let q = e.prediction();
                    ensure!(q.raw() > 0 && q.raw() < 1 << 31, "left the open interval");
                    ensure!(if b.is_0() { q >= last } else { q <= last }, "moved away from the bit");
                    last = q;
                }
                let q = last.as_f64();
                ensure!(if b.is_0() { q > 0.99 } else { q < 0.01 }, "3000 bits {} lead only to {}", b, q);
            }
            l.traces += 1;
            Ok(())
        });
    c.finish()
}
