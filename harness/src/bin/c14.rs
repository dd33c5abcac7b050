//! C14: the decelerating estimator stays sane along every bit history.
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::FixedPoint;
use demixer::fixed_point::types::FractOnlyU32;
use demixer::lut::estimator::DeceleratingEstimatorRates;
use mc::*;

const BITS: u32 = 22;
const ONE: i64 = 1 << BITS;
const MAX: u16 = 1000;

fn raw(e: &DeceleratingEstimator) -> i64 { (e.prediction().raw() >> (31 - BITS)) as i64 }

fn state(p: i64, count: u16) -> DeceleratingEstimator {
    DeceleratingEstimator::make(FractOnlyU32::new((p as u32) << (31 - BITS), 31), count)
}

/// One step from one state, both bits, plus the mirrored step.
fn step(p: i64, count: u16, rates: &DeceleratingEstimatorRates, l: &mut Local) -> CaseResult {
    let rate = rates[count].raw() as i64;
    let mut out = [0i64; 2];
    for bit in [Bit::Zero, Bit::One] {
        let mut e = state(p, count);
        debug_assert!(raw(&e) == p);
        e.update(bit, rates);
        let n = raw(&e);
        l.transitions += 1;
        ensure!(n > 0 && n < ONE, "state {} x{} bit {}: prediction {} out of range", p, count, bit, n);
        ensure!(e.prediction().raw() & ((1 << (31 - BITS)) - 1) == 0, "prediction granularity");
        ensure!(e.usage_count() == (count + 1).min(MAX), "state {} x{} bit {}: usage count {}", p, count, bit, e.usage_count());
        let target = if bit.is_0() { ONE } else { 0 };
        // ideal * 2^31; rounding to nearest gives at most half a unit
        let scaled = (p << 31) + (target - p) * rate;
        let err = ((n << 31) - scaled).abs();
        ensure!(err <= (1 << 30), "state {} x{} bit {}: {} is {} units off the configured step", p, count, bit, n, err as f64 / (1u64 << 31) as f64);
        if bit.is_0() { ensure!(n >= p, "state {} x{}: zero moves it down to {}", p, count, n); }
        else { ensure!(n <= p, "state {} x{}: one moves it up to {}", p, count, n); }
        out[bit.to_u8() as usize] = n;
    }
    let mut m = state(ONE - p, count);
    m.update(Bit::One, rates);
    ensure!(ONE - raw(&m) == out[0], "state {} x{}: zero gives {}, mirrored one gives {}", p, count, out[0], ONE - raw(&m));
    l.transitions += 1;
    l.states += 1;
    Ok(())
}

fn main() {
    let mut c = Check::new("C14", "model_checking");
    let rates = DeceleratingEstimatorRates::make_default();
    let rates = &rates;
    let counts: Vec<u16> = (1..=MAX).collect();
    let nc = counts.len() as u64;
    let chunk = 1i64 << 14;
    let cs = counts.clone();
    c.stage("all_states", &format!("every one of the 2^22-1 predictions x all {} usage counts 1..=1000 x both bits, default rates", nc),
        nc * (ONE / chunk) as u64, move |_, case, l| {
            let v = split(case, &[nc, (ONE / chunk) as u64]);
            l.describe(|| format!("count {} predictions from {}", cs[v[0] as usize], v[1] as i64 * chunk));
            let count = cs[v[0] as usize];
            for p in (v[1] as i64 * chunk).max(1)..(v[1] as i64 + 1) * chunk {
                step(p, count, rates, l)?;
            }
            l.traces += 1;
            Ok(())
        });
    c.stage("start_state", "the fresh state", 1, move |_, _, l| {
        let e = DeceleratingEstimator::new();
        ensure!(raw(&e) == ONE / 2 && e.usage_count() == 0, "fresh estimator is {} x{}", raw(&e), e.usage_count());
        l.traces += 1;
        step(ONE / 2, 0, rates, l)
    });
    c.stage("made", "estimators made from zero, one and other probabilities with every count 0..=1100: the nearest probability strictly between zero and one, or refused", 1101, move |_, case, l| {
        let count = case as u16;
        l.describe(|| format!("count {}", count));
        let grain = 1u32 << (31 - BITS);
        for at in [0u32, 1, 2, 3, (ONE / 2 - 1) as u32, (ONE / 2) as u32, (ONE / 2 + 1) as u32, (ONE - 2) as u32, (ONE - 1) as u32, ONE as u32] {
            for off in [0, 1, grain / 2, grain - 1] {
                if at == ONE as u32 && off > 0 { continue; }
                let made = guarded(|| Ok(DeceleratingEstimator::make(
                    if at == ONE as u32 { FractOnlyU32::ONE_UNSAFE } else { FractOnlyU32::new(at * grain + off, 31) }, count)));
                l.states += 1; l.transitions += 1;
                let legal = off == 0 && count <= MAX;
                ensure!(made.is_ok() == legal, "an estimator of {} + {}/{} units and count {} is {}", at, off, grain, count, if legal { "refused" } else { "accepted" });
                if let Ok(e) = made {
                    let want = (at as i64).max(1).min(ONE - 1);
                    ensure!(raw(&e) == want && e.prediction().raw() % grain == 0 && e.usage_count() == count,
                        "made of {} units and count {}: {} units, count {}", at, count, raw(&e), e.usage_count());
                    // count 0 is only reachable with one half
                    if count > 0 || want == ONE / 2 { step(want, count, rates, l)?; }
                }
            }
        }
        l.traces += 1;
        Ok(())
    });
    let other: Vec<(u32, u32)> = vec![(1, 3), (2, 3), (2, 5), (1, 16), (3, 4), (0, 16), (0, 2)];
    let n = other.len() as u64;
    let stride = c.pick(211i64, 17);
    c.stage("other_rates", &format!("rate tables {:?} x counts 0..=1000 x predictions 1.., stride {} and both ends", other, stride),
        n * 1001, move |_, case, l| {
            let v = split(case, &[n, 1001]);
            let (f, a) = other[v[0] as usize];
            let count = v[1] as u16;
            l.describe(|| format!("rates {}/{} count {}", f, a, count));
            let r = DeceleratingEstimatorRates::make(f, a);
            ensure!((r[count].raw() as i64 - (1i64 << 31) / (count as i64 * f as i64 + a as i64)).abs() <= 1, "configured rate of count {} is {}", count, r[count].as_f64());
            let mut p = 4; // one step at the largest rate stays inside
            while p < ONE - 4 { step(p, count, &r, l)?; p += stride; }
            step(ONE - 4, count, &r, l)?;
            l.traces += 1;
            Ok(())
        });
    for count in 0..1001u16 {
        // the default table itself: one part in count + 2
        if (rates[count].raw() as i64 - (1i64 << 31) / (count as i64 + 2)).abs() > 1 {
            let got = rates[count].as_f64();
            c.stage("default_rates", "default rates are 1/(count+2)", 1, move |_, _, _| Err(format!("rate of count {} is {}", count, got)));
            break;
        }
    }
    let depth = c.pick(22u32, 25);
    c.stage("histories", &format!("all bit histories of length up to {} from the fresh state: range, count, and the prediction within rounding of (1/2 + zeros)/(n + 1)", depth),
        1 << 8, move |_, case, l| {
            l.describe(|| format!("first eight bits {:08b}", case));
            fn visit(e: DeceleratingEstimator, m: DeceleratingEstimator, n: u32, zeros: u32, depth: u32, case: u64, rates: &DeceleratingEstimatorRates, l: &mut Local) -> CaseResult {
                let ideal = (0.5 + zeros as f64) / (n as f64 + 1.0);
                let err = (e.prediction().as_f64() - ideal).abs() * ONE as f64;
                ensure!(err <= 0.5 * n as f64 + 0.01, "{} bits, {} zeros: {} instead of {}", n, zeros, e.prediction().as_f64(), ideal);
                ensure!(e.usage_count() as u32 == n, "count {} after {} bits", e.usage_count(), n);
                ensure!(m.prediction() == e.prediction().flip() && m.usage_count() == e.usage_count(), "inverted history is not mirrored");
                l.states += 1;
                if n == depth { l.traces += 1; return Ok(()); }
                for b in [false, true] {
                    if n < 8 && (case >> (7 - n) & 1 == 1) != b { continue; }
                    let (mut a, mut i) = (e, m);
                    a.update(b.into(), rates);
                    i.update((!b).into(), rates);
                    l.transitions += 2;
                    visit(a, i, n + 1, zeros + !b as u32, depth, case, rates, l)?;
                }
                Ok(())
            }
            visit(DeceleratingEstimator::new(), DeceleratingEstimator::new(), 0, 0, depth, case, rates, l)
        });
    let per = c.pick(8u32, 11);
    let npat: u64 = (1..=per).map(|k| 1u64 << k).sum();
    c.stage("long_histories", &format!("all periodic histories of period 1..={} over 3000 bits", per),
        npat, move |_, case, l| {
            let w = word(case + 1, 2);
            l.describe(|| format!("period {:?}", w));
            let mut e = DeceleratingEstimator::new();
            let mut m = DeceleratingEstimator::new();
            let mut zeros = 0;
            for n in 1..=3000u32 {
                let b = w[n as usize % w.len()] == 1;
                e.update(b.into(), rates);
                m.update((!b).into(), rates);
                zeros += !b as u32;
                ensure!(raw(&e) > 0 && raw(&e) < ONE, "out of range after {} bits", n);
                ensure!(m.prediction() == e.prediction().flip(), "not mirrored after {} bits", n);
                ensure!(e.usage_count() as u32 == n.min(1000), "count {} after {} bits", e.usage_count(), n);
                if n <= 1000 {
                    let ideal = (0.5 + zeros as f64) / (n as f64 + 1.0);
                    let err = (e.prediction().as_f64() - ideal).abs() * ONE as f64;
                    ensure!(err <= 0.5 * n as f64 + 0.01, "{} bits, {} zeros: {} instead of {}", n, zeros, e.prediction().as_f64(), ideal);
                    l.max("max_tracking_error_ulps", err as u64);
                }
            }
            l.states += 3000; l.transitions += 6000; l.traces += 1;
            l.outcome(raw(&e) as u64);
            Ok(())
        });
    c.assume("usage count 0 is reachable only in the fresh state (prediction one half)");
    c.finish()
}
