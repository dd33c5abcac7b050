//! C17: probability domain conversions are accurate, monotone, mirrored inverses.
use demixer::fixed_point::{FixI32, FixedPoint};
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::lut::squash::SquashLut;
use demixer::lut::stretch::StretchLut;
use mc::*;

const ONE: u32 = 1 << 31;
const LIM: i32 = 12 << 21;

fn main() {
    let mut c = Check::new("C17", "model_checking");
    let stretch = StretchLut::new(false);
    let squash = SquashLut::new(&stretch, false);
    let (stretch, squash) = (&stretch, &squash);
    let min_exact = StretchLut::minimum_accurately_mapped_input().raw();
    c.stage("declared_limit", "accurately mapped range reaches down to at most 2^-17", 1, |_, _, l| {
        l.states += 1;
        ensure!(min_exact <= 1 << 14, "minimum accurately mapped input {}", min_exact);
        Ok(())
    });
    // --- stretch: the whole domain
    let chunk = 1u32 << 16;
    let acc_stride = 1u32;
    c.stage("stretch_all", "every one of the 2^31-1 plain probabilities: bounds, monotonicity against the predecessor, exact mirror image; accuracy of each",
        (ONE / chunk) as u64, move |_, case, l| {
            let from = (case as u32 * chunk).max(1);
            let to = case as u32 * chunk + chunk - 1;
            l.describe(|| format!("probabilities {}..={}", from, to));
            let mut prev = if from > 1 { stretch.stretch(FractOnlyU32::new(from - 1, 31)).raw() } else { i32::min_value() };
            let mut worst = 0f64;
            for p in from..=to {
                let f = FractOnlyU32::new(p, 31);
                let s = stretch.stretch(f);
                let r = s.raw();
                ensure!(s.within_bounds(), "stretch({}) = {} out of bounds", p, r);
                ensure!(r >= prev.saturating_sub(1), "stretch({}) = {} below {} of the predecessor", p, r, prev);
                prev = r;
                let m = stretch.stretch(f.flip()).raw();
                ensure!(m == -r, "stretch({}) = {} but mirrored {}", p, r, m);
                if p % acc_stride == 0 || p == from || p == to {
                    let lo = min_exact.min(p);
                    let _ = lo;
                    let q = (p as f64).max(min_exact as f64).min((ONE - min_exact) as f64) / ONE as f64;
                    let e = (s.as_f64() - (q / (1.0 - q)).ln()).abs();
                    // linear interpolation error: below 2^-9 levels the cell
                    // is a whole minimum unit wide, so it grows there
                    let t = q.min(1.0 - q) / (min_exact as f64 / ONE as f64);
                    let t = t.floor();
                    let tol = 3e-6 + if t < 512.0 { 0.125 / (t * t) } else { 0.0 };
                    if t > 256.0 { worst = worst.max(e); }
                    ensure!(e <= tol, "stretch({}) = {} off by {}", p, s.as_f64(), e);
                }
                l.transitions += 2;
            }
            l.max("max_error_e9_upper_levels", (worst * 1e9) as u64);
            l.states += (to - from + 1) as u64; l.traces += 1;
            l.outcome(prev as u64);
            Ok(())
        });
    // --- squash: the whole domain
    let n = (2 * LIM as u64 + 1 + chunk as u64 - 1) / chunk as u64;
    c.stage("squash_all", "every one of the 50331649 logistic probabilities within +-12: strictly inside (0,1), monotone within one unit, exactly mirrored, close to the logistic function, and stretched back",
        n, move |_, case, l| {
            let from = -LIM as i64 + case as i64 * chunk as i64;
            let to = (from + chunk as i64 - 1).min(LIM as i64);
            l.describe(|| format!("logistic {}..={}", from, to));
            let mut prev = if from > -LIM as i64 { squash.squash(StretchedProbD::new(from as i32 - 1, 21)).raw() } else { 0 };
            let (mut worst, mut worst_back, mut worst_mirror) = (0f64, 0f64, 0i64);
            for x in from..=to {
                let s = StretchedProbD::new(x as i32, 21);
                let p = squash.squash(s);
                let r = p.raw();
                ensure!(r > 0 && r < ONE, "squash({}) = {}", x, r);
                ensure!(r + 1 >= prev, "squash({}) = {} below {} of the predecessor", x, r, prev);
                prev = r;
                let m = squash.squash(s.neg());
                let d = (m.raw() as i64 - (ONE - r) as i64).abs();
                worst_mirror = worst_mirror.max(d);
                ensure!(d == 0, "squash({}) = {}, mirrored {}", x, r, m.raw());
                let v = s.as_f64();
                let e = (p.as_f64() - 1.0 / (1.0 + (-v).exp())).abs();
                worst = worst.max(e);
                ensure!(e < 2.5e-6, "squash({}) = {} off by {}", v, p.as_f64(), e);
                // relative accuracy of the smaller side inside the accurate range
                let q = r.min(ONE - r);
                if q >= 256 * min_exact {
                    let back = stretch.stretch(p).as_f64();
                    worst_back = worst_back.max((back - v).abs());
                    ensure!((back - v).abs() < 1e-4, "stretch(squash({})) = {}", v, back);
                } else if q >= 4 * min_exact {
                    let back = stretch.stretch(p).as_f64();
                    ensure!((back - v).abs() < 0.03, "stretch(squash({})) = {}", v, back);
                }
                l.transitions += 2;
            }
            l.max("max_error_e9", (worst * 1e9) as u64);
            l.max("max_back_error_e9", (worst_back * 1e9) as u64);
            l.max("max_mirror_diff", worst_mirror as u64);
            l.states += (to - from + 1) as u64; l.traces += 1;
            l.outcome(prev as u64);
            Ok(())
        });
    let stride = 1u64;
    let n = (ONE as u64 / stride + 65535) / 65536;
    c.stage("round_trip", "squash(stretch(p)) for every plain probability: within the declared precision",
        n, move |_, case, l| {
            l.describe(|| format!("block {}", case));
            let mut worst = 0f64;
            for k in case * 65536..(case + 1) * 65536 {
                let p = k * stride + 1;
                if p >= ONE as u64 { break; }
                let f = FractOnlyU32::new(p as u32, 31);
                let b = squash.squash(stretch.stretch(f));
                let e = (b.as_f64() - f.as_f64()).abs();
                worst = worst.max(e);
                ensure!(b.raw() > 0 && b.raw() < ONE, "leaves (0,1)");
                ensure!(e < 1e-5, "squash(stretch({})) = {}", f.as_f64(), b.as_f64());
                l.transitions += 2; l.states += 1;
            }
            l.max("max_error_e9", (worst * 1e9) as u64);
            l.traces += 1;
            Ok(())
        });
    c.stage("interval_index", "every logistic probability of a dense grid and all cell borders x 0..=21 index bits: interval index is the floor of the value", 22 * 24 * 4, |_, case, l| {
        let v = split(case, &[22, 96]);
        let bits = v[0] as u8;
        let border = -LIM as i64 + v[1] as i64 * (1 << 19);
        l.describe(|| format!("bits {} border {}", bits, border));
        let mut offs: Vec<i64> = (-300..=300).collect();
        offs.extend((0..(1i64 << 19)).step_by(97));
        for d in offs {
            let x = border + d;
            if x < -LIM as i64 || x > LIM as i64 { continue; }
            let i = StretchedProbD::new(x as i32, 21).to_interval_index(bits);
            let e = ((x + LIM as i64) >> (21 - bits)).min(StretchedProbD::intervals_count(bits) as i64 - 1);
            ensure!(i as i64 == e, "{} has interval {} instead of {}", x, i, e);
            l.transitions += 1;
        }
        ensure!(StretchedProbD::intervals_count(bits) == 24 << bits, "interval count");
        ensure!(StretchedProbD::interval_stops_count(bits) == (24 << bits) + 1, "stops count");
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.finish()
}
