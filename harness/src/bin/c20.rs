//! C20: mixers against a wide-integer model of logistic mixing, all round
//! sequences up to a depth; twins (other implementation, mirrored history).
use demixer::bit::Bit;
use demixer::fixed_point::types::{FractOnlyU32, MixerWeight, StretchedProbD};
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;
use mc::*;

const ONE: i64 = 1 << 31;
const LIM: i64 = 8 << 21;
const TOP: i32 = 12 << 21;

fn st(raw: i32) -> StretchedProbD { StretchedProbD::new(raw, 21) }

fn init_mode(m: u64) -> MixerInitializationMode {
    match m {
        0 => MixerInitializationMode::AllZero,
        1 => MixerInitializationMode::DominantFirst,
        _ => MixerInitializationMode::EqualSummingToOne,
    }
}

/// The real mixers behind one object interface.
trait Face {
    fn set(&mut self, i: usize, sq: FractOnlyU32, st: StretchedProbD);
    fn mix(&self, luts: &LookUpTables) -> (FractOnlyU32, StretchedProbD);
    fn update(&mut self, bit: Bit, sq: FractOnlyU32, max: u16, r: &DeceleratingEstimatorRates);
    fn w(&self, i: usize) -> i64;
    fn got(&self, i: usize) -> (u32, i32);
}
impl<M: Mixer> Face for M {
    fn set(&mut self, i: usize, sq: FractOnlyU32, st: StretchedProbD) { self.set_input(i, sq, st) }
    fn mix(&self, luts: &LookUpTables) -> (FractOnlyU32, StretchedProbD) { self.mix_all(luts.squash_lut()) }
    fn update(&mut self, bit: Bit, sq: FractOnlyU32, max: u16, r: &DeceleratingEstimatorRates) { self.update_and_reset(bit, sq, max, r) }
    fn w(&self, i: usize) -> i64 { self.weight(i).raw() as i64 }
    fn got(&self, i: usize) -> (u32, i32) { (self.prediction_sq(i).raw(), self.prediction_st(i).raw()) }
}

fn fixed(size: usize, idx: u16, mode: u64) -> Option<Box<dyn Face>> {
    let m = init_mode(mode);
    Some(match size {
        1 => Box::new(Mixer1::new(idx, m)), 2 => Box::new(Mixer2::new(idx, m)),
        3 => Box::new(Mixer3::new(idx, m)), 4 => Box::new(Mixer4::new(idx, m)),
        5 => Box::new(Mixer5::new(idx, m)), _ => return None,
    })
}
fn dynamic(size: usize, idx: u16, mode: u64) -> Box<dyn Face> { Box::new(MixerN::new(size, idx, init_mode(mode))) }

struct Env<'a> { luts: &'a LookUpTables, rates: &'a DeceleratingEstimatorRates }

/// One history on all implementations of a size and on the mirrored input.
struct Rig { size: usize, real: Vec<Box<dyn Face>>, mirror: Box<dyn Face>, idx: u16, max: u16 }

impl Rig {
    fn new(size: usize, idx: u16, max: u16, mode: u64) -> Result<Rig, String> {
        let mut real = vec![dynamic(size, idx, mode)];
        if let Some(f) = fixed(size, idx, mode) { real.push(f); }
        let rig = Rig { size, real, mirror: dynamic(size, idx, mode), idx, max };
        let mut sum = 0;
        for i in 0..size {
            let w = rig.real[0].w(i);
            sum += w;
            match mode {
                0 => ensure!(w == 0, "initial weight {} is {}", i, w),
                1 => ensure!(w == if i == 0 { 1 << 21 } else { 0 }, "initial weight {} is {}", i, w),
                _ => ensure!(w == rig.real[0].w(0), "unequal initial weights"),
            }
            for r in &rig.real {
                ensure!(r.w(i) == w, "size {}: initial weight {} is {} in one implementation and {} in the other", size, i, w, r.w(i));
            }
        }
        if mode == 2 { ensure!((sum - (1 << 21)).abs() <= size as i64, "initial weights sum to {}", sum); }
        Ok(rig)
    }
    /// One round; `forced`: probability reported back instead of the mixed one.
    fn round(&mut self, env: &Env, inputs: &[i32], bit: bool, forced: Option<u32>, l: &mut Local) -> CaseResult {
        let n = self.size;
        let sqs: Vec<FractOnlyU32> = inputs.iter().map(|&s| env.luts.squash_lut().squash(st(s))).collect();
        let before: Vec<i64> = (0..n).map(|i| self.real[0].w(i)).collect();
        for r in self.real.iter_mut() {
            // inputs are set in either order
            for k in 0..n {
                let i = if bit { k } else { n - 1 - k };
                r.set(i, sqs[i], st(inputs[i]));
            }
            for i in 0..n {
                ensure!(r.got(i) == (sqs[i].raw(), inputs[i]), "input {} reads back {:?}", i, r.got(i));
            }
        }
        for i in 0..n { self.mirror.set(i, env.luts.squash_lut().squash(st(-inputs[i])), st(-inputs[i])); }
        // mixed value
        let (sq, mixed) = self.real[0].mix(env.luts);
        let sum: i128 = (0..n).map(|i| before[i] as i128 * inputs[i] as i128).sum();
        let lim = (TOP as i128) << 21;
        let exact = sum.max(-lim).min(lim) as f64 / (1u64 << 21) as f64;
        ensure!((mixed.raw() as f64 - exact).abs() <= 1.01, "mix of {:?} with {:?} is {} instead of {}", inputs, before, mixed.raw(), exact);
        ensure!(sq == env.luts.squash_lut().squash(mixed), "probability {} is not the image of {}", sq.raw(), mixed.raw());
        ensure!(sq.raw() > 0 && (sq.raw() as i64) < ONE, "probability {}", sq.raw());
        for r in &self.real { ensure!(r.mix(env.luts) == (sq, mixed), "implementations disagree on the mix"); }
        let (msq, mmixed) = self.mirror.mix(env.luts);
        ensure!(mmixed.raw() == -mixed.raw() && msq.raw() as i64 == ONE - sq.raw() as i64, "mirrored mix {} / {}", mmixed.raw(), mixed.raw());
        // update
        let sq = forced.map(|f| FractOnlyU32::new(f, 31)).unwrap_or(sq);
        let msq = FractOnlyU32::new((ONE - sq.raw() as i64) as u32, 31);
        for r in self.real.iter_mut() { r.update(bit.into(), sq, self.max, env.rates); }
        self.mirror.update((!bit).into(), msq, self.max, env.rates);
        let rate = env.rates[self.idx].raw() as f64 / ONE as f64 / 2.0;
        let target = if bit { 0.0 } else { 1.0 };
        let error = target - sq.raw() as f64 / ONE as f64;
        for i in 0..n {
            let w = self.real[0].w(i);
            let exact = (before[i] as f64 + error * rate * inputs[i] as f64).max(-LIM as f64).min(LIM as f64);
            ensure!((w as f64 - exact).abs() <= 1.05, "weight {} goes {} -> {} instead of {} (input {}, rate index {})", i, before[i], w, exact, inputs[i], self.idx);
            ensure!(w.abs() <= LIM, "weight {}", w);
            for r in &self.real { ensure!(r.w(i) == w, "implementations disagree on weight {}", i); }
            ensure!(self.mirror.w(i) == w, "mirrored weight {} is {} instead of {}", i, self.mirror.w(i), w);
            if w.abs() == LIM { l.count("saturated_weights", 1); }
            l.outcome(mix(w as u64, i as u64));
        }
        self.idx = self.max.min(self.idx + 1);
        l.states += 1; l.transitions += 1;
        Ok(())
    }
}

/// Decodes one round letter over a value alphabet: n inputs and the bit.
fn letter(mut x: u64, n: usize, vals: &[i32]) -> (Vec<i32>, bool) {
    let bit = x & 1 == 1; x >>= 1;
    let v = (0..n).map(|_| { let d = vals[(x % vals.len() as u64) as usize]; x /= vals.len() as u64; d }).collect();
    (v, bit)
}

fn main() {
    let mut c = Check::new("C20", "model_checking");
    let luts = LookUpTables::new();
    let other = DeceleratingEstimatorRates::make(3, 5);
    let (luts, other) = (&luts, &other);
    let wide: Vec<i32> = vec![0, 1, -1, 3, TOP, -TOP, TOP - 1, 1 << 20, -(1 << 20), 5 << 20, -1_234_567, 987_654 * 9, -(11 << 21) - 5];
    let mid: Vec<i32> = vec![0, 1, TOP, -TOP, -1_234_567, 5 << 20];
    let small: Vec<i32> = vec![TOP, -1_234_567, 5];
    let idxs: [(u16, u16); 5] = [(0, 1000), (0, 1), (10, 12), (999, 1000), (1000, 1000)];
    let sets: Vec<(usize, Vec<i32>, u32)> = vec![
        (1, wide.clone(), c.pick(4, 5)), (2, wide.clone(), 2), (2, mid.clone(), 3),
        (2, small.clone(), c.pick(4, 5)), (3, small.clone(), c.pick(3, 4)),
        (3, mid.clone(), c.pick(1, 2)), (4, small.clone(), 2), (5, small.clone(), 2)];
    for (n, vals, depth) in sets {
        let letters = 2 * (vals.len() as u64).pow(n as u32);
        let words = letters.pow(depth);
        let name = format!("rounds_n{}_v{}", n, vals.len());
        c.stage(&name, &format!("{} inputs: all {} round words of depth {} over {} input values and both outcomes, 3 initial modes, {} rate ranges", n, words, depth, vals.len(), idxs.len()),
            words * 3 * idxs.len() as u64, move |_, case, l| {
            let d = split(case, &[3, idxs.len() as u64, words]);
            let (idx, max) = idxs[d[1] as usize];
            let w = digits(d[2], letters, depth as usize);
            l.describe(|| format!("size {} mode {} rate index {}..{} rounds {:?}", n, d[0], idx, max, w.iter().map(|&x| letter(x as u64, n, &vals)).collect::<Vec<_>>()));
            let mut rig = Rig::new(n, idx, max, d[0])?;
            let env = Env { luts, rates: luts.d_estimator_rates() };
            for &x in &w { let (v, b) = letter(x as u64, n, &vals); rig.round(&env, &v, b, None, l)?; }
            l.traces += 1;
            Ok(())
        });
    }
    // Long runs: eventually periodic histories drive weights to their limits.
    for (n, vals) in vec![(1usize, wide.clone()), (2, small.clone()), (3, vec![TOP, -1_234_567])] {
        let letters = 2 * (vals.len() as u64).pow(n as u32);
        let period = if n == 1 { c.pick(2, 3) } else { 2u32 };
        let words = letters.pow(period);
        let len = c.pick(1500, 3000);
        let stepmax = [1u16, 40, 1000];
        let name = format!("periodic_n{}", n);
        c.stage(&name, &format!("{} inputs: all {} periodic histories of period {} run for {} rounds, 3 rate limits, 3 modes, two rate tables", n, words, period, len),
            words * 18, move |_, case, l| {
            let d = split(case, &[3, 3, 2, words]);
            let w = digits(d[3], letters, period as usize);
            let max = stepmax[d[1] as usize];
            l.describe(|| format!("size {} mode {} max rate index {} table {} period {:?}", n, d[0], max, d[2], w.iter().map(|&x| letter(x as u64, n, &vals)).collect::<Vec<_>>()));
            let mut rig = Rig::new(n, 0, max, d[0])?;
            let env = Env { luts, rates: if d[2] == 0 { luts.d_estimator_rates() } else { other } };
            let rounds = if d[0] == 0 && max != 40 { len } else { 120 };
            for k in 0..rounds {
                let (v, b) = letter(w[k % period as usize] as u64, n, &vals);
                rig.round(&env, &v, b, None, l)?;
            }
            l.traces += 1;
            Ok(())
        });
    }
    // Reported probability at its extremes: update uses what the caller reports.
    let probs: Vec<u32> = vec![1, 2, 3, 255, 1 << 9, (1 << 20) + 1, 1 << 29, 1 << 30, (1 << 30) + 1, 3 << 29, (1u32 << 31) - 512, (1u32 << 31) - 2, (1u32 << 31) - 1];
    let wd = wide.clone();
    let np = probs.len() as u64;
    c.stage("reported_probability", "size 1: all pairs of (input, reported probability, outcome) rounds over 13 x 13 x 2, every rate index 0..=1000 for the first", 13 * np * 2 * 1001, move |_, case, l| {
        let d = split(case, &[wd.len() as u64, np, 2, 1001]);
        let idx = d[3] as u16;
        l.describe(|| format!("input {} reported {} bit {} rate index {}", wd[d[0] as usize], probs[d[1] as usize], d[2], idx));
        let env = Env { luts, rates: luts.d_estimator_rates() };
        let mut rig = Rig::new(1, idx, 1000, 1)?;
        rig.round(&env, &[wd[d[0] as usize]], d[2] == 1, Some(probs[d[1] as usize]), l)?;
        rig.round(&env, &[wd[(d[0] as usize + 5) % wd.len()]], d[1] & 1 == 1, None, l)?;
        l.traces += 1;
        Ok(())
    });
    // Reports that contradict the outcome push weights into both limits.
    let wd = wide.clone();
    c.stage("saturation", "sizes 1 and 2: all 26 x 26 period-2 histories with reported probabilities that always (period word: sometimes) contradict the outcome, 60 rounds", 26 * 26 * 4 * 2, move |_, case, l| {
        let d = split(case, &[2, 4, 26, 26]);
        let n = d[0] as usize + 1;
        let e = [d[2], d[3]];
        l.describe(|| format!("size {} report pattern {} letters {:?}", n, d[1], e));
        let env = Env { luts, rates: luts.d_estimator_rates() };
        let mut rig = Rig::new(n, 0, 3, d[1] % 3)?;
        for k in 0..60usize {
            let x = e[k % 2];
            let b = x & 1 == 1;
            let worst = if b { (1u32 << 31) - 1 } else { 1 };
            let forced = if d[1] >> (k % 2) & 1 == 0 { Some(worst) } else { None };
            let v: Vec<i32> = (0..n).map(|i| wd[(x as usize / 2 + 4 * i) % wd.len()]).collect();
            rig.round(&env, &v, b, forced, l)?;
        }
        l.traces += 1;
        Ok(())
    });
    // All sizes: structured input vectors.
    let depth = c.pick(3u32, 4);
    let shapes = 6u64;
    let words = (shapes * 2).pow(depth);
    c.stage("every_size", &format!("sizes 1..=30: all {} words of depth {} over 6 input shapes and both outcomes, 3 modes", words, depth), 30 * 3 * words, move |_, case, l| {
        let d = split(case, &[30, 3, words]);
        let n = d[0] as usize + 1;
        let w = digits(d[2], shapes * 2, depth as usize);
        l.describe(|| format!("size {} mode {} shapes {:?}", n, d[1], w));
        let env = Env { luts, rates: luts.d_estimator_rates() };
        let mut rig = Rig::new(n, 0, 1000, d[1])?;
        for (k, &x) in w.iter().enumerate() {
            let v: Vec<i32> = (0..n).map(|i| match x / 2 {
                0 => TOP, 1 => if i % 2 == 0 { TOP } else { -TOP },
                2 => if i + 1 == n { 9 << 20 } else { 0 },
                3 => if i == k % n { -TOP } else { 77 },
                4 => (i as i32 + 1) * 100_003, _ => -(i as i32) * 831_111,
            }).collect();
            rig.round(&env, &v, x & 1 == 1, None, l)?;
        }
        l.traces += 1;
        Ok(())
    });
    // Protocol: all operation words over {set i, mix, update} on real mixers.
    for n in 1..=5usize {
        let ops = n as u64 + 2;
        let depth = match n { 1 => c.pick(7, 9), 2 => c.pick(6, 8), 3 => c.pick(5, 7), _ => c.pick(5, 6) };
        let words = ops.pow(depth);
        c.stage(&format!("protocol_n{}", n), &format!("{} inputs: all {} operation words of depth {} over set(i), mix, update; refused iff the input mask forbids it", n, words, depth), words * 2, move |_, case, l| {
            let w = digits(case / 2, ops, depth as usize);
            l.describe(|| format!("size {} dynamic {} ops {:?}", n, case & 1, w));
            let mut m = if case & 1 == 1 { dynamic(n, 0, 2) } else { fixed(n, 0, 2).unwrap() };
            let mut mask = 0u32;
            let full = (1u32 << n) - 1;
            for &op in &w {
                let op = op as usize;
                let ok = if op < n { mask >> op & 1 == 0 } else { mask == full };
                let refused = {
                    let m = &mut m;
                    refuses(move || {
                        if op < n { m.set(op, FractOnlyU32::HALF, st(5)); }
                        else if op == n { m.mix(luts); }
                        else { m.update(Bit::One, FractOnlyU32::HALF, 1000, luts.d_estimator_rates()); }
                    })
                };
                l.transitions += 1;
                ensure!(refused != ok, "operation {} with mask {:b}: {}", op, mask, if refused { "refused" } else { "accepted" });
                if !ok { break; }
                if op < n { mask |= 1 << op; } else if op > n { mask = 0; }
                l.states += 1;
            }
            for i in 0..n {
                let m = &m;
                if mask >> i & 1 == 0 { ensure!(refuses(move || { m.got(i); }), "unset input {} was readable", i); }
                l.transitions += 1;
            }
            l.traces += 1;
            l.outcome(mask as u64);
            Ok(())
        });
    }
    c.stage("protocol_big", "sizes 6..=30: each single missing input and each repeated input is refused; sizes above 30 are refused", 25, move |_, case, l| {
        let n = case as usize + 6;
        l.describe(|| format!("size {}", n));
        for missing in 0..n {
            let mut m = dynamic(n, 0, 2);
            for i in 0..n { if i != missing { m.set(i, FractOnlyU32::HALF, st(5)); } }
            { let m = &m; ensure!(refuses(move || { m.mix(luts); }), "mix without input {}", missing); }
            { let m = &mut m; ensure!(refuses(move || { m.update(Bit::Zero, FractOnlyU32::HALF, 1000, luts.d_estimator_rates()); }), "update without input {}", missing); }
            { let m = &mut m; let again = (missing + 1) % n; ensure!(refuses(move || { m.set(again, FractOnlyU32::HALF, st(5)); }), "input {} set twice", again); }
            m.set(missing, FractOnlyU32::HALF, st(5));
            m.mix(luts);
            { let m = &mut m; ensure!(refuses(move || { m.set(n, FractOnlyU32::HALF, st(5)); }), "input beyond the size"); }
            l.transitions += 5;
        }
        ensure!(refuses(|| { dynamic(31, 0, 0); }), "size 31");
        l.states += 1; l.traces += 1;
        Ok(())
    });
    let _ = MixerWeight::ZERO;
    c.assume("a weight or a mixed value may differ from the exact real value by one unit in the last place (rounding mode is free); implementations, mirrors and read-backs must agree exactly");
    c.finish()
}
