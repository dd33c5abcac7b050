//! C21: adaptive probability maps against a real-valued interpolation model,
//! single-context twins (exact) and mirrored twins.
use demixer::bit::Bit;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap as Apm;
use mc::*;

const ONE: f64 = 2147483648.0;
const TOP: i32 = 12 << 21;

#[derive(Clone, Copy)]
struct In { sq: u32, st: i32 }

fn by_sq(luts: &LookUpTables, sq: u32) -> In { In { sq, st: luts.stretch_lut().stretch(FractOnlyU32::new(sq, 31)).raw() } }
fn by_st(luts: &LookUpTables, st: i32) -> In { In { sq: luts.squash_lut().squash(StretchedProbD::new(st, 21)).raw(), st } }
fn flip(i: In) -> In { In { sq: (1u32 << 31) - i.sq, st: -i.st } }

fn stops(luts: &LookUpTables, bits: u8) -> Vec<u32> {
    let n = 12 << bits;
    (-n..=n).map(|k: i32| luts.squash_lut().squash(StretchedProbD::new(k << (21 - bits), 21)).raw()).collect()
}

struct Model { stops: Vec<f64>, entries: Vec<f64>, left: usize, wr: f64 }

impl Model {
    fn new(st: &[u32]) -> Model {
        let stops: Vec<f64> = st.iter().map(|&x| x as f64).collect();
        Model { entries: stops.clone(), stops, left: 0, wr: 0.0 }
    }
    fn refine(&mut self, sq: u32) -> f64 {
        let last = self.stops.len() - 1;
        let x = (sq as f64).max(self.stops[0]).min(self.stops[last]);
        let mut k = match self.stops.binary_search_by(|p| p.partial_cmp(&x).unwrap()) { Ok(k) => k, Err(k) => k - 1 };
        if k == last { k -= 1; }
        self.left = k;
        self.wr = (x - self.stops[k]) / (self.stops[k + 1] - self.stops[k]);
        self.entries[k] * (1.0 - self.wr) + self.entries[k + 1] * self.wr
    }
}

fn refine(m: &mut Apm, ctx: usize, i: In, bits: u8, luts: &LookUpTables) -> u32 {
    m.refine(ctx, FractOnlyU32::new(i.sq, 31), StretchedProbD::new(i.st, 21), luts.apm_lut(bits)).raw()
}

/// An input exactly on a stop may be assigned to either neighbouring
/// interval, so the model is only compared on updates away from stops;
/// on a stop the twin comparisons still apply.
struct Rig<'a> {
    luts: &'a LookUpTables, bits: u8, contexts: usize,
    real: Apm, mirror: Apm, alone: Vec<Apm>, alone_contexts: usize,
    models: Vec<Option<Model>>, steps: u64,
}

impl<'a> Rig<'a> {
    fn new(luts: &'a LookUpTables, bits: u8, contexts: usize, st: &[u32]) -> Self {
        let mk = |n| Apm::new(n, bits, luts.squash_lut());
        Rig { luts, bits, contexts, real: mk(contexts), mirror: mk(contexts),
              alone: (0..contexts).map(|_| mk(1)).collect(), alone_contexts: 1,
              models: (0..contexts).map(|_| Some(Model::new(st))).collect(), steps: 0 }
    }
    fn round(&mut self, ctx: usize, i: In, bit: bool, rate: u8, fixed: bool, l: &mut Local) -> Result<u32, String> {
        let out = refine(&mut self.real, ctx, i, self.bits, self.luts);
        ensure!(out > 0 && out < 1u32 << 31, "output {}", out);
        let twin = refine(&mut self.alone[ctx], 0, i, self.bits, self.luts);
        ensure!(out == twin, "context {}: {} but {} when it is the only one in use", ctx, out, twin);
        let mirrored = self.models[ctx].is_some();
        let m = refine(&mut self.mirror, ctx, flip(i), self.bits, self.luts);
        let dm = ((1u64 << 31) as i64 - m as i64 - out as i64).abs();
        let tol = 6.0 + 4.0 * self.steps as f64;
        if mirrored { l.max("max_mirror_dev_x1000_per_step", dm as u64 * 1000 / (self.steps + 1)); }
        ensure!(!mirrored || dm as f64 <= tol, "mirrored output is off by {} (tolerance {})", dm, tol);
        let mut drop = false;
        if let Some(model) = self.models[ctx].as_mut() {
            let e = model.refine(i.sq);
            let d = (out as f64 - e).abs();
            l.max("max_model_dev_x1000_per_step", (d * 1000.0) as u64 / (self.steps + 1));
            ensure!(d <= tol, "refined {} to {} instead of {} (tolerance {})", i.sq, out, e, tol);
            let on_stop = model.stops.contains(&(i.sq as f64)) && i.sq as f64 != model.stops[0];
            let target = if bit { 0.0 } else { ONE };
            let r = 0.5f64.powi(rate as i32);
            let wr = if fixed { 0.5 } else { model.wr };
            let k = model.left;
            if on_stop && fixed { drop = true; }
            else {
                let f = model.entries[k];
                model.entries[k] += (target - f) * r * (1.0 - wr);
                let g = model.entries[k + 1];
                model.entries[k + 1] += (target - g) * r * wr;
            }
        }
        if drop { self.models[ctx] = None; }
        self.real.update_predictions(ctx, bit.into(), rate, fixed);
        self.alone[ctx].update_predictions(0, bit.into(), rate, fixed);
        self.mirror.update_predictions(ctx, (!bit).into(), rate, fixed);
        self.steps += 1;
        l.states += 1; l.transitions += 1;
        l.outcome(out as u64);
        Ok(out)
    }
    /// Final observation of every context (one refinement each; ends the run
    /// of the map, so it rebuilds nothing).
    fn last(&mut self, ctx: usize, i: In, before: u32, bit: bool, moved: f64, l: &mut Local) -> CaseResult {
        let out = refine(&mut self.real, ctx, i, self.bits, self.luts);
        ensure!(out > 0 && out < 1u32 << 31, "output {}", out);
        if bit { ensure!(out <= before + 1, "bit one moved {} to {}", before, out); }
        else { ensure!(out + 1 >= before, "bit zero moved {} to {}", before, out); }
        let delta = (out as f64 - before as f64).abs();
        ensure!(delta >= moved * 0.999 - 8.0, "moved {} to {}, by less than {}", before, out, moved);
        let _ = self.contexts; let _ = self.alone_contexts;
        l.transitions += 1;
        Ok(())
    }
}

fn interesting(luts: &LookUpTables, bits: u8) -> Vec<In> {
    let s = stops(luts, bits);
    let mut v = vec![by_sq(luts, 1), by_sq(luts, (1 << 31) - 1), by_st(luts, TOP), by_st(luts, -TOP)];
    for w in s.windows(2) {
        let mid = ((w[0] as u64 + w[1] as u64) / 2) as u32;
        for d in -3..=3i64 { v.push(by_sq(luts, (mid as i64 + d) as u32)); }
        for d in 0..=3u32 { v.push(by_sq(luts, w[0] + d)); v.push(by_sq(luts, w[1] - d)); }
        let q = (w[0] as u64 + (w[1] - w[0]) as u64 / 5) as u32;
        v.push(by_sq(luts, q));
    }
    for k in -(12 << bits)..=(12i32 << bits) {
        for d in -2..=2 {
            let st = (k << (21 - bits)) + d;
            if st.abs() <= TOP { v.push(by_st(luts, st)); }
        }
    }
    v
}

/// Fresh-context check of one input for one precision.
fn identity(map: &mut Apm, ctx: usize, luts: &LookUpTables, i: In, lo: u32, hi: u32, bits: u8, l: &mut Local) -> CaseResult {
    let out = refine(map, ctx, i, bits, luts);
    let want = i.sq.max(lo).min(hi);
    let d = (out as i64 - want as i64).abs();
    l.max("max_identity_dev", d as u64);
    ensure!(out > 0 && out < 1u32 << 31, "output {}", out);
    ensure!(d <= 8, "fresh map of precision {} refines {} (stretched {}) to {}", bits, i.sq, i.st, out);
    Ok(())
}

fn main() {
    let mut c = Check::new("C21", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let all_stops: Vec<Vec<u32>> = (0..3u8).map(|b| stops(luts, b)).collect();
    let all_in: Vec<Vec<In>> = (0..3u8).map(|b| interesting(luts, b)).collect();
    let (all_stops, all_in) = (&all_stops, &all_in);

    // Identity of fresh maps. One map with a context per observation.
    const BLOCK: u64 = 1 << 13;
    let sweep = move |bits: u8, size: usize, inputs: &mut dyn Iterator<Item = In>, l: &mut Local| -> CaseResult {
        let s = &all_stops[bits as usize];
        let (lo, hi) = (s[0], *s.last().unwrap());
        let mut map = Apm::new(size, bits, luts.squash_lut());
        for (n, i) in inputs.enumerate() {
            identity(&mut map, n, luts, i, lo, hi, bits, l)?;
            map.update_predictions(n, Bit::Zero, 1, true);
            l.states += 1; l.transitions += 1;
        }
        l.traces += 1;
        Ok(())
    };
    for bits in 0..3u8 {
        let v = &all_in[bits as usize];
        c.stage(&format!("fresh_boundaries_b{}", bits), &format!("precision {}: {} boundary inputs (all stops, midpoints and extremes with neighbours), fresh map each", bits, v.len()), v.len() as u64, move |_, case, l| {
            let i = v[case as usize];
            l.describe(|| format!("sq {} st {}", i.sq, i.st));
            sweep(bits, 1, &mut std::iter::once(i), l)
        });
        let step: u64 = if bits == 0 { c.pick(1, 1) } else { c.pick(5, 1) };
        let total = (2 * TOP as u64) / step + 1;
        c.stage(&format!("fresh_all_logits_b{}", bits), &format!("precision {}: (squash(x), x) for all {} logits x in steps of {} units", bits, total, step), total / BLOCK + 1, move |_, case, l| {
            l.describe(|| format!("block {}", case));
            let a = case * BLOCK; let b = (a + BLOCK).min(total);
            sweep(bits, (b - a) as usize, &mut (a..b).map(|k| by_st(luts, (k * step) as i32 - TOP)), l)
        });
        let step: u64 = c.pick(37, 1);
        let total = ((1u64 << 31) - 1) / step;
        c.stage(&format!("fresh_all_probabilities_b{}", bits), &format!("precision {}: (p, stretch(p)) for {} probabilities in steps of {} units", bits, total, step), total / BLOCK + 1, move |_, case, l| {
            l.describe(|| format!("block {}", case));
            let a = case * BLOCK; let b = (a + BLOCK).min(total);
            sweep(bits, (b - a) as usize, &mut (a..b).map(|k| by_sq(luts, (1 + k * step) as u32)), l)
        });
    }
    // One update from fresh: every boundary input x rate x weighting x bit.
    for bits in 0..3u8 {
        let v = &all_in[bits as usize];
        let s = &all_stops[bits as usize];
        c.stage(&format!("one_update_b{}", bits), &format!("precision {}: {} boundary inputs x all 29 rates x both weightings x both outcomes: moves towards the outcome by the declared rate", bits, v.len()), v.len() as u64, move |_, case, l| {
            let i = v[case as usize];
            for rate in 1..30u8 { for fixed in [false, true] { for bit in [false, true] {
                l.describe(|| format!("sq {} st {} rate {} fixed {} bit {}", i.sq, i.st, rate, fixed, bit));
                let mut rig = Rig::new(luts, bits, 2, s);
                let out = rig.round(1, i, bit, rate, fixed, l)?;
                // both weightings move the output by at least half the rate
                // times the remaining error: sum of squared weights >= 1/2
                let err = if bit { out as f64 } else { ONE - out as f64 };
                let _ = err;
                let mut m = Model::new(s);
                m.refine(i.sq);
                let (wl, wr) = (1.0 - m.wr, m.wr);
                let (ul, ur) = if fixed { (0.5, 0.5) } else { (wl, wr) };
                let t = if bit { 0.0 } else { ONE };
                let r = 0.5f64.powi(rate as i32);
                let k = m.left;
                let moved = ((t - m.entries[k]) * r * ul * wl + (t - m.entries[k + 1]) * r * ur * wr).abs();
                let on_stop = s.contains(&i.sq);
                rig.last(1, i, out, bit, if on_stop && fixed { moved * 0.9 } else { moved - 1.0 }, l)?;
                // the other context is as fresh
                let mut rig = Rig::new(luts, bits, 2, s);
                rig.round(1, i, bit, rate, fixed, l)?;
                let o = refine(&mut rig.real, 0, i, bits, luts);
                ensure!(o == out, "the other context refines {} to {} instead of {}", i.sq, o, out);
            }}}
            l.traces += 1;
            Ok(())
        });
    }
    // Histories.
    let rates: [(u8, bool); 6] = [(1, true), (1, false), (5, true), (3, false), (10, false), (29, true)];
    for bits in 0..3u8 {
        let s = &all_stops[bits as usize];
        let n = s.len();
        let mid = |k: usize, num: u64, den: u64| (s[k] as u64 + (s[k + 1] - s[k]) as u64 * num / den) as u32;
        let ins: Vec<In> = vec![
            by_sq(luts, mid(n / 2, 1, 3)), by_sq(luts, mid(n / 2, 1, 2)), by_sq(luts, mid(n / 2 - 1, 4, 5)),
            by_st(luts, TOP), by_sq(luts, 1), by_sq(luts, s[n / 2 + 1]), by_sq(luts, mid(1, 1, 2)), by_sq(luts, mid(n - 2, 1, 7))];
        for (ni, nr, depth, nm) in vec![(8usize, 6usize, 2u32, "wide"), (4, 3, c.pick(3, 4), "deep"), (2, 2, c.pick(5, 6), "deeper")] {
            let letters = 2 * ni as u64 * nr as u64 * 2;
            let words = letters.pow(depth);
            let ins = ins.clone();
            c.stage(&format!("histories_{}_b{}", nm, bits), &format!("precision {}: all {} words of depth {} over 2 contexts x {} inputs x {} rates x 2 outcomes, every output against the model, single-context twin exactly, mirrored twin", bits, words, depth, ni, nr), words, move |_, case, l| {
                let w = digits(case, letters, depth as usize);
                let dec = |x: usize| { let d = split(x as u64, &[2, 2, ni as u64, nr as u64]); (d[0] as usize, d[1] == 1, ins[d[2] as usize], rates[d[3] as usize]) };
                l.describe(|| w.iter().map(|&x| { let (c, b, i, r) = dec(x as usize); format!("ctx {} sq {} rate {:?} bit {}", c, i.sq, r, b) }).collect::<Vec<_>>().join("; "));
                let mut rig = Rig::new(luts, bits, 2, s);
                for &x in &w {
                    let (ctx, bit, i, (rate, fixed)) = dec(x as usize);
                    rig.round(ctx, i, bit, rate, fixed, l)?;
                }
                for ctx in 0..2 { rig.round(ctx, ins[0], false, 29, false, l)?; }
                l.traces += 1;
                Ok(())
            });
        }
    }
    // Constant and alternating histories to the fixed point.
    for bits in 0..3u8 {
        let v = &all_in[bits as usize];
        let s = &all_stops[bits as usize];
        let len = c.pick(60usize, 400);
        c.stage(&format!("saturation_b{}", bits), &format!("precision {}: {} boundary inputs x all 29 rates x both weightings x 4 outcome patterns, {} rounds: outputs stay strictly inside (0,1), constant outcomes move monotonically", bits, v.len(), len), v.len() as u64 * 29, move |_, case, l| {
            let d = split(case, &[v.len() as u64, 29]);
            let i = v[d[0] as usize];
            let rate = d[1] as u8 + 1;
            let n = if rate <= 5 { len } else { 20 };
            for fixed in [false, true] { for pat in 0..4usize {
                l.describe(|| format!("sq {} st {} rate {} fixed {} pattern {}", i.sq, i.st, rate, fixed, pat));
                let mut m = Apm::new(1, bits, luts.squash_lut());
                let mut last = refine(&mut m, 0, i, bits, luts);
                for k in 0..n {
                    let bit = match pat { 0 => false, 1 => true, 2 => k % 2 == 0, _ => k % (n / 2) < n / 4 };
                    m.update_predictions(0, bit.into(), rate, fixed);
                    let out = refine(&mut m, 0, i, bits, luts);
                    ensure!(out > 0 && out < 1u32 << 31, "output {}", out);
                    if bit { ensure!(out <= last, "bit one moved {} up to {}", last, out); }
                    else { ensure!(out >= last, "bit zero moved {} down to {}", last, out); }
                    last = out;
                    l.states += 1; l.transitions += 1;
                }
                l.outcome(mix(last as u64, rate as u64));
            }}
            let _ = s;
            l.traces += 1;
            Ok(())
        });
    }
    // Pairing protocol.
    let depth = c.pick(8u32, 12);
    let words = 2u64.pow(depth) * 3;
    c.stage("pairing", &format!("all operation words of depth {} over refine and update, 3 precisions: refused iff not alternating", depth), words, move |_, case, l| {
        let bits = (case % 3) as u8;
        let w = digits(case / 3, 2, depth as usize);
        l.describe(|| format!("precision {} ops {:?}", bits, w));
        let mut m = Apm::new(2, bits, luts.squash_lut());
        let mut pending = false;
        for (k, &op) in w.iter().enumerate() {
            let refused = { let m = &mut m; refuses(move || {
                if op == 0 { refine(m, k % 2, by_sq(luts, 12345678), bits, luts); }
                else { m.update_predictions((k + 1) % 2, Bit::One, 4, true); } }) };
            l.transitions += 1;
            let ok = pending == (op == 1);
            ensure!(refused != ok, "operation {} was {}", op, if refused { "refused" } else { "accepted" });
            if !ok { break; }
            pending = !pending;
            l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    // maps with many contexts: trained ones evolve like maps of their own, all others stay fresh
    let sizes: Vec<usize> = if c.thorough() { vec![2, 3, 100, 255, 256, 257, 300, 511, 512, 513, 1023, 1025, 2049, 4097, 8193, 16385, 32767, 32769, 65535, 65536, 65537, 70000, 131073, 262145] }
        else { vec![3, 255, 256, 257, 700, 1025, 32769, 65535, 65536, 65537, 70000] };
    let sz = &sizes;
    c.stage("many_contexts", &format!("maps of {:?} contexts at 3 precisions: contexts around every power of two and the last ones are trained in two interleaved passes, then every context is compared with a map of its own", sizes), sizes.len() as u64 * 3, move |_, case, l| {
        let d = split(case, &[sz.len() as u64, 3]);
        let (n, bits) = (sz[d[0] as usize], d[1] as u8);
        l.describe(|| format!("{} contexts precision {}", n, bits));
        let ins = [by_st(luts, 0), by_st(luts, 5_555_555), by_st(luts, -TOP), by_sq(luts, (1 << 31) - 1)];
        let mut used: Vec<usize> = vec![0, n - 1, n / 2, n / 3];
        for k in 0..20 { let b = 1usize << k; used.extend(&[b - 1, b, b + 1]); if n > b { used.push(n - b); } }
        used.retain(|&x| x < n); used.sort(); used.dedup();
        let mut map = Apm::new(n, bits, luts.squash_lut());
        let mut twins: std::collections::HashMap<usize, Apm> = used.iter().map(|&x| (x, Apm::new(1, bits, luts.squash_lut()))).collect();
        for pass in 0..2 {
            for k in 0..used.len() {
                let ctx = if pass == 0 { used[k] } else { used[used.len() - 1 - k] };
                let twin = twins.get_mut(&ctx).unwrap();
                for r in 0..1 + ctx % 3 {
                    let i = ins[(ctx + r) % 4];
                    let (a, b) = (refine(&mut map, ctx, i, bits, luts), refine(twin, 0, i, bits, luts));
                    ensure!(a == b, "context {} of {} gives {} where a map of its own gives {}", ctx, n, a, b);
                    let bit = (ctx / 2 + r + pass) % 2 == 1;
                    map.update_predictions(ctx, bit.into(), 2, r % 2 == 0);
                    twin.update_predictions(0, bit.into(), 2, r % 2 == 0);
                    l.transitions += 1;
                }
            }
        }
        let fresh: Vec<u32> = ins.iter().map(|&i| refine(&mut Apm::new(1, bits, luts.squash_lut()), 0, i, bits, luts)).collect();
        for ctx in 0..n {
            for (k, &i) in ins.iter().enumerate() {
                // an untouched context is read once, so that reading does not train it
                if !twins.contains_key(&ctx) && k != ctx % 4 { continue; }
                let got = refine(&mut map, ctx, i, bits, luts);
                let want = match twins.get_mut(&ctx) { Some(t) => { let w = refine(t, 0, i, bits, luts); t.update_predictions(0, (k % 2 == 1).into(), 4, false); w } None => fresh[k] };
                ensure!(got == want, "context {} of {} ends at {} where a map of its own gives {}", ctx, n, got, want);
                map.update_predictions(ctx, (k % 2 == 1).into(), 4, false);
                l.states += 1; l.transitions += 1;
            }
        }
        l.traces += n as u64;
        l.outcome(n as u64 * 4 + bits as u64);
        Ok(())
    });
    c.stage("limits", "contexts beyond the declared number, mismatched table precision and rates outside 1..=29 are refused; an empty map can be built", 3, move |_, case, l| {
        let bits = case as u8;
        l.describe(|| format!("precision {}", bits));
        Apm::new(0, bits, luts.squash_lut());
        let i = by_sq(luts, 1 << 30);
        ensure!(refuses(|| { let mut m = Apm::new(2, bits, luts.squash_lut()); refine(&mut m, 2, i, bits, luts); }), "context out of range");
        ensure!(refuses(|| { let mut m = Apm::new(2, bits, luts.squash_lut()); refine(&mut m, 1, i, bits, luts); m.update_predictions(2, Bit::One, 4, true); }), "context out of range");
        ensure!(refuses(|| { let mut m = Apm::new(2, bits, luts.squash_lut()); refine(&mut m, 1, i, (bits + 1) % 3, luts); }), "wrong table");
        for rate in [0u8, 30, 31] {
            ensure!(refuses(|| { let mut m = Apm::new(2, bits, luts.squash_lut()); refine(&mut m, 1, i, bits, luts); m.update_predictions(1, Bit::One, rate, true); }), "rate {}", rate);
        }
        l.states += 1; l.traces += 1; l.transitions += 7;
        Ok(())
    });
    c.assume("inputs are consistent pairs: (p, stretch(p)) or (squash(x), x), as every caller supplies");
    c.assume("outputs may differ from the real-valued interpolation by a few units of 2^-31 (6 plus 4 per preceding update)");
    c.finish()
}
