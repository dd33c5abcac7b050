//! C24: predict/update kits and the final-probability stage against
//! stand-alone estimators, mixers and maps driven by the same inputs.
#[allow(dead_code)]
#[path = "../chain.rs"]
mod chain;
use std::collections::HashMap;

use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::mixing::mixer::*;
use demixer::predictor::kits::*;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::util::indexer::*;
use demixer::util::last_bytes::LastBytesCache;
use mc::*;

const DIMS: [usize; 3] = [2, 3, 2];
const SLOTS: u64 = 12;

fn tuple(slot: u64) -> [usize; 3] { let d = split(slot, &[2, 3, 2]); [d[0] as usize, d[1] as usize, d[2] as usize] }

/// Letters: slot x bit.
fn estimators(w: &[u64], slots: &[u64], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut kit = EstimatorsWithIndexer::new(Indexer3::new(DIMS.to_vec()));
    let mut twins: HashMap<u64, DeceleratingEstimator> = HashMap::new();
    for &x in w {
        let (slot, bit) = (slots[(x / 2) as usize], x & 1 == 1);
        let t = tuple(slot);
        let (sq, st) = kit.predict(luts, |ix| ix.with_sub_index(t[0]).with_sub_index(t[1]).with_sub_index(t[2]));
        let twin = twins.entry(slot).or_insert_with(DeceleratingEstimator::new);
        ensure!(sq == twin.prediction(), "slot {:?} predicts {} instead of {}", t, sq.raw(), twin.prediction().raw());
        ensure!(st == luts.stretch_lut().stretch(sq), "logistic value {} of {}", st.raw(), sq.raw());
        kit.update(bit.into(), luts);
        twin.update(bit.into(), luts.d_estimator_rates());
        l.states += 1; l.transitions += 1;
        l.outcome(mix(sq.raw() as u64, slot));
    }
    // every slot, used or not
    for slot in 0..SLOTS {
        let t = tuple(slot);
        let (sq, _) = kit.predict(luts, |ix| ix.with_sub_index(t[0]).with_sub_index(t[1]).with_sub_index(t[2]));
        let twin = twins.entry(slot).or_insert_with(DeceleratingEstimator::new);
        ensure!(sq == twin.prediction(), "slot {:?} ends at {} instead of {}", t, sq.raw(), twin.prediction().raw());
        kit.update(Bit::One, luts);
        l.transitions += 1;
    }
    l.traces += 1;
    Ok(())
}

const INPUTS: [[i32; 3]; 4] = [[0, 1_000_000, -3_000_000], [12 << 21, 12 << 21, -(12 << 21)], [-5_000_000, 70, 4 << 21], [2_000_001, -2_000_001, 9]];

fn feed<M: Mixer>(m: &mut M, i: usize, luts: &LookUpTables) {
    for k in 0..m.size() {
        let st = StretchedProbD::new(INPUTS[i][k], 21);
        m.set_input(k, luts.squash_lut().squash(st), st);
    }
}

/// Letters: slot x input x bit x split point of the index set-up.
fn mixers<M: Mixer + Clone>(w: &[u64], slots: &[u64], ni: u64, make: &dyn Fn() -> M, max: u16, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut kit = MixersWithIndexer::new(|| make(), Indexer3::new(DIMS.to_vec()));
    let mut twins: HashMap<u64, M> = HashMap::new();
    let rates = luts.d_estimator_rates();
    for (step, &x) in w.iter().enumerate() {
        let d = split(x, &[2, ni, slots.len() as u64]);
        let (bit, input, slot) = (d[0] == 1, d[1] as usize, slots[d[2] as usize]);
        let t = tuple(slot);
        // the index is supplied in two portions, cut at every place over time
        let cut = (step + x as usize) % 4;
        if cut > 0 {
            kit.pre_predict(|mut ix| { for &v in &t[..cut] { ix = ix.with_sub_index(v); } ix });
        }
        let got = kit.predict(|mut ix| { for &v in &t[cut..] { ix = ix.with_sub_index(v); } ix }, |m| feed(m, input, luts), luts);
        let twin = twins.entry(slot).or_insert_with(|| make());
        feed(twin, input, luts);
        let want = twin.mix_all(luts.squash_lut());
        ensure!(got == want, "slot {:?} mixes to {:?} instead of {:?}", t, got, want);
        for k in 0..twin.size() { ensure!(kit.current_mixer().weight(k) == twin.weight(k), "weight {} of slot {:?}", k, t); }
        let r = kit.update(bit.into(), max, luts);
        ensure!(r == want, "update reports {:?} instead of {:?}", r, want);
        twin.update_and_reset(bit.into(), want.0, max, rates);
        l.states += 1; l.transitions += 1;
        l.outcome(mix(got.0.raw() as u64, slot));
    }
    for slot in 0..SLOTS {
        let t = tuple(slot);
        kit.predict(|ix| ix.with_sub_index(t[0]).with_sub_index(t[1]).with_sub_index(t[2]), |m| feed(m, 0, luts), luts);
        let twin = twins.entry(slot).or_insert_with(|| make());
        for k in 0..twin.size() { ensure!(kit.current_mixer().weight(k) == twin.weight(k), "final weight {} of slot {:?}", k, t); }
        kit.update(Bit::Zero, max, luts);
        l.transitions += 1;
    }
    l.traces += 1;
    Ok(())
}

/// Slots around every power of two and at both ends of a table.
fn border_slots(n: usize) -> Vec<usize> {
    let mut v = vec![0, n - 1, n / 2, n / 3];
    for k in 0..20 { let b = 1usize << k; v.extend(&[b - 1, b, b + 1]); if n > b { v.push(n - b); } }
    v.retain(|&x| x < n); v.sort(); v.dedup();
    v
}

/// A kit over a large table: border slots trained in two passes, then every slot read.
fn large_table(dims: &[usize; 2], use_mixers: bool, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let n = dims[0] * dims[1];
    let at = |s: usize| (s / dims[1], s % dims[1]);
    let used = border_slots(n);
    let order = |pass: usize| { let mut v = used.clone(); if pass == 1 { v.reverse(); } v };
    if !use_mixers {
        let mut kit = EstimatorsWithIndexer::new(Indexer2::new(dims.to_vec()));
        let mut twins: HashMap<usize, DeceleratingEstimator> = HashMap::new();
        let mut round = |s: usize, bit: bool, l: &mut Local| -> CaseResult {
            let (a, b) = at(s);
            let (sq, _) = kit.predict(luts, |ix| ix.with_sub_index(a).with_sub_index(b));
            let twin = twins.entry(s).or_insert_with(DeceleratingEstimator::new);
            ensure!(sq == twin.prediction(), "slot {} of {} predicts {} instead of {}", s, n, sq.raw(), twin.prediction().raw());
            kit.update(bit.into(), luts);
            twin.update(bit.into(), luts.d_estimator_rates());
            l.states += 1; l.transitions += 1;
            Ok(())
        };
        for pass in 0..2 { for s in order(pass) { for k in 0..1 + s % 3 { round(s, (s / 2 + k) % 2 == 0, l)?; } } }
        for s in 0..n { round(s, s % 2 == 0, l)?; }
    } else {
        let make = || Mixer3::new(0, MixerInitializationMode::DominantFirst);
        let mut kit = MixersWithIndexer::new(make, Indexer2::new(dims.to_vec()));
        let mut twins: HashMap<usize, Mixer3> = HashMap::new();
        let mut round = |s: usize, bit: bool, l: &mut Local| -> CaseResult {
            let (a, b) = at(s);
            let i = s % 3;
            let got = kit.predict(|ix| ix.with_sub_index(a).with_sub_index(b), |m| feed(m, i, luts), luts);
            let twin = twins.entry(s).or_insert_with(make);
            feed(twin, i, luts);
            let want = twin.mix_all(luts.squash_lut());
            ensure!(got == want, "slot {} of {} mixes to {:?} instead of {:?}", s, n, got, want);
            for k in 0..3 { ensure!(kit.current_mixer().weight(k) == twin.weight(k), "weight {} of slot {} of {}", k, s, n); }
            kit.update(bit.into(), 100, luts);
            twin.update_and_reset(bit.into(), want.0, 100, luts.d_estimator_rates());
            l.states += 1; l.transitions += 1;
            Ok(())
        };
        for pass in 0..2 { for s in order(pass) { for k in 0..1 + s % 3 { round(s, (s / 2 + k) % 2 == 0, l)?; } } }
        for s in 0..n { round(s, s % 2 == 0, l)?; }
    }
    l.traces += 1;
    l.outcome(mix(dims[0] as u64, dims[1] as u64));
    Ok(())
}

fn push(c: &mut LastBytesCache, b: u8) {
    c.start_new_byte();
    for k in (0..8).rev() { c.on_next_bit((b >> k & 1 == 1).into()); }
}

const FIN_INPUTS: [i32; 6] = [0, 12 << 21, -(12 << 21), 3_333_333, -7_777_777, 1];

/// One byte written through the final stage bit by bit.
fn finalizer_run(bytes: &[u8], pattern: &dyn Fn(usize) -> usize, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut fin = PredictionFinalizer::new(luts);
    let mut twin = chain::FinalStage::new(luts);
    let mut lb = LastBytesCache::new();
    let mut n = 0;
    for &b in bytes {
        lb.start_new_byte();
        for k in (0..8).rev() {
            let bit = b >> k & 1 == 1;
            let p = pattern(n);
            let st = StretchedProbD::new(FIN_INPUTS[p % FIN_INPUTS.len()], 21);
            let sq = luts.squash_lut().squash(st);
            let ctx = n % 23;
            let out: FinalProbability = fin.refine(sq, st, ctx, &lb);
            let want = twin.refine(sq, st, &lb);
            ensure!(out.raw() > 0 && out.raw() < 1 << 23, "final probability {}", out.raw());
            ensure!(out.raw() == want, "bit {}: final probability {} instead of {} from maps trained alone", n, out.raw(), want);
            fin.update(bit.into(), ctx, &lb);
            twin.update(bit, &lb);
            lb.on_next_bit(bit.into());
            n += 1;
            l.states += 1; l.transitions += 1;
            l.outcome(out.raw() as u64);
        }
    }
    l.traces += 1;
    Ok(())
}

fn main() {
    let mut c = Check::new("C24", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    for (name, slots, depth) in vec![("all_slots", (0..SLOTS).collect::<Vec<u64>>(), c.pick(5u32, 5)), ("three_slots", vec![0, 5, 11], c.pick(8, 9)), ("one_slot", vec![7], c.pick(16, 20))] {
        let letters = 2 * slots.len() as u64;
        let words = letters.pow(depth);
        let s2 = slots.clone();
        c.stage(&format!("estimators_{}", name), &format!("all {} words of depth {} over {} slots and both outcomes, all 12 slots observed at the end", words, depth, slots.len()), words, move |_, case, l| {
            let w: Vec<u64> = digits(case, letters, depth as usize).iter().map(|&d| d as u64).collect();
            l.describe(|| format!("slots {:?} letters {:?}", s2, w));
            estimators(&w, &s2, luts, l)
        });
    }
    for (name, slots, ni, depth) in vec![("all_slots", (0..SLOTS).collect::<Vec<u64>>(), 2u64, c.pick(3u32, 4)), ("three_slots", vec![0, 5, 11], 4, c.pick(4, 5)), ("two_slots", vec![3, 4], 2, c.pick(6, 7))] {
        let letters = 2 * ni * slots.len() as u64;
        let words = letters.pow(depth);
        for &max in &[1000u16, 3] {
            let s2 = slots.clone();
            c.stage(&format!("mixers_{}_{}", name, max), &format!("all {} words of depth {} over {} slots, {} input vectors, both outcomes, index supplied in two portions cut everywhere, rate limit {}", words, depth, slots.len(), ni, max), words, move |_, case, l| {
                let w: Vec<u64> = digits(case, letters, depth as usize).iter().map(|&d| d as u64).collect();
                l.describe(|| format!("slots {:?} letters {:?}", s2, w));
                if case % 2 == 0 { mixers(&w, &s2, ni, &|| Mixer3::new(0, MixerInitializationMode::EqualSummingToOne), max, luts, l) }
                else { mixers(&w, &s2, ni, &|| Mixer2::new(2, MixerInitializationMode::DominantFirst), max, luts, l) }
            });
        }
    }
    // Pairing.
    let depth = c.pick(7u32, 9);
    c.stage("estimator_pairing", &format!("all words of depth {} over predict (complete index, incomplete index) and update", depth), 3u64.pow(depth), move |_, case, l| {
        let w = digits(case, 3, depth as usize);
        l.describe(|| format!("{:?}", w));
        let mut kit = EstimatorsWithIndexer::new(Indexer2::new(vec![2, 2]));
        let mut pending = false;
        for &op in &w {
            let refused = { let kit = &mut kit; refuses(move || match op {
                0 => { kit.predict(luts, |ix| ix.with_sub_index(1).with_sub_index(0)); }
                1 => { kit.predict(luts, |ix| ix.with_sub_index(1)); }
                _ => { kit.update(Bit::One, luts); } }) };
            let ok = match op { 0 => !pending, 1 => false, _ => pending };
            l.transitions += 1;
            ensure!(refused != ok, "operation {} {}", op, if refused { "refused" } else { "accepted" });
            if !ok { break; }
            pending = op == 0;
            l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    let depth = c.pick(7u32, 9);
    c.stage("mixer_pairing", &format!("all words of depth {} over pre-predict, predict (rest of the index, whole index, inputs missing), update and current mixer", depth), 6u64.pow(depth), move |_, case, l| {
        let w = digits(case, 6, depth as usize);
        l.describe(|| format!("{:?}", w));
        let mut kit = MixersWithIndexer::new(|| Mixer2::new(0, MixerInitializationMode::AllZero), Indexer2::new(vec![2, 2]));
        let (mut given, mut pending) = (0, false);
        for &op in &w {
            let refused = { let kit = &mut kit; refuses(move || match op {
                0 => { kit.pre_predict(|ix| ix.with_sub_index(1)); }
                1 => { kit.predict(|ix| ix.with_sub_index(0), |m| feed(m, 0, luts), luts); }
                2 => { kit.predict(|ix| ix.with_sub_index(1).with_sub_index(0), |m| feed(m, 0, luts), luts); }
                3 => { kit.predict(|ix| ix.with_sub_index(1).with_sub_index(1), |_| (), luts); }
                4 => { kit.update(Bit::One, 1000, luts); }
                _ => { kit.current_mixer(); } }) };
            let ok = match op { 0 => !pending && given < 2, 1 => !pending && given == 1, 2 => !pending && given == 0, 3 => false, _ => pending };
            l.transitions += 1;
            ensure!(refused != ok, "operation {} {} (given {}, pending {})", op, if refused { "refused" } else { "accepted" }, given, pending);
            if !ok { break; }
            match op { 0 => given += 1, 1 | 2 => { pending = true; given = 0; } 4 => pending = false, _ => () }
            l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    // Final stage.
    let runs: Vec<(String, Vec<u8>)> = {
        let mut v: Vec<(String, Vec<u8>)> = vec![];
        for a in [[0u8, 1], [0x41, 0x42], [0x00, 0xff], [0x80, 0x7f]] {
            let s: Vec<u8> = mc::inputs::de_bruijn(2, 8).iter().map(|&d| a[d as usize]).collect();
            v.push((format!("de Bruijn order 8 over {:x?}", a), s.iter().cycle().take(600).cloned().collect()));
        }
        v.push(("de Bruijn order 3 over 7 bytes".into(), mc::inputs::de_bruijn(7, 3).iter().map(|&d| (d * 41) as u8).collect()));
        v.push(("all bytes twice".into(), (0..512u32).map(|x| x as u8).collect()));
        for b in [0u8, 0xff, 0x5a] { v.push((format!("{:x} x 900", b), vec![b; 900])); }
        v.push(("noise".into(), (0..1500u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 23) as u8).collect()));
        if c.thorough() {
            v.push(("de Bruijn order 2 over 256 bytes".into(), mc::inputs::de_bruijn(256, 2).iter().map(|&d| d as u8).collect()));
            v.push(("ff x 30000".into(), vec![0xff; 30_000]));
            v.push(("00 x 30000".into(), vec![0; 30_000]));
        }
        v
    };
    let patterns: u64 = 8;
    c.stage("final_stage_runs", &format!("{} byte sequences x 8 input patterns through the final stage, every bit against maps trained alone", runs.len()), runs.len() as u64 * patterns, move |_, case, l| {
        let (name, bytes) = &runs[(case / patterns) as usize];
        let p = (case % patterns) as usize;
        l.describe(|| format!("{} input pattern {}", name, p));
        finalizer_run(bytes, &|n| match p { 0 | 1 | 2 | 3 | 4 | 5 => p, 6 => n % 6, _ => n.count_ones() as usize }, luts, l)
    });
    let alpha = [0x00u8, 0x01, 0x80, 0xff];
    let depth = c.pick(5u32, 6);
    let words = 4u64.pow(depth);
    c.stage("final_stage_words", &format!("all {} byte words of length {} over 4 bytes from a fresh stage, mixed inputs", words, depth), words, move |_, case, l| {
        let w: Vec<u8> = digits(case, 4, depth as usize).iter().map(|&d| alpha[d as usize]).collect();
        l.describe(|| format!("{:x?}", w));
        finalizer_run(&w, &|n| n + case as usize, luts, l)
    });
    let depth = c.pick(5u32, 8);
    c.stage("final_stage_pairing", &format!("all words of depth {} over refine and update: refused iff not alternating", depth), 1 << depth, move |_, case, l| {
        let w = digits(case, 2, depth as usize);
        l.describe(|| format!("{:?}", w));
        let mut fin = PredictionFinalizer::new(luts);
        let mut lb = LastBytesCache::new();
        push(&mut lb, 0x33); lb.start_new_byte();
        let mut pending = false;
        for &op in &w {
            let refused = { let (fin, lb) = (&mut fin, &lb); refuses(move || if op == 0 {
                fin.refine(FractOnlyU32::HALF, StretchedProbD::ZERO, 3, lb); } else { fin.update(Bit::One, 3, lb); }) };
            let ok = pending == (op == 1);
            l.transitions += 1;
            ensure!(refused != ok, "operation {} {}", op, if refused { "refused" } else { "accepted" });
            if !ok { break; }
            pending = !pending;
            l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    let tables: Vec<[usize; 2]> = if c.thorough() { vec![[1, 255], [257, 1], [2, 300], [16, 17], [256, 257], [1, 65537], [70000, 1], [300, 300], [3, 50000], [512, 512]] }
        else { vec![[257, 1], [2, 300], [256, 257], [1, 65537], [300, 300], [1025, 1024]] };
    let tb = &tables;
    c.stage("large_tables", &format!("estimator and mixer kits over tables of sizes {:?}: slots around every power of two trained in two passes, then every slot compared", tables), tables.len() as u64 * 2, move |_, case, l| {
        let d = split(case, &[tb.len() as u64, 2]);
        l.describe(|| format!("table {:?} {}", tb[d[0] as usize], if d[1] == 1 { "mixers" } else { "estimators" }));
        large_table(&tb[d[0] as usize], d[1] == 1, luts, l)
    });
    c.assume("the twins are the crate's own estimators, mixers and maps, whose behaviour C15, C20 and C21 decide");
    c.finish()
}
