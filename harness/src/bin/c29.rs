//! C29: the predictor is exactly the pipeline of its documented stages.
#[allow(dead_code)]
#[path = "../chain.rs"]
mod chain;
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use demixer::bit::Bit;
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::Predictor;
use demixer::util::last_bytes::LastBytesCache;
use chain::{Chain, FinalStage};
use mc::inputs::*;
use predict::*;
use mc::*;

const ORDER: usize = 20;
const WINDOW: usize = 10_000_000;

struct Model<'a> {
    tree: TreeHistorySource<'a>,
    states: CollectedContextStates,
    chain: Chain<'a>,
    last: FinalStage<'a>,
    bytes: LastBytesCache,
}

impl<'a> Model<'a> {
    fn new(luts: &'a LookUpTables) -> Self {
        Model { tree: TreeHistorySource::new(WINDOW, ORDER, luts), states: CollectedContextStates::new(ORDER),
            chain: Chain::new(luts), last: FinalStage::new(luts), bytes: LastBytesCache::new() }
    }
    fn start(&mut self) { self.bytes.start_new_byte(); self.tree.start_new_byte(); }
    fn predict(&mut self, l: &mut Local) -> u32 {
        self.states.reset();
        self.tree.gather_history_states(&mut self.states);
        l.max("max_contexts", self.states.items().len() as u64);
        let all = self.chain.predict(self.states.items(), self.bytes.unfinished_byte().raw());
        let (sq, st) = all[all.len() - 1];
        self.last.refine(sq, st, &self.bytes)
    }
    fn update(&mut self, bit: bool) {
        let costs = self.chain.update(bit);
        self.tree.process_input_bit(bit.into(), &costs);
        self.last.update(bit, &self.bytes);
        self.bytes.on_next_bit(bit.into());
    }
}

fn run(bytes: &[u8], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut p = Predictor::new(luts);
    let mut m = Model::new(luts);
    for (at, &b) in bytes.iter().enumerate() {
        p.start_new_byte();
        m.start();
        for i in (0..8).rev() {
            let bit = b >> i & 1 == 1;
            let (got, want) = (p.predict().raw(), m.predict(l));
            ensure!(got == want, "byte {} bit {}: predicted {} where the stages in sequence give {}", at, 7 - i, got, want);
            p.update(bit.into());
            m.update(bit);
            l.states += 1; l.transitions += 2;
            l.outcome(got as u64);
        }
    }
    l.max("max_classes", m.chain.classes() as u64);
    l.traces += 1;
    Ok(())
}

fn main() {
    let mut c = Check::new("C29", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let len = c.pick(10usize, 12);
    let na = ALPHABETS.len() as u64;
    c.stage("two_symbols", &format!("all strings of length {} over {} two-symbol alphabets, every bit", len, na), (1 << len) * na, move |_, case, l| {
        let x = split(case, &[1 << len, na]);
        let bytes: Vec<u8> = digits(x[0], 2, len).iter().map(|&d| ALPHABETS[x[1] as usize][d]).collect();
        l.describe(|| format!("{:02x?}", bytes));
        run(&bytes, luts, l)
    });
    let len = c.pick(7usize, 8);
    c.stage("three_symbols", &format!("all strings of length {} over three symbols, two alphabets", len), 3u64.pow(len as u32) * 2, move |_, case, l| {
        let a = [[0x61u8, 0x62, 0xe1], [0, 0x80, 0xff]][(case % 2) as usize];
        let bytes: Vec<u8> = digits(case / 2, 3, len).iter().map(|&d| a[d as usize]).collect();
        l.describe(|| format!("{:02x?}", bytes));
        run(&bytes, luts, l)
    });
    let maxp = c.pick(5usize, 7);
    let plen = c.pick(120usize, 400);
    let pats: Vec<Vec<usize>> = (1..=maxp).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let pt = &pats;
    c.stage("disturbed_patterns", &format!("every pattern of period up to {} over {{'a','n'}} repeated to {} bytes with one foreign or skipped byte at 4 places", maxp, plen),
        pats.len() as u64 * 8, move |_, case, l| {
            let x = split(case, &[pt.len() as u64, 8]);
            let p = &pt[x[0] as usize];
            let mut bytes: Vec<u8> = (0..plen).map(|i| if p[i % p.len()] == 1 { b'n' } else { b'a' }).collect();
            let place = 3 + (x[1] as usize % 4) * plen / 4;
            if x[1] < 4 { bytes[place] = 0xe3 } else { bytes.remove(place); }
            l.describe(|| format!("{:02x?}", bytes));
            run(&bytes, luts, l)
        });
    let st = structured(c.thorough());
    let sr = &st;
    c.stage("structured", "long structured inputs: de Bruijn, Fibonacci, Thue-Morse, counters, noise, text, runs, distant repeats, counter saturation", st.len() as u64, move |_, case, l| {
        l.describe(|| sr[case as usize].0.clone());
        run(&sr[case as usize].1, luts, l)
    });
    // Far repeats and the sliding window, against the crate's own stages called in turn.
    let mut far: Vec<(String, Vec<u8>)> = vec![];
    let noise = |n: usize, mask: u8| -> Vec<u8> { let mut s = 0x9E3779B97F4A7C15u64; (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 32) as u8 & mask }).collect() };
    for &(n, mask) in c.pick(&[(9_999_990usize, 0xffu8), (100_000, 0xff), (300_000, 0x81)][..], &[(9_999_990, 0xff), (10_060_000, 0xff), (10_100_000, 0x81), (10_030_000, 0), (1_000_000, 0xff), (1_000_000, 3)][..]) {
        let mut v = noise(n, mask);
        let head = v[..1500].to_vec();
        v.extend(head);
        far.push((format!("{} bytes of noise (mask {:x}) and its beginning again", n, mask), v));
    }
    let fa = &far;
    c.stage("far", "noise and its beginning again, at distances up to and beyond the window of ten million bytes, against the crate's own stages called in turn", far.len() as u64, move |_, case, l| {
        l.describe(|| fa[case as usize].0.clone());
        if l.sampling() { return Ok(()); }
        let mut p = Predictor::new(luts);
        let mut tree = TreeHistorySource::new(WINDOW, ORDER, luts);
        let mut states = CollectedContextStates::new(ORDER);
        let mut chain = ContextsChainPredictionMixer::new(ORDER, luts);
        let mut last = PredictionFinalizer::new(luts);
        let mut lb = LastBytesCache::new();
        for (at, &b) in fa[case as usize].1.iter().enumerate() {
            if at % 1024 == 0 { l.alive(); }
            p.start_new_byte();
            lb.start_new_byte();
            tree.start_new_byte();
            for i in (0..8).rev() {
                let bit: Bit = (b >> i & 1 == 1).into();
                states.reset();
                tree.gather_history_states(&mut states);
                let (sq, st) = chain.predict(&states, lb.unfinished_byte().raw());
                let want = last.refine(sq, st, states.items().len(), &lb);
                let got = p.predict();
                ensure!(got == want, "byte {} bit {}: predicted {} where the stages in sequence give {}", at, 7 - i, got.raw(), want.raw());
                p.update(bit);
                let costs = chain.update(bit, &states);
                tree.process_input_bit(bit, &costs);
                last.update(bit, states.items().len(), &lb);
                lb.on_next_bit(bit);
                l.states += 1; l.transitions += 2;
            }
        }
        l.max("max_input_bytes", fa[case as usize].1.len() as u64);
        l.traces += 1;
        Ok(())
    });
    // the call protocol: after every legal prefix, each of the three calls
    let steps = c.pick(55u64, 140);
    let words: [&[u8]; 4] = [&[0], &[0xff, 0], &[0x61, 0x61, 0x62], &[0x80, 0x7f, 0x80]];
    c.stage("protocol", &format!("after every legal prefix of up to {} calls over {} byte streams, each of the three calls: refused iff out of turn", steps, words.len()), (steps + 1) * 3 * words.len() as u64, move |_, case, l| {
        let x = split(case, &[steps + 1, 3, words.len() as u64]);
        l.describe(|| format!("{} calls, then {}", x[0], ["start of byte", "predict", "update"][x[1] as usize]));
        let w = words[x[2] as usize];
        let mut p = Predictor::new(luts);
        let mut turn = 0; // 0: start of byte, then 8 times predict (odd) and update (even)
        for k in 0..x[0] {
            let b = w[(k / 17) as usize % w.len()];
            if turn == 0 { p.start_new_byte(); }
            else if turn % 2 == 1 { p.predict(); }
            else { p.update((b >> (8 - turn / 2) & 1 == 1).into()); }
            turn = (turn + 1) % 17;
            l.states += 1;
        }
        let ok = match x[1] { 0 => turn == 0, 1 => turn % 2 == 1, _ => turn % 2 == 0 && turn > 0 };
        let refused = refuses(move || match x[1] { 0 => p.start_new_byte(), 1 => { p.predict(); } _ => p.update(Bit::One) });
        l.transitions += 1; l.traces += 1;
        ensure!(refused != ok, "call out of turn accepted or legal call refused (refused: {}, legal: {})", refused, ok);
        Ok(())
    });
    c.assume("the history source and the maps, mixers and estimators are the crate's own: C06 to C09 and C12 to C24 decide them");
    c.finish()
}
