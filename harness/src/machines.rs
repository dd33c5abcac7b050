//! Every stateful part of the crate wrapped into a machine with three operations, each of
//! which gives a digest of what can be observed.
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::NodeChildren;
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::tree::TreeHistorySource;
use demixer::history::window::{InputWindow, WindowIndex};
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap as Apm;
use demixer::mixing::mixer::*;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::Predictor;
use demixer::random::MersenneTwister;
use demixer::util::indexer::*;
use demixer::util::last_bytes::LastBytesCache;
use crate::coder::*;
use crate::contexts::{some_costs, view};
use mc::*;

/// One instance under test; every operation gives a digest of what is observable.
pub trait Machine { fn step(&mut self, op: usize) -> u64; fn refused(&mut self); }
/// The harness hands a machine to one thread at a time.
pub struct Owned<'a>(pub Box<dyn Machine + 'a>);
unsafe impl<'a> Send for Owned<'a> {}

pub fn text(s: &str) -> u64 { s.bytes().fold(7, |h, b| mix(h, b as u64)) }

/// Sink and source shared with the harness.
pub struct SharedSink(Arc<Mutex<Vec<u8>>>, Arc<Mutex<bool>>);
impl Write for SharedSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if *self.1.lock().unwrap() { return Err(std::io::Error::from(std::io::ErrorKind::Other)); }
        self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub struct SharedSource(Arc<Mutex<usize>>, Vec<u8>);
impl Read for SharedSource {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let mut p = self.0.lock().unwrap();
        b[0] = *self.1.get(*p).unwrap_or(&0x5c);
        *p += 1;
        Ok(1)
    }
}

pub const PROBS: [u32; 3] = [1 << 22, 1 << 11, P_ONE - 3];

pub struct Enc { enc: Encoder<'static>, out: Arc<Mutex<Vec<u8>>>, broken: Arc<Mutex<bool>> }
impl Machine for Enc {
    fn step(&mut self, op: usize) -> u64 {
        // several symbols at a time, so that bytes come out
        for k in 0..6 {
            match op {
                0 => self.enc.encode_bit(prob(PROBS[k % 3]), (k % 2 == 0).into()),
                1 => self.enc.encode_bit(prob(PROBS[(k + 1) % 3]), (k % 3 == 0).into()),
                _ => self.enc.encode_rare_event(k == 2),
            }
        }
        self.out.lock().unwrap().iter().fold(3, |h, &b| mix(h, b as u64))
    }
    fn refused(&mut self) { *self.broken.lock().unwrap() = true; for _ in 0..100 { self.step(0); } }
}
pub struct Dec { dec: Decoder<'static>, read: Arc<Mutex<usize>> }
impl Machine for Dec {
    fn step(&mut self, op: usize) -> u64 {
        let mut h = 1;
        for k in 0..6 {
            let b = match op {
                0 => self.dec.decode_bit(prob(PROBS[k % 2])).is_1(),
                1 => self.dec.decode_bit(prob(PROBS[(k + 1) % 3])).is_1(),
                _ => self.dec.decode_rare_event(),
            };
            h = mix(h, b as u64);
        }
        mix(h, *self.read.lock().unwrap() as u64)
    }
    fn refused(&mut self) { panic!() }
}

/// Half bytes over a small alphabet, so that contexts repeat.
pub struct Hist<H> { src: H, order: usize, half: bool, step: usize, costs: bool }
impl<'a, H: HistorySource<'a>> Hist<H> {
    fn new(window: usize, order: usize, luts: &'a LookUpTables) -> Self { Hist { src: H::new(window, order, luts), order, half: false, step: 0, costs: true } }
    /// The naive source accepts only the initial costs.
    fn without_costs(mut self) -> Self { self.costs = false; self }
}
impl<'a, H: HistorySource<'a>> Machine for Hist<H> {
    fn step(&mut self, op: usize) -> u64 {
        let nibble = [0x6u8, 0x1, 0x7][op];
        if !self.half { self.src.start_new_byte(); }
        self.half = !self.half;
        let mut h = 1;
        for k in (0..4).rev() {
            let mut got = CollectedContextStates::new(self.order);
            self.src.gather_history_states(&mut got);
            for c in got.items() { h = mix(h, text(&format!("{:?}", view(c)))); }
            let costs: Vec<CostTrackers> = got.items().iter().enumerate().filter(|x| x.1.is_for_node()).map(|x| if self.costs { some_costs(self.step, x.0) } else { CostTrackers::DEFAULT }).collect();
            self.src.process_input_bit((nibble >> k & 1 == 1).into(), &costs);
            self.step += 1;
        }
        h
    }
    fn refused(&mut self) { if !self.half { self.src.start_new_byte(); } self.src.start_new_byte(); panic!() }
}

pub fn chains() -> Vec<(Vec<ContextState>, bool)> {
    let edge = |d, n, b: bool| ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: n, repeated_bit: b.into() };
    let node = |d, p: u32, n, b: bool| ContextState::ForNode { last_occurrence_distance: d,
        probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new(p << 9, 31), n),
        recent_bits: RecentBitsHistory::for_new_node(b.into(), 3), bits_runs: BitsRunsTracker::for_new_node(b.into(), 3),
        cost_trackers: CostTrackers::new(CostTracker::new(20000), CostTracker::new(31000)) };
    vec![
        (vec![node(3, 1_100_000, 9, true), node(3, 900_000, 4, true), edge(5, 3, false)], true),
        (vec![edge(12000, 1, true), edge(12000, 1, true)], false),
        (vec![node(150, 2_000_000, 300, false), node(150, 2_000_000, 300, false)], true),
    ]
}

pub struct Chained<'a> { real: ContextsChainPredictionMixer<'a> }
impl<'a> Machine for Chained<'a> {
    fn step(&mut self, op: usize) -> u64 {
        let (chain, bit) = chains().swap_remove(op);
        let mut c = CollectedContextStates::new(chain.len() - 1);
        for s in chain { c.push(s); }
        let (sq, st) = self.real.predict(&c, 1 + op as u8);
        let mut h = mix(sq.raw() as u64, st.raw() as u64);
        for t in self.real.update(bit.into(), &c) { h = mix(h, (t.stationary().raw() as u64) << 16 | t.non_stationary().raw() as u64); }
        h
    }
    fn refused(&mut self) {
        let mut c = CollectedContextStates::new(2);
        for s in chains().swap_remove(0).0 { c.push(s); }
        self.real.predict(&c, 1);
        self.real.predict(&c, 1);
    }
}

pub const INPUTS: [[i32; 8]; 3] = [[400_000, -5_000_000, 3, 9_000_000, -70_000, 1, 2, 3], [-900_000, -1, 2_000_000, 300, -8_000_000, 5, -6, 7], [12_000_000, 11_000_000, -12_000_000, 0, 0, 4_000_000, 1, 9]];
pub fn feed<M: Mixer>(m: &mut M, i: usize, luts: &LookUpTables) {
    for k in 0..m.size() {
        let st = StretchedProbD::new(INPUTS[i][k % 8], 21);
        m.set_input(k, luts.squash_lut().squash(st), st);
    }
}
pub struct Mixed<'a, M> { m: M, luts: &'a LookUpTables }
impl<'a, M: Mixer> Machine for Mixed<'a, M> {
    fn step(&mut self, op: usize) -> u64 {
        feed(&mut self.m, op, self.luts);
        let (sq, st) = self.m.mix_all(self.luts.squash_lut());
        self.m.update_and_reset((op != 1).into(), sq, 200, self.luts.d_estimator_rates());
        let mut h = mix(sq.raw() as u64, st.raw() as u64);
        for k in 0..self.m.size() { h = mix(h, self.m.weight(k).raw() as u64); }
        h
    }
    fn refused(&mut self) { self.m.mix_all(self.luts.squash_lut()); }
}

pub struct Mapped<'a> { map: Apm, bits: u8, luts: &'a LookUpTables }
impl<'a> Machine for Mapped<'a> {
    fn step(&mut self, op: usize) -> u64 {
        let st = StretchedProbD::new(INPUTS[op][0], 21);
        let got = self.map.refine(op % 2, self.luts.squash_lut().squash(st), st, self.luts.apm_lut(self.bits));
        self.map.update_predictions(op % 2, (op != 1).into(), 3, op == 2);
        got.raw() as u64
    }
    fn refused(&mut self) { self.map.update_predictions(0, Bit::One, 3, true); }
}

pub struct Estimators<'a> { kit: EstimatorsWithIndexer<Indexer2>, luts: &'a LookUpTables }
impl<'a> Machine for Estimators<'a> {
    fn step(&mut self, op: usize) -> u64 {
        let (sq, st) = self.kit.predict(self.luts, |i| i.with_sub_index(op % 2).with_sub_index(op));
        self.kit.update((op != 1).into(), self.luts);
        mix(sq.raw() as u64, st.raw() as u64)
    }
    fn refused(&mut self) { self.kit.update(Bit::One, self.luts); }
}
pub struct Mixers<'a> { kit: MixersWithIndexer<Mixer2, Indexer2>, luts: &'a LookUpTables }
impl<'a> Machine for Mixers<'a> {
    fn step(&mut self, op: usize) -> u64 {
        let luts = self.luts;
        let (sq, st) = self.kit.predict(|i| i.with_sub_index(op % 2).with_sub_index(op), |m| feed(m, op, luts), luts);
        self.kit.update((op != 1).into(), 90, luts);
        mix(sq.raw() as u64, st.raw() as u64)
    }
    fn refused(&mut self) { self.kit.update(Bit::One, 90, self.luts); }
}

pub struct Last { cache: LastBytesCache, left: u32 }
impl Machine for Last {
    fn step(&mut self, op: usize) -> u64 {
        let mut h = 5;
        for k in 0..3 {
            if self.left == 0 { self.cache.start_new_byte(); self.left = 8; }
            for v in [self.cache.unfinished_byte().raw() as u64, self.cache.previous_byte_1() as u64, self.cache.previous_byte_2() as u64,
                self.cache.previous_byte_3() as u64, self.cache.hash01_16() as u64, self.cache.hash02_16() as u64, self.cache.hash03_16() as u64] { h = mix(h, v); }
            self.cache.on_next_bit((([0b101, 0b010, 0b111][op] >> k) & 1 == 1).into());
            self.left -= 1;
        }
        h
    }
    fn refused(&mut self) { if self.left > 0 { self.cache.start_new_byte(); } else { self.cache.on_next_bit(Bit::One); } }
}

/// A partly given index stays pending between operations.
pub struct Ix { ix: Indexer3, given: usize, dims: Vec<usize> }
impl Machine for Ix {
    fn step(&mut self, op: usize) -> u64 {
        let mut h = 1;
        for k in 0..=op {
            if self.given == 3 { h = mix(h, self.ix.get_array_index_and_reset() as u64); self.given = 0; }
            let v = (op + k) % self.dims[self.given];
            self.ix.with_sub_index(v);
            self.given += 1;
        }
        mix(h, self.given as u64)
    }
    fn refused(&mut self) { if self.given == 3 { self.ix.with_sub_index(0); } else { self.ix.get_array_index_and_reset(); } }
}

pub struct Twister { g: MersenneTwister }
impl Machine for Twister {
    fn step(&mut self, op: usize) -> u64 {
        match op { 0 => self.g.next_int64(), 1 => self.g.next_real1().to_bits() ^ self.g.next_real3().to_bits(), _ => self.g.next_int63() as u64 }
    }
    fn refused(&mut self) { panic!() }
}

/// `cells` cells are in use or were: all of them can be read.
pub struct Win { w: InputWindow, cells: usize }
impl Machine for Win {
    fn step(&mut self, op: usize) -> u64 {
        match op {
            0 => { if self.w.size() == self.w.max_size() { self.w.advance_start(); } self.w.advance_cursor(); self.w.set_byte_at_cursor(0xa7); }
            1 => { if self.w.size() == self.w.max_size() { self.w.advance_start(); } self.w.advance_cursor(); for k in 0..8 { self.w.set_bit_at_cursor((k % 3 == 0).into(), k); } }
            _ => if self.w.size() > 0 { self.w.advance_start(); },
        }
        if op < 2 { self.cells = (self.cells + 1).min(self.w.max_size()); }
        let mut h = mix(self.w.size() as u64, self.w.start().raw() as u64);
        h = mix(h, self.w.cursor().raw() as u64);
        for k in 0..self.cells { h = mix(h, self.w[WindowIndex::new(k)] as u64); }
        h
    }
    fn refused(&mut self) { while self.w.size() > 0 { self.w.advance_start(); } self.w.advance_start(); }
}

pub struct Pool { p: Nodes, live: Vec<NodeIndex>, id: usize }
pub fn node(id: usize) -> Node {
    Node::new(WindowIndex::new(id), DeceleratingEstimator::new(), 9, CostTrackers::DEFAULT,
        BitsRunsTracker::for_new_node(Bit::One, 1), 1, 1, RecentBitsHistory::for_new_node(Bit::One, 1),
        NodeChildren::new([WindowIndex::new(id + 1).into(), WindowIndex::new(id + 2).into()]))
}
impl Machine for Pool {
    fn step(&mut self, op: usize) -> u64 {
        self.id += 1;
        match op {
            0 => { let i = self.p.add_node(node(self.id * 10)).to_node_index(); self.live.push(i); }
            1 => if let Some(&i) = self.live.first() { self.p.update_node(i, node(self.id * 10)); },
            _ => if !self.live.is_empty() { let i = self.live.remove(0); self.p.delete_node(i); },
        }
        let mut h = mix(self.p.live_nodes_count() as u64, 0);
        for &i in &self.live { h = mix(mix(h, i.raw() as u64), text(&format!("{:?} {:?}", self.p[i].text_start(), self.p[i].child(Direction::Left).to_window_index()))); }
        h
    }
    fn refused(&mut self) { for _ in 0..1000 { self.p.add_node(node(5)); } }
}

pub struct Final<'a> { f: PredictionFinalizer<'a>, luts: &'a LookUpTables, lb: LastBytesCache, left: u32 }
impl<'a> Machine for Final<'a> {
    fn step(&mut self, op: usize) -> u64 {
        if self.left == 0 { self.lb.start_new_byte(); self.left = 8; }
        self.left -= 1;
        let bit: Bit = (op != 1).into();
        let st = StretchedProbD::new([0, 4_000_000, -9_000_000][op], 21);
        let sq = self.luts.squash_lut().squash(st);
        let p = self.f.refine(sq, st, op, &self.lb);
        self.f.update(bit, op, &self.lb);
        self.lb.on_next_bit(bit);
        p.raw() as u64
    }
    fn refused(&mut self) { self.f.update(Bit::One, 1, &self.lb); }
}

pub struct Whole<'a> { p: Predictor<'a>, at: u32 }
impl<'a> Machine for Whole<'a> {
    fn step(&mut self, op: usize) -> u64 {
        let nibble = [0x6u8, 0x1, 0x7][op];
        if self.at % 2 == 0 { self.p.start_new_byte(); }
        self.at += 1;
        let mut h = 1;
        for k in (0..4).rev() { h = mix(h, self.p.predict().raw() as u64); self.p.update((nibble >> k & 1 == 1).into()); }
        h
    }
    fn refused(&mut self) { self.p.update(Bit::One); }
}

pub const KINDS: [&str; 22] = ["encoder", "decoder", "tree history", "map history", "naive history", "contexts chain", "mixer of 1", "mixer of 2", "mixer of 3",
    "mixer of 4", "mixer of 5", "mixer of n", "adaptive map", "estimators kit", "mixers kit", "last bytes", "indexer", "generator", "input window", "node pool",
    "final stage", "predictor"];
/// Kinds which are cheap enough for the long words.
pub const LIGHT: usize = 20;
/// No operation of these is ever refused in a way worth exploring.
pub fn has_refusal(kind: usize) -> bool { ![1, 17].contains(&kind) }

pub fn make<'a>(kind: usize, variant: usize, luts: &'a LookUpTables) -> Owned<'a> {
    let v = variant;
    let rate = [1u16, 7][v % 2];
    let mode = || if v == 0 { MixerInitializationMode::EqualSummingToOne } else { MixerInitializationMode::DominantFirst };
    macro_rules! mixer { ($t:ident) => { Box::new(Mixed { m: $t::new(rate, mode()), luts }) } }
    Owned(match kind {
        0 => {
            let (out, broken) = (Arc::new(Mutex::new(vec![])), Arc::new(Mutex::new(false)));
            let sink: &'static mut SharedSink = Box::leak(Box::new(SharedSink(out.clone(), broken.clone())));
            Box::new(Enc { enc: Encoder::new(sink), out, broken })
        }
        1 => {
            let read = Arc::new(Mutex::new(0));
            let data = (0..64u32).map(|i| (i.wrapping_mul(2654435761) >> (7 + v)) as u8).collect();
            let source: &'static mut SharedSource = Box::leak(Box::new(SharedSource(read.clone(), data)));
            Box::new(Dec { dec: Decoder::new(source), read })
        }
        2 => Box::new(Hist::<TreeHistorySource>::new([20, 3][v], [6, 3][v], luts)),
        3 => Box::new(Hist::<FatMapHistorySource>::new(20, [6, 3][v], luts)),
        4 => Box::new(Hist::<NaiveHistorySource>::new(20, [6, 3][v], luts).without_costs()),
        5 => Box::new(Chained { real: ContextsChainPredictionMixer::new([2, 3][v], luts) }),
        6 => mixer!(Mixer1), 7 => mixer!(Mixer2), 8 => mixer!(Mixer3), 9 => mixer!(Mixer4), 10 => mixer!(Mixer5),
        11 => Box::new(Mixed { m: MixerN::new([3, 7][v], rate, mode()), luts }),
        12 => Box::new(Mapped { map: Apm::new(2, v as u8, luts.squash_lut()), bits: v as u8, luts }),
        13 => Box::new(Estimators { kit: EstimatorsWithIndexer::new(Indexer2::new(vec![2, 3 + v])), luts }),
        14 => Box::new(Mixers { kit: MixersWithIndexer::new(|| Mixer2::new(rate, mode()), Indexer2::new(vec![2, 3 + v])), luts }),
        15 => Box::new(Last { cache: LastBytesCache::new(), left: 0 }),
        16 => { let dims = [vec![2, 3, 4], vec![5, 3, 2]][v].clone(); Box::new(Ix { ix: Indexer3::new(dims.clone()), given: 0, dims }) }
        17 => {
            let mut g = if v == 0 { MersenneTwister::new_by_scalar_seed(5) } else { MersenneTwister::new_by_vector_seed(&[9, 8, 7]) };
            // the next draws cross a regeneration of the state
            for _ in 0..311 { g.next_int64(); }
            Box::new(Twister { g })
        }
        18 => Box::new(Win { w: InputWindow::new([3, 5][v], [0, 2][v]), cells: [0, 2][v] }),
        19 => Box::new(Pool { p: { let mut p = Nodes::new(16); p.update_node(NodeIndex::new(0), node(1)); p }, live: vec![], id: v * 50 }),
        20 => Box::new(Final { f: PredictionFinalizer::new(luts), luts, lb: LastBytesCache::new(), left: 0 }),
        _ => Box::new(Whole { p: Predictor::new(luts), at: 0 }),
    })
}

#[derive(Clone, Debug)]
pub struct Script { pub kind: usize, pub variant: usize, pub ops: Vec<usize> }
impl std::fmt::Display for Script {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{} {} {:?}", KINDS[self.kind], self.variant, self.ops) }
}

/// What the machine answers when it is the only one its thread ever sees.
pub fn solo(s: &Script, luts: &LookUpTables) -> Vec<u64> {
    std::thread::scope(|t| t.spawn(|| {
        let mut m = make(s.kind, s.variant, luts);
        s.ops.iter().map(|&o| m.0.step(o)).collect()
    }).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}

