//! C28: the contexts chain, against stand-alone mixers and estimators that are
//! created per class of context and trained only by the contexts of that class.
#[allow(dead_code)]
#[path = "../chain.rs"]
mod chain;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::{CollectedContextStates, ContextState};
use demixer::lut::LookUpTables;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use chain::Chain;
use mc::*;

#[derive(Clone, Copy, Debug)]
struct E { d: usize, n: u16, b: bool }
/// `run`, `opp`: lengths of the last two runs, `b`: last bit, (`p`, `n`): estimator, (`s`, `ns`): costs
#[derive(Clone, Copy, Debug)]
struct N { d: usize, p: u32, n: u16, run: u16, opp: u16, b: bool, s: u16, ns: u16 }
#[derive(Clone, Copy, Debug)]
enum X { Edge(E), Node(N) }

fn edge(d: usize, n: u16, b: bool) -> X { X::Edge(E { d, n, b }) }

fn state(x: &X) -> ContextState {
    match *x {
        X::Edge(E { d, n, b }) => ContextState::ForEdge { last_occurrence_distance: d, occurrence_count: n, repeated_bit: b.into() },
        X::Node(N { d, p, n, run, opp, b, s, ns }) => {
            let bit: Bit = b.into();
            let mut r = BitsRunsTracker::for_new_node(bit, opp);
            for _ in 1..run { r = r.updated(bit); }
            ContextState::ForNode { last_occurrence_distance: d,
                probability_estimator: DeceleratingEstimator::make(FractOnlyU32::new(p << 9, 31), n),
                recent_bits: RecentBitsHistory::for_new_node(bit, opp), bits_runs: r,
                cost_trackers: CostTrackers::new(CostTracker::new(s), CostTracker::new(ns)) }
        }
    }
}

const NODE: N = N { d: 5, p: 1_100_000, n: 4, run: 1, opp: 2, b: true, s: 24576, ns: 24576 };

fn collect(chain: &[ContextState]) -> CollectedContextStates {
    let mut c = CollectedContextStates::new(chain.len().max(1) - 1);
    for s in chain { c.push(s.clone()); }
    c
}

/// Feeds (chain, context byte, bit) triples to the chain mixer and the reference.
struct Pair<'a> { real: ContextsChainPredictionMixer<'a>, model: Chain<'a>, step: usize }

impl<'a> Pair<'a> {
    fn new(max_order: usize, luts: &'a LookUpTables) -> Self {
        Pair { real: ContextsChainPredictionMixer::new(max_order, luts), model: Chain::new(luts), step: 0 }
    }
    fn step(&mut self, chain: &[ContextState], byte: u8, bit: bool, l: &mut Local) -> CaseResult {
        let collected = collect(chain);
        let got = self.real.predict(&collected, byte);
        let want = self.model.predict(chain, byte);
        let want = want[want.len() - 1];
        ensure!(got == want, "step {} {:?} byte {:x}: predicts {}/{} instead of {}/{}", self.step, chain, byte,
            got.0.raw(), got.1.raw(), want.0.raw(), want.1.raw());
        let costs = self.real.update(bit.into(), &collected);
        let expect = self.model.update(bit);
        ensure!(costs == expect, "step {} {:?} byte {:x} bit {}: cost trackers {:?} instead of {:?}", self.step, chain, byte, bit as u8, costs, expect);
        self.step += 1;
        l.states += 1; l.transitions += 2;
        l.outcome(got.1.raw() as u64);
        Ok(())
    }
    fn end(&self, l: &mut Local) { l.traces += 1; l.max("max_classes", self.model.classes() as u64); }
}

/// Every legal chain over the given contexts: branching ones first.
fn chains(letters: &[X], max_len: usize) -> Vec<Vec<X>> {
    let mut all: Vec<Vec<X>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max_len {
        let to = all.len();
        for i in from..to {
            for &x in letters {
                let illegal = match (all[i].last(), &x) { (Some(X::Edge(_)), X::Node(_)) => true, _ => false };
                if !illegal { let mut c = all[i].clone(); c.push(x); all.push(c); }
            }
        }
        from = to;
    }
    all
}

fn main() {
    let mut c = Check::new("C28", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let distances = [1usize, 99, 100, 101, 999, 1_000, 1_001, 9_999, 10_000, 10_001, 10_000_000];

    // 1. All words over legal chains.
    let sets: Vec<(&str, Vec<X>, usize, u32)> = vec![
        ("mixed", vec![edge(7, 1, false), edge(500, 3, false), X::Node(NODE), X::Node(N { p: 900_000, n: 9, run: 3, opp: 1, b: false, s: 20_000, ns: 12_000, ..NODE })], 2, c.pick(4, 5)),
        ("mixed_long", vec![edge(7, 2, true), X::Node(N { p: 3_000_000, ..NODE })], 4, c.pick(4, 5)),
        ("edges", vec![edge(1, 1, false), edge(1, 1, true), edge(1, 2, true), edge(20_000, 1, true)], 2, c.pick(3, 4)),
        ("nodes", vec![X::Node(NODE), X::Node(N { d: 700, ..NODE }), X::Node(N { opp: 40, ..NODE }), X::Node(N { ns: 60_000, ..NODE })], 2, c.pick(3, 4)),
        ("equal_states", vec![X::Node(NODE), X::Node(N { n: 5, ..NODE }), edge(3, 4, false), edge(4, 4, false)], 3, c.pick(2, 3)),
    ];
    for (name, letters, max_len, depth) in sets {
        let all: Vec<Vec<ContextState>> = chains(&letters, max_len).iter().map(|c| c.iter().map(state).collect()).collect();
        let radix = all.len() as u64 * 2;
        let words = radix.pow(depth);
        c.stage(&format!("words_{}", name), &format!("all {} words of depth {} over {} legal chains of up to {} contexts and both outcomes", words, depth, all.len(), max_len), words, move |_, case, l| {
            let w: Vec<usize> = { let mut v = vec![]; let mut x = case; for _ in 0..depth { v.push((x % radix) as usize); x /= radix; } v };
            l.describe(|| format!("{:?}", w.iter().map(|&x| (&all[x / 2], x % 2)).collect::<Vec<_>>()));
            let mut p = Pair::new(max_len - 1, luts);
            for (k, &x) in w.iter().enumerate() { p.step(&all[x / 2], [1u8, 1, 0xff, 1][k % 4], x % 2 == 1, l)?; }
            p.end(l);
            Ok(())
        });
    }

    // 2. Every pair of contexts out of a boundary-dense set: does training one touch the other?
    let mut edges: Vec<(X, u8)> = vec![];
    for &d in distances.iter() { for &n in &[1u16, 2, 3, 4, 6, 1000] { for b in [false, true] { edges.push((edge(d, n, b), 1)); } } }
    for n in [1u16, 2, 3, 4, 5, 6, 7, 8, 11, 12, 15, 16, 511, 512, 767, 768, 999, 1000] { for byte in [1u8, 2, 3, 127, 128, 254, 255] { edges.push((edge(1, n, false), byte)); } }
    let mut nodes: Vec<(X, u8)> = vec![];
    for &d in distances.iter() { for opp in [1u16, 2, 1000] { nodes.push((X::Node(N { d, opp, ..NODE }), 1)); } }
    for opp in [1u16, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 256, 384, 512, 767, 768, 1000] { for run in [1u16, 2, 3, 1000] { nodes.push((X::Node(N { opp, run, ..NODE }), 1)); } }
    for run in [1u16, 2, 3, 4, 5, 6, 8, 12, 16, 256, 511, 512, 767, 768, 999, 1000] { for b in [false, true] { nodes.push((X::Node(N { run, b, ..NODE }), 77)); } }
    for s in [8000u16, 24_000, 40_000] {
        let s32 = s as u32;
        for ns in [s32 + s32 / 2 + 1, s32 + s32 / 2, s32 + s32 / 8 + 1, s32 + s32 / 8, s32 + 1, s32, s32 * 8 / 9, s32 * 8 / 9 + 1, s32 * 2 / 3, s32 * 2 / 3 + 1, 1000] {
            nodes.push((X::Node(N { s, ns: ns.min(65_535) as u16, d: 3000, ..NODE }), 1));
        }
    }
    for p in [1u32, 2, 1 << 20, 3 << 20, (1 << 22) - 1] { for n in [1u16, 2, 1000] { nodes.push((X::Node(N { p, n, ..NODE }), 1)); } }
    for (name, set) in vec![("edges", edges.clone()), ("nodes", nodes.clone())] {
        let set: Vec<(ContextState, u8)> = set.iter().map(|(x, b)| (state(x), *b)).collect();
        let n = set.len() as u64;
        let modes: u64 = c.pick(2, 4);
        c.stage(&format!("pairs_{}", name), &format!("all {} ordered pairs of contexts around every class boundary, {} outcome patterns, at order 0", n * n, modes), n * n * modes, move |_, case, l| {
            let (i, j, m) = ((case / modes % n) as usize, (case / modes / n) as usize, case % modes);
            l.describe(|| format!("{:?} then {:?} mode {}", set[i], set[j], m));
            let bits: [bool; 6] = [[true, true, false, true, true, false], [false, false, true, true, false, false], [true, true, true, true, true, true], [false; 6]][m as usize];
            let mut p = Pair::new(0, luts);
            for (k, &x) in [i, j, i, i, j, j].iter().enumerate() { p.step(&[set[x].0.clone()], set[x].1, bits[k], l)?; }
            p.end(l);
            Ok(())
        });
    }

    // 3. Sweeps of one coordinate over its whole range, in one long history.
    let sweeps: Vec<(&str, Vec<(ContextState, u8)>)> = {
        let mut v: Vec<(&str, Vec<(X, u8)>)> = vec![];
        v.push(("edge counts", (0..1000u16).map(|n| (edge(1, n + 1, false), 1)).collect()));
        v.push(("edge counts of ones", (0..1000u16).map(|n| (edge(1, 1000 - n, true), 1)).collect()));
        v.push(("edge distances", (1..12_000).map(|d| (edge(d, 3, false), 1)).collect()));
        v.push(("edge distances backwards", (1..12_000).rev().map(|d| (edge(d, 3, true), 200)).collect()));
        v.push(("context bytes", (0..2048u32).map(|b| (edge(1, 3, b & 256 > 0), b as u8)).collect()));
        v.push(("node distances", (1..12_000).map(|d| (X::Node(N { d, ..NODE }), 1)).collect()));
        v.push(("opposite runs", (0..1000u16).map(|o| (X::Node(N { opp: o + 1, ..NODE }), 1)).collect()));
        v.push(("last runs", (0..1000u16).map(|o| (X::Node(N { run: o + 1, ..NODE }), 1)).collect()));
        v.push(("last runs of zeros", (0..1000u16).map(|o| (X::Node(N { run: 1000 - o, b: false, ..NODE }), 1)).collect()));
        v.push(("node estimates", (1..4096u32).map(|p| (X::Node(N { p: p << 10, n: (p % 1000) as u16, ..NODE }), 1)).collect()));
        for (name, s) in [("costs 16000", 16_000u32), ("costs 24576", 24_576), ("costs 63", 63), ("costs 7", 7), ("costs 65535", 65_535)] {
            v.push((name, (0..4096u32).map(|i| { let ns = if s < 100 { i % 256 } else { i * 16 };
                (X::Node(N { s: s as u16, ns: ns as u16, ..NODE }), 1) }).collect()));
            v.push((name, (0..4096u32).map(|i| { let ns = if s < 100 { i % 256 } else { i * 16 };
                (X::Node(N { s: ns as u16, ns: s as u16, ..NODE }), 1) }).collect()));
        }
        v.iter().map(|(n, w)| (*n, w.iter().map(|(x, b)| (state(x), *b)).collect())).collect()
    };
    let patterns: u64 = c.pick(4, 8);
    let lens: u64 = 3;
    c.stage("sweeps", &format!("{} one-coordinate sweeps x {} outcome patterns x chain lengths 1..3", sweeps.len(), patterns), sweeps.len() as u64 * patterns * lens, move |_, case, l| {
        let d = split(case, &[patterns, lens, sweeps.len() as u64]);
        let (name, steps) = &sweeps[d[2] as usize];
        l.describe(|| format!("{} pattern {} length {}", name, d[0], d[1] + 1));
        let mut p = Pair::new(d[1] as usize, luts);
        let mut r = 12345u32;
        for (i, (s, byte)) in steps.iter().enumerate() {
            r = r.wrapping_mul(1664525).wrapping_add(1013904223);
            let bit = match d[0] { 0 => i % 2 == 0, 1 => i % 5 == 0, 2 => (i as u32).count_ones() % 2 == 0, 3 => r >> 31 == 1, 4 => false, 5 => true, 6 => i % 64 < 32, _ => r >> 28 == 0 };
            p.step(&vec![s.clone(); d[1] as usize + 1], *byte, bit, l)?;
        }
        p.end(l);
        Ok(())
    });

    // 3b. Whole ranges: every distance the window allows, every cost pair near a
    // class boundary, every pair of run lengths, every count with every byte.
    let block = 50_000u64;
    c.stage("all_distances", "every last-occurrence distance from 1 to 10000000, deterministic and branching, each block of 50000 after a warm-up that trains the four distance classes differently", 10_000_000 / block * 2, move |_, case, l| {
        let from = 1 + case / 2 * block;
        l.describe(|| format!("distances {}..{} {}", from, from + block, if case % 2 == 0 { "deterministic" } else { "branching" }));
        let mut p = Pair::new(0, luts);
        let at = |d: usize| if case % 2 == 0 { state(&edge(d, 3, false)) } else { state(&X::Node(N { d, ..NODE })) };
        for (k, &d) in [5usize, 500, 5_000, 50_000].iter().enumerate() { for i in 0..40 { p.step(&[at(d)], 1, i % (k + 2) == 0, l)?; } }
        for d in from..from + block { p.step(&[at(d as usize)], 1, (d as u32).wrapping_mul(2654435761) >> 30 == 0, l)?; }
        p.end(l);
        Ok(())
    });
    let cblock = 512u64;
    let cstep = 1u64;
    c.stage("cost_boundaries", &format!("every cost of the stationary prediction with the costs of the run based one around every class boundary, one step apart, and the same the other way round"), 65_536 / cblock * 2, move |_, case, l| {
        let from = case / 2 * cblock;
        l.describe(|| format!("costs {}..{} {}", from, from + cblock, case % 2));
        let mut p = Pair::new(0, luts);
        let at = |s: u64, ns: u64| { let (s, ns) = if case % 2 == 0 { (s, ns) } else { (ns, s) }; state(&X::Node(N { s: s as u16, ns: ns as u16, ..NODE })) };
        for (k, ns) in [40_000u64, 24_000, 20_500, 19_000, 15_000, 9_000].iter().enumerate() { for i in 0..40 { p.step(&[at(20_000, *ns)], 1, i % (k + 2) == 0, l)?; } }
        let mut s = from;
        while s < from + cblock {
            for mid in [s + s / 2, s + s / 8, s, s * 8 / 9, s * 2 / 3, s * 7 / 8, s / 2] {
                for ns in mid.saturating_sub(3)..=mid + 3 { if ns < 65_536 { p.step(&[at(s, ns)], 1, (s * 31 + ns) % 3 == 0, l)?; } }
            }
            s += cstep;
        }
        p.end(l);
        Ok(())
    });
    let runs: Vec<u16> = if c.thorough() { (1..=1000).collect() } else { (1..=70).chain([95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 767, 768, 769, 998, 999, 1000]).collect() };
    let nr = runs.len() as u64;
    let rn = &runs;
    c.stage("run_pairs", &format!("all {} pairs of lengths of the last two runs, both last bits", nr * nr), nr * 2, move |_, case, l| {
        let opp = rn[case as usize / 2];
        l.describe(|| format!("opposite run {} last bit {}", opp, case % 2));
        let mut p = Pair::new(0, luts);
        for (k, &o) in [1u16, 2, 3, 5, 7, 13, 30, 60, 120, 240, 500, 900].iter().enumerate() { for i in 0..12 { p.step(&[state(&X::Node(N { opp: o, run: 1 + i, b: case % 2 == 1, ..NODE }))], 1, i as usize % (k % 4 + 2) == 0, l)?; } }
        for round in 0..2 { for &run in rn.iter() { p.step(&[state(&X::Node(N { opp, run, b: case % 2 == 1, ..NODE }))], 1, (run + round) % 3 == 0, l)?; } }
        p.end(l);
        Ok(())
    });
    c.stage("counts_and_bytes", "every occurrence count 1..1000 of a deterministic context with every value of the unfinished byte and both repeated bits, twice", 256 * 2, move |_, case, l| {
        let byte = (case / 2) as u8;
        l.describe(|| format!("byte {:02x} repeated bit {}", byte, case % 2));
        let mut p = Pair::new(0, luts);
        for other in [byte ^ 1, byte ^ 0x80, byte.wrapping_add(1), byte] { for n in [1u16, 2, 3, 4, 6, 8, 12, 16, 100, 700] { p.step(&[state(&edge(1, n, case % 2 == 1))], other, other & 1 == 1, l)?; } }
        for round in 0..2 { for n in 1..=1000u16 { p.step(&[state(&edge(1, n, case % 2 == 1))], byte, (n + round) % 3 == 0, l)?; } }
        p.end(l);
        Ok(())
    });

    // 4. Chains of every shape and length up to the predictor's own maximum.
    let max = 20usize;
    let rounds = c.pick(30usize, 200);
    c.stage("shapes", &format!("every split of chains of length 0..{} into branching and deterministic contexts, {} rounds of training each, all orders distinct", max + 1, rounds), ((max + 2) * (max + 3) / 2) as u64, move |_, case, l| {
        let (mut len, mut at) = (0usize, case as usize);
        while at > len { at -= len + 1; len += 1; }
        let nodes = at;
        l.describe(|| format!("{} contexts of which {} branching", len, nodes));
        let mut p = Pair::new(max, luts);
        for round in 0..rounds {
            let chain: Vec<ContextState> = (0..len).map(|k| {
                let v = (k + round) as u16;
                if k < nodes { state(&X::Node(N { d: 1 + k * 7 * (round + 1), p: (1 << 21) + 5000 * (v as u32 / 3), n: 30 + v / 3, run: 1 + v % 5, opp: 1 + (v * v) % 13, b: v % 2 == 0, s: 20_000 + 900 * (v % 7), ns: 20_000 + 1300 * (v % 5) })) }
                else { state(&edge(1 + k * 40 * (round + 1), 1 + (21 - k as u16) / 3 + round as u16, round % 3 == 0)) }
            }).collect();
            p.step(&chain, (round * 37) as u8, (round * round / 3) % 2 == 0, l)?;
        }
        p.end(l);
        Ok(())
    });

    // 4b. The classes at every order: a context, the next shorter one, what follows.
    let deepest = c.pick(24usize, 40);
    // (context, the next shorter one, the next longer one if any, byte)
    let mut situations: Vec<(X, X, Option<X>, u8)> = vec![];
    {
        let e = edge(5, 3, true);
        let other = X::Node(N { p: 2_000_000, n: 30, d: 77, ..NODE });
        let follow = edge(2, 1, false);
        // deterministic
        for longer in [None, Some(follow)] {
            for shorter in [edge(9, 8, true), edge(9, 3, true), other] {
                situations.push((e, shorter, longer, 1));
                situations.push((edge(5, 3, false), if let X::Edge(E { d, n, .. }) = shorter { edge(d, n, false) } else { shorter }, longer, 1));
            }
            for x in [edge(500, 3, true), edge(5_000, 3, true), edge(50_000, 3, true), edge(5, 300, true), edge(5, 1000, true)] { situations.push((x, edge(9, 8, true), longer, 1)); }
            situations.push((e, edge(9, 8, true), longer, 200));
        }
        // branching
        let n = X::Node(NODE);
        for longer in [None, Some(follow), Some(other)] {
            for x in [n, X::Node(N { d: 500, ..NODE }), X::Node(N { d: 5_000, ..NODE }), X::Node(N { d: 50_000, ..NODE }), X::Node(N { opp: 9, ..NODE }), X::Node(N { opp: 1000, ..NODE }), X::Node(N { run: 50, ..NODE }), X::Node(N { b: false, ..NODE }),
                X::Node(N { ns: 40_000, ..NODE }), X::Node(N { ns: 30_000, ..NODE }), X::Node(N { ns: 25_000, ..NODE }), X::Node(N { ns: 20_000, ..NODE }), X::Node(N { ns: 10_000, ..NODE })] {
                if longer.is_some() && !matches!(longer, Some(X::Edge(_))) && !matches!(x, X::Node(N { d: 5, opp: 2, .. })) { continue; }
                situations.push((x, other, longer, 1));
            }
            situations.push((n, X::Node(N { d: 1, ..NODE }), longer, 1));
        }
    }
    let ns = situations.len() as u64;
    let sit = &situations;
    let fillers = c.pick(1u64, 2);
    c.stage("orders", &format!("at every order 1..={}: all pairs of {} situations (class of the context, its relation to the next shorter one, longest or not), words of ten steps", deepest, ns), ns * ns * deepest as u64 * fillers, move |_, case, l| {
        let x = split(case, &[fillers, ns, ns, deepest as u64]);
        let order = x[3] as usize + 1;
        l.describe(|| format!("order {}: {:?} and {:?}", order, sit[x[1] as usize], sit[x[2] as usize]));
        let filler = [NODE, N { p: 3_900_000, n: 900, run: 300, b: false, ..NODE }][x[0] as usize];
        let build = |i: u64| -> (Vec<ContextState>, u8) {
            let (x, shorter, longer, byte) = sit[i as usize];
            let mut c: Vec<ContextState> = (0..order - 1).map(|k| state(&X::Node(N { p: filler.p + 1000 * k as u32, ..filler }))).collect();
            c.push(state(&shorter)); c.push(state(&x));
            if let Some(y) = longer { c.push(state(&y)); }
            (c, byte)
        };
        let (i, j) = (build(x[1]), build(x[2]));
        let mut p = Pair::new(order + 1, luts);
        for (k, y) in [&i, &i, &j, &j, &i, &j, &i, &i, &j, &i].iter().enumerate() { p.step(&y.0, y.1, 0x2d3 >> k & 1 == 1, l)?; }
        p.end(l);
        Ok(())
    });

    // 5. One context, every history of outcomes.
    let depth = c.pick(10u32, 13);
    let singles = [edge(1, 1, false), edge(1, 1, true), edge(5000, 12, true), X::Node(NODE), X::Node(N { p: 100, n: 1000, run: 900, opp: 1, s: 65_535, ns: 1, ..NODE }), X::Node(N { p: (1 << 22) - 1, b: false, s: 1, ns: 65_535, ..NODE })];
    let words = 1u64 << depth;
    c.stage("outcomes", &format!("all {} outcome histories of {} bits for {} contexts, 12 of them as warm-up repetition", words, depth, singles.len()), words * singles.len() as u64, move |_, case, l| {
        let s = state(&singles[(case / words) as usize]);
        l.describe(|| format!("{:?} outcomes {:b}", s, case % words));
        let mut p = Pair::new(0, luts);
        for k in 0..depth { p.step(&[s.clone()], 5, case >> k & 1 == 1, l)?; }
        p.end(l);
        Ok(())
    });
    let steps = c.pick(3_000usize, 40_000);
    c.stage("saturation", &format!("{} rounds with one outcome, then the other, for deterministic and branching contexts", steps), 12, move |_, case, l| {
        let s = state(&[edge(1, 1000, false), edge(1, 1, true), edge(100_000, 5, false), X::Node(NODE), X::Node(N { p: 1, n: 1000, ..NODE }), X::Node(N { p: (1 << 22) - 1, n: 1000, ..NODE })][case as usize / 2]);
        l.describe(|| format!("{:?} first {}", s, case % 2));
        let mut p = Pair::new(1, luts);
        for k in 0..steps { p.step(&vec![s.clone(); 1 + (k / 1000) % 2], 0x80, (case % 2 == 1) ^ (k > steps / 2) , l)?; }
        p.end(l);
        Ok(())
    });

    // 6. Pairing and legality.
    let depth = c.pick(8u32, 12);
    let sets: Vec<Vec<ContextState>> = chains(&[edge(1, 1, false), X::Node(NODE)], 3).iter().skip(1).map(|c| c.iter().map(state).collect()).collect();
    let nsets = sets.len() as u64;
    c.stage("pairing", &format!("all words of depth {} over predict and update for {} shapes of chains: refused iff not alternating", depth, nsets), nsets << depth, move |_, case, l| {
        let w = digits(case % (1 << depth), 2, depth as usize);
        let set = &sets[(case >> depth) as usize];
        l.describe(|| format!("{:?} {:?}", set, w));
        let mut real = ContextsChainPredictionMixer::new(2, luts);
        let chain = collect(set);
        let mut pending = false;
        for &op in &w {
            let refused = { let (real, chain) = (&mut real, &chain); refuses(move || if op == 0 { real.predict(chain, 1); } else { real.update(Bit::One, chain); }) };
            let ok = pending == (op == 1);
            l.transitions += 1;
            ensure!(refused != ok, "operation {} pending {} {}", op, pending, if refused { "refused" } else { "accepted" });
            if !ok { break; }
            pending = !pending;
            l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    c.stage("illegal_chains", "a branching context longer than a deterministic one is refused, at every order up to 5", 6, move |_, case, l| {
        let mut real = ContextsChainPredictionMixer::new(7, luts);
        let mut v = vec![state(&X::Node(NODE)); case as usize];
        v.push(state(&edge(1, 1, false)));
        v.push(state(&X::Node(NODE)));
        let chain = collect(&v);
        ensure!(refuses(move || { real.predict(&chain, 1); }), "accepted");
        l.traces += 1; l.transitions += 1;
        Ok(())
    });
    c.stage("empty", "an empty chain predicts one half", 1, |_, _, l| {
        let mut real = ContextsChainPredictionMixer::new(3, luts);
        let none = collect(&[]);
        ensure!(real.predict(&none, 9) == (FractOnlyU32::HALF, StretchedProbD::ZERO), "no contexts");
        ensure!(real.update(Bit::One, &none).is_empty(), "cost trackers of no contexts");
        l.traces += 1;
        Ok(())
    });
    c.assume("mixers, estimators, cost trackers and the fixed run predictions are the crate's own, decided by C13, C14, C16 and C20");
    c.assume("chains satisfy what C06 and C07 establish: a longer context is never branching when a shorter one is deterministic");
    c.finish()
}
