//! The contexts chain and the final stage rebuilt from stand-alone parts: one
//! mixer or estimator per class, created on first use and kept in a map keyed
//! by the class itself (no tables, no index arithmetic, no kits).
use demixer::bit::Bit;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::history::ContextState;
use demixer::lut::LookUpTables;
use demixer::mixing::apm::AdaptiveProbabilityMap as Apm;
use demixer::mixing::mixer::*;
use demixer::util::last_bytes::LastBytesCache;
use std::collections::HashMap;

pub type Prob = (FractOnlyU32, StretchedProbD);

/// 0, 1, then two classes per power of two.
pub fn count_class(x: u16) -> u32 {
    if x < 2 { return x as u32; }
    let mut b = 0u32;
    while (x as u32) >> (b + 1) > 0 { b += 1; }
    2 * (b - 1) + ((x as u32) >> (b - 1))
}

pub fn distance_class(d: usize) -> u32 {
    [100usize, 1_000, 10_000].iter().filter(|&&t| d >= t).count() as u32
}

/// How the costs of the stationary and of the run based prediction compare.
pub fn cost_class(c: &CostTrackers) -> u32 {
    let (s, n) = (c.stationary().raw() as u64, c.non_stationary().raw() as u64);
    if n > s {
        // excess of the run based costs over one half and one eighth
        if n - s > s / 2 { 0 } else if n - s > s / 8 { 1 } else { 2 }
    } else {
        let d = s - n;
        if d < n / 8 { 3 } else if d < n / 2 { 4 } else { 5 }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct EdgeClass { order: usize, last: bool, cmp: u32, distance: u32, bit: bool }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct NodeClass { order: usize, last: bool, cmp: u32, cost: u32, distance: u32, opposite: u32 }

enum Pending { Edge(EdgeClass, (usize, u32, u8), Prob), Node(NodeClass, (usize, u32, bool), Prob, CostTrackers) }

pub struct Chain<'a> {
    luts: &'a LookUpTables,
    edges: HashMap<EdgeClass, Mixer4>,
    nodes: HashMap<NodeClass, Mixer3>,
    edge_estimators: HashMap<(usize, u32, u8), DeceleratingEstimator>,
    node_estimators: HashMap<(usize, u32, bool), DeceleratingEstimator>,
    pending: Vec<Pending>,
}

impl<'a> Chain<'a> {
    pub fn new(luts: &'a LookUpTables) -> Self {
        Chain { luts, edges: HashMap::new(), nodes: HashMap::new(), edge_estimators: HashMap::new(),
            node_estimators: HashMap::new(), pending: vec![] }
    }
    /// Number of distinct classes met so far.
    pub fn classes(&self) -> usize {
        self.edges.len() + self.nodes.len() + self.edge_estimators.len() + self.node_estimators.len()
    }
    /// Relation of a context to the next shorter one.
    fn compare(previous: Option<&ContextState>, current: &ContextState) -> u32 {
        match (previous, current) {
            (None, _) => 0,
            (Some(&ContextState::ForNode { .. }), &ContextState::ForEdge { .. }) => 2,
            (Some(&ContextState::ForEdge { occurrence_count: a, .. }), &ContextState::ForEdge { occurrence_count: b, .. }) => (a == b) as u32,
            (Some(&ContextState::ForNode { probability_estimator: a, .. }), &ContextState::ForNode { probability_estimator: b, .. }) =>
                (a.prediction() == b.prediction() && a.usage_count() == b.usage_count()) as u32,
            _ => panic!("reference: longer context is branching, shorter is not"),
        }
    }
    /// The mixed result after every context of the chain.
    pub fn predict(&mut self, chain: &[ContextState], unfinished: u8) -> Vec<Prob> {
        assert!(self.pending.is_empty());
        let luts = self.luts;
        let mut lower: Prob = (FractOnlyU32::HALF, StretchedProbD::ZERO);
        let mut all = vec![lower];
        for (order, ctx) in chain.iter().enumerate() {
            let last = order + 1 == chain.len();
            let cmp = Self::compare(if order > 0 { Some(&chain[order - 1]) } else { None }, ctx);
            lower = match ctx {
                &ContextState::ForEdge { last_occurrence_distance, occurrence_count, repeated_bit } => {
                    let class = EdgeClass { order, last, cmp, distance: distance_class(last_occurrence_distance), bit: repeated_bit == Bit::One };
                    let ek = (order, count_class(occurrence_count), unfinished);
                    let e = self.edge_estimators.entry(ek).or_insert_with(DeceleratingEstimator::new).prediction();
                    let direct = luts.direct_predictions().for_0_bit_run(occurrence_count);
                    let fixed = StretchedProbD::new(2 << 21, 21);
                    let m = self.edges.entry(class).or_insert_with(|| Mixer4::new(10, MixerInitializationMode::DominantFirst));
                    m.set_input(0, lower.0, lower.1);
                    m.set_input(1, direct.0, direct.1);
                    m.set_input(2, luts.squash_lut().squash(fixed), fixed);
                    m.set_input(3, e, luts.stretch_lut().stretch(e));
                    let r = m.mix_all(luts.squash_lut());
                    self.pending.push(Pending::Edge(class, ek, r));
                    r
                }
                &ContextState::ForNode { last_occurrence_distance, probability_estimator, bits_runs, ref cost_trackers, .. } => {
                    let class = NodeClass { order, last, cmp, cost: cost_class(cost_trackers), distance: distance_class(last_occurrence_distance),
                        opposite: count_class(bits_runs.opposite_bit_run_length()) };
                    let ek = (order, count_class(bits_runs.last_bit_run_length()), bits_runs.last_bit() == Bit::One);
                    let e = self.node_estimators.entry(ek).or_insert_with(DeceleratingEstimator::new).prediction();
                    let s = probability_estimator.prediction();
                    let m = self.nodes.entry(class).or_insert_with(|| Mixer3::new(10, MixerInitializationMode::DominantFirst));
                    m.set_input(0, lower.0, lower.1);
                    m.set_input(1, s, luts.stretch_lut().stretch(s));
                    m.set_input(2, e, luts.stretch_lut().stretch(e));
                    let r = m.mix_all(luts.squash_lut());
                    self.pending.push(Pending::Node(class, ek, r, CostTrackers::new(cost_trackers.stationary(), cost_trackers.non_stationary())));
                    r
                }
            };
            all.push(lower);
        }
        all
    }
    /// Trains what predicted; new cost trackers of the branching contexts.
    pub fn update(&mut self, bit: bool) -> Vec<CostTrackers> {
        let luts = self.luts;
        let rates = luts.d_estimator_rates();
        let mut costs = vec![];
        for p in std::mem::replace(&mut self.pending, vec![]) {
            match p {
                Pending::Edge(class, ek, r) => {
                    self.edge_estimators.get_mut(&ek).unwrap().update(bit.into(), rates);
                    self.edges.get_mut(&class).unwrap().update_and_reset(bit.into(), r.0, 300, rates);
                }
                Pending::Node(class, ek, r, c) => {
                    let m = self.nodes.get_mut(&class).unwrap();
                    let (s, n) = (m.prediction_sq(1), m.prediction_sq(2));
                    costs.push(CostTrackers::new(c.stationary().updated_on_bit(s, bit.into(), luts), c.non_stationary().updated_on_bit(n, bit.into(), luts)));
                    self.node_estimators.get_mut(&ek).unwrap().update(bit.into(), rates);
                    m.update_and_reset(bit.into(), r.0, 100, rates);
                }
            }
        }
        costs
    }
}

/// The final stage rebuilt from stand-alone single-context maps.
pub struct FinalStage<'a> { luts: &'a LookUpTables, maps: HashMap<(u8, usize), Apm> }

impl<'a> FinalStage<'a> {
    pub fn new(luts: &'a LookUpTables) -> Self { FinalStage { luts, maps: HashMap::new() } }
    fn keys(lb: &LastBytesCache) -> [(u8, usize); 4] {
        [(0, lb.unfinished_byte().raw() as usize), (1, lb.hash01_16() as usize), (2, lb.hash02_16() as usize), (3, lb.hash03_16() as usize)]
    }
    fn map(&mut self, k: (u8, usize)) -> &mut Apm {
        let luts = self.luts;
        self.maps.entry(k).or_insert_with(|| Apm::new(1, 0, luts.squash_lut()))
    }
    pub fn refine(&mut self, sq: FractOnlyU32, st: StretchedProbD, lb: &LastBytesCache) -> u32 {
        let luts = self.luts;
        let keys = Self::keys(lb);
        let o0 = self.map(keys[0]).refine(0, sq, st, luts.apm_lut(0)).raw() as u64;
        let m = FractOnlyU32::new(((sq.raw() as u64 * 3 + o0 + 2) / 4) as u32, 31);
        let mst = luts.stretch_lut().stretch(m);
        let mut o = [0u64; 3];
        for k in 0..3 { o[k] = self.map(keys[k + 1]).refine(0, m, mst, luts.apm_lut(0)).raw() as u64; }
        let out = (o[0] + 2 * o[1] + o[2] + 2) / 4;
        ((out + 128) / 256).min((1 << 23) - 1).max(1) as u32
    }
    pub fn update(&mut self, bit: bool, lb: &LastBytesCache) {
        for k in Self::keys(lb).iter() { self.map(*k).update_predictions(0, bit.into(), 5, true); }
    }
}
