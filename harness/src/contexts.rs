//! Reference models of the history sources: a brute-force scan of the window
//! (what occurs, where, followed by what) and a bit trie of branching contexts
//! with the statistics each of them has accumulated. Neither knows about
//! suffixes, leaves, edges, visit pointers, node slots or circular buffers.
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::ContextState;
use demixer::lut::LookUpTables;
use std::collections::{HashMap, VecDeque};

pub const MAX_COUNT: u32 = 1000;

/// A context that occurs earlier in the window.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub last_distance: usize,
    pub last_bit: bool,
    /// which bits followed
    pub zero: bool,
    pub one: bool,
}

/// Scans the window `w` (complete bytes, oldest first) for the contexts of the
/// byte being read, of which the first `nb` bits are known to be `cur`.
pub fn scan(w: &[u8], cur: u8, nb: usize, max_order: usize) -> Vec<Seen> {
    let n = w.len();
    let mut res = vec![];
    for k in 0..=max_order {
        if k > n { break; }
        let ctx = &w[n - k..];
        let mut found: Option<Seen> = None;
        for s in 0..n - k {
            if &w[s..s + k] == ctx && (w[s + k] as u16 >> (8 - nb)) as u8 == cur {
                let bit = w[s + k] >> (7 - nb) & 1 == 1;
                let f = found.get_or_insert(Seen { last_distance: 0, last_bit: false, zero: false, one: false });
                f.last_distance = n - k - s;
                f.last_bit = bit;
                if bit { f.one = true } else { f.zero = true }
            }
        }
        match found { Some(f) => res.push(f), None => break }
    }
    res
}

/// All bits that followed the order-`k` context, oldest first.
pub fn followers(w: &[u8], cur: u8, nb: usize, k: usize) -> Vec<bool> {
    let n = w.len();
    if k > n { return vec![]; }
    let ctx = &w[n - k..];
    (0..n - k).filter(|&s| &w[s..s + k] == ctx && (w[s + k] as u16 >> (8 - nb)) as u8 == cur)
        .map(|s| w[s + k] >> (7 - nb) & 1 == 1).collect()
}

/// `bytes` followed by the first `nb` bits `cur`: bits behind a sentinel, or, beyond 14 bytes,
/// a number of 120 bits mixed from them (which is large enough to tell all of them apart).
pub fn path(bytes: &[u8], cur: u8, nb: usize) -> u128 {
    let mut p = 1u128;
    for &b in bytes { p = longer(p, b); }
    p << nb | cur as u128
}

fn longer(p: u128, b: u8) -> u128 {
    if p < 1 << 112 { return p << 8 | b as u128; }
    const K: u128 = 0x2545_f491_4f6c_dd1d_9e37_79b9_7f4a_7c15;
    let m = p.wrapping_mul(K);
    let m = (m ^ m >> 61).wrapping_add(b as u128 + 1).wrapping_mul(K);
    (m ^ m >> 59) & ((1 << 120) - 1) | 1 << 120
}

/// Paths of all beginnings of `bytes`, down to single bits of the byte after them.
fn beginnings(bytes: &[u8], max_order: usize) -> Vec<(u128, usize, usize, u8)> {
    let mut res = vec![];
    let mut base = 1u128;
    for (k, &b) in bytes.iter().enumerate().take(max_order + 1) {
        for nb in 0..8 { let cur = (b as u16 >> (8 - nb)) as u8; res.push((base << nb | cur as u128, k, nb, cur)); }
        base = longer(base, b);
    }
    res
}

/// Contexts with two different continuations in the window, up to `max_order`.
pub fn branching(w: &[u8], max_order: usize) -> usize {
    let mut seen: HashMap<u128, u8> = HashMap::new();
    for s in 0..w.len() {
        for (p, k, nb, _) in beginnings(&w[s..], max_order) {
            *seen.entry(p).or_insert(0) |= 1 << (w[s + k] >> (7 - nb) & 1);
        }
    }
    seen.values().filter(|&&m| m == 3).count()
}

/// Observable content of a context state.
#[derive(Clone, Debug, PartialEq)]
pub enum View {
    Edge { distance: usize, count: u32, bit: bool },
    Node { distance: usize, prob: u32, count: u32, recent: String, runs: (bool, u32, u32, u32), costs: (u16, u16) },
}

impl View {
    pub fn distance(&self) -> usize {
        match *self { View::Edge { distance, .. } => distance, View::Node { distance, .. } => distance }
    }
    pub fn is_node(&self) -> bool { if let View::Node { .. } = self { true } else { false } }
    pub fn neutral(mut self) -> View {
        if let View::Node { ref mut costs, .. } = self {
            *costs = costs_view(&CostTrackers::DEFAULT);
        }
        self
    }
}

pub fn costs_view(c: &CostTrackers) -> (u16, u16) { (c.stationary().raw(), c.non_stationary().raw()) }

pub fn view(s: &ContextState) -> View {
    match s {
        &ContextState::ForEdge { last_occurrence_distance, occurrence_count, repeated_bit } =>
            View::Edge { distance: last_occurrence_distance, count: occurrence_count as u32, bit: repeated_bit.is_1() },
        &ContextState::ForNode { last_occurrence_distance, probability_estimator, recent_bits, bits_runs, ref cost_trackers } =>
            View::Node {
                distance: last_occurrence_distance,
                prob: probability_estimator.prediction().raw_value(),
                count: probability_estimator.usage_count() as u32,
                recent: format!("{:?}", recent_bits),
                runs: (bits_runs.last_bit().is_1(), bits_runs.last_bit_run_length() as u32,
                    bits_runs.opposite_bit_run_length() as u32, bits_runs.last_bit_previous_run_length() as u32),
                costs: costs_view(cost_trackers),
            },
    }
}

trait RawValue { fn raw_value(&self) -> u32; }
impl RawValue for demixer::fixed_point::types::FractOnlyU32 {
    fn raw_value(&self) -> u32 { use demixer::fixed_point::FixedPoint; self.raw() }
}

/// Statistics of a branching context, kept in the plainest form.
#[derive(Clone, Debug)]
pub struct Stats {
    pub left: u32,
    pub right: u32,
    pub est: DeceleratingEstimator,
    pub recent: VecDeque<bool>,
    /// lengths of the last runs, newest first, and the newest bit
    pub runs: [u32; 3],
    pub last: bool,
    pub costs: CostTrackers,
}

/// Start estimators for run lengths, trained bit by bit.
pub struct Trained { pub zero: Vec<DeceleratingEstimator>, pub one: Vec<DeceleratingEstimator> }

impl Trained {
    pub fn new(luts: &LookUpTables) -> Trained {
        let mut t = Trained { zero: vec![], one: vec![] };
        for bit in [false, true] {
            let mut e = DeceleratingEstimator::new();
            let v = if bit { &mut t.one } else { &mut t.zero };
            for _ in 0..=MAX_COUNT {
                v.push(e);
                e.update(Bit::from(bit), luts.d_estimator_rates());
            }
        }
        t
    }
}

impl Stats {
    /// A context that saw `n` equal bits and then its first opposite one.
    pub fn start(bit: bool, n: u32, trained: &Trained, luts: &LookUpTables) -> Stats {
        let mut est = if bit { trained.zero[n as usize] } else { trained.one[n as usize] };
        est.update(bit.into(), luts.d_estimator_rates());
        let mut recent: VecDeque<bool> = (0..n.min(15)).map(|_| !bit).collect();
        recent.push_back(bit);
        if recent.len() > 15 { recent.pop_front(); }
        let c = luts.cost_trackers_lut().for_new_node(n as u16);
        Stats {
            left: if bit { n } else { 1 }, right: if bit { 1 } else { n },
            est, recent, runs: [1, n, 0], last: bit, costs: CostTrackers::new(c, c),
        }
    }
    pub fn update(&mut self, bit: bool, costs: CostTrackers, luts: &LookUpTables) {
        let c = if bit { &mut self.right } else { &mut self.left };
        *c = (*c + 1).min(MAX_COUNT);
        self.est.update(bit.into(), luts.d_estimator_rates());
        self.recent.push_back(bit);
        if self.recent.len() > 15 { self.recent.pop_front(); }
        if bit == self.last {
            self.runs[0] = (self.runs[0] + 1).min(MAX_COUNT);
        } else {
            self.runs = [1, self.runs[0], self.runs[1]];
            self.last = bit;
        }
        self.costs = costs;
    }
    pub fn view(&self, distance: usize) -> View {
        let raw = self.recent.iter().fold(1u16, |a, &b| a << 1 | b as u16);
        View::Node {
            distance, prob: self.est.prediction().raw_value(), count: self.est.usage_count() as u32,
            recent: format!("{:?}", RecentBitsHistory::new_unchecked(raw)),
            runs: (self.last, self.runs[0], self.runs[1], self.runs[2]),
            costs: costs_view(&self.costs),
        }
    }
}

/// Distinct cost trackers for every (step, order).
pub fn some_costs(step: usize, order: usize) -> CostTrackers {
    let a = (step.wrapping_mul(40503).wrapping_add(order * 9973) + 17) as u16;
    let b = (step.wrapping_mul(2654435761).wrapping_add(order * 7919) >> 3) as u16;
    CostTrackers::new(CostTracker::new(a), CostTracker::new(b))
}

/// How often each context of the window was followed by 0 and by 1, and where
/// it occurred last; for windows too long to be scanned at every bit.
#[derive(Default)]
pub struct Index { map: HashMap<u128, (u32, u32, u64)>, pub branching: usize, added: u64, removed: u64 }

impl Index {
    /// `bytes`: a context followed by its last (complete) byte, at absolute position `at`.
    fn change(&mut self, bytes: &[u8], at: u64, add: bool) {
        let k = bytes.len() - 1;
        for nb in 0..8 {
            let p = path(&bytes[..k], (bytes[k] as u16 >> (8 - nb)) as u8, nb);
            let bit = bytes[k] >> (7 - nb) & 1;
            let e = self.map.entry(p).or_insert((0, 0, 0));
            let both = e.0 > 0 && e.1 > 0;
            let c = if bit == 1 { &mut e.1 } else { &mut e.0 };
            if add { *c += 1; e.2 = at; } else { *c -= 1; }
            let now = e.0 > 0 && e.1 > 0;
            if now && !both { self.branching += 1; }
            if both && !now { self.branching -= 1; }
            if e.0 == 0 && e.1 == 0 { self.map.remove(&p); }
        }
    }
    /// The last byte of `w` has just been completed.
    fn completed(&mut self, w: &[u8], max_order: usize) {
        let n = w.len();
        self.added += 1;
        for k in 0..=max_order.min(n - 1) { self.change(&w[n - 1 - k..], self.added - 1 - k as u64, true); }
    }
    /// The first byte of `w` is about to go.
    fn leaving(&mut self, w: &[u8], max_order: usize) {
        for k in 0..=max_order.min(w.len() - 1) { self.change(&w[..k + 1], 0, false); }
        self.removed += 1;
    }
    fn get(&self, p: u128) -> (u32, u32, u64) { self.map.get(&p).cloned().unwrap_or((0, 0, 0)) }
    fn seen(&self, w: &[u8], cur: u8, nb: usize, max_order: usize) -> Vec<Seen> {
        let n = w.len();
        let mut res = vec![];
        for k in 0..=max_order.min(n) {
            let (zeros, ones, last) = self.get(path(&w[n - k..], cur, nb));
            if zeros + ones == 0 { break; }
            let byte = w[(last - self.removed) as usize + k];
            res.push(Seen { last_distance: (self.added - k as u64 - last) as usize, last_bit: byte >> (7 - nb) & 1 == 1, zero: zeros > 0, one: ones > 0 });
        }
        res
    }
}

/// Sliding-window model with statistics of branching contexts.
pub struct WindowModel<'a> {
    pub luts: &'a LookUpTables,
    pub trained: &'a Trained,
    pub max_size: usize,
    pub max_order: usize,
    /// complete bytes in the window, oldest first
    pub w: Vec<u8>,
    pub cur: u8,
    pub nb: usize,
    pub nodes: HashMap<u128, Stats>,
    /// visit count of the edge each active context is on
    pub active: Vec<u32>,
    pub index: Option<Index>,
}

impl<'a> WindowModel<'a> {
    pub fn new(max_size: usize, max_order: usize, luts: &'a LookUpTables, trained: &'a Trained) -> Self {
        WindowModel { luts, trained, max_size, max_order, w: vec![], cur: 0, nb: 0, nodes: HashMap::new(), active: vec![], index: None }
    }

    /// Drops the oldest byte; contexts that stop branching lose their statistics.
    pub fn remove(&mut self) {
        if let Some(ref mut index) = self.index {
            index.leaving(&self.w, self.max_order);
            for (p, _, _, _) in beginnings(&self.w, self.max_order) {
                let (zeros, ones, _) = index.get(p);
                if zeros == 0 || ones == 0 { self.nodes.remove(&p); }
            }
            self.w.remove(0);
            if self.nodes.is_empty() { self.active.clear(); }
            return;
        }
        let old = self.w.clone();
        self.w.remove(0);
        let w = &self.w;
        for (p, k, nb, cur) in beginnings(&old, self.max_order) {
            if self.nodes.contains_key(&p) {
                let mut mask = 0;
                for s in 0..w.len().saturating_sub(k) {
                    if w[s..s + k] == old[..k] && (w[s + k] as u16 >> (8 - nb)) as u8 == cur {
                        mask |= 1 << (w[s + k] >> (7 - nb) & 1);
                    }
                }
                if mask != 3 { self.nodes.remove(&p); }
            }
        }
        if self.nodes.is_empty() { self.active.clear(); }
    }

    pub fn start_new_byte(&mut self) {
        if self.w.len() == self.max_size { self.remove(); }
        self.cur = 0;
        self.nb = 0;
        if !self.nodes.is_empty() {
            let root = match self.index {
                None => self.nodes.iter().min_by_key(|x| *x.0).unwrap().1, // the shortest path is the least number
                Some(ref index) => {
                    let shared = beginnings(&self.w, self.max_order);
                    let root = shared.iter().find(|x| match index.get(x.0) { (0, _, _) | (_, 0, _) => false, _ => true });
                    &self.nodes[&root.expect("all contexts with statistics begin alike").0]
                }
            };
            self.active.insert(0, (root.left + root.right).min(MAX_COUNT));
            let alive = self.seen().len();
            self.active.truncate(alive);
        }
    }

    pub fn seen(&self) -> Vec<Seen> {
        match self.index {
            None => scan(&self.w, self.cur, self.nb, self.max_order),
            Some(ref index) => index.seen(&self.w, self.cur, self.nb, self.max_order),
        }
    }

    pub fn path(&self, order: usize) -> u128 {
        path(&self.w[self.w.len() - order..], self.cur, self.nb)
    }

    pub fn expected(&self, seen: &[Seen]) -> Vec<View> {
        if self.nodes.is_empty() {
            return seen.iter().enumerate().map(|(k, s)| View::Edge {
                distance: s.last_distance, bit: s.last_bit,
                count: ((self.w.len() - k) as u32).min(MAX_COUNT),
            }).collect();
        }
        self.active.iter().enumerate().map(|(k, &incoming)| {
            let distance = seen.get(k).map(|s| s.last_distance).unwrap_or(usize::MAX);
            match self.nodes.get(&self.path(k)) {
                Some(n) => n.view(distance),
                None => View::Edge { distance, count: incoming, bit: seen.get(k).map(|s| s.last_bit).unwrap_or(false) },
            }
        }).collect()
    }

    pub fn bit(&mut self, bit: bool, seen: &[Seen], costs: &[CostTrackers]) {
        if self.nodes.is_empty() {
            if let Some(s) = seen.first() {
                if s.last_bit != bit {
                    // all bytes so far were equal
                    for k in 0..=self.max_order.min(self.w.len() - 1) {
                        let n = ((self.w.len() - k) as u32).min(MAX_COUNT);
                        let p = self.path(k);
                        self.nodes.insert(p, Stats::start(bit, n, self.trained, self.luts));
                    }
                }
            }
        } else {
            for k in (0..self.active.len()).rev() {
                let p = self.path(k);
                if let Some(n) = self.nodes.get_mut(&p) {
                    self.active[k] = if bit { n.right } else { n.left };
                    n.update(bit, costs[k].clone(), self.luts);
                } else if seen[k].last_bit != bit {
                    self.nodes.insert(p, Stats::start(bit, self.active[k], self.trained, self.luts));
                    self.active.truncate(k);
                }
            }
        }
        self.light_bit(bit);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Byte(u8), Remove }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Aspect { Truth, Shape, Statistics }

#[derive(Clone, Copy, Debug)]
pub struct Config { pub window: usize, pub order: usize, pub shift: usize }

/// Runs the tree history source over `ops` in lock step with the model.
/// `skip`: number of leading operations whose states are not compared.
pub fn drive(cfg: Config, ops: &[Op], aspect: Aspect, skip: usize, shrink: bool,
             luts: &LookUpTables, trained: &Trained, l: &mut mc::Local) -> mc::CaseResult {
    use demixer::history::tree::nodes::Nodes;
    use demixer::history::tree::{TreeHistorySource, TreeState};
    use demixer::history::{CollectedContextStates, HistorySource};
    let mut tree = TreeHistorySource::new_special(cfg.window, cfg.order, cfg.shift, luts);
    let mut collected = CollectedContextStates::new(cfg.order);
    let mut m = WindowModel::new(cfg.window, cfg.order, luts, trained);
    let mut step = 0;
    let capacity = Nodes::NUM_ROOTS.max(cfg.window - 1);
    let shape = |tree: &TreeHistorySource, m: &WindowModel, at: usize| -> mc::CaseResult {
        let live = tree.tree.nodes().live_nodes_count();
        let expected = branching(&m.w, cfg.order);
        mc::ensure!(live == expected, "operation {}: {} live nodes, {} branching contexts in window {:02x?}", at, live, expected, m.w);
        mc::ensure!(live <= capacity, "operation {}: {} live nodes exceed the capacity {}", at, live, capacity);
        mc::ensure!((tree.tree.tree_state() == TreeState::Proper) == (expected > 0), "operation {}: tree state", at);
        Ok(())
    };
    for (at, op) in ops.iter().enumerate() {
        let compare = at >= skip;
        match *op {
            Op::Remove => {
                if m.w.is_empty() { return Ok(()); }
                tree.tree.remove_leftmost_suffix(&mut tree.active_contexts);
                m.remove();
                l.transitions += 1;
                if aspect == Aspect::Shape && compare { shape(&tree, &m, at)?; }
            }
            Op::Byte(b) => {
                tree.start_new_byte();
                m.start_new_byte();
                if aspect == Aspect::Shape && compare {
                    shape(&tree, &m, at)?;
                    tree.check_integrity_on_next_byte();
                }
                for i in (0..8).rev() {
                    let bit = b >> i & 1 == 1;
                    let seen = m.seen();
                    collected.reset();
                    tree.gather_history_states(&mut collected);
                    let got: Vec<View> = collected.items().iter().map(view).collect();
                    let what = || format!("operation {} bit {}, window {:02x?} + {:x}/{}", at, i, m.w, m.cur, m.nb);
                    if got.len() != seen.len() {
                        return Err(format!("{}: {} contexts reported, {} occur", what(), got.len(), seen.len()));
                    }
                    match aspect {
                        Aspect::Truth if compare => for (k, s) in seen.iter().enumerate() {
                            mc::ensure!(got[k].distance() == s.last_distance,
                                "{}: order {} last occurrence at distance {} instead of {}", what(), k, got[k].distance(), s.last_distance);
                            let both = s.zero && s.one;
                            mc::ensure!(got[k].is_node() == both, "{}: order {} reported {}, but followed by {}{}", what(), k,
                                if got[k].is_node() { "branching" } else { "deterministic" },
                                if s.zero { "0" } else { "" }, if s.one { "1" } else { "" });
                            if let View::Edge { bit, count, .. } = got[k] {
                                mc::ensure!(bit == s.one, "{}: order {} repeated bit", what(), k);
                                mc::ensure!(count >= 1, "{}: order {} never occurred", what(), k);
                            }
                        },
                        Aspect::Statistics if compare => {
                            let expected = m.expected(&seen);
                            mc::ensure!(got == expected, "{}: context states {:?} instead of {:?}", what(), got, expected);
                        }
                        _ => (),
                    }
                    l.states += seen.len() as u64;
                    l.transitions += 1;
                    let costs: Vec<CostTrackers> = got.iter().enumerate().filter(|x| x.1.is_node())
                        .map(|x| some_costs(step, x.0)).collect();
                    step += 1;
                    if aspect == Aspect::Statistics { m.bit(bit, &seen, &costs); }
                    else { m.light_bit(bit); }
                    tree.process_input_bit(bit.into(), &costs);
                }
            }
        }
        l.outcome(mc::mix(tree.tree.nodes().live_nodes_count() as u64, m.w.len() as u64));
    }
    l.traces += 1;
    if shrink {
        while !m.w.is_empty() {
            tree.tree.remove_leftmost_suffix(&mut tree.active_contexts);
            m.remove();
            if aspect == Aspect::Shape { shape(&tree, &m, ops.len())?; }
        }
        mc::ensure!(tree.tree.window.size() == 0, "window not empty after removing everything");
        mc::ensure!(tree.active_contexts.count() == 0, "contexts left in an empty window");
        // behaves like an empty tree again
        let mut fresh = TreeHistorySource::new_special(cfg.window, cfg.order, 0, luts);
        for (at, op) in ops.iter().enumerate() {
            if let Op::Byte(b) = *op {
                tree.start_new_byte();
                fresh.start_new_byte();
                for i in (0..8).rev() {
                    collected.reset();
                    tree.gather_history_states(&mut collected);
                    let a: Vec<View> = collected.items().iter().map(view).collect();
                    collected.reset();
                    fresh.gather_history_states(&mut collected);
                    let b2: Vec<View> = collected.items().iter().map(view).collect();
                    mc::ensure!(a == b2, "after emptying, byte {} bit {}: {:?} instead of {:?}", at, i, a, b2);
                    let costs: Vec<CostTrackers> = a.iter().filter(|x| x.is_node()).map(|_| some_costs(step, 1)).collect();
                    tree.process_input_bit((b >> i & 1 == 1).into(), &costs);
                    fresh.process_input_bit((b >> i & 1 == 1).into(), &costs);
                    l.transitions += 1;
                }
            }
        }
    }
    Ok(())
}

impl<'a> WindowModel<'a> {
    /// Advances the window without statistics.
    pub fn light_bit(&mut self, bit: bool) {
        self.cur = self.cur << 1 | bit as u8;
        self.nb += 1;
        if self.nb == 8 {
            self.w.push(self.cur);
            self.nb = 0;
            self.cur = 0;
            if let Some(ref mut index) = self.index { index.completed(&self.w, self.max_order); }
        }
    }
}

/// Like `drive`, for windows of thousands of bytes: the model counts instead of
/// scanning, and the tree's own integrity check runs `checkups` times.
pub fn drive_large(cfg: Config, bytes: &[u8], aspect: Aspect, checkups: usize, shrink: bool,
                   luts: &LookUpTables, trained: &Trained, l: &mut mc::Local) -> mc::CaseResult {
    use demixer::history::tree::nodes::Nodes;
    use demixer::history::tree::{TreeHistorySource, TreeState};
    use demixer::history::{CollectedContextStates, HistorySource};
    let mut tree = TreeHistorySource::new_special(cfg.window, cfg.order, cfg.shift, luts);
    let mut collected = CollectedContextStates::new(cfg.order);
    let mut m = WindowModel::new(cfg.window, cfg.order, luts, trained);
    m.index = Some(Index::default());
    let capacity = Nodes::NUM_ROOTS.max(cfg.window - 1);
    let every = bytes.len() / checkups.max(1) + 1;
    let shape = |tree: &TreeHistorySource, m: &WindowModel, at: usize| -> mc::CaseResult {
        let live = tree.tree.nodes().live_nodes_count();
        let expected = m.index.as_ref().unwrap().branching;
        mc::ensure!(live == expected, "byte {}: {} live nodes, {} branching contexts", at, live, expected);
        mc::ensure!(live <= capacity, "byte {}: {} live nodes exceed the capacity {}", at, live, capacity);
        mc::ensure!((tree.tree.tree_state() == TreeState::Proper) == (expected > 0), "byte {}: tree state", at);
        Ok(())
    };
    let mut step = 0;
    for (at, &b) in bytes.iter().enumerate() {
        tree.start_new_byte();
        m.start_new_byte();
        if aspect == Aspect::Shape {
            shape(&tree, &m, at)?;
            if at % every == every - 1 || at == bytes.len() - 1 { tree.check_integrity_on_next_byte(); }
        }
        for i in (0..8).rev() {
            let bit = b >> i & 1 == 1;
            let seen = m.seen();
            collected.reset();
            tree.gather_history_states(&mut collected);
            let got: Vec<View> = collected.items().iter().map(view).collect();
            let what = || format!("byte {} ({:02x}) bit {}", at, b, 7 - i);
            mc::ensure!(got.len() == seen.len(), "{}: {} contexts reported, {} occur", what(), got.len(), seen.len());
            match aspect {
                Aspect::Truth => for (k, s) in seen.iter().enumerate() {
                    mc::ensure!(got[k].distance() == s.last_distance, "{}: order {} last occurrence at distance {} instead of {}", what(), k, got[k].distance(), s.last_distance);
                    mc::ensure!(got[k].is_node() == (s.zero && s.one), "{}: order {} reported {}", what(), k, if got[k].is_node() { "branching" } else { "deterministic" });
                    if let View::Edge { bit, count, .. } = got[k] { mc::ensure!(bit == s.one && count >= 1, "{}: order {} repeated bit or count {}", what(), k, count); }
                },
                Aspect::Statistics => {
                    let expected = m.expected(&seen);
                    mc::ensure!(got == expected, "{}: context states {:?} instead of {:?}", what(), got, expected);
                }
                Aspect::Shape => (),
            }
            l.states += seen.len() as u64;
            l.transitions += 1;
            let costs: Vec<CostTrackers> = got.iter().enumerate().filter(|x| x.1.is_node()).map(|x| some_costs(step, x.0)).collect();
            step += 1;
            if aspect == Aspect::Statistics { m.bit(bit, &seen, &costs); } else { m.light_bit(bit); }
            tree.process_input_bit(bit.into(), &costs);
        }
        l.max("max_live_nodes", tree.tree.nodes().live_nodes_count() as u64);
    }
    l.outcome(mc::mix(tree.tree.nodes().live_nodes_count() as u64, step as u64));
    if shrink && aspect == Aspect::Shape {
        while !m.w.is_empty() {
            tree.tree.remove_leftmost_suffix(&mut tree.active_contexts);
            m.remove();
            shape(&tree, &m, bytes.len())?;
        }
        mc::ensure!(tree.tree.window.size() == 0 && tree.active_contexts.count() == 0, "not empty after removing everything");
    }
    l.traces += 1;
    Ok(())
}

/// Inputs for long windows.
pub fn long_input(kind: usize, window: usize, len: usize) -> Vec<u8> {
    let mut s = 0x9E3779B97F4A7C15u64 ^ kind as u64;
    let mut r = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s >> 32 };
    match kind {
        0 => (0..len).map(|_| r() as u8).collect(),
        1 => (0..len).map(|_| [0u8, 0x80, 0x81, 0x7f][r() as usize & 3]).collect(),
        // repeats whose distance is about the window
        2 => (0..len).map(|i| (i % (window - 1).max(1)) as u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 24) as u8).collect(),
        3 => (0..len).map(|i| (i % window.max(1)) as u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 27) as u8).collect(),
        4 => (0..len).map(|i| (i % (window + 1)) as u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 30) as u8).collect(),
        // long runs with rare interruptions
        5 => (0..len).map(|_| if r() % 701 == 0 { 0x40 } else { 0 }).collect(),
        // a block of one kind of data, then another
        6 => (0..len).map(|i| if i / (window / 2).max(1) % 2 == 0 { (i % 7) as u8 * 16 } else { r() as u8 & 0x13 }).collect(),
        7 => (0..len).map(|i| (i >> 8 * (i & 1)) as u8).collect(),
        // words of a small language
        _ => { let words: [&[u8]; 6] = [b"the ", b"then ", b"there ", b"a ", b"sea ", b"\n"]; let mut v = vec![]; while v.len() < len { v.extend(words[(r() % 6) as usize]); } v.truncate(len); v }
    }
}
pub const LONG_INPUTS: u64 = 9;

/// One byte value repeated until sixteen bits do not count it, then an
/// interruption and a few more bytes.
pub fn long_run(case: u64) -> Vec<u8> {
    let x = mc::split(case, &[LONG_RUN_LENGTHS.len() as u64, 3, 3, 2]);
    let n = LONG_RUN_LENGTHS[x[0] as usize];
    let s = [0x00, 0xff, 0x6e][x[1] as usize];
    let t = s ^ [0x80, 0x01, 0x10][x[2] as usize];
    let mut v = if x[3] == 1 { vec![t] } else { vec![] };
    v.resize(v.len() + n, s);
    v.extend(&[t, s, s, s, t, t, s, s ^ 0x40, s]);
    v
}
pub const LONG_RUN_LENGTHS: [usize; 10] = [65_534, 65_535, 65_536, 65_537, 65_538, 65_540, 65_600, 66_534, 66_537, 66_600];
pub const LONG_RUNS: u64 = LONG_RUN_LENGTHS.len() as u64 * 18;
