//! C11: the tree node pool never aliases, loses or invents nodes.
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::NodeChildren;
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::bit::Bit;
use demixer::history::window::WindowIndex;
use mc::*;
use std::collections::BTreeMap;

fn make(id: usize) -> Node {
    Node::new(WindowIndex::new(id), DeceleratingEstimator::new(), id % 500,
        CostTrackers::DEFAULT, BitsRunsTracker::new(), (id % 7) as u16, (id % 11) as u16,
        RecentBitsHistory::for_bit_run(Bit::One, (id % 9) as u16),
        NodeChildren::new([WindowIndex::new(3 * id + 1).into(), WindowIndex::new(3 * id + 2).into()]))
}

fn same(n: &Node, id: usize) -> bool {
    n.is_valid() && n.text_start().raw() == id && n.depth() == id % 500
        && n.left_count() == (id % 7) as u16 && n.right_count() == (id % 11) as u16
        && n.recent_bits() == RecentBitsHistory::for_bit_run(Bit::One, (id % 9) as u16)
        && n.bits_runs() == BitsRunsTracker::new()
        && n.probability_estimator() == DeceleratingEstimator::new()
        && n.cost_trackers() == CostTrackers::DEFAULT
        && n.child(Direction::Left).is_window_index()
        && n.child(Direction::Left).to_window_index().raw() == 3 * id + 1
        && n.child(Direction::Right).is_window_index()
        && n.child(Direction::Right).to_window_index().raw() == 3 * id + 2
}

struct Sys { real: Nodes, live: BTreeMap<usize, usize>, root: Option<usize>, used: usize, cap: usize, id: usize }

impl Sys {
    fn new(cap: usize) -> Sys {
        Sys { real: Nodes::new(cap), live: BTreeMap::new(), root: None, used: 0, cap, id: 1 }
    }
    fn choices(&self) -> usize {
        // 0: set/replace root; 1: invalidate root; 2: add; then update/delete per live node
        3 + 2 * self.live.len()
    }
    fn step(&mut self, choice: usize) -> Result<bool, String> {
        let root_index = NodeIndex::new(0);
        match choice {
            0 => {
                self.id += 1;
                self.real.update_node(root_index, make(self.id));
                self.root = Some(self.id);
            }
            1 => {
                if self.root.is_none() || !self.live.is_empty() { return Ok(false); }
                self.real.update_node(root_index, Node::INVALID);
                self.root = None;
            }
            2 => {
                if self.root.is_none() || self.live.len() + 1 >= self.cap { return Ok(false); }
                self.id += 1;
                let freed = self.used - self.live.len();
                let h = self.real.add_node(make(self.id));
                ensure!(h.is_node_index() && h.is_valid() && !h.is_window_index(), "handle of the added node is no node index");
                let slot = h.to_node_index().raw();
                ensure!(slot >= Nodes::NUM_ROOTS, "allocation returned the root slot");
                ensure!(!self.live.contains_key(&slot), "allocation returned the live slot {}", slot);
                ensure!(slot < self.cap, "slot {} beyond the capacity {}", slot, self.cap);
                if freed > 0 {
                    ensure!(slot <= self.used, "pool grew to slot {} although {} freed slots exist", slot, freed);
                } else { self.used += 1; }
                self.live.insert(slot, self.id);
            }
            k => {
                let which = (k - 3) / 2;
                let slot = *self.live.keys().nth(which).unwrap();
                if k % 2 == 1 {
                    self.id += 1;
                    self.real.update_node(NodeIndex::new(slot), make(self.id));
                    self.live.insert(slot, self.id);
                } else {
                    self.real.delete_node(NodeIndex::new(slot));
                    self.live.remove(&slot);
                }
            }
        }
        Ok(true)
    }
    fn compare(&self) -> CaseResult {
        let expected = if self.root.is_some() { 1 + self.live.len() } else { 0 };
        ensure!(self.real.live_nodes_count() == expected,
            "live count {} instead of {}", self.real.live_nodes_count(), expected);
        if let Some(r) = self.root {
            ensure!(same(&self.real[NodeIndex::new(0)], r), "root content changed");
        }
        for (&slot, &id) in self.live.iter() {
            ensure!(same(&self.real[NodeIndex::new(slot)], id), "content of live node {} changed", slot);
        }
        Ok(())
    }
}

fn main() {
    let mut c = Check::new("C11", "model_checking");
    let depth = c.pick(10usize, 12);
    // Depth-first over choices; the pool cannot be copied, so each path is replayed.
    let first = 3u64 * 3 * 5;
    for cap in 1..=5usize {
        c.stage(&format!("capacity{}", cap), &format!("all sequences of up to {} operations (set root, invalidate root, add, update any live node, delete any live node), capacity {}", depth, cap),
            first, move |_, case, l| {
                let v = split(case, &[3, 3, 5]);
                let mut path: Vec<usize> = v.iter().map(|&x| x as usize).collect();
                // replay
                fn run(path: &[usize], cap: usize) -> Result<Option<Sys>, String> {
                    let mut s = Sys::new(cap);
                    for &p in path {
                        if p >= s.choices() || !s.step(p)? { return Ok(None); }
                    }
                    s.compare()?;
                    Ok(Some(s))
                }
                fn dfs(path: &mut Vec<usize>, cap: usize, depth: usize, l: &mut Local) -> CaseResult {
                    l.describe(|| format!("capacity {} choices {:?}", cap, path));
                    let s = match run(path, cap)? { Some(s) => s, None => return Ok(()) };
                    l.states += 1; l.traces += 1; l.transitions += path.len() as u64;
                    l.outcome(s.live.keys().fold(s.root.is_some() as u64, |h, &k| mix(h, k as u64 + 1)));
                    if path.len() < depth {
                        let n = s.choices();
                        drop(s);
                        for k in 0..n { path.push(k); dfs(path, cap, depth, l)?; path.pop(); }
                    }
                    Ok(())
                }
                dfs(&mut path, cap, depth, l)
            });
    }
    // Long histories: fill to n, delete in every rotation/stride order, refill, repeatedly.
    let maxn = c.pick(24usize, 80);
    c.stage("fill_free_cycles", &format!("pools of 2..={} nodes: three rounds of filling completely and freeing every second / every / each strided subset, for all strides and offsets; compared after every operation", maxn),
        maxn as u64, move |_, case, l| {
            let n = case as usize + 2;
            for stride in 1..n {
                for offset in 0..stride.min(6) {
                    let mut s = Sys::new(n);
                    l.describe(|| format!("pool {} stride {} offset {}", n, stride, offset));
                    s.step(0)?;
                    for round in 0..3 {
                        while s.live.len() + 1 < n { ensure!(s.step(2)?, "add refused"); s.compare()?; l.transitions += 1; }
                        let victims: Vec<usize> = s.live.keys().cloned().enumerate()
                            .filter(|(i, _)| i % stride == (offset + round) % stride).map(|x| x.1).collect();
                        let order: Vec<usize> = if round % 2 == 0 { victims } else { victims.into_iter().rev().collect() };
                        for slot in order {
                            let which = s.live.keys().position(|&k| k == slot).unwrap();
                            s.step(4 + 2 * which)?;
                            s.compare()?;
                            l.transitions += 1; l.states += 1;
                        }
                        if round == 1 {
                            while !s.live.is_empty() { s.step(4)?; s.compare()?; }
                            s.step(1)?; s.compare()?; s.step(0)?; s.compare()?;
                        }
                    }
                    l.traces += 1;
                }
            }
            Ok(())
        });
    // Pools whose slots need more than one or two bytes to number.
    let caps: Vec<usize> = c.pick(vec![255usize, 256, 257, 1_000, 32_769, 65_535, 65_536, 65_537, 70_000, 200_000, 1_048_577, 9_999_999], vec![255, 256, 257, 1_000, 32_769, 65_535, 65_536, 65_537, 70_000, 200_000, 1_048_577, 9_999_999, 16_777_217]);
    let strides = [1usize, 2, 3, 7, 64, 255];
    let cp = &caps;
    c.stage("large_pools", &format!("pools of {:?} nodes: filled, every k-th node freed (k in {:?}), in ascending, descending or alternating order, refilled and freed completely, twice; contents, live count and slots compared", caps, strides),
        (caps.len() * strides.len() * 3) as u64, move |_, case, l| {
            let x = split(case, &[cp.len() as u64, strides.len() as u64, 3]);
            let n = cp[cp.len() - 1 - x[0] as usize];
            let stride = strides[x[1] as usize];
            l.describe(|| format!("pool {} stride {} order {}", n, stride, x[2]));
            if l.sampling() { return Ok(()); }
            let mut real = Nodes::new(n);
            real.update_node(NodeIndex::new(0), make(1));
            // content of every slot, 0: not live
            let mut content = vec![0usize; n];
            content[0] = 1;
            let (mut live, mut used, mut id) = (1usize, 1usize, 1usize);
            for round in 0..2 {
                while live < n {
                    id += 1;
                    let slot = real.add_node(make(id)).to_node_index().raw();
                    ensure!(slot > 0 && slot < n, "slot {} of {}", slot, n);
                    ensure!(content[slot] == 0, "round {}: the live slot {} is given out again", round, slot);
                    if live < used { ensure!(slot < used, "pool grew to slot {} although freed slots exist", slot); } else { used += 1; }
                    content[slot] = id;
                    live += 1;
                    ensure!(real.live_nodes_count() == live, "live count {} instead of {}", real.live_nodes_count(), live);
                }
                for slot in 0..n { ensure!(same(&real[NodeIndex::new(slot)], content[slot]), "round {}: content of node {} changed", round, slot); }
                l.states += n as u64; l.transitions += 2 * n as u64;
                for pass in 0..2 {
                    let k = if pass == 0 { stride } else { 1 };
                    let mut victims: Vec<usize> = (1..n).filter(|&s| content[s] != 0 && s % k == 0).collect();
                    match x[2] { 1 => victims.reverse(), 2 => { let (a, b): (Vec<usize>, Vec<usize>) = victims.iter().partition(|&&s| s / k % 2 == 0); victims = a; victims.extend(b); } _ => {} }
                    for s in victims {
                        real.delete_node(NodeIndex::new(s));
                        content[s] = 0;
                        live -= 1;
                        ensure!(real.live_nodes_count() == live, "live count {} instead of {}", real.live_nodes_count(), live);
                    }
                    for slot in 0..n { ensure!(content[slot] == 0 || same(&real[NodeIndex::new(slot)], content[slot]), "round {}: content of node {} changed", round, slot); }
                    l.transitions += n as u64;
                    if pass == 0 {
                        // half of the freed ones back again
                        for _ in 0..(n - live) / 2 {
                            id += 1;
                            let slot = real.add_node(make(id)).to_node_index().raw();
                            ensure!(slot < used && content[slot] == 0, "slot {} given out while freed slots exist", slot);
                            content[slot] = id;
                            live += 1;
                        }
                    }
                }
            }
            l.outcome(mix(n as u64, id as u64));
            l.traces += 1;
            Ok(())
        });
    c.assume("the root is invalidated only while no other node is live, as the tree does");
    c.finish()
}
