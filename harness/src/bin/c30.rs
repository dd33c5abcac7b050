//! C30: child references, directions, bits and nodes keep what is put in them.
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::FractOnlyU32;
use demixer::fixed_point::FixedPoint;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::{CostTrackers, Node};
use demixer::history::tree::node_child::{NodeChild, NodeChildren};
use demixer::history::tree::nodes::{NodeIndex, Nodes};
use demixer::history::window::WindowIndex;
use demixer::lut::LookUpTables;
use mc::*;

const TOP: u64 = 0x7fff_ffff;

fn reference(v: u64) -> CaseResult {
    let w: NodeChild = WindowIndex::new(v as usize).into();
    ensure!(w.is_window_index() && !w.is_node_index() && w.is_valid(), "window index {} not recognised", v);
    ensure!(w.to_window_index().raw() as u64 == v, "window index {} comes back as {}", v, w.to_window_index().raw());
    if v >= Nodes::NUM_ROOTS as u64 {
        let n: NodeChild = NodeIndex::new(v as usize).into();
        ensure!(n.is_node_index() && !n.is_window_index() && n.is_valid(), "node index {} not recognised", v);
        ensure!(n.to_node_index().raw() as u64 == v, "node index {} comes back as {}", v, n.to_node_index().raw());
        ensure!(n != w && n != NodeChild::INVALID, "references to node {0} and window position {0} are the same", v);
    }
    ensure!(w != NodeChild::INVALID, "window position {} looks like no child", v);
    Ok(())
}

#[derive(Clone, Debug)]
struct F { text: usize, p: u32, pn: u16, depth: usize, s: u16, n: u16, run: u16, runb: bool, left: u16, right: u16, recent: u16, lc: u64, rc: u64 }

fn child(v: u64) -> NodeChild { if v >= 1 << 32 { NodeIndex::new((v - (1 << 32)) as usize).into() } else { WindowIndex::new(v as usize).into() } }

fn build(f: &F) -> Node {
    Node::new(WindowIndex::new(f.text), DeceleratingEstimator::make(FractOnlyU32::new(f.p << 9, 31), f.pn), f.depth,
        CostTrackers::new(CostTracker::new(f.s), CostTracker::new(f.n)), BitsRunsTracker::for_bit_run(f.runb.into(), f.run),
        f.left, f.right, RecentBitsHistory::new_unchecked(f.recent), NodeChildren::new([child(f.lc), child(f.rc)]))
}

fn compare(n: &Node, f: &F) -> CaseResult {
    ensure!(n.is_valid(), "a complete node is called invalid");
    ensure!(n.text_start().raw() == f.text, "text start {}", n.text_start().raw());
    ensure!(n.depth() == f.depth, "depth {}", n.depth());
    ensure!(n.left_count() == f.left && n.right_count() == f.right, "counts {} {}", n.left_count(), n.right_count());
    ensure!(n.probability_estimator() == DeceleratingEstimator::make(FractOnlyU32::new(f.p << 9, 31), f.pn), "estimator");
    ensure!(n.cost_trackers().stationary().raw() == f.s && n.cost_trackers().non_stationary().raw() == f.n, "cost trackers {:?}", n.cost_trackers());
    ensure!(n.bits_runs() == BitsRunsTracker::for_bit_run(f.runb.into(), f.run), "bit runs");
    ensure!(n.recent_bits() == RecentBitsHistory::new_unchecked(f.recent), "recent bits");
    for (d, c) in [(Direction::Left, f.lc), (Direction::Right, f.rc)].iter() {
        ensure!(n.child(*d) == child(*c) && n.children[*d] == child(*c), "{:?} child", d);
    }
    Ok(())
}

const BASE: F = F { text: 77, p: 1_000_000, pn: 12, depth: 9, s: 20_000, n: 30_000, run: 3, runb: true, left: 5, right: 7, recent: 0b10110, lc: 11, rc: (1 << 32) + 22 };

fn main() {
    let mut c = Check::new("C30", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    // every reference
    let block = 1u64 << 17;
    c.stage("references", "every window position and every node index from 0 to 2^31 - 1", (TOP + 1) / block, move |_, case, l| {
        l.describe(|| format!("references from {}", case * block));
        for v in case * block..(case + 1) * block { reference(v)?; }
        l.states += 2 * block; l.transitions += 2 * block; l.traces += 1; l.outcome(case);
        Ok(())
    });
    c.stage("reference_limits", "references out of range are refused, kinds are not confused, the root is no child", 8, move |_, case, l| {
        let bad = match case {
            0 => refuses(|| { let _: NodeChild = WindowIndex::new(TOP as usize + 1).into(); }),
            1 => refuses(|| { let _: NodeChild = NodeIndex::new(TOP as usize + 1).into(); }),
            2 => refuses(|| { let _: NodeChild = NodeIndex::new(0).into(); }),
            3 => refuses(|| { let _: NodeChild = WindowIndex::new(1 << 32).into(); }),
            4 => refuses(|| { let _: NodeChild = NodeIndex::new((1 << 32) + 5).into(); }),
            5 => refuses(|| { let c: NodeChild = WindowIndex::new(5).into(); c.to_node_index(); }),
            6 => refuses(|| { let c: NodeChild = NodeIndex::new(5).into(); c.to_window_index(); }),
            _ => !NodeChild::INVALID.is_valid(),
        };
        l.transitions += 1; l.traces += 1;
        ensure!(bad, "accepted");
        Ok(())
    });
    // bits and directions
    c.stage("bits", "both bits and directions: conversions, negation, printing, selection", 2, move |_, case, l| {
        let one = case == 1;
        let b: Bit = one.into();
        ensure!(b.is_1() == one && b.is_0() == !one, "value");
        ensure!(b.to_i8() == case as i8 && b.to_u8() == case as u8 && b.to_i16() == case as i16 && b.to_u16() == case as u16
            && b.to_i32() == case as i32 && b.to_u32() == case as u32 && b.to_i64() == case as i64 && b.to_u64() == case, "integer value");
        ensure!(format!("{}", b) == format!("{}", case), "text");
        ensure!(!b == Bit::from(!one) && !!b == b && !b != b, "negation");
        let d: Direction = b.into();
        ensure!(d == if one { Direction::Right } else { Direction::Left }, "direction");
        ensure!(Bit::from(d) == b && Bit::from(!d) == !b && !!d == d && !d != d, "direction to bit");
        ensure!(d.fold(|| 1, || 2) == if one { 2 } else { 1 }, "selection by direction");
        l.transitions += 18; l.traces += 1; l.outcome(case);
        Ok(())
    });
    // fields
    let mut fs: Vec<F> = vec![];
    let deep = c.thorough();
    for depth in if deep { (0..65_536usize).collect::<Vec<_>>() } else { (0..2000usize).chain(32_700..32_800).chain(65_000..65_536).collect() } { fs.push(F { depth, ..BASE }); }
    for text in (0..400usize).chain((0..31).map(|k| 1 << k)).chain((1..32).map(|k| (1 << k) - 1)) { fs.push(F { text, ..BASE }); }
    for v in 0..=1000u16 { fs.push(F { left: v, ..BASE }); fs.push(F { right: v, ..BASE }); fs.push(F { pn: v, ..BASE }); fs.push(F { run: v, runb: v % 2 == 0, ..BASE }); }
    for v in (0..65_535u32).step_by(c.pick(97, 3)) { fs.push(F { s: v as u16, ..BASE }); fs.push(F { n: v as u16, ..BASE }); fs.push(F { recent: v.max(1) as u16, ..BASE }); }
    for k in 0..22 { for e in [-1i64, 0, 1] { let p = ((1i64 << k) + e).max(1) as u32; fs.push(F { p, ..BASE }); } }
    for a in 0..31 { for b in 0..31 { fs.push(F { lc: 1 << a, rc: (1 << 32) + (1 << b), ..BASE }); fs.push(F { rc: 1 << a, lc: (1 << 32) + (1 << b), ..BASE }); fs.push(F { lc: (1 << b) - 1, rc: 1 << a, ..BASE }); } }
    let fr = &fs;
    c.stage("fields", "a node built from any boundary value of each field returns all of them; so does its copy", fs.len() as u64, move |_, case, l| {
        let f = &fr[case as usize];
        l.describe(|| format!("{:?}", f));
        let n = build(f);
        compare(&n, f)?;
        compare(&n.clone(), f)?;
        // moving a child or the text start disturbs nothing else
        let mut m = n.clone();
        let g = F { lc: 1 << 20, text: 5, ..f.clone() };
        m.children[Direction::Left] = child(g.lc);
        m.text_start = 5;
        compare(&m, &g)?;
        let mut m = n.clone();
        let g = F { rc: (1 << 32) + 9, ..f.clone() };
        m.children[Direction::Right] = child(g.rc);
        compare(&m, &g)?;
        compare(&n, f)?;
        l.states += 3; l.transitions += 5; l.traces += 1; l.outcome(case);
        Ok(())
    });
    // update along every history of bits
    let depth = c.pick(12u32, 16);
    let starts: Vec<F> = vec![BASE, F { left: 999, right: 998, pn: 995, ..BASE }, F { left: 1000, right: 0, run: 999, runb: false, recent: 0xffff, ..BASE }, F { left: 0, right: 1000, recent: 1, ..BASE }];
    let sr = &starts;
    c.stage("updates", &format!("all {} bit histories of length {} from {} nodes around the count limit: counts, summaries, estimator and supplied costs change, nothing else", 1 << depth, depth, starts.len()), (1 << depth) * starts.len() as u64, move |_, case, l| {
        let f = &sr[(case >> depth) as usize];
        let w = case & ((1 << depth) - 1);
        l.describe(|| format!("{:?} bits {:b}", f, w));
        let mut n = build(f);
        let (mut left, mut right) = (f.left as u32, f.right as u32);
        let mut est = n.probability_estimator();
        let (mut runs, mut recent) = (n.bits_runs(), n.recent_bits());
        for k in 0..depth {
            let one = w >> k & 1 == 1;
            let cost = CostTrackers::new(CostTracker::new(100 + k as u16), CostTracker::new((w % 60_000) as u16));
            n.update_on_next_bit(one.into(), cost.clone(), luts.d_estimator_rates());
            if one { right = (right + 1).min(1000) } else { left = (left + 1).min(1000) }
            est.update(one.into(), luts.d_estimator_rates());
            runs = runs.updated(one.into());
            recent = recent.updated(one.into());
            ensure!(n.left_count() as u32 == left && n.right_count() as u32 == right, "after bit {}: counts {} {} instead of {} {}", k, n.left_count(), n.right_count(), left, right);
            ensure!(n.probability_estimator() == est && n.bits_runs() == runs && n.recent_bits() == recent, "after bit {}: summaries", k);
            ensure!(n.cost_trackers() == cost, "after bit {}: cost trackers", k);
            ensure!(n.depth() == f.depth && n.text_start().raw() == f.text && n.child(Direction::Left) == child(f.lc) && n.child(Direction::Right) == child(f.rc), "after bit {}: structure changed", k);
            l.states += 1; l.transitions += 1;
        }
        l.outcome(mix(left as u64, est.usage_count() as u64));
        l.traces += 1;
        Ok(())
    });
    c.stage("saturation", "3000 equal bits from an empty count", 2, move |_, case, l| {
        let one = case == 1;
        let mut n = build(&F { left: 0, right: 0, pn: 0, ..BASE });
        for k in 1..=3000u32 {
            n.update_on_next_bit(one.into(), CostTrackers::DEFAULT, luts.d_estimator_rates());
            let (a, b) = if one { (n.right_count(), n.left_count()) } else { (n.left_count(), n.right_count()) };
            ensure!(a as u32 == k.min(1000) && b == 0, "after {} bits: {} and {}", k, a, b);
            l.states += 1; l.transitions += 1;
        }
        l.traces += 1;
        Ok(())
    });
    c.stage("node_limits", "values that do not fit are refused", 4, move |_, case, l| {
        let f = match case { 0 => F { depth: 65_536, ..BASE }, 1 => F { text: 1 << 31, ..BASE }, 2 => F { recent: 0, ..BASE }, _ => F { depth: 1 << 20, ..BASE } };
        l.transitions += 1; l.traces += 1;
        ensure!(refuses(|| { build(&f); }), "accepted {:?}", f);
        Ok(())
    });
    c.stage("no_node", "the absent node is not valid, one child alone does not make it so", 3, move |_, case, l| {
        let mut n = Node::INVALID.clone();
        match case { 1 => n.children[Direction::Left] = child(3), 2 => n.children[Direction::Right] = child(3), _ => () }
        l.transitions += 1; l.traces += 1;
        ensure!(!n.is_valid(), "called valid");
        Ok(())
    });
    c.assume("estimator, run and recent-bits steps are the crate's own, decided by C12 and C14");
    c.finish()
}
