//! C06: all three history sources report identical context states.
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use contexts::*;
use mc::inputs::*;
use mc::*;
use std::collections::HashMap;

struct Env<'a> { luts: &'a LookUpTables, trained: &'a Trained }

/// What the property's definition says about a context followed by `bits`.
fn define(bits: &[bool], distance: usize, costs: Option<&CostTrackers>, env: &Env) -> View {
    let n = bits.iter().take_while(|&&b| b == bits[0]).count();
    let run = (n as u32).min(MAX_COUNT);
    if n == bits.len() { return View::Edge { distance, count: run, bit: bits[0] }; }
    let mut s = Stats::start(!bits[0], run, env.trained, env.luts);
    for &b in &bits[n + 1..] { let c = s.costs.clone(); s.update(b, c, env.luts); }
    if let Some(c) = costs { s.costs = c.clone(); }
    s.view(distance)
}

#[derive(Clone, Copy)]
struct Plan { order: usize, shift: usize, naive: bool, define: bool, from: usize, every: usize }

fn lockstep(bytes: &[u8], plan: Plan, env: &Env, l: &mut Local) -> CaseResult {
    let n = bytes.len();
    let mut naive = NaiveHistorySource::new(n, plan.order, env.luts);
    let mut map = FatMapHistorySource::new(n, plan.order, env.luts);
    let mut tree = TreeHistorySource::new_special(n, plan.order, plan.shift, env.luts);
    let mut col = CollectedContextStates::new(plan.order);
    let mut memory: HashMap<u128, CostTrackers> = HashMap::new();
    let mut step = 0;
    for (at, &byte) in bytes.iter().enumerate() {
        naive.start_new_byte();
        map.start_new_byte();
        tree.start_new_byte();
        for i in (0..8).rev() {
            let bit = byte >> i & 1 == 1;
            let nb = 7 - i;
            let cur = (byte as u16 >> (i + 1)) as u8;
            let what = || format!("byte {} bit {}", at, i);
            col.reset();
            tree.gather_history_states(&mut col);
            let t: Vec<View> = col.items().iter().map(view).collect();
            if at >= plan.from {
                col.reset();
                map.gather_history_states(&mut col);
                let m: Vec<View> = col.items().iter().map(view).collect();
                ensure!(t == m, "{}: tree {:?}, hash map {:?}", what(), t, m);
                if plan.naive && (at % plan.every == 0 || plan.every > 1 && at + 12 >= n) {
                    col.reset();
                    naive.gather_history_states(&mut col);
                    let v: Vec<View> = col.items().iter().map(|s| { let mut s = s.clone(); s.neutralize_cost_trackers(); view(&s).neutral() }).collect();
                    let tn: Vec<View> = t.iter().map(|v| v.clone().neutral()).collect();
                    ensure!(tn == v, "{}: tree {:?}, brute force {:?}", what(), tn, v);
                }
                if plan.define {
                    let seen = scan(&bytes[..at], cur, nb, plan.order);
                    ensure!(t.len() == seen.len(), "{}: {} contexts, {} occur", what(), t.len(), seen.len());
                    for (k, s) in seen.iter().enumerate() {
                        let bits = followers(&bytes[..at], cur, nb, k);
                        let costs = memory.get(&path(&bytes[at - k..at], cur, nb));
                        let d = define(&bits, s.last_distance, costs, env);
                        ensure!(t[k] == d, "{}: order {}: {:?} instead of {:?}", what(), k, t[k], d);
                    }
                }
            }
            let costs: Vec<CostTrackers> = t.iter().enumerate().filter(|x| x.1.is_node()).map(|x| some_costs(step, x.0)).collect();
            if plan.define { for (k, c) in costs.iter().enumerate() { memory.insert(path(&bytes[at - k..at], cur, nb), c.clone()); } }
            if plan.naive { naive.process_input_bit(bit.into(), &vec![CostTrackers::DEFAULT; costs.len()]); }
            map.process_input_bit(bit.into(), &costs);
            tree.process_input_bit(bit.into(), &costs);
            step += 1;
            l.transitions += 1;
            l.states += t.len() as u64;
            if i == 0 { l.outcome(t.iter().fold(at as u64, |h, v| mix(h, v.distance() as u64 * 2 + v.is_node() as u64))); }
        }
        // NaiveHistorySource counts its bits itself even when it is not compared
        if !plan.naive { for i in (0..8).rev() { naive.process_input_bit((byte >> i & 1 == 1).into(), &[]); } }
    }
    l.traces += 1;
    Ok(())
}

fn main() {
    let mut c = Check::new("C06", "model_checking");
    let luts = LookUpTables::new();
    let trained = Trained::new(&luts);
    let env = Env { luts: &luts, trained: &trained };
    let env = &env;
    let na = ALPHABETS.len() as u64;

    let len = c.pick(12usize, 15);
    let orders: &[usize] = c.pick(&[0, 1, 2, 4, 9], &[0, 1, 2, 3, 5, 9]);
    let no = orders.len() as u64;
    c.stage("two_symbols", &format!("all strings of length {} over each of {} two-symbol alphabets, orders {:?}, tree buffer shifts first/middle/last", len, na, orders),
        (1u64 << len) * na * no * 3, move |_, case, l| {
            let x = split(case, &[1 << len, na, no, 3]);
            let a = ALPHABETS[x[1] as usize];
            let bytes: Vec<u8> = (0..len).map(|i| a[(x[0] >> (len - 1 - i) & 1) as usize]).collect();
            let plan = Plan { order: orders[x[2] as usize], shift: [0, len / 2, len - 1][x[3] as usize], naive: true, define: x[3] == 0, from: 0, every: 1 };
            l.describe(|| format!("{:02x?} order {} shift {}", bytes, plan.order, plan.shift));
            lockstep(&bytes, plan, env, l)
        });

    let sets: [&[u8]; 4] = [&[0x00, 0x80, 0x40], &[0x00, 0x01, 0x02], &[0x10, 0x11, 0x30], &[0xff, 0x00, 0x7f]];
    let len3 = c.pick(8usize, 10);
    let n3 = 3u64.pow(len3 as u32);
    c.stage("three_symbols", &format!("all strings of length {} over {} three-symbol alphabets, orders 1 and 3, every second shift", len3, sets.len()),
        n3 * sets.len() as u64 * 2, move |_, case, l| {
            let x = split(case, &[n3, sets.len() as u64, 2]);
            let bytes: Vec<u8> = digits(x[0], 3, len3).iter().map(|&d| sets[x[1] as usize][d]).collect();
            for shift in (0..len3).step_by(2) {
                let plan = Plan { order: [1, 3][x[2] as usize], shift, naive: shift == 0, define: shift == 2, from: 0, every: 1 };
                l.describe(|| format!("{:02x?} order {} shift {}", bytes, plan.order, plan.shift));
                lockstep(&bytes, plan, env, l)?;
            }
            Ok(())
        });

    c.stage("all_shifts", "all strings of length 1..=7 over {00,80} and {00,01}, order 3, every shift",
        254 * 2, move |_, case, l| {
            let w = word(case / 2 + 1, 2);
            let a = ALPHABETS[(case % 2) as usize];
            let bytes: Vec<u8> = w.iter().map(|&d| a[d]).collect();
            for shift in 0..bytes.len() {
                let plan = Plan { order: 3, shift, naive: true, define: true, from: 0, every: 1 };
                l.describe(|| format!("{:02x?} shift {}", bytes, shift));
                lockstep(&bytes, plan, env, l)?;
            }
            Ok(())
        });

    c.stage("byte_pairs", "all pairs of byte values x,y in xxyxyyx and xyyxxxy, order 2",
        65536 * 2, move |_, case, l| {
            let (a, b) = ((case / 2 / 256) as u8, (case / 2 % 256) as u8);
            let bytes: Vec<u8> = (if case % 2 == 0 { "xxyxyyx" } else { "xyyxxxy" }).chars().map(|ch| if ch == 'x' { a } else { b }).collect();
            let plan = Plan { order: 2, shift: 3, naive: true, define: true, from: 0, every: 1 };
            l.describe(|| format!("{:02x?}", bytes));
            lockstep(&bytes, plan, env, l)
        });

    let deep_len = c.pick(100usize, 200);
    let maxp = c.pick(5usize, 7);
    let pats: Vec<Vec<usize>> = (1..=maxp).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let pt = &pats;
    c.stage("deep_contexts", &format!("every two-symbol pattern of period up to {} repeated to {} bytes, with one foreign byte at each of 6 places or a skipped byte at each of 6 places, maximum orders 13, 40 and 63", maxp, deep_len),
        pats.len() as u64 * 13 * 3, move |_, case, l| {
            let x = split(case, &[pt.len() as u64, 13, 3]);
            let p = &pt[x[0] as usize];
            let mut bytes: Vec<u8> = (0..deep_len).map(|i| if p[i % p.len()] == 1 { 0x6e } else { 0x61 }).collect();
            let place = 5 + (x[1] as usize % 6) * deep_len / 6;
            if x[1] < 6 { bytes[place] = 0x63 } else if x[1] < 12 { bytes.remove(place); }
            let order = [13, 40, 63][x[2] as usize];
            let plan = Plan { order, shift: place, naive: true, define: order == 13, from: 0, every: 1 };
            l.describe(|| format!("{:02x?} order {}", bytes, order));
            lockstep(&bytes, plan, env, l)
        });

    // contexts of more than 64, 128, 256, ... bytes
    let mut depths = vec![65usize, 130, 258];
    if c.thorough() { depths.extend(&[300, 520, 1030]); }
    let nd = depths.len() as u64;
    let dp = &depths;
    c.stage("very_deep", &format!("maximum orders {:?} and one less: noise, a run and a pattern of period three, each 20 bytes longer than the order and then again with one foreign byte at each of 5 places: tree and hash map compared at every bit, brute force at every 97th byte", depths),
        nd * 2 * 3 * 5, move |_, case, l| {
            let x = split(case, &[nd, 2, 3, 5]);
            let deepest = dp[dp.len() - 1 - x[0] as usize];
            let len = deepest + 20;
            let part = |i: usize| match x[2] { 0 => ((i * i * 7 + i * 13) as u32).wrapping_mul(2654435761).to_be_bytes()[0] & 0x83, 1 => 0x61, _ => [0x61u8, 0x62, 0xe1][i % 3] };
            let mut bytes: Vec<u8> = (0..2 * len).map(|i| part(i % len)).collect();
            bytes[len + [0, 5, len / 2, len - 15, len - 1][x[3] as usize]] ^= 0x24;
            bytes.extend((0..12).map(part));
            let plan = Plan { order: deepest - x[1] as usize, shift: len / 2, naive: deepest < 300, define: false, from: 0, every: 97 };
            l.describe(|| format!("order {} kind {} place {}", plan.order, x[2], x[3]));
            if l.sampling() { return Ok(()); }
            lockstep(&bytes, plan, env, l)
        });

    let stride = c.pick(1u64, 1);
    let sat_orders = c.pick(2u64, 3);
    c.stage("saturation", &format!("{} inputs in which counters pass 1000, orders 0..{}", SATURATING, sat_orders - 1),
        SATURATING / stride * sat_orders, move |_, case, l| {
            let x = split(case, &[SATURATING / stride, sat_orders]);
            let bytes = saturating(x[0] * stride);
            let plan = Plan { order: x[1] as usize, shift: 0, naive: true, define: true, from: bytes.len().saturating_sub(20), every: 1 };
            l.describe(|| format!("saturating input {} ({} bytes) order {}", x[0] * stride, bytes.len(), plan.order));
            lockstep(&bytes, plan, env, l)
        });

    // positions and distances beyond sixteen bits
    let mut sizes = vec![65_537usize, 70_000];
    if c.thorough() { sizes.extend(&[131_073, 200_000]); }
    let ns = sizes.len() as u64;
    let sz = &sizes;
    c.stage("long_inputs", &format!("{} structured inputs of {:?} bytes, orders 1, 4 and 20: tree and hash map compared at every bit, brute force at every 4999th byte and the last twelve (order 1)", LONG_INPUTS, sizes),
        LONG_INPUTS * ns * 3, move |_, case, l| {
            let x = split(case, &[LONG_INPUTS, ns, 3]);
            let n = sz[sz.len() - 1 - x[1] as usize];
            let order = [20, 4, 1][x[2] as usize];
            l.describe(|| format!("long input {} of {} bytes order {}", x[0], n, order));
            if l.sampling() { return Ok(()); }
            // the hash map keeps every context that ever occurred
            let _share = mc::Share::take((n * 8 * (order + 1)) as u64 / 5_000);
            let mut bytes = long_input(x[0] as usize, n / 2, n - 8);
            let head = bytes[..8].to_vec();
            bytes.extend(head);
            let plan = Plan { order, shift: 0, naive: order == 1, define: false, from: 0, every: 4999 };
            lockstep(&bytes, plan, env, l)
        });
    let run_orders = [0usize, 2, 5];
    let nr = c.pick(2u64, 3);
    c.stage("long_runs", &format!("one byte value repeated 65534 to 66600 times, at the start or after a different byte, then interrupted ({} inputs), orders {:?}", LONG_RUNS, &run_orders[..nr as usize]),
        LONG_RUNS * nr, move |_, case, l| {
            let x = split(case, &[LONG_RUNS, nr]);
            let order = run_orders[x[1] as usize];
            l.describe(|| format!("long run {} order {}", x[0], order));
            if l.sampling() { return Ok(()); }
            let bytes = long_run(x[0]);
            let plan = Plan { order, shift: 0, naive: false, define: false, from: 0, every: 1 };
            lockstep(&bytes, plan, env, l)
        });
    // the same passage again from very far away; what lies between is so plain
    // that the hash map can hold it
    let mut gaps = vec![1_048_560usize];
    if c.thorough() { gaps.extend(&[1_100_000, 2_097_140, 4_194_290, 8_388_600, 16_777_200]); }
    let ng = gaps.len() as u64;
    let gp = &gaps;
    c.stage("far", &format!("passages of 40 bytes, and again after {:?} bytes of one value or of a pattern of three, orders 1 and 12: tree and hash map compared at every bit", gaps),
        ng * 4, move |_, case, l| {
            let x = split(case, &[ng, 2, 2]);
            let gap = gp[gp.len() - 1 - x[0] as usize];
            let order = [1usize, 12][x[1] as usize];
            l.describe(|| format!("gap {} order {} filling {}", gap, order, x[2]));
            if l.sampling() { return Ok(()); }
            let passage: Vec<u8> = (0..40u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 28) as u8 | 0x60).collect();
            let mut bytes = passage.clone();
            bytes.extend((0..gap).map(|i| if x[2] == 0 { 0x61 } else { [0x20u8, 0x62, 0xe1][i % 3] }));
            bytes.extend(&passage);
            let plan = Plan { order, shift: 0, naive: false, define: false, from: 0, every: 1 };
            lockstep(&bytes, plan, env, l)
        });
    c.finish()
}
