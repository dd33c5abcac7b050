//! C34: every build of the crate behaves the same.
//!
//! The same cases are executed by three builds of this program: with overflow checks
//! and debug assertions ("checked"), as users build the crate ("plain"), and without
//! any optimisation ("slow"). The checked one starts the other two, which write a
//! digest of everything observable per case, and compares case by case.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
#[allow(dead_code)]
#[path = "../machines.rs"]
mod machines;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

use coder::*;
use contexts::view;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, NoFractU32, NoFractU64, StretchedProbD};
use demixer::fixed_point::{FixU32, FixU64, FixedPoint};
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use machines::*;
use mc::inputs::*;
use mc::tools::{output, Scratch};
use mc::*;
use predict::trace;

struct Group<'a> { name: &'static str, bound: String, cases: u64, show: Box<dyn Fn(u64) -> String + Sync + 'a>, digest: Box<dyn Fn(u64) -> u64 + Sync + 'a> }

fn fold(v: &[u64]) -> u64 { v.iter().fold(3, |h, &x| mix(h, x)) }

fn histories<'a, H: HistorySource<'a>>(mut h: H, bytes: &[u8], order: usize, costs: bool) -> u64 {
    let mut c = CollectedContextStates::new(order);
    let mut d = 1;
    for (i, &b) in bytes.iter().enumerate() {
        h.start_new_byte();
        for bit in (0..8).rev() {
            c.reset();
            h.gather_history_states(&mut c);
            for s in c.items() { d = mix(d, text(&format!("{:?}", view(s)))); }
            let k: Vec<CostTrackers> = c.items().iter().filter(|x| x.is_for_node()).enumerate()
                .map(|x| if costs { contexts::some_costs(i * 8 + bit, x.0) } else { CostTrackers::DEFAULT }).collect();
            h.process_input_bit((b >> bit & 1 == 1).into(), &k);
        }
    }
    d
}

const CHUNKS: u64 = 512;

fn groups<'a>(thorough: bool, luts: &'a LookUpTables) -> Vec<Group<'a>> {
    let mut v: Vec<Group<'a>> = vec![];
    let depth = if thorough { 9 } else { 7 };
    let per = 3u64.pow(depth as u32);
    let script = move |case: u64| {
        let x = split(case, &[LIGHT as u64, 2, per]);
        Script { kind: x[0] as usize, variant: x[1] as usize, ops: digits(x[2], 3, depth) }
    };
    v.push(Group { name: "machines", bound: format!("{} kinds of instances in two variants, all words of {} operations", LIGHT, depth), cases: LIGHT as u64 * 2 * per,
        show: Box::new(move |c| format!("{}", script(c))),
        digest: Box::new(move |c| { let s = script(c); let mut m = make(s.kind, s.variant, luts); s.ops.iter().fold(9, |h, &o| mix(h, m.0.step(o))) }) });
    let lasting: Vec<usize> = (0..LIGHT).filter(|&k| ![2, 3, 4, 19].contains(&k)).collect();
    let long = move |case: u64| {
        let x = split(case, &[lasting.len() as u64, 2, 81]);
        Script { kind: lasting[x[0] as usize], variant: x[1] as usize, ops: digits(x[2], 3, 4).iter().cycle().take(400).cloned().collect() }
    };
    let lo = long.clone();
    v.push(Group { name: "long_machines", bound: "instances of every kind that never fills up, in two variants, all words of 4 operations repeated to 400".into(), cases: (LIGHT as u64 - 4) * 2 * 81,
        show: Box::new(move |c| { let s = lo(c); format!("{} {} {:?}", KINDS[s.kind], s.variant, &s.ops[..4]) }),
        digest: Box::new(move |c| { let s = long(c); let mut m = make(s.kind, s.variant, luts); s.ops.iter().fold(9, |h, &o| mix(h, m.0.step(o))) }) });
    let len = if thorough { 10 } else { 6 };
    let na = ALPHABETS.len() as u64;
    let string = move |c: u64, len: usize| -> Vec<u8> { let x = split(c, &[1 << len, na]); digits(x[0], 2, len).iter().map(|&d| ALPHABETS[x[1] as usize][d]).collect() };
    v.push(Group { name: "predictions", bound: format!("predictions for all strings of length {} over {} two-symbol alphabets", len, na), cases: (1 << len) * na,
        show: Box::new(move |c| format!("{:02x?}", string(c, len))),
        digest: Box::new(move |c| trace(&string(c, len), luts).map(|t| t.iter().fold(1, |h, &p| mix(h, p as u64))).unwrap_or(2)) });
    let st = structured(thorough);
    let names: Vec<String> = st.iter().map(|x| x.0.clone()).collect();
    v.push(Group { name: "structured", bound: "predictions for long structured inputs".into(), cases: st.len() as u64,
        show: Box::new(move |c| names[c as usize].clone()),
        digest: Box::new(move |c| trace(&st[c as usize].1, luts).map(|t| t.iter().fold(1, |h, &p| mix(h, p as u64))).unwrap_or(2)) });
    let long_input = |c: u64| -> Vec<u8> { (0..66_000u32).map(|i| match c { 0 => 0xff, 1 => b"etaoin shrdlucmf"[(i.wrapping_mul(2654435761) >> 7 ^ i >> 3) as usize & 15], _ => (i % 300 / 3) as u8 }).collect() };
    v.push(Group { name: "long_inputs", bound: "predictions for three inputs of 66000 bytes".into(), cases: 3,
        show: Box::new(move |c| format!("input {}", c)),
        digest: Box::new(move |c| trace(&long_input(c), luts).map(|t| t.iter().fold(1, |h, &p| mix(h, p as u64))).unwrap_or(2)) });
    let al: Vec<Ev> = [1u32 << 22, 1, P_ONE - 1, 5_592_405].iter().flat_map(|&p| [Ev::Bit(p, false), Ev::Bit(p, true)]).chain([Ev::Rare(false), Ev::Rare(true)]).collect();
    let events = if thorough { 6 } else { 5 };
    let word_of = move |c: u64| -> Vec<Ev> { word(c, al.len() as u64).iter().map(|&i| al[i]).collect() };
    let w2 = word_of.clone();
    v.push(Group { name: "codes", bound: format!("codes and decoded events of all event sequences of length 0..={} over 10 events, and of each of them repeated to 200", events), cases: words_up_to(10, events),
        show: Box::new(move |c| format!("{:?}", w2(c))),
        digest: Box::new(move |c| {
            let w = word_of(c);
            let mut h = 1;
            for evs in [w.clone(), w.iter().cycle().take(if w.is_empty() { 0 } else { 200 }).cloned().collect()] {
                let code = encode(&evs, Fault::None);
                h = code.iter().fold(mix(h, code.len() as u64), |h, &b| mix(h, b as u64));
                let mut src = Source::new(&code, Fault::None);
                let mut dec = Decoder::new(&mut src);
                for e in &evs { h = mix(h, match *e { Ev::Bit(p, _) => dec.decode_bit(prob(p)).is_1() as u64, Ev::Rare(_) => 2 + dec.decode_rare_event() as u64 }); }
            }
            h
        }) });
    let len = if thorough { 11 } else { 9 };
    let hist = move |c: u64| -> (Vec<u8>, usize, usize) { let x = split(c, &[1 << len, 3, 4, 5]); (digits(x[0], 2, len).iter().map(|&d| ALPHABETS[[0, 2, 5][x[1] as usize]][d]).collect(), [0, 1, 2, 6][x[2] as usize], x[3] as usize) };
    v.push(Group { name: "histories", bound: format!("context states of the three sources, and of trees with windows of 2 and 5 bytes, for all strings of length {} over 3 alphabets, 4 orders", len), cases: (1 << len) * 60,
        show: Box::new(move |c| { let x = hist(c); format!("{:02x?} order {} source {}", x.0, x.1, x.2) }),
        digest: Box::new(move |c| {
            let (s, o, kind) = hist(c);
            match kind {
                0 => histories(TreeHistorySource::new(s.len(), o, luts), &s, o, true),
                1 => histories(FatMapHistorySource::new(s.len(), o, luts), &s, o, true),
                2 => histories(NaiveHistorySource::new(s.len(), o, luts), &s, o, false),
                3 => histories(TreeHistorySource::new(2, o, luts), &s, o, true),
                _ => histories(TreeHistorySource::new(5, o, luts), &s, o, true),
            }
        }) });
    let stride = if thorough { 3u32 } else { 101 };
    let chunk = move |c: u64, from: u64, to: u64, step: u64| { let n = (to - from).div_ceil(CHUNKS); (from + c * n..(from + (c + 1) * n).min(to)).step_by(step as usize) };
    v.push(Group { name: "stretch", bound: format!("logistic value of every {}th probability", stride), cases: CHUNKS, show: Box::new(|c| format!("part {}", c)),
        digest: Box::new(move |c| chunk(c, 1, 1 << 31, stride as u64).fold(1, |h, r| mix(h, luts.stretch_lut().stretch(FractOnlyU32::new(r as u32, 31)).raw() as u64))) });
    let dense = if thorough { 1u64 } else { 5 };
    v.push(Group { name: "squash", bound: format!("probability of every {}th logistic value", dense), cases: CHUNKS, show: Box::new(|c| format!("part {}", c)),
        digest: Box::new(move |c| chunk(c, 0, (24 << 21) + 1, dense).fold(1, |h, r| mix(h, luts.squash_lut().squash(StretchedProbD::new(r as i32 - (12 << 21), 21)).raw() as u64))) });
    v.push(Group { name: "costs", bound: "costs of both bits for every probability of the coder; logarithms of a grid of 32-bit and 64-bit values".into(), cases: CHUNKS, show: Box::new(|c| format!("part {}", c)),
        digest: Box::new(move |c| {
            let mut h = chunk(c, 1, 1 << 23, dense).fold(1, |h, r| { let p = FinalProbability::new(r as u32, 23); [Bit::Zero, Bit::One].iter().fold(h, |h, &b| mix(h, p.estimate_cost(b, luts.log2_lut()).raw() as u64)) });
            for r in chunk(c, 1, 1 << 32, 9973) { h = mix(h, NoFractU32::new_unchecked(r as u32).log2(luts.log2_lut()).raw() as u64); }
            for r in chunk(c, 1, 1 << 20, 3) { h = mix(h, NoFractU64::new_unchecked(r << (c % 44) | r).log2(luts.log2_lut()).raw() as u64); }
            h
        }) });
    v.push(Group { name: "tables", bound: "start states for every run length and bit; the estimator from every 1021st state of every count".into(), cases: 1001, show: Box::new(|c| format!("run of {}", c)),
        digest: Box::new(move |c| {
            let n = c as u16;
            let mut h = 1;
            for b in [Bit::Zero, Bit::One] {
                let e = luts.d_estimator_cache().for_new_node(b, n);
                h = fold(&[h, e.prediction().raw() as u64, e.usage_count() as u64]);
            }
            let (sq, st) = luts.direct_predictions().for_0_bit_run(n);
            h = fold(&[h, sq.raw() as u64, st.raw() as u64, luts.cost_trackers_lut().for_new_node(n).raw() as u64]);
            for p in (1..1u32 << 22).step_by(1021) {
                for b in [Bit::Zero, Bit::One] {
                    let mut e = DeceleratingEstimator::make(FractOnlyU32::new(p << 9, 31), n.min(1000));
                    e.update(b, luts.d_estimator_rates());
                    h = mix(h, e.prediction().raw() as u64);
                }
            }
            h
        }) });
    v
}

fn all_digests(gs: &[Group]) -> Vec<Vec<u64>> {
    gs.iter().map(|g| {
        let next = AtomicUsize::new(0);
        let res = Mutex::new(vec![0u64; g.cases as usize]);
        std::thread::scope(|s| for _ in 0..threads() {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, SeqCst) as u64;
                if i >= g.cases { break; }
                let d = guarded(|| Ok((g.digest)(i))).unwrap_or(REFUSED);
                res.lock().unwrap()[i as usize] = d;
            }).unwrap();
        });
        res.into_inner().unwrap()
    }).collect()
}
const REFUSED: u64 = 77;

fn main() {
    if let Ok(tier) = std::env::var("C34_DIGESTS") {
        std::panic::set_hook(Box::new(|_| {}));
        let luts = std::thread::Builder::new().stack_size(64 << 20).spawn(LookUpTables::new).unwrap().join().expect("tables");
        for v in all_digests(&groups(tier == "thorough", &luts)) { println!("{}", v.iter().map(|d| format!("{:x}", d)).collect::<Vec<_>>().join(" ")); }
        return;
    }
    let mut c = Check::new("C34", "model_checking");
    let luts = LookUpTables::new();
    let gs = groups(c.thorough(), &luts);
    let me = std::env::current_exe().unwrap();
    let folder = me.parent().unwrap().parent().unwrap().to_path_buf();
    let tier = c.pick("quick", "thorough");
    let others: Vec<(&str, Result<Vec<Vec<u64>>, String>)> = ["plain", "slow"].iter().map(|&b| {
        let r = output(Command::new(folder.join(b).join("c34")).env("C34_DIGESTS", tier)).and_then(|text| {
            let v: Vec<Vec<u64>> = text.lines().map(|l| l.split(' ').map(|d| u64::from_str_radix(d, 16).unwrap_or(0)).collect()).collect();
            if v.iter().map(|x| x.len() as u64).eq(gs.iter().map(|g| g.cases)) { Ok(v) } else { Err(format!("{} lines instead of {}", v.len(), gs.len())) }
        });
        (b, r)
    }).collect();
    let ot = &others;
    c.stage("builds", "the plain and the unoptimised build run all cases to the end", 2, move |_, case, l| {
        let (name, r) = &ot[case as usize];
        l.describe(|| format!("the {} build", name));
        if let Err(e) = r { return Err(format!("the {} build: {}", name, e)); }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    for (i, g) in gs.iter().enumerate() {
        c.stage(g.name, &g.bound, g.cases, move |_, case, l| {
            l.describe(|| (g.show)(case));
            let mine = guarded(|| Ok((g.digest)(case)));
            for (name, r) in ot {
                let theirs = r.as_ref().unwrap()[i][case as usize];
                let d = match mine { Ok(d) => d, Err(_) => REFUSED };
                ensure!(d == theirs, "the {} build gives something else than the one with overflow checks ({})", name, match mine { Err(ref e) => e.as_str(), _ if theirs == REFUSED => "it panics", _ => "other values" });
            }
            // panics are no behaviour to agree on
            if let Err(e) = mine { return Err(e); }
            l.outcome(mine.unwrap());
            l.states += 1; l.transitions += 3; l.traces += 3;
            Ok(())
        });
    }
    // the command-line tools
    let sc = Scratch::new("c34");
    let sr = &sc;
    let files: Vec<(String, Vec<u8>)> = structured(false).into_iter().filter(|f| !f.1.is_empty()).map(|(n, mut b)| { b.truncate(1500); (n, b) }).collect();
    let fl = &files;
    c.stage("tools", "estimator and history listing built with the release and the development profile: the same output for structured files up to 1500 bytes", fl.len() as u64 * 4, move |_, case, l| {
        let x = split(case, &[fl.len() as u64, 4]);
        let (name, bytes) = &fl[x[0] as usize];
        l.describe(|| format!("{} {}", name, x[1]));
        let bytes = if x[1] == 0 { &bytes[..] } else { &bytes[..bytes.len().min(120)] };
        let f = sr.file(bytes)?;
        let mut both = vec![];
        for profile in ["release", "debug"] {
            let at = format!("{}/target/tools/{}/", verif_dir(), profile);
            let text = if x[1] == 0 { output(Command::new(at + "demixer").arg(&f.0))? }
                else { output(Command::new(at + "print_histories").arg(["brute_force", "fat_map", "tree"][x[1] as usize - 1]).arg(&f.0))? };
            both.push(text.lines().filter(|t| !["initialization ", "total duration ", "speed "].iter().any(|s| t.starts_with(s))).map(|s| s.to_string()).collect::<Vec<_>>());
        }
        for (a, b) in both[0].iter().zip(&both[1]) { ensure!(a == b, "{:?} in the development build, {:?} in the release build", b, a); }
        ensure!(both[0].len() == both[1].len(), "{} and {} lines", both[0].len(), both[1].len());
        l.states += 1; l.transitions += 2; l.traces += 2;
        Ok(())
    });
    c.assume("builds by the installed compiler for the installed target only");
    c.finish()
}
