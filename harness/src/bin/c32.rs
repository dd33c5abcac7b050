//! C32: instances never influence each other.
//!
//! Every stateful part of the crate is wrapped into a machine with a few
//! operations. All interleavings of short operation words (creation and disposal
//! included) on two machines are executed, and every observation is compared with
//! what the same word gives when the machine is alone. Words are also executed
//! with every assignment of their operations to two threads, next to the remains
//! of refused operations, and with separately built lookup tables.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../contexts.rs"]
mod contexts;
#[path = "../preempt.rs"]
mod preempt;
#[path = "../machines.rs"]
mod machines;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

use demixer::lut::LookUpTables;
use machines::*;
use mc::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn choose(n: u64, k: u64) -> u64 { (0..k).fold(1, |a, i| a * (n - i) / (i + 1)) }
/// The `r`-th word with `a` false and `b` true entries.
fn interleaving(mut r: u64, mut a: u64, mut b: u64) -> Vec<bool> {
    let mut v = vec![];
    while a + b > 0 {
        let first = if a == 0 { 0 } else { choose(a + b - 1, b) };
        if r < first { v.push(false); a -= 1; } else { r -= first; v.push(true); b -= 1; }
    }
    v
}

/// Creation, operations and disposal of both, in the given order.
fn interleaved(s: [&Script; 2], want: [&[u64]; 2], order: &[bool], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut m: [Option<Owned>; 2] = [None, None];
    let mut at = [0usize, 0];
    for &second in order {
        let i = second as usize;
        let k = at[i];
        at[i] += 1;
        l.transitions += 1;
        if k == 0 { m[i] = Some(make(s[i].kind, s[i].variant, luts)); continue; }
        if k == s[i].ops.len() + 1 { m[i] = None; continue; }
        let got = m[i].as_mut().unwrap().0.step(s[i].ops[k - 1]);
        ensure!(got == want[i][k - 1], "operation {} of {} (next to {}) gives something else than alone, order {:?}", k, s[i], s[1 - i], order);
    }
    Ok(())
}

/// Threads that perform operations when told to.
struct Workers<'s> { to: Vec<Sender<Box<dyn FnOnce() + Send + 's>>>, done: Receiver<()> }
impl<'s> Workers<'s> {
    fn run<F: FnOnce() -> u64 + Send + 's>(&self, thread: usize, f: F) -> Result<u64, String> {
        let (tx, rx) = channel();
        self.to[thread].send(Box::new(move || { let _ = tx.send(guarded(|| Ok(f()))); })).map_err(|e| e.to_string())?;
        let r = rx.recv().map_err(|e| e.to_string())?;
        self.done.recv().map_err(|e| e.to_string())?;
        r
    }
}
fn with_workers<'env, R>(n: usize, f: impl for<'a> FnOnce(&'a Workers<'env>) -> R) -> R {
    std::thread::scope(|scope| {
        let (dtx, done) = channel();
        let mut to = vec![];
        for _ in 0..n {
            let (tx, rx) = channel::<Box<dyn FnOnce() + Send + 'env>>();
            let dtx = dtx.clone();
            // the boxed jobs only live until the workers are joined by the scope
            let rx: Receiver<Box<dyn FnOnce() + Send + 'static>> = unsafe { std::mem::transmute(rx) };
            scope.spawn(move || { for job in rx { job(); let _ = dtx.send(()); } });
            to.push(tx);
        }
        let w = Workers { to, done };
        let r = f(&w);
        drop(w);
        r
    })
}

/// `owner[k]`: the thread that creates (k = 0) the machine or performs its k-th operation.
fn handed_over(s: &Script, want: &[u64], owners: &[usize], luts: &LookUpTables) -> CaseResult {
    with_workers(2, |w| {
        let slot: Arc<Mutex<Option<Owned>>> = Arc::new(Mutex::new(None));
        let (a, kind, variant) = (slot.clone(), s.kind, s.variant);
        // the pointers below stay valid: the workers end before this function returns
        let luts: &'static LookUpTables = unsafe { &*(luts as *const _) };
        w.run(owners[0], move || { *a.lock().unwrap() = Some(make(kind, variant, luts)); 0 })?;
        for (k, &op) in s.ops.iter().enumerate() {
            let a = slot.clone();
            let got = w.run(owners[k + 1], move || a.lock().unwrap().as_mut().unwrap().0.step(op))?;
            ensure!(got == want[k], "operation {} of {} gives something else than on one thread, threads {:?}", k + 1, s, owners);
        }
        Ok(())
    })
}

/// One case of the stage `preempted`, run in a process of its own.
fn preempted(case: u64, luts: &LookUpTables) -> Result<preempt::Counts, String> {
    let d = split(case, &[KINDS.len() as u64, 2]);
    let ka = KINDS.len() - 1 - d[0] as usize;
    let kb = ka;
    let a = Script { kind: ka, variant: 0, ops: vec![0, 1, 2] };
    let heavy = |k: usize| k >= LIGHT || k == 5;
    let b = Script { kind: kb, variant: 1 - d[1] as usize, ops: (0..if heavy(kb) { 300 } else { 12 }).map(|k| (k * k + k / 3) % 3).collect() };
    let (wa, wb) = (solo(&a, luts), solo(&b, luts));
    let (a, b, wb) = (&a, &b, &wb);
    let trouble = Mutex::new(None);
    let (tr, mut mb, mut at) = (&trouble, None, 0usize);
    let (got, counts) = preempt::interleave(move |stepwise| {
        let mut m = None;
        let mut got = vec![];
        if heavy(ka) { m = Some(make(ka, a.variant, luts)); } else { stepwise(&mut || m = Some(make(ka, a.variant, luts))); }
        for &o in &a.ops { stepwise(&mut || got.push(m.as_mut().unwrap().0.step(o))); }
        if heavy(ka) { drop(m); } else { stepwise(&mut || m = None); }
        got
    }, move |_| {
        let r = guarded(|| {
            if at == 0 { mb = Some(make(b.kind, b.variant, luts)); }
            else if at == b.ops.len() + 1 { mb = None; }
            else {
                let got = mb.as_mut().unwrap().0.step(b.ops[at - 1]);
                ensure!(got == wb[at - 1], "operation {} of {} in the middle of an operation on the other gives something else than alone", at, b);
            }
            at = (at + 1) % (b.ops.len() + 2);
            Ok(())
        });
        match r { Ok(()) => true, Err(e) => { *tr.lock().unwrap() = Some(e); false } }
    });
    if let Some(e) = trouble.into_inner().unwrap() { return Err(e); }
    ensure!(got == wa, "interrupted operations of {} give something else than alone: {:x?} instead of {:x?}", a, got, wa);
    Ok(counts)
}

fn main() {
    if let Ok(case) = std::env::var("C32_PREEMPTED") {
        std::panic::set_hook(Box::new(|_| {}));
        let luts = LookUpTables::new();
        match guarded(|| preempted(case.parse().unwrap(), &luts)) {
            Ok(n) => println!("held {} {} {}", n.instructions, n.turns, n.late),
            Err(e) => println!("broken {}", e.replace('\n', " ")),
        }
        return;
    }
    let mut c = Check::new("C32", "model_checking");
    let tables = LookUpTables::new();
    let luts = &tables;
    // All pairs of words of the same kind.
    let n = c.pick(3usize, 4);
    let words = 3u64.pow(n as u32);
    let ways = choose(2 * (n as u64 + 2), n as u64 + 2);
    c.stage("same_kind", &format!("two instances of each of {} kinds (variants 0/0, 0/1 and 1/1): all pairs of words of {} operations over 3, all {} interleavings with creation and disposal", LIGHT, n, ways),
        LIGHT as u64 * 3 * words * words, move |_, case, l| {
        let d = split(case, &[LIGHT as u64, 3, words, words]);
        let a = Script { kind: d[0] as usize, variant: d[1] as usize / 2, ops: digits(d[2], 3, n) };
        let b = Script { kind: d[0] as usize, variant: (d[1] as usize + 1) / 2, ops: digits(d[3], 3, n) };
        l.describe(|| format!("{} / {}", a, b));
        let (wa, wb) = (solo(&a, luts), solo(&b, luts));
        for r in 0..ways {
            interleaved([&a, &b], [&wa, &wb], &interleaving(r, n as u64 + 2, n as u64 + 2), luts, l)?;
            l.traces += 1;
        }
        l.states += ways;
        for &x in &wa { l.outcome(x); }
        Ok(())
    });
    // Longer words of the parts whose state needs several steps to show.
    let m = c.pick(7usize, 9);
    let long_ways = choose(2 * m as u64, m as u64);
    let long: Vec<(usize, Vec<usize>, Vec<usize>)> = (0..LIGHT).flat_map(|k| vec![
        (k, vec![0, 1, 0, 1, 2, 0, 1, 2, 0], vec![1, 1, 0, 2, 0, 0, 2, 1, 2]), (k, vec![0; 9], vec![0, 0, 1, 2, 2, 0, 1, 1, 0])]).collect();
    let long_alone: Vec<(Vec<u64>, Vec<u64>)> = long.iter().enumerate().map(|(i, (kind, x, y))| {
        let alone = |variant, ops: &Vec<usize>| solo(&Script { kind: *kind, variant, ops: ops[..m].to_vec() }, luts);
        (alone(0, x), alone(i % 2, y))
    }).collect();
    let (lg, la) = (&long, &long_alone);
    c.stage("long_words", &format!("two instances of each kind, two pairs of words of {} operations, all {} interleavings of the operations", m, long_ways), long.len() as u64 * long_ways, move |_, case, l| {
        let d = split(case, &[long_ways, lg.len() as u64]);
        let (kind, x, y) = &lg[d[1] as usize];
        let a = Script { kind: *kind, variant: 0, ops: x[..m].to_vec() };
        let b = Script { kind: *kind, variant: (d[1] % 2) as usize, ops: y[..m].to_vec() };
        let mut order = vec![false, true];
        order.extend(interleaving(d[0], m as u64, m as u64));
        order.extend([true, false]);
        l.describe(|| format!("{} / {} order {:?}", a, b, order));
        let (wa, wb) = &la[d[1] as usize];
        interleaved([&a, &b], [wa, wb], &order, luts, l)?;
        l.states += 1; l.traces += 1;
        Ok(())
    });
    // Different kinds next to each other.
    let kinds = KINDS.len() as u64;
    let mixed_ways = choose(8, 4);
    c.stage("different_kinds", &format!("all pairs of {} different kinds, two words of 2 operations each, all {} interleavings with creation and disposal (the whole predictor and the final stage: {} of them)", LIGHT, mixed_ways, 2), kinds * kinds * 2, move |_, case, l| {
        let d = split(case, &[kinds, kinds, 2]);
        let (ka, kb) = (d[0] as usize, d[1] as usize);
        let a = Script { kind: ka, variant: 0, ops: vec![0, 1] };
        let b = Script { kind: kb, variant: d[2] as usize, ops: vec![2 - 2 * d[2] as usize, 0] };
        l.describe(|| format!("{} / {}", a, b));
        if ka == kb || l.sampling() { return Ok(()); }
        let heavy = ka >= LIGHT || kb >= LIGHT;
        if heavy && (d[2] == 1 || ka > 21 || kb > 21) { return Ok(()); }
        let (wa, wb) = (solo(&a, luts), solo(&b, luts));
        let orders: Vec<u64> = if heavy { vec![0b0011_0011, 0b0101_0110] } else { (0..mixed_ways).collect() };
        for r in orders {
            let order: Vec<bool> = if heavy { (0..8).map(|k| r >> k & 1 == 1).collect() } else { interleaving(r, 4, 4) };
            interleaved([&a, &b], [&wa, &wb], &order, luts, l)?;
            l.states += 1; l.traces += 1;
        }
        Ok(())
    });
    // Heavy parts in pairs.
    let heavy_n = c.pick(3usize, 4);
    let heavy_ways = choose(2 * heavy_n as u64, heavy_n as u64);
    c.stage("heavy_pairs", &format!("two final stages and two predictors: 2 pairs of words of {} operations, all {} interleavings", heavy_n, heavy_ways), 2 * 2 * heavy_ways, move |_, case, l| {
        let d = split(case, &[heavy_ways, 2, 2]);
        let kind = LIGHT + d[1] as usize;
        let a = Script { kind, variant: 0, ops: vec![0, 1, 0, 1][..heavy_n].to_vec() };
        let b = Script { kind, variant: 0, ops: if d[2] == 0 { vec![0, 1, 0, 1] } else { vec![2, 1, 2, 0] }[..heavy_n].to_vec() };
        let mut order = vec![false, true];
        order.extend(interleaving(d[0], heavy_n as u64, heavy_n as u64));
        order.extend([false, true]);
        l.describe(|| format!("{} / {} order {:?}", a, b, order));
        if l.sampling() { return Ok(()); }
        let (wa, wb) = (solo(&a, luts), solo(&b, luts));
        interleaved([&a, &b], [&wa, &wb], &order, luts, l)?;
        l.states += 1; l.traces += 1;
        Ok(())
    });
    // An instance handed from thread to thread.
    let t = c.pick(3usize, 5);
    let owners = 1u64 << (t + 1);
    let tw = c.pick(9u64, 27);
    c.stage("threads", &format!("each kind, {} words of {} operations, creation and operations assigned to two threads in all {} ways", tw, t, owners), KINDS.len() as u64 * tw, move |_, case, l| {
        let d = split(case, &[KINDS.len() as u64, tw]);
        let kind = d[0] as usize;
        if kind >= LIGHT && d[1] > 0 { return Ok(()); }
        let mut ops = digits(d[1], 3, 3);
        ops.resize(t, (d[1] % 2) as usize);
        let s = Script { kind, variant: (d[1] % 2) as usize, ops };
        l.describe(|| format!("{}", s));
        if l.sampling() { return Ok(()); }
        let want = solo(&s, luts);
        let step = if kind >= LIGHT { 3 } else { 1 };
        for o in (0..owners).step_by(step) {
            handed_over(&s, &want, &(0..=t).map(|k| (o >> k & 1) as usize).collect::<Vec<_>>(), luts)?;
            l.states += 1; l.traces += 1; l.transitions += t as u64 + 1;
        }
        Ok(())
    });
    // Refused operations of one instance leave the others alone.
    c.stage("refusals", "each pair of kinds: an instance whose last operation is refused, disposed of at once or later, at every point of the life of another", (LIGHT * LIGHT) as u64 * 5 * 2, move |_, case, l| {
        let d = split(case, &[LIGHT as u64, LIGHT as u64, 5, 2]);
        let (ka, kb) = (d[0] as usize, d[1] as usize);
        if !has_refusal(ka) { return Ok(()); }
        let b = Script { kind: kb, variant: 0, ops: vec![0, 1, 2] };
        l.describe(|| format!("refused {} next to {} at {}", KINDS[ka], b, d[2]));
        let want = solo(&b, luts);
        let mut m = None;
        let mut remains = None;
        for k in 0..5 {
            if k == d[2] as usize {
                let mut a = make(ka, 0, luts);
                a.0.step(1);
                let r = &mut a;
                ensure!(refuses(move || r.0.refused()), "the operation of the {} is not refused", KINDS[ka]);
                remains = Some(a);
                if d[3] == 0 { let r = remains.take(); refuses(move || drop(r)); }
            }
            if k == 0 { m = Some(make(kb, 0, luts)); }
            else if k < 4 { let got = m.as_mut().unwrap().0.step(b.ops[k - 1]); ensure!(got == want[k - 1], "operation {} of {} differs next to a refused {}", k, b, KINDS[ka]); }
            l.transitions += 1;
        }
        refuses(move || drop(remains));
        // and a new instance of the refused kind is as good as ever
        let again = Script { kind: ka, variant: 1, ops: vec![2, 0] };
        let x = solo(&again, luts);
        ensure!(x == solo(&again, luts), "two new instances of {} differ", KINDS[ka]);
        l.states += 1; l.traces += 1;
        Ok(())
    });
    // Operations in the middle of operations: one thread is stopped after every single machine instruction.
    let twice = 2 * KINDS.len() as u64;
    let limit = c.pick(40u64, 400);
    c.stage("preempted", "creation, three operations and disposal of an instance of each kind, stopped after every single machine instruction, where another thread performs a whole operation on (or creates, or disposes of) another instance of its kind", twice, move |_, case, l| {
        let kind = KINDS[KINDS.len() - 1 - split(case, &[KINDS.len() as u64, 2])[0] as usize];
        l.describe(|| format!("{} interrupted by another one", kind));
        if l.sampling() { return Ok(()); }
        let _share = Share::take(2_500);
        // A process that gets no processor time is given up: nothing is concluded from it.
        let run = || -> Option<Result<Vec<u64>, String>> {
            let mut child = Command::new(std::env::current_exe().unwrap()).env("C32_PREEMPTED", case.to_string())
                .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let start = Instant::now();
            let status = loop {
                match child.try_wait() {
                    Ok(Some(s)) => break s,
                    Ok(None) if start.elapsed().as_secs() < limit => std::thread::sleep(Duration::from_millis(5)),
                    _ => { let _ = child.kill(); let _ = child.wait(); return None; }
                }
            };
            let mut text = String::new();
            child.stdout.take().unwrap().read_to_string(&mut text).ok()?;
            Some(match text.trim().split_once(' ') {
                Some(("held", rest)) => Ok(rest.split(' ').filter_map(|x| x.parse().ok()).collect()),
                Some(("broken", rest)) => Err(rest.to_string()),
                _ => Err(format!("the process ended with {}", status)),
            })
        };
        let mut r = run();
        if let Some(Err(_)) = r { if let Some(again) = run() { r = Some(again); } }
        match r {
            None => l.count("unfinished", 1),
            Some(Err(e)) => return Err(e),
            Some(Ok(v)) => {
                l.transitions += v[0]; l.states += v[1]; l.traces += 1;
                l.max("instructions", v[0]); l.max("late_turns", v[2]);
            }
        }
        Ok(())
    });
    // Separately built tables, also on another thread, also after use.
    let others: Vec<LookUpTables> = vec![LookUpTables::new(), std::thread::spawn(LookUpTables::new).join().unwrap(), LookUpTables::new()];
    let ot = &others;
    c.stage("tables", "each kind, all words of 3 operations, driven with lookup tables built separately (before, on another thread, after)", KINDS.len() as u64 * 27, move |_, case, l| {
        let d = split(case, &[KINDS.len() as u64, 27]);
        if d[0] as usize >= LIGHT && d[1] % 9 != 1 { return Ok(()); }
        let s = Script { kind: d[0] as usize, variant: (d[1] % 2) as usize, ops: digits(d[1], 3, 3) };
        l.describe(|| format!("{}", s));
        if l.sampling() { return Ok(()); }
        let want = solo(&s, luts);
        for o in ot { ensure!(solo(&s, o) == want, "{} depends on which tables it is given", s); l.transitions += 3; l.traces += 1; }
        l.states += 1;
        Ok(())
    });
    c.assume("finer than whole operations, one thread at a time is stopped: between any two machine instructions of its operation the other thread runs a whole operation, not a part of one; memory is sequentially consistent at those points");
    c.finish()
}
