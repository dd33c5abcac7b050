//! C04: the predictor accepts every input and is a function of the past only.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use coder::P_ONE;
use mc::inputs::*;
use predict::*;
use mc::*;
use std::collections::HashMap;

/// Runs all strings and demands that equal bit prefixes got equal predictions.
fn prefix_tree(strings: &[Vec<u8>], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut known: HashMap<(usize, u64), u32> = HashMap::new();
    for s in strings {
        let t = trace(s, luts).map_err(|e| format!("{:02x?}: {}", s, e))?;
        let mut h = 0x1234u64;
        for (i, (bit, &p)) in bits(s).zip(&t).enumerate() {
            let q = *known.entry((i, h)).or_insert(p);
            ensure!(p == q, "{:02x?}: bit {} is predicted as {}, in another run with the same past as {}", s, i, p, q);
            h = mix(h, bit as u64 + 2);
            l.transitions += 1;
        }
        l.outcome(t.iter().fold(0, |h, &p| mix(h, p as u64)));
        l.traces += 1;
    }
    l.states += known.len() as u64;
    Ok(())
}

struct Run<'a> { p: Predictor<'a>, bits: Vec<bool>, at: usize, got: Vec<u32> }
impl<'a> Run<'a> {
    fn new(bytes: &[u8], luts: &'a LookUpTables) -> Run<'a> {
        Run { p: Predictor::new(luts), bits: bits(bytes).collect(), at: 0, got: vec![] }
    }
    /// one half-step: predict, or update (each switchable)
    fn step(&mut self) {
        if self.at % 2 == 0 {
            if self.at % 16 == 0 { self.p.start_new_byte(); }
            self.got.push(self.p.predict().raw());
        } else {
            self.p.update(self.bits[self.at / 2].into());
        }
        self.at += 1;
    }
    fn advance(&mut self, bits: usize, half: bool) {
        for _ in 0..bits * 2 { self.step(); }
        if half && self.at < self.bits.len() * 2 { self.step(); }
    }
}

fn choose(n: u64, k: u64) -> u64 { (0..k).fold(1, |a, i| a * (n - i) / (i + 1)) }

/// The `r`-th word with `a` false and `b` true entries.
fn interleaving(mut r: u64, mut a: u64, mut b: u64) -> Vec<bool> {
    let mut v = vec![];
    while a + b > 0 {
        let first = if a == 0 { 0 } else { choose(a + b - 1, b) };
        if r < first { v.push(false); a -= 1; } else { r -= first; v.push(true); b -= 1; }
    }
    v
}

/// Inputs whose predictions are also computed by processes that do nothing else.
fn probes() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = structured(false).into_iter().filter(|x| x.1.len() <= 1400).step_by(2).collect();
    for period in [7usize, 100, 103, 300] {
        v.push((format!("period {}", period), (0..700).map(|i| ((i % period) * 7) as u8).collect()));
    }
    let mut r: Vec<u8> = b"needle".to_vec();
    r.extend((0..10_010).map(|i| (i % 3) as u8));
    r.extend(b"needle needle");
    v.push(("needle after 10010".into(), r));
    v
}

fn fingerprint(t: &[u32]) -> u64 { t.iter().fold(t.len() as u64, |h, &p| mix(h, p as u64)) }

/// Predictions of two predictors that take turns after every byte.
fn alternate(a: &[u8], b: &[u8], luts: &LookUpTables) -> (Vec<u32>, Vec<u32>) {
    let (mut ra, mut rb) = (Run::new(a, luts), Run::new(b, luts));
    for k in 0..a.len().max(b.len()) {
        if k < a.len() { ra.advance(8, false); }
        if k < b.len() { rb.advance(8, false); }
    }
    (ra.got, rb.got)
}

fn noise(n: usize) -> Vec<u8> {
    let mut s = 0x2545F4914F6CDD1Du64;
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 32) as u8 }).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--fresh" {
        let luts = LookUpTables::new();
        let k: usize = args[2].parse().unwrap();
        match trace(&probes()[k].1, &luts) { Ok(t) => println!("{:x}", fingerprint(&t)), Err(e) => println!("{}", e) }
        return;
    }
    let mut c = Check::new("C04", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let len = c.pick(8usize, 11);
    let na = ALPHABETS.len() as u64;
    c.stage("prefix_trees", &format!("all strings of length {} over each of {} two-symbol alphabets: predictions agree on every common prefix", len, na), na, move |_, case, l| {
        let a = ALPHABETS[case as usize];
        l.describe(|| format!("alphabet {:02x?}", a));
        let strings: Vec<Vec<u8>> = (0..1u64 << len).map(|w| digits(w, 2, len).iter().map(|&d| a[d]).collect()).collect();
        prefix_tree(&strings, luts, l)
    });
    c.stage("first_bytes", "all 256 values of one byte after 8 different beginnings: predictions agree on every common bit prefix", 8, move |_, case, l| {
        let heads: [&[u8]; 8] = [&[], &[0], &[0xff], &[0x61, 0x61], &[0x61, 0x62, 0x61], &[0x80, 0, 0x80, 0, 0], &[1, 2, 3, 1, 2], &[0x55, 0xaa, 0x55, 0xaa, 0x55, 0x55]];
        l.describe(|| format!("beginning {:02x?}", heads[case as usize]));
        let strings: Vec<Vec<u8>> = (0..=255u8).map(|b| { let mut v = heads[case as usize].to_vec(); v.push(b); v }).collect();
        prefix_tree(&strings, luts, l)
    });
    c.stage("divergence", "structured inputs cut and continued differently at 6 places: predictions before the cut are unchanged", 8, move |_, case, l| {
        let all = structured(false);
        let mut strings = vec![];
        let mine: Vec<&(String, Vec<u8>)> = all.iter().enumerate().filter(|x| x.0 as u64 % 8 == case).map(|x| x.1).collect();
        l.describe(|| format!("{:?}", mine.iter().map(|x| &x.0).collect::<Vec<_>>()));
        for (_, s) in mine {
            strings.push(s.clone());
            for k in 1..=6 {
                let mut t = s.clone();
                t.truncate(s.len() * k / 7);
                if let Some(b) = t.last_mut() { *b ^= 1 << k; }
                t.extend(&[0, 0xff, 0x80, 0x61]);
                strings.push(t);
            }
        }
        prefix_tree(&strings, luts, l)
    });
    // two predictors, switched between at every boundary
    let pairs: [(&[u8], &[u8]); 4] = [(&[0x61, 0x62, 0x61], &[0x80, 0x80, 0x80]), (&[0, 0, 0], &[0xff, 0xff, 0xfe]), (&[1, 2, 1], &[1, 2, 1]), (&[0x55, 0x55, 0xaa], &[0, 1, 0])];
    let blocks = c.pick(4u64, 6);
    let ways = choose(2 * blocks, blocks);
    c.stage("interleavings", &format!("two predictors over 4 pairs of three-byte inputs, all {} interleavings of {} blocks of {} bits each, switching between calls or between predict and update", ways, blocks, 24 / blocks),
        ways * 4 * 2, move |_, case, l| {
            let x = split(case, &[4, ways, 2]);
            let (a, b) = pairs[x[0] as usize];
            let order = interleaving(x[1], blocks, blocks);
            l.describe(|| format!("{:02x?} / {:02x?} order {:?}", a, b, order));
            let (ta, tb) = (trace(a, luts)?, trace(b, luts)?);
            let mut ra = Run::new(a, luts);
            let mut rb = Run::new(b, luts);
            for &second in &order {
                let half = x[2] == 1;
                let r = if second { &mut rb } else { &mut ra };
                let n = (24 / blocks) as usize;
                let n = n.min((48 - r.at) / 2);
                r.advance(n, half);
                l.transitions += n as u64;
            }
            while ra.at < 48 { ra.step(); }
            while rb.at < 48 { rb.step(); }
            ensure!(ra.got == ta, "first predictor disturbed: {:?} instead of {:?}", ra.got, ta);
            ensure!(rb.got == tb, "second predictor disturbed: {:?} instead of {:?}", rb.got, tb);
            l.states += 48; l.traces += 2;
            Ok(())
        });
    let st = structured(c.thorough());
    let sr = &st;
    c.stage("structured", "long structured inputs never fail, probabilities stay strictly inside (0,1), a second run agrees", st.len() as u64, move |_, case, l| {
        l.describe(|| sr[case as usize].0.clone());
        let s = &sr[case as usize].1;
        let a = trace(s, luts)?;
        let b = trace(s, luts)?;
        ensure!(a == b, "two runs differ");
        l.states += a.len() as u64; l.transitions += 2 * a.len() as u64; l.traces += 2;
        l.max("max_probability", a.iter().cloned().max().unwrap_or(0) as u64);
        l.max("max_complement", a.iter().map(|p| P_ONE - p).max().unwrap_or(0) as u64);
        Ok(())
    });
    let rep = c.pick(260usize, 2500);
    c.stage("constants", &format!("every byte value repeated {} times and then broken by a different byte", rep), 256, move |_, case, l| {
        l.describe(|| format!("{:02x}", case));
        let mut s = vec![case as u8; rep];
        s.extend(&[!(case as u8), case as u8, (case as u8).wrapping_add(1), case as u8]);
        let t = trace(&s, luts)?;
        l.states += t.len() as u64; l.transitions += t.len() as u64; l.traces += 1;
        Ok(())
    });
    // Each input alone in a process of its own, and against every other input here.
    let pr = probes();
    let np = pr.len() as u64;
    let exe = std::env::current_exe().unwrap();
    let fresh: Vec<String> = std::thread::scope(|s| {
        let h: Vec<_> = (0..pr.len()).map(|k| { let exe = &exe; s.spawn(move || {
            let o = std::process::Command::new(exe).arg("--fresh").arg(k.to_string()).output().unwrap();
            String::from_utf8_lossy(&o.stdout).trim().to_string()
        }) }).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (pr, fr) = (&pr, &fresh);
    c.stage("fresh_processes", &format!("{} inputs, all ordered pairs: two predictors take turns after every byte, after whatever this process has predicted before; the predictions equal those of a new process that sees one input only", np), np * np, move |_, case, l| {
        let x = split(case, &[np, np]);
        let (a, b) = (&pr[x[0] as usize], &pr[x[1] as usize]);
        l.describe(|| format!("{} / {}", a.0, b.0));
        let (ta, tb) = alternate(&a.1, &b.1, luts);
        let (ga, gb) = (format!("{:x}", fingerprint(&ta)), format!("{:x}", fingerprint(&tb)));
        ensure!(ga == fr[x[0] as usize], "{}: predictions {} beside {}, {} in a new process", a.0, ga, b.0, fr[x[0] as usize]);
        ensure!(gb == fr[x[1] as usize], "{}: predictions {} beside {}, {} in a new process", b.0, gb, a.0, fr[x[1] as usize]);
        l.states += (ta.len() + tb.len()) as u64; l.transitions += 2 * (ta.len() + tb.len()) as u64; l.traces += 2;
        l.outcome(fingerprint(&ta));
        Ok(())
    });

    // Repeats at distances the window still holds, and a window that slides.
    let mut far: Vec<(String, Vec<u8>)> = vec![];
    for &n in c.pick(&[65_536usize, 1_000_000][..], &[65_536, 1_000_000, 4_200_000, 9_999_000, 10_000_000, 10_060_000][..]) {
        for kind in 0..c.pick(2, 4) {
            let filler: Vec<u8> = match kind { 0 => noise(n), 1 => vec![0; n], 2 => (0..n).map(|i| (i % 3) as u8).collect(), _ => noise(n).iter().map(|b| b & 0x81).collect() };
            let mut v = b"first needle, second needle.".to_vec();
            v.extend(filler);
            v.extend(b"first needle, second needle. first");
            far.push((format!("needle, {} bytes of {}, needle", n, ["noise", "zeros", "period 3", "noise over four bytes"][kind]), v));
        }
    }
    if !c.thorough() { let mut v = noise(10_003_000); let head = v[..40].to_vec(); v.extend(head); far.push(("10003000 bytes of noise and its beginning".into(), v)); }
    far.reverse();
    let fa = &far;
    c.stage("far", "repeats at distances up to and beyond the window of ten million bytes: never refused, probabilities stay strictly inside (0,1)", far.len() as u64, move |_, case, l| {
        l.describe(|| fa[case as usize].0.clone());
        if l.sampling() { return Ok(()); }
        let t = trace(&fa[case as usize].1, luts)?;
        l.states += t.len() as u64; l.transitions += t.len() as u64; l.traces += 1;
        l.max("max_input_bytes", fa[case as usize].1.len() as u64);
        Ok(())
    });
    c.finish()
}
