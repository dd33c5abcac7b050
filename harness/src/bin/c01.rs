//! C01: arithmetic coding is lossless for every event sequence.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use coder::*;
use mc::*;

fn ev_alphabet(probs: &[u32]) -> Vec<Ev> {
    let mut a = vec![];
    for &p in probs { a.push(Ev::Bit(p, false)); a.push(Ev::Bit(p, true)); }
    a.push(Ev::Rare(false));
    a.push(Ev::Rare(true));
    a
}

fn check_seq(evs: &[Ev], l: &mut Local) -> CaseResult {
    let code = round_trip(evs, Fault::None)?;
    l.states += 1;
    l.transitions += 2 * evs.len() as u64;
    l.traces += 1;
    l.outcome(code.iter().fold(code.len() as u64, |h, &b| mix(h, b as u64)));
    Ok(())
}

fn check_ref(evs: &[Ev], l: &mut Local) -> CaseResult {
    let mut r = RefCoder::new();
    for e in evs { r.event(*e); }
    l.max("max_ff_run_hit_by_carry", r.longest_ff_carry);
    l.count("carries_into_emitted_bytes", r.carries_into_emitted);
    Ok(())
}

/// Events that lead the coder to the code value `target`, by decoding it.
fn steer(target: &[u8], count: usize, probs: &[u32], rare_every: usize) -> Option<Vec<Ev>> {
    let mut data = target.to_vec();
    if data.len() < 4 { data.resize(4, 0); }
    if data[0] == 0xff && data[1] == 0xff && data[2] == 0xff && data[3] >= 0xfe {
        return None; // not a code value of the initial interval
    }
    data.resize(data.len() + 4 + 4 * count, 0x5a);
    let mut src = Source::new(&data, Fault::None);
    let mut dec = Decoder::new(&mut src);
    let mut evs = Vec::with_capacity(count);
    for i in 0..count {
        if rare_every > 0 && i % rare_every == rare_every - 1 {
            evs.push(Ev::Rare(dec.decode_rare_event()));
        } else {
            let p = probs[i % probs.len()];
            evs.push(Ev::Bit(p, dec.decode_bit(prob(p)).is_1()));
        }
    }
    Some(evs)
}

/// Most bytes the encoder wrote while it encoded a single symbol.
fn longest_burst(evs: &[Ev]) -> u64 {
    struct Counter<'a>(&'a std::cell::Cell<u64>);
    impl<'a> std::io::Write for Counter<'a> {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.set(self.0.get() + b.len() as u64); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let written = std::cell::Cell::new(0);
    let mut sink = Counter(&written);
    let mut enc = Encoder::new(&mut sink);
    let (mut before, mut longest) = (0, 0);
    for e in evs {
        match *e { Ev::Bit(p, b) => enc.encode_bit(prob(p), b.into()), Ev::Rare(r) => enc.encode_rare_event(r) }
        longest = longest.max(written.get() - before);
        before = written.get();
    }
    longest
}

fn main() {
    let mut c = Check::new("C01", "model_checking");
    let probs: &[u32] = &[1 << 22, 1, P_ONE - 1, 5592405, 2];
    let alpha = ev_alphabet(probs);
    let depth = c.pick(6, 7);
    let n = words_up_to(alpha.len() as u64, depth);
    let a = alpha.clone();
    c.stage("sequences", &format!("all event sequences of length 0..={} over {} symbols (probabilities {:?} of 2^23, both bits, rare event raised or not)", depth, alpha.len(), probs),
        n, move |_, case, l| {
            let evs: Vec<Ev> = word(case, a.len() as u64).iter().map(|&i| a[i]).collect();
            l.describe(|| format!("{:?}", evs));
            check_seq(&evs, l)
        });

    // The same symbols after every prefix that leaves the coder in a special
    // place: code value steered onto byte strings full of 00, ff and neighbours.
    let bytes = [0x00u8, 0x01, 0x7f, 0x80, 0xfe, 0xff];
    let patterns: Vec<(Vec<u32>, usize, usize)> = vec![
        (vec![1 << 22], 0, 1), (vec![1 << 15], 0, 8), (vec![P_ONE - (1 << 15)], 0, 8),
        (vec![P_ONE - 1, 1 << 22], 0, 2), (vec![1, 1 << 22, 3 << 21], 0, 3),
        (vec![1 << 22], 5, 1), (vec![5592405, 2796203], 7, 1),
    ];
    let tails = ev_alphabet(&[1 << 22, P_ONE - 1, 1]);
    let len = c.pick(6usize, 8);
    let nb = bytes.len() as u64;
    let words = nb.pow(len as u32);
    let np = patterns.len() as u64;
    let (pt, tl) = (patterns.clone(), tails.clone());
    c.stage("steered", &format!("all {}-byte code values over {{00,01,7f,80,fe,ff}}, decoded with {} probability patterns into event prefixes ending at each of 4 places, then every single further event and every pair out of {} symbols", len, patterns.len(), tails.len()),
        words * np, move |_, case, l| {
            let v = split(case, &[words, np]);
            let target: Vec<u8> = digits(v[0], nb, len).iter().map(|&i| bytes[i]).collect();
            let (p, rare, step) = &pt[v[1] as usize];
            let full = match steer(&target, 8 * len / 1 + 4, p, *rare) {
                Some(e) => e, None => return Ok(()),
            };
            let _ = step;
            for (k, frac) in [1usize, 2, 3, 4].iter().enumerate() {
                let cut = full.len() * frac / 4;
                let mut evs = full[..cut].to_vec();
                l.describe(|| format!("code value {:02x?} decoded with {:?} rare_every {} cut {}: {:?}", target, p, rare, cut, evs));
                check_seq(&evs, l)?;
                for t in tl.iter() {
                    evs.push(*t);
                    l.describe(|| format!("code value {:02x?} decoded with {:?} rare_every {} cut {}: {:?}", target, p, rare, cut, evs));
                    check_seq(&evs, l)?;
                    if k == 3 {
                        for t2 in tl.iter() {
                            evs.push(*t2);
                            l.describe(|| format!("code value {:02x?} decoded with {:?} rare_every {} cut {}: {:?}", target, p, rare, cut, evs));
                            check_seq(&evs, l)?;
                            evs.pop();
                        }
                    }
                    evs.pop();
                }
                if v[0] % 7 == 0 { check_ref(&evs, l)?; }
            }
            Ok(())
        });

    // Direct carry construction: for every run length of pending ff bytes and
    // every way to resolve it.
    let maxrun = c.pick(40u64, 300);
    let tl = ev_alphabet(&[1 << 22, P_ONE - 1, 1, 1 << 15]);
    let nt = tl.len() as u64;
    c.stage("carry_runs", &format!("for every run length 0..{} of pending ff bytes: code values just below and above the byte boundary, cut at every event, then every pair of {} further symbols", maxrun, nt),
        maxrun * 2 * 3, move |_, case, l| {
            let v = split(case, &[maxrun, 2, 3]);
            let run = v[0] as usize;
            // boundary value x 00 00 ... 00 (above) versus x-1 ff ff ... ff (below)
            let mut target = if v[1] == 0 { let mut t = vec![0x35]; t.extend(vec![0x00; run + 4]); t }
                else { let mut t = vec![0x34]; t.extend(vec![0xff; run + 4]); t };
            target.push(if v[1] == 0 { 0x03 } else { 0xfc });
            let p: Vec<u32> = match v[2] { 0 => vec![1 << 22], 1 => vec![5592405], _ => vec![1 << 19, 7 << 20] };
            let full = match steer(&target, 8 * (run + 6) + 8, &p, 0) { Some(e) => e, None => return Ok(()) };
            for cut in full.len().saturating_sub(24)..=full.len() {
                let mut evs = full[..cut].to_vec();
                for t in tl.iter() {
                    evs.push(*t);
                    for t2 in tl.iter() {
                        evs.push(*t2);
                        l.describe(|| format!("ff run {} steering {:02x?} with {:?} cut {} then {:?} {:?}: {:?}", run, target, p, cut, t, t2, evs));
                        check_seq(&evs, l)?;
                        evs.pop();
                    }
                    if cut == full.len() { check_ref(&evs, l)?; }
                    evs.pop();
                }
            }
            Ok(())
        });

    // Every boundary probability in long runs.
    let mut grid: Vec<u32> = vec![];
    for k in 0..23u32 { for d in [-1i64, 0, 1] {
        for base in [1i64 << k, (1i64 << 23) - (1i64 << k)] {
            let v = base + d;
            if v >= 1 && v <= (1 << 23) - 1 { grid.push(v as u32); }
        } } }
    grid.sort(); grid.dedup();
    let ng = grid.len() as u64;
    let reps = c.pick(600usize, 4000);
    let maxper = 4usize;
    let npat: u64 = (1..=maxper as u32).map(|k| 1u64 << k).sum();
    c.stage("long_periodic", &format!("{} boundary probabilities x all bit patterns of period 1..={} x rare flags every 0/11/97 symbols (raised every 13th), {} symbols each", ng, maxper, reps),
        ng * npat * 3, move |_, case, l| {
            let v = split(case, &[ng, npat, 3]);
            let p = grid[v[0] as usize];
            let w = word(v[1] + 1, 2);
            let rare = [0usize, 11, 97][v[2] as usize];
            let mut evs = vec![];
            let mut flags = 0;
            for i in 0..reps {
                if rare > 0 && i % rare == rare - 1 { flags += 1; evs.push(Ev::Rare(flags % 13 == 0)); }
                else { evs.push(Ev::Bit(p, w[i % w.len()] == 1)); }
            }
            l.describe(|| format!("p={} pattern {:?} rare_every {} x{}", p, w, rare, reps));
            check_seq(&evs, l)
        });

    // Environment answers: interrupted calls at each single position, and always.
    let al = ev_alphabet(&[1 << 22, 1, P_ONE - 1]);
    let n = words_up_to(al.len() as u64, c.pick(4, 5));
    c.stage("stream_faults", "all event sequences over 8 symbols to the depth, with the n-th read and write call interrupted for every n, and with every call interrupted once; every call transfers at most one byte",
        n, move |_, case, l| {
            let evs: Vec<Ev> = word(case, al.len() as u64).iter().map(|&i| al[i]).collect();
            l.describe(|| format!("{:?}", evs));
            let plain = round_trip(&evs, Fault::None)?;
            for k in 0..plain.len() + 1 {
                let code = round_trip(&evs, Fault::InterruptedAt(k))?;
                ensure!(code == plain, "interrupting write {} changes the output", k);
                l.transitions += evs.len() as u64;
            }
            let code = round_trip(&evs, Fault::InterruptedEvery)?;
            ensure!(code == plain, "interrupted writes change the output");
            l.states += 1; l.traces += 1;
            l.outcome(plain.len() as u64);
            Ok(())
        });
    // Very long runs of pending ff bytes, resolved with and without a carry.
    let mut runs: Vec<usize> = (0..=9).flat_map(|k| { let b = 1usize << k; vec![b - 1, b, b + 1] }).collect();
    for k in 10..=c.pick(17, 21) { let b = 1usize << k; runs.extend(&[b - 1, b, b + 1]); }
    runs.extend(&[100usize, 1_000, 5_000, 9_999, 10_000, 10_001, 50_000, 99_999, 100_000, 100_001]);
    if c.thorough() { runs.extend(&[1_000_000, 4_000_000]); runs.extend(600..2000); }
    runs.sort(); runs.dedup();
    let nr = runs.len() as u64;
    c.stage("long_runs", &format!("{} lengths of runs of pending ff bytes up to {} (around every power of two and of ten), 3 probability patterns, resolved with a carry, without one, or by the end of the code", nr, runs.last().unwrap()),
        nr * 9, move |_, case, l| {
            let v = split(case, &[nr, 3, 3]);
            let run = runs[v[0] as usize];
            let p: &[u32] = match v[1] { 0 => &[1 << 22], 1 => &[5592405, 2796203, 4194000], _ => &[1 << 17, 8257536 + 3] };
            // stay just below 40 00 .. 00 for the whole run
            let mut target = if v[2] == 1 { vec![0x3f] } else { vec![0x40] };
            target.extend(vec![if v[2] == 1 { 0xff } else { 0 }; run]);
            match v[2] { 0 => target.extend(&[0x80, 0x12, 0x34, 0x56, 0x78]), 1 => target.extend(&[0x00, 0x12, 0x34, 0x56, 0x78]), _ => {} }
            let len = target.len();
            l.describe(|| format!("run {} probabilities {:?} target {:02x?}.. then {:02x?}", run, p, &target[..2.min(len)], &target[len.saturating_sub(5)..]));
            let bits: f64 = p.iter().map(|&p| { let q = p as f64 / P_ONE as f64; -q * q.log2() - (1.0 - q) * (1.0 - q).log2() }).sum::<f64>() / p.len() as f64;
            let mut evs: Vec<Ev> = match steer(&target, (8.0 * len as f64 / bits.max(0.3)) as usize + 16, p, 0) { Some(e) => e, None => return Ok(()) };
            if v[2] == 2 { evs.truncate(evs.len() * 9 / 10); }
            l.max("max_ff_run_hit_by_carry", longest_burst(&evs));
            let code = encode(&evs, Fault::None);
            decode_and_compare(&evs, &code, Fault::None)?;
            l.states += 1; l.traces += 1; l.transitions += 2 * evs.len() as u64;
            l.outcome(code.iter().fold(code.len() as u64, |h, &b| mix(h, b as u64)));
            Ok(())
        });
    // More pending bytes than 31 bits (thorough: 32 bits) can count.
    let longest = c.pick((1u64 << 31) + 40, (1 << 32) + 40);
    c.stage("longest_runs", &format!("{} pending ff bytes, built up by raised rare events, by the least likely symbols, or by events that keep the carry open until it comes or does not come: every byte written, and every event decoded from them", longest),
        4, move |_, case, l| {
            l.describe(|| format!("{} ff bytes made of {}", longest, ["events around the carry, then carried into", "events around the carry, not carried into", "rare events", "unlikely symbols"][case as usize]));
            if l.sampling() { return Ok(()); }
            if case < 2 { straddling_run(longest, case == 0, l) } else { longest_run(longest, case == 2, l) }
        });
    c.assume("symbols outside the enumerated probability alphabet follow the same code path; single-threaded use");
    c.finish()
}

/// A byte string with one long run of ff bytes in it: never stored.
#[derive(Clone, Debug, PartialEq, Default)]
struct Packed { head: Vec<u8>, run: u64, tail: Vec<u8> }
const LONG: u64 = 64;
impl Packed {
    fn push(&mut self, x: u8) {
        if !self.tail.is_empty() || self.run >= LONG && x != self.fill() { self.tail.push(x); }
        else if x == self.fill() || self.run == 0 && (x == 0xff || x == 0) && self.head.len() >= 4 { if self.run == 0 { self.head.push(x); } self.run += 1; }
        else { let (n, f) = (self.run, self.fill()); for _ in 1..n { self.head.push(f); } self.run = 0; self.head.push(x); }
    }
    /// The value of the run is the last byte of the head.
    fn fill(&self) -> u8 { if self.run == 0 { 1 } else { *self.head.last().unwrap() } }
    fn len(&self) -> u64 { self.head.len() as u64 + self.run.saturating_sub(1) + self.tail.len() as u64 }
}
impl std::io::Write for Packed {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { for &x in b { self.push(x); } Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct Unpacked<'a> { p: &'a Packed, at: u64 }
impl<'a> std::io::Read for Unpacked<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let (h, r) = (self.p.head.len() as u64, self.p.run.saturating_sub(1));
        if b.is_empty() || self.at == self.p.len() { return Ok(0); }
        b[0] = if self.at < h { self.p.head[self.at as usize] } else if self.at < h + r { self.p.fill() } else { self.p.tail[(self.at - h - r) as usize] };
        self.at += 1;
        Ok(1)
    }
}

fn longest_run(run: u64, rare: bool, l: &mut Local) -> CaseResult {
    use demixer::coding::{decoder::Decoder, encoder::Encoder, FinalProbability};
    use demixer::fixed_point::FixedPoint;
    let p = FinalProbability::new(P_ONE - 1, 23);
    let half = FinalProbability::new(P_ONE / 2, 23);
    // what one event adds, and how many events make a short and the long run
    let code = |n: u64, back: &mut Packed| {
        let mut e = Encoder::new(back);
        e.encode_bit(half, false.into());
        for _ in 0..n { if rare { e.encode_rare_event(true) } else { e.encode_bit(p, true.into()) } }
    };
    // A cycle of 8 unlikely symbols (3 bytes each but one) or of one rare event returns to the same range.
    let (cycle, bytes) = if rare { (1u64, 3u64) } else { (8, 23) };
    let warm = 80;
    let cycles = run / bytes + 1;
    let (mut short, mut longer) = (Packed::default(), Packed::default());
    guarded(|| { code(warm + cycle, &mut short); Ok(()) })?;
    guarded(|| { code(warm + cycle * (cycles + 1), &mut longer); Ok(()) })?;
    ensure!(longer.len() == short.len() + bytes * cycles, "{} bytes instead of {}", longer.len(), short.len() + bytes * cycles);
    ensure!(longer.head == short.head && longer.tail == short.tail, "code {:02x?}..{:02x?} instead of {:02x?}..{:02x?}", longer.head, longer.tail, short.head, short.tail);
    ensure!(longer.run > run, "harness: run of {} only", longer.run);
    let mut source = Unpacked { p: &longer, at: 0 };
    guarded(|| {
        let mut d = Decoder::new(&mut source);
        ensure!(!d.decode_bit(half).is_1(), "first symbol");
        for i in 0..warm + cycle * (cycles + 1) {
            let right = if rare { d.decode_rare_event() } else { d.decode_bit(p).is_1() };
            ensure!(right, "event {} decoded wrongly", i);
        }
        Ok(())
    })?;
    ensure!(source.at == longer.len(), "{} of {} bytes read", source.at, longer.len());
    l.max("max_ff_run", longer.run);
    l.states += 1; l.traces += 1; l.transitions += 2 * (cycle * cycles);
    l.outcome(longer.len());
    Ok(())
}

/// Chooses probabilities and symbols so that the interval of the coder always
/// contains the carry boundary: only the last symbols decide about the carry.
struct Straddle { to: u64, range: u64, shifts: u64 }
impl Straddle {
    fn new() -> Self { Straddle { to: 1 << 30, range: (1 << 31) - 1, shifts: 0 } }
    fn normalize(&mut self) {
        while self.range < 1 << 23 { self.range <<= 8; self.to <<= 8; self.shifts += 1; }
    }
    /// Cuts off what is above (the symbol is a zero) or below (a one) the boundary.
    fn cut(&mut self, upper: bool) -> (u32, bool) {
        self.normalize();
        if upper {
            let p = (((self.to + 1 << 23) + self.range - 1) / self.range).min(P_ONE as u64 - 1);
            let h = self.range * p >> 23;
            if h > self.to { self.range = h; return (p as u32, false); }
        }
        // the largest split below the boundary
        let p = (((self.to << 23) - 1) / self.range).min(P_ONE as u64 - 1).max(1);
        let h = self.range * p >> 23;
        if h < self.to { self.to -= h; self.range -= h; return (p as u32, true); }
        // nothing below can be cut off: cut above
        let h = self.range * (P_ONE as u64 - 1) >> 23;
        self.range = h;
        (P_ONE - 1, false)
    }
    /// Leaves the boundary for good.
    fn leave(&mut self, carry: bool) -> (u32, bool) {
        self.normalize();
        if carry {
            let p = ((self.to << 23) + self.range - 1) / self.range;
            (p.min(P_ONE as u64 - 1).max(1) as u32, true)
        } else {
            (((self.to << 23) / self.range).min(P_ONE as u64 - 1).max(1) as u32, false)
        }
    }
}

fn straddling_run(run: u64, carry: bool, l: &mut Local) -> CaseResult {
    use demixer::coding::{decoder::Decoder, encoder::Encoder, FinalProbability};
    use demixer::fixed_point::FixedPoint;
    let prob = |p: u32| FinalProbability::new(p, 23);
    let events = |run: u64, each: &mut dyn FnMut(u32, bool) -> CaseResult| -> Result<(u64, u64), String> {
        let mut s = Straddle::new();
        let mut n = 0u64;
        while s.shifts < run + 8 {
            let (p, bit) = s.cut(n & 1 == 0);
            ensure!(s.to > 0 && s.to < s.range, "harness: the boundary left the interval after {} events", n);
            each(p, bit)?;
            n += 1;
        }
        let (p, bit) = s.leave(carry);
        each(p, bit)?;
        for i in 0..20 { each(P_ONE / 2 + i * 65_537, i % 3 == 0)?; }
        Ok((s.shifts, n + 21))
    };
    let mut code = Packed::default();
    let (shifts, n) = guarded(|| {
        let mut e = Encoder::new(&mut code);
        events(run, &mut |p, bit| { e.encode_bit(prob(p), bit.into()); Ok(()) })
    })?;
    let fill = if carry { 0 } else { 0xff };
    ensure!(code.run >= run && code.fill() == fill, "after {} shifts a run of {} bytes {:02x} between {:02x?} and {:02x?}", shifts, code.run, code.fill(), code.head, code.tail);
    ensure!(code.len() >= shifts + 4 && code.len() <= shifts + 12, "{} bytes for {} shifts", code.len(), shifts);
    let mut source = Unpacked { p: &code, at: 0 };
    guarded(|| {
        let mut d = Decoder::new(&mut source);
        let mut i = 0u64;
        events(run, &mut |p, bit| { i += 1; ensure!(d.decode_bit(prob(p)).is_1() == bit, "event {} of {} decoded wrongly", i, n); Ok(()) })
    })?;
    ensure!(source.at == code.len(), "{} of {} bytes read", source.at, code.len());
    l.max("max_ff_run", code.run);
    if carry { l.max("max_ff_run_hit_by_carry", code.run); }
    l.states += 1; l.traces += 1; l.transitions += 2 * n;
    l.outcome(code.len());
    Ok(())
}
