//! C05: the predictor learns: repetitive inputs become cheap.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use demixer::lut::LookUpTables;
use mc::inputs::*;
use predict::*;
use mc::*;

fn avg(v: &[f64]) -> f64 { v.iter().sum::<f64>() / v.len().max(1) as f64 }
fn micro(x: f64) -> u64 { (x * 1e6) as u64 }

/// A short pattern repeated: cheap after 300 bytes, cheaper later. The limits are
/// what the model needs with about a quarter to spare.
fn learns(pattern: &[u8], two_symbols: bool, n: usize, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let s: Vec<u8> = pattern.iter().cycle().take(n).cloned().collect();
    let c = byte_costs(&s, &trace(&s, luts)?);
    let p = pattern.len();
    let early = avg(&c[200..300]);
    let total: f64 = c[..300].iter().sum();
    l.max(if p <= 8 { "max_early_short_microbits" } else { "max_early_long_microbits" }, micro(early));
    let early_limit = match p { 0..=8 => 0.0003, 9..=16 => 0.001, 17..=24 => 0.022, 25..=32 => 0.043, _ => 0.26 };
    ensure!(early <= early_limit, "{:.6} bits per byte after 200 bytes", early);
    let total_limit = if p == 1 { 36.0 } else if two_symbols { 45.0 + 5.0 * p as f64 } else { 42.0 + 8.3 * p as f64 };
    l.max("max_total_per_limit_percent", (100.0 * total / total_limit) as u64);
    ensure!(total <= total_limit, "{:.1} bits for the first 300 bytes", total);
    if n >= 1200 {
        let later: f64 = c[300..1200].iter().sum();
        let late = avg(&c[n - 100..]);
        l.max("max_later_millibits", (later * 1e3) as u64);
        l.max("max_late_microbits_per_byte", micro(late));
        let (later_limit, late_limit) = match p { 0..=8 => (0.12, 0.0001), 9..=16 => (0.12, 0.0001), 17..=21 => (0.35, 0.0001), 22..=32 => (4.5, 0.003), _ => (17.0, 0.0035) };
        ensure!(later <= later_limit, "{:.3} bits for bytes 300..1200", later);
        ensure!(late <= late_limit, "{:.6} bits per byte at the end", late);
    }
    l.states += n as u64 * 8; l.transitions += n as u64 * 8; l.traces += 1;
    l.outcome(micro(total));
    Ok(())
}

/// Sources of data with a known amount of surprise, `p` the rate of exceptions.
const SOURCES: [&str; 7] = ["two symbols, the second with rate p", "bytes of bits set with rate p", "two symbols, changes with rate p", "exclusive or of the two symbols before, wrong with rate p",
    "cycle of four, other symbols with rate p", "one byte, any other with rate p", "affine cycle of 16 bytes, steps with rate p"];
/// Two symbols, few contexts.
const SIMPLE: [usize; 4] = [0, 2, 3, 6];
fn source(kind: usize, p: f64, phase: u64, n: usize) -> Vec<u8> {
    let mut x = 88172645463325252 ^ phase.wrapping_mul(0x9E3779B97F4A7C15);
    let mut draw = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) as f64 / (1u64 << 53) as f64 };
    for _ in 0..20 { draw(); }
    let mut c = 0u8;
    let mut h = vec![0u8; 2];
    (0..n).map(|i| match kind {
        0 => if draw() < p { b'b' } else { b'a' },
        1 => (0..8).fold(0, |a, _| a << 1 | (draw() < p) as u8),
        2 => { if draw() < p { c ^= 1; } b'a' + c }
        3 => { let x = h[i] ^ h[i + 1] ^ (draw() < p) as u8; h.push(x); b'a' + x }
        4 => if draw() < p { b'a' + (draw() * 16.0) as u8 } else { b"wxyz"[i % 4] },
        5 => if draw() < p { (draw() * 256.0) as u8 } else { 0xff },
        _ => { c = if draw() < p { c.wrapping_add(1) } else { c.wrapping_mul(5).wrapping_add(3) & 15 }; c }
    }).collect()
}

/// Every prefix costs at most little more than the best adaptive code of a fixed
/// order, chosen afterwards, needs for it.
fn competitive(s: &[u8], simple: bool, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let c = byte_costs(s, &trace(s, luts)?);
    let k: Vec<Vec<f64>> = (0..7).map(|k| adaptive_code(s, k)).collect();
    let mut sum = 0.0;
    for i in 0..s.len() {
        sum += c[i];
        let best = k.iter().map(|v| v[i]).fold(f64::MAX, f64::min);
        let n = (i + 1) as f64;
        let excess = (sum - 1.02 * best) / n.sqrt();
        let (name, limit) = if simple && i >= 1000 { ("max_excess_simple_1000_per_sqrt_milli", 2.2) }
            else if simple && i >= 100 { ("max_excess_simple_100_per_sqrt_milli", 4.4) } else { ("max_excess_per_sqrt_milli", 9.0) };
        if excess > 0.0 { l.max(name, (excess * 1e3) as u64); }
        ensure!(excess <= limit, "{:.1} bits for {} bytes, an adaptive code of a fixed order needs {:.1}", sum, i + 1, best);
    }
    l.states += s.len() as u64 * 8; l.transitions += s.len() as u64 * 8; l.traces += 1;
    l.outcome((sum * 1000.0) as u64);
    Ok(())
}

fn main() {
    let mut c = Check::new("C05", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let maxp = c.pick(6usize, 9);
    let pats: Vec<Vec<usize>> = (1..=maxp).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let na = ALPHABETS.len() as u64;
    let pt = &pats;
    c.stage("two_symbol_patterns", &format!("every pattern of period up to {} over {} two-symbol alphabets, 300 bytes", maxp, na), pats.len() as u64 * na, move |_, case, l| {
        let x = split(case, &[pt.len() as u64, na]);
        let p: Vec<u8> = pt[x[0] as usize].iter().map(|&d| ALPHABETS[x[1] as usize][d]).collect();
        l.describe(|| format!("{:02x?}", p));
        learns(&p, true, 300, luts, l)
    });
    let longer = c.pick(1200usize, 4000);
    c.stage("constants", &format!("every byte value repeated {} times", longer), 256, move |_, case, l| {
        l.describe(|| format!("{:02x}", case));
        learns(&[case as u8], true, longer, luts, l)
    });
    c.stage("byte_patterns", &format!("16 ways of filling patterns of period 2..=48, {} bytes", longer), 47 * 16, move |_, case, l| {
        let x = split(case, &[47, 16]);
        let period = x[0] as usize + 2;
        let p: Vec<u8> = (0..period).map(|i| match x[1] {
            0 => i as u8, 1 => !(i as u8), 2 => (i * 5) as u8, 3 => (i * 37) as u8,
            4 => (i.wrapping_mul(i) * 7) as u8, 5 => if i == 0 { 0x0a } else { 0x20 },
            6 => (i as u8).reverse_bits(), 7 => b"etaoin shrdlu"[i % 13],
            8 => if i % 2 == 0 { 0 } else { i as u8 }, 9 => 0x30 + (i % 10) as u8,
            10 => (i as u32).wrapping_mul(2654435761).to_be_bytes()[0],
            11 => (i as u32).wrapping_mul(2246822519).to_be_bytes()[1],
            12 => if i < period / 2 { 0xff } else { 0 }, 13 => (i / 2) as u8,
            14 => 0x80 >> (i % 8), _ => 255 - (i % 3) as u8,
        }).collect();
        l.describe(|| format!("{:02x?}", p));
        learns(&p, false, longer, luts, l)
    });
    let pn = c.pick(3usize, 5);
    let small: Vec<Vec<usize>> = (1..=pn).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let sm = &small;
    c.stage("pattern_switch", &format!("every ordered pair of patterns of period up to {} over {{'a','b'}} and {{'b','c'}}: 300 bytes of the first, then 300 of the second, which is learned too", pn),
        (small.len() * small.len()) as u64, move |_, case, l| {
            let x = split(case, &[sm.len() as u64, sm.len() as u64]);
            let p: Vec<u8> = sm[x[0] as usize].iter().map(|&d| b'a' + d as u8).collect();
            let q: Vec<u8> = sm[x[1] as usize].iter().map(|&d| b'b' + d as u8).collect();
            l.describe(|| format!("{:02x?} then {:02x?}", p, q));
            let s: Vec<u8> = p.iter().cycle().take(300).chain(q.iter().cycle().take(300)).cloned().collect();
            let c = byte_costs(&s, &trace(&s, luts)?);
            let late = avg(&c[500..]);
            let second: f64 = c[300..].iter().sum();
            l.max("max_late_microbits_per_byte", micro(late));
            l.max("max_second_millibits", (second * 1e3) as u64);
            ensure!(late <= if pn <= 3 { 0.0016 } else { 0.01 }, "{:.4} bits per byte 200 bytes after the switch", late);
            ensure!(second <= if pn <= 3 { 68.0 } else { 100.0 }, "{:.1} bits for 300 bytes after the switch", second);
            l.states += 4800; l.transitions += 4800; l.traces += 1;
            Ok(())
        });
    // no short input costs much more than its plain size
    let len = c.pick(8usize, 11);
    c.stage("short_two_symbols", &format!("all strings of length {} over {} two-symbol alphabets: every prefix costs at most 8 bits per byte plus an allowance", len, na),
        (1 << len) * na, move |_, case, l| {
            let x = split(case, &[1 << len, na]);
            let s: Vec<u8> = digits(x[0], 2, len).iter().map(|&d| ALPHABETS[x[1] as usize][d]).collect();
            l.describe(|| format!("{:02x?}", s));
            blow_up(&s, luts, l)
        });
    c.stage("short_any_byte", "every byte value x in x, 00x, and 16 other settings", 256 * 18, move |_, case, l| {
        let x = split(case, &[256, 18]);
        let b = x[0] as u8;
        let others = [0u8, 1, 0x20, 0x55, 0x61, 0x7f, 0x80, 0xff];
        let s: Vec<u8> = match x[1] {
            0 => vec![b], 1 => vec![0, b],
            k if k < 10 => { let o = others[k as usize - 2]; vec![o, o, o, o, b, o, b, b] }
            k => { let o = others[k as usize - 10]; vec![b, o, b, o, b, b, o, o, !b] }
        };
        l.describe(|| format!("{:02x?}", s));
        blow_up(&s, luts, l)
    });
    let st = structured(false);
    let sr = &st;
    c.stage("noise", "structured and incompressible inputs: cost per byte never far above 8 bits", st.len() as u64, move |_, case, l| {
        l.describe(|| sr[case as usize].0.clone());
        blow_up(&sr[case as usize].1, luts, l)
    });
    // competitiveness
    c.stage("structured", "structured inputs: every prefix costs at most 2 % and 9 bits per square root of its length more than the best adaptive code of order 0..=6", st.len() as u64, move |_, case, l| {
        l.describe(|| sr[case as usize].0.clone());
        competitive(&sr[case as usize].1, false, luts, l)
    });
    let (phases, rates, slen) = c.pick((6u64, 7u64, 1500usize), (20, 9, 12000));
    c.stage("sources", &format!("{} kinds of sources, rates 1/2 to 1/2^{}, {} phases, {} bytes: every prefix, likewise", SOURCES.len(), rates, phases, slen),
        SOURCES.len() as u64 * rates * phases, move |_, case, l| {
            let x = split(case, &[SOURCES.len() as u64, rates, phases]);
            l.describe(|| format!("{}, p = 1/2^{}, phase {}", SOURCES[x[0] as usize], x[1] + 1, x[2]));
            let kind = x[0] as usize;
            competitive(&source(kind, 0.5f64.powi(x[1] as i32 + 1), x[2], slen), SIMPLE.contains(&kind), luts, l)
        });
    // passages that return
    let far = c.pick(30_000usize, 300_000);
    let gaps: Vec<usize> = vec![0, 1, 3, 10, 31, 99, 100, 101, 316, 999, 1000, 1001, 3162, 9_999, 10_000, 10_001, far];
    let gp = &gaps;
    c.stage("returns", &format!("a passage of 32 or 128 bytes over 2, 16 or 256 symbols returning after {} distances up to {} filled with the same kind of noise or with a counter of 7, 3 phases", gaps.len(), far),
        gaps.len() as u64 * 2 * 4 * 3, move |_, case, l| {
            let x = split(case, &[gp.len() as u64, 2, 4, 3]);
            let (gap, len, kind) = (gp[gp.len() - 1 - x[0] as usize], [32usize, 128][x[1] as usize], x[2]);
            l.describe(|| format!("{} bytes of kind {} after {}, phase {}", len, kind, gap, x[3]));
            if gap == far && l.sampling() { return Ok(()); }
            returns(gap, len, kind, x[3], luts, l)
        });
    // learning is not worn out by a long past
    let pasts = c.pick(&[5_000usize, 70_000, 1_100_000][..], &[5_000, 70_000, 140_000, 300_000, 1_100_000, 2_200_000, 5_000_000]);
    c.stage("late_patterns", &format!("after {:?} bytes of noise over 256 or 16 symbols, a counter of 7 or one byte value: 12 patterns of period 1..=24, 400 bytes each, every one of which is learned too", pasts), pasts.len() as u64 * 4, move |_, case, l| {
        let x = split(case, &[pasts.len() as u64, 4]);
        let (past, kind) = (pasts[pasts.len() - 1 - x[0] as usize], x[1]);
        l.describe(|| format!("patterns after {} bytes of kind {}", past, kind));
        if l.sampling() { return Ok(()); }
        let mut y = 88172645463325252u64;
        let mut draw = || { y ^= y << 13; y ^= y >> 7; y ^= y << 17; (y >> 33) as u8 };
        for _ in 0..20 { draw(); }
        let mut s: Vec<u8> = (0..past).map(|i| match kind { 0 => draw(), 1 => (i % 7) as u8, 2 => b"etaoin shrdlucmf"[(draw() & 15) as usize], _ => b'e' }).collect();
        let patterns: [&[u8]; 12] = [b"q", b"\x00", b"xy", b"et", b"\xff\x00", b"abc", b"\x01\x02\x04\x08\x10", b"the other", b"aaaaaaab", b"0123456789abcdef", b"\xf0\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xfa\xfb", b"sphinx of black quartz.\n"];
        for p in patterns.iter() { s.extend(p.iter().cycle().take(400)); }
        let c = byte_costs(&s, &trace(&s, luts)?);
        for (i, p) in patterns.iter().enumerate() {
            let here = &c[past + 400 * i..past + 400 * (i + 1)];
            let (total, late) = (here.iter().sum::<f64>(), avg(&here[300..]));
            // as measured, with a quarter to spare
            let limit = [78.0, 80.0, 78.0, 112.0, 92.0, 104.0, 198.0, 208.0, 100.0, 208.0, 124.0, 335.0][i];
            l.max("max_late_pattern_percent", (100.0 * total / limit) as u64);
            ensure!(total <= limit, "{:.1} bits for 400 bytes of {:02x?}, {:.1} expected", total, p, limit);
            ensure!(late <= if p.len() <= 4 { 0.002 } else { 0.008 }, "{:.6} bits per byte of {:02x?} in the end", late, p);
        }
        l.states += s.len() as u64 * 8; l.transitions += s.len() as u64 * 8; l.traces += 1;
        Ok(())
    });
    let farthest = c.pick(&[70_000usize, 1_100_000][..], &[70_000, 131_100, 1_100_000, 2_200_000, 4_400_000, 9_000_000]);
    c.stage("returns_far", &format!("the same for a passage of 128 bytes over 16 or 256 symbols returning after {:?} bytes", farthest), farthest.len() as u64 * 3, move |_, case, l| {
        let x = split(case, &[farthest.len() as u64, 3]);
        let (gap, kind) = (farthest[farthest.len() - 1 - x[0] as usize], x[1]);
        l.describe(|| format!("128 bytes of kind {} after {}", kind, gap));
        if l.sampling() { return Ok(()); }
        returns(gap, 128, kind, 0, luts, l)
    });
    c.finish()
}

fn returns(gap: usize, len: usize, kind: u64, phase: u64, luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let mut y = 88172645463325252u64 ^ phase.wrapping_mul(0x9E3779B97F4A7C15);
    let mut draw = || { y ^= y << 13; y ^= y >> 7; y ^= y << 17; (y >> 33) as u8 };
    for _ in 0..20 { draw(); }
    let mut symbol = || match kind { 0 | 1 => draw(), 2 => b"etaoin shrdlucmf"[(draw() & 15) as usize], _ => b'a' + (draw() & 1) };
    let passage: Vec<u8> = (0..len).map(|_| symbol()).collect();
    let filler: Vec<u8> = (0..gap).map(|i| if kind == 1 { (i % 7) as u8 } else { symbol() }).collect();
    let s = [passage.clone(), filler, passage].concat();
    let c = byte_costs(&s, &trace(&s, luts)?);
    let second: f64 = c[s.len() - len..].iter().sum();
    let size = (s.len() as f64).log2();
    let limit = match kind { 0 => 28.0 + 2.8 * size, 1 => 10.0 + 12.0 * size, 2 => 27.0 + 3.0 * size, _ => (len as f64 + 8.0).min(14.0 + size * size / 1.6) };
    l.max(["max_return_noise_percent", "max_return_counter_percent", "max_return_letters_percent", "max_return_two_symbols_percent"][kind as usize], (100.0 * second / limit) as u64);
    ensure!(second <= limit, "{:.1} bits for {} known bytes, {:.1} expected", second, len, limit);
    l.states += s.len() as u64 * 8; l.transitions += s.len() as u64 * 8; l.traces += 1;
    Ok(())
}

fn blow_up(s: &[u8], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let t = trace(s, luts)?;
    let c = byte_costs(s, &t);
    let mut sum = 0.0;
    for i in 0..s.len() {
        sum += c[i];
        let excess = sum - 8.0 * (i + 1) as f64;
        if excess > 0.0 {
            l.max("max_excess_millibits", (excess * 1e3) as u64);
            l.max("max_excess_per_byte_millibits", (excess / (i + 1) as f64 * 1e3) as u64);
        }
        let allowed = 8.0 * (i + 1) as f64 + 1.0 + if i < 16 { 0.0 } else { 0.4 * ((i + 1) as f64).sqrt() };
        ensure!(sum <= allowed, "{:.1} bits for {} bytes", sum, i + 1);
    }
    l.states += t.len() as u64; l.transitions += t.len() as u64; l.traces += 1;
    l.outcome((sum * 1000.0) as u64);
    Ok(())
}
