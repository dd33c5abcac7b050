//! C03: compressing any file with the predictor and decompressing restores it.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use demixer::lut::LookUpTables;
use mc::inputs::*;
use predict::*;
use mc::*;

fn round_trip(bytes: &[u8], luts: &LookUpTables, l: &mut Local) -> CaseResult {
    let (data, probs) = compress(bytes, luts);
    let (back, used) = decompress(&data, bytes.len(), luts);
    if back != bytes {
        let at = (0..bytes.len()).find(|&i| back.get(i) != Some(&bytes[i])).unwrap_or(0);
        return Err(format!("byte {} comes back as {:02x?} instead of {:02x}", at, back.get(at), bytes[at]));
    }
    ensure!(used == data.len(), "{} of {} compressed bytes consumed", used, data.len());
    let cost: f64 = byte_costs(bytes, &probs).iter().sum();
    ensure!(data.len() as f64 <= cost * (1.0 + 1e-6) / 8.0 + 6.0,
        "compressed to {} bytes, predicted cost {:.2} bytes", data.len(), cost / 8.0);
    l.states += bytes.len() as u64 * 16;
    l.transitions += bytes.len() as u64 * 16;
    l.traces += 1;
    l.outcome(data.iter().fold(0, |h, &b| mix(h, b as u64)));
    l.max("max_compressed", data.len() as u64);
    Ok(())
}

fn main() {
    let mut c = Check::new("C03", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let len = c.pick(9usize, 12);
    let na = ALPHABETS.len() as u64;
    c.stage("two_symbols", &format!("all strings of length {} over {} two-symbol alphabets", len, na), (1 << len) * na, move |_, case, l| {
        let x = split(case, &[1 << len, na]);
        let bytes: Vec<u8> = digits(x[0], 2, len).iter().map(|&d| ALPHABETS[x[1] as usize][d]).collect();
        l.describe(|| format!("{:02x?}", bytes));
        round_trip(&bytes, luts, l)
    });
    c.stage("single_bytes", "the empty string, every single byte, every byte doubled", 513, move |_, case, l| {
        let bytes = if case == 0 { vec![] } else { vec![((case - 1) / 2) as u8; 1 + ((case - 1) % 2) as usize] };
        l.describe(|| format!("{:02x?}", bytes));
        round_trip(&bytes, luts, l)
    });
    let pairs: Vec<(u8, u8)> = if c.thorough() { (0..65536u32).map(|i| ((i >> 8) as u8, i as u8)).collect() }
        else { let s = [0u8, 1, 2, 0x0f, 0x10, 0x20, 0x41, 0x61, 0x7f, 0x80, 0x81, 0xaa, 0xc0, 0xf0, 0xfe, 0xff];
            s.iter().flat_map(|&a| s.iter().map(move |&b| (a, b))).collect() };
    let pr = &pairs;
    c.stage("byte_pairs", &format!("{} pairs of bytes x,y in xyxxyyxyx", pairs.len()), pairs.len() as u64, move |_, case, l| {
        let (x, y) = pr[case as usize];
        let bytes: Vec<u8> = "xyxxyyxyx".chars().map(|c| if c == 'x' { x } else { y }).collect();
        l.describe(|| format!("{:02x?}", bytes));
        round_trip(&bytes, luts, l)
    });
    let maxp = c.pick(5usize, 7);
    let plen = c.pick(150usize, 400);
    let pats: Vec<Vec<usize>> = (1..=maxp).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let pt = &pats;
    c.stage("disturbed_patterns", &format!("every pattern of period up to {} over {{'a','n'}} repeated to {} bytes with one foreign or skipped byte at 8 places", maxp, plen),
        pats.len() as u64 * 16, move |_, case, l| {
            let x = split(case, &[pt.len() as u64, 16]);
            let p = &pt[x[0] as usize];
            let mut bytes: Vec<u8> = (0..plen).map(|i| if p[i % p.len()] == 1 { b'n' } else { b'a' }).collect();
            let place = 3 + (x[1] as usize % 8) * plen / 8;
            if x[1] < 8 { bytes[place] = 0xe3 } else { bytes.remove(place); }
            l.describe(|| format!("{:02x?}", bytes));
            round_trip(&bytes, luts, l)
        });
    let st = structured(c.thorough());
    let sr = &st;
    c.stage("structured", "long structured inputs: de Bruijn, Fibonacci, Thue-Morse, counters, noise, text, runs, distant repeats, counter saturation", st.len() as u64, move |_, case, l| {
        l.describe(|| sr[case as usize].0.clone());
        round_trip(&sr[case as usize].1, luts, l)
    });
    let lengths = c.pick(&[66_000usize, 1_150_000][..], &[66_000, 1_150_000, 2_300_000, 10_100_000]);
    c.stage("long_files", &format!("files of {:?} bytes: noise whose beginning returns at the end, letters, one byte value", lengths), lengths.len() as u64 * 3, move |_, case, l| {
        let x = split(case, &[lengths.len() as u64, 3]);
        let n = lengths[lengths.len() - 1 - x[0] as usize];
        l.describe(|| format!("{} bytes of kind {}", n, x[1]));
        if l.sampling() { return Ok(()); }
        let _share = Share::take(if n > 5_000_000 { 2_500 } else { 800 });
        let mut y = 88172645463325252u64;
        let mut draw = || { y ^= y << 13; y ^= y >> 7; y ^= y << 17; (y >> 33) as u8 };
        let mut s: Vec<u8> = (0..n).map(|_| match x[1] { 0 => draw(), 1 => b"etaoin shrdlucmf"[(draw() & 15) as usize], _ => 0xff }).collect();
        for i in 0..500 { s[n - 500 + i] = s[i]; }
        round_trip(&s, luts, l)
    });
    c.assume("every encoder and decoder run uses predictors created for that run; the decoder is told the length");
    c.finish()
}
