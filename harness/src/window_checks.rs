//! Stages shared by C07, C08 and C09; the aspect selects what is compared.
use crate::contexts::*;
use mc::inputs::*;
use mc::*;
use demixer::lut::LookUpTables;

fn configs(windows: std::ops::RangeInclusive<usize>, orders: &[usize], shifts: bool) -> Vec<Config> {
    let mut v = vec![];
    for window in windows {
        for &order in orders {
            for shift in 0..window {
                if !shifts && shift != 0 && shift != window - 1 { continue; }
                v.push(Config { window, order, shift });
            }
        }
    }
    v
}

pub fn run(id: &'static str, aspect: Aspect) {
    let mut c = Check::new(id, "model_checking");
    let luts = LookUpTables::new();
    let trained = Trained::new(&luts);
    let (luts, trained) = (&luts, &trained);
    let shrink = aspect == Aspect::Shape;

    let len = c.pick(12usize, 16);
    let cfgs = configs(1..=c.pick(7, 9), &[0, 1, 2, 4], false);
    let nc = cfgs.len() as u64;
    let na = ALPHABETS.len() as u64;
    let cf = &cfgs;
    c.stage("two_symbols", &format!("all strings of length {} over each of {} two-symbol alphabets, {} configurations (window up to {}, order 0,1,2,4, first and last shift)", len, na, nc, cfgs.last().unwrap().window),
        (1u64 << len) * na * nc, move |_, case, l| {
            let x = split(case, &[1 << len, na, nc]);
            let a = ALPHABETS[x[1] as usize];
            let ops: Vec<Op> = (0..len).map(|i| Op::Byte(a[(x[0] >> (len - 1 - i) & 1) as usize])).collect();
            let cfg = cf[x[2] as usize];
            l.describe(|| format!("{:?} {:02x?}", cfg, ops));
            drive(cfg, &ops, aspect, 0, shrink, luts, trained, l)
        });

    let sets: [&[u8]; 5] = [&[0x00, 0x80, 0x40], &[0x00, 0x01, 0x02], &[0x00, 0x80, 0x81], &[0x10, 0x11, 0x30], &[0xff, 0x00, 0x7f]];
    let len3 = c.pick(8usize, 10);
    let n3 = 3u64.pow(len3 as u32);
    let cfgs3 = configs(c.pick(3, 2)..=c.pick(5, 7), &[0, 1, 3], true);
    let nc3 = cfgs3.len() as u64;
    let cf3 = &cfgs3;
    c.stage("three_symbols", &format!("all strings of length {} over each of {} three-symbol alphabets, {} configurations with every shift", len3, sets.len(), nc3),
        n3 * sets.len() as u64 * nc3, move |_, case, l| {
            let x = split(case, &[n3, sets.len() as u64, nc3]);
            let ops: Vec<Op> = digits(x[0], 3, len3).iter().map(|&d| Op::Byte(sets[x[1] as usize][d])).collect();
            let cfg = cf3[x[2] as usize];
            l.describe(|| format!("{:?} {:02x?}", cfg, ops));
            drive(cfg, &ops, aspect, 0, shrink, luts, trained, l)
        });

    let depth = c.pick(10usize, 12);
    let nd = words_up_to(3, depth);
    let cfgs4 = configs(2..=c.pick(5, 6), &[0, 1, 3], false);
    let nc4 = cfgs4.len() as u64;
    let cf4 = &cfgs4;
    c.stage("append_and_remove", &format!("all interleavings of up to {} operations out of append a, append b, remove oldest byte, over 3 alphabets and {} configurations", depth, nc4),
        nd * 3 * nc4, move |_, case, l| {
            let x = split(case, &[nd, 3, nc4]);
            let a = ALPHABETS[x[1] as usize];
            let mut size = 0;
            let cfg = cf4[x[2] as usize];
            let mut ops = vec![];
            for d in word(x[0], 3) {
                match d {
                    2 if size == 0 => return Ok(()),
                    2 => { size -= 1; ops.push(Op::Remove) }
                    d => { size = cfg.window.min(size + 1); ops.push(Op::Byte(a[d])) }
                }
            }
            l.describe(|| format!("{:?} {:02x?}", cfg, ops));
            drive(cfg, &ops, aspect, ops.len().saturating_sub(1), shrink, luts, trained, l)
        });

    let bytes: Vec<(u8, u8)> = (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| (a, b))).collect();
    let by = &bytes;
    c.stage("byte_pairs", "all pairs of byte values x,y in the strings xyxxyyxyx and xxyxyyyxx, window 4, order 2, shift 1",
        65536 * 2, move |_, case, l| {
            let (a, b) = by[(case / 2) as usize];
            let ops: Vec<Op> = (if case % 2 == 0 { "xyxxyyxyx" } else { "xxyxyyyxx" }).chars()
                .map(|ch| Op::Byte(if ch == 'x' { a } else { b })).collect();
            let cfg = Config { window: 4, order: 2, shift: 1 };
            l.describe(|| format!("{:?} {:02x?}", cfg, ops));
            drive(cfg, &ops, aspect, 0, shrink, luts, trained, l)
        });

    // longer windows: every periodic input with a single disturbance
    let orders = if aspect == Aspect::Truth { [2usize, 12, 63] } else { [2, 6, 12] };
    let plen = c.pick(48usize, 96);
    let windows = [7usize, 12, 20, 31];
    let maxp = c.pick(5usize, 7);
    let pats: Vec<Vec<usize>> = (1..=maxp).flat_map(|p| (0..1u64 << p).map(move |v| digits(v, 2, p))).collect();
    let np = pats.len() as u64;
    let pt = &pats;
    c.stage("disturbed_patterns", &format!("every two-symbol pattern of period up to {} repeated to {} bytes, with one foreign byte or a skipped byte at each of 8 places, windows {:?}, orders {:?}", maxp, plen, windows, orders),
        np * 17 * 4 * 3, move |_, case, l| {
            let x = split(case, &[np, 17, 4, 3]);
            let p = &pt[x[0] as usize];
            let mut bytes: Vec<u8> = (0..plen).map(|i| if p[i % p.len()] == 1 { 0x62 } else { 0x61 }).collect();
            let place = plen / 10 + ((x[1] as usize) % 8) * plen / 9;
            if x[1] < 8 { bytes[place] = 0x63 } else if x[1] < 16 { bytes.remove(place); }
            let ops: Vec<Op> = bytes.iter().map(|&b| Op::Byte(b)).collect();
            let cfg = Config { window: windows[x[2] as usize], order: orders[x[3] as usize], shift: x[1] as usize % windows[x[2] as usize] };
            l.describe(|| format!("{:?} {:02x?}", cfg, bytes));
            drive(cfg, &ops, aspect, 0, shrink, luts, trained, l)
        });

    let sat_windows: Vec<usize> = if c.thorough() { vec![990, 1000, 1001, 1002, 1005, 1500] } else { vec![1001, 1006] };
    let nw = sat_windows.len() as u64;
    let sw = &sat_windows;
    c.stage("saturation", &format!("{} inputs around 1000 repetitions, windows {:?}, orders 0 and 1", SATURATING, sat_windows),
        SATURATING * nw * 2, move |_, case, l| {
            let x = split(case, &[SATURATING, nw, 2]);
            let bytes = saturating(x[0]);
            let cfg = Config { window: sw[x[1] as usize], order: x[2] as usize, shift: 5 };
            let ops: Vec<Op> = bytes.iter().map(|&b| Op::Byte(b)).collect();
            l.describe(|| format!("{:?} saturating input {} of {} bytes", cfg, x[0], bytes.len()));
            let skip = if aspect == Aspect::Shape { ops.len().saturating_sub(24) } else { 0 };
            drive(cfg, &ops, aspect, skip, false, luts, trained, l)
        });
    // windows of hundreds to tens of thousands of bytes
    let mut large: Vec<(usize, usize)> = vec![(400, 130), (700, 300)];
    for &w in &[127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097] { for o in [1usize, 3, 8] { large.push((w, o)); } }
    for &(w, o) in c.pick(&[(20_000usize, 2usize), (65_535, 1), (65_536, 2), (65_537, 1), (70_000, 3)][..],
        &[(20_000, 8), (65_535, 3), (65_536, 6), (65_537, 4), (70_000, 2), (131_072, 2), (200_000, 2), (300_000, 1), (1_048_576, 1)][..]) { large.push((w, o)); }
    large.reverse();
    let ng = large.len() as u64;
    let huge = 3u64;
    let lg = &large;
    c.stage("large_windows", &format!("{} inputs of 2.3 windows (noise, repeats just inside and outside of the window, long runs, alternating blocks, counters, words) through {} windows of 127 to {} bytes, {} of them through one of 1048700 bytes", LONG_INPUTS, ng, large[0].0, huge),
        ng * LONG_INPUTS + huge, move |_, case, l| {
            // the slowest ones first
            let (x, window, order) = if case < huge {
                (vec![0, [0, 3, 5][case as usize]], 1_048_700, [2, 1, 1][case as usize])
            } else {
                let x = split(case - huge, &[ng, LONG_INPUTS]);
                let (window, order) = lg[x[0] as usize];
                (x.to_vec(), window, order)
            };
            let cfg = Config { window, order, shift: [0, window - 1, window / 3][(x[1] % 3) as usize] };
            l.describe(|| format!("{:?} long input {}", cfg, x[1]));
            if l.sampling() { return Ok(()); }
            let bytes = long_input(x[1] as usize, window, if case < huge { window * 6 / 5 } else { window * 23 / 10 });
            drive_large(cfg, &bytes, aspect, if case < huge { 4 } else { 12 }, true, luts, trained, l)
        });
    c.stage("long_runs", &format!("one byte value repeated 65534 to 66600 times, at the start or after a different byte, then interrupted ({} inputs), through windows of 65540, 65580 and 140000 bytes, orders 0 and 2", LONG_RUNS),
        LONG_RUNS * 3 * 2, move |_, case, l| {
            let x = split(case, &[LONG_RUNS, 3, 2]);
            let window = [140_000, 65_580, 65_540][x[1] as usize];
            let cfg = Config { window, order: [2, 0][x[2] as usize], shift: [0, window - 1, window / 3][(x[0] % 3) as usize] };
            l.describe(|| format!("{:?} long run {}", cfg, x[0]));
            if l.sampling() { return Ok(()); }
            drive_large(cfg, &long_run(x[0]), aspect, 3, true, luts, trained, l)
        });
    c.finish()
}
