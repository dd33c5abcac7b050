//! C22: context bytes and hashes depend on exactly the bytes they name.
use demixer::util::hash::Fnv1A;
use demixer::util::last_bytes::LastBytesCache;
use mc::*;

fn push(c: &mut LastBytesCache, b: u8) {
    c.start_new_byte();
    for k in (0..8).rev() { c.on_next_bit((b >> k & 1 == 1).into()); }
}

/// Cache after `before`, inside a byte whose seen bits are those of `unf`
/// (leading one marks the length).
fn at(before: &[u8], unf: u8) -> LastBytesCache {
    let mut c = LastBytesCache::new();
    for &b in before { push(&mut c, b); }
    partial(&c, unf)
}

fn partial(c: &LastBytesCache, unf: u8) -> LastBytesCache {
    let mut c = c.clone();
    c.start_new_byte();
    let n = 7 - unf.leading_zeros();
    for k in (0..n).rev() { c.on_next_bit((unf >> k & 1 == 1).into()); }
    c
}

/// Published 64-bit FNV-1a.
fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u128 = 14695981039346656037;
    for &b in bytes { h = (h ^ b as u128) * 1099511628211 % (1u128 << 64); }
    h as u64
}
fn fnv16(bytes: &[u8]) -> u16 {
    let mut h = 14695981039346656037u64;
    for &b in bytes { h = (h ^ b as u64).wrapping_mul(1099511628211); }
    fold16(fold32(h))
}
fn fold32(h: u64) -> u32 { (h >> 32) as u32 ^ (h & 0xffff_ffff) as u32 }
fn fold16(h: u32) -> u16 { (h >> 16) as u16 ^ (h & 0xffff) as u16 }

fn real(bytes: &[u8]) -> (u64, u32, u16) {
    let mk = || { let mut h = Fnv1A::new(); for &b in bytes { h.mix_byte(b); } h };
    (mk().into_u64(), mk().into_u32(), mk().into_u16())
}

fn fnv_case(s: &[u8], l: &mut Local) -> CaseResult {
    let h = fnv(s);
    let want = (h, fold32(h), fold16(fold32(h)));
    let got = real(s);
    l.transitions += 1;
    l.outcome(got.0);
    ensure!(got == want, "hash of {:02x?} is {:x?} instead of {:x?}", s, got, want);
    Ok(())
}

fn main() {
    let mut c = Check::new("C22", "model_checking");
    // Accessors along every history.
    let alpha = [0x00u8, 0x01, 0x7f, 0x80, 0xa5, 0xff];
    let len = c.pick(6u32, 8);
    c.stage("histories", &format!("all byte words of length {} over {} boundary bytes, every bit position: accessors against the written history", len, alpha.len()), (alpha.len() as u64).pow(len), move |_, case, l| {
        let w: Vec<u8> = digits(case, alpha.len() as u64, len as usize).iter().map(|&d| alpha[d as usize]).collect();
        l.describe(|| format!("{:02x?}", w));
        let mut cache = LastBytesCache::new();
        for (i, &b) in w.iter().enumerate() {
            cache.start_new_byte();
            let prev = |k: usize| if i >= k { w[i - k] } else { 0 };
            let mut unf = 1u32;
            for k in (0..8).rev() {
                ensure!(cache.unfinished_byte().raw() as u32 == unf, "unfinished byte {:x} instead of {:x} at byte {} bit {}", cache.unfinished_byte().raw(), unf, i, k);
                ensure!((cache.previous_byte_1(), cache.previous_byte_2(), cache.previous_byte_3()) == (prev(1), prev(2), prev(3)),
                    "previous bytes {:x} {:x} {:x} at byte {}", cache.previous_byte_1(), cache.previous_byte_2(), cache.previous_byte_3(), i);
                // equal suffixes: a cache that only ever saw the suffix
                let short = at(&[prev(3), prev(2), prev(1)], unf as u8);
                ensure!(cache.hash01_16() == short.hash01_16() && cache.hash02_16() == short.hash02_16() && cache.hash03_16() == short.hash03_16(), "hashes depend on older bytes at byte {} bit {}", i, k);
                unf = unf * 2 + (b >> k & 1) as u32;
                cache.on_next_bit((b >> k & 1 == 1).into());
                l.states += 1; l.transitions += 1;
            }
        }
        l.traces += 1;
        Ok(())
    });
    // Order-1 hash: injective over all 256 x 255 suffixes; all of them equal
    // under every older byte pair of a grid.
    c.stage("hash1_injective", "all 256 previous bytes x 255 unfinished bytes: pairwise distinct order-1 hashes", 1, |_, _, l| {
        let mut seen = vec![None; 65536];
        for b1 in 0..=255u8 { for u in 1..=255u8 {
            l.describe(|| format!("{:x} {:x}", b1, u));
            let h = at(&[b1], u).hash01_16() as usize;
            ensure!(seen[h].is_none(), "{:x},{:x} collides with {:?}", b1, u, seen[h]);
            seen[h] = Some((b1, u));
            l.transitions += 1;
        }}
        l.states += 65280; l.traces += 1;
        Ok(())
    });
    let b3s: Vec<u8> = if c.thorough() { (0..=255).collect() } else { (0..=255u8).filter(|b| b % 11 == 0 || b.is_power_of_two() || *b > 250).collect() };
    let n3 = b3s.len();
    c.stage("all_suffixes", &format!("all 65536 (byte 2, byte 1) pairs x {} third bytes x 255 unfinished bytes, two older prefixes each: hashes are functions of the suffix, those of order 2 and 3 the byte hash of it", n3), 65536, move |_, case, l| {
        let (b2, b1) = ((case >> 8) as u8, case as u8);
        let mut h1 = [0u16; 256];
        let mut h2 = [0u16; 256];
        let mut h3 = [0u16; 256];
        l.describe(|| format!("suffix .. {:x} {:x}", b2, b1));
        for (k, &b3) in b3s.iter().enumerate() {
            // walk the bit tree once per prefix
            let caches = [[b3, b2, b1].to_vec(), vec![0x5a, b1, b3, b2, b1], vec![0xff, 0xff, b3, b2, b1]];
            let mut base = vec![];
            for p in &caches { let mut c = LastBytesCache::new(); for &b in p { push(&mut c, b); } base.push(c); }
            for u in 1..=255u8 {
                let a = partial(&base[0], u);
                let (x1, x2, x3) = (a.hash01_16(), a.hash02_16(), a.hash03_16());
                if k == 0 { h1[u as usize] = x1; h2[u as usize] = x2; }
                ensure!(x2 == fnv16(&[b2, b1, u]), "order-2 hash of {:x} {:x} {:x} is {:x}, not the byte hash of these", b2, b1, u, x2);
                ensure!(x3 == fnv16(&[b3, b2, b1, u]), "order-3 hash of {:x} {:x} {:x} {:x} is {:x}, not the byte hash of these", b3, b2, b1, u, x3);
                ensure!(h1[u as usize] == x1, "order-1 hash depends on the third byte ({:x})", b3);
                ensure!(h2[u as usize] == x2, "order-2 hash depends on the third byte ({:x})", b3);
                h3[u as usize] = x3;
                if u & 7 == 5 || k == 0 {
                    for o in &base[1..] {
                        let o = partial(o, u);
                        ensure!((o.hash01_16(), o.hash02_16(), o.hash03_16()) == (x1, x2, x3), "hashes of suffix {:x} {:x} {:x} {:x} depend on older bytes", b3, b2, b1, u);
                    }
                }
                l.transitions += 1;
                l.outcome(x3 as u64);
            }
            l.states += 255;
        }
        l.traces += 1;
        Ok(())
    });
    // Each named byte does influence the hash: changing one byte of the
    // suffix changes the hash for all but a few of the other values.
    let grid = [0x00u8, 0x01, 0x41, 0x80, 0xff];
    c.stage("dependence", "all suffixes over 5 bytes, one position swept over all values: order-k hashes take at least 240 of 256 (sweep) values", 5 * 5 * 5 * 255, move |_, case, l| {
        let d = split(case, &[5, 5, 5, 255]);
        let (x, y, z, u) = (grid[d[0] as usize], grid[d[1] as usize], grid[d[2] as usize], d[3] as u8 + 1);
        l.describe(|| format!("{:x} {:x} {:x} unfinished {:x}", x, y, z, u));
        let count = |f: &dyn Fn(u8) -> u16| { let mut v: Vec<u16> = (0..=255).map(f).collect(); v.sort(); v.dedup(); v.len() };
        let mut min = 256;
        min = min.min(count(&|b| at(&[x, y, b], u).hash02_16()));
        min = min.min(count(&|b| at(&[x, b, z], u).hash02_16()));
        min = min.min(count(&|b| at(&[x, y, b], u).hash03_16()));
        min = min.min(count(&|b| at(&[x, b, z], u).hash03_16()));
        min = min.min(count(&|b| at(&[b, y, z], u).hash03_16()));
        ensure!(min >= 240, "a swept byte gives only {} different hashes", min);
        l.max("max_collisions_of_a_swept_byte", 256 - min as u64);
        let n = { let mut v: Vec<u16> = (1..=255).map(|b| at(&[x, y, z], b).hash02_16()).collect(); v.sort(); v.dedup(); v.len() };
        ensure!(n >= 235, "unfinished bytes give only {} order-2 hashes", n);
        let n = { let mut v: Vec<u16> = (1..=255).map(|b| at(&[x, y, z], b).hash03_16()).collect(); v.sort(); v.dedup(); v.len() };
        ensure!(n >= 235, "unfinished bytes give only {} order-3 hashes", n);
        l.states += 1; l.transitions += 7 * 256; l.traces += 1;
        Ok(())
    });
    // Protocol words.
    let depth = c.pick(13u32, 17);
    c.stage("protocol", &format!("all operation words of depth {} over start, bit 0, bit 1 restricted to at most one refused operation at the end", depth), 3 * (1 << depth), move |_, case, l| {
        // word of bits with a start inserted before each byte; the last
        // operation is a wrong one at every possible place
        let bits = digits(case / 3, 2, depth as usize);
        let wrong = case % 3;
        let stop = (case / 3) as usize % (depth as usize + 1);
        l.describe(|| format!("bits {:?} up to {} wrong {}", bits, stop, wrong));
        let mut c = LastBytesCache::new();
        for (k, &b) in bits[..stop].iter().enumerate() {
            if k % 8 == 0 { c.start_new_byte(); }
            c.on_next_bit((b == 1).into());
            l.transitions += 1;
        }
        let inside = stop % 8 != 0;
        let readers: [fn(&LastBytesCache); 7] = [|c| { c.unfinished_byte(); }, |c| { c.previous_byte_1(); }, |c| { c.previous_byte_2(); }, |c| { c.previous_byte_3(); }, |c| { c.hash01_16(); }, |c| { c.hash02_16(); }, |c| { c.hash03_16(); }];
        match wrong {
            0 => { let mut d = c.clone(); ensure!(refuses(move || d.start_new_byte()) == inside, "start_new_byte after {} bits", stop); }
            1 => { let mut d = c.clone(); ensure!(refuses(move || d.on_next_bit(true.into())) != inside, "on_next_bit after {} bits", stop); }
            _ => for (i, r) in readers.iter().enumerate() { let d = &c; ensure!(refuses(move || r(d)) != inside, "reader {} after {} bits", i, stop); },
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    // FNV-1a.
    c.stage("fnv_vectors", "published vectors of 64-bit FNV-1a", 1, |_, _, l| {
        for (s, h) in [("", 0xcbf29ce484222325u64), ("a", 0xaf63dc4c8601ec8c), ("b", 0xaf63df4c8601f1a5), ("foobar", 0x85944171f73967e8)] {
            l.describe(|| s.to_string());
            ensure!(real(s.as_bytes()).0 == h && fnv(s.as_bytes()) == h, "{}", s);
            l.transitions += 1;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    let max = c.pick(2u32, 3);
    c.stage("fnv_short", &format!("all byte strings of length up to {}", max), 256, move |_, case, l| {
        l.describe(|| format!("first byte {:x}", case));
        let a = case as u8;
        fnv_case(&[a], l)?;
        for b in 0..=255u8 {
            fnv_case(&[a, b], l)?;
            if max == 3 { for d in 0..=255u8 { fnv_case(&[a, b, d], l)?; } }
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    let len = c.pick(8u32, 10);
    c.stage("fnv_words", &format!("all words of length up to {} over 4 bytes, and repetitions of each byte to length 64", len), 4u64.pow(len) + 256, move |_, case, l| {
        let n = 4u64.pow(len);
        if case >= n {
            let s = vec![(case - n) as u8; 64];
            for k in 0..=64 { fnv_case(&s[..k], l)?; }
        } else {
            let a = [0x00u8, 0x7f, 0x80, 0xff];
            let s: Vec<u8> = digits(case, 4, len as usize).iter().map(|&d| a[d as usize]).collect();
            l.describe(|| format!("{:02x?}", s));
            let k = 1 + (case % len as u64) as usize;
            fnv_case(&s[..k], l)?; fnv_case(&s, l)?;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.assume("before three bytes are complete the missing previous bytes read as zero");
    c.finish()
}
