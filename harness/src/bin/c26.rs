//! C26: the history listing tool against a listing derived from the file alone.
use std::fmt::Write;
use std::process::Command;

use mc::inputs::structured;
use mc::tools::*;
use mc::*;

/// Highest order and number of bytes the tool lists.
const ORDER: usize = demixer::MAX_ORDER;
const LISTED: usize = 1234;

/// The listing as the file itself determines it: for every bit the bits which
/// followed earlier occurrences of each context, the last seven of them.
fn listing(w: &[u8], l: &mut Local) -> String {
    let mut out = String::new();
    for (n, &x) in w.iter().take(LISTED).enumerate() {
        writeln!(out, "Processing byte with index: {}, {}", n, x as char).unwrap();
        // starts of the bytes that followed earlier occurrences, per order
        let mut after: Vec<Vec<usize>> = vec![(0..n).collect()];
        for k in 1..=ORDER.min(n) {
            let next: Vec<usize> = after[k - 1].iter().cloned().filter(|&s| s >= k && w[s - k] == w[n - k]).collect();
            if next.is_empty() { break; }
            after.push(next);
        }
        for i in (0..8).rev() {
            let mut shown = vec![];
            for starts in &after {
                let bits: Vec<u32> = starts.iter().filter(|&&s| i == 7 || w[s] >> (i + 1) == x >> (i + 1)).map(|&s| w[s] as u32 >> i & 1).collect();
                if bits.is_empty() { break; }
                let last = &bits[bits.len().saturating_sub(7)..];
                shown.push(format!("{:x}", last.iter().fold(1, |p, b| p << 1 | b)));
                l.max("max_followers", bits.len() as u64);
            }
            if !shown.is_empty() { writeln!(out, "{}: {}", i, shown.join(", ")).unwrap(); }
            l.max("max_contexts_on_a_line", shown.len() as u64);
            l.states += shown.len() as u64;
        }
        writeln!(out).unwrap();
    }
    out
}

fn check(w: &[u8], sc: &Scratch, l: &mut Local) -> CaseResult {
    let want = listing(w, l);
    let f = sc.file(w)?;
    for source in ["brute_force", "fat_map", "tree"] {
        let got = output(Command::new(tool("print_histories")).arg(source).arg(&f.0))?;
        if got != want {
            let mut at = "(none)".to_string();
            for (g, x) in got.lines().chain(std::iter::once("(end)")).zip(want.lines().chain(std::iter::once("(end)"))) {
                if x.starts_with("Processing") { at = x.to_string(); }
                ensure!(g == x, "{} lists {:?} instead of {:?} in the section {:?}", source, g, x, at);
            }
            return Err(format!("{} lists different text", source));
        }
        l.transitions += w.len().min(LISTED) as u64 * 8;
        l.traces += 1;
    }
    l.outcome(want.len() as u64);
    Ok(())
}

fn main() {
    let mut c = Check::new("C26", "model_checking");
    let sc = Scratch::new("c26");
    let sc = &sc;
    let len = c.pick(5usize, 7);
    for alpha in [[0x00u8, 0x80, 0xff], [0x61, 0x62, 0x0a]] {
        c.stage(if alpha[0] == 0 { "short_files" } else { "short_text" }, &format!("all files of length 1..={} over {:02x?}", len, alpha), words_up_to(3, len) - 1, move |_, case, l| {
            let w: Vec<u8> = word(case + 1, 3).iter().map(|&d| alpha[d as usize]).collect();
            l.describe(|| format!("{:02x?}", w));
            check(&w, sc, l)
        });
    }
    c.stage("every_byte", "every byte value x as the file x, axbx", 512, move |_, case, l| {
        let x = (case / 2) as u8;
        let w = if case % 2 == 0 { vec![x] } else { vec![b'a', x, b'b', x] };
        l.describe(|| format!("{:02x?}", w));
        check(&w, sc, l)
    });
    let len = c.pick(8u32, 12);
    c.stage("two_symbols", &format!("all files of length {} over two symbols", len), 1 << len, move |_, case, l| {
        let w: Vec<u8> = digits(case, 2, len as usize).iter().map(|&d| [0x41u8, 0xc2][d as usize]).collect();
        l.describe(|| format!("{:02x?}", w));
        check(&w, sc, l)
    });
    // long matches around the highest order, and files around the listed length
    let mut v: Vec<(String, Vec<u8>)> = structured(c.thorough()).into_iter()
        .filter(|(_, b)| b.len() > 0 && b.len() <= 20_000).collect();
    if !c.thorough() {
        // the brute-force source is slow on repetitive files
        v.retain(|(n, _)| !n.contains("saturating") && !n.contains(" x 1300") && !n.contains("10010")
            && (!n.contains("word over") || n.contains("[61, 62]")));
        for b in [0u8, 0x55, 0xff] { v.push((format!("{:02x} x 400", b), vec![b; 400])); }
    }
    for n in [1usize, 2, 61, 62, 63, 64, 65, 66, 100] {
        let mut r: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
        r.push(0xee); let t = r.clone(); r.push(0xdd); r.extend(&t); r.extend(&t[1..]);
        v.push((format!("block of {} repeated", n + 1), r));
        v.push((format!("zeros, {} of them, then ones", n), [vec![0u8; n], vec![0xff; n], vec![0u8; n]].concat()));
    }
    for n in [1232usize, 1233, 1234, 1235, 1236, 3000] {
        if n != 1235 && !c.thorough() { continue; }
        v.push((format!("{} bytes of period 11", n), (0..n).map(|i| (i % 11 * 23) as u8).collect()));
        v.push((format!("{} bytes of noise", n), (0..n as u32).map(|i| (i.wrapping_mul(i).wrapping_mul(2654435761) >> 28) as u8).collect()));
    }
    let v = &v;
    c.stage("structured", "long structured files, repeats around the highest order, lengths around the number of listed bytes", v.len() as u64, move |_, case, l| {
        let (n, b) = &v[case as usize];
        l.describe(|| format!("{} ({} bytes)", n, b.len()));
        check(b, sc, l)
    });
    sc.remove();
    c.finish()
}
