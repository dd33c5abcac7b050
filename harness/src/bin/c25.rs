//! C25: totals and breakdowns reported by the tool and the statistics against
//! sums over the probabilities the predictor returns.
#[allow(dead_code)]
#[path = "../coder.rs"]
mod coder;
#[allow(dead_code)]
#[path = "../predict.rs"]
mod predict;
use std::process::Command;

use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::stats::PredictionStatisticsType as T;
use demixer::predictor::Predictor;
use predict::*;
use mc::tools::*;
use mc::inputs::*;
use mc::*;

/// Child process: the four statistics of the library for one file.
fn child(file: &str) {
    let bytes = std::fs::read(file).unwrap();
    let luts = LookUpTables::new();
    let mut p = Predictor::new(&luts);
    for &b in &bytes {
        p.start_new_byte();
        for i in (0..8).rev() { p.predict(); p.update((b >> i & 1 == 1).into()); }
    }
    p.print_state(&[T::TotalCostUsingLuts, T::AverageContextLength, T::CostsAndOccurrencesPerContextType, T::CostsAndOccurrencesPerSymbolValue]);
}

/// Largest order the predictor is configured with (maximum over all files of
/// the matching contexts it can see; beyond it no context is ever reported).
const ORDER: usize = 20;

#[derive(Default, Clone)]
struct Cell { bits: u64, cost: f64, occur: u64 }

struct Expected { len: usize, exact: f64, lut: f64, lut_err: f64, contexts: u64, cells: Vec<Cell>, symbols: Vec<(u64, f64)>, uncovered: u64 }

fn expected(bytes: &[u8], luts: &LookUpTables) -> Result<Expected, String> {
    let tr = trace(bytes, luts)?;
    let mut e = Expected { len: bytes.len(), exact: 0.0, lut: 0.0, lut_err: 0.0, contexts: 0, cells: vec![Cell::default(); 25], symbols: vec![(0, 0.0); 256], uncovered: 0 };
    let mut src = TreeHistorySource::new(10_000_000, ORDER, luts);
    let mut states = CollectedContextStates::new(ORDER);
    for (at, &b) in bytes.iter().enumerate() {
        src.start_new_byte();
        e.symbols[b as usize].0 += 1;
        for i in (0..8).rev() {
            let bit = b >> i & 1 == 1;
            let p = tr[at * 8 + 7 - i];
            let lut = FinalProbability::new(p, 23).estimate_cost(bit.into(), luts.log2_lut()).as_f64();
            let exact = bit_cost(p, bit);
            e.lut_err = e.lut_err.max((lut - exact).abs());
            e.exact += exact;
            e.lut += lut;
            e.symbols[b as usize].1 += lut;
            states.reset();
            src.gather_history_states(&mut states);
            let n = states.items().len();
            e.contexts += n as u64;
            if n == 0 { e.uncovered += 1 } else {
                let unary = states.items().iter().filter(|s| !s.is_for_node()).count();
                let cell = &mut e.cells[4.min(n - 1) * 5 + 4.min(unary)];
                cell.bits += 1; cell.cost += lut; cell.occur += states.items()[n - 1].occurrence_count() as u64;
            }
            let costs: Vec<CostTrackers> = states.items().iter().filter(|s| s.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            src.process_input_bit(bit.into(), &costs);
        }
    }
    Ok(e)
}

/// The number after `key` (and any of " =:") on the line starting with it.
fn field(out: &str, key: &str) -> Result<f64, String> {
    let l = out.lines().find(|l| l.starts_with(key)).ok_or(format!("no line {:?} in {:?}", key, out))?;
    let t = l[key.len()..].trim_start_matches(|c| " =:".contains(c)).split_whitespace().next().unwrap_or("");
    t.parse::<f64>().map_err(|_| format!("no number on line {:?}", l))
}

fn near(what: &str, got: f64, want: f64, tol: f64) -> CaseResult {
    ensure!((got - want).abs() <= tol, "{} is reported as {} instead of {:.6}", what, got, want);
    Ok(())
}

/// Relative slack of summing in another order, plus half a printed digit.
fn slack(v: f64, digit: f64) -> f64 { v.abs() * 1e-9 + digit * 0.51 + 1e-9 }

/// The durations and speeds have to agree with one another and with the time the run took.
fn timing(out: &str, n: f64, wall: f64) -> CaseResult {
    let speed = |unit: &str| -> Result<f64, String> {
        let line = out.lines().find(|l| l.starts_with("speed") && l.trim_end().ends_with(unit)).ok_or(format!("no speed in {:?} in {:?}", unit, out))?;
        line.split_whitespace().filter_map(|t| t.parse().ok()).next().ok_or(format!("no number on line {:?}", line))
    };
    let (first, total) = (field(out, "initialization")?, field(out, "total duration")?);
    ensure!(first >= 0.0 && first <= total + 0.001 && total <= wall * 1.02 + 0.01, "initialization {} s, total duration {} s, but the run took {} s", first, total, wall);
    if n == 0.0 || total < 0.005 { return Ok(()); }
    let (ns, bps) = (speed("ns per byte")?, speed("bytes per second")?);
    let off = 0.001 / total;
    near("speed in ns per byte", ns, total / n * 1e9, total / n * 1e9 * off + 0.001)?;
    near("speed in bytes per second", bps, n / total, n / total * off * 1.3 + 0.001)
}

fn summary(bytes: &[u8], e: &Expected, sc: &Scratch, l: &mut Local) -> CaseResult {
    let f = sc.file(bytes)?;
    // a clock that is set meanwhile must not count, so a mismatch has to repeat
    let mut out = String::new();
    for attempt in 0..3 {
        let begun = std::time::Instant::now();
        out = output(Command::new(tool("demixer")).arg(&f.0))?;
        match timing(&out, e.len as f64, begun.elapsed().as_secs_f64()) {
            Ok(()) => break,
            Err(m) => if attempt == 2 { return Err(m); },
        }
    }
    l.transitions += bytes.len() as u64 * 8;
    near("input length", field(&out, "input length")?, e.len as f64, 0.0)?;
    near("total cost in bits", field(&out, "total cost in bits")?, e.exact, slack(e.exact, 1e-3))?;
    near("total cost in bytes", field(&out, "total cost in bytes")?, e.exact / 8.0, slack(e.exact, 1e-3))?;
    if e.len > 0 {
        let n = e.len as f64;
        near("average cost", field(&out, "average cost")?, e.exact / n, slack(e.exact / n, 1e-5))?;
        let ratio = n * 8.0 / e.exact;
        near("compression ratio", field(&out, "compression ratio")?, ratio, slack(ratio, 1e-3))?;
        near("average context length", field(&out, "Average context length")?, e.contexts as f64 / (n * 8.0), 0.51e-3 + 1e-9)?;
    }
    let lut = field(&out, "Total cost (computed using LUTs)")?;
    near("table-based total", lut, e.lut / 8.0, slack(e.lut, 1e-2))?;
    // tables follow the exact logarithm closely, bit by bit and so in total
    ensure!(e.lut_err <= 0.002, "a bit's table cost is off by {}", e.lut_err);
    near("table-based total against the estimate", lut * 8.0, e.exact, 0.002 * 8.0 * e.len as f64 + 0.1)?;
    l.outcome(e.exact.to_bits());
    Ok(())
}

fn breakdowns(bytes: &[u8], e: &Expected, sc: &Scratch, l: &mut Local) -> CaseResult {
    let f = sc.file(bytes)?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = output(Command::new(exe).arg("--print-state").arg(&f.0))?;
    near("table-based total", field(&out, "Total cost (computed using LUTs)")?, e.lut / 8.0, slack(e.lut, 1e-2))?;
    // per context type
    let mut seen = vec![false; 25];
    for line in out.lines().filter(|l| l.starts_with("order ") && l.contains("unary")) {
        let num = |k: &str| -> Result<f64, String> {
            let p = line.find(k).ok_or(format!("no {} in {:?}", k, line))?;
            line[p + k.len()..].trim_start_matches(|c| " =:".contains(c)).split(|c: char| c == ',' || c.is_whitespace()).next().unwrap()
                .parse::<f64>().map_err(|_| format!("no number after {} in {:?}", k, line))
        };
        let (o, u) = (num("order")? as usize, num("unary")? as usize);
        ensure!(o < 5 && u < 5 && !seen[o * 5 + u], "unexpected or repeated row {:?}", line);
        seen[o * 5 + u] = true;
        let c = &e.cells[o * 5 + u];
        near(&format!("count of order {} unary {}", o, u), num("count")?, c.bits as f64 / 8.0, slack(c.bits as f64, 1e-2))?;
        near(&format!("cost of order {} unary {}", o, u), num("cost")?, c.cost / 8.0, slack(c.cost, 1e-2))?;
        if c.bits > 0 { near(&format!("average occurrences of order {} unary {}", o, u), num("avg occur")?, c.occur as f64 / c.bits as f64, slack(c.occur as f64 / c.bits as f64, 1e-3))?; }
    }
    for k in 0..25 { ensure!(seen[k] || e.cells[k].bits == 0, "order {} unary {} with {} bits is not listed", k / 5, k % 5, e.cells[k].bits); }
    // per symbol: rows of "code char count cost" cells
    let at = out.find("by symbol value").ok_or("no symbol table")?;
    let mut listed = vec![false; 256];
    for line in out[at..].lines().skip(1) {
        let tokens: Vec<&str> = line.split_whitespace().collect();
        // a cell ends with its cost, and '|' stands before every cell but the first
        for cell in tokens.split_inclusive(|t| t.len() > 1 && t.contains('.')) {
            let t = if cell[0] == "|" { &cell[1..] } else { cell };
            if t.len() < 3 { continue; }
            let code = usize::from_str_radix(t[0], 16).map_err(|_| format!("cell {:?}", t))?;
            let count: u64 = t[t.len() - 2].parse().map_err(|_| format!("cell {:?}", t))?;
            let cost: f64 = t[t.len() - 1].parse().map_err(|_| format!("cell {:?}", t))?;
            ensure!(code < 256 && !listed[code], "symbol {:x} listed twice", code);
            listed[code] = true;
            ensure!(count == e.symbols[code].0, "symbol {:x} occurs {} times, reported {}", code, e.symbols[code].0, count);
            near(&format!("cost of symbol {:x}", code), cost, e.symbols[code].1 / 8.0, slack(e.symbols[code].1, 1e-2))?;
        }
    }
    for k in 0..256 { ensure!(listed[k] || e.symbols[k].0 == 0, "symbol {:x} with {} occurrences is not listed", k, e.symbols[k].0); }
    l.transitions += bytes.len() as u64 * 8;
    Ok(())
}

fn check(bytes: &[u8], luts: &LookUpTables, sc: &Scratch, l: &mut Local) -> CaseResult {
    let e = expected(bytes, luts)?;
    summary(bytes, &e, sc, l)?;
    breakdowns(bytes, &e, sc, l)?;
    l.count("bits_without_context", e.uncovered);
    l.states += bytes.len() as u64 * 8 + 1; l.traces += 2;
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--print-state" { child(&a[2]); return; }
    let mut c = Check::new("C25", "model_checking");
    let luts = LookUpTables::new();
    let luts = &luts;
    let sc = Scratch::new("c25");
    let sc = &sc;
    let alpha = [0x00u8, 0x61, 0xff];
    let len = c.pick(4u32, 7);
    c.stage("short_files", &format!("all files of length 0..={} over {} bytes", len, alpha.len()), words_up_to(3, len as usize), move |_, case, l| {
        let w: Vec<u8> = word(case, 3).iter().map(|&d| alpha[d as usize]).collect();
        l.describe(|| format!("{:02x?}", w));
        check(&w, luts, sc, l)
    });
    c.stage("every_byte", "every byte value x as the files x, xx and axbxx", 256 * 3, move |_, case, l| {
        let x = (case / 3) as u8;
        let w = match case % 3 { 0 => vec![x], 1 => vec![x, x], _ => vec![b'a', x, b'b', x, x] };
        l.describe(|| format!("{:02x?}", w));
        check(&w, luts, sc, l)
    });
    let len = c.pick(8u32, 11);
    c.stage("two_symbols", &format!("all files of length {} over two symbols", len), 1 << len, move |_, case, l| {
        let w: Vec<u8> = digits(case, 2, len as usize).iter().map(|&d| [0x41u8, 0xc2][d as usize]).collect();
        l.describe(|| format!("{:02x?}", w));
        check(&w, luts, sc, l)
    });
    let st: Vec<(String, Vec<u8>)> = structured(c.thorough()).into_iter().filter(|(_, b)| b.len() <= 80_000).collect();
    c.stage("structured", "long structured files", st.len() as u64, move |_, case, l| {
        let (n, b) = &st[case as usize];
        l.describe(|| format!("{} ({} bytes)", n, b.len()));
        check(b, luts, sc, l)
    });
    // counters and buffers beyond sixteen bits
    let mut large: Vec<(String, Vec<u8>)> = vec![("ff x 1100000".into(), vec![0xff; 1_100_000])];
    let noise = |n: usize, m: u64| -> Vec<u8> { let mut s = 88172645463325252u64; (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s % m) as u8 }).collect() };
    for n in [65_535usize, 65_536, 65_537, 131_072] { large.push((format!("noise, {} bytes", n), noise(n, 256))); }
    for n in [8_191usize, 8_192, 8_193, 16_384, 32_768] { large.push((format!("noise of 5 symbols, {} bytes", n), noise(n, 5))); }
    for b in [0u8, 0x7c, 0xff] { large.push((format!("{:02x} x 70000", b), vec![b; 70_000])); }
    large.push(("200000 bytes of two alternating symbols and noise".into(), noise(200_000, 256).iter().enumerate().map(|(i, &x)| if i % 8 == 7 { x } else { [b'p', b'|'][i & 1] }).collect()));
    if c.thorough() {
        large.push(("noise, 2^20 bytes".into(), noise(1 << 20, 256)));
        large.push(("noise of 3 symbols, 3000000 bytes".into(), noise(3_000_000, 3)));
    }
    let lg = &large;
    c.stage("large_files", &format!("{} files of up to {} bytes: sizes around and at multiples of powers of two, symbols occurring more than 65535 times", lg.len(), lg.iter().map(|f| f.1.len()).max().unwrap()), lg.len() as u64, move |_, case, l| {
        let (n, b) = &lg[lg.len() - 1 - case as usize];
        l.describe(|| n.clone());
        if l.sampling() { return Ok(()); }
        check(b, luts, sc, l)
    });
    sc.remove();
    c.assume("an empty file has no average and no ratio, so only its totals are checked");
    c.assume("bits seen by no context have no row in the breakdown by context type; they are covered by the totals and the breakdown by symbol");
    c.finish()
}
