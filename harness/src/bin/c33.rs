//! C33: the experiment tools report exactly the experiments they announce.
use std::process::Command;

use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::lut::log2::Log2Lut;
use demixer::lut::LookUpTables;
use demixer::random::MersenneTwister;
use mc::tools::*;
use mc::*;

const LENGTHS: [u32; 16] = [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 100, 200, 300, 1000, 2000, 10_000];
const RATES: [(u32, u32); 4] = [(1, 2), (1, 3), (2, 2), (2, 3)];
const BITS: u32 = 10_000;

/// What one line of the simulation tool says.
#[derive(Debug)]
struct Line { power: f64, length: u32, factor: u32, addend: u32, probability: f64, cost: f64, ideal: f64, overhead: f64, ratio: f64, zeros: u32, ones: u32 }

fn parse(text: &str) -> Result<Vec<Line>, String> {
    let mut v = vec![];
    let (mut power, mut length) = (f64::NAN, 0);
    fn field<T: std::str::FromStr>(s: &str, name: &str) -> Result<T, String> {
        let i = s.find(name).ok_or_else(|| format!("no {:?} in {:?}", name, s))? + name.len();
        let rest = s[i..].trim_start_matches(|c: char| c == ':' || c == '=' || c == ' ');
        let end = rest.find(|c: char| c == ',' || c == ' ').unwrap_or(rest.len());
        rest[..end].parse().map_err(|_| format!("{:?} of {:?} is no number", name, s))
    }
    for s in text.lines() {
        if s.starts_with("power") { power = field(s, "power")?; }
        else if s.starts_with("single run length") { length = field(s, "single run length")?; }
        else if s.starts_with("LUT") {
            v.push(Line { power, length, factor: field(s, "factor")?, addend: field(s, "addend")?, probability: field(s, "probability")?,
                cost: field(s, "total cost")?, ideal: field(s, "ideal cost")?, overhead: field(s, "overhead")?, ratio: field(s, "ratio")?,
                zeros: field(s, "zeros")?, ones: field(s, "ones")? });
        } else if !s.trim().is_empty() { return Err(format!("unexpected line {:?}", s)); }
    }
    Ok(v)
}

fn near(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 0.6e-7 + b.abs() * 1e-12 }

fn main() {
    let mut c = Check::new("C33", "model_checking");
    let tables = LookUpTables::new();
    let luts = &tables;
    let text = output(&mut Command::new(tool("entropy_simulations")));
    let parsed = text.and_then(|t| parse(&t));
    let pr = &parsed;
    let log = Log2Lut::new();
    let lg = &log;
    let lines = 37 * 16 * 4u64;
    c.stage("simulations", "every line of entropy_simulations: 37 powers x 16 run lengths x 4 rate tables, the simulation of 10000 bits repeated", lines, move |_, case, l| {
        let all = pr.as_ref().map_err(|e| e.clone())?;
        ensure!(all.len() as u64 == lines, "{} lines instead of {}", all.len(), lines);
        let d = split(case, &[37, 16, 4]);
        let line = &all[case as usize];
        let power = (18 - d[0] as i32) as f64 / 2.0;
        let (length, (factor, addend)) = (LENGTHS[d[1] as usize], RATES[d[2] as usize]);
        l.describe(|| format!("power {} run length {} rates {}/{}", power, length, factor, addend));
        ensure!(line.power == power && line.length == length && (line.factor, line.addend) == (factor, addend), "line {} is about {:?}", case, line);
        let probability = 1.0 / (1.0 + power.exp());
        let rates = DeceleratingEstimatorRates::make(factor, addend);
        let mut e = DeceleratingEstimator::new();
        let (mut cost, mut exact, mut zeros) = (0f64, 0f64, 0u32);
        // zeros come evenly spaced with the wanted frequency
        let mut phase = probability;
        for i in 0..BITS {
            if i % length == 0 { e = DeceleratingEstimator::new(); }
            phase += probability;
            let zero = phase >= 1.0;
            if zero { phase -= 1.0; zeros += 1; }
            let bit: Bit = if zero { Bit::Zero } else { Bit::One };
            let p = e.prediction().to_fix_u32::<FinalProbability>();
            cost += p.estimate_cost(bit, lg).as_f64();
            let f = p.as_f64();
            exact -= if zero { f.log2() } else { (1.0 - f).log2() };
            e.update(bit, &rates);
            l.transitions += 1;
        }
        let ones = BITS - zeros;
        let share = zeros as f64 / BITS as f64;
        let ideal = zeros as f64 * -share.log2() + ones as f64 * -(1.0 - share).log2();
        ensure!((line.zeros, line.ones) == (zeros, ones), "{} zeros {} ones instead of {} and {}", line.zeros, line.ones, zeros, ones);
        ensure!(near(line.probability, probability), "probability {} instead of {}", line.probability, probability);
        ensure!(near(line.cost, cost), "cost {} instead of {}", line.cost, cost);
        ensure!((line.cost - exact).abs() <= BITS as f64 * 2e-3, "cost {} where the predictions cost {}", line.cost, exact);
        ensure!(near(line.ideal, ideal), "ideal cost {} instead of {}", line.ideal, ideal);
        ensure!(near(line.overhead, cost / ideal - 1.0), "overhead {} instead of {}", line.overhead, cost / ideal - 1.0);
        ensure!(near(line.ratio, BITS as f64 / cost), "ratio {} instead of {}", line.ratio, BITS as f64 / cost);
        l.states += BITS as u64; l.traces += 1;
        l.outcome(line.cost.to_bits());
        Ok(())
    });
    c.stage("benchmark", "checksums of bench_sigmoid: the same thousand generated values squashed and stretched back, ten thousand times", 1, move |_, _, l| {
        l.describe(|| "bench_sigmoid".to_string());
        if l.sampling() { return Ok(()); }
        let text = output(&mut Command::new(tool("bench_sigmoid")))?;
        let sums: Vec<i64> = text.split(|c: char| c == '(' || c == ')').filter_map(|s| s.rsplit_once("sum: ").and_then(|x| x.1.trim().parse().ok())).collect();
        let mut g = MersenneTwister::default();
        let (mut squashed, mut stretched, mut n) = (0i64, 0i64, 0);
        while n < 1000 {
            let x = g.next_int64() as i32 as i64;
            if x < -12 * (1 << 27) || x > 12 * (1 << 27) { continue; }
            let sq: FractOnlyU32 = luts.squash_lut().squash(StretchedProbD::new((x >> 6) as i32, 21));
            squashed += sq.raw() as i64;
            stretched += luts.stretch_lut().stretch(sq).raw() as i64;
            n += 1;
        }
        ensure!(sums == [squashed * 10_000, squashed * 10_000, stretched * 10_000], "checksums {:?} instead of {:?}", sums, [squashed * 10_000, squashed * 10_000, stretched * 10_000]);
        l.states += 1000; l.transitions += 2000; l.traces += 1;
        Ok(())
    });
    c.assume("the estimator, the logarithm and sigmoid tables and the generator are the crate's own, whose behaviour C14, C17, C18 and C27 decide");
    c.finish()
}
