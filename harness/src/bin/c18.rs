//! C18: logarithms and symbol costs are accurate for every probability.
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::fixed_point::{FixU32, FixU64, FixedPoint};
use demixer::fixed_point::types::*;
use demixer::lut::log2::{one_plus_log2_restricted, Log2Lut};
use mc::*;

#[derive(Debug, Clone, Copy)]
struct U32F<const F: u8>(u32);
impl<const F: u8> FixedPoint for U32F<F> {
    type Raw = u32;
    fn raw(&self) -> u32 { self.0 }
    fn new_unchecked(raw: u32) -> Self { U32F(raw) }
    const FRACTIONAL_BITS: u8 = F;
}
#[derive(Debug, Clone, Copy)]
struct U64F<const F: u8>(u64);
impl<const F: u8> FixedPoint for U64F<F> {
    type Raw = u64;
    fn raw(&self) -> u64 { self.0 }
    fn new_unchecked(raw: u64) -> Self { U64F(raw) }
    const FRACTIONAL_BITS: u8 = F;
}

/// Table error: truncation to 11 mantissa bits plus rounding to half a unit.
const LOW: f64 = 0.0007045 + 0.00024415;
const HIGH: f64 = 0.00024415;

fn check_log(raw: u128, fract: u8, got: f64) -> CaseResult {
    // log2 computed with care for 64-bit values
    let ideal = {
        let lz = raw.leading_zeros();
        let top = (raw << lz >> 64) as u64;
        (top as f64 / (1u64 << 63) as f64).log2() + (127 - lz as i32 - fract as i32) as f64
    };
    let d = got - ideal;
    ensure!(d <= HIGH && d >= -LOW, "log2({} / 2^{}) = {} instead of {}", raw, fract, got, ideal);
    Ok(())
}

fn log32<const F: u8>(r: u32, lut: &Log2Lut) -> CaseResult { check_log(r as u128, F, U32F::<F>(r).log2(lut).as_f64()) }
fn log64<const F: u8>(r: u64, lut: &Log2Lut) -> CaseResult { check_log(r as u128, F, U64F::<F>(r).log2(lut).as_f64()) }

fn main() {
    let mut c = Check::new("C18", "model_checking");
    let lut = Log2Lut::new();
    let lut = &lut;
    const BLOCK: u32 = 1 << 13;
    c.stage("costs", "every final probability 1..2^23-1 x both bits: cost positive, within table precision of the ideal, monotone in the probability, symmetric under bit swap and complement",
        (1 << 23) / BLOCK as u64, move |_, case, l| {
            let from = (case as u32 * BLOCK).max(1);
            l.describe(|| format!("probabilities from {}", from));
            let fp = |p: u32| FinalProbability::new(p, 23);
            let mut prev = if from > 1 { Some((fp(from - 1).estimate_cost(Bit::Zero, lut).raw(), fp(from - 1).estimate_cost(Bit::One, lut).raw())) } else { None };
            for p in from..(case as u32 + 1) * BLOCK {
                let z = fp(p).estimate_cost(Bit::Zero, lut);
                let o = fp(p).estimate_cost(Bit::One, lut);
                for (q, cost) in [(p, &z), ((1 << 23) - p, &o)] {
                    ensure!(cost.raw() > 0, "probability {}: cost {} is not positive", q, cost.raw());
                    let ideal = -(q as f64 / (1 << 23) as f64).log2();
                    let d = cost.as_f64() - ideal;
                    ensure!(d >= -HIGH && d <= LOW, "probability {}: cost {} instead of {}", q, cost.as_f64(), ideal);
                }
                let m = fp((1 << 23) - p).estimate_cost(Bit::One, lut).raw();
                ensure!(m == z.raw(), "probability {}: {} for zero but {} for the complement's one", p, z.raw(), m);
                if let Some((pz, po)) = prev {
                    ensure!(z.raw() <= pz, "cost of zero rises at {}", p);
                    ensure!(o.raw() >= po, "cost of one falls at {}", p);
                }
                prev = Some((z.raw(), o.raw()));
                l.transitions += 3;
            }
            l.states += BLOCK as u64; l.traces += 1;
            l.outcome(prev.unwrap().0 as u64);
            Ok(())
        });
    c.stage("final_probability", "every raw value 0..=2^23 becomes a probability strictly between 0 and 1, unchanged when legal", 1, |_, _, l| {
        for r in 0..=1u32 << 23 {
            let p = FinalProbability::new(r, 23).raw();
            ensure!(p >= 1 && p < 1 << 23, "{} becomes {}", r, p);
            ensure!(p == r.max(1).min((1 << 23) - 1), "{} becomes {}", r, p);
            l.transitions += 1;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    let stride = c.pick(1u64, 1);
    c.stage("log2_u32", "binary logarithm of every 32-bit value with 0, 23 or 31 fractional bits in turn, and of the table boundaries with all of 0, 1, 11, 23, 31",
        65536, move |_, case, l| {
            l.describe(|| format!("upper half {:04x}", case));
            for low in 0..65536u32 {
                let r = (case as u32) << 16 | low;
                if r == 0 || r as u64 % stride != 0 { continue; }
                match low % 3 { 0 => log32::<0>(r, lut)?, 1 => log32::<23>(r, lut)?, _ => log32::<31>(r, lut)? }
                l.transitions += 1;
            }
            // all formats at the block borders, plus the crate's own types
            for r in [(case as u32) << 16, (case as u32) << 16 | 0xffff, case as u32, (case as u32) << 4 | 1] {
                if r == 0 { continue; }
                log32::<0>(r, lut)?; log32::<1>(r, lut)?; log32::<11>(r, lut)?; log32::<23>(r, lut)?; log32::<31>(r, lut)?;
                check_log(r as u128, 0, NoFractU32::new_unchecked(r).log2(lut).as_f64())?;
                if r < 1 << 31 { check_log(r as u128, 31, FractOnlyU32::new(r, 31).log2(lut).as_f64())?; }
            }
            l.states += 65536; l.traces += 1;
            Ok(())
        });
    c.stage("log2_u64", "binary logarithm of 64-bit values: every bit length x every 13-bit mantissa x 6 patterns of the remaining bits, 0, 31, 40 and 63 fractional bits",
        64 * 64, move |_, case, l| {
            let len = (case / 64) as u32 + 1;
            l.describe(|| format!("bit length {} mantissas {}/64", len, case % 64));
            for m in (case % 64) * 128..(case % 64 + 1) * 128 {
                for pat in [0u64, u64::max_value(), 0x5555_5555_5555_5555, 1, 1 << 50, 0x8000_0000_0000_0000] {
                    // leading one, 13 mantissa bits, then the pattern
                    let full = 1u64 << 63 | m << 50 | pat >> 14 & ((1 << 50) - 1);
                    let r = full >> (64 - len);
                    log64::<0>(r, lut)?; log64::<31>(r, lut)?; log64::<40>(r, lut)?; log64::<63>(r, lut)?;
                    check_log(r as u128, 0, NoFractU64::new_unchecked(r).log2(lut).as_f64())?;
                    if r < 1 << 63 { check_log(r as u128, 63, FractOnlyU64::new(r, 63).log2(lut).as_f64())?; }
                    l.transitions += 6;
                }
            }
            l.states += 128; l.traces += 1;
            Ok(())
        });
    c.stage("log2_monotone", "log2 over all mantissas of every bit length never decreases and is additive over doublings", 32, move |_, case, l| {
        let len = case as u32 + 1;
        l.describe(|| format!("bit length {}", len));
        let mut prev = i32::min_value();
        for m in 0..1u32 << (len - 1).min(16) {
            let r = (1u32 << (len - 1)) | if len > 17 { m << (len - 17) } else { m };
            let v = NoFractU32::new(r, 0).log2(lut).raw();
            ensure!(v >= prev, "falls at {}", r);
            if len < 32 {
                let d = NoFractU32::new(r * 2, 0).log2(lut).raw();
                ensure!(d == v + 2048, "doubling {} changes the logarithm from {} to {}", r, v, d);
            }
            let w = NoFractU64::new(r as u64, 0).log2(lut).raw();
            ensure!(w == v, "64-bit logarithm of {} is {} instead of {}", r, w, v);
            prev = v;
            l.transitions += 3; l.states += 1;
        }
        l.traces += 1;
        Ok(())
    });
    let stride = c.pick(4001u32, 101);
    c.stage("precise_log2", &format!("bit-by-bit logarithm for inputs in [1/2, 1) with stride {} and at both ends: within 1e-6", stride), 1024, move |_, case, l| {
        let from = (1u32 << 30) + case as u32 * (1 << 20);
        l.describe(|| format!("from {}", from));
        let mut v: Vec<u32> = (from..from + (1 << 20)).step_by(stride as usize).collect();
        v.extend(from..from + 64);
        v.extend(from + (1 << 20) - 64..from + (1 << 20));
        for r in v {
            let f = FractOnlyU32::new(r, 31);
            let g = one_plus_log2_restricted(f).as_f64();
            let e = f.as_f64().log2() + 1.0;
            ensure!((g - e).abs() < 1e-6, "log2({}) + 1 = {} instead of {}", r, g, e);
            l.transitions += 1;
        }
        l.states += 1; l.traces += 1;
        Ok(())
    });
    c.finish()
}
