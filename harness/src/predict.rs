//! Helpers around the whole predictor: traces of predictions, costs, coding.
use crate::coder::*;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;

pub fn bits(bytes: &[u8]) -> impl Iterator<Item = bool> + '_ {
    bytes.iter().flat_map(|&b| (0..8).rev().map(move |i| b >> i & 1 == 1))
}

/// Raw probabilities (of bit 0, 23 fractional bits) for every bit of the input.
pub fn trace(bytes: &[u8], luts: &LookUpTables) -> Result<Vec<u32>, String> {
    let mut p = Predictor::new(luts);
    let mut v = Vec::with_capacity(bytes.len() * 8);
    for (at, &b) in bytes.iter().enumerate() {
        p.start_new_byte();
        for i in (0..8).rev() {
            let pr = p.predict().raw();
            if pr == 0 || pr >= P_ONE {
                return Err(format!("byte {} bit {}: probability {} of {}", at, i, pr, P_ONE));
            }
            v.push(pr);
            p.update((b >> i & 1 == 1).into());
        }
    }
    Ok(v)
}

pub fn bit_cost(p: u32, bit: bool) -> f64 {
    let p = p as f64 / P_ONE as f64;
    -(if bit { 1.0 - p } else { p }).log2()
}

/// Cost in bits of every byte.
pub fn byte_costs(bytes: &[u8], trace: &[u32]) -> Vec<f64> {
    let all: Vec<f64> = bits(bytes).zip(trace).map(|(b, &p)| bit_cost(p, b)).collect();
    all.chunks(8).map(|c| c.iter().sum()).collect()
}

/// Bits which the adaptive binary code (Krichevsky, Trofimov) that knows the last
/// `order` bytes and the beginning of the current one needs for every prefix.
pub fn adaptive_code(s: &[u8], order: usize) -> Vec<f64> {
    let mut counts: std::collections::HashMap<u64, [f64; 2]> = Default::default();
    let mut sum = 0.0;
    (0..s.len()).map(|i| {
        let context = (1..=order).fold(0u64, |h, j| h << 9 | if i >= j { 256 + s[i - j] as u64 } else { 0 });
        let mut begun = 1u64;
        for b in (0..8).rev() {
            let bit = s[i] >> b & 1;
            let n = counts.entry(context << 8 | begun).or_insert([0.0; 2]);
            sum -= ((n[bit as usize] + 0.5) / (n[0] + n[1] + 1.0)).log2();
            n[bit as usize] += 1.0;
            begun = begun << 1 | bit as u64;
        }
        sum
    }).collect()
}

pub fn compress(bytes: &[u8], luts: &LookUpTables) -> (Vec<u8>, Vec<u32>) {
    let mut sink = Sink::new(Fault::None);
    let mut probs = vec![];
    {
        let mut e = Encoder::new(&mut sink);
        let mut p = Predictor::new(luts);
        for &b in bytes {
            p.start_new_byte();
            for i in (0..8).rev() {
                let pr: FinalProbability = p.predict();
                let bit: Bit = (b >> i & 1 == 1).into();
                probs.push(pr.raw());
                e.encode_bit(pr, bit);
                p.update(bit);
            }
        }
    }
    (sink.data, probs)
}

pub fn decompress(data: &[u8], len: usize, luts: &LookUpTables) -> (Vec<u8>, usize) {
    let mut source = Source::new(data, Fault::None);
    let mut out = vec![];
    {
        let mut d = Decoder::new(&mut source);
        let mut p = Predictor::new(luts);
        for _ in 0..len {
            p.start_new_byte();
            let mut b = 0u8;
            for _ in 0..8 {
                let pr = p.predict();
                let bit = d.decode_bit(pr);
                p.update(bit);
                b = b << 1 | bit.is_1() as u8;
            }
            out.push(b);
        }
    }
    let pos = source.pos;
    (out, pos)
}
